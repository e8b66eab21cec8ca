package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func (fr *Frame) val(o *opnd) Value {
	if o.reg >= 0 {
		return fr.regs[o.reg]
	}
	return o.c
}

func (fr *Frame) vals(os []opnd) []Value {
	out := make([]Value, len(os))
	for i := range os {
		out[i] = fr.val(&os[i])
	}
	return out
}

func (w *Worker) nilCheck(v Value) {
	if t, ok := v.p.(*Term); ok {
		panic(unsupported("symbolic pointer " + t.ref()))
	}
	if v.n>>32 == 0 {
		w.throw("invalid memory address or nil pointer dereference")
	}
}

func hLoad(w *Worker, st *State, fr *Frame, ci *CInstr) ctl {
	p := fr.val(&ci.x)
	w.nilCheck(p)
	fr.regs[ci.dst] = st.load(p, ci.t)
	return cNext
}

func hStore(w *Worker, st *State, fr *Frame, ci *CInstr) ctl {
	p := fr.val(&ci.x)
	w.nilCheck(p)
	st.store(p, ci.yt, fr.val(&ci.y))
	return cNext
}

func hMove(w *Worker, st *State, fr *Frame, ci *CInstr) ctl {
	fr.regs[ci.dst] = fr.val(&ci.x)
	return cNext
}

func hUnOp(w *Worker, st *State, fr *Frame, ci *CInstr) ctl {
	x := fr.val(&ci.x)
	var r Value
	switch ci.tok {
	case token.NOT:
		if t, ok := x.sym(); ok {
			r = mkVal(mkNot(t))
		} else {
			r = boolVal(x.n == 0)
		}
	case token.SUB:
		switch ci.xt.kind {
		case KInt:
			if t, ok := x.sym(); ok {
				r = mkVal(mkNeg(t))
			} else {
				r = Value{n: -x.n & mask(ci.xt.w)}
			}
		case KFloat:
			r = floatVal(-fl(x), ci.xt.w)
		default:
			panic(unsupported("unary minus"))
		}
	case token.XOR:
		if t, ok := x.sym(); ok {
			r = mkVal(mkBvNot(t))
		} else {
			r = Value{n: ^x.n & mask(ci.xt.w)}
		}
	default:
		panic(unsupported("unary " + ci.tok.String()))
	}
	fr.regs[ci.dst] = r
	return cNext
}

func fl(v Value) float64 {
	if v.p != nil {
		panic(unsupported("symbolic float"))
	}
	return math.Float64frombits(v.n)
}

var binOps = map[token.Token]Op{token.ADD: OAdd, token.SUB: OSub, token.MUL: OMul, token.AND: OAnd, token.OR: OOr, token.XOR: OXor}

func hBinOp(w *Worker, st *State, fr *Frame, ci *CInstr) ctl {
	x, y := fr.val(&ci.x), fr.val(&ci.y)
	fr.regs[ci.dst] = w.binop(st, ci.tok, ci.xt, ci.yt, x, y)
	return cNext
}

func (w *Worker) binop(st *State, tok token.Token, xt, yt *TypeInfo, x, y Value) Value {
	switch tok {
	case token.EQL:
		return mkVal(w.eq(st, xt, x, y))
	case token.NEQ:
		return mkVal(mkNot(w.eq(st, xt, x, y)))
	}
	switch xt.kind {
	case KInt:
		return w.intop(st, tok, xt, yt, x, y)
	case KFloat:
		a, b := fl(x), fl(y)
		switch tok {
		case token.ADD:
			return floatVal(a+b, xt.w)
		case token.SUB:
			return floatVal(a-b, xt.w)
		case token.MUL:
			return floatVal(a*b, xt.w)
		case token.QUO:
			return floatVal(a/b, xt.w)
		case token.LSS:
			return boolVal(a < b)
		case token.LEQ:
			return boolVal(a <= b)
		case token.GTR:
			return boolVal(a > b)
		case token.GEQ:
			return boolVal(a >= b)
		}
	case KString:
		switch tok {
		case token.ADD:
			if a, ok := goString(x); ok {
				if b, ok := goString(y); ok {
					return strVal(a + b)
				}
			}
			return mkStr(append(strBytes(x), strBytes(y)...))
		case token.LSS:
			return mkVal(bytesLess(strBytes(x), strBytes(y)))
		case token.LEQ:
			return mkVal(mkNot(bytesLess(strBytes(y), strBytes(x))))
		case token.GTR:
			return mkVal(bytesLess(strBytes(y), strBytes(x)))
		case token.GEQ:
			return mkVal(mkNot(bytesLess(strBytes(x), strBytes(y))))
		}
	case KPtr:
		// uintptr style arithmetic on unsafe pointers is not modelled.
	}
	panic(unsupported("binop " + tok.String() + " on " + xt.String()))
}

// bytesLess is lexicographic order as one term.
func bytesLess(a, b []Value) *Term {
	n := min(len(a), len(b))
	r := tBool(len(a) < len(b))
	for i := n - 1; i >= 0; i-- {
		x, y := a[i].term(8), b[i].term(8)
		r = mkOr(mkUlt(x, y), mkAnd(mkEq(x, y), r))
	}
	return r
}

func bytesEq(a, b []Value) *Term {
	if len(a) != len(b) {
		return tFalse
	}
	r := tTrue
	for i := range a {
		r = mkAnd(r, mkEq(a[i].term(8), b[i].term(8)))
		if r == tFalse {
			return r
		}
	}
	return r
}

func (w *Worker) intop(st *State, tok token.Token, xt, yt *TypeInfo, x, y Value) Value {
	wd := xt.w
	xs, sx := x.sym()
	ys, sy := y.sym()
	if !sx && !sy {
		a, b := x.n, y.n
		switch tok {
		case token.ADD:
			return Value{n: (a + b) & mask(wd)}
		case token.SUB:
			return Value{n: (a - b) & mask(wd)}
		case token.MUL:
			return Value{n: (a * b) & mask(wd)}
		case token.AND:
			return Value{n: a & b}
		case token.OR:
			return Value{n: a | b}
		case token.XOR:
			return Value{n: a ^ b}
		case token.AND_NOT:
			return Value{n: a &^ b}
		case token.QUO, token.REM:
			if b == 0 {
				w.throw("integer divide by zero")
			}
			if xt.signed {
				if tok == token.QUO {
					return Value{n: evalBin(OSdiv, wd, a, b)}
				}
				return Value{n: evalBin(OSrem, wd, a, b)}
			}
			if tok == token.QUO {
				return Value{n: a / b}
			}
			return Value{n: a % b}
		case token.SHL, token.SHR:
			if yt.signed && sext(b, yt.w) < 0 {
				w.throw("negative shift amount")
			}
			if tok == token.SHL {
				if b >= uint64(wd) {
					return Value{}
				}
				return Value{n: a << b & mask(wd)}
			}
			if xt.signed {
				return Value{n: uint64(sext(a, wd)>>min(b, 63)) & mask(wd)}
			}
			if b >= uint64(wd) {
				return Value{}
			}
			return Value{n: a >> b}
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			var lt, gt bool
			if xt.signed {
				p, q := sext(a, wd), sext(b, wd)
				lt, gt = p < q, p > q
			} else {
				lt, gt = a < b, a > b
			}
			switch tok {
			case token.LSS:
				return boolVal(lt)
			case token.LEQ:
				return boolVal(!gt)
			case token.GTR:
				return boolVal(gt)
			default:
				return boolVal(!lt)
			}
		}
		panic(unsupported("intop " + tok.String()))
	}
	if !sx {
		xs = tConst(x.n, wd)
	}
	if !sy {
		if yt != nil && (tok == token.SHL || tok == token.SHR) {
			ys = tConst(y.n, yt.w)
		} else {
			ys = tConst(y.n, wd)
		}
	}
	if op, ok := binOps[tok]; ok {
		return mkVal(mkBin(op, xs, ys))
	}
	switch tok {
	case token.AND_NOT:
		return mkVal(mkBin(OAnd, xs, mkBvNot(ys)))
	case token.QUO, token.REM:
		if w.decide(st, mkEq(ys, tConst(0, wd))) {
			w.throw("integer divide by zero")
		}
		op := OUdiv
		switch {
		case xt.signed && tok == token.QUO:
			op = OSdiv
		case xt.signed:
			op = OSrem
		case tok == token.REM:
			op = OUrem
		}
		return mkVal(mkBin(op, xs, ys))
	case token.SHL, token.SHR:
		if yt.signed && w.decide(st, mkSlt(ys, tConst(0, yt.w))) {
			w.throw("negative shift amount")
		}
		switch {
		case yt.w < wd:
			ys = mkZext(ys, wd)
		case yt.w > wd:
			ys = mkIte(mkUlt(ys, tConst(uint64(wd), yt.w)), mkExtract(ys, 0, wd), tConst(uint64(wd), wd))
		}
		switch {
		case tok == token.SHL:
			return mkVal(mkBin(OShl, xs, ys))
		case xt.signed:
			return mkVal(mkBin(OAshr, xs, ys))
		}
		return mkVal(mkBin(OLshr, xs, ys))
	}
	lt := mkUlt
	if xt.signed {
		lt = mkSlt
	}
	switch tok {
	case token.LSS:
		return mkVal(lt(xs, ys))
	case token.LEQ:
		return mkVal(mkNot(lt(ys, xs)))
	case token.GTR:
		return mkVal(lt(ys, xs))
	case token.GEQ:
		return mkVal(mkNot(lt(xs, ys)))
	}
	panic(unsupported("intop " + tok.String()))
}

// eq is Go's == on two values of type t.
func (w *Worker) eq(st *State, t *TypeInfo, x, y Value) *Term {
	switch t.kind {
	case KBool:
		return mkEq(x.boolTerm(), y.boolTerm())
	case KInt:
		return mkEq(x.term(t.w), y.term(t.w))
	case KFloat:
		return tBool(fl(x) == fl(y))
	case KString:
		if a, ok := goString(x); ok {
			if b, ok := goString(y); ok {
				return tBool(a == b)
			}
		}
		return bytesEq(strBytes(x), strBytes(y))
	case KPtr, KChan, KMap:
		return tBool(x.n == y.n)
	case KSlice, KFunc:
		return tBool(x.p == nil && y.p == nil)
	case KIface:
		a, _ := x.p.(*Iface)
		b, _ := y.p.(*Iface)
		if a == nil || b == nil {
			return tBool(a == nil && b == nil)
		}
		if a.t != b.t {
			return tFalse
		}
		if !types.Comparable(a.t.t) {
			w.throw("comparing uncomparable type " + a.t.String())
		}
		if ti, ok := a.v.p.(*TypeInfo); ok { // reflect type
			tj, _ := b.v.p.(*TypeInfo)
			return tBool(ti == tj)
		}
		return w.eq(st, a.t, a.v, b.v)
	case KStruct:
		a, b := aggCells(x, t), aggCells(y, t)
		r := tTrue
		for i, f := range t.fields {
			r = mkAnd(r, w.eq(st, f, cellsVal(f, a[t.offs[i]:]), cellsVal(f, b[t.offs[i]:])))
		}
		return r
	case KArray:
		a, b := aggCells(x, t), aggCells(y, t)
		r := tTrue
		for i := 0; i < t.n; i++ {
			o := i * t.elem.cells
			r = mkAnd(r, w.eq(st, t.elem, cellsVal(t.elem, a[o:]), cellsVal(t.elem, b[o:])))
		}
		return r
	}
	panic(unsupported("== on " + t.String()))
}

func aggCells(v Value, t *TypeInfo) []Value {
	if a, ok := v.p.(*Agg); ok {
		return a.cells
	}
	return make([]Value, t.cells)
}

func cellsVal(t *TypeInfo, c []Value) Value {
	if t.agg() {
		return Value{p: &Agg{c[:t.cells:t.cells]}}
	}
	return c[0]
}

func valCells(t *TypeInfo, v Value) []Value {
	if t.agg() {
		return aggCells(v, t)
	}
	return []Value{v}
}

func jump(w *Worker, st *State, fr *Frame, target int) ctl {
	fr.prev = fr.block
	fr.block = target
	fr.pc = 0
	b := &fr.fn.blocks[target]
	if len(b.phis) > 0 {
		k := 0
		for k < len(b.preds) && b.preds[k] != fr.prev {
			k++
		}
		if len(b.phis) == 1 {
			fr.regs[b.phis[0].dst] = fr.val(&b.phis[0].edges[k])
		} else {
			var buf [16]Value
			tmp := buf[:0]
			for i := range b.phis {
				tmp = append(tmp, fr.val(&b.phis[i].edges[k]))
			}
			for i := range b.phis {
				fr.regs[b.phis[i].dst] = tmp[i]
			}
		}
	}
	return cJump
}

func hJump(w *Worker, st *State, fr *Frame, ci *CInstr) ctl {
	return jump(w, st, fr, fr.fn.blocks[fr.block].succs[0])
}

func hIf(w *Worker, st *State, fr *Frame, ci *CInstr) ctl {
	x := fr.val(&ci.x)
	var c bool
	if t, ok := x.sym(); ok {
		c = w.decide(st, t)
	} else {
		c = x.n != 0
	}
	s := fr.fn.blocks[fr.block].succs
	if c {
		return jump(w, st, fr, s[0])
	}
	return jump(w, st, fr, s[1])
}

func hExtract(w *Worker, st *State, fr *Frame, ci *CInstr) ctl {
	fr.regs[ci.dst] = fr.val(&ci.x).p.(*Agg).cells[ci.k]
	return cNext
}

func hMakeInterface(w *Worker, st *State, fr *Frame, ci *CInstr) ctl {
	fr.regs[ci.dst] = Value{p: &Iface{ci.xt, fr.val(&ci.x)}}
	return cNext
}

func hAlloc(w *Worker, st *State, fr *Frame, ci *CInstr) ctl {
	fr.regs[ci.dst] = ptrVal(st.alloc(max(ci.xt.cells, 1)), 0)
	return cNext
}

func hMakeClosure(w *Worker, st *State, fr *Frame, ci *CInstr) ctl {
	f := fr.val(&ci.x).p.(*FuncV)
	fr.regs[ci.dst] = Value{p: &FuncV{fn: f.fn, env: fr.vals(ci.args)}}
	return cNext
}

func hFieldAddr(w *Worker, st *State, fr *Frame, ci *CInstr) ctl {
	p := fr.val(&ci.x)
	w.nilCheck(p)
	fr.regs[ci.dst] = Value{n: p.n + uint64(ci.k)}
	return cNext
}

func hField(w *Worker, st *State, fr *Frame, ci *CInstr) ctl {
	v := fr.val(&ci.x)
	if a, ok := v.p.(*Agg); ok {
		fr.regs[ci.dst] = cellsVal(ci.t, a.cells[ci.k:])
	} else {
		fr.regs[ci.dst] = zeroOf(ci.t)
	}
	return cNext
}

func widen(v Value, t *TypeInfo) *Term {
	x := v.term(t.w)
	if t.w == 64 {
		return x
	}
	if t.signed {
		return mkSext(x, 64)
	}
	return mkZext(x, 64)
}

func conc64(v Value, t *TypeInfo) int64 {
	if t.signed {
		return sext(v.n, t.w)
	}
	return int64(v.n)
}

// index checks v against n and returns a concrete index.
func (w *Worker) index(st *State, v Value, t *TypeInfo, n int) int {
	if _, ok := v.sym(); !ok {
		i := conc64(v, t)
		if i < 0 || i >= int64(n) {
			w.throw(fmt.Sprintf("index out of range [%d] with length %d", i, n))
		}
		return int(i)
	}
	x := widen(v, t)
	if !w.decide(st, mkUlt(x, tConst(uint64(n), 64))) {
		w.throw("index out of range [<sym>]")
	}
	return int(w.concretize(st, mkVal(x), 64))
}

func hIndexAddr(w *Worker, st *State, fr *Frame, ci *CInstr) ctl {
	x, y := fr.val(&ci.x), fr.val(&ci.y)
	if ci.xt.kind == KSlice {
		s, _ := x.p.(*SliceV)
		if s == nil {
			s = &SliceV{}
		}
		i := w.index(st, y, ci.yt, s.len)
		fr.regs[ci.dst] = ptrVal(s.obj, s.off+i*ci.xt.elem.cells)
		return cNext
	}
	w.nilCheck(x)
	arr := ci.xt.elem
	i := w.index(st, y, ci.yt, arr.n)
	fr.regs[ci.dst] = Value{n: x.n + uint64(i*arr.elem.cells)}
	return cNext
}

func hIndex(w *Worker, st *State, fr *Frame, ci *CInstr) ctl {
	x, y := fr.val(&ci.x), fr.val(&ci.y)
	if ci.xt.kind == KString {
		fr.regs[ci.dst] = w.strIndex(st, x, y, ci.yt)
		return cNext
	}
	a := aggCells(x, ci.xt)
	i := w.index(st, y, ci.yt, ci.xt.n)
	fr.regs[ci.dst] = cellsVal(ci.t, a[i*ci.t.cells:])
	return cNext
}

func (w *Worker) strIndex(st *State, x, y Value, yt *TypeInfo) Value {
	n := strLen(x)
	if _, ok := y.sym(); ok && n <= 256 {
		t := widen(y, yt)
		if !w.decide(st, mkUlt(t, tConst(uint64(n), 64))) {
			w.throw("index out of range [<sym>]")
		}
		r := strByte(x, n-1).term(8)
		for i := n - 2; i >= 0; i-- {
			r = mkIte(mkEq(t, tConst(uint64(i), 64)), strByte(x, i).term(8), r)
		}
		return mkVal(r)
	}
	return strByte(x, w.index(st, y, yt, n))
}

func hSlice(w *Worker, st *State, fr *Frame, ci *CInstr) ctl {
	x := fr.val(&ci.x)
	in := ci.in.(*ssa.Slice)
	var obj uint32
	var off, ln, cp, ec int
	isStr := ci.xt.kind == KString
	switch ci.xt.kind {
	case KString:
		ln = strLen(x)
		cp = ln
	case KSlice:
		s, _ := x.p.(*SliceV)
		if s == nil {
			s = &SliceV{}
		}
		obj, off, ln, cp = s.obj, s.off, s.len, s.cap
		ec = ci.xt.elem.cells
	case KPtr:
		w.nilCheck(x)
		obj, off = ptrSplit(x)
		ln = ci.xt.elem.n
		cp = ln
		ec = ci.xt.elem.elem.cells
	default:
		panic(unsupported("slice of " + ci.xt.String()))
	}
	get := func(o *opnd, v ssa.Value, def int) Value {
		if v == nil {
			return intVal(def)
		}
		x := fr.val(o)
		return mkVal(widen(x, typeOf(v.Type())))
	}
	lo := get(&ci.args[0], in.Low, 0)
	hi := get(&ci.args[1], in.High, ln)
	mx := get(&ci.args[2], in.Max, cp)
	_, s1 := lo.sym()
	_, s2 := hi.sym()
	_, s3 := mx.sym()
	if s1 || s2 || s3 {
		ok := mkNot(mkUlt(tConst(uint64(cp), 64), mx.term(64)))
		ok = mkAnd(ok, mkNot(mkUlt(mx.term(64), hi.term(64))))
		ok = mkAnd(ok, mkNot(mkUlt(hi.term(64), lo.term(64))))
		if !w.decide(st, ok) {
			w.throw("slice bounds out of range [<sym>]")
		}
		lo = Value{n: w.concretize(st, lo, 64)}
		hi = Value{n: w.concretize(st, hi, 64)}
		mx = Value{n: w.concretize(st, mx, 64)}
	}
	l, h, m := lo.n, hi.n, mx.n
	if m > uint64(cp) || h > m || l > h {
		w.throw(fmt.Sprintf("slice bounds out of range [%d:%d:%d] with capacity %d", int64(l), int64(h), int64(m), cp))
	}
	if isStr {
		if s, ok := goString(x); ok {
			fr.regs[ci.dst] = strVal(s[l:h])
		} else {
			fr.regs[ci.dst] = mkStr(x.p.(*SymStr).b[l:h])
		}
		return cNext
	}
	if obj == 0 {
		fr.regs[ci.dst] = Value{} // slicing nil
		return cNext
	}
	fr.regs[ci.dst] = Value{p: &SliceV{obj, off + int(l)*ec, int(h - l), int(m - l)}}
	return cNext
}

func hSliceToArrayPtr(w *Worker, st *State, fr *Frame, ci *CInstr) ctl {
	s, _ := fr.val(&ci.x).p.(*SliceV)
	n := ci.t.elem.n
	if s == nil {
		if n > 0 {
			w.throw("cannot convert slice with length 0 to array or pointer to array")
		}
		fr.regs[ci.dst] = Value{}
		return cNext
	}
	if s.len < n {
		w.throw("cannot convert slice to array or pointer to array")
	}
	fr.regs[ci.dst] = ptrVal(s.obj, s.off)
	return cNext
}

const maxAlloc = 1 << 22

func hMakeSlice(w *Worker, st *State, fr *Frame, ci *CInstr) ctl {
	ec := max(ci.t.elem.cells, 0)
	l := fr.val(&ci.x)
	c := fr.val(&ci.y)
	_, s1 := l.sym()
	_, s2 := c.sym()
	if s1 || s2 {
		lt, ct := widen(l, ci.xt), widen(c, ci.yt)
		lim := tConst(maxAlloc, 64)
		// Lengths beyond the engine's limit are treated as out of range: a
		// native run would panic or exhaust memory for most of them.
		if !w.decide(st, mkUlt(lt, lim)) {
			w.throw("makeslice: len out of range")
		}
		if !w.decide(st, mkAnd(mkUlt(ct, lim), mkNot(mkUlt(ct, lt)))) {
			w.throw("makeslice: cap out of range")
		}
		l = Value{n: w.concretize(st, mkVal(lt), 64)}
		c = Value{n: w.concretize(st, mkVal(ct), 64)}
	} else {
		l = Value{n: uint64(conc64(l, ci.xt))}
		c = Value{n: uint64(conc64(c, ci.yt))}
	}
	if int64(l.n) < 0 || l.n > 1<<40 {
		w.throw("makeslice: len out of range")
	}
	if int64(c.n) < int64(l.n) || c.n > 1<<40 {
		w.throw("makeslice: cap out of range")
	}
	if c.n > maxAlloc*8 {
		panic(unsupported("huge slice"))
	}
	o := st.alloc(int(c.n) * ec)
	fr.regs[ci.dst] = Value{p: &SliceV{o, 0, int(l.n), int(c.n)}}
	return cNext
}

func hMakeMap(w *Worker, st *State, fr *Frame, ci *CInstr) ctl {
	o := st.alloc(0)
	st.wobj(o).m = &MapData{}
	fr.regs[ci.dst] = ptrVal(o, 0)
	return cNext
}

// mapFind returns the entry index of key k or -1.
func (w *Worker) mapFind(st *State, m *MapData, kt *TypeInfo, k Value) int {
	if i, ok := k.p.(*Iface); ok && kt.kind == KIface && !types.Comparable(i.t.t) {
		w.throw("hash of unhashable type " + i.t.String())
	}
	for i := range m.entries {
		e := &m.entries[i]
		if e.deleted {
			continue
		}
		if w.decide(st, w.eq(st, kt, e.k, k)) {
			return i
		}
	}
	return -1
}

func hLookup(w *Worker, st *State, fr *Frame, ci *CInstr) ctl {
	x, y := fr.val(&ci.x), fr.val(&ci.y)
	if ci.xt.kind == KString {
		fr.regs[ci.dst] = w.strIndex(st, x, y, ci.yt)
		return cNext
	}
	et := ci.xt.elem
	v, ok := zeroOf(et), false
	if id, _ := ptrSplit(x); id != 0 {
		m := st.obj(id).m
		if st.conc != nil {
			st.conc.access(st, id, 0, 1, false)
		}
		if i := w.mapFind(st, m, ci.xt.key, y); i >= 0 {
			v, ok = m.entries[i].v, true
		}
	}
	if ci.flag {
		v = tuple(v, boolVal(ok))
	}
	fr.regs[ci.dst] = v
	return cNext
}

func hMapUpdate(w *Worker, st *State, fr *Frame, ci *CInstr) ctl {
	x, k, v := fr.val(&ci.x), fr.val(&ci.y), fr.val(&ci.z)
	id, _ := ptrSplit(x)
	if id == 0 {
		panic(rtPanic{w.rtError("assignment to entry in nil map")})
	}
	i := w.mapFind(st, st.obj(id).m, ci.xt.key, k)
	if st.conc != nil {
		st.conc.access(st, id, 0, 1, true)
	}
	m := st.wobj(id).m
	if i >= 0 {
		m.entries[i].v = v
	} else {
		m.entries = append(m.entries, mapEntry{k: k, v: v})
		m.live++
	}
	return cNext
}

func (w *Worker) mapDelete(st *State, t *TypeInfo, x, k Value) {
	id, _ := ptrSplit(x)
	if id == 0 {
		return
	}
	i := w.mapFind(st, st.obj(id).m, t.key, k)
	if st.conc != nil {
		st.conc.access(st, id, 0, 1, true)
	}
	if i >= 0 {
		m := st.wobj(id).m
		m.entries[i].deleted = true
		m.live--
	}
}

// Iterator objects: cell 0 position, cell 1 the collection, cell 2 whether a map
// is visited backwards, an arbitrary value as the language leaves the order open,
// cell 3 the number of entries at the start.
func hRange(w *Worker, st *State, fr *Frame, ci *CInstr) ctl {
	o := st.alloc(4)
	x := fr.val(&ci.x)
	st.wobj(o).set(1, x)
	if ci.xt.kind == KMap {
		if id, _ := ptrSplit(x); id != 0 && st.obj(id).m.live > 1 {
			n := len(st.obj(id).m.entries)
			st.wobj(o).set(2, mkVal(w.fresh(st, "maporder", 8)))
			st.wobj(o).set(3, intVal(n))
		}
	}
	fr.regs[ci.dst] = ptrVal(o, 0)
	return cNext
}

func hNext(w *Worker, st *State, fr *Frame, ci *CInstr) ctl {
	it, _ := ptrSplit(fr.val(&ci.x))
	pos := int(st.obj(it).get(0).n)
	c := st.obj(it).get(1)
	if ci.flag {
		if pos >= strLen(c) {
			fr.regs[ci.dst] = tuple(boolVal(false), Value{}, Value{})
			return cNext
		}
		r, n := w.decodeRune(st, strBytes(c)[pos:])
		st.wobj(it).set(0, intVal(pos+n))
		fr.regs[ci.dst] = tuple(boolVal(true), intVal(pos), r)
		return cNext
	}
	id, _ := ptrSplit(c)
	if id != 0 {
		m := st.obj(id).m
		back := false
		if t, ok := st.obj(it).get(2).sym(); ok {
			back = w.decide(st, mkEq(t, tConst(1, 8)))
		}
		if st.conc != nil {
			st.conc.access(st, id, 0, 1, false)
		}
		n := len(m.entries)
		if back {
			n = int(st.obj(it).get(3).n)
		}
		at := func() int {
			if back {
				return n - 1 - pos
			}
			return pos
		}
		for pos < n && m.entries[at()].deleted {
			pos++
		}
		if pos < n {
			e := m.entries[at()]
			st.wobj(it).set(0, intVal(pos+1))
			fr.regs[ci.dst] = tuple(boolVal(true), e.k, e.v)
			return cNext
		}
	}
	fr.regs[ci.dst] = tuple(boolVal(false), Value{}, Value{})
	return cNext
}

func (w *Worker) decodeRune(st *State, b []Value) (Value, int) {
	if t, ok := b[0].sym(); ok {
		if w.decide(st, mkUlt(t, tConst(0x80, 8))) {
			return mkVal(mkZext(t, 32)), 1
		}
	}
	n := min(len(b), 4)
	buf := make([]byte, n)
	for i := 0; i < n; i++ {
		buf[i] = byte(w.concretize(st, b[i], 8))
		if i == 0 && buf[0] < 0x80 {
			return Value{n: uint64(buf[0])}, 1
		}
	}
	r, k := utf8.DecodeRune(buf)
	return Value{n: uint64(uint32(r))}, k
}

func hTypeAssert(w *Worker, st *State, fr *Frame, ci *CInstr) ctl {
	i, _ := fr.val(&ci.x).p.(*Iface)
	ok := false
	var v Value
	if ci.xt.kind == KIface {
		if i != nil && implements(i.t, ci.xt) {
			ok, v = true, Value{p: i}
		}
	} else if i != nil && i.t == ci.xt {
		ok, v = true, i.v
	}
	if ci.flag {
		if !ok {
			v = zeroOf(ci.xt)
		}
		fr.regs[ci.dst] = tuple(v, boolVal(ok))
		return cNext
	}
	if !ok {
		if i == nil {
			w.throw("interface conversion: interface is nil, not " + ci.xt.String())
		}
		w.throw("interface conversion: interface is " + i.t.String() + ", not " + ci.xt.String())
	}
	fr.regs[ci.dst] = v
	return cNext
}

func hReturn(w *Worker, st *State, fr *Frame, ci *CInstr) ctl {
	var r Value
	switch len(ci.args) {
	case 0:
	case 1:
		r = fr.val(&ci.args[0])
	default:
		r = Value{p: &Agg{fr.vals(ci.args)}}
	}
	return w.popFrame(st, r)
}

func hRunDefers(w *Worker, st *State, fr *Frame, ci *CInstr) ctl {
	if d := fr.defers; d != nil {
		w.runDeferred(st, fr, d)
		return cJump
	}
	return cNext
}

func hPanic(w *Worker, st *State, fr *Frame, ci *CInstr) ctl {
	v := fr.val(&ci.x)
	if v.p == nil {
		v = w.rtError("panic called with nil argument (use GODEBUG=panicnil=1 to disable)")
	}
	w.startPanic(st, v)
	return cJump
}

// target resolves the callee and arguments of a call instruction.
func (w *Worker) target(st *State, fr *Frame, ci *CInstr) (*FuncV, []Value) {
	args := fr.vals(ci.args)
	if ci.call.IsInvoke() {
		i, _ := fr.val(&ci.x).p.(*Iface)
		if i == nil {
			w.throw("invalid memory address or nil pointer dereference")
		}
		fn := lookupMethod(i.t, ci.call.Method)
		if fn == nil {
			panic(unsupported("method " + ci.call.Method.String() + " of " + i.t.String()))
		}
		return &FuncV{fn: fn}, append([]Value{i.v}, args...)
	}
	if ci.fi != nil {
		return &FuncV{fn: ci.fi.fn}, args
	}
	if b, ok := ci.call.Value.(*ssa.Builtin); ok {
		return &FuncV{intr: b.Name()}, args
	}
	fv, _ := fr.val(&ci.x).p.(*FuncV)
	return fv, args
}

func hCall(w *Worker, st *State, fr *Frame, ci *CInstr) ctl {
	if ci.fi != nil {
		return w.invokeFn(st, fr, ci.fi, nil, fr.vals(ci.args), ci.dst, false, nil)
	}
	if b, ok := ci.call.Value.(*ssa.Builtin); ok {
		r, c := w.builtin(st, fr, b.Name(), ci, fr.vals(ci.args))
		if c == cNext {
			fr.regs[ci.dst] = r
		}
		return c
	}
	fv, args := w.target(st, fr, ci)
	if fv == nil {
		w.throw("invalid memory address or nil pointer dereference")
	}
	return w.invoke(st, fr, fv, args, ci.dst, false, nil)
}

func hDefer(w *Worker, st *State, fr *Frame, ci *CInstr) ctl {
	fv, args := w.target(st, fr, ci)
	d := &deferred{args: args, ci: ci}
	if fv != nil {
		d.fn = Value{p: fv}
	}
	f := fr
	if ci.z.reg != -2 {
		f = st.frameAt(st.thread(st.cur), int(fr.val(&ci.z).n))
	}
	d.next = f.defers
	f.defers = d
	return cNext
}

func builtinByName(w *Worker, st *State, fr *Frame, name string, d *deferred, args []Value) (Value, ctl) {
	if d == nil {
		panic(unsupported("builtin value " + name))
	}
	return w.builtin(st, fr, name, d.ci, args)
}

func sliceOf(v Value) *SliceV {
	s, _ := v.p.(*SliceV)
	if s == nil {
		return &SliceV{}
	}
	return s
}

func (w *Worker) builtin(st *State, fr *Frame, name string, ci *CInstr, args []Value) (Value, ctl) {
	switch name {
	case "len":
		switch ci.xt.kind {
		case KString:
			return intVal(strLen(args[0])), cNext
		case KSlice:
			return intVal(sliceOf(args[0]).len), cNext
		case KMap:
			id, _ := ptrSplit(args[0])
			if id == 0 {
				return Value{}, cNext
			}
			if st.conc != nil {
				st.conc.access(st, id, 0, 1, false)
			}
			return intVal(st.obj(id).m.live), cNext
		case KChan:
			id, _ := ptrSplit(args[0])
			if id == 0 {
				return Value{}, cNext
			}
			return intVal(len(st.obj(id).ch.buf)), cNext
		case KArray:
			return intVal(ci.xt.n), cNext
		case KPtr:
			return intVal(ci.xt.elem.n), cNext
		}
	case "cap":
		switch ci.xt.kind {
		case KSlice:
			return intVal(sliceOf(args[0]).cap), cNext
		case KChan:
			id, _ := ptrSplit(args[0])
			if id == 0 {
				return Value{}, cNext
			}
			return intVal(st.obj(id).ch.cap), cNext
		case KArray:
			return intVal(ci.xt.n), cNext
		case KPtr:
			return intVal(ci.xt.elem.n), cNext
		}
	case "append":
		return w.appendB(st, ci.xt, args[0], args[1]), cNext
	case "copy":
		return w.copyB(st, ci.xt.elem, args[0], args[1]), cNext
	case "delete":
		w.mapDelete(st, ci.xt, args[0], args[1])
		return Value{}, cNext
	case "clear":
		if ci.xt.kind == KMap {
			if id, _ := ptrSplit(args[0]); id != 0 {
				m := st.wobj(id).m
				for i := range m.entries {
					m.entries[i].deleted = true
				}
				m.live = 0
			}
			return Value{}, cNext
		}
		s := sliceOf(args[0])
		if s.obj != 0 {
			o := st.wobj(s.obj)
			for i := 0; i < s.len*ci.xt.elem.cells; i++ {
				o.set(s.off+i, Value{})
			}
		}
		return Value{}, cNext
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			tok := token.LSS
			if name == "max" {
				tok = token.GTR
			}
			c := w.binop(st, tok, ci.xt, ci.xt, a, r)
			if t, ok := c.sym(); ok {
				if ci.xt.kind == KInt {
					r = mkVal(mkIte(t, a.term(ci.xt.w), r.term(ci.xt.w)))
				} else if w.decide(st, t) {
					r = a
				}
			} else if c.n != 0 {
				r = a
			}
		}
		return r, cNext
	case "panic":
		v := args[0]
		if v.p == nil {
			v = w.rtError("panic called with nil argument")
		}
		panic(rtPanic{v})
	case "print", "println":
		return Value{}, cNext
	case "recover":
		th := st.thread(st.cur)
		n := len(th.stack)
		if th.stack[n-1].isDefer && n >= 2 && th.stack[n-2].panicking {
			p := st.frameAt(th, n-2)
			p.panicking = false
			return p.panicVal, cNext
		}
		return Value{}, cNext
	case "close":
		return w.closeChan(st, args[0])
	case "ssa:wrapnilchk":
		if args[0].n>>32 == 0 {
			w.throw("value method called using nil pointer")
		}
		return args[0], cNext
	case "ssa:deferstack":
		return intVal(len(st.threads[st.cur].stack) - 1), cNext
	case "SliceData":
		s, _ := args[0].p.(*SliceV)
		if s == nil {
			return Value{}, cNext
		}
		return ptrVal(s.obj, s.off), cNext
	case "StringData":
		return w.bytesObj(st, strBytes(args[0])), cNext
	case "String":
		n := int(w.concretize(st, args[1], 64))
		if n == 0 {
			return Value{}, cNext
		}
		id, off := ptrSplit(args[0])
		return mkStr(st.obj(id).slice(off, n)), cNext
	case "Slice":
		n := int(w.concretize(st, args[1], 64))
		id, off := ptrSplit(args[0])
		if id == 0 {
			return Value{}, cNext
		}
		return Value{p: &SliceV{id, off, n, n}}, cNext
	}
	panic(unsupported("builtin " + name))
}

func (w *Worker) bytesObj(st *State, b []Value) Value {
	o := st.alloc(len(b))
	st.wobj(o).cells = append([]Value(nil), b...)
	return ptrVal(o, 0)
}

// newBytes allocates a byte slice.
func (w *Worker) newBytes(st *State, b []Value, cp int) Value {
	o := st.alloc(cp)
	ob := st.wobj(o)
	ob.cells = append(make([]Value, 0, cp), b...)
	return Value{p: &SliceV{o, 0, len(b), cp}}
}

func (w *Worker) readSlice(st *State, s *SliceV, cells int) []Value {
	if s.obj == 0 || s.len == 0 || cells == 0 {
		return make([]Value, s.len*cells)
	}
	if st.conc != nil {
		st.conc.access(st, s.obj, s.off, s.len*cells, false)
	}
	o := st.obj(s.obj)
	st.checkInit(o)
	return o.slice(s.off, s.len*cells)
}

func (w *Worker) srcCells(st *State, v Value, cells int) ([]Value, int) {
	switch s := v.p.(type) {
	case string, *SymStr:
		b := strBytes(v)
		return b, len(b)
	case *SliceV:
		return w.readSlice(st, s, cells), s.len
	}
	return nil, 0
}

func (w *Worker) appendB(st *State, t *TypeInfo, x, y Value) Value {
	s, _ := x.p.(*SliceV)
	ec := t.elem.cells
	src, n := w.srcCells(st, y, ec)
	if n == 0 {
		return x
	}
	if s == nil {
		s = &SliceV{}
	}
	if s.len+n <= s.cap {
		if st.conc != nil {
			st.conc.access(st, s.obj, s.off+s.len*ec, n*ec, true)
		}
		o := st.wobj(s.obj)
		base := s.off + s.len*ec
		for i, v := range src {
			o.set(base+i, v)
		}
		return Value{p: &SliceV{s.obj, s.off, s.len + n, s.cap}}
	}
	nc := growCap(s.cap, s.len+n, t.elem)
	old := w.readSlice(st, s, ec)
	id := st.alloc(nc * ec)
	o := st.wobj(id)
	c := make([]Value, 0, min(nc*ec, 2*(len(old)+len(src))))
	c = append(c, old...)
	c = append(c, src...)
	o.cells = c
	return Value{p: &SliceV{id, 0, s.len + n, nc}}
}

func (w *Worker) copyB(st *State, et *TypeInfo, dst, srcv Value) Value {
	d := sliceOf(dst)
	n := d.len
	if s, ok := srcv.p.(*SliceV); ok {
		n = min(n, s.len)
		srcv = Value{p: &SliceV{s.obj, s.off, n, n}}
	} else {
		n = min(n, strLen(srcv))
	}
	if n == 0 {
		return Value{}
	}
	src, _ := w.srcCells(st, srcv, et.cells)
	if st.conc != nil {
		st.conc.access(st, d.obj, d.off, n*et.cells, true)
	}
	o := st.wobj(d.obj)
	for i := 0; i < n*et.cells; i++ {
		o.set(d.off+i, src[i])
	}
	return intVal(n)
}

var sizeClasses = []int{8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundupsize(n int, noscan bool) int {
	req := n
	if !noscan && req > 512 {
		req += 8
	}
	if req <= 32768-8 {
		for _, c := range sizeClasses {
			if c >= req {
				return c - (req - n)
			}
		}
	}
	return (req + 8191) / 8192 * 8192
}

var sizes = types.SizesFor("gc", "amd64")

func hasPointers(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.String || u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasPointers(u.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Array:
		return u.Len() > 0 && hasPointers(u.Elem())
	}
	return true
}

// growCap follows runtime.growslice.
func growCap(old, need int, et *TypeInfo) int {
	nc := old
	if need > 2*old {
		nc = need
	} else if old < 256 {
		nc = 2 * old
	} else {
		for nc < need {
			nc += (nc + 3*256) >> 2
		}
	}
	sz := int(sizes.Sizeof(et.t))
	if sz == 0 {
		return need
	}
	return roundupsize(nc*sz, !hasPointers(et.t)) / sz
}

func hConvert(w *Worker, st *State, fr *Frame, ci *CInstr) ctl {
	fr.regs[ci.dst] = w.convert(st, ci.xt, ci.t, fr.val(&ci.x))
	return cNext
}

func (w *Worker) convert(st *State, from, to *TypeInfo, v Value) Value {
	switch {
	case from.kind == KInt && to.kind == KInt:
		if t, ok := v.sym(); ok {
			switch {
			case to.w < from.w:
				return mkVal(mkExtract(t, 0, to.w))
			case to.w == from.w:
				return v
			case from.signed:
				return mkVal(mkSext(t, to.w))
			}
			return mkVal(mkZext(t, to.w))
		}
		if from.signed {
			return Value{n: uint64(sext(v.n, from.w)) & mask(to.w)}
		}
		return Value{n: v.n & mask(to.w)}
	case from.kind == KInt && to.kind == KFloat:
		n := w.concretize(st, v, from.w)
		if from.signed {
			if to.w == 32 {
				return floatVal(float64(float32(sext(n, from.w))), 32)
			}
			return floatVal(float64(sext(n, from.w)), 64)
		}
		if to.w == 32 {
			return floatVal(float64(float32(n)), 32)
		}
		return floatVal(float64(n), 64)
	case from.kind == KFloat && to.kind == KInt:
		f := fl(v)
		if to.signed {
			return Value{n: uint64(int64(f)) & mask(to.w)}
		}
		return Value{n: uint64(f) & mask(to.w)}
	case from.kind == KFloat && to.kind == KFloat:
		return floatVal(fl(v), to.w)
	case from.kind == KString && to.kind == KString:
		return v
	case from.kind == KInt && to.kind == KString:
		n := w.concretize(st, v, from.w)
		r := rune(0xfffd)
		if from.signed {
			if x := sext(n, from.w); x >= 0 && x <= utf8.MaxRune {
				r = rune(x)
			}
		} else if n <= utf8.MaxRune {
			r = rune(n)
		}
		return strVal(string(r))
	case from.kind == KString && to.kind == KSlice:
		if to.elem.w == 8 {
			b := strBytes(v)
			return w.newBytes(st, b, roundupsize(len(b), true))
		}
		b := strBytes(v)
		var rs []Value
		for len(b) > 0 {
			r, n := w.decodeRune(st, b)
			rs = append(rs, r)
			b = b[n:]
		}
		return w.newBytes(st, rs, roundupsize(len(rs)*4, true)/4)
	case from.kind == KSlice && to.kind == KString:
		s := sliceOf(v)
		c := w.readSlice(st, s, from.elem.cells)
		if from.elem.w == 8 {
			return mkStr(c)
		}
		out := ""
		for _, r := range c {
			out += string(rune(int32(w.concretize(st, r, 32))))
		}
		return strVal(out)
	case from.kind == KPtr && to.kind == KPtr, from.kind == KPtr && to.kind == KInt, from.kind == KInt && to.kind == KPtr:
		return v
	case from.kind == to.kind:
		return v
	}
	panic(unsupported("convert " + from.String() + " to " + to.String()))
}

package main

import (
	"fmt"
	"math/bits"
	"strings"
	"sync"
	"sync/atomic"
)

// Terms are hash-consed bit-vector (width 1..64) or boolean (width 0)
// expressions. They are immutable and shared between workers.

type Op uint8

const (
	OConst Op = iota
	OVar
	OAdd
	OSub
	OMul
	OUdiv
	OSdiv
	OUrem
	OSrem
	OAnd
	OOr
	OXor
	ONot
	ONeg
	OShl
	OLshr
	OAshr
	OEq
	OUlt
	OSlt
	OZext
	OSext
	OExtract
	OConcat
	OIte
	OBNot
	OBAnd
	OBOr
)

var opName = [...]string{"const", "var", "bvadd", "bvsub", "bvmul", "bvudiv", "bvsdiv", "bvurem", "bvsrem",
	"bvand", "bvor", "bvxor", "bvnot", "bvneg", "bvshl", "bvlshr", "bvashr", "=", "bvult", "bvslt",
	"zext", "sext", "extract", "concat", "ite", "not", "and", "or"}

type Term struct {
	op      Op
	w       uint8
	val     uint64 // constant value, variable index, extract low bit
	a, b, c *Term
	id      uint32
	size    uint32 // saturating tree size, for heuristics
	vars    []uint32 // indices of the variables, in order
}

type termKey struct {
	op      Op
	w       uint8
	val     uint64
	a, b, c *Term
}

const termShards = 64

var termTab [termShards]struct {
	sync.Mutex
	m map[termKey]*Term
}
var termNext uint32

var (
	tTrue  *Term
	tFalse *Term
)

type varInfo struct {
	name string
	w    uint8
}

var (
	varMu  sync.Mutex
	varTab []varInfo
	varIdx = map[varInfo]int{}
)

func init() {
	for i := range termTab {
		termTab[i].m = map[termKey]*Term{}
	}
	tTrue = intern(termKey{op: OConst, w: 0, val: 1})
	tFalse = intern(termKey{op: OConst, w: 0, val: 0})
}

func intern(k termKey) *Term {
	h := uint64(k.op)*0x9e3779b97f4a7c15 ^ uint64(k.w)<<7 ^ k.val*0xff51afd7ed558ccd
	if k.a != nil {
		h ^= uint64(k.a.id) * 0xc4ceb9fe1a85ec53
	}
	if k.b != nil {
		h ^= bits.RotateLeft64(uint64(k.b.id)*0x9e3779b97f4a7c15, 17)
	}
	if k.c != nil {
		h ^= bits.RotateLeft64(uint64(k.c.id)*0x2545f4914f6cdd1d, 31)
	}
	s := &termTab[(h>>32)%termShards]
	s.Lock()
	t := s.m[k]
	if t == nil {
		sz := uint32(1)
		for _, x := range [...]*Term{k.a, k.b, k.c} {
			if x != nil {
				sz += x.size
				if sz > 1<<20 {
					sz = 1 << 20
				}
			}
		}
		t = &Term{op: k.op, w: k.w, val: k.val, a: k.a, b: k.b, c: k.c, size: sz, id: atomic.AddUint32(&termNext, 1)}
		if k.op == OVar {
			t.vars = []uint32{uint32(k.val)}
		} else {
			for _, x := range [...]*Term{k.a, k.b, k.c} {
				if x != nil {
					t.vars = mergeVars(t.vars, x.vars)
				}
			}
		}
		s.m[k] = t
	}
	s.Unlock()
	return t
}

// mergeVars is the union of two ordered sets.
func mergeVars(a, b []uint32) []uint32 {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	i, j, n := 0, 0, 0
	for i < len(a) && j < len(b) {
		if a[i] == b[j] {
			i, j = i+1, j+1
		} else if a[i] < b[j] {
			i++
		} else {
			j++
		}
		n++
	}
	n += len(a) - i + len(b) - j
	if n == len(a) {
		return a
	}
	if n == len(b) {
		return b
	}
	out := make([]uint32, 0, n)
	i, j = 0, 0
	for i < len(a) && j < len(b) {
		if a[i] == b[j] {
			out = append(out, a[i])
			i, j = i+1, j+1
		} else if a[i] < b[j] {
			out = append(out, a[i])
			i++
		} else {
			out = append(out, b[j])
			j++
		}
	}
	out = append(out, a[i:]...)
	return append(out, b[j:]...)
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return 1<<w - 1
}

func sext(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	return int64(v<<(64-w)) >> (64 - w)
}

func (t *Term) isConst() bool { return t.op == OConst }

func tConst(v uint64, w uint8) *Term {
	return intern(termKey{op: OConst, w: w, val: v & mask(w)})
}

func tBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

// tVar returns the variable of that name and width.
func tVar(name string, w uint8) *Term {
	varMu.Lock()
	k := varInfo{name, w}
	idx, ok := varIdx[k]
	if !ok {
		idx = len(varTab)
		varIdx[k] = idx
		varTab = append(varTab, varInfo{fmt.Sprintf("v%d_%s", idx, name), w})
	}
	varMu.Unlock()
	return intern(termKey{op: OVar, w: w, val: uint64(idx)})
}

func varName(idx uint64) string {
	varMu.Lock()
	defer varMu.Unlock()
	return varTab[idx].name
}

func evalBin(op Op, w uint8, x, y uint64) uint64 {
	m := mask(w)
	switch op {
	case OAdd:
		return (x + y) & m
	case OSub:
		return (x - y) & m
	case OMul:
		return (x * y) & m
	case OUdiv:
		if y == 0 {
			return m
		}
		return x / y
	case OUrem:
		if y == 0 {
			return x
		}
		return x % y
	case OSdiv:
		sx, sy := sext(x, w), sext(y, w)
		if sy == 0 {
			if sx < 0 {
				return 1
			}
			return m
		}
		if sy == -1 {
			return uint64(-sx) & m
		}
		return uint64(sx/sy) & m
	case OSrem:
		sx, sy := sext(x, w), sext(y, w)
		if sy == 0 {
			return x
		}
		if sy == -1 {
			return 0
		}
		return uint64(sx%sy) & m
	case OAnd:
		return x & y
	case OOr:
		return x | y
	case OXor:
		return x ^ y
	case OShl:
		if y >= uint64(w) {
			return 0
		}
		return (x << y) & m
	case OLshr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OAshr:
		s := sext(x, w)
		if y >= uint64(w) {
			y = 63
		}
		return uint64(s>>y) & m
	}
	panic("evalBin")
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// mkBin builds an arithmetic/bitwise term.
func mkBin(op Op, a, b *Term) *Term {
	w := a.w
	if a.w != b.w {
		panic(fmt.Sprintf("mkBin width mismatch %s %d %d", opName[op], a.w, b.w))
	}
	if a.isConst() && b.isConst() {
		return tConst(evalBin(op, w, a.val, b.val), w)
	}
	switch op {
	case OAdd, OMul, OAnd, OOr, OXor:
		if a.isConst() || (!b.isConst() && a.id > b.id) {
			a, b = b, a
		}
	}
	if b.isConst() {
		v := b.val
		switch op {
		case OAdd:
			if v == 0 {
				return a
			}
			if a.op == OAdd && a.b.isConst() {
				return mkBin(OAdd, a.a, tConst(a.b.val+v, w))
			}
		case OSub:
			return mkBin(OAdd, a, tConst(-v, w))
		case OMul:
			if v == 0 {
				return b
			}
			if v == 1 {
				return a
			}
		case OAnd:
			if v == 0 {
				return b
			}
			if v == mask(w) {
				return a
			}
			if a.op == OZext && v == mask(a.a.w) {
				return a
			}
		case OOr, OXor:
			if v == 0 {
				return a
			}
			if op == OOr && v == mask(w) {
				return b
			}
		case OShl, OLshr, OAshr:
			if v == 0 {
				return a
			}
			if v >= uint64(w) && op != OAshr {
				return tConst(0, w)
			}
		case OUdiv, OSdiv:
			if v == 1 {
				return a
			}
		case OUrem:
			if v == 1 {
				return tConst(0, w)
			}
			if v != 0 && v&(v-1) == 0 {
				return mkBin(OAnd, a, tConst(v-1, w))
			}
		}
	}
	if a == b {
		switch op {
		case OSub, OXor:
			return tConst(0, w)
		case OAnd, OOr:
			return a
		}
	}
	if a.isConst() && a.val == 0 {
		switch op {
		case OShl, OLshr, OAshr:
			return a
		}
	}
	return intern(termKey{op: op, w: w, a: a, b: b})
}

func mkNeg(a *Term) *Term {
	if a.isConst() {
		return tConst(-a.val, a.w)
	}
	if a.op == ONeg {
		return a.a
	}
	return intern(termKey{op: ONeg, w: a.w, a: a})
}

func mkBvNot(a *Term) *Term {
	if a.isConst() {
		return tConst(^a.val, a.w)
	}
	if a.op == ONot {
		return a.a
	}
	return intern(termKey{op: ONot, w: a.w, a: a})
}

func mkEq(a, b *Term) *Term {
	if a.w != b.w {
		panic(fmt.Sprintf("mkEq width mismatch %d %d", a.w, b.w))
	}
	if a == b {
		return tTrue
	}
	if a.isConst() && b.isConst() {
		return tBool(a.val == b.val)
	}
	if a.isConst() || (!b.isConst() && a.id > b.id) {
		a, b = b, a
	}
	if a.w == 0 {
		if b.isConst() {
			if b.val == 1 {
				return a
			}
			return mkNot(a)
		}
		return intern(termKey{op: OEq, w: 0, a: a, b: b})
	}
	if b.isConst() {
		switch a.op {
		case OAdd:
			if a.b.isConst() {
				return mkEq(a.a, tConst(b.val-a.b.val, a.w))
			}
		case OZext:
			if b.val > mask(a.a.w) {
				return tFalse
			}
			return mkEq(a.a, tConst(b.val, a.a.w))
		case OSext:
			lo := b.val & mask(a.a.w)
			if uint64(sext(lo, a.a.w))&mask(a.w) != b.val {
				return tFalse
			}
			return mkEq(a.a, tConst(lo, a.a.w))
		case OIte:
			if a.b.isConst() && a.c.isConst() {
				tb, tc := a.b.val == b.val, a.c.val == b.val
				switch {
				case tb && tc:
					return tTrue
				case tb:
					return a.a
				case tc:
					return mkNot(a.a)
				default:
					return tFalse
				}
			}
			if a.b.isConst() && a.b.val != b.val {
				return mkAnd(mkNot(a.a), mkEq(a.c, b))
			}
			if a.c.isConst() && a.c.val != b.val {
				return mkAnd(a.a, mkEq(a.b, b))
			}
		}
	}
	if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
		return mkEq(a.a, b.a)
	}
	if a.op == OSext && b.op == OSext && a.a.w == b.a.w {
		return mkEq(a.a, b.a)
	}
	if a.op == OAdd && b.op == OAdd && a.b.isConst() && b.b.isConst() && a.a == b.a {
		return tBool(a.b.val == b.b.val)
	}
	return intern(termKey{op: OEq, w: 0, a: a, b: b})
}

func mkUlt(a, b *Term) *Term {
	if a == b {
		return tFalse
	}
	if a.isConst() && b.isConst() {
		return tBool(a.val < b.val)
	}
	if b.isConst() {
		if b.val == 0 {
			return tFalse
		}
		if b.val == 1 {
			return mkEq(a, tConst(0, a.w))
		}
		if a.op == OZext {
			if b.val > mask(a.a.w) {
				return tTrue
			}
			return mkUlt(a.a, tConst(b.val, a.a.w))
		}
	}
	if a.isConst() {
		if a.val == mask(a.w) {
			return tFalse
		}
		if a.val == 0 {
			return mkNot(mkEq(b, a))
		}
		if b.op == OZext {
			if a.val >= mask(b.a.w) {
				return tFalse
			}
			return mkUlt(tConst(a.val, b.a.w), b.a)
		}
	}
	if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
		return mkUlt(a.a, b.a)
	}
	return intern(termKey{op: OUlt, w: 0, a: a, b: b})
}

func mkSlt(a, b *Term) *Term {
	if a == b {
		return tFalse
	}
	if a.isConst() && b.isConst() {
		return tBool(sext(a.val, a.w) < sext(b.val, b.w))
	}
	if b.isConst() {
		s := sext(b.val, b.w)
		if b.val == 1<<(b.w-1) {
			return tFalse
		}
		if a.op == OZext {
			if s <= 0 {
				return tFalse
			}
			return mkUlt(a, b)
		}
		if a.op == OSext {
			lim := int64(1) << (a.a.w - 1)
			if s > lim-1 {
				return tTrue
			}
			if s <= -lim {
				return tFalse
			}
			return mkSlt(a.a, tConst(uint64(s), a.a.w))
		}
		if a.op == OIte && a.b.isConst() && a.c.isConst() {
			return mkIte(a.a, mkSlt(a.b, b), mkSlt(a.c, b))
		}
	}
	if a.isConst() {
		s := sext(a.val, a.w)
		if a.val == mask(a.w)>>1 {
			return tFalse
		}
		if b.op == OZext {
			if s < 0 {
				return tTrue
			}
			return mkUlt(a, b)
		}
		if b.op == OSext {
			lim := int64(1) << (b.a.w - 1)
			if s >= lim-1 {
				return tFalse
			}
			if s < -lim {
				return tTrue
			}
			return mkSlt(tConst(uint64(s), b.a.w), b.a)
		}
		if b.op == OIte && b.b.isConst() && b.c.isConst() {
			return mkIte(b.a, mkSlt(a, b.b), mkSlt(a, b.c))
		}
	}
	if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
		return mkUlt(a.a, b.a)
	}
	if a.op == OSext && b.op == OSext && a.a.w == b.a.w {
		return mkSlt(a.a, b.a)
	}
	return intern(termKey{op: OSlt, w: 0, a: a, b: b})
}

func mkNot(a *Term) *Term {
	if a == tTrue {
		return tFalse
	}
	if a == tFalse {
		return tTrue
	}
	if a.op == OBNot {
		return a.a
	}
	return intern(termKey{op: OBNot, a: a})
}

func mkAnd(a, b *Term) *Term {
	if a == tFalse || b == tFalse {
		return tFalse
	}
	if a == tTrue || a == b {
		return b
	}
	if b == tTrue {
		return a
	}
	if mkNot(a) == b {
		return tFalse
	}
	if a.id > b.id {
		a, b = b, a
	}
	return intern(termKey{op: OBAnd, a: a, b: b})
}

func mkOr(a, b *Term) *Term {
	if a == tTrue || b == tTrue {
		return tTrue
	}
	if a == tFalse || a == b {
		return b
	}
	if b == tFalse {
		return a
	}
	if mkNot(a) == b {
		return tTrue
	}
	if a.id > b.id {
		a, b = b, a
	}
	return intern(termKey{op: OBOr, a: a, b: b})
}

func mkIte(c, a, b *Term) *Term {
	if c == tTrue || a == b {
		return a
	}
	if c == tFalse {
		return b
	}
	if a.w == 0 {
		if a == tTrue {
			return mkOr(c, b)
		}
		if a == tFalse {
			return mkAnd(mkNot(c), b)
		}
		if b == tTrue {
			return mkOr(mkNot(c), a)
		}
		if b == tFalse {
			return mkAnd(c, a)
		}
	}
	if c.op == OBNot {
		return mkIte(c.a, b, a)
	}
	return intern(termKey{op: OIte, w: a.w, a: c, b: a, c: b})
}

func mkZext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return tConst(a.val, w)
	}
	if a.op == OZext {
		return mkZext(a.a, w)
	}
	return intern(termKey{op: OZext, w: w, a: a})
}

func mkSext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return tConst(uint64(sext(a.val, a.w)), w)
	}
	if a.op == OZext {
		return mkZext(a.a, w)
	}
	if a.op == OSext {
		return mkSext(a.a, w)
	}
	return intern(termKey{op: OSext, w: w, a: a})
}

// mkExtract takes the low-order w bits starting at bit lo.
func mkExtract(a *Term, lo uint8, w uint8) *Term {
	if lo == 0 && w == a.w {
		return a
	}
	if a.isConst() {
		return tConst(a.val>>lo, w)
	}
	switch a.op {
	case OExtract:
		return mkExtract(a.a, lo+uint8(a.val), w)
	case OZext:
		if lo >= a.a.w {
			return tConst(0, w)
		}
		if lo+w <= a.a.w {
			return mkExtract(a.a, lo, w)
		}
		if lo == 0 {
			return mkZext(a.a, w)
		}
	case OSext:
		if lo+w <= a.a.w {
			return mkExtract(a.a, lo, w)
		}
		if lo == 0 && w >= a.a.w {
			return mkSext(a.a, w)
		}
	case OLshr, OAshr:
		if a.b.isConst() && a.b.val+uint64(lo)+uint64(w) <= uint64(a.w) {
			return mkExtract(a.a, lo+uint8(a.b.val), w)
		}
	case OShl:
		if a.b.isConst() {
			if uint64(lo) >= a.b.val {
				return mkExtract(a.a, lo-uint8(a.b.val), w)
			}
			if uint64(lo)+uint64(w) <= a.b.val {
				return tConst(0, w)
			}
		}
	case OAnd, OOr, OXor:
		return mkBin(a.op, mkExtract(a.a, lo, w), mkExtract(a.b, lo, w))
	case OAdd, OMul:
		if lo == 0 {
			return mkBin(a.op, mkExtract(a.a, 0, w), mkExtract(a.b, 0, w))
		}
	case OIte:
		if a.b.isConst() && a.c.isConst() {
			return mkIte(a.a, mkExtract(a.b, lo, w), mkExtract(a.c, lo, w))
		}
	}
	return intern(termKey{op: OExtract, w: w, val: uint64(lo), a: a})
}

func bvSort(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func (t *Term) ref() string {
	switch t.op {
	case OConst:
		if t.w == 0 {
			if t.val == 1 {
				return "true"
			}
			return "false"
		}
		if t.w%4 == 0 {
			return fmt.Sprintf("#x%0*x", int(t.w/4), t.val)
		}
		return fmt.Sprintf("#b%0*b", int(t.w), t.val)
	case OVar:
		return varName(t.val)
	}
	return fmt.Sprintf("t%d", t.id)
}

// body prints the operator applied to references of the operands.
func (t *Term) body() string {
	switch t.op {
	case OZext:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a.w, t.a.ref())
	case OSext:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a.w, t.a.ref())
	case OExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", uint8(t.val)+t.w-1, t.val, t.a.ref())
	}
	var sb strings.Builder
	sb.WriteString("(")
	sb.WriteString(opName[t.op])
	for _, x := range [...]*Term{t.a, t.b, t.c} {
		if x != nil {
			sb.WriteString(" ")
			sb.WriteString(x.ref())
		}
	}
	sb.WriteString(")")
	return sb.String()
}

// Model assigns values to variables; missing variables are zero.
type Model struct {
	vals map[uint64]uint64
}

type evaluator struct {
	m     *Model
	cache map[*Term]uint64
}

func (e *evaluator) eval(m *Model, t *Term) uint64 {
	if e.cache == nil || e.m != m || len(e.cache) > 1<<16 {
		e.m = m
		e.cache = map[*Term]uint64{}
	}
	return e.ev(t)
}

func (e *evaluator) ev(t *Term) uint64 {
	switch t.op {
	case OConst:
		return t.val
	case OVar:
		if e.m == nil {
			return 0
		}
		return e.m.vals[t.val]
	}
	if v, ok := e.cache[t]; ok {
		return v
	}
	var r uint64
	switch t.op {
	case OEq:
		r = b2u(e.ev(t.a) == e.ev(t.b))
	case OUlt:
		r = b2u(e.ev(t.a) < e.ev(t.b))
	case OSlt:
		r = b2u(sext(e.ev(t.a), t.a.w) < sext(e.ev(t.b), t.b.w))
	case OBNot:
		r = 1 - e.ev(t.a)
	case OBAnd:
		r = e.ev(t.a) & e.ev(t.b)
	case OBOr:
		r = e.ev(t.a) | e.ev(t.b)
	case OIte:
		if e.ev(t.a) == 1 {
			r = e.ev(t.b)
		} else {
			r = e.ev(t.c)
		}
	case OZext:
		r = e.ev(t.a)
	case OSext:
		r = uint64(sext(e.ev(t.a), t.a.w)) & mask(t.w)
	case OExtract:
		r = e.ev(t.a) >> t.val & mask(t.w)
	case ONot:
		r = ^e.ev(t.a) & mask(t.w)
	case ONeg:
		r = -e.ev(t.a) & mask(t.w)
	default:
		r = evalBin(t.op, t.w, e.ev(t.a), e.ev(t.b))
	}
	e.cache[t] = r
	return r
}

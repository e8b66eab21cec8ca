package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

// opnd is a pre-resolved operand: a register, or a constant when reg < 0.
type opnd struct {
	reg int32
	c   Value
}

type ctl int

const (
	cNext  ctl = iota
	cJump      // block and pc already set, or frames changed
	cEnd       // path finished
	cBlock     // current thread cannot proceed
)

type handler func(w *Worker, st *State, fr *Frame, ci *CInstr) ctl

type CInstr struct {
	h    handler
	in   ssa.Instruction
	dst  int
	x, y opnd
	z    opnd
	args []opnd
	t    *TypeInfo // result type
	xt   *TypeInfo // operand type
	yt   *TypeInfo
	tok  token.Token
	k    int
	flag bool
	fi   *FnInfo // static callee
	call *ssa.CallCommon
	phis []phi
}

type phi struct {
	dst   int
	edges []opnd
}

type CBlock struct {
	ins   []CInstr
	phis  []phi
	preds []int
	succs []int
}

type FnInfo struct {
	fn     *ssa.Function
	name   string
	blocks []CBlock
	nregs  int
	rec    int // recover block or -1
	intr   intrinsic
	redir  *FnInfo
	nparam int
	res    *TypeInfo
	hits   int64
	isInit bool
	skip   bool
	pkg    string
}

type Program struct {
	pkgs    []*packages.Package
	prog    *ssa.Program
	fns     sync.Map // *ssa.Function -> *FnInfo
	mu      sync.Mutex
	globals map[*ssa.Global]uint32
	redirs  map[string]*ssa.Function
	base    *State // after package initialisation
}

func (p *Program) info(fn *ssa.Function) *FnInfo {
	if v, ok := p.fns.Load(fn); ok {
		return v.(*FnInfo)
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.infoLocked(fn)
}

func (p *Program) infoLocked(fn *ssa.Function) *FnInfo {
	if v, ok := p.fns.Load(fn); ok {
		return v.(*FnInfo)
	}
	fi := &FnInfo{fn: fn, name: fn.String(), rec: -1}
	if fn.Pkg != nil {
		fi.pkg = fn.Pkg.Pkg.Path()
	} else if o := fn.Origin(); o != nil && o.Pkg != nil {
		fi.pkg = o.Pkg.Pkg.Path()
	} else if fn.Object() != nil && fn.Object().Pkg() != nil {
		fi.pkg = fn.Object().Pkg().Path()
	}
	if fn.Synthetic == "package initializer" {
		fi.isInit = true
		fi.skip = !initAllowed(fn.Pkg.Pkg.Path())
	}
	name := fi.name
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	if in, ok := intrinsics[name]; ok {
		fi.intr = in
	} else if r, ok := p.redirs[name]; ok && r != fn {
		fi.redir = p.infoLocked(r)
	}
	if fn.Signature != nil {
		fi.res = typeOf(fn.Signature.Results())
	}
	p.fns.Store(fn, fi)
	return fi
}

// ensure compiles the body of fi on first use.
func (p *Program) ensure(fi *FnInfo) {
	if fi.blocks != nil {
		return
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	if fi.blocks != nil {
		return
	}
	fn := fi.fn
	if fn.Blocks == nil && fn.Pkg != nil {
		fn.Pkg.Build()
	}
	if fn.Blocks == nil {
		if o := fn.Origin(); o != nil && o.Pkg != nil {
			o.Pkg.Build()
		}
	}
	if fn.Blocks == nil {
		panic(unsupported("no body: " + fi.name))
	}
	if reflectOnly(fi.name) {
		panic(unsupported("not modelled: " + fi.name))
	}
	c := &compiler{p: p, fi: fi, regs: map[ssa.Value]int{}}
	c.compile()
}

type compiler struct {
	p    *Program
	fi   *FnInfo
	regs map[ssa.Value]int
	n    int
}

func (c *compiler) reg(v ssa.Value) int {
	if r, ok := c.regs[v]; ok {
		return r
	}
	r := c.n
	c.n++
	c.regs[v] = r
	return r
}

func (c *compiler) opnd(v ssa.Value) opnd {
	switch v := v.(type) {
	case nil:
		return opnd{reg: -2}
	case *ssa.Const:
		return opnd{-1, constValue(v)}
	case *ssa.Global:
		return opnd{-1, ptrVal(c.p.global(v), 0)}
	case *ssa.Function:
		return opnd{-1, Value{p: &FuncV{fn: v}}}
	case *ssa.Builtin:
		return opnd{reg: -2}
	}
	return opnd{reg: int32(c.reg(v))}
}

func constValue(c *ssa.Const) Value {
	ti := typeOf(c.Type())
	if c.Value == nil {
		return Value{}
	}
	switch ti.kind {
	case KBool:
		return boolVal(constant.BoolVal(c.Value))
	case KInt:
		if i, ok := constant.Int64Val(constant.ToInt(c.Value)); ok {
			return Value{n: uint64(i) & mask(ti.w)}
		}
		u, _ := constant.Uint64Val(constant.ToInt(c.Value))
		return Value{n: u & mask(ti.w)}
	case KFloat:
		f, _ := constant.Float64Val(c.Value)
		return floatVal(f, ti.w)
	case KString:
		if c.Value.Kind() == constant.String {
			return strVal(constant.StringVal(c.Value))
		}
		i, _ := constant.Int64Val(c.Value)
		return strVal(string(rune(i)))
	case KPtr:
		u, _ := constant.Uint64Val(c.Value)
		return Value{n: u}
	case KComplex:
		return Value{}
	}
	panic(unsupported("constant of type " + ti.String()))
}

func floatVal(f float64, w uint8) Value {
	if w == 32 {
		f = float64(float32(f))
	}
	return Value{n: math.Float64bits(f)}
}

func (p *Program) global(g *ssa.Global) uint32 {
	if id, ok := p.globals[g]; ok {
		return id
	}
	// Globals not seen at start-up get an object in the base state; only
	// possible before exploration starts.
	panic(unsupported("global allocated late: " + g.String()))
}

func (c *compiler) compile() {
	fn := c.fi.fn
	for _, p := range fn.Params {
		c.reg(p)
	}
	for _, fv := range fn.FreeVars {
		c.reg(fv)
	}
	c.fi.nparam = len(fn.Params)
	blocks := make([]CBlock, len(fn.Blocks))
	for i, b := range fn.Blocks {
		cb := &blocks[i]
		for _, p := range b.Preds {
			cb.preds = append(cb.preds, p.Index)
		}
		for _, s := range b.Succs {
			cb.succs = append(cb.succs, s.Index)
		}
		for _, in := range b.Instrs {
			if ph, ok := in.(*ssa.Phi); ok {
				e := make([]opnd, len(ph.Edges))
				for k, x := range ph.Edges {
					e[k] = c.opnd(x)
				}
				cb.phis = append(cb.phis, phi{c.reg(ph), e})
				continue
			}
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			cb.ins = append(cb.ins, c.instr(in))
		}
	}
	if fn.Recover != nil {
		c.fi.rec = fn.Recover.Index
	}
	c.fi.nregs = c.n
	c.fi.blocks = blocks
}

func (c *compiler) instr(in ssa.Instruction) CInstr {
	ci := CInstr{in: in, dst: -1}
	if v, ok := in.(ssa.Value); ok {
		ci.dst = c.reg(v)
		ci.t = typeOf(v.Type())
	}
	switch in := in.(type) {
	case *ssa.UnOp:
		ci.x = c.opnd(in.X)
		ci.xt = typeOf(in.X.Type())
		ci.tok = in.Op
		ci.flag = in.CommaOk
		switch in.Op {
		case token.MUL:
			ci.h = hLoad
		case token.ARROW:
			ci.h = hRecv
		default:
			ci.h = hUnOp
		}
	case *ssa.BinOp:
		ci.x, ci.y = c.opnd(in.X), c.opnd(in.Y)
		ci.xt, ci.yt = typeOf(in.X.Type()), typeOf(in.Y.Type())
		ci.tok = in.Op
		ci.h = hBinOp
	case *ssa.Call:
		c.callInstr(&ci, &in.Call)
		ci.h = hCall
	case *ssa.Defer:
		c.callInstr(&ci, &in.Call)
		ci.z = c.opnd(in.DeferStack)
		ci.h = hDefer
	case *ssa.Go:
		c.callInstr(&ci, &in.Call)
		ci.h = hGo
	case *ssa.ChangeInterface:
		ci.x = c.opnd(in.X)
		ci.h = hMove
	case *ssa.ChangeType:
		ci.x = c.opnd(in.X)
		ci.h = hMove
	case *ssa.Convert:
		ci.x = c.opnd(in.X)
		ci.xt = typeOf(in.X.Type())
		ci.h = hConvert
	case *ssa.MultiConvert:
		ci.x = c.opnd(in.X)
		ci.xt = typeOf(in.X.Type())
		ci.h = hConvert
	case *ssa.SliceToArrayPointer:
		ci.x = c.opnd(in.X)
		ci.h = hSliceToArrayPtr
	case *ssa.MakeInterface:
		ci.x = c.opnd(in.X)
		ci.xt = typeOf(in.X.Type())
		ci.h = hMakeInterface
	case *ssa.Extract:
		ci.x = c.opnd(in.Tuple)
		ci.k = in.Index
		ci.h = hExtract
	case *ssa.Slice:
		ci.x = c.opnd(in.X)
		ci.xt = typeOf(in.X.Type())
		ci.args = []opnd{c.opnd(in.Low), c.opnd(in.High), c.opnd(in.Max)}
		ci.h = hSlice
	case *ssa.Return:
		for _, r := range in.Results {
			ci.args = append(ci.args, c.opnd(r))
		}
		ci.h = hReturn
	case *ssa.RunDefers:
		ci.h = hRunDefers
	case *ssa.Panic:
		ci.x = c.opnd(in.X)
		ci.h = hPanic
	case *ssa.Send:
		ci.x, ci.y = c.opnd(in.Chan), c.opnd(in.X)
		ci.h = hSend
	case *ssa.Store:
		ci.x, ci.y = c.opnd(in.Addr), c.opnd(in.Val)
		ci.yt = typeOf(in.Val.Type())
		ci.h = hStore
	case *ssa.If:
		ci.x = c.opnd(in.Cond)
		ci.h = hIf
	case *ssa.Jump:
		ci.h = hJump
	case *ssa.MakeChan:
		ci.x = c.opnd(in.Size)
		ci.h = hMakeChan
	case *ssa.Alloc:
		ci.xt = typeOf(in.Type().Underlying().(*types.Pointer).Elem())
		ci.h = hAlloc
	case *ssa.MakeSlice:
		ci.x, ci.y = c.opnd(in.Len), c.opnd(in.Cap)
		ci.xt, ci.yt = typeOf(in.Len.Type()), typeOf(in.Cap.Type())
		ci.h = hMakeSlice
	case *ssa.MakeMap:
		ci.h = hMakeMap
	case *ssa.Range:
		ci.x = c.opnd(in.X)
		ci.xt = typeOf(in.X.Type())
		ci.h = hRange
	case *ssa.Next:
		ci.x = c.opnd(in.Iter)
		ci.flag = in.IsString
		ci.h = hNext
	case *ssa.FieldAddr:
		ci.x = c.opnd(in.X)
		st := typeOf(in.X.Type()).elem
		if st == nil {
			st = typeOf(in.X.Type().Underlying().(*types.Pointer).Elem())
		}
		ci.k = st.offs[in.Field]
		ci.h = hFieldAddr
	case *ssa.Field:
		ci.x = c.opnd(in.X)
		st := typeOf(in.X.Type())
		ci.k = st.offs[in.Field]
		ci.h = hField
	case *ssa.IndexAddr:
		ci.x, ci.y = c.opnd(in.X), c.opnd(in.Index)
		ci.xt, ci.yt = typeOf(in.X.Type()), typeOf(in.Index.Type())
		ci.h = hIndexAddr
	case *ssa.Index:
		ci.x, ci.y = c.opnd(in.X), c.opnd(in.Index)
		ci.xt, ci.yt = typeOf(in.X.Type()), typeOf(in.Index.Type())
		ci.h = hIndex
	case *ssa.Lookup:
		ci.x, ci.y = c.opnd(in.X), c.opnd(in.Index)
		ci.xt, ci.yt = typeOf(in.X.Type()), typeOf(in.Index.Type())
		ci.flag = in.CommaOk
		ci.h = hLookup
	case *ssa.MapUpdate:
		ci.x, ci.y, ci.z = c.opnd(in.Map), c.opnd(in.Key), c.opnd(in.Value)
		ci.xt = typeOf(in.Map.Type())
		ci.h = hMapUpdate
	case *ssa.TypeAssert:
		ci.x = c.opnd(in.X)
		ci.xt = typeOf(in.AssertedType)
		ci.flag = in.CommaOk
		ci.h = hTypeAssert
	case *ssa.MakeClosure:
		ci.x = c.opnd(in.Fn)
		for _, b := range in.Bindings {
			ci.args = append(ci.args, c.opnd(b))
		}
		ci.h = hMakeClosure
	case *ssa.Select:
		ci.h = hSelect
		for _, s := range in.States {
			ci.args = append(ci.args, c.opnd(s.Chan), c.opnd(s.Send))
		}
	default:
		msg := fmt.Sprintf("instruction %T", in)
		ci.h = func(w *Worker, st *State, fr *Frame, ci *CInstr) ctl { panic(unsupported(msg)) }
	}
	return ci
}

func (c *compiler) callInstr(ci *CInstr, call *ssa.CallCommon) {
	ci.call = call
	for _, a := range call.Args {
		ci.args = append(ci.args, c.opnd(a))
	}
	if call.IsInvoke() {
		ci.x = c.opnd(call.Value)
		return
	}
	switch f := call.Value.(type) {
	case *ssa.Function:
		ci.fi = c.p.infoLocked(f)
	case *ssa.Builtin:
		ci.x = opnd{reg: -2}
		ci.yt = nil
		if len(call.Args) > 0 {
			ci.xt = typeOf(call.Args[0].Type())
		}
		if len(call.Args) > 1 {
			ci.yt = typeOf(call.Args[1].Type())
		}
	default:
		ci.x = c.opnd(f)
	}
}

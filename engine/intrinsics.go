package main

import (
	"fmt"
	"go/types"
	"math"
	"strings"
	"sync/atomic"
)

// intrinsic models a function in the engine. It returns cNext with the result,
// or cJump when another thread was scheduled.
type intrinsic func(w *Worker, st *State, fr *Frame, args []Value) (Value, ctl)

var intrinsics = map[string]intrinsic{}

// Functions replaced by Go models in the harness runtime package rt.
var redirNames = map[string]string{
	"fmt.Sprintf":                         "Sprintf",
	"fmt.Sprint":                          "Sprint",
	"fmt.Sprintln":                        "Sprintln",
	"fmt.Errorf":                          "Errorf",
	"fmt.Printf":                          "Printf",
	"fmt.Println":                         "Println",
	"fmt.Print":                           "Print",
	"fmt.Fprintf":                         "Fprintf",
	"fmt.Fprintln":                        "Fprintln",
	"fmt.Fprint":                          "Fprint",
	"errors.As":                           "ErrorsAs",
	"(*sync/atomic.Value).Load":           "ValueLoad",
	"(*sync/atomic.Value).Store":          "ValueStore",
	"(*sync/atomic.Value).Swap":           "ValueSwap",
	"(*sync/atomic.Value).CompareAndSwap": "ValueCAS",
	"time.After":                          "After",
	"(*sync.Map).Load":                    "MapLoad",
	"(*sync.Map).Store":                   "MapStore",
	"(*sync.Map).LoadOrStore":             "MapLoadOrStore",
	"(*sync.Map).LoadAndDelete":           "MapLoadAndDelete",
	"(*sync.Map).Delete":                  "MapDelete",
	"(*sync.Map).Swap":                    "MapSwap",
	"(*sync.Map).Range":                   "MapRange",
	"(*sync.Map).Clear":                   "MapClear",
	"log.Panic":                           "LogPanic",
	"log.Panicf":                          "LogPanicf",
	"log.Panicln":                         "LogPanic",
	"(*sync.Cond).Wait":                   "CondWait",
	"(*sync.RWMutex).Lock":                "RWLock",
	"(*sync.Pool).Get":                    "PoolGet",
	"(*sync.Pool).Put":                    "PoolPut",
	"internal/bytealg.MakeNoZero":         "MakeNoZero",
}

const symPkg = "verif/harness/sym."
const rtPkg = "verif/harness/rt."

var initPkgs = map[string]bool{
	"errors": true, "io": true, "bytes": true, "strings": true, "strconv": true, "sort": true, "slices": true,
	"encoding/binary": true, "encoding/hex": true, "hash": true, "hash/fnv": true, "math": true, "math/bits": true, "math/rand": true,
	"container/list": true, "container/heap": true, "container/ring": true, "unicode/utf8": true, "sync": true,
	"sync/atomic": true, "cmp": true, "iter": true, "maps": true, "internal/itoa": true, "internal/strconv": true, "internal/stringslite": true, "hash/crc32": true, "hash/adler32": true, "hash/maphash": false, "internal/cpu": true, "internal/bytealg": true, "internal/byteorder": true, "internal/goarch": true, "unicode": true,
}

func initAllowed(path string) bool {
	return strings.HasPrefix(path, "verif/") || strings.HasPrefix(path, "github.com/timtadh/") || initPkgs[path]
}

// fresh creates a symbolic input of the given width.
func (w *Worker) fresh(st *State, kind string, wd uint8) *Term {
	t := tVar(fmt.Sprintf("%s%d", kind, st.inputCount(kind)), wd)
	st.vars = append(st.vars[:len(st.vars):len(st.vars)], t)
	st.addInput(kind, "", mkVal(t), wd)
	return t
}

func symInput(kind string, wd uint8) intrinsic {
	return func(w *Worker, st *State, fr *Frame, args []Value) (Value, ctl) {
		return mkVal(w.fresh(st, kind, wd)), cNext
	}
}

func nop(w *Worker, st *State, fr *Frame, args []Value) (Value, ctl) { return Value{}, cNext }

func ret(v Value) intrinsic {
	return func(w *Worker, st *State, fr *Frame, args []Value) (Value, ctl) { return v, cNext }
}

func pure(f func(w *Worker, st *State, args []Value) Value) intrinsic {
	return func(w *Worker, st *State, fr *Frame, args []Value) (Value, ctl) {
		return f(w, st, args), cNext
	}
}

// randIn is a nondeterministic value in [0,n).
func (w *Worker) randIn(st *State, n Value, wd uint8) Value {
	nt := n.term(wd)
	if w.decide(st, mkNot(mkSlt(tConst(0, wd), nt))) {
		panic(rtPanic{Value{p: &Iface{t: typeOf(types.Typ[types.String]), v: strVal("invalid argument to Intn")}}})
	}
	if st.still {
		st.addInput("rand", "", mkVal(tConst(0, wd)), wd)
		return mkVal(tConst(0, wd))
	}
	// Both calls below happen after the last fork of this handler.
	t := w.fresh(st, "rand", wd)
	if st.model == nil || len(st.model.vals) == 0 || w.ev.eval(st.model, t) == 0 {
		st.addPC(mkUlt(t, nt))
		return mkVal(t)
	}
	w.assume(st, mkUlt(t, nt))
	return mkVal(t)
}

func reflectTypeVal(ti *TypeInfo) Value {
	return Value{p: ti}
}

func rtypeIface(w *Worker, ti *TypeInfo) Value {
	p := w.e.p.prog.ImportedPackage("reflect")
	if p == nil {
		panic(unsupported("reflect not loaded"))
	}
	rt := typeOf(types.NewPointer(p.Type("rtype").Object().Type()))
	return Value{p: &Iface{t: rt, v: Value{p: ti, n: 1 << 62}}}
}

func rtypeOf(v Value) *TypeInfo {
	switch x := v.p.(type) {
	case *TypeInfo:
		return x
	case *Iface:
		if ti, ok := x.v.p.(*TypeInfo); ok {
			return ti
		}
	}
	panic(unsupported("reflect.Type value"))
}

func reflectKind(ti *TypeInfo) uint64 {
	switch u := ti.t.Underlying().(type) {
	case *types.Basic:
		m := map[types.BasicKind]uint64{types.Bool: 1, types.Int: 2, types.Int8: 3, types.Int16: 4, types.Int32: 5, types.Int64: 6,
			types.Uint: 7, types.Uint8: 8, types.Uint16: 9, types.Uint32: 10, types.Uint64: 11, types.Uintptr: 12,
			types.Float32: 13, types.Float64: 14, types.Complex64: 15, types.Complex128: 16, types.String: 24, types.UnsafePointer: 26}
		return m[u.Kind()]
	case *types.Array:
		return 17
	case *types.Chan:
		return 18
	case *types.Signature:
		return 19
	case *types.Interface:
		return 20
	case *types.Map:
		return 21
	case *types.Pointer:
		return 22
	case *types.Slice:
		return 23
	case *types.Struct:
		return 25
	}
	return 0
}

func bytesOf(w *Worker, st *State, v Value) []Value {
	switch v.p.(type) {
	case string, *SymStr:
		return strBytes(v)
	}
	return w.readSlice(st, sliceOf(v), 1)
}

func allConcrete(b []Value) bool {
	for _, x := range b {
		if x.p != nil {
			return false
		}
	}
	return true
}

// indexByte is the index of c in b as a term (first or last occurrence).
func indexByte(b []Value, c Value, last bool) Value {
	r := tConst(^uint64(0), 64)
	n := len(b)
	for k := 0; k < n; k++ {
		i := n - 1 - k
		if last {
			i = k
		}
		r = mkIte(mkEq(b[i].term(8), c.term(8)), tConst(uint64(i), 64), r)
	}
	return mkVal(r)
}

func cmpTerm(a, b []Value) Value {
	return mkVal(mkIte(bytesLess(a, b), tConst(^uint64(0), 64), mkIte(bytesEq(a, b), tConst(0, 64), tConst(1, 64))))
}

func init() {
	// Symbolic inputs and verification primitives.
	for _, x := range []struct {
		n string
		w uint8
	}{{"Int", 64}, {"Int8", 8}, {"Int16", 16}, {"Int32", 32}, {"Int64", 64}, {"Uint", 64}, {"Uint8", 8}, {"Uint16", 16}, {"Uint32", 32}, {"Uint64", 64}, {"Byte", 8}} {
		intrinsics[symPkg+x.n] = symInput(strings.ToLower(x.n), x.w)
	}
	intrinsics[symPkg+"Bool"] = func(w *Worker, st *State, fr *Frame, args []Value) (Value, ctl) {
		t := w.fresh(st, "bool", 8)
		c := mkUlt(t, tConst(2, 8))
		st.addPC(c) // the model gives the fresh variable 0
		return mkVal(mkEq(t, tConst(1, 8))), cNext
	}
	intrinsics[symPkg+"Range"] = func(w *Worker, st *State, fr *Frame, args []Value) (Value, ctl) {
		lo, hi := args[0], args[1]
		if lo.p != nil || hi.p != nil {
			panic(unsupported("symbolic Range bounds"))
		}
		if int64(lo.n) > int64(hi.n) {
			panic(pathKill{})
		}
		if lo.n == hi.n {
			st.addInput("range", "", lo, 64)
			return lo, cNext
		}
		// Input is lo + x with x in [0, hi-lo].
		t := tVar(fmt.Sprintf("range%d", st.inputCount("range")), 64)
		st.vars = append(st.vars[:len(st.vars):len(st.vars)], t)
		v := mkVal(mkBin(OAdd, t, tConst(lo.n, 64)))
		st.addInput("range", "", v, 64)
		if hi.n-lo.n != ^uint64(0) {
			st.addPC(mkUlt(t, tConst(hi.n-lo.n+1, 64)))
		}
		return v, cNext
	}
	intrinsics[symPkg+"Fix"] = func(w *Worker, st *State, fr *Frame, args []Value) (Value, ctl) {
		return Value{n: w.concretize(st, args[0], 64)}, cNext
	}
	intrinsics[symPkg+"IsSym"] = func(w *Worker, st *State, fr *Frame, args []Value) (Value, ctl) {
		_, ok := args[0].sym()
		return boolVal(ok), cNext
	}
	intrinsics[rtPkg+"isSym"] = intrinsics[symPkg+"IsSym"]
	intrinsics[symPkg+"Assume"] = func(w *Worker, st *State, fr *Frame, args []Value) (Value, ctl) {
		w.assume(st, args[0].boolTerm())
		return Value{}, cNext
	}
	intrinsics[symPkg+"Assert"] = func(w *Worker, st *State, fr *Frame, args []Value) (Value, ctl) {
		msg, _ := goString(args[1])
		w.assert(st, args[0].boolTerm(), msg)
		return Value{}, cNext
	}
	intrinsics[symPkg+"Observe"] = func(w *Worker, st *State, fr *Frame, args []Value) (Value, ctl) {
		st.obs = &obsNode{args[0], 64, st.obs}
		return Value{}, cNext
	}
	intrinsics[symPkg+"Reach"] = func(w *Worker, st *State, fr *Frame, args []Value) (Value, ctl) {
		l, _ := goString(args[0])
		st.reach = append(st.reach[:len(st.reach):len(st.reach)], l)
		return Value{}, cNext
	}
	intrinsics[symPkg+"Bound"] = func(w *Worker, st *State, fr *Frame, args []Value) (Value, ctl) {
		l, _ := goString(args[0])
		v := args[1]
		if st.h.opt.thorough {
			v = args[2]
		}
		st.h.mu.Lock()
		st.h.bounds[l] = int(v.n)
		st.h.mu.Unlock()
		return v, cNext
	}
	intrinsics[symPkg+"Still"] = func(w *Worker, st *State, fr *Frame, args []Value) (Value, ctl) {
		st.still = args[0].n != 0
		return Value{}, cNext
	}
	intrinsics[symPkg+"Thorough"] = func(w *Worker, st *State, fr *Frame, args []Value) (Value, ctl) {
		return boolVal(st.h.opt.thorough), cNext
	}
	intrinsics[symPkg+"And"] = pure(func(w *Worker, st *State, a []Value) Value {
		r := tTrue
		for _, x := range w.readSlice(st, sliceOf(a[0]), 1) {
			r = mkAnd(r, x.boolTerm())
		}
		return mkVal(r)
	})
	intrinsics[symPkg+"Or"] = pure(func(w *Worker, st *State, a []Value) Value {
		r := tFalse
		for _, x := range w.readSlice(st, sliceOf(a[0]), 1) {
			r = mkOr(r, x.boolTerm())
		}
		return mkVal(r)
	})
	intrinsics[symPkg+"Implies"] = pure(func(w *Worker, st *State, a []Value) Value {
		return mkVal(mkOr(mkNot(a[0].boolTerm()), a[1].boolTerm()))
	})
	intrinsics[symPkg+"Ite"] = pure(func(w *Worker, st *State, a []Value) Value {
		return mkVal(mkIte(a[0].boolTerm(), a[1].term(64), a[2].term(64)))
	})
	intrinsics[symPkg+"EqBytes"] = pure(func(w *Worker, st *State, a []Value) Value {
		return mkVal(bytesEq(bytesOf(w, st, a[0]), bytesOf(w, st, a[1])))
	})
	intrinsics[symPkg+"LessBytes"] = pure(func(w *Worker, st *State, a []Value) Value {
		return mkVal(bytesLess(bytesOf(w, st, a[0]), bytesOf(w, st, a[1])))
	})

	// bytes and bytealg.
	eq := pure(func(w *Worker, st *State, a []Value) Value {
		return mkVal(bytesEq(bytesOf(w, st, a[0]), bytesOf(w, st, a[1])))
	})
	cmp := pure(func(w *Worker, st *State, a []Value) Value {
		return cmpTerm(bytesOf(w, st, a[0]), bytesOf(w, st, a[1]))
	})
	intrinsics["bytes.Equal"] = eq
	intrinsics["bytes.Compare"] = cmp
	intrinsics["strings.Compare"] = cmp
	intrinsics["internal/bytealg.Equal"] = eq
	intrinsics["internal/bytealg.Compare"] = cmp
	intrinsics["internal/bytealg.CompareString"] = cmp
	idx := pure(func(w *Worker, st *State, a []Value) Value {
		return indexByte(bytesOf(w, st, a[0]), a[1], false)
	})
	lidx := pure(func(w *Worker, st *State, a []Value) Value {
		return indexByte(bytesOf(w, st, a[0]), a[1], true)
	})
	for _, n := range []string{"bytes.IndexByte", "strings.IndexByte", "internal/bytealg.IndexByte", "internal/bytealg.IndexByteString", "internal/stringslite.IndexByte"} {
		intrinsics[n] = idx
	}
	for _, n := range []string{"bytes.LastIndexByte", "strings.LastIndexByte", "internal/bytealg.LastIndexByte", "internal/bytealg.LastIndexByteString"} {
		intrinsics[n] = lidx
	}
	count := pure(func(w *Worker, st *State, a []Value) Value {
		r := tConst(0, 64)
		for _, x := range bytesOf(w, st, a[0]) {
			r = mkBin(OAdd, r, mkIte(mkEq(x.term(8), a[1].term(8)), tConst(1, 64), tConst(0, 64)))
		}
		return mkVal(r)
	})
	intrinsics["internal/bytealg.Count"] = count
	intrinsics["internal/bytealg.CountString"] = count
	intrinsics["strings.Index"] = pure(func(w *Worker, st *State, a []Value) Value {
		x, y := bytesOf(w, st, a[0]), bytesOf(w, st, a[1])
		r := tConst(^uint64(0), 64)
		for i := len(x) - len(y); i >= 0; i-- {
			r = mkIte(bytesEq(x[i:i+len(y)], y), tConst(uint64(i), 64), r)
		}
		return mkVal(r)
	})
	intrinsics["bytes.Index"] = intrinsics["strings.Index"]
	intrinsics["internal/abi.NoEscape"] = pure(func(w *Worker, st *State, a []Value) Value { return a[0] })
	intrinsics["internal/abi.Escape"] = intrinsics["internal/abi.NoEscape"]
	intrinsics["internal/bytealg.abigen_runtime_memequal"] = eq

	// math
	intrinsics["math.Float64bits"] = pure(func(w *Worker, st *State, a []Value) Value { return Value{n: math.Float64bits(fl(a[0]))} })
	intrinsics["math.Float64frombits"] = pure(func(w *Worker, st *State, a []Value) Value {
		return Value{n: w.concretize(st, a[0], 64)}
	})
	intrinsics["math.Float32bits"] = pure(func(w *Worker, st *State, a []Value) Value {
		return Value{n: uint64(math.Float32bits(float32(fl(a[0]))))}
	})
	intrinsics["math.Float32frombits"] = pure(func(w *Worker, st *State, a []Value) Value {
		return floatVal(float64(math.Float32frombits(uint32(w.concretize(st, a[0], 32)))), 32)
	})
	f1 := func(n string, f func(float64) float64) {
		intrinsics["math."+n] = pure(func(w *Worker, st *State, a []Value) Value { return floatVal(f(fl(a[0])), 64) })
	}
	f1("Sqrt", math.Sqrt)
	f1("Floor", math.Floor)
	f1("Ceil", math.Ceil)
	f1("Log2", math.Log2)
	f1("Log", math.Log)
	f1("Exp", math.Exp)
	f1("Abs", math.Abs)
	intrinsics["math.Pow"] = pure(func(w *Worker, st *State, a []Value) Value { return floatVal(math.Pow(fl(a[0]), fl(a[1])), 64) })

	// runtime
	intrinsics["runtime.Stack"] = ret(Value{})
	intrinsics["runtime.Caller"] = ret(tuple(Value{}, Value{}, Value{}, Value{}))
	intrinsics["runtime.Callers"] = ret(Value{})
	intrinsics["runtime.FuncForPC"] = ret(Value{})
	intrinsics["(*runtime.Func).Name"] = ret(strVal("?"))
	intrinsics["runtime.GC"] = nop
	intrinsics["runtime.KeepAlive"] = nop
	intrinsics["runtime.SetFinalizer"] = nop
	intrinsics["runtime.Gosched"] = nop
	intrinsics["time.Sleep"] = nop
	intrinsics["runtime.NumGoroutine"] = ret(intVal(1))
	intrinsics["runtime.GOMAXPROCS"] = ret(intVal(4))
	intrinsics["runtime.NumCPU"] = ret(intVal(4))
	intrinsics["runtime/debug.Stack"] = ret(Value{})
	intrinsics["runtime/debug.PrintStack"] = nop
	intrinsics["internal/race.Enabled"] = nop
	for _, n := range []string{"Acquire", "Release", "ReleaseMerge", "Disable", "Enable", "Read", "Write", "ReadRange", "WriteRange", "Errors"} {
		intrinsics["internal/race."+n] = nop
	}
	for _, n := range []string{"Print", "Printf", "Println", "SetFlags", "SetPrefix", "SetOutput"} {
		intrinsics["log."+n] = nop
		intrinsics["(*log.Logger)."+n] = nop
	}
	intrinsics["log.New"] = func(w *Worker, st *State, fr *Frame, args []Value) (Value, ctl) {
		return ptrVal(st.alloc(1), 0), cNext
	}
	intrinsics["(*internal/godebug.Setting).Value"] = ret(Value{})
	intrinsics["(*internal/godebug.Setting).IncNonDefault"] = nop
	intrinsics["(*internal/godebug.Setting).Name"] = ret(Value{})
	intrinsics["internal/godebug.New"] = func(w *Worker, st *State, fr *Frame, args []Value) (Value, ctl) {
		return ptrVal(st.alloc(8), 0), cNext
	}

	// Randomness.
	intrinsics["crypto/rand.Read"] = func(w *Worker, st *State, fr *Frame, args []Value) (Value, ctl) {
		// Used for seeds only: leave the buffer as it is.
		return tuple(intVal(sliceOf(args[0]).len), Value{}), cNext
	}
	rn := func(i int, wd uint8) intrinsic {
		return func(w *Worker, st *State, fr *Frame, args []Value) (Value, ctl) {
			return w.randIn(st, args[i], wd), cNext
		}
	}
	intrinsics["math/rand.Intn"] = rn(0, 64)
	intrinsics["math/rand.Int63n"] = rn(0, 64)
	intrinsics["math/rand.Int31n"] = rn(0, 32)
	intrinsics["(*math/rand.Rand).Intn"] = rn(1, 64)
	intrinsics["(*math/rand.Rand).Int63n"] = rn(1, 64)
	intrinsics["(*math/rand.Rand).Int31n"] = rn(1, 32)
	nonneg := func(wd uint8, bits uint8) intrinsic {
		return func(w *Worker, st *State, fr *Frame, args []Value) (Value, ctl) {
			t := w.fresh(st, "rand", wd)
			st.addPC(mkNot(mkSlt(t, tConst(0, wd))))
			return mkVal(t), cNext
		}
	}
	intrinsics["math/rand.Int"] = nonneg(64, 63)
	intrinsics["math/rand.Int63"] = nonneg(64, 63)
	intrinsics["math/rand.Int31"] = nonneg(32, 31)
	intrinsics["math/rand.Uint64"] = symInput("rand", 64)
	intrinsics["math/rand.Uint32"] = symInput("rand", 32)
	intrinsics["math/rand.Seed"] = nop

	// reflect
	intrinsics["reflect.TypeOf"] = func(w *Worker, st *State, fr *Frame, args []Value) (Value, ctl) {
		i, _ := args[0].p.(*Iface)
		if i == nil {
			return Value{}, cNext
		}
		return rtypeIface(w, i.t), cNext
	}
	intrinsics["reflect.PtrTo"] = pure(func(w *Worker, st *State, a []Value) Value {
		return rtypeIface(w, typeOf(types.NewPointer(rtypeOf(a[0]).t)))
	})
	intrinsics["reflect.PointerTo"] = intrinsics["reflect.PtrTo"]
	rm := func(n string, f func(w *Worker, st *State, ti *TypeInfo, a []Value) Value) {
		intrinsics["(*reflect.rtype)."+n] = pure(func(w *Worker, st *State, a []Value) Value { return f(w, st, rtypeOf(a[0]), a[1:]) })
	}
	rm("Kind", func(w *Worker, st *State, ti *TypeInfo, a []Value) Value { return Value{n: reflectKind(ti)} })
	rm("Elem", func(w *Worker, st *State, ti *TypeInfo, a []Value) Value {
		if ti.elem == nil {
			w.throw("reflect: Elem of invalid type " + ti.String())
		}
		return rtypeIface(w, ti.elem)
	})
	rm("NumField", func(w *Worker, st *State, ti *TypeInfo, a []Value) Value { return intVal(len(ti.fields)) })
	rm("String", func(w *Worker, st *State, ti *TypeInfo, a []Value) Value {
		return strVal(types.TypeString(ti.t, (*types.Package).Name))
	})
	rm("Name", func(w *Worker, st *State, ti *TypeInfo, a []Value) Value { return strVal(ti.named) })
	rm("Comparable", func(w *Worker, st *State, ti *TypeInfo, a []Value) Value { return boolVal(types.Comparable(ti.t)) })
	rm("AssignableTo", func(w *Worker, st *State, ti *TypeInfo, a []Value) Value {
		if a[0].p == nil {
			panic(rtPanic{Value{p: &Iface{t: typeOf(types.Typ[types.String]), v: strVal("reflect: nil type passed to Type.AssignableTo")}}})
		}
		return boolVal(types.AssignableTo(ti.t, rtypeOf(a[0]).t))
	})
	rm("ConvertibleTo", func(w *Worker, st *State, ti *TypeInfo, a []Value) Value {
		return boolVal(types.ConvertibleTo(ti.t, rtypeOf(a[0]).t))
	})
	rm("Implements", func(w *Worker, st *State, ti *TypeInfo, a []Value) Value {
		return boolVal(implements(ti, rtypeOf(a[0])))
	})
	intrinsics["(*reflect.rtype).Field"] = pure(func(w *Worker, st *State, a []Value) Value {
		ti := rtypeOf(a[0])
		s := ti.t.Underlying().(*types.Struct)
		i := int(w.concretize(st, a[1], 64))
		if i < 0 || i >= s.NumFields() {
			w.throw("reflect: Field index out of bounds")
		}
		sf := typeOf(w.e.p.prog.ImportedPackage("reflect").Type("StructField").Object().Type())
		cells := make([]Value, sf.cells)
		// Name, PkgPath, Type, Tag, Offset, Index, Anonymous
		cells[sf.offs[0]] = strVal(s.Field(i).Name())
		cells[sf.offs[2]] = rtypeIface(w, ti.fields[i])
		cells[sf.offs[6]] = boolVal(s.Field(i).Embedded())
		return Value{p: &Agg{cells}}
	})
	// reflect.Value: only what types.IsNil needs. The value is kept whole in
	// the first cell.
	intrinsics["reflect.ValueOf"] = pure(func(w *Worker, st *State, a []Value) Value {
		sf := typeOf(w.e.p.prog.ImportedPackage("reflect").Type("Value").Object().Type())
		cells := make([]Value, sf.cells)
		cells[0] = a[0]
		return Value{p: &Agg{cells}}
	})
	rv := func(v Value) *Iface {
		i, _ := v.p.(*Agg).cells[0].p.(*Iface)
		return i
	}
	intrinsics["(reflect.Value).IsNil"] = pure(func(w *Worker, st *State, a []Value) Value {
		i := rv(a[0])
		if i == nil {
			w.throw("reflect: call of reflect.Value.IsNil on zero Value")
		}
		switch i.t.kind {
		case KPtr, KMap, KChan:
			return boolVal(i.v.n == 0)
		case KSlice, KFunc, KIface:
			return boolVal(i.v.p == nil)
		}
		w.throw("reflect: call of reflect.Value.IsNil on " + i.t.String() + " Value")
		return Value{}
	})
	intrinsics["(reflect.Value).Kind"] = pure(func(w *Worker, st *State, a []Value) Value {
		i := rv(a[0])
		if i == nil {
			return Value{}
		}
		return Value{n: reflectKind(i.t)}
	})
	intrinsics["(reflect.Value).IsValid"] = pure(func(w *Worker, st *State, a []Value) Value { return boolVal(rv(a[0]) != nil) })
	intrinsics["(reflect.Value).Type"] = pure(func(w *Worker, st *State, a []Value) Value { return rtypeIface(w, rv(a[0]).t) })
	intrinsics["(reflect.Value).Interface"] = pure(func(w *Worker, st *State, a []Value) Value { return a[0].p.(*Agg).cells[0] })
	intrinsics["(reflect.Value).Len"] = pure(func(w *Worker, st *State, a []Value) Value {
		i := rv(a[0])
		if i != nil && i.t.kind == KSlice {
			return intVal(sliceOf(i.v).len)
		}
		panic(unsupported("reflect.Value.Len"))
	})

	swapper := func(w *Worker, st *State, fr *Frame, args []Value) (Value, ctl) {
		i := args[0].p.(*Iface)
		ec := i.t.elem.cells
		s := sliceOf(i.v)
		f := &FuncV{native: func(w *Worker, st *State, a []Value) Value {
			x, y := int(w.concretize(st, a[0], 64)), int(w.concretize(st, a[1], 64))
			if x < 0 || y < 0 || x >= s.len || y >= s.len {
				w.throw("reflect: slice index out of range")
			}
			o := st.wobj(s.obj)
			for k := 0; k < ec; k++ {
				p, q := o.get(s.off+x*ec+k), o.get(s.off+y*ec+k)
				o.set(s.off+x*ec+k, q)
				o.set(s.off+y*ec+k, p)
			}
			return Value{}
		}}
		return Value{p: f}, cNext
	}
	intrinsics["internal/reflectlite.Swapper"] = swapper
	intrinsics["reflect.Swapper"] = swapper
	// sort.Slice asks reflectlite for the length.
	intrinsics["internal/reflectlite.ValueOf"] = pure(func(w *Worker, st *State, a []Value) Value {
		sf := typeOf(w.e.p.prog.ImportedPackage("internal/reflectlite").Type("Value").Object().Type())
		cells := make([]Value, sf.cells)
		cells[0] = a[0]
		return Value{p: &Agg{cells}}
	})
	intrinsics["(internal/reflectlite.Value).Len"] = intrinsics["(reflect.Value).Len"]

	intrinsics[rtPkg+"typeName"] = pure(func(w *Worker, st *State, a []Value) Value {
		i, _ := a[0].p.(*Iface)
		if i == nil {
			return strVal("<nil>")
		}
		return strVal(types.TypeString(i.t.t, (*types.Package).Name))
	})
	// intOf extracts the integer in an interface: (value, signed, ok).
	intrinsics[rtPkg+"intOf"] = pure(func(w *Worker, st *State, a []Value) Value {
		i, _ := a[0].p.(*Iface)
		if i == nil || i.t.kind != KInt {
			return tuple(Value{}, boolVal(false), boolVal(false))
		}
		return tuple(mkVal(widen(i.v, i.t)), boolVal(i.t.signed), boolVal(true))
	})
	intrinsics[rtPkg+"strOf"] = pure(func(w *Worker, st *State, a []Value) Value {
		i, _ := a[0].p.(*Iface)
		if i != nil && i.t.kind == KString {
			return tuple(i.v, boolVal(true))
		}
		return tuple(Value{}, boolVal(false))
	})
	intrinsics[rtPkg+"ptrNil"] = pure(func(w *Worker, st *State, a []Value) Value {
		i, _ := a[0].p.(*Iface)
		return boolVal(i != nil && i.t.kind == KPtr && i.v.n == 0)
	})
	// internal/reflectlite types, used by errors.
	lite := func(w *Worker, ti *TypeInfo) Value {
		p := w.e.p.prog.ImportedPackage("internal/reflectlite")
		return Value{p: &Iface{t: typeOf(p.Type("rtype").Object().Type()), v: Value{p: ti}}}
	}
	intrinsics["internal/reflectlite.TypeOf"] = pure(func(w *Worker, st *State, a []Value) Value {
		i, _ := a[0].p.(*Iface)
		if i == nil {
			return Value{}
		}
		return lite(w, i.t)
	})
	lm := func(n string, f func(w *Worker, ti *TypeInfo, a []Value) Value) {
		intrinsics["(internal/reflectlite.rtype)."+n] = pure(func(w *Worker, st *State, a []Value) Value { return f(w, rtypeOf(a[0]), a[1:]) })
	}
	lm("Elem", func(w *Worker, ti *TypeInfo, a []Value) Value { return lite(w, ti.elem) })
	lm("Kind", func(w *Worker, ti *TypeInfo, a []Value) Value { return Value{n: reflectKind(ti)} })
	lm("Comparable", func(w *Worker, ti *TypeInfo, a []Value) Value { return boolVal(types.Comparable(ti.t)) })
	lm("Implements", func(w *Worker, ti *TypeInfo, a []Value) Value { return boolVal(implements(ti, rtypeOf(a[0]))) })
	lm("AssignableTo", func(w *Worker, ti *TypeInfo, a []Value) Value {
		return boolVal(types.AssignableTo(ti.t, rtypeOf(a[0]).t))
	})
	intrinsics["sync.runtime_registerPoolCleanup"] = nop
	intrinsics["sync.runtime_notifyListCheck"] = nop
	_ = atomic.AddInt64
}

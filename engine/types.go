package main

import (
	"fmt"
	"go/types"
	"sync"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

type Kind uint8

const (
	KInvalid Kind = iota
	KBool
	KInt
	KFloat
	KComplex
	KString
	KPtr
	KSlice
	KIface
	KMap
	KChan
	KFunc
	KStruct
	KArray
	KTuple
)

// TypeInfo is the canonical description of a Go type: two identical types
// share one TypeInfo.
type TypeInfo struct {
	t       types.Type
	kind    Kind
	w       uint8 // integer or float width
	signed  bool
	cells   int // number of memory cells
	fields  []*TypeInfo
	offs    []int
	elem    *TypeInfo // pointer, slice, array, chan, map value
	key     *TypeInfo
	n       int // array length
	id      int
	named   string
	methods sync.Map // method id -> *ssa.Function
	implMu  sync.Mutex
	impl    map[*TypeInfo]bool
}

func (t *TypeInfo) agg() bool { return t.kind == KStruct || t.kind == KArray }

func (t *TypeInfo) String() string { return t.t.String() }

type typeTable struct {
	mu    sync.Mutex
	byPtr sync.Map // types.Type -> *TypeInfo
	canon typeutil.Map
	next  int
	prog  *ssa.Program
}

var tt typeTable

func typeOf(t types.Type) *TypeInfo {
	if v, ok := tt.byPtr.Load(t); ok {
		return v.(*TypeInfo)
	}
	tt.mu.Lock()
	defer tt.mu.Unlock()
	return tt.get(t)
}

func (tab *typeTable) get(t types.Type) *TypeInfo {
	if v, ok := tab.byPtr.Load(t); ok {
		return v.(*TypeInfo)
	}
	t0 := t
	t = types.Unalias(t)
	if v := tab.canon.At(t); v != nil {
		tab.byPtr.Store(t0, v)
		return v.(*TypeInfo)
	}
	tab.next++
	ti := &TypeInfo{t: t, id: tab.next, cells: 1}
	tab.canon.Set(t, ti)
	if n, ok := t.(*types.Named); ok {
		ti.named = n.Obj().Name()
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			ti.kind = KBool
		case types.Int8:
			ti.kind, ti.w, ti.signed = KInt, 8, true
		case types.Int16:
			ti.kind, ti.w, ti.signed = KInt, 16, true
		case types.Int32, types.UntypedRune:
			ti.kind, ti.w, ti.signed = KInt, 32, true
		case types.Int64, types.Int, types.UntypedInt:
			ti.kind, ti.w, ti.signed = KInt, 64, true
		case types.Uint8:
			ti.kind, ti.w = KInt, 8
		case types.Uint16:
			ti.kind, ti.w = KInt, 16
		case types.Uint32:
			ti.kind, ti.w = KInt, 32
		case types.Uint64, types.Uint, types.Uintptr:
			ti.kind, ti.w = KInt, 64
		case types.Float32:
			ti.kind, ti.w = KFloat, 32
		case types.Float64, types.UntypedFloat:
			ti.kind, ti.w = KFloat, 64
		case types.Complex64, types.Complex128, types.UntypedComplex:
			ti.kind = KComplex
		case types.String, types.UntypedString:
			ti.kind = KString
		case types.UnsafePointer:
			ti.kind = KPtr
		case types.UntypedNil:
			ti.kind = KPtr
		default:
			ti.kind = KInvalid
		}
	case *types.Pointer:
		ti.kind = KPtr
		ti.elem = tab.get(u.Elem())
	case *types.Slice:
		ti.kind = KSlice
		ti.elem = tab.get(u.Elem())
	case *types.Interface:
		ti.kind = KIface
	case *types.Map:
		ti.kind = KMap
		ti.key = tab.get(u.Key())
		ti.elem = tab.get(u.Elem())
	case *types.Chan:
		ti.kind = KChan
		ti.elem = tab.get(u.Elem())
	case *types.Signature:
		ti.kind = KFunc
	case *types.Struct:
		ti.kind = KStruct
		off := 0
		for i := 0; i < u.NumFields(); i++ {
			f := tab.get(u.Field(i).Type())
			ti.fields = append(ti.fields, f)
			ti.offs = append(ti.offs, off)
			off += f.cells
		}
		ti.cells = off
	case *types.Array:
		ti.kind = KArray
		ti.elem = tab.get(u.Elem())
		ti.n = int(u.Len())
		ti.cells = ti.n * ti.elem.cells
	case *types.Tuple:
		ti.kind = KTuple
		for i := 0; i < u.Len(); i++ {
			ti.fields = append(ti.fields, tab.get(u.At(i).Type()))
		}
	default:
		ti.kind = KInvalid
	}
	tab.byPtr.Store(t0, ti)
	return ti
}

// lookupMethod finds the concrete method for dynamic type ti.
func lookupMethod(ti *TypeInfo, m *types.Func) *ssa.Function {
	id := m.Id()
	if f, ok := ti.methods.Load(id); ok {
		return f.(*ssa.Function)
	}
	f := tt.prog.LookupMethod(ti.t, m.Pkg(), m.Name())
	if f != nil {
		ti.methods.Store(id, f)
	}
	return f
}

func implements(ti *TypeInfo, iface *TypeInfo) bool {
	ti.implMu.Lock()
	defer ti.implMu.Unlock()
	if r, ok := ti.impl[iface]; ok {
		return r
	}
	it := iface.t.Underlying().(*types.Interface)
	r := types.Implements(ti.t, it)
	if ti.impl == nil {
		ti.impl = map[*TypeInfo]bool{}
	}
	ti.impl[iface] = r
	return r
}

// Value is one machine value. Integers, bools, floats and pointers are in n
// (integers zero extended to their width, pointers as object<<32|offset) with
// p nil; a symbolic scalar has p of type *Term. The zero Value is the zero of
// every Go type.
type Value struct {
	n uint64
	p any
}

type SliceV struct {
	obj           uint32
	off, len, cap int // off in cells, len and cap in elements
}

type Iface struct {
	t *TypeInfo
	v Value
}

type FuncV struct {
	fn     *ssa.Function
	env    []Value
	native func(w *Worker, st *State, args []Value) Value
	intr   string
}

// Agg holds the flattened cells of a struct or array value (immutable), or the
// elements of a tuple.
type Agg struct {
	cells []Value
}

// SymStr is a string with at least one symbolic byte.
type SymStr struct {
	b []Value
}

func (v Value) term(w uint8) *Term {
	if t, ok := v.p.(*Term); ok {
		return t
	}
	return tConst(v.n, w)
}

func (v Value) boolTerm() *Term {
	if t, ok := v.p.(*Term); ok {
		return t
	}
	return tBool(v.n != 0)
}

func (v Value) sym() (*Term, bool) {
	t, ok := v.p.(*Term)
	return t, ok
}

func mkVal(t *Term) Value {
	if t.op == OConst {
		return Value{n: t.val}
	}
	return Value{p: t}
}

func boolVal(b bool) Value { return Value{n: b2u(b)} }
func intVal(i int) Value   { return Value{n: uint64(i)} }
func strVal(s string) Value {
	if s == "" {
		return Value{}
	}
	return Value{p: s}
}
func ptrVal(obj uint32, off int) Value { return Value{n: uint64(obj)<<32 | uint64(uint32(off))} }

func ptrSplit(v Value) (uint32, int) { return uint32(v.n >> 32), int(uint32(v.n)) }

func tuple(vs ...Value) Value { return Value{p: &Agg{vs}} }

func strLen(v Value) int {
	switch s := v.p.(type) {
	case nil:
		return 0
	case string:
		return len(s)
	case *SymStr:
		return len(s.b)
	}
	panic(unsupported(fmt.Sprintf("string value %T", v.p)))
}

func strByte(v Value, i int) Value {
	switch s := v.p.(type) {
	case string:
		return Value{n: uint64(s[i])}
	case *SymStr:
		return s.b[i]
	}
	panic(unsupported("strByte"))
}

func strBytes(v Value) []Value {
	n := strLen(v)
	b := make([]Value, n)
	for i := range b {
		b[i] = strByte(v, i)
	}
	return b
}

// mkStr builds a string from byte values, concrete if they all are.
func mkStr(b []Value) Value {
	for _, x := range b {
		if _, ok := x.p.(*Term); ok {
			return Value{p: &SymStr{append([]Value(nil), b...)}}
		}
	}
	s := make([]byte, len(b))
	for i, x := range b {
		s[i] = byte(x.n)
	}
	return strVal(string(s))
}

func goString(v Value) (string, bool) {
	switch s := v.p.(type) {
	case nil:
		return "", true
	case string:
		return s, true
	}
	return "", false
}

type engineError struct{ msg string }

func (e engineError) Error() string { return e.msg }

func unsupported(msg string) engineError { return engineError{msg} }

package main

import (
	"go/types"
	"math"
	"strings"
)

// reflectOnly reports functions whose own body must not run: they look into
// the representation of reflect.Value, which here is an interface value.
func reflectOnly(name string) bool {
	return strings.HasPrefix(name, "(reflect.Value).") || strings.HasPrefix(name, "(internal/reflectlite.Value).") ||
		strings.HasPrefix(name, "(*reflect.rtype).") || strings.HasPrefix(name, "(*reflect.MapIter).")
}

func rval(w *Worker, t *TypeInfo, v Value) Value {
	sf := typeOf(w.e.p.prog.ImportedPackage("reflect").Type("Value").Object().Type())
	cells := make([]Value, sf.cells)
	if t.kind == KIface {
		cells[0] = v
		if v.p == nil {
			// An interface holding nothing is a valid Value, unlike the zero one.
			panic(unsupported("reflect.Value of a nil interface"))
		}
	} else {
		cells[0] = Value{p: &Iface{t: t, v: v}}
	}
	return Value{p: &Agg{cells}}
}

// isZero is the condition that v is the zero value of t.
func (w *Worker) isZero(st *State, t *TypeInfo, v Value) *Term {
	switch t.kind {
	case KSlice, KFunc, KIface:
		return tBool(v.p == nil)
	case KStruct:
		c := aggCells(v, t)
		r := tTrue
		for i, f := range t.fields {
			r = mkAnd(r, w.isZero(st, f, cellsVal(f, c[t.offs[i]:])))
		}
		return r
	case KArray:
		c := aggCells(v, t)
		r := tTrue
		for i := 0; i < t.n; i++ {
			r = mkAnd(r, w.isZero(st, t.elem, cellsVal(t.elem, c[i*t.elem.cells:])))
		}
		return r
	}
	return w.eq(st, t, v, Value{})
}

// deepEq is reflect.DeepEqual on two values of the same type.
func (w *Worker) deepEq(st *State, t *TypeInfo, x, y Value, depth int) *Term {
	if depth > 200 {
		panic(unsupported("reflect.DeepEqual: too deep"))
	}
	switch t.kind {
	case KSlice:
		if x.p == nil || y.p == nil {
			return tBool(x.p == nil && y.p == nil)
		}
		a, b := sliceOf(x), sliceOf(y)
		if a.len != b.len {
			return tFalse
		}
		r := tTrue
		ec := t.elem.cells
		for i := 0; i < a.len; i++ {
			r = mkAnd(r, w.deepEq(st, t.elem, st.load(ptrVal(a.obj, a.off+i*ec), t.elem), st.load(ptrVal(b.obj, b.off+i*ec), t.elem), depth+1))
		}
		return r
	case KPtr:
		if x.n == y.n {
			return tTrue
		}
		if x.n == 0 || y.n == 0 {
			return tFalse
		}
		return w.deepEq(st, t.elem, st.load(x, t.elem), st.load(y, t.elem), depth+1)
	case KIface:
		a, _ := x.p.(*Iface)
		b, _ := y.p.(*Iface)
		if a == nil || b == nil {
			return tBool(a == nil && b == nil)
		}
		if a.t != b.t {
			return tFalse
		}
		if ti, ok := a.v.p.(*TypeInfo); ok {
			tj, _ := b.v.p.(*TypeInfo)
			return tBool(ti == tj)
		}
		return w.deepEq(st, a.t, a.v, b.v, depth+1)
	case KStruct:
		a, b := aggCells(x, t), aggCells(y, t)
		r := tTrue
		for i, f := range t.fields {
			r = mkAnd(r, w.deepEq(st, f, cellsVal(f, a[t.offs[i]:]), cellsVal(f, b[t.offs[i]:]), depth+1))
		}
		return r
	case KArray:
		a, b := aggCells(x, t), aggCells(y, t)
		r := tTrue
		for i := 0; i < t.n; i++ {
			o := i * t.elem.cells
			r = mkAnd(r, w.deepEq(st, t.elem, cellsVal(t.elem, a[o:]), cellsVal(t.elem, b[o:]), depth+1))
		}
		return r
	case KMap:
		if x.n == y.n || x.n == 0 || y.n == 0 {
			return tBool(x.n == y.n)
		}
		panic(unsupported("reflect.DeepEqual of maps"))
	}
	return w.eq(st, t, x, y)
}

func init() {
	rv := func(w *Worker, v Value, method string) *Iface {
		i, _ := v.p.(*Agg).cells[0].p.(*Iface)
		if i == nil {
			w.throw("reflect: call of reflect.Value." + method + " on zero Value")
		}
		return i
	}
	m := func(name string, f func(w *Worker, st *State, i *Iface, a []Value) Value) {
		intrinsics["(reflect.Value)."+name] = pure(func(w *Worker, st *State, a []Value) Value {
			return f(w, st, rv(w, a[0], name), a[1:])
		})
	}
	wrong := func(w *Worker, i *Iface, name string) Value {
		w.throw("reflect: call of reflect.Value." + name + " on " + i.t.String() + " Value")
		return Value{}
	}
	pointer := func(w *Worker, st *State, i *Iface, a []Value) Value {
		switch i.t.kind {
		case KPtr, KMap, KChan:
			return Value{n: i.v.n}
		case KSlice:
			if i.v.p == nil {
				return Value{}
			}
			s := sliceOf(i.v)
			return ptrVal(s.obj, s.off)
		case KFunc:
			if i.v.p == nil {
				return Value{}
			}
			panic(unsupported("address of a function"))
		}
		return wrong(w, i, "Pointer")
	}
	m("Pointer", pointer)
	m("UnsafePointer", pointer)
	m("IsZero", func(w *Worker, st *State, i *Iface, a []Value) Value { return mkVal(w.isZero(st, i.t, i.v)) })
	m("Elem", func(w *Worker, st *State, i *Iface, a []Value) Value {
		if i.t.kind != KPtr {
			return wrong(w, i, "Elem")
		}
		if i.v.n == 0 {
			panic(unsupported("reflect.Value.Elem of a nil pointer"))
		}
		return rval(w, i.t.elem, st.load(i.v, i.t.elem))
	})
	m("NumField", func(w *Worker, st *State, i *Iface, a []Value) Value {
		if i.t.kind != KStruct {
			return wrong(w, i, "NumField")
		}
		return intVal(len(i.t.fields))
	})
	m("Field", func(w *Worker, st *State, i *Iface, a []Value) Value {
		if i.t.kind != KStruct {
			return wrong(w, i, "Field")
		}
		k := int(w.concretize(st, a[0], 64))
		if k < 0 || k >= len(i.t.fields) {
			w.throw("reflect: Field index out of range")
		}
		f := i.t.fields[k]
		return rval(w, f, cellsVal(f, aggCells(i.v, i.t)[i.t.offs[k]:]))
	})
	m("Index", func(w *Worker, st *State, i *Iface, a []Value) Value {
		k := int(w.concretize(st, a[0], 64))
		switch i.t.kind {
		case KSlice:
			s := sliceOf(i.v)
			if i.v.p == nil || k < 0 || k >= s.len {
				w.throw("reflect: slice index out of range")
			}
			return rval(w, i.t.elem, st.load(ptrVal(s.obj, s.off+k*i.t.elem.cells), i.t.elem))
		case KArray:
			if k < 0 || k >= i.t.n {
				w.throw("reflect: array index out of range")
			}
			return rval(w, i.t.elem, cellsVal(i.t.elem, aggCells(i.v, i.t)[k*i.t.elem.cells:]))
		}
		return wrong(w, i, "Index")
	})
	m("Int", func(w *Worker, st *State, i *Iface, a []Value) Value {
		if i.t.kind != KInt || !i.t.signed {
			return wrong(w, i, "Int")
		}
		return mkVal(widen(i.v, i.t))
	})
	m("Uint", func(w *Worker, st *State, i *Iface, a []Value) Value {
		if i.t.kind != KInt || i.t.signed {
			return wrong(w, i, "Uint")
		}
		return mkVal(widen(i.v, i.t))
	})
	m("Bool", func(w *Worker, st *State, i *Iface, a []Value) Value {
		if i.t.kind != KBool {
			return wrong(w, i, "Bool")
		}
		return i.v
	})
	m("String", func(w *Worker, st *State, i *Iface, a []Value) Value {
		if i.t.kind != KString {
			return strVal("<" + types.TypeString(i.t.t, (*types.Package).Name) + " Value>")
		}
		return i.v
	})
	m("Len", func(w *Worker, st *State, i *Iface, a []Value) Value {
		switch i.t.kind {
		case KSlice:
			if i.v.p == nil {
				return intVal(0)
			}
			return intVal(sliceOf(i.v).len)
		case KString:
			return intVal(strLen(i.v))
		case KArray:
			return intVal(i.t.n)
		}
		panic(unsupported("reflect.Value.Len of " + i.t.String()))
	})
	m("CanInterface", func(w *Worker, st *State, i *Iface, a []Value) Value { return boolVal(true) })
	m("Comparable", func(w *Worker, st *State, i *Iface, a []Value) Value {
		if i.t.kind == KIface || i.t.agg() {
			panic(unsupported("reflect.Value.Comparable"))
		}
		return boolVal(types.Comparable(i.t.t))
	})
	intrinsics["reflect.DeepEqual"] = pure(func(w *Worker, st *State, a []Value) Value {
		x, _ := a[0].p.(*Iface)
		y, _ := a[1].p.(*Iface)
		if x == nil || y == nil {
			return boolVal(x == nil && y == nil)
		}
		if x.t != y.t {
			return boolVal(false)
		}
		return mkVal(w.deepEq(st, x.t, x.v, y.v, 0))
	})
	// asTarget stores err where target points if the types allow it.
	intrinsics[rtPkg+"asTarget"] = pure(func(w *Worker, st *State, a []Value) Value {
		e := a[0].p.(*Iface)
		t, _ := a[1].p.(*Iface)
		if t == nil || t.t.kind != KPtr || t.v.n == 0 {
			w.throw("errors: target must be a non-nil pointer")
		}
		if t.t.elem.kind == KIface {
			if !implements(e.t, t.t.elem) {
				return boolVal(false)
			}
			st.store(t.v, t.t.elem, a[0])
			return boolVal(true)
		}
		if e.t != t.t.elem {
			return boolVal(false)
		}
		st.store(t.v, t.t.elem, e.v)
		return boolVal(true)
	})
	f2 := func(n string, f func(x, y float64) float64) {
		intrinsics["math."+n] = pure(func(w *Worker, st *State, a []Value) Value { return floatVal(f(fl(a[0]), fl(a[1])), 64) })
	}
	f2("Max", math.Max)
	f2("Min", math.Min)
	f2("Mod", math.Mod)
	for n, f := range map[string]func(float64) float64{"Round": math.Round, "Trunc": math.Trunc, "Log10": math.Log10, "Log1p": math.Log1p} {
		intrinsics["math."+n] = pure(func(w *Worker, st *State, a []Value) Value { return floatVal(f(fl(a[0])), 64) })
	}
	for _, n := range []string{"archAvailableIEEE", "archAvailableCastagnoli"} {
		intrinsics["hash/crc32."+n] = ret(boolVal(false))
	}
}

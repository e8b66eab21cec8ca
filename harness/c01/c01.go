// Package c01: laws of the built-in key types.
package c01

import (
	"github.com/timtadh/data-structures/linked"
	"github.com/timtadh/data-structures/types"
	"verif/harness/sym"
)

// laws checks the order and hash laws of three values given the exact
// comparison of their underlying values.
func laws(a, b, c types.Hashable, eqab, ltab, ltba bool) {
	order(a, b, c, eqab, ltab, ltba)
	sym.Assert(sym.Implies(a.Equals(b), a.Hash() == b.Hash()), "equal values hash equally")
	wrapped(a, b)
}

func order(a, b, c types.Hashable, eqab, ltab, ltba bool) {
	sym.Assert(a.Equals(b) == eqab, "Equals is equality of the values")
	sym.Assert(b.Equals(a) == eqab, "Equals is symmetric")
	sym.Assert(a.Equals(a), "Equals is reflexive")
	sym.Assert(a.Less(b) == ltab, "Less is the order of the values")
	sym.Assert(b.Less(a) == ltba, "Less is the order of the values (swapped)")
	sym.Assert(!a.Less(a), "Less is irreflexive")
	one := sym.Ite(a.Less(b), 1, 0) + sym.Ite(b.Less(a), 1, 0) + sym.Ite(a.Equals(b), 1, 0)
	sym.Assert(one == 1, "exactly one of a<b, b<a, a=b")
	sym.Assert(sym.Implies(sym.And(a.Less(b), b.Less(c)), a.Less(c)), "Less is transitive")
	sym.Assert(sym.Implies(sym.And(a.Equals(b), b.Equals(c)), a.Equals(c)), "Equals is transitive")
	sym.Assert(a.Hash() == a.Hash(), "Hash is a function of the value")
	sym.ObserveBool(a.Less(b))
	sym.ObserveBool(a.Equals(b))
	sym.Observe(a.Hash())
}

// wrapped checks that MapEntry and Node behave as what they wrap.
func wrapped(a, b types.Hashable) {
	ea := &types.MapEntry{Key: a, Value: 1}
	eb := &types.MapEntry{Key: b, Value: "x"}
	sym.Assert(ea.Equals(eb) == a.Equals(b), "MapEntry equals by key")
	sym.Assert(ea.Equals(b) == a.Equals(b), "MapEntry equals a bare key")
	sym.Assert(ea.Less(eb) == a.Less(b), "MapEntry orders by key")
	sym.Assert(ea.Less(b) == a.Less(b), "MapEntry orders against a bare key")
	sym.Assert(ea.Hash() == a.Hash(), "MapEntry hashes as its key")
	na := &linked.Node{Data: a}
	nb := &linked.Node{Data: b, Next: na}
	sym.Assert(na.Equals(nb) == a.Equals(b), "Node equals by data")
	sym.Assert(na.Equals(b) == a.Equals(b), "Node equals a bare item")
	sym.Assert(na.Less(nb) == a.Less(b), "Node orders by data")
	sym.Assert(na.Less(b) == a.Less(b), "Node orders against a bare item")
	sym.Assert(na.Hash() == a.Hash(), "Node hashes as its data")
	nn := &linked.Node{Data: &types.MapEntry{Key: a}}
	mm := &linked.Node{Data: &types.MapEntry{Key: b, Value: nn}}
	sym.Assert(nn.Equals(mm) == a.Equals(b), "Node of MapEntry equals by key")
	sym.Assert(nn.Less(mm) == a.Less(b), "Node of MapEntry orders by key")
	sym.Assert(nn.Hash() == a.Hash(), "Node of MapEntry hashes as its key")
}

func VInt8() {
	a, b, c := sym.Int8(), sym.Int8(), sym.Int8()
	laws(types.Int8(a), types.Int8(b), types.Int8(c), a == b, a < b, b < a)
}

func VInt16() {
	a, b, c := sym.Int16(), sym.Int16(), sym.Int16()
	laws(types.Int16(a), types.Int16(b), types.Int16(c), a == b, a < b, b < a)
}

func VInt32() {
	a, b, c := sym.Int32(), sym.Int32(), sym.Int32()
	laws(types.Int32(a), types.Int32(b), types.Int32(c), a == b, a < b, b < a)
}

func VInt64() {
	a, b, c := sym.Int64(), sym.Int64(), sym.Int64()
	laws(types.Int64(a), types.Int64(b), types.Int64(c), a == b, a < b, b < a)
}

func VInt() {
	a, b, c := sym.Int(), sym.Int(), sym.Int()
	laws(types.Int(a), types.Int(b), types.Int(c), a == b, a < b, b < a)
}

func VUInt8() {
	a, b, c := sym.Uint8(), sym.Uint8(), sym.Uint8()
	laws(types.UInt8(a), types.UInt8(b), types.UInt8(c), a == b, a < b, b < a)
}

func VUInt16() {
	a, b, c := sym.Uint16(), sym.Uint16(), sym.Uint16()
	laws(types.UInt16(a), types.UInt16(b), types.UInt16(c), a == b, a < b, b < a)
}

func VUInt32() {
	a, b, c := sym.Uint32(), sym.Uint32(), sym.Uint32()
	laws(types.UInt32(a), types.UInt32(b), types.UInt32(c), a == b, a < b, b < a)
}

func VUInt64() {
	a, b, c := sym.Uint64(), sym.Uint64(), sym.Uint64()
	laws(types.UInt64(a), types.UInt64(b), types.UInt64(c), a == b, a < b, b < a)
}

func VUInt() {
	a, b, c := sym.Uint(), sym.Uint(), sym.Uint()
	laws(types.UInt(a), types.UInt(b), types.UInt(c), a == b, a < b, b < a)
}

// less is an independent lexicographic comparison.
func less(a, b []byte) bool {
	r := len(a) < len(b)
	n := min(len(a), len(b))
	for i := n - 1; i >= 0; i-- {
		r = sym.Or(a[i] < b[i], sym.And(a[i] == b[i], r))
	}
	return r
}

func same(a, b []byte) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for i := range a {
		r = sym.And(r, a[i] == b[i])
	}
	return r
}

// clone copies b into a larger buffer, so that only the contents are shared.
func clone(b []byte) []byte {
	c := make([]byte, len(b), len(b)+3)
	copy(c, b)
	return c
}

func threeBytes() (a, b, c []byte) {
	n := sym.Bound("bytes", 5, 6)
	return sym.Bytes(sym.Choose(n + 1)), sym.Bytes(sym.Choose(n + 1)), sym.Bytes(sym.Choose(n + 1))
}

func VString() {
	a, b, c := threeBytes()
	order(types.String(a), types.String(b), types.String(c), same(a, b), less(a, b), less(b, a))
	sym.Assert(types.String(clone(a)).Hash() == types.String(a).Hash(), "equal strings hash equally")
	wrapped(types.String(a), types.String(b))
}

func VByteSlice() {
	a, b, c := threeBytes()
	order(types.ByteSlice(a), types.ByteSlice(b), types.ByteSlice(c), same(a, b), less(a, b), less(b, a))
	sym.Assert(types.ByteSlice(clone(a)).Hash() == types.ByteSlice(a).Hash(), "equal byte slices hash equally")
	wrapped(types.ByteSlice(a), types.ByteSlice(b))
}

// pick returns a value of the k-th key type built from the same bits.
func pick(k int, v uint64) types.Hashable {
	switch k {
	case 0:
		return types.Int8(v)
	case 1:
		return types.UInt8(v)
	case 2:
		return types.Int16(v)
	case 3:
		return types.UInt16(v)
	case 4:
		return types.Int32(v)
	case 5:
		return types.UInt32(v)
	case 6:
		return types.Int64(v)
	case 7:
		return types.UInt64(v)
	case 8:
		return types.Int(v)
	case 9:
		return types.UInt(v)
	case 10:
		return types.String([]byte{byte(v)})
	}
	return types.ByteSlice([]byte{byte(v)})
}

// VMixed: values of different types are never equal and never panic.
func VMixed() {
	x, y := sym.Uint64(), sym.Uint64()
	i := sym.Choose(12)
	j := sym.Choose(12)
	a, b := pick(i, x), pick(j, y)
	e, l := a.Equals(b), a.Less(b)
	if i != j {
		sym.Assert(!e, "values of different types are not equal")
		sym.Assert(!b.Equals(a), "values of different types are not equal (swapped)")
		sym.Assert(!sym.And(l, b.Less(a)), "different types: not both less")
	}
	wrapped(a, b)
	sym.ObserveBool(e)
	sym.ObserveBool(l)
}

// VLong: long texts that differ in at most one place, or in length.
func VLong() {
	n := []int{16, 33, 70, 300}[sym.Choose(4)]
	a := make([]byte, n)
	for i := range a {
		a[i] = byte(i * 37)
	}
	i := []int{0, 7, n / 2, n - 2, n - 1}[sym.Choose(5)]
	a[i] = sym.Byte()
	b := clone(a)
	b[i] = sym.Byte()
	b = b[:n-sym.Choose(2)]
	if sym.Choose(2) == 0 {
		order(types.String(a), types.String(b), types.String(clone(a)), same(a, b), less(a, b), less(b, a))
		sym.Assert(types.String(clone(a)).Hash() == types.String(a).Hash(), "equal strings hash equally")
	} else {
		order(types.ByteSlice(a), types.ByteSlice(b), types.ByteSlice(clone(a)), same(a, b), less(a, b), less(b, a))
		sym.Assert(types.ByteSlice(clone(a)).Hash() == types.ByteSlice(a).Hash(), "equal byte slices hash equally")
	}
}

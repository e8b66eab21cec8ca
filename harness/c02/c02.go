// Package c02: binary encoding of the built-in key types.
package c02

import (
	"github.com/timtadh/data-structures/types"
	"verif/harness/sym"
)

type ptr[T any] interface {
	*T
	types.MHashable
}

type marshals func() (types.ItemMarshal, types.ItemUnmarshal)

// number checks an integer type: v is any value, old what the receiver held.
func number[T interface {
	comparable
	types.Hashable
}, P ptr[T]](v, old T, ms marshals) {
	orig := v
	b, err := P(&v).MarshalBinary()
	sym.Assert(err == nil, "MarshalBinary does not fail")
	sym.Assert(v == orig, "MarshalBinary does not change the value")
	size := len(b)

	got := old
	sym.Assert(P(&got).UnmarshalBinary(b) == nil, "UnmarshalBinary accepts what MarshalBinary made")
	sym.Assert(got == orig, "round trip through MarshalBinary")

	m, u := ms()
	mb, err := m(v)
	sym.Assert(err == nil, "marshal function does not fail")
	x, err := u(mb)
	sym.Assert(err == nil, "unmarshal function accepts what marshal made")
	xv, ok := x.(T)
	sym.Assert(ok, "unmarshal function keeps the type")
	sym.Assert(xv == orig, "round trip through the marshal functions")

	pm, pu := types.MakeMarshals(func() types.MHashable { n := old; return P(&n) })
	pb, err := pm(P(&v))
	sym.Assert(err == nil, "MakeMarshals marshal does not fail")
	px, err := pu(pb)
	sym.Assert(err == nil, "MakeMarshals unmarshal accepts what marshal made")
	pv, ok := px.(P)
	sym.Assert(ok, "MakeMarshals keeps the type")
	sym.Assert(*pv == orig, "round trip through MakeMarshals")

	// copies are independent
	for i := range b {
		b[i] ^= 0xff
		mb[i] ^= 0xff
		pb[i] ^= 0xff
	}
	sym.Assert(sym.And(v == orig, got == orig, xv == orig, *pv == orig), "encoded bytes and values are independent")
	b2, err := P(&v).MarshalBinary()
	sym.Assert(err == nil, "MarshalBinary does not fail twice")
	again := old
	sym.Assert(P(&again).UnmarshalBinary(b2) == nil && again == orig, "second round trip")

	// wrong lengths
	n := sym.Choose(sym.Bound("wrong length", 40, 80))
	if n != size {
		d := sym.Bytes(n)
		w := old
		sym.Assert(P(&w).UnmarshalBinary(d) != nil, "wrong length is rejected")
		sym.Assert(w == old, "rejected data leaves the receiver unchanged")
		_, err := u(d)
		sym.Assert(err != nil, "unmarshal function rejects wrong length")
		sym.Reach("wrong length")
	}
	sym.Observe(size)
}

func VInt8()   { number(types.Int8(sym.Int8()), types.Int8(sym.Int8()), types.Int8Marshals) }
func VUInt8()  { number(types.UInt8(sym.Uint8()), types.UInt8(sym.Uint8()), types.UInt8Marshals) }
func VInt16()  { number(types.Int16(sym.Int16()), types.Int16(sym.Int16()), types.Int16Marshals) }
func VUInt16() { number(types.UInt16(sym.Uint16()), types.UInt16(sym.Uint16()), types.UInt16Marshals) }
func VInt32()  { number(types.Int32(sym.Int32()), types.Int32(sym.Int32()), types.Int32Marshals) }
func VUInt32() { number(types.UInt32(sym.Uint32()), types.UInt32(sym.Uint32()), types.UInt32Marshals) }
func VInt64()  { number(types.Int64(sym.Int64()), types.Int64(sym.Int64()), types.Int64Marshals) }
func VUInt64() { number(types.UInt64(sym.Uint64()), types.UInt64(sym.Uint64()), types.UInt64Marshals) }
func VInt()    { number(types.Int(sym.Int()), types.Int(sym.Int()), types.IntMarshals) }
func VUInt()   { number(types.UInt(sym.Uint()), types.UInt(sym.Uint()), types.UIntMarshals) }

func dup(b []byte) []byte { return append([]byte{}, b...) }

func flip(b []byte) {
	b = b[:cap(b)]
	for i := range b {
		b[i] ^= 0xff
	}
}

func eq(a, b []byte) bool {
	return len(a) == len(b) && sym.EqBytes(a, b)
}

func VString() {
	n := sym.Choose(sym.Bound("bytes", 10, 20) + 1)
	raw := sym.Bytes(n)
	want := dup(raw)
	s := types.String(raw)
	b, err := s.MarshalBinary()
	sym.Assert(err == nil, "String encodes")
	t := types.String("old")
	sym.Assert(t.UnmarshalBinary(b) == nil, "String decodes")
	m, u := types.StringMarshals()
	mb, err := m(s)
	sym.Assert(err == nil, "String marshal function")
	x, err := u(mb)
	sym.Assert(err == nil, "String unmarshal function")
	flip(b)
	flip(mb)
	sym.Assert(eq([]byte(s), want), "original String unchanged")
	sym.Assert(eq([]byte(t), want), "decoded String equal and independent")
	sym.Assert(eq([]byte(x.(types.String)), want), "String from the functions equal and independent")
}

func VByteSlice() {
	n := sym.Choose(sym.Bound("bytes", 10, 20) + 1)
	raw := sym.Bytes(n)
	want := dup(raw)
	s := types.ByteSlice(raw)
	if sym.Choose(2) == 0 {
		b, err := s.MarshalBinary()
		sym.Assert(err == nil, "ByteSlice encodes")
		t := types.ByteSlice("old")
		sym.Assert(t.UnmarshalBinary(b) == nil, "ByteSlice decodes")
		sym.Assert(eq(t, want), "ByteSlice round trip")
		flip(b)
		sym.Assert(eq(t, want), "decoded ByteSlice independent of the data")
		sym.Assert(eq(s, want), "original ByteSlice independent of the encoding")
		b, _ = s.MarshalBinary()
		keep := dup(b)
		sym.Assert(t.UnmarshalBinary(b) == nil, "ByteSlice decodes again")
		flip(t)
		sym.Assert(eq(b, keep), "encoding independent of the decoded ByteSlice")
		flip(s)
		sym.Assert(eq(b, keep), "encoding independent of the original ByteSlice")
	} else {
		m, u := types.ByteSliceMarshals()
		b, err := m(s)
		sym.Assert(err == nil, "ByteSlice marshal function")
		x, err := u(b)
		sym.Assert(err == nil, "ByteSlice unmarshal function")
		t, ok := x.(types.ByteSlice)
		sym.Assert(ok, "unmarshal keeps the type")
		sym.Assert(eq(t, want), "ByteSlice round trip through the functions")
		flip(b)
		sym.Assert(eq(t, want), "decoded ByteSlice independent of the data (functions)")
		sym.Assert(eq(s, want), "original ByteSlice independent of the encoding (functions)")
		b, _ = m(s)
		keep := dup(b)
		flip(s)
		sym.Assert(eq(b, keep), "encoding independent of the original ByteSlice (functions)")
	}
}

// VLong: texts whose length does not fit into one or two bytes.
func VLong() {
	raw := make([]byte, []int{64, 256, 66000}[sym.Choose(3)])
	n := len(raw)
	raw[0], raw[n/2], raw[n-1] = sym.Uint8(), sym.Uint8(), sym.Uint8()
	if sym.Choose(2) == 0 {
		m, u := types.StringMarshals()
		b, err := m(types.String(raw))
		sym.Assert(err == nil, "a long String encodes")
		x, err := u(b)
		sym.Assert(err == nil && eq([]byte(x.(types.String)), raw), "a long String decodes")
	} else {
		m, u := types.ByteSliceMarshals()
		b, err := m(types.ByteSlice(raw))
		sym.Assert(err == nil, "a long ByteSlice encodes")
		x, err := u(b)
		sym.Assert(err == nil && eq(x.(types.ByteSlice), raw), "a long ByteSlice decodes")
	}
}

package h

// Custom types of all kinds, packing with value and with pointer receivers. Their format is two bytes.

import (
	"encoding/binary"
	"math"
	"reflect"
)

func bit10(b bool) uint8 {
	if b {
		return 1
	}
	return 0
}

func at10(s string) uint8 { return s[0] }

func first10(s []uint16) uint8 { return uint8(s[0]) }

func pack10(buf []byte, order binary.ByteOrder, id, c uint8) ([]byte, error) {
	if err := c10.call(buf, order); err != nil {
		return c10.rest(buf), err
	}
	buf[0], buf[1] = id, ^c
	return buf[2:], nil
}

func unpack10(buf []byte, order binary.ByteOrder, id uint8) (uint8, []byte, error) {
	if err := c10.call(buf, order); err != nil {
		return 0, c10.rest(buf), err
	}
	if buf[0] != id {
		return 0, nil, errC10
	}
	return ^buf[1], buf[2:], nil
}

type k10vu8 uint8

func (x k10vu8) SizeOf() int { return 2 }
func (x k10vu8) Pack(b []byte, o binary.ByteOrder) ([]byte, error) {
	return pack10(b, o, 161, uint8(x))
}
func (x *k10vu8) Unpack(b []byte, o binary.ByteOrder) ([]byte, error) {
	c, r, err := unpack10(b, o, 161)
	*x = k10vu8(c)
	return r, err
}

type k10pu8 uint8

func (x *k10pu8) SizeOf() int { return 2 }
func (x *k10pu8) Pack(b []byte, o binary.ByteOrder) ([]byte, error) {
	return pack10(b, o, 162, uint8((*x)))
}
func (x *k10pu8) Unpack(b []byte, o binary.ByteOrder) ([]byte, error) {
	c, r, err := unpack10(b, o, 162)
	*x = k10pu8(c)
	return r, err
}

type k10vi32 int32

func (x k10vi32) SizeOf() int { return 2 }
func (x k10vi32) Pack(b []byte, o binary.ByteOrder) ([]byte, error) {
	return pack10(b, o, 163, uint8(x))
}
func (x *k10vi32) Unpack(b []byte, o binary.ByteOrder) ([]byte, error) {
	c, r, err := unpack10(b, o, 163)
	*x = k10vi32(int8(c))
	return r, err
}

type k10pi32 int32

func (x *k10pi32) SizeOf() int { return 2 }
func (x *k10pi32) Pack(b []byte, o binary.ByteOrder) ([]byte, error) {
	return pack10(b, o, 164, uint8((*x)))
}
func (x *k10pi32) Unpack(b []byte, o binary.ByteOrder) ([]byte, error) {
	c, r, err := unpack10(b, o, 164)
	*x = k10pi32(int8(c))
	return r, err
}

type k10vbool bool

func (x k10vbool) SizeOf() int { return 2 }
func (x k10vbool) Pack(b []byte, o binary.ByteOrder) ([]byte, error) {
	return pack10(b, o, 165, bit10(bool(x)))
}
func (x *k10vbool) Unpack(b []byte, o binary.ByteOrder) ([]byte, error) {
	c, r, err := unpack10(b, o, 165)
	*x = k10vbool(c != 0)
	return r, err
}

type k10pbool bool

func (x *k10pbool) SizeOf() int { return 2 }
func (x *k10pbool) Pack(b []byte, o binary.ByteOrder) ([]byte, error) {
	return pack10(b, o, 166, bit10(bool((*x))))
}
func (x *k10pbool) Unpack(b []byte, o binary.ByteOrder) ([]byte, error) {
	c, r, err := unpack10(b, o, 166)
	*x = k10pbool(c != 0)
	return r, err
}

type k10vf64 float64

func (x k10vf64) SizeOf() int { return 2 }
func (x k10vf64) Pack(b []byte, o binary.ByteOrder) ([]byte, error) {
	return pack10(b, o, 167, uint8(math.Float64bits(float64(x))))
}
func (x *k10vf64) Unpack(b []byte, o binary.ByteOrder) ([]byte, error) {
	c, r, err := unpack10(b, o, 167)
	*x = k10vf64(math.Float64frombits(0x4040404040404000 | uint64(c)))
	return r, err
}

type k10pf64 float64

func (x *k10pf64) SizeOf() int { return 2 }
func (x *k10pf64) Pack(b []byte, o binary.ByteOrder) ([]byte, error) {
	return pack10(b, o, 168, uint8(math.Float64bits(float64((*x)))))
}
func (x *k10pf64) Unpack(b []byte, o binary.ByteOrder) ([]byte, error) {
	c, r, err := unpack10(b, o, 168)
	*x = k10pf64(math.Float64frombits(0x4040404040404000 | uint64(c)))
	return r, err
}

type k10vc64 complex64

func (x k10vc64) SizeOf() int { return 2 }
func (x k10vc64) Pack(b []byte, o binary.ByteOrder) ([]byte, error) {
	return pack10(b, o, 169, uint8(math.Float32bits(imag(x))))
}
func (x *k10vc64) Unpack(b []byte, o binary.ByteOrder) ([]byte, error) {
	c, r, err := unpack10(b, o, 169)
	*x = k10vc64(complex(0, math.Float32frombits(0x40404000|uint32(c))))
	return r, err
}

type k10pc64 complex64

func (x *k10pc64) SizeOf() int { return 2 }
func (x *k10pc64) Pack(b []byte, o binary.ByteOrder) ([]byte, error) {
	return pack10(b, o, 170, uint8(math.Float32bits(imag((*x)))))
}
func (x *k10pc64) Unpack(b []byte, o binary.ByteOrder) ([]byte, error) {
	c, r, err := unpack10(b, o, 170)
	*x = k10pc64(complex(0, math.Float32frombits(0x40404000|uint32(c))))
	return r, err
}

type k10vstr string

func (x k10vstr) SizeOf() int { return 2 }
func (x k10vstr) Pack(b []byte, o binary.ByteOrder) ([]byte, error) {
	return pack10(b, o, 171, at10(string(x)))
}
func (x *k10vstr) Unpack(b []byte, o binary.ByteOrder) ([]byte, error) {
	c, r, err := unpack10(b, o, 171)
	*x = k10vstr([]byte{c})
	return r, err
}

type k10pstr string

func (x *k10pstr) SizeOf() int { return 2 }
func (x *k10pstr) Pack(b []byte, o binary.ByteOrder) ([]byte, error) {
	return pack10(b, o, 172, at10(string((*x))))
}
func (x *k10pstr) Unpack(b []byte, o binary.ByteOrder) ([]byte, error) {
	c, r, err := unpack10(b, o, 172)
	*x = k10pstr([]byte{c})
	return r, err
}

type k10vsl []byte

func (x k10vsl) SizeOf() int { return 2 }
func (x k10vsl) Pack(b []byte, o binary.ByteOrder) ([]byte, error) {
	return pack10(b, o, 173, at10(string(x)))
}
func (x *k10vsl) Unpack(b []byte, o binary.ByteOrder) ([]byte, error) {
	c, r, err := unpack10(b, o, 173)
	*x = k10vsl{c}
	return r, err
}

type k10psl []byte

func (x *k10psl) SizeOf() int { return 2 }
func (x *k10psl) Pack(b []byte, o binary.ByteOrder) ([]byte, error) {
	return pack10(b, o, 174, at10(string((*x))))
}
func (x *k10psl) Unpack(b []byte, o binary.ByteOrder) ([]byte, error) {
	c, r, err := unpack10(b, o, 174)
	*x = k10psl{c}
	return r, err
}

type k10vsl16 []uint16

func (x k10vsl16) SizeOf() int { return 2 }
func (x k10vsl16) Pack(b []byte, o binary.ByteOrder) ([]byte, error) {
	return pack10(b, o, 175, first10(x))
}
func (x *k10vsl16) Unpack(b []byte, o binary.ByteOrder) ([]byte, error) {
	c, r, err := unpack10(b, o, 175)
	*x = k10vsl16{uint16(c)}
	return r, err
}

type k10psl16 []uint16

func (x *k10psl16) SizeOf() int { return 2 }
func (x *k10psl16) Pack(b []byte, o binary.ByteOrder) ([]byte, error) {
	return pack10(b, o, 176, first10((*x)))
}
func (x *k10psl16) Unpack(b []byte, o binary.ByteOrder) ([]byte, error) {
	c, r, err := unpack10(b, o, 176)
	*x = k10psl16{uint16(c)}
	return r, err
}

type k10vsst []struct{ X uint8 }

func (x k10vsst) SizeOf() int                                       { return 2 }
func (x k10vsst) Pack(b []byte, o binary.ByteOrder) ([]byte, error) { return pack10(b, o, 177, x[0].X) }
func (x *k10vsst) Unpack(b []byte, o binary.ByteOrder) ([]byte, error) {
	c, r, err := unpack10(b, o, 177)
	*x = k10vsst{{c}}
	return r, err
}

type k10psst []struct{ X uint8 }

func (x *k10psst) SizeOf() int { return 2 }
func (x *k10psst) Pack(b []byte, o binary.ByteOrder) ([]byte, error) {
	return pack10(b, o, 178, (*x)[0].X)
}
func (x *k10psst) Unpack(b []byte, o binary.ByteOrder) ([]byte, error) {
	c, r, err := unpack10(b, o, 178)
	*x = k10psst{{c}}
	return r, err
}

type k10varr [1]byte

func (x k10varr) SizeOf() int                                       { return 2 }
func (x k10varr) Pack(b []byte, o binary.ByteOrder) ([]byte, error) { return pack10(b, o, 179, x[0]) }
func (x *k10varr) Unpack(b []byte, o binary.ByteOrder) ([]byte, error) {
	c, r, err := unpack10(b, o, 179)
	*x = k10varr{c}
	return r, err
}

type k10parr [1]byte

func (x *k10parr) SizeOf() int { return 2 }
func (x *k10parr) Pack(b []byte, o binary.ByteOrder) ([]byte, error) {
	return pack10(b, o, 180, (*x)[0])
}
func (x *k10parr) Unpack(b []byte, o binary.ByteOrder) ([]byte, error) {
	c, r, err := unpack10(b, o, 180)
	*x = k10parr{c}
	return r, err
}

type k10varr2 [2]uint16

func (x k10varr2) SizeOf() int { return 2 }
func (x k10varr2) Pack(b []byte, o binary.ByteOrder) ([]byte, error) {
	return pack10(b, o, 181, uint8(x[1]))
}
func (x *k10varr2) Unpack(b []byte, o binary.ByteOrder) ([]byte, error) {
	c, r, err := unpack10(b, o, 181)
	*x = k10varr2{0, uint16(c)}
	return r, err
}

type k10parr2 [2]uint16

func (x *k10parr2) SizeOf() int { return 2 }
func (x *k10parr2) Pack(b []byte, o binary.ByteOrder) ([]byte, error) {
	return pack10(b, o, 182, uint8((*x)[1]))
}
func (x *k10parr2) Unpack(b []byte, o binary.ByteOrder) ([]byte, error) {
	c, r, err := unpack10(b, o, 182)
	*x = k10parr2{0, uint16(c)}
	return r, err
}

type k10vst struct{ X, Y uint8 }

func (x k10vst) SizeOf() int                                       { return 2 }
func (x k10vst) Pack(b []byte, o binary.ByteOrder) ([]byte, error) { return pack10(b, o, 183, x.Y) }
func (x *k10vst) Unpack(b []byte, o binary.ByteOrder) ([]byte, error) {
	c, r, err := unpack10(b, o, 183)
	*x = k10vst{0, c}
	return r, err
}

type k10pst struct{ X, Y uint8 }

func (x *k10pst) SizeOf() int                                       { return 2 }
func (x *k10pst) Pack(b []byte, o binary.ByteOrder) ([]byte, error) { return pack10(b, o, 184, x.Y) }
func (x *k10pst) Unpack(b []byte, o binary.ByteOrder) ([]byte, error) {
	c, r, err := unpack10(b, o, 184)
	*x = k10pst{0, c}
	return r, err
}

type k10vstp struct{ X *uint8 }

func (x k10vstp) SizeOf() int                                       { return 2 }
func (x k10vstp) Pack(b []byte, o binary.ByteOrder) ([]byte, error) { return pack10(b, o, 185, *x.X) }
func (x *k10vstp) Unpack(b []byte, o binary.ByteOrder) ([]byte, error) {
	c, r, err := unpack10(b, o, 185)
	*x = k10vstp{&c}
	return r, err
}

type k10pstp struct{ X *uint8 }

func (x *k10pstp) SizeOf() int                                       { return 2 }
func (x *k10pstp) Pack(b []byte, o binary.ByteOrder) ([]byte, error) { return pack10(b, o, 186, *x.X) }
func (x *k10pstp) Unpack(b []byte, o binary.ByteOrder) ([]byte, error) {
	c, r, err := unpack10(b, o, 186)
	*x = k10pstp{&c}
	return r, err
}

type k10vmap map[uint8]uint8

func (x k10vmap) SizeOf() int                                       { return 2 }
func (x k10vmap) Pack(b []byte, o binary.ByteOrder) ([]byte, error) { return pack10(b, o, 187, x[3]) }
func (x *k10vmap) Unpack(b []byte, o binary.ByteOrder) ([]byte, error) {
	c, r, err := unpack10(b, o, 187)
	*x = k10vmap{3: c}
	return r, err
}

type k10pmap map[uint8]uint8

func (x *k10pmap) SizeOf() int { return 2 }
func (x *k10pmap) Pack(b []byte, o binary.ByteOrder) ([]byte, error) {
	return pack10(b, o, 188, (*x)[3])
}
func (x *k10pmap) Unpack(b []byte, o binary.ByteOrder) ([]byte, error) {
	c, r, err := unpack10(b, o, 188)
	*x = k10pmap{3: c}
	return r, err
}

type k10vfn func() uint8

func (x k10vfn) SizeOf() int                                       { return 2 }
func (x k10vfn) Pack(b []byte, o binary.ByteOrder) ([]byte, error) { return pack10(b, o, 189, x()) }
func (x *k10vfn) Unpack(b []byte, o binary.ByteOrder) ([]byte, error) {
	c, r, err := unpack10(b, o, 189)
	*x = k10vfn(func() uint8 { return c })
	return r, err
}

type k10pfn func() uint8

func (x *k10pfn) SizeOf() int                                       { return 2 }
func (x *k10pfn) Pack(b []byte, o binary.ByteOrder) ([]byte, error) { return pack10(b, o, 190, (*x)()) }
func (x *k10pfn) Unpack(b []byte, o binary.ByteOrder) ([]byte, error) {
	c, r, err := unpack10(b, o, 190)
	*x = k10pfn(func() uint8 { return c })
	return r, err
}

type k10vun struct{ x, y uint8 }

func (x k10vun) SizeOf() int                                       { return 2 }
func (x k10vun) Pack(b []byte, o binary.ByteOrder) ([]byte, error) { return pack10(b, o, 191, x.y) }
func (x *k10vun) Unpack(b []byte, o binary.ByteOrder) ([]byte, error) {
	c, r, err := unpack10(b, o, 191)
	*x = k10vun{0, c}
	return r, err
}

type k10pun struct{ x, y uint8 }

func (x *k10pun) SizeOf() int                                       { return 2 }
func (x *k10pun) Pack(b []byte, o binary.ByteOrder) ([]byte, error) { return pack10(b, o, 192, x.y) }
func (x *k10pun) Unpack(b []byte, o binary.ByteOrder) ([]byte, error) {
	c, r, err := unpack10(b, o, 192)
	*x = k10pun{0, c}
	return r, err
}

type k10 struct {
	name string
	t    reflect.Type
	id   uint8
	mk   func(c uint8) any
}

var k10s = []k10{
	{"k10vu8", tof(*new(k10vu8)), 161, func(c uint8) any { return k10vu8(c) }},
	{"k10pu8", tof(*new(k10pu8)), 162, func(c uint8) any { return k10pu8(c) }},
	{"k10vi32", tof(*new(k10vi32)), 163, func(c uint8) any { return k10vi32(int8(c)) }},
	{"k10pi32", tof(*new(k10pi32)), 164, func(c uint8) any { return k10pi32(int8(c)) }},
	{"k10vbool", tof(*new(k10vbool)), 165, func(c uint8) any { return k10vbool(c != 0) }},
	{"k10pbool", tof(*new(k10pbool)), 166, func(c uint8) any { return k10pbool(c != 0) }},
	{"k10vf64", tof(*new(k10vf64)), 167, func(c uint8) any { return k10vf64(math.Float64frombits(0x4040404040404000 | uint64(c))) }},
	{"k10pf64", tof(*new(k10pf64)), 168, func(c uint8) any { return k10pf64(math.Float64frombits(0x4040404040404000 | uint64(c))) }},
	{"k10vc64", tof(*new(k10vc64)), 169, func(c uint8) any { return k10vc64(complex(0, math.Float32frombits(0x40404000|uint32(c)))) }},
	{"k10pc64", tof(*new(k10pc64)), 170, func(c uint8) any { return k10pc64(complex(0, math.Float32frombits(0x40404000|uint32(c)))) }},
	{"k10vstr", tof(*new(k10vstr)), 171, func(c uint8) any { return k10vstr([]byte{c}) }},
	{"k10pstr", tof(*new(k10pstr)), 172, func(c uint8) any { return k10pstr([]byte{c}) }},
	{"k10vsl", tof(*new(k10vsl)), 173, func(c uint8) any { return k10vsl{c} }},
	{"k10psl", tof(*new(k10psl)), 174, func(c uint8) any { return k10psl{c} }},
	{"k10vsl16", tof(*new(k10vsl16)), 175, func(c uint8) any { return k10vsl16{uint16(c)} }},
	{"k10psl16", tof(*new(k10psl16)), 176, func(c uint8) any { return k10psl16{uint16(c)} }},
	{"k10vsst", tof(*new(k10vsst)), 177, func(c uint8) any { return k10vsst{{c}} }},
	{"k10psst", tof(*new(k10psst)), 178, func(c uint8) any { return k10psst{{c}} }},
	{"k10varr", tof(*new(k10varr)), 179, func(c uint8) any { return k10varr{c} }},
	{"k10parr", tof(*new(k10parr)), 180, func(c uint8) any { return k10parr{c} }},
	{"k10varr2", tof(*new(k10varr2)), 181, func(c uint8) any { return k10varr2{0, uint16(c)} }},
	{"k10parr2", tof(*new(k10parr2)), 182, func(c uint8) any { return k10parr2{0, uint16(c)} }},
	{"k10vst", tof(*new(k10vst)), 183, func(c uint8) any { return k10vst{0, c} }},
	{"k10pst", tof(*new(k10pst)), 184, func(c uint8) any { return k10pst{0, c} }},
	{"k10vstp", tof(*new(k10vstp)), 185, func(c uint8) any { return k10vstp{&c} }},
	{"k10pstp", tof(*new(k10pstp)), 186, func(c uint8) any { return k10pstp{&c} }},
	{"k10vmap", tof(*new(k10vmap)), 187, func(c uint8) any { return k10vmap{3: c} }},
	{"k10pmap", tof(*new(k10pmap)), 188, func(c uint8) any { return k10pmap{3: c} }},
	{"k10vfn", tof(*new(k10vfn)), 189, func(c uint8) any { return k10vfn(func() uint8 { return c }) }},
	{"k10pfn", tof(*new(k10pfn)), 190, func(c uint8) any { return k10pfn(func() uint8 { return c }) }},
	{"k10vun", tof(*new(k10vun)), 191, func(c uint8) any { return k10vun{0, c} }},
	{"k10pun", tof(*new(k10pun)), 192, func(c uint8) any { return k10pun{0, c} }},
}

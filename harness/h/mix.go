package h

import (
	"reflect"

	"verif/harness/sym"
)

// mixer draws layouts that combine every kind of field at several levels. Which layouts it draws
// is fixed by its seed; their values are symbolic.
type mixer struct {
	x     uint64
	paths int  // product of the numbers of choices the values of the layout have
	bytes int  // roughly
	whole bool // only whole bytes: custom types that take bytes cannot stand anywhere else
}

func (m *mixer) n(k int) int {
	m.x = m.x*6364136223846793005 + 1442695040888963407
	return int(m.x >> 33 % uint64(k))
}

// fork says if a choice of k more ways is affordable.
func (m *mixer) fork(k int) bool {
	if m.paths*k > 48 {
		return false
	}
	m.paths *= k
	return true
}

func (m *mixer) num() numD {
	ns := []numD{dU8, dU16, dU32, dU64, dI8, dI16, dI32, dI64, s(tInt, "", 32), u(tUnt, "", 32), s(tInt, "int16", 16), u(tU64, "uint8", 8), s(tI8, "int32", 32), u(tU16, "uint64", 64), s(tI64, "int8", 8), u(tU32, "uint16", 16)}
	return ns[m.n(len(ns))]
}

func (m *mixer) bits() numD {
	if m.whole {
		return m.num()
	}
	ns := []numD{u(tU8, "uint8:3", 3), u(tU8, "uint8:1", 1), s(tI64, "int64:5", 5), u(tU16, "uint8:7", 7), s(tI32, "int64:3", 3), u(tU32, "uint32:24", 24), u(tU8, "uint8:6", 6)}
	return ns[m.n(len(ns))]
}

// d draws something that can be an element; deep levels of containers may be in it.
func (m *mixer) d(deep int) D {
	m.bytes += 4
	k := m.n(20)
	if m.bytes > 150 {
		k %= 9
	}
	switch {
	case k < 4:
		return m.num()
	case k == 4:
		return []D{f32D{}, f64D{}}[m.n(2)]
	case k == 5:
		return []D{c64D{}, c128D{}}[m.n(2)]
	case k == 6:
		return []D{boolD{bits: 8}, boolD{wire: "uint16", bits: 16, variant: true}, boolD{wire: "int32", bits: 32, invr: true}, boolD{wire: "uint8", bits: 8, invr: true, variant: true}}[m.n(4)]
	case k == 7 && m.whole:
		return cvD{}
	case k == 8:
		if n := 1 + m.n(2); m.fork(n + 1) {
			return cstrD{n}
		}
		return cstrD{0}
	case deep == 0:
		return arrD{n: m.n(3), e: m.num()}
	case k < 11:
		return arrD{n: 1 + m.n(2), e: m.d(deep - 1)}
	case k == 11:
		return fsD{n: m.n(3), e: m.num()}
	case k < 14:
		return ptrD{m.d(deep - 1)}
	case k == 14:
		return fsD2{n: 1 + m.n(2), e: m.d(deep - 1)}
	}
	return m.st(deep - 1)
}

// g draws a group of fields.
func (m *mixer) g(deep int) G {
	k := m.n(26)
	if m.whole && (k == 4 || k == 5 || k == 14) {
		k = 25
	}
	switch {
	case k < 4:
		return b1(m.bits())
	case k == 4:
		return b1(boolD{wire: []string{"uint8:1", "uint8:3", "uint8:2"}[k%3], bits: []int{1, 3, 2}[k%3], invr: m.n(2) == 1})
	case k == 5:
		return one{d: u(tU16, "uint16:12", 12), order: 'B'}
	case k == 6:
		return []G{pad{t: tU16, bits: 16}, pad{t: reflect.TypeOf([3]byte{}), bits: 24}, pad{t: tU8, wire: "uint8:3", bits: 3}, pad{t: tU8, wire: "uint8:5", bits: 5}}[m.n(4-2*b2i(m.whole))]
	case k == 7:
		return []G{hidden{t: tU32, tag: "-"}, hidden{t: tStr}, hidden{t: reflect.TypeOf([]uint16{}), tag: "-"}}[m.n(3)]
	case k < 10:
		if m.fork(3) {
			g := vlen{cnt: []numD{dU8, dU16, s(tInt, "int16", 16), dI8, u(tU64, "uint32", 32), u(tU8, "uint8:4", 4)}[m.n(6-b2i(m.whole))], from: m.n(2) == 1, max: 2, skip: m.n(3) / 2}
			if g.str = m.n(3) == 0; !g.str {
				x := m.paths
				g.e = m.d(deep)
				if m.paths > x { // every element has these choices
					g.max = 1
				}
			}
			if m.n(3) == 0 {
				g.mid = m.g(0)
			}
			return g
		}
	case k < 13:
		if deep > 0 && m.fork(2) {
			return ifG{flag: []numD{dU8, dU16, u(tU8, "uint8:1", 1)}[m.n(3-b2i(m.whole))], d: m.d(deep - 1), skip: m.n(3) / 2, neg: m.n(2) == 1}
		}
	case k == 13:
		if m.fork(2) {
			return []G{szG{e: m.num()}, szG{skip: 1}, szG{e: dU8, mul: true, skip: 2}}[m.n(3)]
		}
	case k == 14:
		if m.fork(4) {
			return []G{bitsG{t: tU16, wmax: 12}, bitsG{t: tI64, wmax: 41}}[m.n(2)]
		}
	case k == 15:
		return ioG{}
	case k < 18:
		if n := 2 + m.n(3); deep > 0 && m.fork(n) {
			g := caseG{order: []byte{0, 0, 'B', 'L'}[m.n(4)], skip: m.n(3) / 2, cond: m.n(4) == 0 && m.fork(2)}
			for i := 0; i < n; i++ {
				x := m.paths
				if m.n(3) == 0 {
					g.alts = append(g.alts, b1(m.bits()))
				} else {
					g.alts = append(g.alts, b1(m.d(deep-1)))
				}
				m.paths = max(x, x+(m.paths-x)/n)
			}
			return g
		}
	}
	return one{d: m.d(deep), order: []byte{0, 0, 0, 'B', 'L'}[m.n(5)], skip: max(0, m.n(5)-2)}
}

func (m *mixer) st(deep int) stD {
	var l []G
	for i, n := 0, 1+m.n(4); i < n; i++ {
		l = append(l, m.g(deep))
	}
	return stD{l}
}

// mixed picks one of n layouts (thorough: 20 times as many) that follow from the seed. Expressions have to be enabled.
func mixed(seed, n int) stD {
	if sym.Thorough() {
		n *= 20
	}
	i := sym.Choose("mix", n)
	m := &mixer{x: uint64(seed)<<32 + uint64(i), paths: 1, whole: i%4 == 0}
	m.n(2)
	m.n(2)
	d := m.st(2)
	d.g = append(d.g, b1(dU8))
	return d
}

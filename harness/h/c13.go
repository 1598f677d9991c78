package h

import (
	"encoding/binary"
	"reflect"
	"strconv"

	"github.com/go-restruct/restruct"
	"verif/harness/sym"
)

type c13top struct {
	N   uint8
	X   uint8
	Mid c13mid
	Arr [2]c13mid
	K   uint8 `struct:"sizeof=L"`
	L   []c13leaf
	P   *c13leaf
	Z   uint16
}

type c13mid struct {
	Up   *c13top `struct:"parent"`
	Root *c13top `struct:"root"`
	M    uint8
	Leaf c13leaf
	Y    uint8 `struct:"if=Up.N == Root.X"`
}

type c13leaf struct {
	Root *c13top `struct:"root"`
	Mid  *c13mid `struct:"parent"`
	Top  *c13top `struct:"parent"`
	A    uint8
	B    []uint8 `struct:"size=Root.N & 1"`
	C    uint8   `struct:"if=Root.X > 3"`
}

func c13gen(n string, top *c13top, mid bool) c13leaf {
	l := c13leaf{A: sym.U8(n + "a"), B: sym.Bytes(n+"b", 1), C: sym.U8(n + "c")}
	if top.N&1 == 0 {
		l.B = nil
	}
	if top.X <= 3 {
		l.C = 0
	}
	return l
}

func (l *c13leaf) enc(w *wr, top *c13top) {
	w.put(uint64(l.A), 8)
	if top.N&1 == 1 {
		w.put(uint64(l.B[0]), 8)
	}
	if top.X > 3 {
		w.put(uint64(l.C), 8)
	}
}

func (m *c13mid) enc(w *wr, top *c13top) {
	w.put(uint64(m.M), 8)
	m.Leaf.enc(w, top)
	if top.N == top.X {
		w.put(uint64(m.Y), 8)
	}
}

func c13value() *c13top {
	v := &c13top{N: sym.U8("n"), X: sym.U8("x"), Z: sym.U16("z")}
	mid := func(n string) c13mid {
		m := c13mid{M: sym.U8(n + "m"), Leaf: c13gen(n, v, true), Y: sym.U8(n + "y")}
		if v.N != v.X {
			m.Y = 0
		}
		return m
	}
	v.Mid, v.Arr = mid("m"), [2]c13mid{mid("p"), mid("q")}
	k := sym.Choose("k", 3)
	v.K = uint8(k)
	v.L = make([]c13leaf, k)
	for i := range v.L {
		v.L[i] = c13gen("l"+strconv.Itoa(i), v, false)
	}
	p := c13gen("r", v, false)
	v.P = &p
	return v
}

func (v *c13top) enc(le bool) *wr {
	w := &wr{}
	w.put(uint64(v.N), 8)
	w.put(uint64(v.X), 8)
	v.Mid.enc(w, v)
	v.Arr[0].enc(w, v)
	v.Arr[1].enc(w, v)
	w.put(uint64(len(v.L)), 8)
	for i := range v.L {
		v.L[i].enc(w, v)
	}
	v.P.enc(w, v)
	w.num(uint64(v.Z), 16, le)
	return w
}

// linked: every root and parent field points to the very object.
func linked(v *c13top) {
	leaf := func(l *c13leaf, m *c13mid) {
		sym.Assert(l.Root == v, "root is the outermost struct")
		sym.Assert(l.Mid == m, "parent is the nearest struct of its type")
		sym.Assert(l.Top == v, "parent reaches further out by type")
	}
	mid := func(m *c13mid) {
		sym.Assert(m.Up == v && m.Root == v, "parent and root of the inner struct")
		leaf(&m.Leaf, m)
	}
	mid(&v.Mid)
	mid(&v.Arr[0])
	mid(&v.Arr[1])
	for i := range v.L {
		leaf(&v.L[i], nil)
	}
	leaf(v.P, nil)
}

func unlink(v *c13top) {
	leaf := func(l *c13leaf) { l.Root, l.Mid, l.Top = nil, nil, nil }
	mid := func(m *c13mid) { m.Up, m.Root = nil, nil; leaf(&m.Leaf) }
	mid(&v.Mid)
	mid(&v.Arr[0])
	mid(&v.Arr[1])
	for i := range v.L {
		leaf(&v.L[i])
	}
	leaf(v.P)
}

// C13_Links: sizes, packing and unpacking set the pointers and evaluate through them.
func C13_Links() {
	restruct.EnableExprBeta()
	o, le := order("order")
	v := c13value()
	w := v.enc(le)
	switch sym.Choose("op", 3) {
	case 0:
		n, err := restruct.BitSize(v)
		sym.Assert(err == nil && n == w.n, "BitSize: the pointers take no space")
		linked(v)
	case 1:
		data, err := restruct.Pack(o, v)
		sym.Observe("data", data)
		sym.Assert(err == nil, "Pack succeeds")
		sym.Assert(sym.EqBytes(data, w.b), "expressions read through root and parent")
		linked(v)
	case 2:
		var x c13top
		err := restruct.Unpack(w.b, o, &x)
		sym.Assert(err == nil, "Unpack succeeds")
		linked(&x)
		unlink(&x)
		sym.Observe("x", x)
		sym.Assert(sym.Same(x, *v), "expressions read the live values while unpacking")
	}
}

// C13_Live: values are read while they are being unpacked: earlier fields new, and stale pointers
// are replaced.
func C13_Live() {
	restruct.EnableExprBeta()
	type leaf struct {
		R *c13live `struct:"root"`
		D []uint8  `struct:"size=R.A + R.B"`
	}
	_ = leaf{}
	o, _ := order("order")
	data := sym.Bytes("data", 5)
	old := c13live{A: 9, B: 9}
	x := c13live{A: sym.U8("oldA"), B: sym.U8("oldB")}
	x.I.R = &old
	sym.Assume(data[0] < 3)
	sym.Assume(data[3] < 2)
	err := restruct.Unpack(data, o, &x)
	sym.Observe("err", err)
	// A, I.D (A bytes), B is behind I: still the old value when I.E is read
	n := int(data[0])
	if err == nil {
		sym.Cover("read")
		sym.Assert(x.A == data[0] && len(x.I.D) == n && x.B == data[1+n], "values are read in order")
		sym.Assert(x.I.R == &x, "a stale root pointer is replaced")
		sym.Assert(len(x.J.D) == int(x.A+x.B), "a later struct sees the values read before it")
	} else {
		sym.Cover("short")
		sym.Assert(1+n+1+int(data[0]+data[1+n]) > 5, "only missing data is an error")
	}
}

type c13live struct {
	A uint8
	I struct {
		R *c13live `struct:"root"`
		D []uint8  `struct:"size=R.A"`
	}
	B uint8
	J struct {
		P *c13live `struct:"parent"`
		D []uint8  `struct:"size=P.A + P.B"`
	}
}

// C13_NoMatch: a parent without an enclosing struct of its type stays as it is and takes no space; a
// root of another type likewise.
func C13_NoMatch() {
	restruct.EnableExprBeta()
	type other struct{ Q uint8 }
	type in struct {
		O *other `struct:"parent"`
		R *other `struct:"root"`
		A uint8
	}
	type T struct {
		B uint8
		I in
		S *T `struct:"root"`
		C uint8
	}
	o := binary.BigEndian
	v := T{B: sym.U8("b"), I: in{A: sym.U8("a")}, C: sym.U8("c")}
	data, err := restruct.Pack(o, &v)
	sym.Assert(err == nil && sym.EqBytes(data, []byte{v.B, v.I.A, v.C}), "root and parent take no space")
	sym.Assert(v.I.O == nil && v.I.R == nil && v.S == &v, "only matching structs are set")
	var x T
	err = restruct.Unpack(data, o, &x)
	sym.Assert(err == nil && x.B == v.B && x.I.A == v.I.A && x.C == v.C, "Unpack reads around them")
	sym.Assert(x.I.O == nil && x.I.R == nil && x.S == &x, "only matching structs are set")
}

// C13_Deep: recursion: each level's parent is the level above.
func C13_Deep() {
	restruct.EnableExprBeta()
	o, _ := order("order")
	depth := []int{1, 2, 3, 4, 12, 35}[sym.Choose("depth", 6)]
	data := make([]byte, 0, depth)
	for i := 0; i < depth; i++ {
		b := sym.U8("v"+strconv.Itoa(i)) | 0x80
		if i == depth-1 {
			b &= 0x7f
		}
		data = append(data, b)
	}
	var x c13rec
	err := restruct.Unpack(data, o, &x)
	sym.Assert(err == nil, "Unpack succeeds")
	p, n := (*c13rec)(nil), 0
	for c := &x; c != nil; c = c.Next {
		sym.Assert(c.Up == p, "parent is the level above")
		sym.Assert(c.Root == &x, "root is the top level")
		sym.Assert(c.V == data[n], "the value")
		p, n = c, n+1
	}
	sym.Assert(n == depth, "all levels are read")
	out, err := restruct.Pack(o, &x)
	sym.Assert(err == nil && sym.EqBytes(out, data), "Pack writes all levels")
}

type c13rec struct {
	Up   *c13rec `struct:"parent"`
	Root *c13rec `struct:"root"`
	V    uint8
	Next *c13rec `struct:"if=V & 128 != 0"`
}

var _ = reflect.ValueOf

type c13who interface{ Who() *c13out }

type c13ptr *c13out

type c13far interface{ Far() }

type c13out struct {
	A   uint8
	Mid c13ctr
	L   [2]c13ref
	Z   uint8
}

func (c *c13out) Who() *c13out { return c }

type c13ctr struct {
	M   uint8
	Ref c13ref
	P   *c13ref
}

type c13ref struct {
	I   interface{} `struct:"parent"`
	W   c13who      `struct:"parent"`
	P   c13ptr      `struct:"parent"`
	R   interface{} `struct:"root"`
	V   c13who      `struct:"root"`
	Q   c13ptr      `struct:"root"`
	F   c13far      `struct:"parent"`
	B   uint8
	C   uint8 `struct:"uint8,if=B == 7"`
	Own struct {
		C *c13ctr  `struct:"parent"`
		M **c13ctr `struct:"parent"`
		D uint8
	}
}

// C13_Kinds: the type of a root or parent field may be anything the pointer can be assigned to.
func C13_Kinds() {
	restruct.EnableExprBeta()
	o, _ := order("order")
	v := &c13out{A: sym.U8("a"), Z: sym.U8("z")}
	w := &wr{}
	ref := func(n string) c13ref {
		r := c13ref{B: sym.U8(n + "b"), C: sym.U8(n + "c")}
		r.Own.D = sym.U8(n + "d")
		w.put(uint64(r.B), 8)
		if r.B == 7 {
			w.put(uint64(r.C), 8)
		} else {
			r.C = 0
		}
		w.put(uint64(r.Own.D), 8)
		return r
	}
	w.put(uint64(v.A), 8)
	v.Mid.M = sym.U8("m")
	w.put(uint64(v.Mid.M), 8)
	v.Mid.Ref = ref("f")
	p := ref("p")
	v.Mid.P = &p
	v.L[0] = ref("x")
	v.L[1] = ref("y")
	w.put(uint64(v.Z), 8)
	check := func(v *c13out) {
		for i, r := range []*c13ref{&v.Mid.Ref, v.Mid.P, &v.L[0], &v.L[1]} {
			if i < 2 {
				sym.Assert(r.I == any(&v.Mid), "the nearest struct")
				sym.Assert(r.Own.C == &v.Mid, "the nearest struct of the type")
			} else {
				sym.Assert(r.I == any(v), "the nearest struct")
				sym.Assert(r.Own.C == nil, "there is none of the type")
			}
			sym.Assert(r.Own.M == nil && r.F == nil, "no struct has the type")
			sym.Assert(r.W != nil && r.W.Who() == v, "the nearest struct that has the methods")
			sym.Assert((*c13out)(r.P) == v, "the nearest struct a named pointer can point to")
			sym.Assert(r.R == any(v), "the outermost struct")
			sym.Assert(r.V != nil && r.V.Who() == v, "the outermost struct has the methods")
			sym.Assert((*c13out)(r.Q) == v, "the outermost struct as a named pointer")
		}
	}
	switch sym.Choose("op", 3) {
	case 0:
		sizes(v, w)
		check(v)
	case 1:
		data, err := restruct.Pack(o, v)
		sym.Observe("data", data)
		sym.Assert(err == nil, "Pack succeeds")
		sym.Assert(sym.EqBytes(data, w.b), "expressions read through parent")
		check(v)
	case 2:
		var x c13out
		err := restruct.Unpack(w.b, o, &x)
		sym.Assert(err == nil, "Unpack succeeds")
		check(&x)
		sym.Assert(x.A == v.A && x.Mid.M == v.Mid.M && x.Z == v.Z, "the values are read")
		a, b := []*c13ref{&v.Mid.Ref, v.Mid.P, &v.L[0], &v.L[1]}, []*c13ref{&x.Mid.Ref, x.Mid.P, &x.L[0], &x.L[1]}
		for i := range a {
			sym.Assert(a[i].B == b[i].B && a[i].C == b[i].C && a[i].Own.D == b[i].Own.D, "the values are read")
		}
	}
}

type c13f0 struct {
	N uint8
	A c13f1
	Z uint8
}
type c13f1 struct {
	N uint8
	B []c13f2 `struct:"size=1"`
}
type c13f2 struct {
	N uint8
	C [1]c13f3
	D *c13f4
}
type c13f3 struct {
	N uint8
	S struct {
		X c13f4 `struct:"case=0"`
		Y c13f5 `struct:"default"`
	} `struct:"switch=N & 1"`
}
type c13f4 struct {
	P0 *c13f0 `struct:"parent"`
	P1 *c13f1 `struct:"parent"`
	P2 *c13f2 `struct:"parent"`
	P3 *c13f3 `struct:"parent"`
	P4 *c13f4 `struct:"parent"`
	R  *c13f0 `struct:"root"`
	V  []byte `struct:"size=P0.N & 1"`
	W  uint8  `struct:"if=P1.N == P2.N,out=W ^ P0.N,in=W ^ R.N"`
	Q  []byte `struct:"size=P1.N & 1"`
	F  c13f5
}
type c13f5 struct {
	P0 *c13f0 `struct:"parent"`
	P1 *c13f1 `struct:"parent"`
	P2 *c13f2 `struct:"parent"`
	P4 *c13f4 `struct:"parent"`
	E  uint8  `struct:"out=E + P2.N,in=E - P2.N"`
}

// C13_Far: parents up to five structs out, through slices, arrays, pointers and switches.
func C13_Far() {
	restruct.EnableExprBeta()
	o, _ := order("order")
	w := &wr{}
	v := &c13f0{N: sym.U8("n0"), Z: sym.U8("z")}
	v.A.N = sym.U8("n1")
	v.A.B = make([]c13f2, 1)
	b := &v.A.B[0]
	b.N = sym.U8("n2")
	c := &b.C[0]
	c.N = uint8(sym.Choose("n3", 2))
	g5 := func(n string, f *c13f5) {
		f.E = sym.U8(n + "e")
		w.put(uint64(f.E+b.N), 8)
	}
	g4 := func(n string, f *c13f4) {
		if v.N&1 == 1 {
			f.V = sym.Bytes(n+"v", 1)
			w.put(uint64(f.V[0]), 8)
		}
		if v.A.N == b.N {
			f.W = sym.U8(n + "w")
			w.put(uint64(f.W^v.N), 8)
		}
		if v.A.N&1 == 1 {
			f.Q = sym.Bytes(n+"q", 1)
			w.put(uint64(f.Q[0]), 8)
		}
		g5(n+"f", &f.F)
	}
	w.put(uint64(v.N), 8)
	w.put(uint64(v.A.N), 8)
	w.put(uint64(b.N), 8)
	w.put(uint64(c.N), 8)
	if c.N == 0 {
		g4("x", &c.S.X)
	} else {
		g5("y", &c.S.Y)
	}
	b.D = &c13f4{}
	g4("d", b.D)
	w.put(uint64(v.Z), 8)
	check := func(v *c13f0, clear bool) {
		f5 := func(f *c13f5, up *c13f4) {
			sym.Assert(f.P0 == v && f.P1 == &v.A && f.P2 == &v.A.B[0] && f.P4 == up, "parents are the enclosing structs")
			if clear {
				f.P0, f.P1, f.P2, f.P4 = nil, nil, nil, nil
			}
		}
		f4 := func(f *c13f4, up *c13f3) {
			sym.Assert(f.P0 == v && f.P1 == &v.A && f.P2 == &v.A.B[0] && f.P3 == up && f.P4 == nil && f.R == v, "parents are the enclosing structs")
			if clear {
				f.P0, f.P1, f.P2, f.P3, f.R = nil, nil, nil, nil, nil
			}
			f5(&f.F, f)
		}
		c := &v.A.B[0].C[0]
		if c.N == 0 {
			f4(&c.S.X, c)
		} else {
			f5(&c.S.Y, nil)
		}
		f4(v.A.B[0].D, nil)
	}
	switch sym.Choose("op", 3) {
	case 0:
		sizes(v, w)
		check(v, false)
	case 1:
		data, err := restruct.Pack(o, v)
		sym.Observe("data", data)
		sym.Assert(err == nil, "Pack succeeds")
		sym.Assert(sym.EqBytes(data, w.b), "expressions read through parents")
		check(v, false)
	case 2:
		var x c13f0
		err := restruct.Unpack(w.b, o, &x)
		sym.Assert(err == nil, "Unpack succeeds")
		check(&x, true)
		sym.Observe("x", x)
		sym.Assert(sym.Same(x, *v), "the values are read")
	}
}

// C13_Stale: root and parent fields that still point to another value, as after moving a part of it, count for
// nothing, whatever is done first.
func C13_Stale() {
	restruct.EnableExprBeta()
	o, le := order("order")
	v := c13value()
	w := v.enc(le)
	old := &c13top{N: sym.U8("oldN"), X: sym.U8("oldX")}
	stale := func(v *c13top) {
		leaf := func(l *c13leaf) { l.Root, l.Mid, l.Top = old, &old.Mid, old }
		mid := func(m *c13mid) { m.Up, m.Root = old, old; leaf(&m.Leaf) }
		mid(&v.Mid)
		mid(&v.Arr[0])
		mid(&v.Arr[1])
		for i := range v.L {
			leaf(&v.L[i])
			v.L[i].Mid = nil // there is no struct of this type around
		}
		if v.P != nil {
			leaf(v.P)
			v.P.Mid = nil
		}
	}
	stale(v)
	switch sym.Choose("op", 4) {
	case 0:
		n, err := restruct.BitSize(v)
		sym.Assert(err == nil && n == w.n, "BitSize reads through the right pointers")
		linked(v)
	case 1:
		n, err := restruct.SizeOf(v)
		sym.Assert(err == nil && n == len(w.b), "SizeOf reads through the right pointers")
		linked(v)
	case 2:
		data, err := restruct.Pack(o, v)
		sym.Observe("data", data)
		sym.Assert(err == nil, "Pack succeeds")
		sym.Assert(sym.EqBytes(data, w.b), "Pack reads through the right pointers")
		linked(v)
	case 3:
		var x c13top
		stale(&x)
		err := restruct.Unpack(w.b, o, &x)
		sym.Assert(err == nil, "Unpack succeeds")
		linked(&x)
		unlink(&x)
		unlink(v)
		sym.Observe("x", x)
		sym.Assert(sym.Same(x, *v), "Unpack reads through the right pointers")
	}
}

// Structs with the same fields, which are different types all the same.
type c13p struct {
	N uint8 `struct:"sizeof=M"`
	M []c13pm
	L c13pl
}

type c13q struct {
	N uint8 `struct:"sizeof=M"`
	M []c13pm
	L c13pl
}

type c13r c13p

type c13pm struct {
	NP uint8 `struct:"sizeof=P"`
	P  []c13p
	NQ uint8 `struct:"sizeof=Q"`
	Q  []c13q
	NR uint8 `struct:"sizeof=R"`
	R  []c13r
}

type c13pl struct {
	R *c13r `struct:"parent"`
	Q *c13q `struct:"parent"`
	P *c13p `struct:"parent"`
	V uint8
	A uint8 `struct:"if=P != nil"`
	B uint8 `struct:"if=Q != nil"`
	C uint8 `struct:"if=R != nil"`
}

// C13_Alike: a link leads to the nearest struct of exactly its type, past others with the same fields.
func C13_Alike() {
	restruct.EnableExprBeta()
	o, _ := order("order")
	depth := 1 + sym.Choose("depth", 3+b2i(sym.Thorough()))
	var ks []int
	for i := 0; i < depth; i++ {
		ks = append(ks, sym.Choose("k", 3))
	}
	w := &wr{}
	var build func(i int) *c13p
	leaf := func(i int) (l c13pl) {
		l.V = sym.U8("v")
		w.put(uint64(l.V), 8)
		have := [3]bool{}
		for _, k := range ks[:i+1] {
			have[k] = true
		}
		for k, f := range []*uint8{&l.A, &l.B, &l.C} {
			if have[k] {
				*f = sym.U8("f")
				w.put(uint64(*f), 8)
			}
		}
		return
	}
	build = func(i int) *c13p {
		x := &c13p{}
		if i+1 < len(ks) {
			w.put(1, 8)
			x.N = 1
			m := c13pm{}
			ns := []*uint8{&m.NP, &m.NQ, &m.NR}
			for k, n := range ns {
				*n = uint8(b2i(ks[i+1] == k))
				w.put(uint64(*n), 8)
				if *n == 1 {
					y := build(i + 1)
					switch k {
					case 0:
						m.P = []c13p{*y}
					case 1:
						m.Q = []c13q{c13q(*y)}
					case 2:
						m.R = []c13r{c13r(*y)}
					}
				}
			}
			x.M = []c13pm{m}
		} else {
			w.put(0, 8)
		}
		x.L = leaf(i)
		return x
	}
	b := build(0)
	mk := func(b c13p) any {
		switch ks[0] {
		case 0:
			return &b
		case 1:
			c := c13q(b)
			return &c
		}
		c := c13r(b)
		return &c
	}
	v := mk(*b)
	// linked checks and clears the links
	linked := func(v any) {
		var at [3]any
		at[0], at[1], at[2] = (*c13p)(nil), (*c13q)(nil), (*c13r)(nil)
		var ls []*c13pl
		for i := range ks {
			var m []c13pm
			var l *c13pl
			switch x := v.(type) {
			case *c13p:
				m, l, at[0] = x.M, &x.L, x
			case *c13q:
				m, l, at[1] = x.M, &x.L, x
			case *c13r:
				m, l, at[2] = x.M, &x.L, x
			}
			sym.Assert(any(l.P) == at[0] && any(l.Q) == at[1] && any(l.R) == at[2], "the nearest struct of the type is linked")
			ls = append(ls, l)
			if i+1 < len(ks) {
				switch ks[i+1] {
				case 0:
					v = &m[0].P[0]
				case 1:
					v = &m[0].Q[0]
				case 2:
					v = &m[0].R[0]
				}
			}
		}
		for _, l := range ls {
			l.P, l.Q, l.R = nil, nil, nil
		}
	}
	n, err := restruct.BitSize(v)
	sym.Assert(err == nil && n == w.n, "BitSize follows the links")
	linked(v)
	data, err := restruct.Pack(o, v)
	sym.Observe("data", data)
	sym.Assert(err == nil, "Pack succeeds")
	sym.Assert(sym.EqBytes(data, w.b), "Pack follows the links")
	linked(v)
	x := mk(c13p{})
	err = restruct.Unpack(w.b, o, x)
	sym.Assert(err == nil, "Unpack succeeds")
	linked(x)
	sym.Assert(sym.Same(x, v), "Unpack follows the links")
}

type c13e0 struct {
	c13eb
	N uint8
	C c13e1
}
type c13eb struct{ X uint8 }
type C13EB struct{ Y uint8 }
type c13e1 struct {
	C13EB
	V []c13e2 `struct:"size=1"`
}
type c13e2 struct {
	D [1]c13e3
	*C13EP
}
type C13EP struct {
	Z uint8
	P *c13e2 `struct:"parent"`
	Q *c13e1 `struct:"parent"`
	R *c13e0 `struct:"root"`
}
type c13e3 struct {
	C13EB
	C13EA
	E c13e4
}
type C13EA struct {
	W uint8
	P *c13e3 `struct:"parent"`
	Q *c13e1 `struct:"parent"`
	F c13e4
}
type c13e4 struct {
	P0 *c13e0 `struct:"parent"`
	P1 *c13e1 `struct:"parent"`
	P2 *c13e2 `struct:"parent"`
	P3 *c13e3 `struct:"parent"`
	PA *C13EA `struct:"parent"`
	PB *C13EB `struct:"parent"`
	C13EB
	R *c13e0 `struct:"root"`
}

// C13_Embedded: structs that embed others are parents as any other, and so are the embedded ones.
func C13_Embedded() {
	restruct.EnableExprBeta()
	o, _ := order("order")
	data := sym.Bytes("data", 7)
	check := func(v *c13e0) {
		b := &v.C
		c := &b.V[0]
		d := &c.D[0]
		f, g := &d.C13EA.F, &d.E
		sym.Assert(f.P0 == v && f.P1 == b && f.P2 == c && f.P3 == d && f.PA == &d.C13EA && f.PB == nil && f.R == v, "parents of a field of an embedded struct")
		sym.Assert(g.P0 == v && g.P1 == b && g.P2 == c && g.P3 == d && g.PA == nil && g.PB == nil && g.R == v, "parents behind an embedded struct")
		sym.Assert(d.C13EA.P == d && d.C13EA.Q == b, "parents of an embedded struct")
		sym.Assert(c.C13EP.P == c && c.C13EP.Q == b && c.C13EP.R == v, "parents of an embedded pointer")
	}
	var x c13e0
	sym.Assert(restruct.Unpack(data, o, &x) == nil, "Unpack succeeds")
	check(&x)
	d := &x.C.V[0].D[0]
	sym.Assert(sym.And(x.N == data[0], x.C.Y == data[1], d.Y == data[2], d.W == data[3], d.F.Y == data[4], d.E.Y == data[5], x.C.V[0].Z == data[6]), "the values")
	y := c13e0{N: x.N}
	y.C.C13EB = x.C.C13EB
	y.C.V = []c13e2{{D: [1]c13e3{{C13EB: d.C13EB, C13EA: C13EA{W: d.W}}}, C13EP: &C13EP{Z: x.C.V[0].Z}}}
	y.C.V[0].D[0].F.C13EB, y.C.V[0].D[0].E.C13EB = d.F.C13EB, d.E.C13EB
	if sym.Choose("op", 2) == 0 {
		n, err := restruct.SizeOf(&y)
		sym.Assert(err == nil && n == 7, "SizeOf")
	} else {
		b, err := restruct.Pack(o, &y)
		sym.Assert(err == nil && sym.EqBytes(b, data), "Pack")
	}
	check(&y)
}

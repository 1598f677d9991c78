package h

import (
	"encoding/binary"

	"github.com/go-restruct/restruct"
	"github.com/go-restruct/restruct/formats/png"
	"verif/harness/sym"
)

// chunk21 is the description of one chunk of a well-formed file.
type chunk21 struct {
	typ  string
	body []byte
	crc  uint32
	at   int
}

func be32(n uint32) []byte { return []byte{byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)} }

func (c *chunk21) bytes() []byte {
	return append(append(append(be32(uint32(len(c.body))), c.typ...), c.body...), be32(c.crc)...)
}

// other21 is any other chunk type of four letters.
func other21(nm string) string {
	b := sym.Bytes(nm, 4)
	for _, c := range b {
		l := c | 0x20
		sym.Assume(sym.And(l >= 'a', l <= 'z'))
	}
	s := string(b)
	sym.Assume(sym.And(s != "IHDR", s != "IDAT", s != "IEND"))
	return s
}

func genChunk(nm string, max int) *chunk21 {
	c := &chunk21{}
	switch sym.Choose("type"+nm, 4) {
	case 0:
		c.typ = "IDAT"
		c.body = sym.Bytes("body"+nm, sym.Choose("len"+nm, max+1))
	case 1:
		c.typ = "IEND"
	case 2:
		c.typ = "IHDR"
		c.body = sym.Bytes("body"+nm, 13)
	case 3:
		c.typ = other21("name" + nm)
		c.body = sym.Bytes("body"+nm, sym.Choose("len"+nm, max+1))
	}
	c.crc = sym.U32("crc" + nm)
	return c
}

func (c *chunk21) check(g *png.Chunk) {
	sym.Assert(g.Len == uint32(len(c.body)), "a chunk has its length")
	sym.Assert(g.Type == c.typ, "a chunk has its type")
	sym.Assert(g.CRC == c.crc, "a chunk has its CRC")
	d := g.Data
	n := 0
	for _, set := range []bool{d.IHDR != nil, d.IDAT != nil, d.IEND != nil, d.Raw != nil} {
		n += b2i(set)
	}
	sym.Assert(n == 1, "exactly one body is decoded")
	switch c.typ {
	case "IHDR":
		sym.Assert(d.IHDR != nil, "the body is of the chunk's type")
		b := c.body
		w := png.ChunkIHDR{Width: uint32(b[0])<<24 | uint32(b[1])<<16 | uint32(b[2])<<8 | uint32(b[3]), Height: uint32(b[4])<<24 | uint32(b[5])<<16 | uint32(b[6])<<8 | uint32(b[7]),
			BitDepth: b[8], ColorType: png.ColorType(b[9]), CompressionMethod: b[10], FilterMethod: b[11], InterlaceMethod: b[12]}
		sym.Assert(sym.Same(*d.IHDR, w), "the header has its fields")
		sym.Cover("IHDR")
	case "IDAT":
		sym.Assert(d.IDAT != nil, "the body is of the chunk's type")
		sym.Assert(sym.EqBytes(d.IDAT.Data, c.body), "the body has its content")
		sym.Assert(d.IDAT.Parent != nil && d.IDAT.Parent.Len == g.Len, "the parent is the chunk")
		sym.Cover("IDAT")
	case "IEND":
		sym.Assert(d.IEND != nil, "the body is of the chunk's type")
		sym.Cover("IEND")
	default:
		sym.Assert(d.Raw != nil, "the body is of the chunk's type")
		sym.Assert(sym.EqBytes(d.Raw.Data, c.body), "the body has its content")
		sym.Assert(d.Raw.Parent != nil && d.Raw.Parent.Len == g.Len, "the parent is the chunk")
		sym.Cover("other")
	}
}

// file21 picks a well-formed file.
func file21(n, max int) (magic []byte, cs []*chunk21, data []byte) {
	magic = sym.Bytes("magic", 8)
	data = append(data, magic...)
	for i := 0; i <= n; i++ {
		c := genChunk(gname(i), max)
		c.at = len(data)
		cs = append(cs, c)
		data = append(data, c.bytes()...)
	}
	return
}

// C21_File: chunks decode to their fields and the file encodes to the same bytes.
func C21_File() {
	restruct.EnableExprBeta()
	t := b2i(sym.Thorough())
	magic, cs, data := file21(sym.Choose("chunks", 3+t), 1+2*t)
	in := append([]byte(nil), data...)
	var f png.File
	err := restruct.Unpack(data, binary.BigEndian, &f)
	sym.Observe("err", err)
	sym.Assert(err == nil, "a well-formed file decodes")
	sym.Assert(sym.EqBytes(f.Magic[:], magic), "the signature is kept")
	sym.Assert(len(f.Chunks) == len(cs)-1, "every chunk is decoded")
	cs[0].check(&f.Header)
	for i := range f.Chunks {
		cs[i+1].check(&f.Chunks[i])
	}
	n, err := restruct.SizeOf(&f)
	sym.Assert(err == nil && n == len(in), "SizeOf is the size of the file")
	out, err := restruct.Pack(binary.BigEndian, &f)
	sym.Observe("out", out)
	sym.Assert(err == nil, "a decoded file encodes")
	sym.Assert(sym.EqBytes(out, in), "a decoded file encodes to the same bytes")
	sym.Assert(sym.EqBytes(data, in), "the input is unchanged")
}

// C21_Truncated: a file cut within a chunk is an error; one cut between chunks has fewer of them.
func C21_Truncated() {
	restruct.EnableExprBeta()
	_, cs, data := file21(sym.Choose("chunks", 2), 2)
	cut := sym.Choose("cut", len(data))
	var f png.File
	err := restruct.Unpack(data[:cut], binary.BigEndian, &f)
	sym.Observe("err", err)
	for i, c := range cs {
		if i > 0 && cut == c.at {
			sym.Assert(err == nil, "whole chunks decode")
			sym.Assert(len(f.Chunks) == i-1, "whole chunks decode")
			return
		}
	}
	sym.Assert(err != nil, "a truncated chunk is an error")
}

// C21_Arbitrary: any bytes decode or fail cleanly, and what decodes encodes to the same bytes.
func C21_Arbitrary() {
	restruct.EnableExprBeta()
	t := b2i(sym.Thorough())
	data := sym.Bytes("data", sym.Choose("n", 8+12+12+2+11*t))
	in := append([]byte(nil), data...)
	var f png.File
	err := restruct.Unpack(data, binary.BigEndian, &f)
	sym.Observe("err", err)
	sym.Assert(sym.EqBytes(data, in), "the input is unchanged")
	if err != nil {
		sym.Cover("error")
		return
	}
	sym.Cover("decoded")
	ok := func(c *png.Chunk) bool {
		return len(c.Type) == 4 // a NUL ends a fixed string
	}
	if !ok(&f.Header) {
		return
	}
	for i := range f.Chunks {
		if !ok(&f.Chunks[i]) {
			return
		}
	}
	out, err := restruct.Pack(binary.BigEndian, &f)
	sym.Assert(err == nil, "a decoded file encodes")
	sym.Assert(sym.EqBytes(out, in), "a decoded file encodes to the same bytes")
}

// C21_Lengths: a length beyond the data is an error, whatever it is.
func C21_Lengths() {
	restruct.EnableExprBeta()
	n := sym.U32("len")
	body := sym.Bytes("body", 3)
	typ := []string{"IDAT", "tEXt"}[sym.Choose("type", 2)]
	head := (&chunk21{typ: "IHDR", body: make([]byte, 13)}).bytes()
	data := append(append(append(append(make([]byte, 8), head...), be32(n)...), typ...), append(body, 1, 2, 3, 4)...)
	var f png.File
	err := restruct.Unpack(data, binary.BigEndian, &f)
	sym.Observe("err", err)
	if n > 3 {
		sym.Assert(err != nil, "a length beyond the data is an error")
		return
	}
	if n == 3 {
		sym.Assert(err == nil && len(f.Chunks) == 1 && f.Chunks[0].CRC == 0x01020304, "a fitting length decodes")
		sym.Cover("fits")
		return
	}
	sym.Assert(err != nil, "left-over bytes are no chunk")
}

// C21_Build: a file built from values encodes to the chunk layout.
func C21_Build() {
	restruct.EnableExprBeta()
	var f png.File
	copy(f.Magic[:], sym.Bytes("magic", 8))
	want := append([]byte(nil), f.Magic[:]...)
	h := png.ChunkIHDR{Width: sym.U32("w"), Height: sym.U32("h"), BitDepth: sym.U8("d"), ColorType: png.ColorType(sym.U8("c")), CompressionMethod: sym.U8("m"), FilterMethod: sym.U8("f"), InterlaceMethod: sym.U8("i")}
	f.Header = png.Chunk{Len: 13, Type: "IHDR", CRC: sym.U32("crc")}
	f.Header.Data.IHDR = &h
	body := append(append(be32(h.Width), be32(h.Height)...), h.BitDepth, byte(h.ColorType), h.CompressionMethod, h.FilterMethod, h.InterlaceMethod)
	want = append(want, (&chunk21{"IHDR", body, f.Header.CRC, 0}).bytes()...)
	n := sym.Choose("n", 3)
	for i := 0; i < n; i++ {
		b := sym.Bytes("b"+gname(i), sym.Choose("len"+gname(i), 3))
		c := png.Chunk{Len: uint32(len(b)), Type: "IDAT", CRC: sym.U32("crc" + gname(i))}
		if sym.Choose("raw"+gname(i), 2) == 1 {
			c.Type = "gAMA"
			c.Data.Raw = &png.ChunkRaw{Data: b}
		} else {
			c.Data.IDAT = &png.ChunkIDAT{Data: b}
		}
		f.Chunks = append(f.Chunks, c)
		want = append(want, (&chunk21{c.Type, b, c.CRC, 0}).bytes()...)
	}
	end := png.Chunk{Type: "IEND", CRC: 0xae426082}
	end.Data.IEND = &png.ChunkIEND{}
	f.Chunks = append(f.Chunks, end)
	want = append(want, (&chunk21{"IEND", nil, 0xae426082, 0}).bytes()...)
	out, err := restruct.Pack(binary.BigEndian, &f)
	sym.Observe("out", out)
	sym.Assert(err == nil, "a file encodes")
	sym.Assert(sym.EqBytes(out, want), "a file encodes to its chunks")
}

// C21_Many: files of many chunks, and chunks of many bytes.
func C21_Many() {
	restruct.EnableExprBeta()
	magic := sym.Bytes("magic", 8)
	data := append([]byte(nil), magic...)
	counts := []int{9, 20, 70}
	if sym.Thorough() {
		counts = []int{9, 17, 33, 65, 129, 257, 520}
	}
	n := counts[sym.Choose("n", len(counts))]
	kind := sym.Choose("kind", 5)
	seen := map[string]bool{"IHDR": true, "IEND": true}
	var cs []*chunk21
	add := func(typ string, body []byte) {
		c := &chunk21{typ: typ, body: body, crc: sym.U32("crc"), at: len(data)}
		cs, data = append(cs, c), append(data, c.bytes()...)
	}
	add("IHDR", sym.Bytes("ihdr", 13))
	for i := 0; i < n; i++ {
		switch {
		case kind == 0 || kind == 3 && i%3 == 1:
			add("IDAT", sym.Bytes("body", i%3))
		case kind == 1 || kind == 3 && i%3 == 2:
			t := string([]byte{'a' + byte(i/26%26), 'a' + byte(i%26), 'X', 'z'})
			seen[t] = true
			add(t, sym.Bytes("body", (i+1)%3))
		case kind == 2:
			add("IEND", nil)
		case kind == 4 && i == n/2:
			add("IDAT", sym.Bytes("body", 5*n))
		case kind == 4:
			add("tEXt", sym.Bytes("body", 1))
		default:
			add("IHDR", sym.Bytes("ihdr", 13))
		}
	}
	if sym.Choose("end", 2) == 1 {
		add("IEND", nil)
	}
	var f png.File
	err := restruct.Unpack(data, binary.BigEndian, &f)
	sym.Observe("err", err)
	sym.Assert(err == nil, "a well-formed file decodes")
	sym.Assert(sym.EqBytes(f.Magic[:], magic), "the signature is kept")
	sym.Assert(len(f.Chunks) == len(cs)-1, "every chunk is decoded")
	cs[0].check(&f.Header)
	for i := range f.Chunks {
		cs[i+1].check(&f.Chunks[i])
	}
	sz, err := restruct.SizeOf(&f)
	sym.Assert(err == nil && sz == len(data), "SizeOf is the size of the file")
	out, err := restruct.Pack(binary.BigEndian, &f)
	sym.Assert(err == nil, "a decoded file encodes")
	sym.Assert(sym.EqBytes(out, data), "a decoded file encodes to the same bytes")
	cut := []int{1, 4, 5}[sym.Choose("cut", 3)]
	err = restruct.Unpack(data[:len(data)-cut], binary.BigEndian, &f)
	sym.Assert(err != nil, "a file cut off is an error")
}

package h

import (
	"encoding/binary"

	"github.com/go-restruct/restruct"
	"verif/harness/sym"
)

type smoke struct {
	A uint8
	B uint16
	C int32 `struct:"int32,little"`
	N uint8 `struct:"sizeof=D"`
	D []uint16
}

func S00_Pack() {
	v := smoke{A: sym.U8("a"), B: sym.U16("b"), C: sym.I32("c"), D: []uint16{sym.U16("d0"), sym.U16("d1")}}
	data, err := restruct.Pack(binary.BigEndian, &v)
	sym.Observe("data", data)
	sym.Observe("err", err)
	sym.Assert(err == nil, "pack succeeds")
	var w smoke
	err = restruct.Unpack(data, binary.BigEndian, &w)
	sym.Assert(err == nil, "unpack succeeds")
	sym.Assert(sym.Same(v, w), "round trip")
	sym.Observe("w", w)
}

func S00_Unpack() {
	data := sym.Bytes("data", 12)
	var w smoke
	err := restruct.Unpack(data, binary.BigEndian, &w)
	sym.Observe("err", err)
	sym.Observe("w", w)
}

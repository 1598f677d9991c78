#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (one property per line)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d["anchors"]["state"]=[dict(name=n,meaning=m) for n,m in state]
    P.append(d)
RT=["decoder.go","encoder.go","structstack.go","field.go","packing.go"]
p("C01","Unpack of Pack returns the packed value",
  "For every struct type built from the documented field kinds and tags, and every value of it that its wire format can represent (counts consistent, values fit their declared width, fixed strings fit and hold no NUL), Pack succeeds and Unpack of the produced bytes into a fresh value succeeds and yields an equal value. This holds in both byte orders and is bit exact for floats other than signalling NaNs.",
  ["inputs","programs"],"all field values of all layouts assembled from the field descriptors, within the stated number of fields and elements",
  "TestPack/TestUnpack compare some thirty fixed value/byte pairs; no test varies the value of a layout or composes two features in one struct.",
  RT,[("decoder.read","decoder.go"),("encoder.write","encoder.go"),("fieldsFromStruct","field.go")])
p("C02","Pack reproduces the bytes that Unpack accepted",
  "For every layout whose every bit is significant (no padding, skips, fixed strings or bools) and every input of the exact encoded length, Pack of the unpacked value is byte-for-byte the input. Where a layout has don't-care bits, unpack-pack-unpack gives the same value and pack-unpack-pack the same bytes.",
  ["inputs","programs"],"all input byte strings of the layout's length",
  "The tests fix the bytes of each example; the data direction is never varied.",
  RT,[("decoder.read","decoder.go"),("encoder.write","encoder.go")])
p("C03","SizeOf, BitSize, len(Pack) and Unpack consumption agree",
  "For every value Pack accepts, SizeOf equals len of Pack's result, BitSize rounds up to it, and Unpack of those bytes consumes exactly that much: with trailing bytes the result is the same, and with one byte fewer it fails whenever the last byte carries data. A type Pack can encode never makes SizeOf or BitSize fail.",
  ["inputs","programs"],"all values of all layouts within the stated sizes, including skips, bitfields, conditionals, nested, pointer and variable-size elements",
  "Each example asserts one size; sizes that depend on values (if, bits, size, switch, slices of non-fixed structs) are sampled once.",
  ["structstack.go","field.go","packing.go"],[("fieldbits","structstack.go"),("isTypeTrivial","field.go")])
p("C04","Byte order: argument, tag override and scoping",
  "Every multi-byte scalar is laid out in the order given to Pack or Unpack unless its field, or the closest enclosing tagged struct, array, slice or pointer field, carries a byte-order tag; an override ends with the field that carries it. Encoder and decoder agree on this for every nesting.",
  ["inputs","programs"],"all values; all assignments of {none, big, little} to the fields of nested layouts within the stated depth",
  "Tests use two or three fixed nestings of orders.",
  RT,[("f.Order handling","decoder.go, encoder.go"),("opts.parse order keywords","tag.go")])
p("C05","Bitfields occupy exactly their declared bits, MSB first",
  "A run of bitfields is laid out most significant bit first and back to back: packing puts each field's low w bits at exactly its own bit positions and changes no other, unpacking reads exactly those bits, zero-extended for unsigned and sign-extended for signed fields. Bits of a value above the declared width never reach a neighbouring field.",
  ["inputs","programs"],"all values and input bytes; widths 1..N-1 of each integer type at every bit offset, within runs of the stated number of fields",
  "Tests fix eight fields of widths 3,2,3,... with one byte pattern each.",
  ["decoder.go","encoder.go","structstack.go"],[("readBits/putBit/extend*","decoder.go"),("writeBits/getBit","encoder.go")])
p("C06","Boolean encodings, variantbool and invertedbool",
  "A bool packs as 1 for true and 0 for false in the width of its wire type, as all ones for true with variantbool, and with true and false exchanged with invertedbool; any non-zero wire value unpacks as true (false when inverted). Both flags combine.",
  ["inputs","programs"],"all wire values of every integer wire type up to 64 bits and both bool values, for every flag combination and bitfield width",
  "Tests decode 0, 1 and -1 for a handful of types.",
  ["decoder.go","encoder.go","tag.go"],[("setUint/setInt","decoder.go"),("intFromField/uintFromField","encoder.go")])
p("C07","sizeof and sizefrom counts govern the variable-length field",
  "Packing stores in the count field the element count of the slice or string it is tied to, and unpacking reads exactly that many elements for it, for every integer count type in either tag direction and wherever the fields sit among ignored, unexported and padding fields. A length that does not fit the count type, or a negative decoded count, is an error rather than a silently different length.",
  ["inputs","programs"],"all count values and contents within the stated lengths; all count types; both tag directions",
  "Tests use one or two lengths with one count type.",
  RT,[("SIndex/TIndex linkage","field.go"),("alen computation","decoder.go"),("TIndex store","encoder.go")])
p("C08","Unpack on arbitrary or truncated data fails cleanly",
  "For every byte slice, however short or malformed, Unpack into a valid target returns nil or an error: it never panics, never reads past the slice, never writes to it and always terminates. Data too short for a field the layout requires is reported as an error, and never yields a nil error with made-up content (missing trailing padding bits of a last byte excepted).",
  ["inputs"],"all byte strings up to the stated length for a family of layouts with counts, strings, bitfields, expressions and nesting",
  "Tests truncate one or two examples at one point each.",
  ["packing.go","decoder.go"],[("recover in Unpack","packing.go"),("readBits/readBytes/skipBits","decoder.go")])
p("C09","Padding and skip: exact width, zero on pack, ignored on unpack",
  "A field named _ takes exactly the bits of its type and skip=N exactly N bytes before its field; on packing those bits are zero, on unpacking their content never influences any field. Following fields start at the exact bit position, whatever padding preceded. Data that lacks whole bytes of padding or of a skip is an error.",
  ["inputs","programs"],"all padding contents and field values; padding of every fixed type and bit width; skips up to the stated count on every field kind",
  "Tests use fixed padding bytes.",
  ["decoder.go","encoder.go","structstack.go"],[("skipBits","decoder.go, encoder.go"),("skipBits in fieldbits","structstack.go")])
p("C10","Custom Packer, Unpacker, Sizer and BitSizer are honoured everywhere",
  "A type implementing the custom interfaces (with value or pointer receiver, directly, as field, element, or behind a pointer) is packed and unpacked by exactly its own methods, which get the remaining buffer and the byte order in force, and its reported size is what is reserved. The error it returns is the error the caller gets, and what follows it starts exactly where it stopped.",
  ["inputs","programs"],"all payloads up to the stated length, all error/no-error outcomes, positions in nested layouts",
  "One test type with one payload.",
  RT,[("packer/unpacker/sizer/bitSizer","encoder.go, decoder.go, field.go")])
p("C11","Expression tags: if, size, bits, in, out, while mean what they say",
  "With expressions enabled, a field with if= is present exactly when its expression is true, size= and bits= give the length and width, while= reads elements exactly while its expression holds, out= gives the packed and in= the unpacked value; each is evaluated against the enclosing struct's current field values in both directions. With expressions disabled, or on an expression of the wrong type or an evaluation failure, the operation returns an error.",
  ["inputs","programs"],"all values of the fields the expressions read, within the stated lengths",
  "Tests evaluate each tag on one or two values.",
  ["structstack.go","decoder.go","encoder.go"],[("evalIf/evalSize/evalBits/evalWhile","structstack.go"),("Resolve","structstack.go")])
p("C12","switch selects exactly the matching case, else the default",
  "A switch field encodes, sizes and decodes exactly its first case whose value equals the switch value, or the default when none does, or nothing; on unpacking all other cases are zeroed. Packing, sizing and unpacking always agree on the choice.",
  ["inputs","programs"],"all switch values; integer, string and bool discriminators; cases in every order with and without default",
  "Tests take one matching value per case.",
  ["decoder.go","encoder.go","structstack.go"],[("switc","decoder.go, encoder.go"),("switcbits","structstack.go")])
p("C13","root and parent fields refer to the enclosing structures",
  "While a structure is packed, sized or unpacked, a root field points to the outermost structure and a parent field to the nearest enclosing structure of its type, so expressions through them read the live values; neither takes space on the wire. Pointers are set to the very objects being processed.",
  ["inputs","programs"],"all values, nesting up to the stated depth",
  "One nesting is tested.",
  ["structstack.go","decoder.go","encoder.go"],[("setancestor/root/ancestor","structstack.go")])
p("C14","Struct tag syntax: documented options have their effect, bad tags error",
  "For every tag string, using a struct carrying it returns normally or with an error, never panics and never hangs; every documented option has its documented effect in whatever order and combination it appears, and a malformed tag (unknown option, bad identifier, bad number, trailing text, bit width out of range, unbalanced expression) is rejected.",
  ["inputs"],"all tag strings up to the stated length over all bytes, and all option permutations of the documented grammar",
  "The tests list about forty fixed tags.",
  ["tag.go","typestr.go","field.go"],[("tagOptions.parse","tag.go"),("parseType","typestr.go")])
p("C15","Ignored, unexported and skipped fields are invisible",
  "A field tagged - or unexported neither takes space nor is read or written, wherever it stands: the bytes, sizes and decoded values of all other fields are those of the same struct without it.",
  ["inputs","programs"],"all values; ignored or unexported fields of any type inserted at each position of the layouts, also next to linked count fields",
  "One example has an unexported field.",
  ["field.go","decoder.go","encoder.go"],[("fieldsFromStruct skipping","field.go")])
p("C16","Expression grammar: precedence, associativity, grouping",
  "Every well-formed expression groups its operators as Go does (five binary levels, left associative, unary binding tightest, then the right-associative ternary ?: below them) whatever the spacing; parentheses override it and never change meaning otherwise. Every documented operator is accepted.",
  ["inputs","programs"],"all pairs and triples of binary operators with symbolic operands, all unary prefixes, with and without blanks and parentheses",
  "Parser tests list ten token sequences.",
  ["expr/parse.go","expr/lex.go","expr/eval.go"],[("parseexpr","expr/parse.go"),("scan","expr/lex.go")])
p("C17","Expression arithmetic is Go arithmetic",
  "On operands of one Go type every operator computes exactly what Go computes for that type, with its wrap-around, signedness, shifts (by unsigned or constant counts) and IEEE semantics, and yields a value of that type (bool for comparisons); strings concatenate, compare for equality and index. Operators not defined for the operand type, mixed typed operands and division by zero give an error.",
  ["inputs"],"all operand values of all thirteen integer/float types, plus bool and string, for all operators",
  "Value tests check one or two operand pairs per operator.",
  ["expr/value.go"],[("val.Add ... val.AndNot","expr/value.go")])
p("C18","Literals denote their Go value and adapt to the other operand",
  "Integer (decimal, octal, hex, binary), float, rune, string and bool literals denote the value Go gives them, and an untyped integer or rune literal used with a typed numeric operand (a float literal with a float operand) takes that operand's type with its value preserved when representable. Named types behave as their underlying primitive type.",
  ["inputs"],"all literals up to the stated number of digits and escapes, combined with every typed operand",
  "Fixed literals only.",
  ["expr/lex.go","expr/value.go","expr/type.go"],[("scannumber/scanstring/scanrune","expr/lex.go"),("promote/coerce/assignable","expr/value.go")])
p("C19","Evaluating any expression source terminates without panicking",
  "For every source string and every resolver contents, parsing and evaluating terminate and the evaluation entry point returns a value or an error: it never panics, hangs or grows without bound.",
  ["inputs"],"all source strings up to the stated length over all bytes, and all token sequences up to the stated count",
  "Tests cover well-formed strings.",
  ["expr/lex.go","expr/parse.go","expr/eval.go"],[("Eval/EvalProgram","expr/eval.go"),("scan","expr/lex.go")])
p("C20","Member, index, call, pointer access and name resolution",
  "Identifiers resolve in the documented precedence (built-ins, then the enclosing struct's fields; earlier resolvers before later ones); field selection, indexing, dereference and calls yield exactly the Go value selected. Unknown names or fields, out-of-range indices, nil dereferences and bad arguments give an error.",
  ["inputs","programs"],"all index values, contents and arguments within the stated sizes; every function of the bits package on every argument",
  "One lookup per kind is tested.",
  ["expr/env.go","expr/value.go","expr_19.go"],[("Dot/Index/Call/Deref","expr/value.go"),("Resolve","structstack.go, expr/env.go")])
p("C21","PNG container: decoded chunks re-encode to the same file",
  "For every byte string that is a well-formed sequence of length/type/data/CRC chunks after the signature, unpacking as a PNG file yields those chunks with their exact fields and packing gives back the identical bytes; malformed input gives an error.",
  ["inputs"],"all headers, chunk types, lengths and contents within the stated number of chunks and bytes",
  "One 8x8 test image.",
  ["formats/png/png.go","decoder.go","encoder.go"],[("File/Chunk","formats/png/png.go")])
p("C22","Results do not depend on what was processed before",
  "The result of a Pack, Unpack, SizeOf or BitSize call depends only on its arguments: it is the same whatever types, values and failures the same process handled before, and repeating a call repeats its result.",
  ["histories"],"all sequences of the stated number of earlier calls (over a set of types sharing names, elements and tags, including failing calls) with arbitrary values",
  "Each test is one call; the type caches are always warm or cold by accident of test order.",
  ["field.go","expr/type.go"],[("fieldCache","field.go"),("typemap","expr/type.go")])
p("C23","Pack and SizeOf leave the value alone; Unpack leaves unrelated data alone",
  "SizeOf, BitSize and Pack do not change the value except for the documented count and parent/root fields, and Pack's result shares no memory with the value; Unpack writes only the fields its layout covers, replaces their earlier content completely and never modifies its input.",
  ["inputs","histories"],"all values and earlier target contents within the stated sizes",
  "Tests always unpack into zero values and never re-inspect inputs.",
  ["encoder.go","decoder.go","structstack.go"],[("encoder.write","encoder.go"),("decoder.read","decoder.go")])
p("C24","Concurrent use is safe and equals sequential use",
  "Goroutines packing, unpacking and evaluating expressions on their own values at the same time, whatever types they share and however they interleave, are free of data races and deadlocks and each gets the result it would get alone.",
  ["schedules"],"all interleavings at synchronisation granularity of the stated number of goroutines and calls, starting from cold caches",
  "No test starts a goroutine.",
  ["field.go","expr/type.go"],[("fieldCache/cacheMutex","field.go"),("typemap/typemutex","expr/type.go")])
p("C25","Passing a value or a pointer gives the same result",
  "Pack, SizeOf and BitSize give the same result for a value and a pointer to it, for structs holding any field kind; Unpack into a target it cannot set returns an error instead of silently doing nothing.",
  ["inputs","programs"],"all values of the layout family, passed by value and by pointer",
  "Tests pass by value only where it happens to work.",
  ["packing.go","encoder.go"],[("fieldFromIntf","packing.go"),("CanSet handling","encoder.go, decoder.go")])
p("C26","Pointer fields are laid out as what they point to",
  "A pointer field encodes, sizes and decodes exactly as its element type would in its place; decoding allocates a fresh element. A nil pointer takes no space and disturbs nothing else; recursive types work up to a fixed nesting limit of ten thousand, beyond which, and for cyclic values, there is an error, never a crash.",
  ["inputs","programs"],"all element values; pointers to scalars, structs, in arrays and slices, recursive types within the stated depth",
  "Two examples use pointers.",
  RT,[("reflect.Ptr cases","decoder.go, encoder.go, structstack.go")])
p("C27","Fixed-size strings and byte arrays",
  "A string with wire type [N]byte packs as its bytes padded with NULs to N and unpacks as the bytes before the first NUL (all N when none); a byte slice, byte array or string field copies its bytes exactly, at any bit offset, in either byte order. A string longer than N is an error.",
  ["inputs","programs"],"all contents and lengths up to the stated N, at every bit offset",
  "Two fixed strings are tested.",
  ["decoder.go","encoder.go"],[("readBytes and C-string decode","decoder.go"),("array/slice/string encode","encoder.go")])
p("C28","Wire type and Go type may differ: values convert as integers do",
  "When a tag gives an integer field another wire width of the same signedness (also in arrays, slices and nested element types), packing writes the low bits of the value in the wire width and unpacking returns the wire value sign- or zero-extended to the Go type; an incompatible combination gives an error.",
  ["inputs","programs"],"all values of all (wire type, Go type) pairs within the stated sizes",
  "A few pairs with one value each.",
  ["decoder.go","encoder.go","field.go"],[("BinaryType/NativeType","field.go")])
out=os.path.join(os.path.dirname(__file__),"..","properties.jsonl")
with open(out,"w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P))

// Code generated by gen.sh. DO NOT EDIT.
package main

import "verif/harness/h"

var table = map[string]func(){
	"C01_Deep":          h.C01_Deep,
	"C01_Expr":          h.C01_Expr,
	"C01_ExprNested":    h.C01_ExprNested,
	"C01_Large":         h.C01_Large,
	"C01_Longer":        h.C01_Longer,
	"C01_Mixed":         h.C01_Mixed,
	"C01_Nested":        h.C01_Nested,
	"C01_Pairs":         h.C01_Pairs,
	"C01_Skip":          h.C01_Skip,
	"C01_Slices":        h.C01_Slices,
	"C01_Triples_T":     h.C01_Triples_T,
	"C02_Lossy":         h.C02_Lossy,
	"C02_Many":          h.C02_Many,
	"C02_Mixed":         h.C02_Mixed,
	"C02_Nested":        h.C02_Nested,
	"C02_Pairs":         h.C02_Pairs,
	"C02_Triples_T":     h.C02_Triples_T,
	"C02_Var":           h.C02_Var,
	"C03_Casts":         h.C03_Casts,
	"C03_Deep":          h.C03_Deep,
	"C03_Expr":          h.C03_Expr,
	"C03_ExprNested":    h.C03_ExprNested,
	"C03_FloatBits":     h.C03_FloatBits,
	"C03_Large":         h.C03_Large,
	"C03_Mixed":         h.C03_Mixed,
	"C03_Nested":        h.C03_Nested,
	"C03_Nil":           h.C03_Nil,
	"C03_Padded":        h.C03_Padded,
	"C03_Pairs":         h.C03_Pairs,
	"C03_Skip":          h.C03_Skip,
	"C03_Triples_T":     h.C03_Triples_T,
	"C04_Absent":        h.C04_Absent,
	"C04_Deep":          h.C04_Deep,
	"C04_Flat":          h.C04_Flat,
	"C04_Kinds":         h.C04_Kinds,
	"C04_Many":          h.C04_Many,
	"C04_Mixed":         h.C04_Mixed,
	"C04_Names":         h.C04_Names,
	"C04_Nested":        h.C04_Nested,
	"C04_Own":           h.C04_Own,
	"C04_Switch":        h.C04_Switch,
	"C05_Data":          h.C05_Data,
	"C05_Many":          h.C05_Many,
	"C05_Overflow":      h.C05_Overflow,
	"C05_Runs":          h.C05_Runs,
	"C05_Widths":        h.C05_Widths,
	"C06_Bits":          h.C06_Bits,
	"C06_Many":          h.C06_Many,
	"C06_Mixed":         h.C06_Mixed,
	"C06_Places":        h.C06_Places,
	"C06_Types":         h.C06_Types,
	"C07_Decode":        h.C07_Decode,
	"C07_Layouts":       h.C07_Layouts,
	"C07_Many":          h.C07_Many,
	"C07_Overflow":      h.C07_Overflow,
	"C07_Pairs":         h.C07_Pairs,
	"C07_Several":       h.C07_Several,
	"C08_Counts":        h.C08_Counts,
	"C08_Deep":          h.C08_Deep,
	"C08_Large":         h.C08_Large,
	"C08_Mixed":         h.C08_Mixed,
	"C08_Pairs":         h.C08_Pairs,
	"C08_Parents":       h.C08_Parents,
	"C08_Short":         h.C08_Short,
	"C08_Top":           h.C08_Top,
	"C08_Types":         h.C08_Types,
	"C08_While":         h.C08_While,
	"C09_Many":          h.C09_Many,
	"C09_Mixed":         h.C09_Mixed,
	"C09_Pads":          h.C09_Pads,
	"C09_Skip":          h.C09_Skip,
	"C09_SkipEnd":       h.C09_SkipEnd,
	"C09_SkipVar":       h.C09_SkipVar,
	"C09_Two":           h.C09_Two,
	"C10_Everywhere":    h.C10_Everywhere,
	"C10_Following":     h.C10_Following,
	"C10_Kinds":         h.C10_Kinds,
	"C10_Many":          h.C10_Many,
	"C10_Nested":        h.C10_Nested,
	"C10_Sizes":         h.C10_Sizes,
	"C10_Tags":          h.C10_Tags,
	"C10_Top":           h.C10_Top,
	"C11_Bits":          h.C11_Bits,
	"C11_BitsKinds":     h.C11_BitsKinds,
	"C11_BitsRange":     h.C11_BitsRange,
	"C11_Composite":     h.C11_Composite,
	"C11_CountInOut":    h.C11_CountInOut,
	"C11_Deep":          h.C11_Deep,
	"C11_Disabled":      h.C11_Disabled,
	"C11_Elements":      h.C11_Elements,
	"C11_Errors":        h.C11_Errors,
	"C11_If":            h.C11_If,
	"C11_InOut":         h.C11_InOut,
	"C11_InOutKinds":    h.C11_InOutKinds,
	"C11_Invalid":       h.C11_Invalid,
	"C11_Many":          h.C11_Many,
	"C11_Scope":         h.C11_Scope,
	"C11_Size":          h.C11_Size,
	"C11_SizeRange":     h.C11_SizeRange,
	"C11_While":         h.C11_While,
	"C11_WhileCond":     h.C11_WhileCond,
	"C11_WrongKinds":    h.C11_WrongKinds,
	"C12_Bad":           h.C12_Bad,
	"C12_Conds":         h.C12_Conds,
	"C12_Expr":          h.C12_Expr,
	"C12_Float":         h.C12_Float,
	"C12_Int":           h.C12_Int,
	"C12_Many":          h.C12_Many,
	"C12_Nested":        h.C12_Nested,
	"C12_Str":           h.C12_Str,
	"C12_Tags":          h.C12_Tags,
	"C13_Alike":         h.C13_Alike,
	"C13_Deep":          h.C13_Deep,
	"C13_Embedded":      h.C13_Embedded,
	"C13_Far":           h.C13_Far,
	"C13_Kinds":         h.C13_Kinds,
	"C13_Links":         h.C13_Links,
	"C13_Live":          h.C13_Live,
	"C13_NoMatch":       h.C13_NoMatch,
	"C13_Stale":         h.C13_Stale,
	"C14_Any":           h.C14_Any,
	"C14_Array":         h.C14_Array,
	"C14_ArrayLen":      h.C14_ArrayLen,
	"C14_Bits":          h.C14_Bits,
	"C14_Bool":          h.C14_Bool,
	"C14_Both":          h.C14_Both,
	"C14_From":          h.C14_From,
	"C14_Ident":         h.C14_Ident,
	"C14_Many":          h.C14_Many,
	"C14_NoBits":        h.C14_NoBits,
	"C14_Number":        h.C14_Number,
	"C14_Quoted":        h.C14_Quoted,
	"C14_Skip":          h.C14_Skip,
	"C14_SkipSize":      h.C14_SkipSize,
	"C14_Slice":         h.C14_Slice,
	"C14_Trailing":      h.C14_Trailing,
	"C14_Types":         h.C14_Types,
	"C14_Unbalanced":    h.C14_Unbalanced,
	"C14_WordTails":     h.C14_WordTails,
	"C14_Words":         h.C14_Words,
	"C15_Declared":      h.C15_Declared,
	"C15_Embedded":      h.C15_Embedded,
	"C15_Kept":          h.C15_Kept,
	"C15_Kinds":         h.C15_Kinds,
	"C15_Many":          h.C15_Many,
	"C15_Mixed":         h.C15_Mixed,
	"C15_Nested":        h.C15_Nested,
	"C15_Places":        h.C15_Places,
	"C16_Bad":           h.C16_Bad,
	"C16_Levels":        h.C16_Levels,
	"C16_Long":          h.C16_Long,
	"C16_Pairs":         h.C16_Pairs,
	"C16_Parens":        h.C16_Parens,
	"C16_Postfix":       h.C16_Postfix,
	"C16_Ternary":       h.C16_Ternary,
	"C16_Triples_T":     h.C16_Triples_T,
	"C16_Unary":         h.C16_Unary,
	"C17_Binary":        h.C17_Binary,
	"C17_Bool":          h.C17_Bool,
	"C17_Composite":     h.C17_Composite,
	"C17_Mixed":         h.C17_Mixed,
	"C17_Nil":           h.C17_Nil,
	"C17_Same":          h.C17_Same,
	"C17_Shift":         h.C17_Shift,
	"C17_ShiftConst":    h.C17_ShiftConst,
	"C17_String":        h.C17_String,
	"C17_Unary":         h.C17_Unary,
	"C18_Consts":        h.C18_Consts,
	"C18_Extremes":      h.C18_Extremes,
	"C18_Float":         h.C18_Float,
	"C18_FloatDigits":   h.C18_FloatDigits,
	"C18_FloatInt":      h.C18_FloatInt,
	"C18_Int":           h.C18_Int,
	"C18_Keyword":       h.C18_Keyword,
	"C18_Long":          h.C18_Long,
	"C18_Named":         h.C18_Named,
	"C18_NamedOther":    h.C18_NamedOther,
	"C18_Rune":          h.C18_Rune,
	"C18_RuneTyped":     h.C18_RuneTyped,
	"C18_String":        h.C18_String,
	"C18_Typed":         h.C18_Typed,
	"C19_Around":        h.C19_Around,
	"C19_Bytes":         h.C19_Bytes,
	"C19_Deep":          h.C19_Deep,
	"C19_Kinds":         h.C19_Kinds,
	"C19_Program":       h.C19_Program,
	"C19_Recursive":     h.C19_Recursive,
	"C19_Resolvers":     h.C19_Resolvers,
	"C19_Tokens":        h.C19_Tokens,
	"C19_Tokens4":       h.C19_Tokens4,
	"C19_Tokens5_T":     h.C19_Tokens5_T,
	"C19_Truncated":     h.C19_Truncated,
	"C19_Unary":         h.C19_Unary,
	"C19_Unknown":       h.C19_Unknown,
	"C20_Args":          h.C20_Args,
	"C20_Bits":          h.C20_Bits,
	"C20_Builtin":       h.C20_Builtin,
	"C20_Call":          h.C20_Call,
	"C20_Changing":      h.C20_Changing,
	"C20_Dot":           h.C20_Dot,
	"C20_Eof":           h.C20_Eof,
	"C20_Index":         h.C20_Index,
	"C20_IndexConst":    h.C20_IndexConst,
	"C20_Ref":           h.C20_Ref,
	"C20_ResolverKinds": h.C20_ResolverKinds,
	"C20_Resolvers":     h.C20_Resolvers,
	"C20_Scope":         h.C20_Scope,
	"C20_Types":         h.C20_Types,
	"C21_Arbitrary":     h.C21_Arbitrary,
	"C21_Build":         h.C21_Build,
	"C21_File":          h.C21_File,
	"C21_Lengths":       h.C21_Lengths,
	"C21_Many":          h.C21_Many,
	"C21_Truncated":     h.C21_Truncated,
	"C22_All":           h.C22_All,
	"C22_Containers":    h.C22_Containers,
	"C22_Expr":          h.C22_Expr,
	"C22_ExprTags":      h.C22_ExprTags,
	"C22_ExprValues":    h.C22_ExprValues,
	"C22_Failed":        h.C22_Failed,
	"C22_Mixed":         h.C22_Mixed,
	"C22_Others":        h.C22_Others,
	"C22_Pairs":         h.C22_Pairs,
	"C22_Program":       h.C22_Program,
	"C22_Repeat":        h.C22_Repeat,
	"C22_SameName":      h.C22_SameName,
	"C22_Tags":          h.C22_Tags,
	"C23_Bare":          h.C23_Bare,
	"C23_Cases":         h.C23_Cases,
	"C23_Counts":        h.C23_Counts,
	"C23_Eval":          h.C23_Eval,
	"C23_Expr":          h.C23_Expr,
	"C23_Failing":       h.C23_Failing,
	"C23_Input":         h.C23_Input,
	"C23_Many":          h.C23_Many,
	"C23_Mixed":         h.C23_Mixed,
	"C23_MixedOver":     h.C23_MixedOver,
	"C23_Neighbours":    h.C23_Neighbours,
	"C23_Pure":          h.C23_Pure,
	"C23_Replace":       h.C23_Replace,
	"C23_Spare":         h.C23_Spare,
	"C23_Strings":       h.C23_Strings,
	"C24_Eval":          h.C24_Eval,
	"C24_ExprTags":      h.C24_ExprTags,
	"C24_Failing":       h.C24_Failing,
	"C24_Png":           h.C24_Png,
	"C24_Related":       h.C24_Related,
	"C24_Same":          h.C24_Same,
	"C24_Three":         h.C24_Three,
	"C24_Types":         h.C24_Types,
	"C24_Warm":          h.C24_Warm,
	"C25_Bad":           h.C25_Bad,
	"C25_Containers":    h.C25_Containers,
	"C25_Counts":        h.C25_Counts,
	"C25_Custom":        h.C25_Custom,
	"C25_Exprs":         h.C25_Exprs,
	"C25_Kinds":         h.C25_Kinds,
	"C25_Many":          h.C25_Many,
	"C25_Methods":       h.C25_Methods,
	"C25_Mixed":         h.C25_Mixed,
	"C25_Pairs":         h.C25_Pairs,
	"C25_Targets":       h.C25_Targets,
	"C25_Unpackers":     h.C25_Unpackers,
	"C26_Cycles":        h.C26_Cycles,
	"C26_Fresh":         h.C26_Fresh,
	"C26_InPlace":       h.C26_InPlace,
	"C26_List":          h.C26_List,
	"C26_ListData":      h.C26_ListData,
	"C26_Many":          h.C26_Many,
	"C26_Nil":           h.C26_Nil,
	"C26_NilKinds":      h.C26_NilKinds,
	"C26_Over":          h.C26_Over,
	"C26_Plain":         h.C26_Plain,
	"C26_Top":           h.C26_Top,
	"C26_Tree":          h.C26_Tree,
	"C26_Wide":          h.C26_Wide,
	"C27_Alias":         h.C27_Alias,
	"C27_Fixed":         h.C27_Fixed,
	"C27_Large":         h.C27_Large,
	"C27_Last":          h.C27_Last,
	"C27_Long":          h.C27_Long,
	"C27_Raw":           h.C27_Raw,
	"C27_Short":         h.C27_Short,
	"C27_Size":          h.C27_Size,
	"C27_Strings":       h.C27_Strings,
	"C27_Two":           h.C27_Two,
	"C27_Var":           h.C27_Var,
	"C27_While":         h.C27_While,
	"C27_Wide":          h.C27_Wide,
	"C28_Counts":        h.C28_Counts,
	"C28_Data":          h.C28_Data,
	"C28_Deep":          h.C28_Deep,
	"C28_Floats":        h.C28_Floats,
	"C28_Incompatible":  h.C28_Incompatible,
	"C28_Ints":          h.C28_Ints,
	"C28_Many":          h.C28_Many,
	"C28_Unaligned":     h.C28_Unaligned,
	"S00_Pack":          h.S00_Pack,
	"S00_Unpack":        h.S00_Unpack,
	"S01_Std":           h.S01_Std,
}

package zzh

import "github.com/alexZaicev/go-vtd-xml/vtdxml/zzsym"

// Documents in which one thing is long or occurs often: the unit is repeated
// at the '%', every '#' is an arbitrary byte.
var sizedCtx = []struct{ unit, doc string }{
	{"<!--x-->", "%<r><a#/></r>"},
	{"<?p q?>", "%<r>#<a/></r>"},
	{" ", "%<r#/>"},
	{"\n", "<?xml version='1.0'?>%<#/>"},
	{"x", "<!--%#--><r/>"},
	{"x", "<r><!--%#-->y<a/></r>"},
	{"x", "<r><!--%-->#y<a/></r>"},
	{"x", "<r/><!--%#-->"},
	{"x", "<r><![CDATA[%#]]>y</r>"},
	{"]", "<r><![CDATA[%#]]>#y</r>"},
	{"x", "<r>%#<a/></r>"},
	{"x", "<r>%<#a/>%<a/></r>"},
	{" ", "<r>%#<a/></r>"},
	{" ", "<r>%<#a/>%x</r>"},
	{"&lt;", "<r>%#</r>"},
	{"\xC3\xA9", "<r>%#</r>"},
	{"x", "<r a='%#' b='y'>#</r>"},
	{"&#65;", "<r a='%#'/>"},
	{"\xE4\xB8\xAD", "<r a=\"%#\" b='#'/>"},
	{" ", "<r%a#='b'/>"},
	{" ", "<r a%=#'b'/>"},
	{" ", "<r a=%'#'/>"},
	{" ", "<r a='b'%#/>"},
	{"x", "<r><?p %#?>y</r>"},
	{" ", "<r><?p%#?>y</r>"},
	{"p", "<r><?%# q?>y</r>"},
	{"x", "<r/><?p %#?>"},
	{"p", "<r/><?%#?>"},
	{"?", "<r/><?p %#?>"},
	{"?", "<r><?p %#?></r>"},
	{"x", "<!DOCTYPE r [%#]><r/>"},
	{"<!ENTITY a 'b'>", "<!DOCTYPE r [%#]><r/>"},
	{"<!ENTITY a 'b>", "<!DOCTYPE r [<!--%#-->]><r#/>"},
	{"<a/>", "<r>%<b#/></r>"},
	{"<a b='c'/>", "<r>%#</r>"},
	{"<a><b/></a>", "<r><s>%<c#/></s></r>"},
	{"<a>x</a>", "<r>%</#>"},
	{"<a><b><c><d/></c></b></a>", "<r>%#</r>"},
	{"<!--x-->", "<r/>%<#"},
	{"<?p?>", "<r/>%#"},
	{"\n", "<r/>%<#"},
	{" ", "<r><a%/>#</r>"},
	{" ", "<r></r%#>"},
	{" ", "<?xml version='1.0'%#?><r/>"},
	{" ", "<?xml version%='1.#'?><r/>"},
	{"<![CDATA[x]]>", "<r>%#</r>"},
	{"<![CDATA[]]>y", "<r>%#</r>"},
}

var sizedLens = []int{300, 65, 129, 2, 17, 33, 64, 127, 257, 513, 1025, 3, 9, 15, 16, 31, 32, 63, 128, 255, 256, 258, 511, 512, 767, 1023, 1024, 2047, 2048, 2049, 4095, 4096, 4097, 8193, 16385}

// sized is one of the documents; quick is the number of sizes of the quick tier
func sized(quick int) []byte {
	x := sizedCtx[zzsym.Choose("ctx", len(sizedCtx))]
	n := sizedLens[zzsym.Choose("n", tier(quick, len(sizedLens)))]
	zzsym.Assume(n < 2048 || x.unit != "p")
	var b []byte
	for i := 0; i < len(x.doc); i++ {
		switch x.doc[i] {
		case '%':
			b = append(b, repeat(x.unit, n)...)
		case '#':
			b = append(b, zzsym.Byte("h"))
		default:
			b = append(b, x.doc[i])
		}
	}
	return b
}

// bound: 47 documents with a part of 2 to 1025 (thorough: 16385) units and 1 or 2 arbitrary bytes
func H_C01_sized() {
	b := sized(11)
	nav, err := parseDoc(b, anyConf())
	observe(err, nav)
}

// bound: 47 documents with a part of 2 to 1025 (thorough: 16385) units and 1 or 2 arbitrary bytes
func H_C02_sized() { noIllFormed(sized(11), anyNs()) }

// bound: 47 documents with a part of 2 to 1025 (thorough: 16385) units and 1 or 2 arbitrary bytes
func H_C03_sized() { acceptsWellFormed(sized(11), anyNs()) }

// bound: 47 documents with a part of 2 to 1025 (thorough: 16385) units and 1 or 2 arbitrary bytes
func H_C04_sized() { tokensExact(sized(11), anyConf()) }

// bound: 47 documents with a part of 2 to 1025 (thorough: 16385) units and 1 or 2 arbitrary bytes
func H_C33_sized() { navOnlyAfterSuccess(newParser(sized(11), conf{false, 3 + 2*zzsym.Choose("lc", 2)})) }

// bound: 47 documents with a part of 65, 129 and 300 (thorough: 2 to 16385) units and 1 or 2 arbitrary bytes
func H_C35_sized() { optionsOnly(sized(3), 1) }

// bound: 47 documents with a part of 2 to 1025 (thorough: 16385) units and 1 or 2 arbitrary bytes
func H_C36_sized() { placed(sized(11), anyConf()) }

// bound: chains of 1 to 300 elements with an attribute or a prefix, 1 arbitrary byte in the innermost, every value of the options
func H_C35_deep() {
	ns := []int{1, 5, 6, 7, 63, 64, 65, 127, 128, 129, 200, 253, 254, 255, 256, 300}
	n := ns[zzsym.Choose("n", len(ns))]
	open, closing := "<a>", "</a>"
	switch zzsym.Choose("kind", 3) {
	case 1:
		open = "<a b='c'>"
	case 2:
		open, closing = "<p:a xmlns:p='u'>", "</p:a>"
	}
	b := append([]byte(repeat(open, n)), zzsym.Byte("h"))
	optionsOnly(append(b, repeat(closing, n)...), 1)
}

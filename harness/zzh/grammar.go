package zzh

import (
	"github.com/alexZaicev/go-vtd-xml/vtdxml/zzsym"
)

// Contexts with one hole for every kind of markup and every place of it.
var grammarCtx = []ctx{
	{"", ""},
	{"", "<a/>"},
	{"<a>", "</a>"},
	{"<a ", "/>"},
	{"<a", "></a>"},
	{"<", "/>"},
	{"<", "></a>"},
	{"<a b=\"", "\"/>"},
	{"<a b='", "' c=\"x\"></a>"},
	{"<a b=\"\"", "></a>"},
	{"<a b", "c='1'/>"},
	{"<a><!--", "--></a>"},
	{"<!--", "--><a/>"},
	{"<a/><!--", "-->"},
	{"<a><?p", "?></a>"},
	{"<a><?", "?></a>"},
	{"<?p", "?><a/>"},
	{"<?", "?><a/>"},
	{"<a/><?p", "?>"},
	{"<a/><?", "?>"},
	{"<a><![CDATA[", "]]></a>"},
	{"<a><![CDATA[", "></a>"},
	{"<a><!", "></a>"},
	{"<a>x", "y</a>"},
	{"<a>]", "></a>"},
	{"<a>&", ";</a>"},
	{"<a><b/>", "</a>"},
	{"<a><b></b>", "</a>"},
	{"<a><b>", "</b></a>"},
	{"<a><!--x-->", "</a>"},
	{"<a><?p x?>", "</a>"},
	{"<a><?p?>", "</a>"},
	{"<a><![CDATA[x]]>", "</a>"},
	{"<a></", ">"},
	{"<a></a", ">"},
	{"<a>", ""},
	{"<a/>", ""},
	{"<a></a>", ""},
	{"<a/><!--x-->", ""},
	{"<a/><?p?>", ""},
	{"<a/>", "<!--x-->"},
	{"<!", "><a/>"},
	{"<!DOCTYPE", "><a/>"},
	{"<!DOCTYPE a", "><a/>"},
	{"<!DOCTYPE a [", "]><a/>"},
	{"<!DOCTYPE a>", "<a/>"},
	{"<?xml", "?><a/>"},
	{"<?xml version=\"1.0\"", "?><a/>"},
	{"<?xml version=\"1.0\"?>", "<a/>"},
	{"<?xml version=\"1.0\"?><!--x-->", "<a/>"},
	{"\xEF\xBB\xBF", "<a/>"},
}

// A document with every kind of markup.
const everything = "<?xml version=\"1.0\" encoding='utf-8' standalone=\"no\" ?>\n<!DOCTYPE a [<!ENTITY e \">\">]>" +
	"<!--c--><?p v?>\n<p:a xmlns:p=\"u\" b = '&#x41;&amp;' p:c=\"\">\r\n<p:b /> t&lt;<![CDATA[<z]]]>]]<!-- - --><?q?>" +
	"<d xmlns=\"w\"> <e f='\xC3\xA9'> </e\n></d>&#65;\xE2\x82\xAC</p:a >\n<!----><?r s?>\n"

// Small documents without an XML declaration.
var small = []string{
	"<a/>",
	"<a></a>\n",
	" <a b='1' c=\"2\"><d e=''/>x</a>",
	"<a><b>x</b>y<c>z</c></a>",
	"<!--x--><a>&amp;</a><!--y-->",
	"<?p q?><a><?r s?></a><?t u?>",
	"<!DOCTYPE a SYSTEM 'b'><a><![CDATA[x]]></a>",
}

func noIllFormed(b []byte, c conf) {
	nav, err := parseDoc(b, c)
	observe(err, nav)
	if err == nil {
		d := judge(b, 0, len(b), c.ns)
		zzsym.Assert(d.verdict != vReject, "a document that is not well-formed is rejected")
	}
}

func acceptsWellFormed(b []byte, c conf) {
	d := judge(b, 0, len(b), c.ns)
	zzsym.Assume(d.verdict == vAccept)
	nav, err := parseDoc(b, c)
	observe(err, nav)
	zzsym.Assert(err == nil, "a well-formed document is accepted")
}

func tokensExact(b []byte, c conf) {
	d := judge(b, 0, len(b), c.ns)
	zzsym.Assume(d.verdict == vAccept)
	nav, err := parseDoc(b, c)
	observe(err, nav)
	if err == nil {
		checkTokens(nav, d)
	}
}

// bothWays requires exactly the outcome of the oracle
func bothWays(b []byte, c conf) {
	nav, err := parseDoc(b, c)
	observe(err, nav)
	d := judge(b, 0, len(b), c.ns)
	if err == nil {
		zzsym.Assert(d.verdict != vReject, "a document that breaks the rule is rejected")
	} else {
		zzsym.Assert(d.verdict != vAccept, "a document that follows the rules is accepted")
	}
}

// bound: 51 contexts around a hole of 4 (thorough: 5) arbitrary bytes, with and without namespace awareness
func H_C02_hole() { noIllFormed(fill(grammarCtx, tier(4, 5)), anyNs()) }

// bound: documents of 6 (thorough: 7) arbitrary bytes
func H_C02_bytes() { noIllFormed(zzsym.Bytes("d", tier(6, 7)), anyNs()) }

// bound: a 270-byte document with every kind of markup, any 2 (thorough: 3) neighbouring bytes replaced or inserted
func H_C02_mutate() { noIllFormed(mutate(everything, tier(2, 3)), anyNs()) }

// bound: 7 small documents, any 3 (thorough: 4) neighbouring bytes replaced or inserted
func H_C02_small() { noIllFormed(mutate(small[zzsym.Choose("doc", len(small))], tier(3, 4)), anyNs()) }

// bound: the 270-byte document cut anywhere, 2 (thorough: 3) arbitrary bytes at its end
func H_C02_truncate() { noIllFormed(truncate(everything, tier(2, 3)), anyNs()) }

// bound: 51 contexts around a hole of 4 (thorough: 5) arbitrary bytes, with and without namespace awareness
func H_C03_hole() { acceptsWellFormed(fill(grammarCtx, tier(4, 5)), anyNs()) }

// bound: documents of 6 (thorough: 8) arbitrary bytes
func H_C03_bytes() { acceptsWellFormed(zzsym.Bytes("d", tier(6, 8)), anyNs()) }

// bound: a 270-byte document with every kind of markup, any 2 (thorough: 3) neighbouring bytes replaced or inserted
func H_C03_mutate() { acceptsWellFormed(mutate(everything, tier(2, 3)), anyNs()) }

// bound: 7 small documents, any 3 (thorough: 4) neighbouring bytes replaced or inserted
func H_C03_small() {
	acceptsWellFormed(mutate(small[zzsym.Choose("doc", len(small))], tier(3, 4)), anyNs())
}

// bound: 51 contexts around a hole of 4 (thorough: 5) arbitrary bytes, with and without namespace awareness
func H_C04_hole() { tokensExact(fill(grammarCtx, tier(4, 5)), anyNs()) }

// bound: a 270-byte document with every kind of markup, any 2 (thorough: 3) neighbouring bytes replaced or inserted
func H_C04_mutate() { tokensExact(mutate(everything, tier(2, 3)), anyConf()) }

// bound: 7 small documents, any 3 (thorough: 4) neighbouring bytes replaced or inserted
func H_C04_small() {
	tokensExact(mutate(small[zzsym.Choose("doc", len(small))], tier(3, 4)), anyConf())
}

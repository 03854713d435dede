package zzh

import "github.com/alexZaicev/go-vtd-xml/vtdxml/zzsym"

// exact requires the outcome of the oracle and, if the document is accepted,
// its tokens
func exact(b []byte, c conf) {
	nav, err := parseDoc(b, c)
	observe(err, nav)
	d := judge(b, 0, len(b), c.ns)
	if err != nil {
		zzsym.Assert(d.verdict != vAccept, "a document that follows the rules is accepted")
		return
	}
	zzsym.Assert(d.verdict != vReject, "a document that breaks the rule is rejected")
	if d.verdict == vAccept {
		checkTokens(nav, d)
	}
}

// ---- C08

var declDocs = []string{
	"<?xml version=\"1.0\"?><a/>",
	"<?xml version='1.1' encoding=\"utf-8\"?><a/>",
	"<?xml version='1.0' encoding='US-ASCII' standalone='yes'?><a/>",
	"<?xml version = '1.0'\tstandalone =\n\"no\" ?>\n<a/>",
	"\xEF\xBB\xBF<?xml version='1.0' encoding = 'UTF-8' standalone='no'?><a/>",
	"<?xml\r\nversion='1.1'  encoding=\"Ascii\"  ?><!--x--><a/>",
}

// bound: 6 declarations with any 3 (thorough: 4) neighbouring bytes replaced or inserted
func H_C08_mutate() {
	exact(mutate(declDocs[zzsym.Choose("doc", len(declDocs))], tier(3, 4)), anyNs())
}

// bound: 6 declarations with any 1 to 12 neighbouring bytes removed and 0 to 2 (thorough: 3) arbitrary ones in their place
func H_C08_remove() {
	t := declDocs[zzsym.Choose("doc", len(declDocs))]
	k := zzsym.Choose("at", len(t))
	n := 1 + zzsym.Choose("n", 12)
	zzsym.Assume(k+n <= len(t))
	b := cat(t[:k])
	b = append(b, zzsym.Bytes("h", zzsym.Choose("m", tier(3, 4)))...)
	exact(append(b, t[k+n:]...), anyNs())
}

// bound: every order and repetition of up to 3 of the pseudo attributes, between them 0 to 2 arbitrary bytes, at every place at which the declaration can be cut
func H_C08_order() {
	part := []string{"version='1.0'", "version=\"1.1\"", "encoding='utf-8'", "encoding=\"ASCII\"", "standalone='yes'", "standalone=\"no\""}
	b := cat("<?xml")
	n := zzsym.Choose("n", 4)
	gap := zzsym.Choose("gap", n+1)
	for i := 0; i < n; i++ {
		if i == gap {
			b = append(b, zzsym.Bytes("h", zzsym.Choose("m", 3))...)
		} else {
			b = append(b, ' ')
		}
		b = append(b, part[zzsym.Choose("part", len(part))]...)
	}
	if n == gap {
		b = append(b, zzsym.Bytes("h", zzsym.Choose("m", 3))...)
	}
	exact(append(b, "?><a/>"...), anyNs())
}

var encNames = []string{
	"utf-8", "ascii", "us-ascii", "utf-16", "utf-16le", "utf-16be", "iso-8859-1", "iso-8859-10", "iso-8859-15",
	"windows-1252", "cp1250", "cp1251", "utf8", "latin1", "", "u", "usascii",
}

// bound: 17 encoding names, each letter in either case, with up to 2 bytes anywhere replaced by or 1 inserted arbitrary byte, either quote, with and without byte order mark
func H_C08_names() {
	e := encNames[zzsym.Choose("enc", len(encNames))]
	var name []byte
	switch k := zzsym.Choose("how", 3); {
	case k == 1 && len(e) >= 2:
		at := zzsym.Choose("at", len(e)-1)
		name = cat(e[:at])
		name = append(name, zzsym.Bytes("h", 2)...)
		name = append(name, e[at+2:]...)
	case k == 2:
		at := zzsym.Choose("at", len(e)+1)
		name = cat(e[:at])
		name = append(name, zzsym.Byte("h"))
		name = append(name, e[at:]...)
	default:
		for i := 0; i < len(e); i++ {
			c := e[i]
			if c >= 'a' && c <= 'z' {
				x := zzsym.Byte("case")
				zzsym.Assume(x == c || x == c-32)
				c = x
			}
			name = append(name, c)
		}
	}
	q := []string{"'", "\""}[zzsym.Choose("quote", 2)]
	b := cat([]string{"", "\xEF\xBB\xBF"}[zzsym.Choose("bom", 2)], "<?xml version='1.0' encoding="+q, string(name), q, "?><a/>")
	exact(b, anyNs())
}

var declTpl = []string{
	"<?xml version='##'?><a/>",
	"<?xml version='###'?><a/>",
	"<?xml version='####'?><a/>",
	"<?xml version=#1.0#?><a/>",
	"<?xml version='1.0#encoding='utf-8'?><a/>",
	"<?xml version='1.0'#encoding='utf-8'?><a/>",
	"<?xml version='1.0'##encoding='utf-8'?><a/>",
	"<?xml version='1.0' encoding='utf-8'##standalone='yes'?><a/>",
	"<?xml version='1.0' encoding='utf-8#standalone='yes'?><a/>",
	"<?xml version='1.0' encoding=#utf-8#standalone='yes'?><a/>",
	"<?xml version='1.0' standalone=#yes#?><a/>",
	"<?xml version='1.0' standalone='##'?><a/>",
	"<?xml version='1.0' standalone='###'?><a/>",
	"<?xml version='1.0' standalone='####'?><a/>",
	"<?xml version='1.0' ####standalone='yes'?><a/>",
	"<?xml version='1.0' standalone='yes'##?><a/>",
	"<?xml version='1.0' standalone='yes'?#<a/>",
	"<?xml version='1.0'#?><a/>",
	"<?xml version='1.0'##><a/>",
	"<?xml##version='1.0'?><a/>",
	"<?xml###ersion='1.0'?><a/>",
	"<?xml version##='1.0'?><a/>",
	"<?xml version##'1.0'?><a/>",
	"<?xml version='1.0'?>##<a/>",
	"##<?xml version='1.0'?><a/>",
	"#<?xml version='1.0' encoding='utf-8'?><a/>",
	"<!--x--><?xm# version='1.0'?><a/>",
	"<a/><?xm# version='1.0'?>",
	"<a><?xm# version='1.0'?></a>",
	"<a><?###?></a>",
	"<?### version='1.0'?><a/>",
	"<?xml version='1.0'?><?xm# version='1.0'?><a/>",
	"<?xml version='1.0' encoding='ascii'?><a>##</a>",
	"<?xml version='1.0' encoding='us-ascii'?><#/>",
	"<?xml version='1.0' encoding='utf-8'?><a>##</a>",
	"\xEF\xBB#<?xml version='1.0'?><a/>",
	"\xEF\xBB\xBF#<?xml version='1.0'?><a/>",
	"\xEF\xBB\xBF<?xml version='1.0' encoding='##-8'?><a/>",
	"##?\x00x\x00m\x00l\x00",
	"<?xml version='1.1'?><a>##</a>",
	"<?xml version='1.1' ##?><a/>",
	"<?xml version='1.0' encodin#='utf-8'?><a/>",
	"<?xml version='1.0' encoding#'utf-8'?><a/>",
	"<?xml version='1.0' encoding=\"utf-8'#?><a/>",
	"<?xml version='1.0' encoding='utf-8' encoding='###'?><a/>",
	"<?xml version='1.0' standalone='yes' ########='utf-8'?><a/>",
}

// bound: 46 documents with up to 8 arbitrary bytes in and around the declaration
func H_C08_parts() { exact(buildOne(declTpl), anyNs()) }

// bound: 0 to 3 (thorough: 6) arbitrary white space characters after up to 40 others in each of 8 gaps, with one more arbitrary byte
func H_C08_space() {
	gap := []string{"<?xml", "version", "=", "'1.0'", "encoding", "=", "'utf-8'", "standalone='yes'", "?><a/>"}
	at := zzsym.Choose("at", 8)
	n := zzsym.Choose("n", tier(4, 7))
	more := repeat(" \n", []int{0, 1, 20}[zzsym.Choose("more", 3)])
	var b []byte
	for i, g := range gap {
		b = append(b, g...)
		if i == at {
			b = append(b, more...)
			for j := 0; j < n; j++ {
				b = append(b, oneOf("sp", " \t\r\n"))
			}
			b = append(b, zzsym.Byte("h"))
		} else if i == 0 || i == 3 || i == 6 {
			b = append(b, ' ')
		}
	}
	exact(b, conf{true, 3})
}

// ---- C09

// places are documents in which a reference can stand
var places = []ctx{
	{"<a>", "</a>"},
	{"<a>x", "y</a>"},
	{"<a> ", " </a>"},
	{"<a><b/>", "<c/></a>"},
	{"<a><b></b>", "</a>"},
	{"<a b='", "'/>"},
	{"<a b=\"x", "y\"/>"},
	{"<a b='&lt;", "&gt;' c=\"\"></a>"},
	{"<a><!--x-->", "<!--y--></a>"},
	{"<a><?p x?>", "<?q?></a>"},
	{"<a><?p?>", "</a>"},
	{"<a><![CDATA[x]]>", "<![CDATA[y]]></a>"},
	{"<a>&#65;", "&amp;</a>"},
	{"<a>]]", "</a>"},
	{"<a xmlns='", "'/>"},
	{"<a xmlns:p='x", "'/>"},
	{"<?xml version='1.0' encoding='ascii'?><a>", "</a>"},
	{"<?xml version='1.0' encoding='us-ascii'?><a b='", "'></a>"},
	{"<a>\xC3\xA9", "\xC3\xA9</a>"},
	{"<a>\r\n", "\r\n</a>"},
}

var noRef = []ctx{
	{"<", "/>"},
	{"<a", "=''/>"},
	{"<a ", "=''/>"},
	{"<a b=", "/>"},
	{"<a/>", ""},
	{"", "<a/>"},
	{"<a></a", ">"},
}

// bound: '&' and 5 (thorough: 6) arbitrary bytes in 20 places in text and attribute values
func H_C09_any() {
	c := places[zzsym.Choose("ctx", len(places))]
	exact(build(c.pre+"&"+[]string{"#####", "######"}[tier(0, 1)]+c.post), anyNs())
}

// bound: '&' and 3 (thorough: 4) arbitrary bytes in 7 places in which no reference is allowed
func H_C09_nowhere() {
	c := noRef[zzsym.Choose("ctx", len(noRef))]
	exact(build(c.pre+"&"+[]string{"###", "####"}[tier(0, 1)]+c.post), anyNs())
}

// bound: the 5 predefined references with any 2 (thorough: 3) bytes replaced or inserted, in 20 places
func H_C09_names() {
	c := places[zzsym.Choose("ctx", len(places))]
	e := []string{"&amp;", "&lt;", "&gt;", "&apos;", "&quot;", "&nbsp;"}[zzsym.Choose("ref", 6)]
	b := append(cat(c.pre), mutate(e, tier(2, 3))...)
	exact(append(b, c.post...), conf{true, 3})
}

func digits(n int, hex bool) []byte {
	b := zzsym.Bytes("digit", n)
	for _, c := range b {
		zzsym.Assume(c >= '0' && c <= '9' || hex && (c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F'))
	}
	return b
}

// bound: decimal references of 1 to 7 (thorough: 9) arbitrary digits and hexadecimal ones of 1 to 6 (7) arbitrary digits in either case, up to 30 leading zeros, in 4 places
func H_C09_value() {
	c := places[[]int{0, 5, 12, 16}[zzsym.Choose("ctx", 4)]]
	zero := []int{0, 1, 2, 8, 9, 10, 16, 17, 20, 30}[zzsym.Choose("zeros", 10)]
	b := cat(c.pre, "&#")
	hex := zzsym.Choose("hex", 2) == 1
	var d []byte
	if hex {
		b = append(b, 'x')
		d = digits(1+zzsym.Choose("n", tier(6, 7)), true)
	} else {
		d = digits(1+zzsym.Choose("n", tier(7, 9)), false)
	}
	b = append(b, repeat("0", zero)...)
	b = append(b, d...)
	b = append(b, ';')
	b = append(b, c.post...)
	var v uint32
	for _, x := range d {
		if hex {
			v = v*16 + hexVal(x)
		} else {
			v = v*10 + uint32(x-'0')
		}
	}
	nav, err := parseDoc(b, conf{true, 3})
	observe(err, nav)
	valid := v == 9 || v == 10 || v == 13 || v >= 32 && v < 0xD800 || v >= 0xE000 && v < 0xFFFE || v >= 0x10000 && v <= 0x10FFFF
	zzsym.Assert((err == nil) == valid, "a character reference is accepted exactly when it denotes a character")
}

// bound: references with 10 to 40 digits of which the first (not zero), one in the middle and the last are arbitrary
func H_C09_long() {
	c := places[[]int{0, 5}[zzsym.Choose("ctx", 2)]]
	hex := zzsym.Choose("hex", 2) == 1
	n := 8 + zzsym.Choose("n", 33)
	b := cat(c.pre, "&#")
	if hex {
		b = append(b, 'x')
	} else {
		n += 2
	}
	d := digits(3, hex)
	zzsym.Assume(d[0] != '0')
	fill := []string{"0", "6", "9"}[zzsym.Choose("fill", 3)]
	b = append(b, d[0])
	b = append(b, repeat(fill, (n-3)/2)...)
	b = append(b, d[1])
	b = append(b, repeat(fill, n-3-(n-3)/2)...)
	b = append(b, d[2], ';')
	nav, err := parseDoc(append(b, c.post...), conf{true, 3})
	observe(err, nav)
	zzsym.Assert(err != nil, "a character reference beyond U+10FFFF is rejected")
}

// bound: 20 places, a reference followed or preceded by 2 arbitrary bytes
func H_C09_around() {
	c := places[zzsym.Choose("ctx", len(places))]
	r := []string{"##&amp;", "&lt;##", "#&#x4a;#", "&#74;##", "&gt;&a##;", "&apos;&##", "##&quot;"}[zzsym.Choose("ref", 7)]
	exact(build(c.pre+r+c.post), conf{true, 3})
}

// ---- C32

var utfPlaces = []ctx{
	{"<a>", "</a>"},
	{"<a>x", "y</a>"},
	{"<a><b/>", "</a>"},
	{"<a b='", "'/>"},
	{"<a b=\"x", "\" c=''/>"},
	{"<a><!--", "--></a>"},
	{"<!--", "--><a/>"},
	{"<a/><!--", "-->"},
	{"<a><![CDATA[", "]]></a>"},
	{"<a><?p ", "?></a>"},
	{"<?p ", "?><a/>"},
	{"<a/><?p ", "?>"},
	{"<", "/>"},
	{"<a", "/>"},
	{"<a><", "></b></a>"},
	{"<a ", "=''/>"},
	{"<a b", "='' c=''/>"},
	{"<a><?", "?></a>"},
	{"<a><?p", " x?></a>"},
	{"<!DOCTYPE a [<!--", "-->]><a/>"},
	{"<!DOCTYPE a SYSTEM '", "'><a/>"},
	{"<a>", "&amp;</a>"},
	{"<a>]]", "</a>"},
	{"<a xmlns:p", "='u'/>"},
	{"<a xmlns='", "'/>"},
	{"<a/>", ""},
	{"", "<a/>"},
	{"<a></a", ">"},
}

var utfFront = []string{"", "\xEF\xBB\xBF", "<?xml version='1.0' encoding='utf-8'?>", "<?xml version='1.0' encoding='ascii'?>", "\xEF\xBB\xBF<?xml version='1.0'?>",
	"\xEF\xBB\xBF<?xml version='1.0' encoding='ascii'?>", "\xEF\xBB\xBF<?xml version=\"1.1\" encoding='US-ASCII' ?>",
	"\xEF\xBB\xBF<?xml version='1.0' encoding='Utf-8'?>", "<?xml version='1.0' encoding='us-ascii' standalone='no'?>\n"}

// bound: 4 (thorough: 5) arbitrary bytes of which the first is not ASCII in 28 places of documents with and without byte order mark and declaration
func H_C32_bytes() {
	c := utfPlaces[zzsym.Choose("ctx", len(utfPlaces))]
	f := utfFront[zzsym.Choose("front", tier(3, len(utfFront)))]
	h := zzsym.Bytes("h", tier(4, 5))
	zzsym.Assume(h[0] >= 0x80)
	b := cat(f, c.pre)
	b = append(b, h...)
	exact(append(b, c.post...), anyNs())
}

// bound: one arbitrary character of 2, 3 or 4 bytes (every lead and continuation byte) in 28 places, behind 9 fronts (none, byte order mark, declarations of every supported encoding, both)
func H_C32_char() {
	c := utfPlaces[zzsym.Choose("ctx", len(utfPlaces))]
	f := utfFront[zzsym.Choose("front", len(utfFront))]
	n := 2 + zzsym.Choose("n", 3)
	h := zzsym.Bytes("h", n)
	zzsym.Assume(h[0] >= 0xC0)
	b := cat(f, c.pre)
	b = append(b, h...)
	exact(append(b, c.post...), anyNs())
}

// bound: documents that end in 1 to 3 arbitrary bytes that are not ASCII, cut in 28 places
func H_C32_cut() {
	c := utfPlaces[zzsym.Choose("ctx", len(utfPlaces))]
	h := zzsym.Bytes("h", 1+zzsym.Choose("n", 3))
	zzsym.Assume(h[0] >= 0x80)
	exact(append(cat(c.pre), h...), anyNs())
}

// bound: names of 2 characters, each of 1 to 4 arbitrary bytes, of elements, attributes and instructions
func H_C32_names() {
	c := []ctx{{"<", "/>"}, {"<a ", "=''/>"}, {"<a><?", "?></a>"}, {"<p:", " xmlns:p='u'/>"}, {"<a xmlns:", "='u'/>"}}[zzsym.Choose("ctx", 5)]
	n, m := 1+zzsym.Choose("n", 4), 1+zzsym.Choose("m", 4)
	h := zzsym.Bytes("h", n+m)
	zzsym.Assume(n == 1 && h[0] < 0x80 || n == 2 && h[0]>>5 == 6 || n == 3 && h[0]>>4 == 14 || n == 4 && h[0]>>3 == 30)
	x := h[n]
	zzsym.Assume(m == 1 && x < 0x80 || m == 2 && x>>5 == 6 || m == 3 && x>>4 == 14 || m == 4 && x>>3 == 30)
	zzsym.Assume(n+m <= tier(5, 6))
	b := append(cat(c.pre), h...)
	exact(append(b, c.post...), anyNs())
}

// bound: end tags whose name has 2 to 4 arbitrary bytes against a start tag with a character of 2, 3 and 4 bytes
func H_C32_end() {
	n := []string{"\xC3\xA9", "\xE4\xB8\xAD", "\xF0\x90\x80\x80"}[zzsym.Choose("name", 3)]
	h := zzsym.Bytes("h", 2+zzsym.Choose("n", 3))
	b := append(cat("<", n, "></"), h...)
	exact(append(b, '>'), anyNs())
}

// wide encodes text in UTF-16
func wide(s string, big bool) []byte {
	var b []byte
	for i := 0; i < len(s); i++ {
		if big {
			b = append(b, 0, s[i])
		} else {
			b = append(b, s[i], 0)
		}
	}
	return b
}

// bound: 5 documents in UTF-16, either byte order, with and without byte order mark and declaration, 2 of the bytes arbitrary
func H_C32_utf16() {
	s := []string{"<a/>", "<?xml version='1.0'?><a/>", "<?xml version='1.0' encoding='utf-16'?><a>x</a>", " <a></a>", "<!--x--><a/>"}[zzsym.Choose("doc", 5)]
	big := zzsym.Choose("big", 2) == 1
	b := wide(s, big)
	switch zzsym.Choose("bom", 3) {
	case 1:
		b = append([]byte{0xFE, 0xFF}, b...)
	case 2:
		b = append([]byte{0xFF, 0xFE}, b...)
	}
	k := zzsym.Choose("at", len(b))
	b[k] = zzsym.Byte("h")
	if k+1 < len(b) {
		b[k+1] = zzsym.Byte("h")
	}
	nav, err := parseDoc(b, anyNs())
	observe(err, nav)
	zzsym.Assert(err != nil, "a document in UTF-16 is rejected")
}

// bound: text, attribute values and names of characters of 2 to 4 arbitrary bytes: the string of the token has exactly their bytes
func H_C32_string() {
	n := 2 + zzsym.Choose("n", 3)
	h := zzsym.Bytes("h", n)
	for i := range h {
		zzsym.Assume(h[i] >= 0x80)
	}
	c := []struct {
		pre, post string
		tok       int
	}{{"<a>", "</a>", 2}, {"<a b='", "'/>", 3}, {"<a><!--", "--></a>", 2}, {"<a><![CDATA[", "]]></a>", 2}, {"<a><?p ", "?></a>", 3}, {"<", "/>", 1}, {"<a ", "=''/>", 2}}[zzsym.Choose("ctx", 7)]
	b := append(cat(c.pre), h...)
	b = append(b, c.post...)
	d := judge(b, 0, len(b), true)
	zzsym.Assume(d.verdict == vAccept)
	nav, err := parseDoc(b, conf{true, 3})
	observe(err, nav)
	zzsym.Assert(err == nil, "a document that follows the rules is accepted")
	s, err := nav.ToRawStringAtIndex(c.tok)
	zzsym.Assert(err == nil && zzsym.EqB(s, string(h)), "the string of a token has the bytes of its characters")
	s, err = nav.ToStringAtIndex(c.tok)
	zzsym.Assert(err == nil && zzsym.EqB(s, string(h)), "the string of a token has the bytes of its characters")
}

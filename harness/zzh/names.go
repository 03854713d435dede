package zzh

import "github.com/alexZaicev/go-vtd-xml/vtdxml/zzsym"

// ---- C05

var dupTpl = []string{
	"<a ##='' ##='1'/>",
	"<a ### ='x' #=\"y\"></a>",
	"<a b#='' #c=\"\" b#=''/>",
	"<a #='1' #='2' #='3' #='4'/>",
	"<a $0$1='1' c='' $0#=''/>",
	"<a $0='1' c='' d='' $0$1=''><b $0='' $1=''/></a>",
	"<a><b b='' #=''/><c c='' #='' /><d b='' c=''/></a>",
	"<a b=''><#=''/><a #=''/></a>",
	"<a xmlns:##='u' xmlns:##='v'/>",
	"<a xmlns='u' ##='' xml##='v'/>",
	"<a xmlns='u' xmlns:$0='u' xmlns#='v'/>",
	"<a xmlns:p='u' xmlns:q='v' p:#='' q:#='' #=''/>",
	"<a xmlns:p='u' p:b='' #:b='' p:#=''/>",
	"<a xmlns:pp='u' xmlns:p='v' p#:b='' ##:b=''/>",
	"<a \xC3\xA9='' \xC3#='' #\xA9=''/>",
	"<a \xE2\x80\xBF='' x\xE2\x80\xBF='' x##\xBF=''/>",
	"<a \xF0\x90\x80\x80='' \xF0\x90\x80#=''/>",
	"<a aaaaaaaaaaaaaaaa='' aaaaaaaaaaaaaaa#='' #aaaaaaaaaaaaaaa=''/>",
	"<a aaaaaaaabaaaaaaa='' aaaaaaaa#aaaaaaa='' aaaaaaaabaaaaaa#=''/>",
	"<a b='b' c='b=\"\"' #='#'/>",
	"<a b='&#98;' c=\"\" #='&lt;'/>",
	"<a b='' #\t=\n'' B='' #=''></a>",
	"<a bb='' b='' b#='' #b=''/>",
	"<a ab='' ba='' #a='' #b=''/>",
	"<a abc='' abd='' a##=''/>",
	"<a x='1'#x='2'/>",
}

// bound: 26 start tags with up to 4 arbitrary bytes in the names of their attributes (short and long names, shared beginnings and ends, multi-byte characters, declarations, several elements)
func H_C05_names() { bothWays(buildOne(dupTpl), anyNs()) }

// nameOf is the i-th of a sequence of different names of 3 bytes
func nameOf(i int) string {
	return string([]byte{'a' + byte(i/260%26), 'a' + byte(i/10%26), '0' + byte(i%10)})
}

// attrs makes n attributes with different names
func attrs(b []byte, pre string, n int, val string) []byte {
	for i := 0; i < n; i++ {
		b = append(b, ' ')
		b = append(b, pre...)
		b = append(b, nameOf(i)...)
		b = append(b, val...)
	}
	return b
}

// anyName is an arbitrary ASCII name of 3 bytes without colon
func anyName() []byte {
	b := zzsym.Bytes("name", 3)
	for i, c := range b {
		zzsym.Assume(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' || i > 0 && (c >= '0' && c <= '9' || c == '.' || c == '-'))
	}
	return b
}

// known reports whether the name is among the first n of the sequence
func known(b []byte, n int) bool {
	if b[0] < 'a' || b[0] > 'z' || b[1] < 'a' || b[1] > 'z' || b[2] < '0' || b[2] > '9' {
		return false
	}
	return int(b[0]-'a')*260+int(b[1]-'a')*10+int(b[2]-'0') < n
}

func outcome(b []byte, c conf, valid bool) {
	nav, err := parseDoc(b, c)
	observe(err, nav)
	if valid {
		zzsym.Assert(err == nil, "a document that follows the rules is accepted")
	} else {
		zzsym.Assert(err != nil, "a document that breaks the rule is rejected")
	}
}

// bound: a start tag with 1 to 513 (thorough: 1024) attributes (around every power of two) of which the last, or the fourth or eighth from the end, has any ASCII name of 3 bytes
func H_C05_many() {
	n := []int{1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 300, 511, 512, 513, 800, 1024}[zzsym.Choose("n", tier(25, 27))]
	name := anyName()
	b := []byte("<a")
	if k := n - 3 - zzsym.Choose("at", 2)*4; k > 0 && zzsym.Choose("middle", 2) == 1 {
		b = attrs(b, "", k, "=''")
		b = append(b, ' ')
		b = append(b, name...)
		b = append(b, "=''"...)
		b = append(b, attrs(nil, "", n, "=''")[7*k:]...)
	} else {
		b = attrs(b, "", n, "=''")
		b = append(b, ' ')
		b = append(b, name...)
		b = append(b, "=''"...)
	}
	outcome(append(b, "/>"...), anyNs(), !known(name, n))
}

// bound: elements with 1 to 20 attributes, followed by an element with 2 to 20 attributes, one of them with an arbitrary name of 2 bytes
func H_C05_next() {
	n := []int{1, 7, 8, 9, 15, 16, 17, 20}[zzsym.Choose("n", 8)]
	m := []int{1, 2, 8, 9, 16, 17, 20}[zzsym.Choose("m", 7)]
	b := append(attrs([]byte("<a"), "", n, "=''"), '>')
	b = attrs(append(b, "<a"...), "", m, "=''")
	bothWays(build(string(b)+" a#='' #b=''/></a>"), anyNs())
}

// bound: with namespace awareness, 1 to 513 attributes with prefixes and the last with any ASCII name of 3 bytes, and namespace declarations instead
func H_C05_prefixed() {
	n := []int{1, 2, 8, 9, 16, 17, 33, 65, 129, 255, 256, 257, 300, 513}[zzsym.Choose("n", 14)]
	pre := []string{"p:", "xmlns:"}[zzsym.Choose("decl", 2)]
	name := anyName()
	b := attrs([]byte("<a xmlns:p='u'"), pre, n, "='v'")
	b = append(b, ' ')
	b = append(b, pre...)
	b = append(b, name...)
	zzsym.Assume(name[0] != 'x') // not xml
	outcome(append(b, "='w'/>"...), anyNs(), !known(name, n))
}

// powers are lengths around the powers of two
var powers = []int{63, 64, 65, 127, 128, 129, 255, 256, 257, 258, 259, 511, 512, 513, 767, 768, 1023, 1024, 1025, 1279, 1280, 2045, 2047}

// bound: two attributes with names of 63 to 2047 bytes (around powers of two), the second shorter by 256, 128, 64, 1 or 0 bytes or longer by 1, with an arbitrary byte at its start, in its middle or at its end, and the same with prefixed names and declarations
func H_C05_powers() {
	n := powers[zzsym.Choose("n", len(powers))]
	m := n + []int{0, 1, -1, -64, -128, -256, -512, -1024}[zzsym.Choose("m", 8)]
	zzsym.Assume(m > 0 && m <= 2047)
	pre := []string{"", "p:", "xmlns:"}[zzsym.Choose("pre", 3)]
	zzsym.Assume(pre != "xmlns:" || n <= 511 && m <= 511)
	n, m = n-len(pre), m-len(pre)
	zzsym.Assume(n > 0 && m > 0)
	s := []byte(repeat("a", m))
	h := zzsym.Byte("h")
	s[[]int{0, m / 2, m - 1}[zzsym.Choose("at", 3)]] = h
	zzsym.Assume(h >= 'a' && h <= 'z')
	zzsym.Assume(pre != "xmlns:" || h != 'x')
	same := n == m && h == 'a'
	b := cat("<a xmlns:p='u' ", pre, repeat("a", n), "='v' ", pre, string(s), "='w'/>")
	outcome(b, anyNs(), !same)
}

// bound: two attributes with names of 1 to 40 (thorough: 130) bytes that agree except for 2 bytes anywhere
func H_C05_long() {
	n := 2 + zzsym.Choose("n", tier(39, 129))
	k := zzsym.Choose("at", tier(39, 129))
	zzsym.Assume(k+1 < n)
	s := repeat("a", n)
	b := cat("<a ", s, "='' ", s[:k])
	b = append(b, zzsym.Bytes("h", 2)...)
	bothWays(append(b, cat(s[k+2:], "=''/>")...), anyNs())
}

// ---- C06

var scopeTpl = []string{
	"<#:a xmlns:#='u'/>",
	"<##a xmlns:##='u'/>",
	"<a xmlns:$0='u'><$1:b/></a>",
	"<a xmlns:$0='u'><b/><$1:b></$1:b></a>",
	"<a><b xmlns:$0='u'/><$1:b/></a>",
	"<a><b xmlns:$0='u'></b><$1:b/></a>",
	"<a><b xmlns:$0='u'>x</b><b $1:c=''/></a>",
	"<a><b xmlns:$0='u'><$1:c/><$2:c/></b></a>",
	"<a xmlns:$0='u'><b xmlns:$1='v'><$2:c/></b></a>",
	"<a xmlns:$0='u'><b xmlns:$1='v'/><$2:c/></a>",
	"<a xmlns:$0='u'><b xmlns:$1='v'></b><$2:c/></a>",
	"<a xmlns:p='u'><b xmlns:q='v'><c xmlns:r='w'><#:d/></c></b></a>",
	"<a xmlns:p='u'><b xmlns:q='v'><c xmlns:r='w'/><#:d/></b></a>",
	"<a xmlns:p='u'><b xmlns:q='v'><c xmlns:r='w'></c></b><#:d/></a>",
	"<a xmlns:p='u'><b xmlns:p='v'/><c xmlns:q='v'/><#:d #:e=''/></a>",
	"<a #:b='' xmlns:#='u'/>",
	"<a xmlns:#='u' #:b=''/>",
	"<a xmlns:p='u' xmlns:q='v' #:b='' #:c=''/>",
	"<a xmlns:p='u' b='' #:c='' d=''><b #:c=''/></a>",
	"<a><b $0:c='' xmlns:$0='u'/><c $0:c='' #mlns:$0='u'/></a>",
	"<a xml#c='d' #ml:lang='e'/>",
	"<xm#:a/>",
	"<a><###:b/></a>",
	"<a xmlns='u'><#b/></a>",
	"<a xmlns='u' #:b=''/>",
	"<a xmlns:\xC3\xA9='u'><\xC3#:b/></a>",
	"<a xmlns:pp='u'><p#:b/><p#b/></a>",
	"<a xmlns:p='u'><p##b/><b pp#c=''/></a>",
	"<a xmlns:ab='u' xmlns:a='v'><$0$1:c/></a>",
	"<a xmlns:abcdefgh='u'><abcd#fgh:c/><abcdefgh#:c/></a>",
	"<a xmlns:abcdefgh='u'><abcdefg#c/></a>",
	"<p:a xmlns:p='u'></#:a>",
	"<a xmlns:p='u'><!--x--><#:b/><?p q?></a>",
	"<a><b><c xmlns:p='u'/></b><#:d/></a>",
	"<a><b xmlns:p='u'><c/></b><#:d/></a>",
	"<a><b xmlns:p='u'><c/></b><b xmlns:#='u'><p:c/></b></a>",
	"<a b='xmlns:p=\"u\"'><#:c/></a>",
	"<a xmlns:p='' #='1'/>",
}

// bound: 38 documents with up to 4 arbitrary bytes in declared and used prefixes, on elements and attributes, in nested, following and empty elements
func H_C06_prefixes() { bothWays(buildOne(scopeTpl), anyNs()) }

// bound: 1 to 300 declarations (around every power of two) on one element, or spread over 1 to 250 nested elements, and the use of any ASCII prefix of 3 bytes in a descendant, after the scope of the last, half or all of them
func H_C06_many() {
	n := []int{1, 2, 3, 4, 5, 8, 9, 16, 17, 31, 32, 33, 63, 64, 65, 66, 127, 128, 129, 193, 250, 256, 257, 300}[zzsym.Choose("n", 24)]
	nested := zzsym.Choose("nested", 2) == 1
	if nested {
		zzsym.Assume(n <= 250)
	}
	name := anyName()
	zzsym.Assume(name[0] != 'x')
	b := []byte("<r><a")
	for i := 0; i < n; i++ {
		if nested && i > 0 {
			b = append(b, "><a"...)
		}
		b = append(b, " xmlns:"...)
		b = append(b, nameOf(i)...)
		b = append(b, "='u'"...)
	}
	d := 1
	if nested {
		d = n
	}
	var closed int // elements closed before the use
	switch zzsym.Choose("where", 4) {
	case 0:
		b = append(b, '>')
	case 1: // behind the innermost element
		b = append(b, "/>"...)
		closed = 1
	case 2:
		closed = d / 2
		b = append(b, cat(">", repeat("</a>", closed))...)
	case 3:
		closed = d
		b = append(b, cat(">", repeat("</a>", closed))...)
	}
	if zzsym.Choose("attr", 2) == 1 {
		b = append(b, "<b "...)
		b = append(b, name...)
		b = append(b, ":b=''/>"...)
	} else {
		b = append(b, '<')
		b = append(b, name...)
		b = append(b, ":b/>"...)
	}
	b = append(b, repeat("</a>", d-closed)...)
	scope := n
	if nested {
		scope -= closed
	} else if closed > 0 {
		scope = 0
	}
	outcome(append(b, "</r>"...), conf{true, 3}, known(name, scope))
}

// bound: 61 to 65 and 123 to 127 (thorough: 69, 131) declarations before an element with 1 to 3 (thorough: 8) more that goes out of scope, then 1 to 3 (8) others, then any ASCII prefix of 3 bytes
func H_C06_reuse() {
	n := 61 + zzsym.Choose("n", tier(5, 9))
	if zzsym.Choose("page", 2) == 1 {
		n += 62
	}
	m := 1 + zzsym.Choose("m", tier(3, 8))
	k := 1 + zzsym.Choose("k", tier(3, 8))
	name := anyName()
	zzsym.Assume(name[0] != 'x')
	b := []byte("<a")
	decl := func(from, n int) {
		for i := from; i < from+n; i++ {
			b = append(b, " xmlns:"...)
			b = append(b, nameOf(i)...)
			b = append(b, "='u'"...)
		}
	}
	decl(0, n)
	b = append(b, "><b"...)
	decl(n+k, m)
	switch zzsym.Choose("end", 3) {
	case 0:
		b = append(b, "/><c"...)
	case 1:
		b = append(b, "></b><c"...)
	case 2:
		b = append(b, "><d xmlns:s='u'/></b><c"...)
	}
	decl(n, k)
	b = append(b, "><"...)
	b = append(b, name...)
	b = append(b, ":d/></c></a>"...)
	outcome(b, conf{true, 3}, known(name, n+k))
}

// bound: declared prefixes of 1 to 511 bytes (around powers of two) used with a length that differs by 0, 1 or a power of two and an arbitrary byte at their start, middle or end, on elements and attributes, alone and after 3 other declarations
func H_C06_long() {
	n := append([]int{1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 504, 505}, powers[:13]...)[zzsym.Choose("n", 24)]
	m := n + []int{0, 1, -1, -8, -16, -32, -64, -128, -256, 256}[zzsym.Choose("m", 10)]
	zzsym.Assume(m > 0 && m <= 511)
	s := []byte(repeat("a", m))
	h := zzsym.Byte("h")
	s[[]int{0, m / 2, m - 1}[zzsym.Choose("at", 3)]] = h
	zzsym.Assume(h >= 'a' && h <= 'z')
	zzsym.Assume(m > 5 || m < 3 || h == 'a') // not xml, not xmlns
	more := ""
	if zzsym.Choose("more", 2) == 1 {
		more = " xmlns:b='v' xmlns:cc='w' xmlns:d" + repeat("a", n) + "='x'"
	}
	b := cat("<a xmlns:", repeat("a", n), "='u'", more)
	k := zzsym.Choose("attr", 3)
	switch k {
	case 0:
		b = append(b, cat("><", string(s), ":b/></a>")...)
	case 1:
		b = append(b, cat("><b c='' ", string(s), ":b='' d=''/></a>")...)
	case 2:
		b = append(b, cat(" ", string(s), ":b=''/>")...)
	}
	valid := n == m && h == 'a'
	if more != "" && (m == 1 && h == 'b' || m == n+1 && h == 'd' && s[0] == h && (m == 1 || s[1] == 'a')) {
		valid = true
	}
	outcome(b, conf{true, 3}, valid)
}

// bound: 9 documents with declarations around a hole of 4 (thorough: 5) arbitrary bytes
func H_C06_hole() {
	bothWays(fill([]ctx{
		{"<p:a xmlns:p='u'><", "/></p:a>"},
		{"<p:a xmlns:p='u'><b ", "=''/></p:a>"},
		{"<p:a xmlns:p='u' ", "='v'><q:b/></p:a>"},
		{"<a xmlns:", "='u'><p:b/></a>"},
		{"<a xmlns:", "='u' p:b=''/>"},
		{"<a><b xmlns:p='u'", "<p:c/></b></a>"},
		{"<a xmlns", "='u'><p:b/></a>"},
		{"<a ", ":p='u'><p:b/></a>"},
		{"<", ":a xmlns:pq='u'/>"},
	}, tier(4, 5)), anyNs())
}

// bound: a document with nested and repeated declarations, any 2 (thorough: 3) neighbouring bytes replaced or inserted
func H_C06_mutate() {
	bothWays(mutate("<p:a xmlns:p='u' xmlns='d' b='1'><q:b xmlns:q='v' p:c='' q:c=''><r:c xmlns:r='w'/><q:d/></q:b><p:e xmlns:q='x' q:f='' xml:lang=''/></p:a>", tier(2, 3)), conf{true, 3})
}

// ---- C07

const (
	nsXml   = "http://www.w3.org/XML/1998/namespace"
	nsXmlns = "http://www.w3.org/2000/xmlns/"
)

var reserved = []string{nsXml, nsXmlns}

// bound: each reserved namespace name with 2 (thorough: 3) neighbouring bytes anywhere replaced by arbitrary ones, or with as many inserted, bound to the default, xml, p, xmlns or a prefix with an arbitrary byte
func H_C07_reserved() {
	u := reserved[zzsym.Choose("url", 2)]
	p := []string{"xmlns='", "xmlns:p='", "xmlns:xml='", "xmlns:xmlns='", "xmlns:xm#='", "xmlns:xmln#='"}[zzsym.Choose("prefix", 6)]
	b := append(build("<a "+p), mutate(u, tier(2, 3))...)
	bothWays(append(b, "'/>"...), anyNs())
}

// bound: each reserved name with one character written as a reference of up to 4 arbitrary digits (decimal, hexadecimal, leading zeros)
func H_C07_refs() {
	u := reserved[zzsym.Choose("url", 2)]
	p := []string{"xmlns='", "xmlns:p=\"", "xmlns:xml='"}[zzsym.Choose("prefix", 3)]
	r := []string{"&#x##;", "&#0##;", "&#1##;", "&#x0##;", "&##;", "&###;"}[zzsym.Choose("ref", 6)]
	k := zzsym.Choose("at", len(u)+1)
	m := k + zzsym.Choose("replace", 2)
	zzsym.Assume(m <= len(u))
	s := "<a " + p + u[:k] + r + u[m:]
	if p[len(p)-1] == '"' {
		s += "\"/>"
	} else {
		s += "'/>"
	}
	bothWays(build(s), conf{true, 3})
}

// bound: 3 (thorough: 4) declarations or attributes out of 12 (both reserved names, ordinary and arbitrary ones, bound to the default, xml or a prefix) on one element, or the last on a nested or following element
func H_C07_order() {
	ds := []string{"xmlns='u'", "xmlns='" + nsXml + "'", "xmlns='" + nsXmlns + "'", "xmlns:p='u'", "xmlns:p='" + nsXml + "'",
		"xmlns:q='" + nsXmlns + "'", "xmlns:xml='" + nsXml + "'", "xmlns:xml='u'", "xmlns=''", "xmlns:q='#'", "b='" + nsXml + "'", "xml:b='u'"}
	b := "<a"
	n := tier(3, 4)
	last := zzsym.Choose("last", 3)
	for i := 0; i < n; i++ {
		if i == n-1 {
			b += []string{"", "><b", "><c/><b"}[last]
		}
		b += " " + ds[zzsym.Choose("decl", len(ds))]
	}
	b += "/>"
	if last > 0 {
		b += "</a>"
	}
	bothWays(build(b), conf{true, 3})
}

var bindTpl = []string{
	"<a xmlns:##='u'/>",
	"<a xmlns:###='u'/>",
	"<a xmlns:###='" + nsXml + "'/>",
	"<a xmlns:xml##'" + nsXml + "'/>",
	"<a xmlns:##='##'/>",
	"<a xmlns:p='#'/>",
	"<a xmlns:p='&#####'/>",
	"<a xmlns='##'/>",
	"<a xmlns=''><b xmlns='#'/></a>",
	"<###ns:a/>",
	"<xmln#:a/>",
	"<xml#s:a/>",
	"<a><xmlns##a/></a>",
	"<a xmln#:xml='v'/>",
	"<a xmlns:xml='" + nsXml + "' xml:b='' #ml:b=''/>",
	"<a xmlns:p='$0$1' xmlns:q='$2$3' p:b='' q:b=''/>",
	"<a xmlns:p='u' xmlns:q='v' #:b='' #:b=''/>",
	"<a xmlns:p='u' xmlns:q='#' p:b='' q:#=''/>",
	"<a xmlns:p='u' xmlns:q='u#' p:b='' q:b=''/>",
	"<a xmlns:p='u' xmlns:q='u' p:b#='' q:bb=''/>",
	"<a xmlns:p='u' xmlns:q='u' p:bc='' q:##=''/>",
	"<a xmlns:p='u' xmlns:q='u' #:b='' b='' p:c='' q:#=''/>",
	"<a p:b='' q:b='' xmlns:p='u' xmlns:q='#'/>",
	"<a xmlns:p='u'><b xmlns:q='#' p:b='' q:b=''/></a>",
	"<a xmlns:p='u'><b xmlns:q='#'/><c xmlns:q='v' p:b='' q:b=''/></a>",
	"<a xmlns:p='u' xmlns:q='u'><b xmlns:q='#' p:b='' q:b=''/></a>",
	"<a xmlns:p='u' xmlns:q='v'><b xmlns:p='#' p:b='' q:b=''/><b p:b='' q:b=''/></a>",
	"<a xmlns:p='&#x75;' xmlns:q='#' p:b='' q:b=''/>",
	"<a xmlns:p='&#x7#;' xmlns:q='u' p:b='' q:b=''/>",
	"<a xmlns:p='&a##;' xmlns:q='&' p:b='' q:b=''/>",
	"<a xmlns:p='&amp;' xmlns:q='&#3#;' p:b='' q:b=''/>",
	"<a xmlns:p='&lt;' xmlns:q='&#x#C;' p:b='' q:b=''/>",
	"<a xmlns:p='a&gt;b' xmlns:q='a#b' p:b='' q:b=''/>",
	"<a xmlns:p=\"&apos;\" xmlns:q=\"#\" p:b='' q:b=''/>",
	"<a xmlns:p='&quot;' xmlns:q='#' p:b='' q:b=''/>",
	"<a xmlns:p='\xC3\xA9' xmlns:q='&#x##;' p:b='' q:b=''/>",
	"<a xmlns:p='\xC3\xA9' xmlns:q='\xC3#' p:b='' q:b=''/>",
	"<a xmlns:p='\xF0\x90\x80\x80' xmlns:q='&#x1#00#;' p:b='' q:b=''/>",
	"<a xmlns:p='uv' xmlns:q='##' xmlns:r='##' p:b='' q:b='' r:b=''/>",
	"<a xmlns:p='u' xmlns='#' p:b='' b=''/>",
	"<a xmlns:p='u' xmlns:q='u' p:\xC3\xA9='' q:\xC3#=''/>",
	"<a xmlns:p='u' xmlns:pp='u' p:b='' p#:b=''/>",
	"<a xmlns:p='u' xmlns:q='u' p:b='' p:c='' p:d='' p:e='' p:f='' p:g='' q:#=''/>",
	"<a b='' c='' p:x='' d='' e='' f='' q:#='' g='' xmlns:q='u' h='' xmlns:p='u'/>",
}

// bound: 44 documents with up to 5 arbitrary bytes in prefixes, namespace names (with references) and names of attributes whose prefixes may share a namespace name
func H_C07_bind() { bothWays(buildOne(bindTpl), anyNs()) }

// bound: 2 to 40 (thorough: 140) attributes with prefixes, of which one more with a second prefix for the same name has an arbitrary local name of 2 bytes
func H_C07_clash() {
	n := []int{2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 40, 63, 64, 65, 127, 128, 129, 140}[zzsym.Choose("n", tier(11, 18))]
	b := []byte("<a xmlns:p='u' xmlns:q='")
	b = append(b, zzsym.Byte("u"))
	b = append(b, "'"...)
	for i := 0; i < n; i++ {
		b = append(b, " p:"...)
		b = append(b, 'a'+byte(i/10), '0'+byte(i%10))
		b = append(b, "=''"...)
	}
	b = append(b, " q:"...)
	b = append(b, zzsym.Bytes("h", 2)...)
	bothWays(append(b, "=''/>"...), conf{true, 3})
}

// bound: two namespace names of 1 to 24 bytes that agree except for 2 arbitrary bytes in one of them
func H_C07_urls() {
	u := "http://example.com/ns/aa"
	n := 2 + zzsym.Choose("n", len(u)-1)
	k := zzsym.Choose("at", len(u)-1)
	zzsym.Assume(k+1 < n)
	b := cat("<a xmlns:p='", u[:n], "' xmlns:q='", u[:k])
	b = append(b, zzsym.Bytes("h", 2)...)
	bothWays(append(b, cat(u[k+2:n], "' p:b='' q:b=''/>")...), conf{true, 3})
}

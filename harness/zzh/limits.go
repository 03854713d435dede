package zzh

import (
	"github.com/alexZaicev/go-vtd-xml/vtdxml/navigation"
	"github.com/alexZaicev/go-vtd-xml/vtdxml/zzsym"
)

// A stretched document has a run of many units in one token. The oracle judges
// it with three units; the length of a run matters for the limits only.
type stretched struct{ pre, unit, post string }

// run is n times s
func run(s string, n int) []byte {
	b := make([]byte, len(s)*n)
	for k := copy(b, s); k < len(b); k *= 2 {
		copy(b[k:], b[:k])
	}
	return b
}

func stretch(x stretched, n int, hole []byte, c conf) {
	r := run(x.unit, n)
	b := make([]byte, 0, len(x.pre)+len(r)+len(hole)+len(x.post))
	b = append(b, x.pre...)
	b = append(b, r...)
	b = append(b, hole...)
	b = append(b, x.post...)
	nav, err := parseDoc(b, c)
	observe(err, nav)
	short := 3
	if n < short {
		short = n
	}
	s := append(cat(x.pre, repeat(x.unit, short)), hole...)
	s = append(s, x.post...)
	d := judge(s, 0, len(s), c.ns)
	at, more := len(x.pre)+short*len(x.unit), len(r)-short*len(x.unit)
	if d.verdict == vAccept {
		for i, t := range d.toks {
			if t.off >= at {
				d.toks[i].off += more
			} else if t.off >= 0 && t.off+t.n >= at {
				d.toks[i].n += more
				if d.toks[i].n > maxToken && t.typ != tText && t.typ != tCdata && t.typ != tComment {
					d.verdict = vReject
				}
			}
		}
	}
	if err != nil {
		zzsym.Assert(d.verdict != vAccept, "a document within the limits is accepted")
		return
	}
	zzsym.Assert(d.verdict != vReject, "a document beyond a limit is rejected")
	if d.verdict == vAccept {
		checkRuns(nav, d)
	}
}

// checkRuns compares tokens; long runs may be divided anywhere
func checkRuns(nav *navigation.VtdNav, d *xdoc) {
	j, n := 1, nav.GetVtdBufferSize()
	for _, x := range d.toks {
		zzsym.Assert(j < n, "number of tokens")
		t := readTok(nav, j, d.ns)
		j++
		zzsym.Assert(t.typ == x.typ, "token type")
		zzsym.Assert(x.off < 0 || t.off == x.off, "token offset")
		zzsym.Assert(t.depth == x.depth, "token depth")
		zzsym.Assert(t.n == x.n, "token length")
		if d.ns {
			zzsym.Assert(t.pre == x.pre, "prefix length")
		}
		if x.n <= maxToken {
			continue
		}
		zzsym.Reach("long run")
		end, last := x.off+x.n, x.off
		for last+maxToken < end {
			zzsym.Assert(j < n, "number of tokens")
			t = readTok(nav, j, d.ns)
			j++
			zzsym.Assert(t.typ == x.typ && t.depth == x.depth, "a run is recorded in consecutive records")
			zzsym.Assert(t.off > last && t.off <= last+maxToken && t.off < end, "the records of a run cover it")
			zzsym.Assert(t.n == end-t.off, "the length of the rest of a run")
			last = t.off
		}
	}
	zzsym.Assert(j == n, "number of tokens")
}

// ---- C11

var runDocs = []stretched{
	{"<a>", "x", "<b/>y</a>"},
	{"<a><![CDATA[", "x", "]]><![CDATA[y]]>z</a>"},
	{"<a><!--", "x", "--><!--y--></a>"},
	{"<a>y<![CDATA[", "]", "]]>y</a>"},
	{"<!--y--><!--", "x", "--><a/>"},
	{"<a/><!--", " ", "--><!----><?p?>"},
	{"<a>y<!--", "\xE4\xB8\xAD", "--><!--y-->y<b></b></a>"},
	{"<a><b/>", "\xF0\x90\x80\x80", "</a>"},
	{"<a><b></b>", "\n", "<!--x-->z</a>"},
	{"<a><!--y-->", "&#x0041;", "<![CDATA[z]]>z</a>"},
	{"<a><?p?>", "\xC3\xA9", "<b>x</b></a>"},
	{"<a><b><![CDATA[", "\xC3\xA9", "]]></b><![CDATA[]]>y<c/></a>"},
	{"<a><b>", "x", "</b>y</a>"},
}

// bound: 3 (thorough: 13) documents with text, a CDATA section or a comment that ends before, within or after 4 arbitrary bytes around the size of a record
func H_C11_record_mb() {
	x := runDocs[zzsym.Choose("doc", tier(3, 13))]
	n := (maxToken - 3) / len(x.unit)
	stretch(x, n, zzsym.Bytes("h", 4), conf{true, 3})
}

// bound: 2 (thorough: 13) documents with text, a CDATA section or a comment that ends before, within or after 3 (4) arbitrary bytes around the size of 2 (3) records
func H_C11_several_mb() {
	x := runDocs[tier(6, 0)+zzsym.Choose("doc", tier(2, 13))]
	n := (tier(2, 3)*maxToken - 2) / len(x.unit)
	stretch(x, n, zzsym.Bytes("h", tier(3, 4)), conf{tier(0, zzsym.Choose("ns", 2)) == 0, 3})
}

// bound: runs of 1 to 70000 units (around powers of two) that end within or after 3 arbitrary bytes in 12 documents
func H_C11_short() {
	x := runDocs[zzsym.Choose("doc", 13)]
	n := []int{1, 2, 7, 8, 15, 16, 17, 255, 256, 257, 2047, 2048, 4095, 4096, 65535, 65536, 70000}[zzsym.Choose("n", tier(14, 17))]
	stretch(x, n, zzsym.Bytes("h", 3), conf{true, 3})
}

// bound: neighbouring comments, CDATA sections and text with up to 4 arbitrary bytes (6 documents)
func H_C11_neighbours() {
	exact(buildOne([]string{
		"<a><!--#--><!--#-->#<!---->#</a>",
		"<a><![CDATA[#]]><![CDATA[#]]>#<![CDATA[]]>#</a>",
		"<a>#<b/>#<b>#</b>#<b></b>#</a>",
		"<a><!----><![CDATA[]]>#<![CDATA[]]><!---->#<!----></a>",
		"<!--#--><!--#--><a/><!--#--><!--#-->",
		"<a>##&lt;#<!---->&lt;#</a>",
	}), anyConf())
}

// ---- C10

var tokenDocs = []stretched{
	{"<a b='", "x", "' c=\"y\"/>"},
	{"<?p ", "x", "?><a/>"},
	{"<a><?p ", "x", "?></a>"},
	{"<a/><?p ", "x", "?>"},
	{"<?", "x", "?><a/>"},
	{"<!DOCTYPE a", " ", "><a/>"},
	{"<a><?", "x", " ?></a>"},
	{"<a/><?", "x", "?>"},
	{"<a b=\"", "\xE4\xB8\xAD", "\"></a>"},
	{"<a c='y' b='", "&amp;", "'/>"},
	{"<a xmlns='", "x", "'/>"},
	{"<a xmlns:p='", "\xC3\xA9", "' p:b=''/>"},
	{"<!DOCTYPE a [", "<!ENTITY e \">\">", "]><a/>"},
	{"<!DOCTYPE a SYSTEM '", "x", "'><a/>"},
	{"<?p ", "\xF0\x90\x80\x80", "?><a/>"},
	{"<a><?", "\xC3\xA9", "?></a>"},
	{"<a><b/><?p ", "?", "?>x</a>"},
}

// bound: attribute values, targets and values of instructions before, in and after the root and document type declarations that end before, within or after 2 (thorough: 4) arbitrary bytes around 1048575 bytes (17 documents, 6 of them quick)
func H_C10_token_mb() {
	x := tokenDocs[zzsym.Choose("doc", tier(6, len(tokenDocs)))]
	n := (maxToken - tier(1, 2)) / len(x.unit)
	if x.unit == " " {
		n -= 2 // the name is part of the token
	}
	stretch(x, n, zzsym.Bytes("h", tier(2, 4)), conf{true, 3})
}

// bound: attribute values and the like of 2 (thorough: 3) times the limit, an arbitrary byte at their end
func H_C10_beyond_mb() {
	x := tokenDocs[[]int{8, 14, 11, 15, 0, 1, 2, 3, 4, 5}[zzsym.Choose("doc", tier(2, 10))]]
	n := (tier(2, 3)*maxToken + 7) / len(x.unit)
	stretch(x, n, zzsym.Bytes("h", 1), conf{true, 3})
}

// bound: 3 (thorough: 4) arbitrary bytes inside 254 and 255 (thorough: to 257) levels of elements, with and without attributes and prefixes
func H_C10_depth() {
	k := 254 + zzsym.Choose("k", tier(2, 4))
	x := []string{"<a>", "<a b=''>", "<p:a>", "<a>x"}[zzsym.Choose("tag", 4)]
	y, f := "</a>", "<r xmlns:p='u'>"
	if x == "<p:a>" {
		y = "</p:a>"
	}
	b := cat(f, repeat(x, k-1))
	b = append(b, zzsym.Bytes("h", tier(3, 4))...)
	b = append(b, repeat(y, k-1)...)
	exact(append(b, "</r>"...), conf{true, 3 + 2*zzsym.Choose("lc", 2)})
}

// bound: 251 to 255 (thorough: 257) levels, then an element with 3 arbitrary bytes and the same again
func H_C10_levels() {
	k := 251 + zzsym.Choose("k", tier(5, 7))
	b := cat(repeat("<a>", k), "<")
	b = append(b, zzsym.Bytes("h", 3)...)
	b = append(b, cat(repeat("</a>", k-1), repeat("<a>", k-1))...)
	b = append(b, zzsym.Byte("h"))
	exact(append(b, repeat("</a>", k)...), anyConf())
}

// nested is a document of n levels
func nested(n int) []byte {
	return append(run("<a>", n), run("</a>", n)...)
}

// bound: 1 to 300 levels and more up to 70000 (thorough): accepted up to 255
func H_C10_deep() {
	var n int
	if zzsym.Choose("large", 2) == 1 {
		n = []int{301, 510, 511, 512, 513, 1024, 4096, 70000}[zzsym.Choose("n", tier(7, 8))]
	} else {
		n = 1 + zzsym.Choose("n", 300)
	}
	b := nested(n)
	b[1], b[len(b)-2] = zzsym.Byte("h"), zzsym.Byte("h")
	exact(b, conf{true, 3 + 2*zzsym.Choose("lc", 2)})
}

var nameDocs = []stretched{
	{"<", "x", "/>"},
	{"<a ", "x", "=''/>"},
	{"<a b='' ", "x", "='' c=''></a>"},
	{"<a><", "x", " b=''/>y</a>"},
	{"<a xmlns:p='u'><p:", "x", "/></a>"},
	{"<a xmlns:p='u' p:", "x", "='y'/>"},
	{"<a xmlns:", "x", "='u'/>"},
	{"<", "\xE4\xB8\xAD", "/>"},
	{"<a ", "\xC3\xA9", "=''/>"},
	{"<a \xC3\xA9", "\xF0\x90\x80\x80", "=''/>"},
}

// bound: element and attribute names of 2043 to 2049 bytes (1, 2, 3 and 4 byte characters) that end before, within or after 3 (thorough: 4) arbitrary bytes
func H_C10_names() {
	x := nameDocs[zzsym.Choose("doc", len(nameDocs))]
	n := (maxQname - 1 - zzsym.Choose("less", 3)) / len(x.unit)
	b := append(cat(x.pre), run(x.unit, n)...)
	b = append(b, zzsym.Bytes("h", tier(3, 4))...)
	exact(append(b, x.post...), anyNs())
}

// bound: names of 1 to 5000 bytes with an arbitrary byte at the end
func H_C10_lengths() {
	x := nameDocs[zzsym.Choose("doc", tier(7, len(nameDocs)))]
	n := []int{1, 31, 32, 33, 255, 256, 257, 510, 511, 512, 513, 1023, 1024, 2046, 2047, 2048, 2049, 2559, 4094, 4095, 4096, 4097, 5000}[zzsym.Choose("n", 23)]
	b := append(cat(x.pre), run(x.unit, n)...)
	b = append(b, zzsym.Byte("h"))
	exact(append(b, x.post...), anyNs())
}

// bound: prefixes of 508 to 513 bytes of elements, attributes and declarations, with up to 4 arbitrary bytes at their end, names of up to 2047 bytes behind them
func H_C10_prefixes() {
	n := 508 + zzsym.Choose("n", 6)
	p := string(run("p", n-2))
	l := []string{"x", string(run("x", maxQname-n-1)), string(run("x", maxQname-n))}[zzsym.Choose("local", 3)]
	t := []string{
		"<" + p + "$0$1:" + l + " xmlns:" + p + "$0$1='u'/>",
		"<a " + p + "$0$1:" + l + "='' xmlns:" + p + "$0$1='u'/>",
		"<a xmlns:" + p + "pp='u'><" + p + "##:" + l + "/></a>",
		"<" + p + "##:" + l + "/>",
		"<a " + p + "##:" + l + "=''/>",
		"<a " + p + "p:" + l + "#='' xmlns:" + p + "#='u'/>",
	}
	exact(build(t[zzsym.Choose("tpl", len(t))]), anyNs())
}

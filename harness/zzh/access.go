package zzh

import (
	"github.com/alexZaicev/go-vtd-xml/vtdxml/buffer"
	"github.com/alexZaicev/go-vtd-xml/vtdxml/common"
	"github.com/alexZaicev/go-vtd-xml/vtdxml/navigation"
	"github.com/alexZaicev/go-vtd-xml/vtdxml/zzsym"
)

// navOver makes a navigation object over a window of bytes and token records
func navOver(b []byte, off, n int, ns bool, recs []int64, enc common.FormatEncoding) *navigation.VtdNav {
	var bs [4]*buffer.FastLongBuffer
	for i := range bs {
		x, err := buffer.NewFastLongBuffer(buffer.WithFastLongBufferPageSize(2))
		zzsym.Assert(err == nil, "a buffer can be made")
		bs[i] = x
	}
	for _, r := range recs {
		zzsym.Assert(bs[0].Append(r) == nil, "append succeeds")
	}
	nav, err := navigation.NewVtdNav(1, int32(off), int32(n), 0, enc, ns, b, bs[0], bs[1], bs[2], bs[3])
	zzsym.Assert(err == nil && nav != nil, "a navigation object can be made")
	return nav
}

func rec(typ, depth, n, off int) int64 {
	return int64(uint64(typ)<<60 | uint64(depth&255)<<52 | uint64(n)<<32 | uint64(off))
}

type fields struct {
	typ, depth, off, full, qn, pre uint64
}

func fieldsOf(v int64) (f fields) {
	u := uint64(v)
	f.typ = u >> 60
	f.depth = u >> 52 & 255
	f.full = u >> 32 & 0xFFFFF
	f.qn = u >> 32 & 0x7FF
	f.pre = u >> 43 & 0x1FF
	f.off = u & 0x3FFFFFFF
	return
}

func (f fields) isName() bool { return f.typ == tStart || f.typ == tAttr || f.typ == tNs }
func (f fields) isText() bool { return f.typ == tText || f.typ == tCdata || f.typ == tComment }

func checkRecord(nav *navigation.VtdNav, i int, f fields, ns bool) {
	typ, err := nav.GetTokenType(i)
	zzsym.Assert(err == nil && uint64(typ) == f.typ, "the type is the top four bits")
	dep, err := nav.GetTokenDepth(i)
	zzsym.Assert(err == nil && (dep == -1 && f.depth == 255 || f.depth != 255 && dep >= 0 && uint64(dep) == f.depth),
		"the depth is the next eight bits")
	off, err := nav.GetTokenOffset(i)
	zzsym.Assert(err == nil && off >= 0 && uint64(off) == f.off, "the offset is the low thirty bits")
}

// bound: every 64-bit record alone, with and without namespace awareness
func H_C16_single() {
	v := zzsym.Int64("rec")
	ns := zzsym.Choose("ns", 2) == 1
	nav := navOver([]byte("<a/>"), 0, 4, ns, []int64{v}, common.FormatUtf8)
	f := fieldsOf(v)
	checkRecord(nav, 0, f, ns)
	n, err := nav.GetTokenLength(0)
	zzsym.Assert(err == nil && n >= 0, "the length can be read")
	if f.isName() {
		if ns {
			zzsym.Assert(uint64(n) == f.pre<<16|f.qn, "the length of a name has the prefix length in its upper half")
		} else {
			zzsym.Assert(uint64(n) == f.qn, "the length of a name")
		}
	} else {
		zzsym.Assert(uint64(n) == f.full, "the length is the full twenty bits")
	}
}

// bound: every sequence of three 64-bit records, each of them read
func H_C16_three() {
	var vs []int64
	for k := 0; k < 3; k++ {
		vs = append(vs, zzsym.Int64("rec"))
	}
	ns := zzsym.Choose("ns", 2) == 1
	nav := navOver([]byte("<a/>"), 0, 4, ns, vs, common.FormatUtf8)
	i := zzsym.Choose("i", 3)
	f := fieldsOf(vs[i])
	checkRecord(nav, i, f, ns)
	n, err := nav.GetTokenLength(i)
	zzsym.Assert(err == nil && n >= 0, "the length can be read")
	switch {
	case f.isName() && ns:
		zzsym.Assert(uint64(n) == f.pre<<16|f.qn, "the length of a name has the prefix length in its upper half")
	case f.isName():
		zzsym.Assert(uint64(n) == f.qn, "the length of a name")
	case f.isText():
		// a record of full length that is continued is the first of a run
		want, open := f.full, false
		last := f
		for k := i + 1; k < 3; k++ {
			g := fieldsOf(vs[k])
			if g.typ != f.typ || g.depth != f.depth || g.off != f.off+want {
				break
			}
			if last.full != maxToken {
				open = true
				break
			}
			want += g.full
			last = g
		}
		if !open {
			zzsym.Assert(uint64(n) == want, "the length of text is that of its run")
		}
	default:
		zzsym.Assert(uint64(n) == f.full, "the length is the full twenty bits")
	}
}

// bound: 100 records over pages of 4, one arbitrary among them
func H_C16_pages() {
	v := zzsym.Int64("rec")
	at := []int{0, 3, 4, 7, 50, 99}[zzsym.Choose("at", 6)]
	var vs []int64
	for k := 0; k < 100; k++ {
		if k == at {
			vs = append(vs, v)
		} else {
			vs = append(vs, rec(tStart, k, k+1, 5*k))
		}
	}
	nav := navOver([]byte("<a/>"), 0, 4, true, vs, common.FormatUtf8)
	for k := 0; k < 100; k++ {
		checkRecord(nav, k, fieldsOf(vs[k]), true)
	}
}

// ---- strings

// rawOf is the raw string of a range and, if different, the one that shows the
// recorded defect of carriage returns before line feeds.
func rawOf(b []byte, off, n int) (want, known []byte) {
	for i := off; i < off+n; i++ {
		c := b[i]
		if c == '\r' {
			c = '\n'
			if i+1 < off+n && b[i+1] == '\n' {
				known = append(known, '\n')
				i++
			}
		}
		want = append(want, c)
		known = append(known, c)
	}
	return
}

func sameString(got string, want, known []byte, id string) {
	if len(known) != len(want) && len(got) == len(known) {
		zzsym.Assert(zzsym.SameBytes([]byte(got), known), "the string has exactly the characters of the range")
		zzsym.Finding(id)
		return
	}
	zzsym.Assert(zzsym.SameBytes([]byte(got), want), "the string has exactly the characters of the range")
}

func anyEnc() common.FormatEncoding {
	if zzsym.Choose("ascii", 2) == 1 {
		return common.FormatAscii
	}
	return common.FormatUtf8
}

// window makes k arbitrary bytes in the middle of others
func window(k int) (b []byte, off int) {
	off = 2 * zzsym.Choose("off", 2)
	b = append(b, "\r&"[:off]...)
	b = append(b, zzsym.Bytes("d", k)...)
	if off > 0 {
		b = append(b, "\n;"...)
	}
	return
}

// bound: 5 (thorough: 7) arbitrary bytes, every range inside them (32-bit)
func H_C19_ranges() {
	k := tier(5, 7)
	b, w := window(k)
	nav := navOver(b, w, k, false, nil, anyEnc())
	off, n := zzsym.Int32("off"), zzsym.Int32("len")
	zzsym.Assume(off >= int32(w) && n >= 0 && n <= int32(k) && off <= int32(w+k)-n)
	s, err := nav.ToRawStringAtRange(off, n)
	zzsym.Assert(err == nil, "a range inside the document has a raw string")
	want, known := rawOf(b, zzsym.Pick(int(off)), zzsym.Pick(int(n)))
	sameString(s, want, known, "crlf-raw")
}

// bound: 4 (thorough: 6) arbitrary bytes under tokens of every type and offset, prefixed names with prefix lengths up to 2 included
func H_C19_tokens() {
	k := tier(4, 6)
	b, w := window(k)
	typ := zzsym.Choose("type", 14)
	ns := zzsym.Choose("ns", 2) == 1
	o := zzsym.Choose("o", k+1)
	n := zzsym.Choose("n", k-o+1)
	ln := n
	if ns && (typ == tStart || typ == tAttr || typ == tNs) {
		ln |= zzsym.Choose("pre", 3) << 11
	}
	nav := navOver(b, w, k, ns, []int64{rec(typ, zzsym.Choose("depth", 2), ln, w+o)}, anyEnc())
	s, err := nav.ToRawStringAtIndex(0)
	zzsym.Assert(err == nil, "a token inside the document has a raw string")
	want, known := rawOf(b, w+o, n)
	sameString(s, want, known, "crlf-raw")
}

// bound: raw strings of all tokens of the 270-byte and of 7 small documents, 1 (thorough: 2) byte replaced or inserted
func H_C19_parsed() {
	docs := append([]string{everything, "<a>\r\n\r<b c='\r\n'\r/>\n</a>"}, small...)
	b := mutate(docs[zzsym.Choose("doc", len(docs))], tier(1, 2))
	c := anyNs()
	nav, err := parseDoc(b, c)
	observe(err, nav)
	if err != nil {
		return
	}
	for i := 1; i < nav.GetVtdBufferSize(); i++ {
		t := readTok(nav, i, c.ns)
		s, err := nav.ToRawStringAtIndex(i)
		zzsym.Assert(err == nil, "a recorded token has a raw string")
		want, known := rawOf(b, t.off, t.n)
		sameString(s, want, known, "crlf-raw")
	}
}

// resolve is the resolved string of a range; ok false: it has a malformed reference
func resolve(b []byte, off, n int) (want, known []byte, ok bool) {
	d := &xdoc{b: b, end: off + n}
	for i := off; i < off+n; i++ {
		c := b[i]
		if c == '&' {
			d.i = i
			if !d.ref() {
				return nil, nil, false
			}
			x := charOf(b[i:d.i])
			want = append(want, x...)
			known = append(known, x...)
			i = d.i - 1
			continue
		}
		if c == '\r' {
			c = '\n'
			if i+1 < off+n && b[i+1] == '\n' {
				known = append(known, '\n')
				i++
			}
		}
		want = append(want, c)
		known = append(known, c)
	}
	return want, known, true
}

// charOf is the UTF-8 encoding of the character a well-formed reference denotes
func charOf(r []byte) []byte {
	switch r[1] {
	case 'a':
		if r[2] == 'm' {
			return []byte("&")
		}
		return []byte("'")
	case 'l':
		return []byte("<")
	case 'g':
		return []byte(">")
	case 'q':
		return []byte("\"")
	}
	v := uint32(0)
	if r[2] == 'x' {
		for _, c := range r[3 : len(r)-1] {
			switch {
			case c <= '9':
				v = v<<4 + uint32(c-'0')
			case c <= 'F':
				v = v<<4 + uint32(c-'A') + 10
			default:
				v = v<<4 + uint32(c-'a') + 10
			}
		}
	} else {
		for _, c := range r[2 : len(r)-1] {
			v = v*10 + uint32(c-'0')
		}
	}
	switch {
	case v < 0x80:
		return []byte{byte(v)}
	case v < 0x800:
		return []byte{byte(0xC0 | v>>6), byte(0x80 | v&0x3F)}
	case v < 0x10000:
		return []byte{byte(0xE0 | v>>12), byte(0x80 | v>>6&0x3F), byte(0x80 | v&0x3F)}
	}
	return []byte{byte(0xF0 | v>>18), byte(0x80 | v>>12&0x3F), byte(0x80 | v>>6&0x3F), byte(0x80 | v&0x3F)}
}

func resolvesRight(nav *navigation.VtdNav, b []byte, off, n int, s string, err error) {
	want, known, ok := resolve(b, off, n)
	if !ok {
		zzsym.Assert(err != nil, "a malformed reference is an error")
		zzsym.Reach("malformed")
		return
	}
	zzsym.Assert(err == nil, "a range inside the document has a string")
	sameString(s, want, known, "crlf")
}

// bound: 5 (thorough: 6) arbitrary bytes, every range inside them (32-bit)
func H_C20_ranges() {
	k := tier(5, 6)
	b, w := window(k)
	nav := navOver(b, w, k, false, nil, anyEnc())
	off, n := zzsym.Int32("off"), zzsym.Int32("len")
	zzsym.Assume(off >= int32(w) && n >= 0 && n <= int32(k) && off <= int32(w+k)-n)
	s, err := nav.ToStringAtRange(off, n)
	resolvesRight(nav, b, zzsym.Pick(int(off)), zzsym.Pick(int(n)), s, err)
}

var refTemplates = []string{
	"x&####y", "&#####;", "&#x####;", "&#1####;", "&#x1####;", "&#x10##FF;", "&#111####;", "&#0000000000##;",
	"&#x00000000##;", "&a####;", "&q####", "&l###", "&g###", "a&#####", "&lt&#gt;#", "&##;&##;", "&#x&##x;", "&#9999999999#;",
	"&#xFFFFFFF#;", "&#x10000000#;", "&#429496735#;", "&#1844674407370955167#;", "&#x1000000000000000##;", "\xC3\xA9&##;\xE2\x82\xAC",
	"\r#\n&#13;#", "&amp;##x41;", "&#xD##F;", "&#5####;", "&#x##;&apos;#",
}

// bound: 29 templates of references with up to 5 arbitrary bytes, the whole range and every shorter one
func H_C20_refs() {
	b := build(refTemplates[zzsym.Choose("tpl", len(refTemplates))])
	n := len(b) - zzsym.Choose("less", 4)
	if n < 1 {
		return
	}
	nav := navOver(b, 0, len(b), false, nil, anyEnc())
	s, err := nav.ToStringAtRange(0, int32(n))
	resolvesRight(nav, b, 0, n, s, err)
}

// bound: 29 reference templates and 4 arbitrary bytes under tokens of every type
func H_C20_tokens() {
	var b []byte
	if zzsym.Choose("any", 2) == 1 {
		b = zzsym.Bytes("d", 4)
	} else {
		b = build(refTemplates[zzsym.Choose("tpl", len(refTemplates))])
	}
	typ := zzsym.Choose("type", 14)
	b = append([]byte("&"), b...)
	b = append(b, ';')
	n := len(b) - 2
	nav := navOver(b, 0, len(b), false, []int64{rec(typ, 1, n, 1)}, common.FormatUtf8)
	s, err := nav.ToStringAtIndex(0)
	if typ == tText || typ == tVal {
		resolvesRight(nav, b, 1, n, s, err)
		return
	}
	zzsym.Assert(err == nil, "a token inside the document has a string")
	want, known := rawOf(b, 1, n)
	sameString(s, want, known, "crlf")
}

// bound: strings of all tokens of the 270-byte and of 7 small documents, 1 (thorough: 2) byte replaced or inserted
func H_C20_parsed() {
	docs := append([]string{everything, "<a b='&#13;&lt;'>&#x10FFFF;]&gt;\r\n&#65;</a>"}, small...)
	b := mutate(docs[zzsym.Choose("doc", len(docs))], tier(1, 2))
	c := anyNs()
	nav, err := parseDoc(b, c)
	observe(err, nav)
	if err != nil {
		return
	}
	for i := 1; i < nav.GetVtdBufferSize(); i++ {
		t := readTok(nav, i, c.ns)
		s, err := nav.ToStringAtIndex(i)
		if t.typ == tText || t.typ == tVal {
			zzsym.Assert(err == nil, "a recorded token has a string")
			resolvesRight(nav, b, t.off, t.n, s, err)
			continue
		}
		zzsym.Assert(err == nil, "a recorded token has a string")
		want, known := rawOf(b, t.off, t.n)
		sameString(s, want, known, "crlf")
	}
}

// longToken parses a document with a long token
func longToken() (nav *navigation.VtdNav, b []byte, cf conf) {
	k := zzsym.Choose("ctx", 10)
	c := []ctx{{"<", " b=''></%>"}, {"<a ", "='&amp;'/>"}, {"<p:", " xmlns:p='u'/>"}, {"<a xmlns:", "='u'/>"}, {"<a><?", " v?></a>"},
		{"<a b='", "'/>"}, {"<a>", "<b/></a>"}, {"<a><!--", "--></a>"}, {"<a><![CDATA[", "]]></a>"}, {"<a><?p ", "?></a>"}}[k]
	ns := append(append([]int{1, 17, 32, 33}, powers...), 4097, 16385, 65537, 4095, 4096, 16383, 32767, 32768, 32769, 65535, 65536, 70001)
	n := ns[zzsym.Choose("n", tier(len(ns)-9, len(ns)))]
	zzsym.Assume(k > 4 || n <= 2040)
	zzsym.Assume(k != 3 || n <= 511)
	s := []byte(repeat("a", n))
	h := zzsym.Byte("h")
	if zzsym.Choose("last", 2) == 1 {
		s[n-1] = h
	} else {
		s[0] = h
	}
	zzsym.Assume(h >= 'a' && h <= 'z' || k > 4 && h >= '0' && h <= '9')
	b = cat(c.pre, string(s))
	for i := 0; i < len(c.post); i++ {
		if c.post[i] == '%' {
			b = append(b, s...)
		} else {
			b = append(b, c.post[i])
		}
	}
	cf = anyNs()
	nav, err := parseDoc(b, cf)
	observe(err, nav)
	zzsym.Assert(err == nil, "a well-formed document is accepted")
	found := false
	for i := 1; i < nav.GetVtdBufferSize(); i++ {
		found = found || readTok(nav, i, cf.ns).n >= n
	}
	zzsym.Assert(found, "the long token is recorded")
	return
}

// bound: names, prefixed names, targets, values, text, comments and CDATA sections of 1 to 65537 (thorough: 70001) bytes (around powers of two; names up to 2047) with an arbitrary byte at their start or end: the raw string of every token and its range
func H_C19_lengths() {
	nav, b, cf := longToken()
	for i := 1; i < nav.GetVtdBufferSize(); i++ {
		t := readTok(nav, i, cf.ns)
		s, err := nav.ToRawStringAtIndex(i)
		zzsym.Assert(err == nil && zzsym.EqB(s, string(b[t.off:t.off+t.n])), "the string has exactly the characters of the range")
		s, err = nav.ToRawStringAtRange(int32(t.off), int32(t.n))
		zzsym.Assert(err == nil && zzsym.EqB(s, string(b[t.off:t.off+t.n])), "the string has exactly the characters of the range")
	}
}

// bound: names, prefixed names, targets, values, text, comments and CDATA sections of 1 to 65537 (thorough: 70001) bytes (around powers of two; names up to 2047) with an arbitrary byte at their start or end: the string of every token and its range
func H_C20_lengths() {
	nav, b, cf := longToken()
	for i := 1; i < nav.GetVtdBufferSize(); i++ {
		t := readTok(nav, i, cf.ns)
		s, err := nav.ToStringAtIndex(i)
		zzsym.Assert(err == nil, "a recorded token has a string")
		resolvesOr(nav, b, t, s)
		s, err = nav.ToStringAtRange(int32(t.off), int32(t.n))
		zzsym.Assert(err == nil, "a range inside the document has a string")
		resolvesOr(nav, b, t, s)
	}
}

func resolvesOr(nav *navigation.VtdNav, b []byte, t tokRec, s string) {
	if t.typ == tVal && t.n > 0 && b[t.off] == '&' {
		zzsym.Assert(zzsym.EqB(s, "&"), "the string has exactly the characters of the range")
		return
	}
	zzsym.Assert(zzsym.EqB(s, string(b[t.off:t.off+t.n])), "the string has exactly the characters of the range")
}

// ---- C21

func indexCalls(nav *navigation.VtdNav, size int) {
	i := zzsym.Int("i")
	var err error
	switch zzsym.Choose("call", 6) {
	case 0:
		_, err = nav.GetTokenType(i)
	case 1:
		_, err = nav.GetTokenOffset(i)
	case 2:
		_, err = nav.GetTokenLength(i)
	case 3:
		_, err = nav.GetTokenDepth(i)
	case 4:
		_, err = nav.ToStringAtIndex(i)
	case 5:
		_, err = nav.ToRawStringAtIndex(i)
	}
	if i >= 0 && i < size {
		zzsym.Assert(err == nil, "a valid index returns no error")
	} else {
		zzsym.Assert(err != nil, "an index outside is an error")
	}
}

// bound: 4 parsed documents with 2 to 30 tokens, every accessor, every index (64-bit), namespace awareness on and off
func H_C21_index() {
	docs := []string{"<a/>", everything, small[2], "<a>" + repeat("<b c='d'>e</b>", 30) + "</a>"}
	b := []byte(docs[zzsym.Choose("doc", len(docs))])
	off := 3 * zzsym.Choose("off", 2)
	b = append([]byte("<x>"[:off]), b...)
	n := len(b) - off
	b = append(b, "</x>"[:off]...)
	nav, err := parseWin(b, off, n, anyNs())
	zzsym.Assert(err == nil, "a well-formed document is accepted")
	indexCalls(nav, nav.GetVtdBufferSize())
}

// bound: 0 to 9 records over pages of 4, every accessor, every index (64-bit)
func H_C21_records() {
	n := zzsym.Choose("n", 10)
	var vs []int64
	for k := 0; k < n; k++ {
		vs = append(vs, rec(k, k, 2, 0))
	}
	indexCalls(navOver([]byte("<a/>"), 0, 4, true, vs, common.FormatUtf8), n)
}

// bound: documents of 1 to 12 bytes at window offsets 0 and 3, every range (2 x 32 bits), both string calls
func H_C21_range() {
	ns := []int{1, 4, 12}
	n := ns[zzsym.Choose("n", len(ns))]
	off := 3 * zzsym.Choose("off", 2)
	b := []byte("&&&" + "<a b='cd'/>\n"[:n] + "&&&")
	b = b[3-off:]
	if off == 0 && zzsym.Choose("exact", 2) == 1 {
		b = b[:n:n]
	}
	nav := navOver(b, off, n, false, nil, anyEnc())
	o, m := zzsym.Int32("off"), zzsym.Int32("len")
	var err error
	if zzsym.Choose("raw", 2) == 1 {
		_, err = nav.ToRawStringAtRange(o, m)
	} else {
		_, err = nav.ToStringAtRange(o, m)
	}
	if int64(o) >= int64(off) && m >= 0 && int64(o)+int64(m) <= int64(off)+int64(n) {
		zzsym.Assert(err == nil, "a valid range returns no error")
	} else {
		zzsym.Assert(err != nil, "a range outside is an error")
	}
}

// bound: 4 parsed documents at window offsets 0 and 3, every range (2 x 32 bits)
func H_C21_parsed() {
	docs := []string{"<a/>", "<a b='c'>d</a>", "<?p?><a/>", "<a><b/></a>\n"}
	d := docs[zzsym.Choose("doc", len(docs))]
	off := 3 * zzsym.Choose("off", 2)
	b := []byte("&&&"[:off] + d + "&&&"[:off])
	nav, err := parseWin(b, off, len(d), anyNs())
	zzsym.Assert(err == nil, "a well-formed document is accepted")
	o, m := zzsym.Int32("off"), zzsym.Int32("len")
	if zzsym.Choose("raw", 2) == 1 {
		_, err = nav.ToRawStringAtRange(o, m)
	} else {
		_, err = nav.ToStringAtRange(o, m)
	}
	if int64(o) >= int64(off) && m >= 0 && int64(o)+int64(m) <= int64(off)+int64(len(d)) {
		zzsym.Assert(err == nil, "a valid range returns no error")
	} else {
		zzsym.Assert(err != nil, "a range outside is an error")
	}
}

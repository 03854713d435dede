package zzh

import (
	"errors"

	"github.com/alexZaicev/go-vtd-xml/vtdxml/erroring"
	"github.com/alexZaicev/go-vtd-xml/vtdxml/navigation"
	"github.com/alexZaicev/go-vtd-xml/vtdxml/parser"
	"github.com/alexZaicev/go-vtd-xml/vtdxml/zzsym"
)

// ---- C01: the engine itself reports panics and paths that do not end

func survives(b []byte, c conf) {
	nav, err := parseDoc(b, c)
	observe(err, nav)
	if err != nil {
		zzsym.Assert(nav == nil, "no navigation object with an error")
	}
}

// bound: documents of 1 to 6 (thorough: 7) arbitrary bytes, all options
func H_C01_bytes() { survives(zzsym.Bytes("d", 1+zzsym.Choose("n", tier(6, 7))), anyConf()) }

// bound: 51 contexts around a hole of 3 (thorough: 4) arbitrary bytes
func H_C01_hole() { survives(fill(grammarCtx, tier(3, 4)), anyConf()) }

// bound: the 270-byte document cut anywhere, 0 to 3 arbitrary bytes at its end
func H_C01_truncate() {
	d := truncate(everything, zzsym.Choose("n", tier(3, 4)))
	zzsym.Assume(len(d) > 0)
	survives(d, anyConf())
}

// bound: the 270-byte document, any 2 (thorough: 3) neighbouring bytes replaced or inserted
func H_C01_mutate() { survives(mutate(everything, tier(2, 3)), anyConf()) }

// bound: 5 (thorough: 6) arbitrary bytes, every window offset and length (64-bit)
func H_C01_window() {
	b := zzsym.Bytes("d", tier(5, 6))
	off, n := zzsym.Int("off"), zzsym.Int("n")
	c := anyNs()
	p, err := parser.NewVtdParser(parser.WithXmlDocCustomOffset(b, off, n), parser.WithNameSpaceAware(c.ns))
	if err != nil {
		zzsym.Reach("refused")
		return
	}
	err = p.Parse()
	observe(err, nil)
}

// bound: windows at every place of a 70-byte document, with 1 arbitrary byte at each end
func H_C01_edges() {
	const t = "<?xml version='1.0'?><a b='&lt;'><!--c--><d/>]]<![CDATA[x]]>y</a ><?p?>"
	off := zzsym.Choose("off", len(t))
	n := 1 + zzsym.Choose("n", len(t)-off)
	b := []byte(t)
	b[off] = zzsym.Byte("h")
	b[off+n-1] = zzsym.Byte("h")
	p, err := parser.NewVtdParser(parser.WithXmlDocCustomOffset(b, off, n))
	zzsym.Assert(err == nil, "a window inside the document is accepted")
	observe(p.Parse(), nil)
}

// bound: nesting of 253 to 258 levels, 254 to 259 attributes or declarations, 1 to 130 prefixes, then 2 arbitrary bytes
func H_C01_many() {
	k := zzsym.Choose("k", 6)
	c := anyConf()
	var t string
	switch zzsym.Choose("what", 6) {
	case 0:
		t = repeat("<a>", 252+k)
	case 1:
		t = "<a"
		for i := 0; i < 253+k; i++ {
			t += " b" + itoa(i) + "=''"
		}
	case 2:
		t = "<a"
		for i := 0; i < 253+k; i++ {
			t += " xmlns:b" + itoa(i) + "='u'"
		}
	case 3:
		t = "<a xmlns:p='u'"
		for i := 0; i < 253+k; i++ {
			t += " p:b" + itoa(i) + "=''"
		}
	case 4:
		t = repeat("<a>", 253) + repeat("</a>", 248+k)
	case 5:
		t = "<a>" + repeat("<b><c><d><e><f/></e></d></c></b>", 30+k)
	}
	b := append([]byte(t), zzsym.Bytes("h", 2)...)
	survives(b, c)
}

// ---- C12: windows

func sameTokens(x, y *navigation.VtdNav, off int, ns bool) {
	n := x.GetVtdBufferSize()
	zzsym.Assert(n == y.GetVtdBufferSize(), "number of tokens")
	for i := 0; i < n; i++ {
		s, t := readTok(x, i, ns), readTok(y, i, ns)
		zzsym.Assert(s.typ == t.typ && s.n == t.n && s.pre == t.pre && s.depth == t.depth, "same type, length and depth")
		zzsym.Assert(s.off == t.off+off, "offset moved by the window offset")
		u, e1 := x.ToStringAtIndex(i)
		v, e2 := y.ToStringAtIndex(i)
		zzsym.Assert((e1 == nil) == (e2 == nil), "same strings")
		if e1 == nil {
			zzsym.Assert(zzsym.EqB(u, v), "same strings")
		}
	}
	// a walk over all elements
	for steps := 0; ; steps++ {
		i, e1 := x.GetCurrentIndex()
		j, e2 := y.GetCurrentIndex()
		zzsym.Assert(e1 == nil && e2 == nil && i == j, "same walk")
		if zzsym.Tier() == 0 && steps > 12 {
			break
		}
		p, q := walk(x), walk(y)
		zzsym.Assert(p == q, "same walk")
		if !p {
			break
		}
	}
}

// walk moves to the next element in document order
func walk(n *navigation.VtdNav) bool {
	ok, err := n.ToElement(navigation.FirstChild)
	zzsym.Assert(err == nil, "moves succeed")
	for !ok {
		ok, err = n.ToElement(navigation.NextSibling)
		zzsym.Assert(err == nil, "moves succeed")
		if !ok {
			up, err := n.ToElement(navigation.Parent)
			zzsym.Assert(err == nil, "moves succeed")
			if !up {
				return false
			}
		}
	}
	return true
}

func errKind(err error) int {
	var pe *erroring.ParseError
	var ee *erroring.EntityError
	var ne *erroring.EncodingError
	var fe *erroring.EOFError
	var de *erroring.DecodingError
	switch {
	case errors.As(err, &pe):
		return 1
	case errors.As(err, &ee):
		return 2
	case errors.As(err, &ne):
		return 3
	case errors.As(err, &fe):
		return 4
	case errors.As(err, &de):
		return 5
	}
	return 0
}

func windowLikeCopy(doc []byte, before, after int, c conf) {
	b := append(zzsym.Bytes("x", before), doc...)
	b = append(b, zzsym.Bytes("y", after)...)
	cp := make([]byte, len(doc))
	copy(cp, doc)
	y, e2 := parseDoc(cp, c)
	x, e1 := parseWin(b, before, len(doc), c)
	observe(e1, x)
	zzsym.Assert((e1 == nil) == (e2 == nil), "a window has the same outcome as a copy")
	if e1 == nil {
		sameTokens(x, y, before, c.ns)
	} else {
		zzsym.Assert(errKind(e1) == errKind(e2), "a window fails like a copy")
		zzsym.Assert(zzsym.EqB(e1.Error(), e2.Error()), "a window fails with the same message as a copy")
	}
}

// bound: 4 (thorough: 5) arbitrary bytes between 3 and 2 arbitrary bytes outside the window
func H_C12_bytes() { windowLikeCopy(zzsym.Bytes("d", tier(4, 5)), 3, 2, anyNs()) }

// bound: 51 contexts around 2 (thorough: 3) arbitrary bytes, between 1 and 3 arbitrary bytes outside the window
func H_C12_hole() { windowLikeCopy(fill(grammarCtx, tier(2, 3)), 1, 3, anyNs()) }

// bound: the 270-byte document, 1 (thorough: 2) byte replaced or inserted, between 2 and 2 arbitrary bytes outside the window
func H_C12_mutate() { windowLikeCopy(mutate(everything, tier(1, 2)), 2, 2, anyConf()) }

// bound: the 270-byte document cut anywhere, its rest outside the window, and all its suffixes
func H_C12_cut() {
	k := zzsym.Choose("cut", len(everything)-1)
	b := []byte(everything)
	c := anyConf()
	off, n := 0, k+1
	if zzsym.Bool("tail") {
		off, n = k, len(b)-k
	}
	b[off+n-1] = zzsym.Byte("h")
	cp := make([]byte, n)
	copy(cp, b[off:off+n])
	y, e2 := parseDoc(cp, c)
	x, e1 := parseWin(b, off, n, c)
	observe(e1, x)
	zzsym.Assert((e1 == nil) == (e2 == nil), "a window has the same outcome as a copy")
	if e1 == nil {
		sameTokens(x, y, off, c.ns)
	} else {
		zzsym.Assert(errKind(e1) == errKind(e2), "a window fails like a copy")
		zzsym.Assert(zzsym.EqB(e1.Error(), e2.Error()), "a window fails with the same message as a copy")
	}
}

var declared = []string{
	"<?xml version='1.0' encoding='ascii'?><a b='c'>d</a >",
	"<?xml version=\"1.0\" encoding=\"US-ASCII\" standalone='yes'?>\n<!--x--><a/><?p q?>",
	"<?xml version='1.1' encoding='utf-8'?><a>\xC3\xA9&#65;</a>",
	"\xEF\xBB\xBF<?xml version='1.0' encoding='UTF-8'?><a>\xE4\xB8\xAD<![CDATA[x]]></a>\n",
	"\xEF\xBB\xBF<a b='\xC3\xA9'><b/></a>",
	"<?xml version='1.0' encoding='ascii'?><!DOCTYPE a [<!--x-->]><a><b>&lt;</b></a>",
}

// bound: 6 documents with byte order mark or declared encoding, 1 arbitrary byte anywhere, between 1 and 3 arbitrary bytes outside the window
func H_C12_declared() {
	t := declared[zzsym.Choose("doc", len(declared))]
	d := []byte(t)
	d[zzsym.Choose("at", len(t))] = zzsym.Byte("h")
	windowLikeCopy(d, 1, 3, anyNs())
}

// bound: the same documents cut before any of their last 24 bytes, 1 arbitrary byte before the cut, the rest and 2 arbitrary bytes (or none of them) outside the window
func H_C12_rest() {
	t := declared[zzsym.Choose("doc", len(declared))]
	n := len(t) - zzsym.Choose("less", 24)
	zzsym.Assume(n > 0)
	off := 2 * zzsym.Choose("off", 2)
	b := append([]byte("x\n"[:off]), t...)
	b[off+n-1] = zzsym.Byte("h")
	if off > 0 {
		b = append(b, zzsym.Bytes("y", 2)...)
	}
	cp := make([]byte, n)
	copy(cp, b[off:off+n])
	c := anyNs()
	y, e2 := parseDoc(cp, c)
	x, e1 := parseWin(b, off, n, c)
	observe(e1, x)
	zzsym.Assert((e1 == nil) == (e2 == nil), "a window has the same outcome as a copy")
	if e1 == nil {
		sameTokens(x, y, off, c.ns)
	} else {
		zzsym.Assert(errKind(e1) == errKind(e2), "a window fails like a copy")
		zzsym.Assert(zzsym.EqB(e1.Error(), e2.Error()), "a window fails with the same message as a copy")
	}
}

// bound: documents of 1000 to 5000 bytes at page-size boundaries of the buffers, window offsets 0 to 3000, 2 arbitrary bytes
func H_C12_sizes() {
	sizes := []int{1000, 1023, 1024, 1025, 4095, 4097}
	n := sizes[zzsym.Choose("size", len(sizes))]
	t := "<a>" + repeat("<b x='1'/>", (n-9)/10)
	t += repeat(" ", n-len(t)-6) + "##</a>"
	doc := build(t)
	offs := []int{1, 30, 3000}
	off := offs[zzsym.Choose("off", len(offs))]
	b := append([]byte(repeat("<", off)), doc...)
	b = append(b, '>')
	c := conf{true, 3 + 2*zzsym.Choose("lc", 2)}
	y, e2 := parseDoc(doc, c)
	x, e1 := parseWin(b, off, len(doc), c)
	observe(e1, x)
	zzsym.Assert((e1 == nil) == (e2 == nil), "a window has the same outcome as a copy")
	if e1 == nil {
		sameTokens(x, y, off, c.ns)
	}
}

// ---- C13: no side effects

func globalsUntouched() {
	zzsym.Assert(erroring.EOFErrorType != nil && erroring.EOFErrorType.Msg == "" &&
		erroring.EOFErrorType.Error() == "" && erroring.EOFErrorType.Unwrap() == nil, "shared error values are unchanged")
	zzsym.Assert(erroring.ParseErrorType != nil && erroring.ParseErrorType.Msg == "" &&
		erroring.ParseErrorType.LineNumber == "" && erroring.ParseErrorType.Error() == "" &&
		erroring.ParseErrorType.Unwrap() == nil, "shared error values are unchanged")
	zzsym.Assert(erroring.InternalErrorType != nil && erroring.InternalErrorType.Error() == "" &&
		erroring.InternalErrorType.Unwrap() == nil, "shared error values are unchanged")
	zzsym.Assert(erroring.InvalidArgumentErrorType != nil && erroring.InvalidArgumentErrorType.Error() == "" &&
		erroring.InvalidArgumentErrorType.Parameter == "" && erroring.InvalidArgumentErrorType.Msg == "",
		"shared error values are unchanged")
	zzsym.Assert(erroring.EntityErrorType != nil && erroring.EntityErrorType.Msg == "" &&
		erroring.EntityErrorType.Error() == "", "shared error values are unchanged")
	zzsym.Assert(erroring.EncodingErrorType != nil && erroring.EncodingErrorType.Msg == "" &&
		erroring.EncodingErrorType.Error() == "", "shared error values are unchanged")
	zzsym.Assert(erroring.DecodingErrorType != nil && erroring.DecodingErrorType.Msg == "" &&
		erroring.DecodingErrorType.Error() == "", "shared error values are unchanged")
	zzsym.Assert(erroring.NavigationErrorType != nil && erroring.NavigationErrorType.Msg == "" &&
		erroring.NavigationErrorType.Error() == "", "shared error values are unchanged")
}

type summaryOf struct {
	ok   bool
	kind int
	msg  string
	toks []tokRec
	strs []string
	walk []int32
}

func use(nav *navigation.VtdNav, err error, ns bool) (s summaryOf) {
	s.ok = err == nil
	if err != nil {
		s.kind = errKind(err)
		s.msg = err.Error()
		return
	}
	for i := 0; i < nav.GetVtdBufferSize(); i++ {
		s.toks = append(s.toks, readTok(nav, i, ns))
		x, _ := nav.ToStringAtIndex(i)
		y, _ := nav.ToRawStringAtIndex(i)
		s.strs = append(s.strs, x, y)
	}
	for k := 0; k < 20; k++ {
		i, _ := nav.GetCurrentIndex()
		s.walk = append(s.walk, i)
		if !walk(nav) {
			break
		}
	}
	nav.ToElement(navigation.Direction(99))
	return
}

func (s summaryOf) equal(t summaryOf) {
	zzsym.Assert(s.ok == t.ok && s.kind == t.kind && len(s.toks) == len(t.toks) &&
		len(s.walk) == len(t.walk), "repeating the work gives the same result")
	zzsym.Assert(zzsym.EqB(s.msg, t.msg), "repeating the work gives the same error")
	for i := range s.toks {
		zzsym.Assert(s.toks[i] == t.toks[i], "repeating the work gives the same tokens")
		zzsym.Assert(zzsym.EqB(s.strs[2*i], t.strs[2*i]) && zzsym.EqB(s.strs[2*i+1], t.strs[2*i+1]),
			"repeating the work gives the same strings")
	}
	for i := range s.walk {
		zzsym.Assert(s.walk[i] == t.walk[i], "repeating the work gives the same walk")
	}
}

func sideEffectFree(a []byte, c conf) {
	keep := make([]byte, len(a))
	copy(keep, a)
	out := zzsym.StdoutWrites()
	nav, err := parseDoc(a, c)
	observe(err, nav)
	first := use(nav, err, c.ns)
	zzsym.Assert(zzsym.SameBytes(a, keep), "the input bytes are unchanged")
	zzsym.Assert(zzsym.StdoutWrites() == out, "nothing is written to standard output")
	globalsUntouched()

	// another document in between, and two parsers whose work overlaps
	other := []byte("<x:q xmlns:x='u' y='&#65;'><!--k--><w>]</w></x:q>")
	if zzsym.Choose("other", 2) == 1 {
		other = []byte("<?xml version='1.0' encoding='ascii'?><q><w y='")
	}
	p1, e1 := parser.NewVtdParser(parser.WithXmlDoc(a), parser.WithNameSpaceAware(c.ns), parser.WithLcDepth(c.lc))
	p2, e2 := parser.NewVtdParser(parser.WithXmlDoc(other), parser.WithNameSpaceAware(!c.ns), parser.WithLcDepth(8-c.lc))
	zzsym.Assert(e1 == nil && e2 == nil, "construction succeeds")
	err2 := p2.Parse()
	err1 := p1.Parse()
	zzsym.Assert((err1 == nil) == first.ok, "interleaving gives the same outcome")
	if err1 == nil {
		n1, e := p1.GetNav()
		zzsym.Assert(e == nil, "GetNav succeeds")
		if err2 == nil {
			n2, e := p2.GetNav()
			zzsym.Assert(e == nil, "GetNav succeeds")
			n2.ToElement(navigation.FirstChild)
			n2.ToElement(navigation.FirstChild)
		}
		first.equal(use(n1, nil, c.ns))
	} else {
		first.equal(use(nil, err1, c.ns))
	}
	zzsym.Assert(zzsym.SameBytes(a, keep), "the input bytes are unchanged")
	zzsym.Assert(zzsym.StdoutWrites() == out, "nothing is written to standard output")
	globalsUntouched()
}

// bound: 51 contexts around 2 (thorough: 3) arbitrary bytes, two other documents in between
func H_C13_hole() { sideEffectFree(fill(grammarCtx, tier(2, 3)), anyNs()) }

// bound: documents of 4 (thorough: 5) arbitrary bytes
func H_C13_bytes() { sideEffectFree(zzsym.Bytes("d", tier(4, 5)), conf{false, 3}) }

// bound: the 270-byte document, 1 (thorough: 2) byte replaced or inserted
func H_C13_mutate() { sideEffectFree(mutate(everything, tier(1, 2)), anyConf()) }

// bound: a window between 2 and 2 arbitrary bytes around 4 small documents with 2 arbitrary bytes
func H_C13_window() {
	ts := []string{"<a b='##'/>", "<a>&#x##;\r\n</a>", "<p:a xmlns:p='##'/>", "<a>##</a>"}
	d := buildOne(ts)
	b := append(zzsym.Bytes("x", 2), d...)
	b = append(b, zzsym.Bytes("y", 2)...)
	keep := make([]byte, len(b))
	copy(keep, b)
	c := anyNs()
	nav, err := parseWin(b, 2, len(d), c)
	observe(err, nav)
	first := use(nav, err, c.ns)
	zzsym.Assert(zzsym.SameBytes(b, keep), "the input bytes are unchanged")
	nav, err = parseWin(b, 2, len(d), c)
	first.equal(use(nav, err, c.ns))
	globalsUntouched()
}

// ---- C14: line numbers

// lineOf reads the number after "Line number: "
func lineOf(s string) int {
	const mark = "Line number: "
	i := 0
	for i+len(mark) <= len(s) && s[i:i+len(mark)] != mark {
		i++
	}
	if i+len(mark) > len(s) {
		return -1
	}
	v, digits := 0, 0
	for k := i + len(mark); k < len(s) && s[k] >= '0' && s[k] <= '9'; k++ {
		v = v*10 + int(s[k]-'0')
		digits++
	}
	if digits == 0 {
		return -1
	}
	return v
}

func lineFeeds(b []byte) int {
	n := 0
	for _, c := range b {
		if c == '\n' {
			n++
		}
	}
	return n
}

// unreadable: a construct that starts here may be reported for another reason
// than its first character
func unreadable(b []byte) bool {
	for k := 0; k < 10; k++ {
		if k >= len(b) || b[k] >= 0x80 || b[k] == '&' {
			return true
		}
	}
	return false
}

func rightLine(b []byte, off, n int, c conf) {
	zzsym.Precise(true)
	nav, err := parseWin(b, off, n, c)
	observe(err, nav)
	if err == nil {
		return
	}
	var pe *erroring.ParseError
	if !errors.As(err, &pe) {
		return
	}
	line := lineOf(pe.LineNumber)
	zzsym.Assert(line >= 1 || pe.LineNumber == "", "the position names a line")
	if line >= 1 {
		zzsym.Assert(line <= 1+lineFeeds(b[off:off+n]), "the line lies in the window")
	}
	d := judge(b, off, n, c.ns)
	if d.verdict == vReject && d.kind == rkChar && !(b[off] == '<' && n > 1 && b[off+1] == 0) {
		if line == -1 && unreadable(b[d.pos:off+n]) {
			return
		}
		zzsym.Assert(line == 1+lineFeeds(b[off:d.pos]), "the line of the character that is not allowed")
	}
}

// spread puts line feeds into a document where white space is allowed
const lined = "<?xml\nversion='1.0'\n?>\n<!--\n-->\n<a\nb=\n'\n'\n>\n<d\n/>\n<!--\n-->\n<![CDATA[\n]]>\n<?p\n\n?>\n</a\n>\n<?q?>\n"

// bound: a 90-byte document with 27 lines, 1 (thorough: 2) byte replaced or inserted, window offset 0 or 3 behind line feeds
func H_C14_mutate() {
	d := mutate(lined, tier(1, 2))
	off := 3 * zzsym.Choose("off", 2)
	b := append([]byte("\n\n\n"[:off]), d...)
	b = append(b, "\n\n\n"[:off]...)
	rightLine(b, off, len(d), anyNs())
}

// bound: 51 contexts around 3 (thorough: 4) arbitrary bytes
func H_C14_hole() {
	d := fill(grammarCtx, tier(3, 4))
	rightLine(d, 0, len(d), conf{false, 3})
}

// bound: documents of 5 (thorough: 6) arbitrary bytes, 2 of them or none outside the window
func H_C14_bytes() {
	k := zzsym.Choose("off", 3)
	d := zzsym.Bytes("d", tier(5, 6))
	rightLine(d, k, len(d)-k, conf{false, 3})
}

// bound: 270-byte document, 1 (thorough: 2) byte replaced or inserted
func H_C14_everything() {
	d := mutate(everything, tier(1, 2))
	rightLine(d, 0, len(d), anyNs())
}

// bound: errors on line 1 to 120 after 1 or 2 bytes per line, 2 arbitrary bytes, in text, attribute, comment
func H_C14_far() {
	k := zzsym.Choose("lines", 6)
	lf := []string{"\n", "\r\n", "x\n", "\n\n", "\r", "\xC3\xA9\n"}[k]
	n := []int{8, 9, 10, 98, 99, 119}[zzsym.Choose("n", 6)]
	w := []ctx{{"<a>", "</a>"}, {"<a b='", "'/>"}, {"<!--", "--><a/>"}, {"<a/><?p ", "?>"}, {"<a><![CDATA[", "]]></a>"}}
	x := w[zzsym.Choose("ctx", len(w))]
	d := append([]byte(x.pre+repeat(lf, n)), zzsym.Bytes("h", 2)...)
	d = append(d, x.post...)
	rightLine(d, 0, len(d), conf{false, 3})
}

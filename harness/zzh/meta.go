package zzh

import (
	"github.com/alexZaicev/go-vtd-xml/vtdxml/navigation"
	"github.com/alexZaicev/go-vtd-xml/vtdxml/parser"
	"github.com/alexZaicev/go-vtd-xml/vtdxml/zzsym"
)

// Properties that relate several uses of the library to each other; none of
// them needs to know which documents are well-formed.

// ---- C33: a navigation object exists after a successful parse only

func noNav(p *parser.VtdParser) {
	nav, err := p.GetNav()
	zzsym.Assert(err != nil && nav == nil, "no navigation object without a successful parse")
}

func navOnlyAfterSuccess(p *parser.VtdParser) {
	noNav(p)
	err := p.Parse()
	if err != nil {
		observe(err, nil)
		noNav(p)
		noNav(p)
		return
	}
	nav, e := p.GetNav()
	zzsym.Assert(e == nil && nav != nil, "a navigation object after a successful parse")
	observe(nil, nav)
	ok, e := nav.ToElement(navigation.Root)
	zzsym.Assert(e == nil && ok, "the root can be reached")
	i, e := nav.GetCurrentIndex()
	zzsym.Assert(e == nil && i >= 1 && int(i) < nav.GetVtdBufferSize(), "the root is a token")
	typ, e := nav.GetTokenType(int(i))
	zzsym.Assert(e == nil && typ == tStart, "the root is a start tag")
}

func newParser(b []byte, c conf) *parser.VtdParser {
	p, err := parser.NewVtdParser(parser.WithXmlDoc(b), parser.WithNameSpaceAware(c.ns), parser.WithLcDepth(c.lc))
	zzsym.Assert(err == nil, "the constructor accepts a document that is not empty")
	return p
}

// bound: documents of 1 to 6 (thorough: 7) arbitrary bytes
func H_C33_bytes() {
	b := zzsym.Bytes("d", 1+zzsym.Choose("n", tier(6, 7)))
	navOnlyAfterSuccess(newParser(b, conf{false, 3}))
}

// bound: 51 contexts around a hole of 3 (thorough: 4) arbitrary bytes
func H_C33_hole() {
	b := fill(grammarCtx, tier(3, 4))
	navOnlyAfterSuccess(newParser(b, anyNs()))
}

// bound: the 270-byte and 7 small documents, any 2 (thorough: 3) neighbouring bytes replaced or inserted
func H_C33_mutate() {
	docs := append([]string{everything}, small...)
	b := mutate(docs[zzsym.Choose("doc", len(docs))], tier(2, 3))
	navOnlyAfterSuccess(newParser(b, anyConf()))
}

// bound: the 270-byte and 7 small documents cut anywhere, 0 to 2 arbitrary bytes at their end, all options
func H_C33_truncate() {
	docs := append([]string{everything}, small...)
	b := truncate(docs[zzsym.Choose("doc", len(docs))], zzsym.Choose("n", 3))
	zzsym.Assume(len(b) > 0)
	navOnlyAfterSuccess(newParser(b, anyConf()))
}

// bound: windows at every place of a 70-byte document, 1 arbitrary byte at each end
func H_C33_window() {
	const t = "<?xml version='1.0'?><a b='&lt;'><!--c--><d/>]]<![CDATA[x]]>y</a ><?p?>"
	off := zzsym.Choose("off", len(t))
	n := 1 + zzsym.Choose("n", len(t)-off)
	b := []byte(t)
	b[off] = zzsym.Byte("h")
	b[off+n-1] = zzsym.Byte("h")
	p, err := parser.NewVtdParser(parser.WithXmlDocCustomOffset(b, off, n))
	zzsym.Assert(err == nil, "a window inside the document is accepted")
	navOnlyAfterSuccess(p)
}

// ---- C34: reading changes nothing, navigation objects are independent

// readSome calls one of the accessors
func readSome(nav *navigation.VtdNav, i int) {
	switch zzsym.Choose("accessor", 8) {
	case 0:
		nav.GetTokenType(i)
	case 1:
		nav.GetTokenDepth(i)
	case 2:
		nav.GetTokenOffset(i)
	case 3:
		nav.GetTokenLength(i)
	case 4:
		nav.ToStringAtIndex(i)
	case 5:
		nav.ToRawStringAtIndex(i)
	case 6:
		nav.ToStringAtRange(int32(i), int32(i))
	case 7:
		nav.ToRawStringAtRange(int32(i), 1)
	}
}

// bound: trees of 2 (thorough: 4) symbolic tags on 6 levels: at every element every accessor is called with any index (64-bit) before a move in any direction
func H_C34_read() {
	nav, t := parseTree(slotTree(tier(2, 4)))
	cur := t.goTo(nav, zzsym.Choose("target", len(t.idx)))
	readSome(nav, zzsym.Int("i"))
	t.at(nav, cur)
	t.step(nav, cur, legalDir())
}

// bound: 5 trees of up to 14 elements: every interleaving of 3 (thorough: 5) moves of any direction with two navigation objects of one parser, then all elements visited with a third
func H_C34_two() {
	b := []byte(shapes[zzsym.Choose("shape", len(shapes))])
	c := conf{false, 3 + 2*zzsym.Choose("lc", 2)}
	d := judge(b, 0, len(b), false)
	t := treeOf(d.toks)
	p := newParser(b, c)
	zzsym.Assert(p.Parse() == nil, "a well-formed document is accepted")
	var navs [2]*navigation.VtdNav
	cur := [2]int{-1, -1}
	for i := range navs {
		n, err := p.GetNav()
		zzsym.Assert(err == nil, "GetNav succeeds after a successful parse")
		navs[i] = n
	}
	for k := tier(3, 5); k > 0; k-- {
		i := zzsym.Choose("who", 2)
		cur[i] = t.step(navs[i], cur[i], legalDir())
		t.at(navs[1-i], cur[1-i])
	}
	n, err := p.GetNav()
	zzsym.Assert(err == nil, "GetNav succeeds after a successful parse")
	t.traverse(n, nil)
	t.at(navs[0], cur[0])
	t.at(navs[1], cur[1])
}

// bound: the strings, types, offsets, lengths and depths of all tokens of the 270-byte and 7 small documents with 1 arbitrary byte replaced or inserted, read forwards, backwards and between the steps of a traversal
func H_C34_again() {
	docs := append([]string{everything}, small...)
	b := mutate(docs[zzsym.Choose("doc", len(docs))], 1)
	c := anyNs()
	p := newParser(b, c)
	err := p.Parse()
	observe(err, nil)
	if err != nil {
		return
	}
	n1, e1 := p.GetNav()
	n2, e2 := p.GetNav()
	zzsym.Assert(e1 == nil && e2 == nil, "GetNav succeeds after a successful parse")
	size := n1.GetVtdBufferSize()
	var toks []tokRec
	var strs []string
	for i := 0; i < size; i++ {
		toks = append(toks, readTok(n1, i, c.ns))
		x, _ := n1.ToStringAtIndex(i)
		y, _ := n1.ToRawStringAtIndex(i)
		strs = append(strs, x, y)
	}
	for i := size - 1; i >= 0; i-- {
		n, m := n1, n2
		if i&1 == 1 {
			n, m = n2, n1
		}
		m.ToElement(navigation.FirstChild)
		zzsym.Assert(n.GetVtdBufferSize() == size, "the number of tokens stays")
		zzsym.Assert(readTok(n, i, c.ns) == toks[i], "reading a token again gives the same")
		y, _ := n.ToRawStringAtIndex(i)
		x, _ := n.ToStringAtIndex(i)
		zzsym.Assert(zzsym.EqB(x, strs[2*i]) && zzsym.EqB(y, strs[2*i+1]), "reading a string again gives the same")
	}
}

// ---- C35: options change only what they name

func optionsOnly(b []byte, orders int) {
	lc, reuse, order := zzsym.Int("lc"), zzsym.Bool("reuse"), zzsym.Choose("order", orders)
	ns := zzsym.Choose("ns", 2) == 1
	p, err := parser.NewVtdParser(parser.WithXmlDoc(b), parser.WithNameSpaceAware(ns))
	zzsym.Assert(err == nil, "the constructor accepts a document that is not empty")
	err = p.Parse()
	observe(err, nil)
	opts := []parser.Option{parser.WithXmlDoc(b), parser.WithNameSpaceAware(ns),
		parser.WithBufferReuse(reuse), parser.WithLcDepth(lc)}
	switch order {
	case 1:
		opts[0], opts[3] = opts[3], opts[0]
	case 2:
		opts[0], opts[1], opts[2], opts[3] = opts[2], opts[0], opts[3], opts[1]
	}
	q, e := parser.NewVtdParser(opts...)
	zzsym.Assert(e == nil, "every option value is accepted")
	e = q.Parse()
	zzsym.Assert((err == nil) == (e == nil), "cache depth and buffer reuse do not change the outcome")
	if err != nil {
		zzsym.Assert(errKind(err) == errKind(e) && zzsym.EqB(err.Error(), e.Error()),
			"cache depth and buffer reuse do not change the error")
	} else {
		sameNav(p, q, ns, ns, true)
	}
	if !ns {
		return
	}
	off, e := parser.NewVtdParser(parser.WithNameSpaceAware(false), parser.WithXmlDoc(b))
	zzsym.Assert(e == nil, "every option value is accepted")
	e = off.Parse()
	if e != nil {
		zzsym.Assert(err != nil, "what is rejected without namespace awareness is rejected with it")
	} else if err == nil {
		sameNav(p, off, true, false, true)
	}
}

// sameNav compares the tokens and the elements in order of navigation
func sameNav(p, q *parser.VtdParser, pns, qns bool, walked bool) {
	a, e1 := p.GetNav()
	b, e2 := q.GetNav()
	zzsym.Assert(e1 == nil && e2 == nil, "GetNav succeeds after a successful parse")
	zzsym.Assert(a.GetVtdBufferSize() == b.GetVtdBufferSize(), "options do not change the number of tokens")
	for i := 0; i < a.GetVtdBufferSize(); i++ {
		x, y := readTok(a, i, pns), readTok(b, i, qns)
		zzsym.Assert(x.typ == y.typ && x.off == y.off && x.n == y.n && x.depth == y.depth &&
			(pns != qns || x.pre == y.pre), "options do not change the tokens")
	}
	for k := 0; walked && k < 40; k++ {
		i, e1 := a.GetCurrentIndex()
		j, e2 := b.GetCurrentIndex()
		zzsym.Assert(i == j && e1 == nil && e2 == nil, "options do not change the elements reached")
		x, y := walk(a), walk(b)
		zzsym.Assert(x == y, "options do not change the elements reached")
		if !x {
			return
		}
	}
}

// bound: documents of 4 (thorough: 5) arbitrary bytes, every value and 3 orders of the options
func H_C35_bytes() { optionsOnly(zzsym.Bytes("d", tier(4, 5)), 3) }

// bound: 51 contexts around a hole of 2 (thorough: 3) arbitrary bytes, every value and 3 orders of the options
func H_C35_hole() { optionsOnly(fill(grammarCtx, tier(2, 3)), 3) }

// bound: the 270-byte document, any byte replaced or one inserted, every value of the options
func H_C35_mutate() { optionsOnly(mutate(everything, 1), tier(1, 3)) }

// bound: 7 small documents, any 2 (thorough: 3) neighbouring bytes replaced or inserted, every value of the options
func H_C35_small() {
	optionsOnly(mutate(small[zzsym.Choose("doc", len(small))], tier(2, 3)), 1)
}

// bound: trees of 4 (thorough: 6) symbolic tags on 6 levels, every value of the options
func H_C35_slots() {
	b, _ := slotTree(tier(4, 6))
	optionsOnly(b, 1)
}

// bound: documents of 1030 and 4100 (thorough: also 16400 and 66000) bytes (page sizes of the buffers) with 1 arbitrary byte in a prefix
func H_C35_sizes() {
	n := []int{1030, 4100, 16400, 66000}[zzsym.Choose("n", tier(2, 4))]
	b := []byte("<a xmlns:p='u'><b><c/></b>" + repeat("<b><c><d><e/></d></c></b>", 8) + repeat(" ", n) + "<")
	b = append(b, zzsym.Bytes("h", 1)...)
	optionsOnly(append(b, ":d c=''/><b><c/></b></a>"...), 1)
}

// ---- C36: recorded tokens are where their markup is

func hasAt(b []byte, i int, s string) bool {
	if i < 0 || i+len(s) > len(b) {
		return false
	}
	for k := 0; k < len(s); k++ {
		if b[i+k] != s[k] {
			return false
		}
	}
	return true
}

func isWs(c byte) bool { return c == ' ' || c == '\t' || c == '\r' || c == '\n' }

func wellPlaced(b []byte, off, n int, c conf) {
	nav, err := parseWin(b, off, n, c)
	observe(err, nav)
	if err != nil {
		return
	}
	end := off + n
	b = b[:end]
	at, open, roots := off, -1, 0
	last := tokRec{typ: tDoc}
	quotes := func(t tokRec) {
		q := t.off - 1
		zzsym.Assert(q >= off && t.off+t.n < end && (b[q] == '"' || b[q] == '\'') && b[q] == b[t.off+t.n],
			"a value stands between quotes")
	}
	for i := 1; i < nav.GetVtdBufferSize(); i++ {
		t := readTok(nav, i, c.ns)
		if t.typ == tPiVal && t.n == 0 {
			// no place is promised for an absent value
			zzsym.Assert(last.typ == tPiName && t.off >= off && t.off <= end, "an absent value stands after its target")
			t.off = at
		}
		zzsym.Assert(t.n >= 0 && t.off >= at && t.off+t.n <= end, "tokens follow each other inside the window")
		zzsym.Assert(t.pre >= 0 && t.pre <= t.n, "a prefix is part of its name")
		switch t.typ {
		case tStart:
			zzsym.Assert(t.n > 0 && t.depth >= 0 && t.depth <= open+1, "an element is at most one level deeper than the one before")
			zzsym.Assert(hasAt(b, t.off-1, "<"), "an element name follows '<'")
			if t.depth == 0 {
				roots++
			}
			open = t.depth
		case tAttr, tNs:
			zzsym.Assert(t.n > 0 && open >= 0 && t.depth == open && (last.typ == tStart || last.typ == tVal),
				"attributes belong to the element before")
			zzsym.Assert(isWs(b[t.off-1]), "an attribute name follows white space")
			if t.typ == tNs {
				zzsym.Assert(hasAt(b, t.off, "xmlns"), "a declaration is named xmlns")
			}
		case tVal:
			zzsym.Assert(last.typ == tAttr || last.typ == tNs, "a value follows its attribute")
			zzsym.Assert(t.depth == open, "a value has the level of its attribute")
			quotes(t)
		case tText:
			zzsym.Assert(t.depth >= 0 && t.depth <= open && (b[t.off-1] == '>'), "text follows markup inside an element")
			zzsym.Assert(hasAt(b, t.off+t.n, "<"), "text ends where markup starts")
		case tCdata:
			zzsym.Assert(t.depth >= 0 && t.depth <= open && hasAt(b, t.off-9, "<![CDATA[") && hasAt(b, t.off+t.n, "]]>"),
				"a CDATA section stands between its delimiters")
		case tComment:
			zzsym.Assert(t.depth <= open && hasAt(b, t.off-4, "<!--") && hasAt(b, t.off+t.n, "-->"),
				"a comment stands between its delimiters")
		case tPiName:
			zzsym.Assert(t.n > 0 && t.depth <= open && hasAt(b, t.off-2, "<?"), "a target follows '<?'")
		case tPiVal:
			zzsym.Assert(last.typ == tPiName && t.depth == last.depth, "an instruction has a target and a value")
			zzsym.Assert(t.n == 0 || hasAt(b, t.off+t.n, "?>"), "a value ends at '?>'")
		case tDtd:
			zzsym.Assert(open < 0 && t.depth == -1 && hasAt(b, t.off-9, "<!DOCTYPE") && hasAt(b, t.off+t.n, ">"),
				"a document type declaration stands between its delimiters")
		case tDecName:
			zzsym.Assert(open < 0 && t.depth == -1 && (i == 1 || last.typ == tDecVal), "the declaration comes first")
		case tDecVal:
			zzsym.Assert(last.typ == tDecName && t.depth == -1, "a value follows its name")
			quotes(t)
		default:
			zzsym.Assert(false, "a known type of token")
		}
		if last.typ == tAttr || last.typ == tNs {
			zzsym.Assert(t.typ == tVal, "an attribute has a value")
		}
		if last.typ == tPiName {
			zzsym.Assert(t.typ == tPiVal, "an instruction has a target and a value")
		}
		if last.typ == tDecName {
			zzsym.Assert(t.typ == tDecVal, "a part of the declaration has a value")
		}
		at, last = t.off+t.n, t
	}
	zzsym.Assert(roots == 1, "there is one root element")
	zzsym.Assert(last.typ != tAttr && last.typ != tNs && last.typ != tPiName && last.typ != tDecName, "nothing is missing at the end")
}

func placed(b []byte, c conf) { wellPlaced(b, 0, len(b), c) }

// bound: documents of 6 (thorough: 7) arbitrary bytes
func H_C36_bytes() { placed(zzsym.Bytes("d", tier(6, 7)), anyNs()) }

// bound: 51 contexts around a hole of 5 (thorough: 6) arbitrary bytes
func H_C36_hole() { placed(fill(grammarCtx, tier(5, 6)), anyNs()) }

// bound: the 270-byte document, any 3 (thorough: 4) neighbouring bytes replaced or inserted
func H_C36_mutate() { placed(mutate(everything, tier(3, 4)), anyNs()) }

// bound: 7 small documents, any 3 (thorough: 4) neighbouring bytes replaced or inserted
func H_C36_small() { placed(mutate(small[zzsym.Choose("doc", len(small))], tier(3, 4)), anyNs()) }

// bound: a window between 2 and 2 arbitrary bytes around 7 small documents with any 2 neighbouring bytes replaced or inserted
func H_C36_window() {
	d := mutate(small[zzsym.Choose("doc", len(small))], 2)
	b := append(zzsym.Bytes("x", 2), d...)
	b = append(b, zzsym.Bytes("y", 2)...)
	wellPlaced(b, 2, len(d), anyNs())
}

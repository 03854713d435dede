package zzh

import (
	"errors"

	"github.com/alexZaicev/go-vtd-xml/vtdxml/buffer"
	"github.com/alexZaicev/go-vtd-xml/vtdxml/common"
	"github.com/alexZaicev/go-vtd-xml/vtdxml/erroring"
	"github.com/alexZaicev/go-vtd-xml/vtdxml/modifier"
	"github.com/alexZaicev/go-vtd-xml/vtdxml/navigation"
	"github.com/alexZaicev/go-vtd-xml/vtdxml/parser"
	"github.com/alexZaicev/go-vtd-xml/vtdxml/pilot"
	"github.com/alexZaicev/go-vtd-xml/vtdxml/reader"
	"github.com/alexZaicev/go-vtd-xml/vtdxml/zzsym"
)

func parserOutcome(p *parser.VtdParser, err error, valid bool) {
	if valid {
		zzsym.Assert(err == nil && p != nil, "valid options are accepted")
		zzsym.Reach("valid")
		return
	}
	zzsym.Assert(err != nil && isArgErr(err), "an invalid option is an invalid argument")
	zzsym.Assert(p == nil, "no object with an error")
	zzsym.Reach("invalid")
}

// bound: documents of 0 to 3 arbitrary bytes (with and without spare capacity) or none, every window (2 x 64 bits), every value of the other options
func H_C29_parser() {
	n := zzsym.Choose("n", 5) - 1
	var d []byte
	if n >= 0 {
		d = zzsym.Bytes("d", n)
		if zzsym.Choose("roomy", 2) == 1 {
			d = roomy(d)
		}
	}
	off, ln := zzsym.Int("off"), zzsym.Int("len")
	opts := []parser.Option{
		parser.WithXmlDocCustomOffset(d, off, ln),
		parser.WithNameSpaceAware(zzsym.Bool("ns")),
		parser.WithBufferReuse(zzsym.Bool("reuse")),
		parser.WithLcDepth(zzsym.Int("lc")),
	}
	p, err := parser.NewVtdParser(opts...)
	parserOutcome(p, err, n > 0 && off >= 0 && off < n && ln > 0 && ln <= n-off)
}

// bound: documents of 0 to 3 arbitrary bytes or none, every value of the other options, in both orders, or no option at all
func H_C29_whole() {
	n := zzsym.Choose("n", 5) - 1
	var d []byte
	if n >= 0 {
		d = zzsym.Bytes("d", n)
		if zzsym.Choose("roomy", 2) == 1 {
			d = roomy(d)
		}
	}
	opts := []parser.Option{
		parser.WithXmlDoc(d),
		parser.WithNameSpaceAware(zzsym.Bool("ns")),
		parser.WithBufferReuse(zzsym.Bool("reuse")),
		parser.WithLcDepth(zzsym.Int("lc")),
	}
	switch zzsym.Choose("order", 3) {
	case 1:
		for i := 0; i < 2; i++ {
			opts[i], opts[3-i] = opts[3-i], opts[i]
		}
	case 2:
		opts, n = opts[1:], 0
	}
	p, err := parser.NewVtdParser(opts...)
	parserOutcome(p, err, n > 0)
}

// bound: documents of 1025 to 300000 bytes (every size class of the buffers) with a window of every length (64-bit) in three of them
func H_C29_large() {
	n := []int{1025, 4097, 16385, 65537, 262145, 300000}[zzsym.Choose("n", 6)]
	d := make([]byte, n)
	off, ln := zzsym.Int("off"), zzsym.Int("len")
	p, err := parser.NewVtdParser(parser.WithXmlDocCustomOffset(d, off, ln), parser.WithLcDepth(zzsym.Int("lc")))
	parserOutcome(p, err, off >= 0 && off < n && ln > 0 && ln <= n-off)
}

// bound: both readers over nothing or 0 to 4 arbitrary bytes (with and without spare capacity), every start and end (2 x 64 bits)
func H_C29_reader() {
	n := zzsym.Choose("n", 6) - 1
	var d []byte
	if n >= 0 {
		d = zzsym.Bytes("d", n)
		if zzsym.Choose("roomy", 2) == 1 {
			d = roomy(d)
		}
	}
	from, to := zzsym.Int("from"), zzsym.Int("to")
	var err error
	var isNil bool
	if zzsym.Choose("ascii", 2) == 1 {
		r, e := reader.NewAsciiReader(d, from, to)
		err, isNil = e, r == nil
	} else {
		r, e := reader.NewUtf8Reader(d, from, to)
		err, isNil = e, r == nil
	}
	switch {
	case n >= 0 && from >= 0 && from < to && to <= n:
		zzsym.Assert(err == nil && !isNil, "a window inside the data is accepted")
	case n >= 0 && from == to && from >= 0 && from <= n:
		// nothing to read
		zzsym.Assert(err == nil && !isNil || isNil && isArgErr(err), "an empty window is accepted or an invalid argument")
	default:
		zzsym.Assert(err != nil && isArgErr(err) && isNil, "a window outside the data is an invalid argument")
	}
}

// bound: no data and 1 to 4 arbitrary bytes
func H_C29_bytes() {
	b, err := buffer.NewUniByteBuffer(nil)
	zzsym.Assert(b == nil && err != nil && isArgErr(err), "a byte buffer without data is an invalid argument")
	b, err = buffer.NewUniByteBuffer(zzsym.Bytes("d", 1+zzsym.Choose("n", 4)))
	zzsym.Assert(b != nil && err == nil, "a byte buffer over data is accepted")
}

// bound: nil and parsed navigators, caching on, off or not given, in every order
func H_C29_nav() {
	var nav navigation.Nav
	valid := zzsym.Choose("nav", 2) == 1
	if valid {
		x, err := parseDoc([]byte("<a/>"), anyNs())
		zzsym.Assert(err == nil, "a well-formed document is accepted")
		nav = x
	}
	caching := zzsym.Bool("caching")
	var opts []pilot.Option
	switch zzsym.Choose("order", 3) {
	case 0:
		opts = []pilot.Option{pilot.WithNavigation(nav)}
	case 1:
		opts = []pilot.Option{pilot.WithNavigation(nav), pilot.WithCaching(caching)}
	case 2:
		opts = []pilot.Option{pilot.WithCaching(caching), pilot.WithNavigation(nav)}
	}
	p, err := pilot.NewAutoPilot(opts...)
	m, err2 := modifier.NewXmlModifier(modifier.WithNavigation(nav))
	if valid {
		zzsym.Assert(p != nil && err == nil && m != nil && err2 == nil, "a navigator is accepted")
	} else {
		zzsym.Assert(p == nil && err != nil && isArgErr(err), "a pilot without navigator is an invalid argument")
		zzsym.Assert(m == nil && err2 != nil && isArgErr(err2), "a modifier without navigator is an invalid argument")
	}
}

// ---- C30

// anyNav is a navigator with any encoding and token count
type anyNav struct {
	navigation.Nav
	enc  common.FormatEncoding
	size int
}

func (n anyNav) GetEncoding() common.FormatEncoding { return n.enc }
func (n anyNav) GetVtdBufferSize() int              { return n.size }

func modifierFor(nav navigation.Nav, enc common.FormatEncoding) {
	m, err := modifier.NewXmlModifier(modifier.WithNavigation(nav))
	if enc == common.FormatAscii || enc == common.FormatUtf8 {
		zzsym.Assert(err == nil && m != nil, "a supported encoding is accepted")
		zzsym.Reach("accepted")
		return
	}
	var me *erroring.ModifyError
	zzsym.Assert(m == nil && err != nil && errors.As(err, &me), "another encoding is a modify error")
	zzsym.Reach("refused")
}

// bound: every encoding (64-bit), every token count from 0 to 2^31-1
func H_C30_encoding() {
	enc, size := zzsym.Int("enc"), zzsym.Int("size")
	zzsym.Assume(size >= 0 && size <= 1<<31-1)
	e := common.FormatEncoding(enc)
	modifierFor(anyNav{enc: e, size: size}, e)
}

// bound: navigation objects with every encoding (64-bit) and 0 to 9 tokens
func H_C30_nav() {
	e := common.FormatEncoding(zzsym.Int("enc"))
	n := zzsym.Choose("n", 10)
	var vs []int64
	for k := 0; k < n; k++ {
		vs = append(vs, zzsym.Int64("rec"))
	}
	nav := navOver([]byte("<a/>"), 0, 4, zzsym.Bool("ns"), vs, e)
	zzsym.Assert(nav.GetEncoding() == e && nav.GetVtdBufferSize() == n, "the navigation object has the given encoding and tokens")
	modifierFor(nav, e)
}

// bound: 10 documents with and without declared encoding, in any letter case, 1 to 300 elements, 2 arbitrary bytes of content
func H_C30_parsed() {
	decls := []string{"", "<?xml version='1.0'?>", "\xEF\xBB\xBF", "<?xml version='1.0' encoding='%'?>"}
	names := []string{"utf-8", "ascii", "us-ascii"}
	t := decls[zzsym.Choose("decl", len(decls))]
	ascii := false
	var b []byte
	for i := 0; i < len(t); i++ {
		if t[i] != '%' {
			b = append(b, t[i])
			continue
		}
		k := zzsym.Choose("name", 3)
		ascii = k > 0
		for j := 0; j < len(names[k]); j++ {
			c := names[k][j]
			x := zzsym.Byte("h")
			zzsym.Assume(x == c || c >= 'a' && x == c-32)
			b = append(b, x)
		}
	}
	n := []int{0, 1, 300}[zzsym.Choose("n", 3)]
	b = append(b, "<a>"...)
	b = append(b, repeat("<b/>", n)...)
	b = append(b, zzsym.Bytes("c", 2)...)
	b = append(b, "</a>"...)
	nav, err := parseDoc(b, conf{false, 3})
	observe(err, nav)
	if err != nil {
		zzsym.Assert(judge(b, 0, len(b), false).verdict != vAccept, "a well-formed document is accepted")
		return
	}
	if ascii {
		zzsym.Assert(nav.GetEncoding() == common.FormatAscii, "the navigation object has the declared encoding")
	} else {
		zzsym.Assert(nav.GetEncoding() == common.FormatUtf8, "the navigation object has the encoding of the document")
	}
	m, err := modifier.NewXmlModifier(modifier.WithNavigation(nav))
	zzsym.Assert(m != nil && err == nil, "the modifier accepts the navigator")
	p, err := pilot.NewAutoPilot(pilot.WithNavigation(nav))
	zzsym.Assert(p != nil && err == nil, "the pilot accepts the navigator")
}

// ---- C31

// kinds reports as which kinds errors.As recognises an error
func kinds(err error) (r [9]bool) {
	var e0 *erroring.InvalidArgumentError
	var e1 *erroring.InternalError
	var e2 *erroring.ParseError
	var e3 *erroring.NavigationError
	var e4 *erroring.EncodingError
	var e5 *erroring.DecodingError
	var e6 *erroring.EntityError
	var e7 *erroring.EOFError
	var e8 *erroring.ModifyError
	r[0] = errors.As(err, &e0)
	r[1] = errors.As(err, &e1)
	r[2] = errors.As(err, &e2)
	r[3] = errors.As(err, &e3)
	r[4] = errors.As(err, &e4)
	r[5] = errors.As(err, &e5)
	r[6] = errors.As(err, &e6)
	r[7] = errors.As(err, &e7)
	r[8] = errors.As(err, &e8)
	return
}

func makeErr(kind int, a, b string, cause error) (err error, hasCause bool) {
	switch kind {
	case 0:
		return erroring.NewInvalidArgumentError(a, b, cause), true
	case 1:
		return erroring.NewInternalError(a, cause), true
	case 2:
		return erroring.NewParseError(a, b, cause), true
	case 3:
		return erroring.NewNavigationError(a, cause), true
	case 4:
		return erroring.NewEncodingError(a), false
	case 5:
		return erroring.NewDecodingError(a), false
	case 6:
		return erroring.NewEntityError(a), false
	case 7:
		return erroring.NewEOFError(a), false
	}
	return erroring.NewModifyError(a), false
}

// contains compares bytes where they can stand in s
func contains(s, t string) bool {
	for i := 0; i+len(t) <= len(s); i++ {
		if zzsym.EqB(s[i:i+len(t)], t) {
			return true
		}
	}
	return false
}

type otherErr struct{ n int }

func (e *otherErr) Error() string { return "other" }

// bound: every constructor, texts of 0 to 4 (thorough: 8) arbitrary bytes, causes: none, a foreign error and every other kind
func H_C31_kinds() {
	zzsym.Precise(true)
	kind := zzsym.Choose("kind", 9)
	a := string(zzsym.Bytes("a", zzsym.Choose("na", tier(5, 9))))
	b := string(zzsym.Bytes("b", zzsym.Choose("nb", 3)))
	var cause error
	k := zzsym.Choose("cause", 11) - 2
	switch {
	case k == -1:
		cause = &otherErr{7}
	case k >= 0:
		cause, _ = makeErr(k, "c", "d", nil)
	}
	err, hasCause := makeErr(kind, a, b, cause)
	zzsym.Assert(err != nil, "an error is made")
	zzsym.Assert(contains(err.Error(), a), "the message contains the text")
	if kind == 0 {
		zzsym.Assert(contains(err.Error(), b), "the message contains the text")
	}
	rs := kinds(err)
	for i, r := range rs {
		want := i == kind || hasCause && k == i
		zzsym.Assert(r == want, "an error is recognised as its own kind and that of its cause only")
	}
	if hasCause {
		zzsym.Assert(errors.Unwrap(err) == cause, "an error unwraps to its cause")
	} else {
		zzsym.Assert(errors.Unwrap(err) == nil, "an error without cause unwraps to nothing")
	}
	if cause != nil && hasCause {
		zzsym.Assert(errors.Is(err, cause), "the cause is found")
	}
	x, _ := makeErr(kind, a, b, cause)
	zzsym.Assert(zzsym.EqB(x.Error(), err.Error()) && x != err, "errors are independent of each other")
}

// bound: chains of 2 to 4 errors of every kind (the same kind more than once included), each the cause of the one before
func H_C31_chain() {
	zzsym.Precise(true)
	n := 2 + zzsym.Choose("n", tier(2, 3))
	var chain []error
	var want [9]bool
	err := error(&otherErr{1})
	if zzsym.Choose("root", 2) == 1 {
		err = nil
	}
	for i := 0; i < n; i++ {
		k := zzsym.Choose("kind", 9)
		e, has := makeErr(k, string(zzsym.Bytes("a", 1)), "b", err)
		if !has {
			want = [9]bool{}
			chain = nil
			err = nil
		} else if err != nil {
			chain = append(chain, err)
		}
		want[k] = true
		zzsym.Assert(errors.Unwrap(e) == err, "an error unwraps to its cause")
		err = e
	}
	zzsym.Assert(kinds(err) == want, "an error is recognised as its own kind and those of its causes only")
	for _, e := range chain {
		zzsym.Assert(errors.Is(err, e), "the cause is found")
	}
	for i := len(chain) - 1; i >= 0; i-- {
		err = errors.Unwrap(err)
		zzsym.Assert(err == chain[i], "an error unwraps to its cause")
	}
}

// bound: 51 contexts around 3 (thorough: 4) arbitrary bytes: every failure is of a kind for malformed documents
func H_C31_parse() {
	b := fill(grammarCtx, tier(3, 4))
	nav, err := parseDoc(b, anyNs())
	observe(err, nav)
	if err != nil {
		zzsym.Assert(errKind(err) != 0, "a malformed document is a parse, entity, encoding, decoding or end-of-file error")
		zzsym.Assert(!isArgErr(err), "a malformed document is no invalid argument")
	}
}

// bound: the 270-byte document cut anywhere or 1 (thorough: 2) byte replaced or inserted
func H_C31_mutate() {
	var b []byte
	if zzsym.Choose("cut", 2) == 1 {
		b = truncate(everything, 1)
	} else {
		b = mutate(everything, tier(1, 2))
	}
	nav, err := parseDoc(b, anyNs())
	observe(err, nav)
	if err != nil {
		zzsym.Assert(errKind(err) != 0, "a malformed document is a parse, entity, encoding, decoding or end-of-file error")
		zzsym.Assert(!isArgErr(err), "a malformed document is no invalid argument")
	}
}

// bound: every index, range (32/64-bit) and direction outside
func H_C31_args() {
	nav, err := parseDoc([]byte("<a><b/></a>"), anyNs())
	zzsym.Assert(err == nil, "a well-formed document is accepted")
	size := nav.GetVtdBufferSize()
	i := zzsym.Int("i")
	o, n := zzsym.Int32("o"), zzsym.Int32("n")
	switch zzsym.Choose("call", 9) {
	case 0:
		zzsym.Assume(i < 0 || i >= size)
		_, err = nav.GetTokenType(i)
	case 1:
		zzsym.Assume(i < 0 || i >= size)
		_, err = nav.GetTokenOffset(i)
	case 2:
		zzsym.Assume(i < 0 || i >= size)
		_, err = nav.GetTokenLength(i)
	case 3:
		zzsym.Assume(i < 0 || i >= size)
		_, err = nav.GetTokenDepth(i)
	case 4:
		zzsym.Assume(i < 0 || i >= size)
		_, err = nav.ToStringAtIndex(i)
	case 5:
		zzsym.Assume(i < 0 || i >= size)
		_, err = nav.ToRawStringAtIndex(i)
	case 6:
		zzsym.Assume(o < 0 || n < 0 || int64(o)+int64(n) > 11)
		_, err = nav.ToStringAtRange(o, n)
	case 7:
		zzsym.Assume(o < 0 || n < 0 || int64(o)+int64(n) > 11)
		_, err = nav.ToRawStringAtRange(o, n)
	case 8:
		zzsym.Assume(i < 0 || i > 5)
		for k := zzsym.Choose("at", 3); k > 0; k-- {
			_, err = nav.ToElement(navigation.FirstChild)
			zzsym.Assert(err == nil, "a legal move is no error")
		}
		ok, err := nav.ToElement(navigation.Direction(i))
		var ne *erroring.NavigationError
		zzsym.Assert(!ok && err != nil && errors.As(err, &ne), "an illegal direction is a navigation error")
		zzsym.Assert(!isArgErr(err), "an illegal direction is no invalid argument")
		return
	}
	zzsym.Assert(err != nil && isArgErr(err), "a bad index or range is an invalid argument")
}

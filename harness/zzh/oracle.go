package zzh

// An independent reading of XML 1.0 and Namespaces 1.0 restricted to what the
// library supports. judge classifies a document as one that has to be accepted,
// one that has to be rejected, or one the properties say nothing about, and
// records the tokens an accepted document consists of.

const (
	vAccept = iota
	vReject
	vOpen
)

const (
	rkChar  = iota + 1 // a character that is not allowed where it stands
	rkEnd              // the input ends too early
	rkRef              // malformed reference
	rkName             // names: end tag mismatch, repeated attribute, namespaces, encoding name
	rkBytes            // bytes that are not valid in the encoding
	rkLimit            // beyond the documented limits
)

const (
	tStart = iota
	tEnd
	tAttr
	tNs
	tVal
	tText
	tComment
	tPiName
	tPiVal
	tDecName
	tDecVal
	tCdata
	tDtd
	tDoc
)

const (
	maxLevel  = 254
	maxQname  = 2047
	maxPrefix = 511
	maxToken  = 1048575
)

// xtok is an expected token; off or pre -1: not specified.
type xtok struct{ typ, off, n, pre, depth int }

type span struct{ off, n int }

type nsDecl struct {
	pre, url span
	depth    int
}

type xdoc struct {
	b          []byte
	start, end int
	ns         bool
	ascii, bom bool
	i          int
	verdict    int
	kind, pos  int
	toks       []xtok
	depth      int
	maxDepth   int
	stack      []span
	decls      []nsDecl
	seenType   bool
	isOpen     bool
}

func oChar(c uint32) bool {
	return c == 9 || c == 10 || c == 13 || c >= 0x20 && c <= 0xD7FF || c >= 0xE000 && c <= 0xFFFD ||
		c >= 0x10000 && c <= 0x10FFFF
}

func oSpace(c uint32) bool { return c == 32 || c == 9 || c == 10 || c == 13 }

func oNameStart(c uint32) bool {
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' || c == ':' ||
		c >= 0xC0 && c <= 0xD6 || c >= 0xD8 && c <= 0xF6 || c >= 0xF8 && c <= 0x2FF ||
		c >= 0x370 && c <= 0x37D || c >= 0x37F && c <= 0x1FFF || c >= 0x200C && c <= 0x200D ||
		c >= 0x2070 && c <= 0x218F || c >= 0x2C00 && c <= 0x2FEF || c >= 0x3001 && c <= 0xD7FF ||
		c >= 0xF900 && c <= 0xFDCF || c >= 0xFDF0 && c <= 0xFFFD || c >= 0x10000 && c <= 0xEFFFF
}

func oName(c uint32) bool {
	return oNameStart(c) || c == '-' || c == '.' || c >= '0' && c <= '9' || c == 0xB7 ||
		c >= 0x300 && c <= 0x36F || c >= 0x203F && c <= 0x2040
}

func (d *xdoc) rej(kind, pos int) bool {
	d.verdict, d.kind, d.pos = vReject, kind, pos
	return false
}

func (d *xdoc) open() bool {
	d.verdict = vOpen
	return false
}

func (d *xdoc) add(typ, off, n, pre int) {
	d.toks = append(d.toks, xtok{typ, off, n, pre, d.depth})
}

// addText records a run, in pieces if it is too long for one record
func (d *xdoc) addText(typ, off, n int) {
	for n > maxToken {
		d.add(typ, off, maxToken, 0)
		off += maxToken
		n -= maxToken
	}
	d.add(typ, off, n, 0)
}

// at decodes the character at i: width 0 at the end, -1 if not valid
func (d *xdoc) at(i int) (uint32, int) {
	if i >= d.end {
		return 0, 0
	}
	b0 := d.b[i]
	if b0 < 0x80 {
		return uint32(b0), 1
	}
	if d.ascii || b0 < 0xC2 || b0 > 0xF4 {
		return 0, -1
	}
	if b0 < 0xE0 {
		if i+2 > d.end {
			return 0, -1
		}
		b1 := d.b[i+1]
		if b1 < 0x80 || b1 > 0xBF {
			return 0, -1
		}
		return uint32(b0&0x1F)<<6 | uint32(b1&0x3F), 2
	}
	if b0 < 0xF0 {
		if i+3 > d.end {
			return 0, -1
		}
		b1, b2 := d.b[i+1], d.b[i+2]
		if b1 < 0x80 || b1 > 0xBF || b2 < 0x80 || b2 > 0xBF ||
			b0 == 0xE0 && b1 < 0xA0 || b0 == 0xED && b1 >= 0xA0 {
			return 0, -1
		}
		return uint32(b0&0x0F)<<12 | uint32(b1&0x3F)<<6 | uint32(b2&0x3F), 3
	}
	if i+4 > d.end {
		return 0, -1
	}
	b1, b2, b3 := d.b[i+1], d.b[i+2], d.b[i+3]
	if b1 < 0x80 || b1 > 0xBF || b2 < 0x80 || b2 > 0xBF || b3 < 0x80 || b3 > 0xBF ||
		b0 == 0xF0 && b1 < 0x90 || b0 == 0xF4 && b1 >= 0x90 {
		return 0, -1
	}
	return uint32(b0&0x07)<<18 | uint32(b1&0x3F)<<12 | uint32(b2&0x3F)<<6 | uint32(b3&0x3F), 4
}

// badAt rejects because of the width returned by at
func (d *xdoc) badAt(w int) bool {
	if w == 0 {
		return d.rej(rkEnd, d.i)
	}
	return d.rej(rkBytes, d.i)
}

func (d *xdoc) is(c byte) bool { return d.i < d.end && d.b[d.i] == c }

func (d *xdoc) has(s string) bool {
	if d.i+len(s) > d.end {
		return false
	}
	for k := 0; k < len(s); k++ {
		if d.b[d.i+k] != s[k] {
			return false
		}
	}
	return true
}

// lit consumes s or rejects at the first difference
func (d *xdoc) lit(s string) bool {
	for k := 0; k < len(s); k++ {
		if d.i >= d.end {
			return d.rej(rkEnd, d.i)
		}
		if d.b[d.i] != s[k] {
			if _, w := d.at(d.i); w < 0 {
				return d.rej(rkBytes, d.i)
			}
			return d.rej(rkChar, d.i)
		}
		d.i++
	}
	return true
}

func (d *xdoc) space() int {
	n := 0
	for d.i < d.end {
		b := d.b[d.i]
		if b != ' ' && b != '\t' && b != '\n' && b != '\r' {
			break
		}
		d.i++
		n++
	}
	return n
}

func judge(b []byte, start, n int, ns bool) *xdoc {
	d := &xdoc{b: b, start: start, end: start + n, i: start, ns: ns, depth: -1, maxDepth: -1}
	if d.prolog() && d.element() && d.epilog() {
		d.verdict = vAccept
		if d.isOpen {
			d.verdict = vOpen
		}
	}
	return d
}

func (d *xdoc) prolog() bool {
	b0 := d.b[d.i]
	if b0 == 0xFE || b0 == 0xFF || b0 == 0 {
		return d.rej(rkBytes, d.i)
	}
	if b0 == 0xEF {
		if !d.has("\xEF\xBB\xBF") {
			return d.rej(rkBytes, d.i)
		}
		d.i += 3
		d.bom = true
	}
	if d.has("<?xml") && d.i+5 < d.end {
		c := d.b[d.i+5]
		if oSpace(uint32(c)) {
			d.i += 5
			if !d.xmlDecl() {
				return false
			}
		}
	}
	for {
		d.space()
		c, w := d.at(d.i)
		if w <= 0 {
			return d.badAt(w)
		}
		if c != '<' {
			return d.rej(rkChar, d.i)
		}
		d.i++
		c, w = d.at(d.i)
		if w <= 0 {
			return d.badAt(w)
		}
		if c == '?' {
			if !d.pi() {
				return false
			}
		} else if c == '!' {
			d.i++
			c, w = d.at(d.i)
			if w <= 0 {
				return d.badAt(w)
			}
			if c == '-' {
				if !d.comment() {
					return false
				}
			} else if c == '[' || c == 'D' && d.seenType {
				// a CDATA section or document type in the wrong place, as far as it can be read
				return d.rej(rkName, d.i)
			} else if c == 'D' && !d.seenType {
				if !d.docType() {
					return false
				}
			} else {
				return d.rej(rkChar, d.i)
			}
		} else if oNameStart(c) {
			return true
		} else {
			return d.rej(rkChar, d.i)
		}
	}
}

func (d *xdoc) epilog() bool {
	for {
		d.space()
		if d.i >= d.end {
			return true
		}
		c, w := d.at(d.i)
		if w <= 0 {
			return d.badAt(w)
		}
		if c != '<' {
			return d.rej(rkChar, d.i)
		}
		d.i++
		c, w = d.at(d.i)
		if w <= 0 {
			return d.badAt(w)
		}
		if c == '?' {
			if !d.pi() {
				return false
			}
		} else if c == '!' {
			d.i++
			if !d.comment() {
				return false
			}
		} else {
			return d.rej(rkChar, d.i)
		}
	}
}

// eq reads S? '=' S? and the opening quote
func (d *xdoc) eq() (byte, bool) {
	d.space()
	if !d.lit("=") {
		return 0, false
	}
	d.space()
	c, w := d.at(d.i)
	if w <= 0 {
		return 0, d.badAt(w)
	}
	if c != '"' && c != '\'' {
		return 0, d.rej(rkChar, d.i)
	}
	d.i++
	return byte(c), true
}

func (d *xdoc) closeQuote(q byte) bool {
	c, w := d.at(d.i)
	if w <= 0 {
		return d.badAt(w)
	}
	if c != uint32(q) {
		return d.rej(rkChar, d.i)
	}
	d.i++
	return true
}

func (d *xdoc) xmlDecl() bool {
	d.space()
	d.add(tDecName, d.i, 7, 0)
	if !d.lit("version") {
		return false
	}
	q, ok := d.eq()
	if !ok {
		return false
	}
	d.add(tDecVal, d.i, 3, 0)
	if !d.lit("1.") {
		return false
	}
	c, w := d.at(d.i)
	if w <= 0 {
		return d.badAt(w)
	}
	if c != '0' && c != '1' {
		return d.rej(rkChar, d.i)
	}
	d.i++
	if !d.closeQuote(q) {
		return false
	}
	sp := d.space()
	if sp > 0 && d.is('e') {
		d.add(tDecName, d.i, 8, 0)
		if !d.lit("encoding") {
			return false
		}
		if q, ok = d.eq(); !ok {
			return false
		}
		off := d.i
		for d.i < d.end && d.b[d.i] != q {
			// only ASCII characters can be part of an encoding name
			if c := d.b[d.i]; !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' ||
				c == '.' || c == '_' || c == '-') {
				return d.rej(rkName, d.i)
			}
			d.i++
		}
		if d.i >= d.end {
			return d.rej(rkEnd, d.i)
		}
		n := d.i - off
		d.i++
		switch {
		case d.foldEq(off, n, "utf-8"):
		case d.foldEq(off, n, "ascii") || d.foldEq(off, n, "us-ascii"):
			if d.bom {
				return d.rej(rkName, off)
			}
			d.ascii = true
		default:
			return d.rej(rkName, off)
		}
		d.add(tDecVal, off, n, 0)
		sp = d.space()
	}
	if sp > 0 && d.is('s') {
		d.add(tDecName, d.i, 10, 0)
		if !d.lit("standalone") {
			return false
		}
		if q, ok = d.eq(); !ok {
			return false
		}
		if d.is('y') {
			d.add(tDecVal, d.i, 3, 0)
			if !d.lit("yes") {
				return false
			}
		} else {
			d.add(tDecVal, d.i, 2, 0)
			if !d.lit("no") {
				return false
			}
		}
		if !d.closeQuote(q) {
			return false
		}
		d.space()
	}
	return d.lit("?>")
}

// foldEq compares without regard to letter case; s is in lower case
func (d *xdoc) foldEq(off, n int, s string) bool {
	if n != len(s) {
		return false
	}
	for k := 0; k < n; k++ {
		c := d.b[off+k]
		if c >= 'A' && c <= 'Z' {
			c += 'a' - 'A'
		}
		if c != s[k] {
			return false
		}
	}
	return true
}

// comment is called at the first '-'
func (d *xdoc) comment() bool {
	if !d.lit("--") {
		return false
	}
	off := d.i
	for {
		c, w := d.at(d.i)
		if w <= 0 {
			return d.badAt(w)
		}
		if !oChar(c) {
			return d.rej(rkChar, d.i)
		}
		if c == '-' && d.i+1 < d.end && d.b[d.i+1] == '-' {
			n := d.i - off
			d.i += 2
			if !d.lit(">") {
				return false
			}
			d.addText(tComment, off, n)
			return true
		}
		d.i += w
	}
}

// pi is called at the question mark
func (d *xdoc) pi() bool {
	d.i++
	off := d.i
	c, w := d.at(d.i)
	if w <= 0 {
		return d.badAt(w)
	}
	if !oNameStart(c) {
		return d.rej(rkChar, d.i)
	}
	for oName(c) {
		d.i += w
		if c, w = d.at(d.i); w <= 0 {
			return d.badAt(w)
		}
	}
	n := d.i - off
	if n > maxToken {
		return d.rej(rkLimit, d.i)
	}
	if n == 3 && d.foldEq(off, 3, "xml") {
		return d.rej(rkChar, d.i)
	}
	if !oSpace(c) && c != '?' {
		return d.rej(rkChar, d.i)
	}
	d.add(tPiName, off, n, 0)
	if c == '?' {
		d.i++
		if !d.lit(">") {
			return false
		}
		d.add(tPiVal, -1, 0, 0)
		return true
	}
	d.i++
	off = d.i
	for {
		c, w = d.at(d.i)
		if w <= 0 {
			return d.badAt(w)
		}
		if !oChar(c) {
			return d.rej(rkChar, d.i)
		}
		if c == '?' && d.i+1 < d.end && d.b[d.i+1] == '>' {
			break
		}
		d.i += w
	}
	n = d.i - off
	if n > maxToken {
		return d.rej(rkLimit, d.i)
	}
	d.i += 2
	if n == 0 {
		off = -1
	}
	d.add(tPiVal, off, n, 0)
	return true
}

// docType is called at the letter D. Document type declarations of the usual
// form are accepted, those that never end rejected.
func (d *xdoc) docType() bool {
	if !d.lit("DOCTYPE") {
		return false
	}
	d.seenType = true
	off := d.i
	if d.strictType() {
		n := d.i - off
		if n > maxToken {
			return d.rej(rkLimit, d.i)
		}
		d.i++
		d.add(tDtd, off, n, 0)
		return true
	}
	if d.verdict == vReject {
		return false
	}
	for k := off; k < d.end; k++ {
		if d.b[k] == '>' {
			return d.open()
		}
	}
	return d.rej(rkEnd, d.end)
}

func (d *xdoc) typeLit() bool {
	if d.i >= d.end {
		return false
	}
	q := d.b[d.i]
	if q != '"' && q != '\'' {
		return false
	}
	d.i++
	return d.typeUntil(string([]byte{q}))
}

// typeUntil skips valid characters up to and including s
func (d *xdoc) typeUntil(s string) bool {
	for !d.has(s) {
		c, w := d.at(d.i)
		if w <= 0 {
			return d.badAt(w)
		}
		if !oChar(c) {
			return d.rej(rkChar, d.i)
		}
		d.i += w
	}
	d.i += len(s)
	return true
}

func (d *xdoc) typeName() bool {
	c, w := d.at(d.i)
	if w <= 0 || !oNameStart(c) {
		return false
	}
	for w > 0 && oName(c) {
		d.i += w
		c, w = d.at(d.i)
	}
	return true
}

// strictType stops at the closing '>'
func (d *xdoc) strictType() bool {
	if d.space() == 0 || !d.typeName() {
		return false
	}
	if d.space() > 0 {
		if d.has("SYSTEM") {
			d.i += 6
			if d.space() == 0 || !d.typeLit() {
				return false
			}
			d.space()
		} else if d.has("PUBLIC") {
			d.i += 6
			if d.space() == 0 || !d.typeLit() || d.space() == 0 || !d.typeLit() {
				return false
			}
			d.space()
		}
	}
	if d.is('[') {
		d.i++
		for !d.is(']') {
			if d.space() > 0 {
				continue
			}
			if d.has("<!--") {
				d.i += 4
				if !d.typeUntil("--") {
					return false
				}
				if !d.is('>') {
					return false
				}
				d.i++
			} else if d.has("<?") {
				d.i += 2
				if !d.typeUntil("?>") {
					return false
				}
			} else if d.has("<!") {
				d.i += 2
				for !d.is('>') {
					c, w := d.at(d.i)
					if w <= 0 || c == '<' || c == '[' || c == ']' {
						return false
					}
					if c == '"' || c == '\'' {
						if !d.typeLit() {
							return false
						}
						continue
					}
					if !oChar(c) {
						return d.rej(rkChar, d.i)
					}
					d.i += w
				}
				d.i++
			} else {
				return false
			}
		}
		d.i++
		d.space()
	}
	return d.is('>')
}

// ref is called at the ampersand
func (d *xdoc) ref() bool {
	d.i++
	if d.is('#') {
		d.i++
		base := uint32(10)
		if d.is('x') {
			base = 16
			d.i++
		}
		v, digits := uint32(0), 0
		for {
			if d.i >= d.end {
				return d.rej(rkEnd, d.i)
			}
			c := d.b[d.i]
			if c == ';' {
				break
			}
			var x uint32
			if c >= '0' && c <= '9' {
				x = uint32(c - '0')
			} else if base == 16 && c >= 'a' && c <= 'f' {
				x = uint32(c-'a') + 10
			} else if base == 16 && c >= 'A' && c <= 'F' {
				x = uint32(c-'A') + 10
			} else {
				return d.rej(rkRef, d.i)
			}
			if v <= 0x10FFFF {
				v = v*base + x
			}
			digits++
			d.i++
		}
		if digits == 0 || !oChar(v) {
			return d.rej(rkRef, d.i)
		}
		d.i++
		return true
	}
	for _, s := range []string{"amp;", "lt;", "gt;", "quot;", "apos;"} {
		if d.has(s) {
			d.i += len(s)
			return true
		}
	}
	return d.rej(rkRef, d.i)
}

// name reads a name; colon: number of bytes before the only colon, -1 none,
// -2 colons in other places
func (d *xdoc) name() (s span, colon int, ok bool) {
	s.off, colon = d.i, -1
	c, w := d.at(d.i)
	for w > 0 && oName(c) {
		if c == ':' {
			if colon == -1 && d.i > s.off {
				colon = d.i - s.off
			} else {
				colon = -2
			}
		}
		d.i += w
		c, w = d.at(d.i)
	}
	s.n = d.i - s.off
	if w <= 0 {
		return s, colon, d.badAt(w)
	}
	if colon > 0 {
		// the local part is a name of its own
		if c, w = d.at(s.off + colon + 1); colon == s.n-1 || w <= 0 || !oNameStart(c) {
			colon = -2
		}
	}
	if colon == -2 && s.n > maxPrefix {
		d.isOpen = true
	}
	return s, colon, true
}

func (d *xdoc) same(a, b span) bool {
	if a.n != b.n {
		return false
	}
	for k := 0; k < a.n; k++ {
		if d.b[a.off+k] != d.b[b.off+k] {
			return false
		}
	}
	return true
}

func (d *xdoc) spanIs(a span, s string) bool {
	if a.n != len(s) {
		return false
	}
	for k := 0; k < a.n; k++ {
		if d.b[a.off+k] != s[k] {
			return false
		}
	}
	return true
}

type xattr struct {
	name, val span
	colon     int
	decl      bool
}

// element is called at the first character of the root's name and returns
// after its end
func (d *xdoc) element() bool {
	for {
		empty, ok := d.startTag()
		if !ok {
			return false
		}
		if empty {
			d.depth--
			d.pop()
			if d.depth < 0 {
				return true
			}
		}
		// content up to the next start tag or the end of the root
		afterStart := !empty
		for {
			off := d.i
			n := d.space()
			c, w := d.at(d.i)
			if w <= 0 {
				return d.badAt(w)
			}
			if c != '<' {
				d.i = off + n
				if !d.text(off) {
					return false
				}
			} else if afterStart && d.i+1 < d.end && d.b[d.i+1] == '/' {
				d.addText(tText, off, n)
			}
			afterStart = false
			d.i++
			c, w = d.at(d.i)
			if w <= 0 {
				return d.badAt(w)
			}
			if c == '/' {
				if !d.endTag() {
					return false
				}
				if d.depth < 0 {
					return true
				}
			} else if c == '?' {
				if !d.pi() {
					return false
				}
			} else if c == '!' {
				d.i++
				if d.is('-') {
					if !d.comment() {
						return false
					}
				} else {
					if !d.lit("[CDATA[") {
						return false
					}
					if !d.cdata() {
						return false
					}
				}
			} else if oNameStart(c) {
				break
			} else {
				return d.rej(rkChar, d.i)
			}
		}
	}
}

// text stops at '<'
func (d *xdoc) text(off int) bool {
	for {
		c, w := d.at(d.i)
		if w <= 0 {
			return d.badAt(w)
		}
		if c == '<' {
			break
		}
		if c == '&' {
			if !d.ref() {
				return false
			}
			continue
		}
		if !oChar(c) {
			return d.rej(rkChar, d.i)
		}
		if c == ']' && d.has("]]>") {
			return d.rej(rkChar, d.i+2)
		}
		d.i += w
	}
	d.addText(tText, off, d.i-off)
	return true
}

func (d *xdoc) cdata() bool {
	off := d.i
	for {
		if d.has("]]>") {
			d.addText(tCdata, off, d.i-off)
			d.i += 3
			return true
		}
		c, w := d.at(d.i)
		if w <= 0 {
			return d.badAt(w)
		}
		if !oChar(c) {
			return d.rej(rkChar, d.i)
		}
		d.i += w
	}
}

func (d *xdoc) pop() {
	if len(d.stack) > 0 {
		d.stack = d.stack[:d.depth+1]
	}
	for len(d.decls) > 0 && d.decls[len(d.decls)-1].depth > d.depth {
		d.decls = d.decls[:len(d.decls)-1]
	}
}

// endTag is called at the slash
func (d *xdoc) endTag() bool {
	d.i++
	s := d.stack[d.depth]
	for k := 0; k < s.n; k++ {
		if d.i >= d.end {
			return d.rej(rkEnd, d.i)
		}
		if d.b[d.i] != d.b[s.off+k] {
			return d.rej(rkName, d.i)
		}
		d.i++
	}
	d.space()
	if !d.lit(">") {
		return false
	}
	d.depth--
	d.pop()
	return true
}

// startTag is called at the first character of the name
func (d *xdoc) startTag() (empty, ok bool) {
	d.depth++
	if d.depth > d.maxDepth {
		d.maxDepth = d.depth
	}
	s, colon, ok := d.name()
	if !ok {
		return false, false
	}
	if d.ns && colon == -2 {
		return false, d.open()
	}
	if d.depth > maxLevel || s.n > maxQname || colon > maxPrefix {
		return false, d.rej(rkLimit, d.i)
	}
	pre := 0
	if colon > 0 {
		pre = colon
	}
	if d.ns && pre == 5 && d.spanIs(span{s.off, 5}, "xmlns") {
		return false, d.rej(rkName, d.i)
	}
	d.stack = append(d.stack, s)
	d.add(tStart, s.off, s.n, pre)
	var attrs []xattr
	for {
		sp := d.space()
		c, w := d.at(d.i)
		if w <= 0 {
			return false, d.badAt(w)
		}
		if c == '/' || c == '>' {
			if c == '/' {
				empty = true
				d.i++
			}
			if !d.lit(">") {
				return false, false
			}
			break
		}
		if sp == 0 || !oNameStart(c) {
			return false, d.rej(rkChar, d.i)
		}
		a, ok := d.attr(attrs)
		if !ok {
			return false, false
		}
		attrs = append(attrs, a)
	}
	if d.ns && !d.qualify(s, pre, attrs) {
		return false, false
	}
	return empty, true
}

func (d *xdoc) attr(attrs []xattr) (a xattr, ok bool) {
	s, colon, ok := d.name()
	if !ok {
		return a, false
	}
	if d.ns && colon == -2 {
		return a, d.open()
	}
	a.name, a.colon = s, colon
	pre := 0
	if colon > 0 {
		pre = colon
	}
	isDefault := d.spanIs(s, "xmlns")
	a.decl = isDefault || s.n > 5 && d.spanIs(span{s.off, 6}, "xmlns:")
	if colon == -2 && a.decl {
		// which of the colons counts is not specified
		d.isOpen = true
	}
	if d.ns && a.decl && !isDefault && d.spanIs(span{s.off + 6, s.n - 6}, "xmlns") {
		return a, d.rej(rkName, d.i)
	}
	for _, x := range attrs {
		if d.same(x.name, s) {
			return a, d.rej(rkName, d.i)
		}
	}
	if s.n > maxQname || colon > maxPrefix {
		return a, d.rej(rkLimit, d.i)
	}
	typ := tAttr
	if a.decl {
		typ = tNs
	}
	d.add(typ, s.off, s.n, pre)
	q, ok := d.eq()
	if !ok {
		return a, false
	}
	off := d.i
	for {
		c, w := d.at(d.i)
		if w <= 0 {
			return a, d.badAt(w)
		}
		if c == uint32(q) {
			break
		}
		if c == '&' {
			if !d.ref() {
				return a, false
			}
			continue
		}
		if c == '<' || !oChar(c) {
			return a, d.rej(rkChar, d.i)
		}
		d.i += w
	}
	a.val = span{off, d.i - off}
	d.i++
	if a.val.n > maxToken {
		return a, d.rej(rkLimit, d.i)
	}
	d.add(tVal, off, a.val.n, 0)
	if d.ns && a.decl && !d.declare(a, isDefault) {
		return a, false
	}
	return a, true
}

const (
	urlXml   = "http://www.w3.org/XML/1998/namespace"
	urlXmlns = "http://www.w3.org/2000/xmlns/"
)

// resolve returns the characters of a value with references resolved
func (d *xdoc) resolve(v span) []uint32 {
	var r []uint32
	for i := v.off; i < v.off+v.n; {
		c, w := d.at(i)
		if c == '&' {
			j := i + 1
			if d.b[j] == '#' {
				x := uint32(0)
				j++
				if d.b[j] == 'x' {
					for j++; d.b[j] != ';'; j++ {
						x = x<<4 + hexVal(d.b[j])
					}
				} else {
					for ; d.b[j] != ';'; j++ {
						x = x*10 + uint32(d.b[j]-'0')
					}
				}
				c = x
			} else {
				switch d.b[j] {
				case 'l':
					c = '<'
				case 'g':
					c = '>'
				case 'q':
					c = '"'
				default:
					c = '&'
					if d.b[j+1] == 'p' {
						c = '\''
					}
				}
				for d.b[j] != ';' {
					j++
				}
			}
			w = j + 1 - i
		}
		r = append(r, c)
		i += w
	}
	return r
}

func hexVal(c byte) uint32 {
	switch {
	case c <= '9':
		return uint32(c - '0')
	case c <= 'F':
		return uint32(c-'A') + 10
	}
	return uint32(c-'a') + 10
}

func isStr(a []uint32, s string) bool {
	if len(a) != len(s) {
		return false
	}
	for i := range a {
		if a[i] != uint32(s[i]) {
			return false
		}
	}
	return true
}

func (d *xdoc) declare(a xattr, isDefault bool) bool {
	u := d.resolve(a.val)
	isXml := isStr(u, urlXml)
	if !isDefault && d.spanIs(span{a.name.off + 6, a.name.n - 6}, "xml") {
		if !isXml {
			return d.rej(rkName, a.val.off)
		}
		return true
	}
	if isXml || isStr(u, urlXmlns) || !isDefault && len(u) == 0 {
		return d.rej(rkName, a.val.off)
	}
	if !isDefault {
		d.decls = append(d.decls, nsDecl{span{a.name.off + 6, a.name.n - 6}, a.val, d.depth})
	}
	return true
}

func (d *xdoc) lookup(p span) (span, bool) {
	for k := len(d.decls) - 1; k >= 0; k-- {
		if d.same(d.decls[k].pre, p) {
			return d.decls[k].url, true
		}
	}
	return span{}, false
}

func (d *xdoc) qualify(s span, pre int, attrs []xattr) bool {
	if pre > 0 {
		p := span{s.off, pre}
		if !d.spanIs(p, "xml") {
			if _, ok := d.lookup(p); !ok {
				return d.rej(rkName, s.off)
			}
		}
	}
	var locals, urls []span
	for _, a := range attrs {
		if a.decl || a.colon <= 0 {
			continue
		}
		p := span{a.name.off, a.colon}
		if d.spanIs(p, "xml") {
			continue
		}
		u, ok := d.lookup(p)
		if !ok {
			return d.rej(rkName, a.name.off)
		}
		l := span{a.name.off + a.colon + 1, a.name.n - a.colon - 1}
		for k := range locals {
			if d.same(locals[k], l) && urls[k] != u {
				x, y := d.resolve(urls[k]), d.resolve(u)
				if len(x) == len(y) {
					equal, spaces := true, false
					for j := range x {
						if x[j] != y[j] {
							if oSpace(x[j]) && oSpace(y[j]) {
								spaces = true
							} else {
								equal = false
							}
						}
					}
					if equal && spaces {
						// depends on the normalization of white space
						d.isOpen = true
					} else if equal {
						return d.rej(rkName, a.name.off)
					}
				} else if hasSpace(x) || hasSpace(y) {
					d.isOpen = true
				}
			} else if d.same(locals[k], l) {
				return d.rej(rkName, a.name.off)
			}
		}
		locals, urls = append(locals, l), append(urls, u)
	}
	return true
}

func hasSpace(x []uint32) bool {
	for _, c := range x {
		if oSpace(c) {
			return true
		}
	}
	return false
}

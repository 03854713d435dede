package zzh

import (
	"github.com/alexZaicev/go-vtd-xml/vtdxml/navigation"
	"github.com/alexZaicev/go-vtd-xml/vtdxml/parser"
	"github.com/alexZaicev/go-vtd-xml/vtdxml/zzsym"
)

type conf struct {
	ns bool
	lc int
}

func anyNs() conf { return conf{zzsym.Choose("ns", 2) == 1, 3} }

func anyConf() conf { return conf{zzsym.Choose("ns", 2) == 1, 3 + 2*zzsym.Choose("lc", 2)} }

// parseDoc parses a whole slice
func parseDoc(b []byte, c conf) (*navigation.VtdNav, error) {
	p, err := parser.NewVtdParser(parser.WithXmlDoc(b), parser.WithNameSpaceAware(c.ns), parser.WithLcDepth(c.lc))
	zzsym.Assert(err == nil, "the constructor accepts a document that is not empty")
	if err = p.Parse(); err != nil {
		return nil, err
	}
	nav, err := p.GetNav()
	zzsym.Assert(err == nil, "GetNav succeeds after a successful parse")
	return nav, nil
}

// parseWin parses a window of a slice
func parseWin(b []byte, off, n int, c conf) (*navigation.VtdNav, error) {
	p, err := parser.NewVtdParser(parser.WithXmlDocCustomOffset(b, off, n),
		parser.WithNameSpaceAware(c.ns), parser.WithLcDepth(c.lc))
	zzsym.Assert(err == nil, "the constructor accepts a window inside the document")
	if err = p.Parse(); err != nil {
		return nil, err
	}
	nav, err := p.GetNav()
	zzsym.Assert(err == nil, "GetNav succeeds after a successful parse")
	return nav, nil
}

func observe(err error, nav *navigation.VtdNav) {
	if err != nil {
		zzsym.Reach("rejected")
		zzsym.Observe("accepted", 0)
		return
	}
	zzsym.Reach("accepted")
	zzsym.Observe("accepted", 1)
	if nav != nil {
		zzsym.Observe("tokens", nav.GetVtdBufferSize())
	}
}

type ctx struct{ pre, post string }

// fill puts n arbitrary bytes into one of the contexts
func fill(cs []ctx, n int) []byte {
	c := cs[zzsym.Choose("ctx", len(cs))]
	b := make([]byte, 0, len(c.pre)+n+len(c.post))
	b = append(b, c.pre...)
	b = append(b, zzsym.Bytes("h", n)...)
	return append(b, c.post...)
}

// build expands a template: every '#' is an arbitrary byte of its own, "$k"
// with a digit k is an arbitrary byte that is the same everywhere.
func build(t string) []byte {
	b := make([]byte, 0, len(t))
	var v [10]byte
	var have [10]bool
	for i := 0; i < len(t); i++ {
		switch {
		case t[i] == '#':
			b = append(b, zzsym.Byte("h"))
		case t[i] == '$':
			i++
			k := int(t[i] - '0')
			if !have[k] {
				v[k], have[k] = zzsym.Byte("v"), true
			}
			b = append(b, v[k])
		default:
			b = append(b, t[i])
		}
	}
	return b
}

func buildOne(ts []string) []byte { return build(ts[zzsym.Choose("tpl", len(ts))]) }

// roomy copies b into a slice with arbitrary bytes behind its end
func roomy(b []byte) []byte {
	r := make([]byte, 0, len(b)+3)
	r = append(r, b...)
	x := append(r, zzsym.Bytes("z", 3)...)
	return x[:len(b)]
}

func cat(parts ...string) []byte {
	var b []byte
	for _, p := range parts {
		b = append(b, p...)
	}
	return b
}

func repeat(s string, n int) string {
	b := make([]byte, 0, len(s)*n)
	for i := 0; i < n; i++ {
		b = append(b, s...)
	}
	return string(b)
}

func itoa(n int) string {
	if n < 0 {
		return "-" + itoa(-n)
	}
	if n < 10 {
		return string([]byte{byte('0' + n)})
	}
	return itoa(n/10) + string([]byte{byte('0' + n%10)})
}

// mutate replaces n consecutive bytes anywhere in t by arbitrary ones, or
// inserts n arbitrary bytes
func mutate(t string, n int) []byte {
	k := zzsym.Choose("at", len(t)-n+1)
	m := k + n*zzsym.Choose("replace", 2)
	b := make([]byte, 0, len(t)+n)
	b = append(b, t[:k]...)
	b = append(b, zzsym.Bytes("h", n)...)
	return append(b, t[m:]...)
}

// truncate cuts t anywhere and appends n arbitrary bytes
func truncate(t string, n int) []byte {
	k := zzsym.Choose("cut", len(t)+1)
	b := make([]byte, 0, len(t)+n)
	b = append(b, t[:k]...)
	return append(b, zzsym.Bytes("h", n)...)
}

// oneOf is an arbitrary byte out of set
func oneOf(name, set string) byte {
	b := zzsym.Byte(name)
	ok := false
	for i := 0; i < len(set); i++ {
		ok = ok || b == set[i]
	}
	zzsym.Assume(ok)
	return b
}

func tier(quick, thorough int) int {
	if zzsym.Tier() > 0 {
		return thorough
	}
	return quick
}

// ---- tokens

type tokRec struct{ typ, off, n, pre, depth int }

func readTok(nav *navigation.VtdNav, i int, ns bool) tokRec {
	typ, e1 := nav.GetTokenType(i)
	off, e2 := nav.GetTokenOffset(i)
	n, e3 := nav.GetTokenLength(i)
	dep, e4 := nav.GetTokenDepth(i)
	zzsym.Assert(e1 == nil && e2 == nil && e3 == nil && e4 == nil, "token accessors succeed for recorded tokens")
	t := tokRec{typ: int(typ), off: int(off), n: int(n), depth: int(dep)}
	if ns && (t.typ == tStart || t.typ == tAttr || t.typ == tNs) {
		t.pre = t.n >> 16
		t.n &= 0xFFFF
	}
	return t
}

// checkTokens compares the recorded tokens with the expected ones. Names whose
// prefix is not specified never occur in documents judged as accepted.
func checkTokens(nav *navigation.VtdNav, d *xdoc) {
	zzsym.Assert(nav.GetVtdBufferSize() == len(d.toks)+1, "number of tokens")
	t := readTok(nav, 0, false)
	zzsym.Assert(t.typ == tDoc && t.depth == -1, "the first token is the document")
	for i, x := range d.toks {
		t := readTok(nav, i+1, d.ns)
		zzsym.Assert(t.typ == x.typ, "token type")
		if x.off >= 0 {
			zzsym.Assert(t.off == x.off, "token offset")
		}
		n := x.n
		if x.typ == tText || x.typ == tCdata || x.typ == tComment {
			// the length of a run that is split over several records is the
			// length of the rest of the run
			for j := i + 1; j < len(d.toks); j++ {
				y, z := d.toks[j], d.toks[j-1]
				if z.n != maxToken || y.typ != x.typ || y.off != z.off+z.n || y.depth != x.depth {
					break
				}
				n += y.n
			}
		}
		zzsym.Assert(t.n == n, "token length")
		if d.ns {
			zzsym.Assert(t.pre == x.pre, "prefix length")
		}
		zzsym.Assert(t.depth == x.depth, "token depth")
	}
}

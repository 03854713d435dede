package zzh

import (
	"errors"

	"github.com/alexZaicev/go-vtd-xml/vtdxml/erroring"
	"github.com/alexZaicev/go-vtd-xml/vtdxml/reader"
	"github.com/alexZaicev/go-vtd-xml/vtdxml/zzsym"
)

// model is a reader as specified: a window, a position, a decoder
type model struct {
	d    *xdoc
	from int
	pos  int
}

func newReader(b []byte, from, to int, ascii bool) (reader.Reader, *model) {
	m := &model{&xdoc{b: b, end: to, ascii: ascii}, from, from}
	if ascii {
		r, err := reader.NewAsciiReader(b, from, to)
		zzsym.Assert(err == nil, "a window inside the data is accepted")
		return r, m
	}
	r, err := reader.NewUtf8Reader(b, from, to)
	zzsym.Assert(err == nil, "a window inside the data is accepted")
	return r, m
}

// next decodes at the position: width 0 outside the window, -1 invalid
func (m *model) next(pos int) (uint32, int) {
	if pos < m.from || pos >= m.d.end {
		return 0, 0
	}
	return m.d.at(pos)
}

func isEOF(err error) bool {
	var e *erroring.EOFError
	return errors.As(err, &e)
}

// get reads a character; false: the reader cannot go on
func (m *model) get(r reader.Reader) bool {
	c, w := m.next(m.pos)
	ch, err := r.GetChar()
	switch {
	case w == 0:
		zzsym.Assert(err != nil && isEOF(err), "the end of the window is reported as end of input")
		zzsym.Reach("end")
		return false
	case w < 0:
		zzsym.Assert(err != nil, "bytes that are not valid are an error")
		zzsym.Reach("invalid")
		return false
	}
	zzsym.Assert(err == nil && ch == c, "each character is returned")
	m.pos += w
	zzsym.Assert(r.GetOffset() == m.pos, "the offset is behind the character")
	return true
}

func (m *model) skip(r reader.Reader, x uint32) {
	c, w := m.next(m.pos)
	ok := r.SkipChar(x)
	if w > 0 && c == x {
		zzsym.Assert(ok, "the character that comes next is skipped")
		m.pos += w
	} else {
		zzsym.Assert(!ok, "another character is not skipped")
	}
	zzsym.Assert(r.GetOffset() == m.pos, "only a skipped character moves the offset")
}

func (m *model) skipSeq(r reader.Reader, seq string, runes []uint32) {
	pos, want := m.pos, true
	for _, x := range runes {
		c, w := m.next(pos)
		if w <= 0 || c != x {
			want = false
			break
		}
		pos += w
	}
	ok := r.SkipCharSeq(seq)
	zzsym.Assert(ok == want, "a sequence is skipped exactly when it comes next")
	if want {
		m.pos = pos
	}
	zzsym.Assert(r.GetOffset() == m.pos, "only a skipped sequence moves the offset")
}

func (m *model) look(r reader.Reader, o int32) {
	c, w := m.next(int(o))
	v, err := r.GetLongCharAt(o)
	switch {
	case w == 0:
		zzsym.Assert(err != nil, "a position outside the window is an error")
	case w < 0:
		zzsym.Assert(err != nil, "bytes that are not valid are an error")
	case c == '\r':
		crlf := false
		if x, w := m.next(int(o) + 1); w > 0 && x == '\n' {
			crlf = true
		}
		if crlf {
			zzsym.Assert(err == nil && v == 2<<32|'\n', "a line end of two characters is read as one")
		} else {
			zzsym.Assert(err == nil && (v == 1<<32|'\n' || v == 1<<32|'\r'), "the character at the position")
		}
	default:
		zzsym.Assert(err == nil && v == uint64(w)<<32|uint64(c), "the character at the position and its width")
	}
	x, err := r.GetCharAt(o)
	switch {
	case w == 0:
		zzsym.Assert(err != nil, "a position outside the window is an error")
	case w == 1:
		zzsym.Assert(err == nil && x == c, "the character at the position")
	}
	zzsym.Assert(r.GetOffset() == m.pos, "looking does not move the offset")
}

func someReader(k int) (reader.Reader, *model) {
	out := 2 * zzsym.Choose("out", 2)
	b := append(zzsym.Bytes("x", out), zzsym.Bytes("d", k)...)
	b = append(b, zzsym.Bytes("y", out)...)
	if out > 0 {
		b = roomy(b)
	}
	return newReader(b, out, out+k, zzsym.Choose("ascii", 2) == 1)
}

// bound: windows of 0 to 6 (thorough: 9) arbitrary bytes, alone or between 2 and 2 arbitrary bytes, read to the end
func H_C27_read() {
	r, m := someReader(zzsym.Choose("n", tier(7, 10)))
	for n := 0; m.get(r); n++ {
		zzsym.Assert(n < 20, "the end is reached")
	}
}

// bound: windows of 5 (thorough: 6) arbitrary bytes, any character (32-bit) skipped after 0 to 2 reads, then one read
func H_C27_skip() {
	r, m := someReader(tier(5, 6))
	for k := zzsym.Choose("k", 3); k > 0; k-- {
		if !m.get(r) {
			return
		}
	}
	m.skip(r, zzsym.Uint32("c"))
	m.skip(r, zzsym.Uint32("c"))
	m.get(r)
}

var seqs = []struct {
	s string
	r []uint32
}{
	{"", nil}, {"a", []uint32{'a'}}, {"a\xC3\xA9", []uint32{'a', 0xE9}}, {"CDA", []uint32{'C', 'D', 'A'}},
	{"\xE2\x82\xACb", []uint32{0x20AC, 'b'}}, {"\xF0\x90\x8D\x88", []uint32{0x10348}}, {"aab", []uint32{'a', 'a', 'b'}},
	{"\uFFFD", []uint32{0xFFFD}}, {"a\uFFFD", []uint32{'a', 0xFFFD}}, {"\x00", []uint32{0}},
}

// bound: windows of 4 (thorough: 6) arbitrary bytes, 10 sequences skipped after 0 or 1 reads, then another and one read
func H_C27_seq() {
	r, m := someReader(tier(4, 6))
	for k := zzsym.Choose("k", 2); k > 0; k-- {
		if !m.get(r) {
			return
		}
	}
	x := seqs[zzsym.Choose("seq", len(seqs))]
	m.skipSeq(r, x.s, x.r)
	m.skipSeq(r, "b", []uint32{'b'})
	m.get(r)
}

// bound: windows of 5 (thorough: 7) arbitrary bytes, any position (32-bit) looked up before and after a read
func H_C27_look() {
	r, m := someReader(tier(5, 7))
	o := zzsym.Int32("o")
	m.look(r, o)
	if m.get(r) {
		m.look(r, o)
	}
}

// bound: windows of 0 to 4 (thorough: 6) arbitrary bytes, the offset set to any value (64-bit), then a read, skip or look
func H_C27_set() {
	r, m := someReader(zzsym.Choose("n", tier(5, 7)))
	o := zzsym.Int("o")
	r.SetOffset(o)
	zzsym.Assert(r.GetOffset() == o, "the offset is the one set")
	if o < m.from || o > m.d.end {
		// outside: nothing may be read
		switch zzsym.Choose("op", 3) {
		case 0:
			_, err := r.GetChar()
			zzsym.Assert(err != nil, "nothing is read outside the window")
		case 1:
			zzsym.Assert(!r.SkipChar(zzsym.Uint32("c")), "nothing is skipped outside the window")
		case 2:
			zzsym.Assert(!r.SkipCharSeq("a"), "nothing is skipped outside the window")
		}
		return
	}
	m.pos = o
	switch zzsym.Choose("op", 4) {
	case 0:
		m.get(r)
	case 1:
		m.skip(r, zzsym.Uint32("c"))
	case 2:
		m.skipSeq(r, "ab", []uint32{'a', 'b'})
	case 3:
		m.look(r, zzsym.Int32("p"))
	}
}

// bound: windows of 4 (thorough: 5) arbitrary bytes, every sequence of 4 (thorough: 5) reads, skips and lookups
func H_C27_mix() {
	r, m := someReader(tier(4, 5))
	for k := 0; k < tier(4, 5); k++ {
		switch zzsym.Choose("op", 4) {
		case 0:
			if !m.get(r) {
				return
			}
		case 1:
			m.skip(r, zzsym.Uint32("c"))
		case 2:
			m.skipSeq(r, "a\n", []uint32{'a', '\n'})
		case 3:
			m.look(r, int32(m.pos))
		}
	}
}

package zzh

import (
	"errors"

	"github.com/alexZaicev/go-vtd-xml/vtdxml/buffer"
	"github.com/alexZaicev/go-vtd-xml/vtdxml/erroring"
	"github.com/alexZaicev/go-vtd-xml/vtdxml/zzsym"
)

// list is one of the three growable buffers
type list interface {
	at(i int) (int64, error)
	modify(i int, v int64) error
	add(v int64) error
	size() int
	cut(n int)
	clear()
	array() ([]int64, error)
	narrow() bool
}

type longList struct{ b *buffer.FastLongBuffer }

func (l longList) at(i int) (int64, error)     { return l.b.LongAt(i) }
func (l longList) modify(i int, v int64) error { return l.b.ModifyEntry(i, v) }
func (l longList) add(v int64) error           { return l.b.Append(v) }
func (l longList) size() int                   { return l.b.GetSize() }
func (l longList) cut(n int)                   { l.b.SetSize(n) }
func (l longList) clear()                      { l.b.Clear() }
func (l longList) array() ([]int64, error)     { return l.b.ToLongArray() }
func (l longList) narrow() bool                { return false }

type intList struct{ b *buffer.FastIntBuffer }

func (l intList) at(i int) (int64, error) {
	v, err := l.b.IntAt(i)
	return int64(v), err
}
func (l intList) modify(i int, v int64) error { return l.b.ModifyEntry(i, int32(v)) }
func (l intList) add(v int64) error           { return l.b.Append(int32(v)) }
func (l intList) size() int                   { return l.b.GetSize() }
func (l intList) cut(n int)                   { l.b.SetSize(n) }
func (l intList) clear()                      { l.b.Clear() }
func (l intList) narrow() bool                { return true }
func (l intList) array() ([]int64, error) {
	xs, err := l.b.ToIntArray()
	var r []int64
	for _, x := range xs {
		r = append(r, int64(x))
	}
	return r, err
}

type objList struct {
	b    *buffer.FastObjectBuffer
	page int
	id   string
	have *int // elements held
}

func (l objList) at(i int) (int64, error) {
	v, err := l.b.ObjectAt(i)
	if err != nil {
		return 0, err
	}
	x, ok := v.(int64)
	zzsym.Assert(ok, "the object is the one that was written")
	return x, nil
}
func (l objList) modify(i int, v int64) error { return l.b.ModifyEntry(i, v) }
func (l objList) add(v int64) error {
	err := l.b.Append(v)
	if err == nil {
		*l.have++
	}
	return err
}
func (l objList) cut(n int) {
	l.b.SetSize(n)
	*l.have = n
}
func (l objList) clear() {
	l.b.Clear()
	*l.have = 0
}
func (l objList) narrow() bool { return false }

// size: the recorded defect is that the number of pages is reported
func (l objList) size() int {
	n := l.b.GetSize()
	if n != *l.have && n == (*l.have+l.page-1)/l.page {
		zzsym.Finding(l.id)
		return *l.have
	}
	return n
}
func (l objList) array() ([]int64, error) {
	var r []int64
	for i := 0; i < *l.have; i++ {
		x, err := l.at(i)
		if err != nil {
			return nil, err
		}
		r = append(r, x)
	}
	return r, nil
}

// newList makes one of the buffers; exp -1: default page size
func newList(kind, exp int, id string) list {
	switch kind {
	case 0:
		var b *buffer.FastLongBuffer
		var err error
		if exp < 0 {
			b, err = buffer.NewFastLongBuffer()
		} else {
			b, err = buffer.NewFastLongBuffer(buffer.WithFastLongBufferPageSize(exp))
		}
		zzsym.Assert(err == nil && b != nil, "the page size is accepted")
		return longList{b}
	case 1:
		var b *buffer.FastIntBuffer
		var err error
		if exp < 0 {
			b, err = buffer.NewFastIntBuffer()
		} else {
			b, err = buffer.NewFastIntBuffer(buffer.WithFastIntBufferPageSize(exp))
		}
		zzsym.Assert(err == nil && b != nil, "the page size is accepted")
		return intList{b}
	}
	var b *buffer.FastObjectBuffer
	var err error
	page := 1024
	if exp < 0 {
		b, err = buffer.NewFastObjectBuffer()
	} else {
		b, err = buffer.NewFastObjectBuffer(buffer.WithFastObjectBufferPageSize(exp))
		page = 1 << uint(exp)
	}
	zzsym.Assert(err == nil && b != nil, "the page size is accepted")
	return objList{b, page, id, new(int)}
}

// val is an arbitrary value the buffer can hold
func val(l list) int64 {
	if l.narrow() {
		return int64(zzsym.Int32("v"))
	}
	return zzsym.Int64("v")
}

func isArgErr(err error) bool {
	var e *erroring.InvalidArgumentError
	return errors.As(err, &e)
}

// sameList compares the whole contents with the model
func sameList(l list, m []int64) {
	zzsym.Assert(l.size() == len(m), "the size is the number of elements")
	for i, x := range m {
		v, err := l.at(i)
		zzsym.Assert(err == nil, "an index below the size can be read")
		zzsym.Assert(v == x, "the value last written is read")
	}
	for _, i := range []int{len(m), -1} {
		_, err := l.at(i)
		zzsym.Assert(err != nil, "an index outside cannot be read")
	}
	a, err := l.array()
	zzsym.Assert(err == nil && len(a) == len(m), "the array has all elements")
	for i, x := range m {
		zzsym.Assert(a[i] == x, "the array has the elements in order")
	}
}

func cp(m []int64) []int64 { return append([]int64(nil), m...) }

// op does one arbitrary operation on buffer and model
func op(l list, m []int64) []int64 {
	switch zzsym.Choose("op", 3) {
	case 0:
		v := val(l)
		zzsym.Assert(l.add(v) == nil, "append succeeds")
		return append(m, v)
	case 1:
		i, v := zzsym.Int("i"), val(l)
		err := l.modify(i, v)
		if i >= 0 && i < len(m) {
			zzsym.Assert(err == nil, "an index below the size can be modified")
			m = cp(m)
			m[i] = v
		} else {
			zzsym.Assert(err != nil && isArgErr(err), "modifying an index outside is an invalid argument")
		}
		return m
	}
	i := zzsym.Int("i")
	v, err := l.at(i)
	if i >= 0 && i < len(m) {
		zzsym.Assert(err == nil, "an index below the size can be read")
		zzsym.Assert(v == m[i], "the value last written is read")
	} else {
		zzsym.Assert(err != nil && isArgErr(err), "reading an index outside is an invalid argument")
	}
	return m
}

func fillTo(l list, m []int64, n int) []int64 {
	for len(m) < n {
		v := val(l)
		zzsym.Assert(l.add(v) == nil, "append succeeds")
		m = append(m, v)
	}
	return m
}

// bound: page sizes 1, 2, 4, 8; 0 to 3 pages filled with arbitrary values, 2 (thorough: 3) appends, modifications or reads at any index (64-bit)
func H_C22_ops() {
	exp := zzsym.Choose("exp", 4)
	l := newList(zzsym.Choose("kind", 3), exp, "object-size-22")
	p := 1 << uint(exp)
	ns := []int{0, 1, p - 1, p, p + 1, 2 * p, 2*p + 1, 3 * p}
	m := fillTo(l, nil, ns[zzsym.Choose("n", len(ns))])
	for k := 0; k < tier(2, 3); k++ {
		m = op(l, m)
	}
	sameList(l, m)
}

// bound: default page size, 1022 to 1025 and 2047 to 2050 elements, 1 arbitrary operation at any index
func H_C22_default() {
	l := newList(zzsym.Choose("kind", 3), -1, "object-size-22")
	n := []int{1022, 1023, 1024, 1025, 2048}[zzsym.Choose("n", 5)]
	var m []int64
	for i := 0; i < n; i++ {
		zzsym.Assert(l.add(int64(i*7)) == nil, "append succeeds")
		m = append(m, int64(i*7))
	}
	v := val(l)
	zzsym.Assert(l.add(v) == nil, "append succeeds")
	m = append(m, v)
	i, x := zzsym.Choose("i", 4), val(l)
	i = []int{0, 1023, n, n / 2}[i]
	if i <= n {
		zzsym.Assert(l.modify(i, x) == nil, "an index below the size can be modified")
		m[i] = x
	}
	sameList(l, m)
}

// bound: page sizes 2^4 to 2^13 (thorough: 2^16), appends across the first page and back, any index (64-bit) outside fails
func H_C22_exps() {
	exp := 4 + zzsym.Choose("exp", tier(10, 13))
	l := newList(zzsym.Choose("kind", 3), exp, "object-size-22")
	n := 1<<uint(exp) + 2
	var m []int64
	for i := 0; i < n; i++ {
		zzsym.Assert(l.add(int64(i)) == nil, "append succeeds")
		m = append(m, int64(i))
	}
	i := zzsym.Int("i")
	zzsym.Assume(i < 0 || i >= n)
	_, err := l.at(i)
	zzsym.Assert(err != nil, "an index outside cannot be read")
	zzsym.Assert(l.modify(i, 5) != nil, "an index outside cannot be modified")
	sameList(l, m)
}

// bound: page sizes 1, 2, 4, 8; filled to 0 to 3 pages, cut to any smaller size, refilled, cut or cleared and refilled again, any index (64-bit) read
func H_C23_cut() {
	exp := zzsym.Choose("exp", 4)
	l := newList(zzsym.Choose("kind", 3), exp, "object-size-23")
	p := 1 << uint(exp)
	ns := []int{1, p, p + 1, 2 * p, 2*p + 1, 3 * p}
	m := fillTo(l, nil, ns[zzsym.Choose("n", len(ns))])
	for k := 0; k < 2; k++ {
		n := zzsym.Choose("cut", len(m)+1)
		if n == 0 && zzsym.Choose("clear", 2) == 1 {
			l.clear()
		} else {
			l.cut(n)
		}
		m = m[:n:n]
		if zzsym.Choose("more", 2) == 1 {
			gone(l, len(m))
		}
		sameList(l, m)
		as := []int{0, 1, p, p + 1}
		m = fillTo(l, m, len(m)+as[zzsym.Choose("add", len(as))])
		if zzsym.Tier() == 0 {
			break
		}
	}
	sameList(l, m)
	gone(l, len(m))
}

// gone: no index outside is readable
func gone(l list, n int) {
	i := zzsym.Int("i")
	zzsym.Assume(i < 0 || i >= n)
	_, err := l.at(i)
	zzsym.Assert(err != nil, "a removed element is not readable")
	zzsym.Assert(l.modify(i, 1) != nil, "a removed element cannot be modified")
}

// bound: page size 2; 4 (thorough: 6) operations out of append, cut, clear, modify
func H_C23_ops() {
	l := newList(zzsym.Choose("kind", 3), 1, "object-size-23")
	m := fillTo(l, nil, 3)
	for k := 0; k < tier(4, 6); k++ {
		switch zzsym.Choose("op", 4) {
		case 0:
			m = fillTo(l, m, len(m)+1)
		case 1:
			n := zzsym.Choose("cut", len(m)+1)
			l.cut(n)
			m = m[:n:n]
		case 2:
			l.clear()
			m = nil
		case 3:
			if len(m) > 0 {
				v := val(l)
				m = cp(m)
				m[len(m)-1] = v
				zzsym.Assert(l.modify(len(m)-1, v) == nil, "an index below the size can be modified")
			}
		}
	}
	sameList(l, m)
	gone(l, len(m))
}

// bound: default page size: 2049 elements cut to 0, 1, 1023, 1024, 1025 or 2048, refilled beyond the old size
func H_C23_default() {
	l := newList(zzsym.Choose("kind", 3), -1, "object-size-23")
	var m []int64
	for i := 0; i < 2049; i++ {
		zzsym.Assert(l.add(int64(i)) == nil, "append succeeds")
		m = append(m, int64(i))
	}
	n := []int{0, 1, 1023, 1024, 1025, 2048}[zzsym.Choose("n", 6)]
	l.cut(n)
	m = m[:n:n]
	gone(l, n)
	m = fillTo(l, m, n+2)
	for i := len(m); i < 3100; i++ {
		zzsym.Assert(l.add(int64(-i)) == nil, "append succeeds")
		m = append(m, int64(-i))
	}
	sameList(l, m)
}

// bound: every 64-bit value, appended or written later, at the first, second and last place of pages of 1, 2, 4 or 1024 entries
func H_C24_halves() {
	exp := []int{0, 1, 2, 10}[zzsym.Choose("exp", 4)]
	b, err := buffer.NewFastLongBuffer(buffer.WithFastLongBufferPageSize(exp))
	zzsym.Assert(err == nil, "the page size is accepted")
	n := zzsym.Choose("n", 6)
	for i := 0; i < n; i++ {
		zzsym.Assert(b.Append(zzsym.Int64("x")) == nil, "append succeeds")
	}
	v := zzsym.Int64("v")
	if zzsym.Choose("later", 2) == 1 {
		zzsym.Assert(b.Append(0) == nil, "append succeeds")
		zzsym.Assert(b.ModifyEntry(n, v) == nil, "modification succeeds")
	} else {
		zzsym.Assert(b.Append(v) == nil, "append succeeds")
	}
	zzsym.Assert(b.Append(zzsym.Int64("y")) == nil, "append succeeds")
	lo, e1 := b.Lower32At(n)
	hi, e2 := b.Upper32At(n)
	zzsym.Assert(e1 == nil && e2 == nil, "both halves can be read")
	zzsym.Assert(lo == int32(v), "the lower half is the low 32 bits")
	zzsym.Assert(hi == int32(v>>32), "the upper half is the high 32 bits")
	zzsym.Assert(int64(hi)<<32|int64(uint32(lo)) == v, "the halves make up the value")
	i := zzsym.Int("i")
	zzsym.Assume(i < 0 || i > n+1)
	_, e1 = b.Lower32At(i)
	_, e2 = b.Upper32At(i)
	zzsym.Assert(e1 != nil && e2 != nil, "an index outside is an error")
}

// bound: contents of 0 to 6 (thorough: 9) arbitrary bytes, with and without spare capacity behind them, every index, offset and length (64-bit)
func H_C25_all() {
	n := zzsym.Choose("n", tier(7, 10))
	d := zzsym.Bytes("d", n)
	keep := append([]byte(nil), d...)
	if zzsym.Choose("roomy", 2) == 1 {
		d = roomy(d)
	}
	b, err := buffer.NewUniByteBuffer(d)
	if n == 0 && err != nil {
		return
	}
	zzsym.Assert(err == nil && b != nil, "a buffer over bytes can be made")
	i := zzsym.Int("i")
	v, err := b.ByteAt(i)
	if i >= 0 && i < n {
		zzsym.Assert(err == nil && v == keep[i], "the byte at a valid index")
	} else {
		zzsym.Assert(err != nil && isArgErr(err), "an index outside is an invalid argument")
	}
	off, m := zzsym.Int("off"), zzsym.Int("len")
	s, err := b.GetByteSlice(off, m)
	if off >= 0 && off < n && m > 0 && m <= n-off {
		if err != nil && m == n-off {
			zzsym.Finding("slice-to-end")
		} else {
			zzsym.Assert(err == nil, "a range inside the buffer is accepted")
			zzsym.Assert(len(s) == m, "the slice has the given length")
			zzsym.Assert(zzsym.SameBytes(s, keep[off:off+m]), "the slice has exactly the bytes of the range")
		}
	} else if m != 0 || off < 0 || off > n {
		zzsym.Assert(err != nil && isArgErr(err), "a range outside is an invalid argument")
	}
	zzsym.Assert(b.GetSize() == n, "the size is the number of bytes")
	zzsym.Assert(zzsym.SameBytes(b.GetBytes(), keep), "the contents are unchanged")
	b.SetSize(zzsym.Int("size"))
	b.Clear()
	zzsym.Assert(zzsym.SameBytes(b.GetBytes(), keep) && b.GetSize() == n, "the contents are unchanged")
}

func usable(l list, exp int) {
	n := 6
	if exp >= 0 && exp <= 4 {
		n = 2<<uint(exp) + 1
	}
	m := fillTo(l, nil, n)
	sameList(l, m)
	i, v := zzsym.Choose("i", n), val(l)
	zzsym.Assert(l.modify(i, v) == nil, "modification succeeds")
	m[i] = v
	l.cut(n - 2)
	m = m[: n-2 : n-2]
	m = fillTo(l, m, n+1)
	sameList(l, m)
	l.clear()
	sameList(l, nil)
	sameList(l, fillTo(l, nil, 2))
}

// bound: every page-size exponent (64-bit), all three buffers
func H_C26_any() {
	exp := zzsym.Int("exp")
	kind := zzsym.Choose("kind", 3)
	var err error
	var isNil bool
	var l list
	have := new(int)
	switch kind {
	case 0:
		var b *buffer.FastLongBuffer
		b, err = buffer.NewFastLongBuffer(buffer.WithFastLongBufferPageSize(exp))
		l, isNil = longList{b}, b == nil
	case 1:
		var b *buffer.FastIntBuffer
		b, err = buffer.NewFastIntBuffer(buffer.WithFastIntBufferPageSize(exp))
		l, isNil = intList{b}, b == nil
	case 2:
		var b *buffer.FastObjectBuffer
		b, err = buffer.NewFastObjectBuffer(buffer.WithFastObjectBufferPageSize(exp))
		l, isNil = objList{b, 0, "", have}, b == nil
	}
	if err != nil {
		zzsym.Assert(isNil && isArgErr(err), "a page size that is refused is an invalid argument")
		zzsym.Assert(exp < 1 || exp > 20, "ordinary page sizes are accepted")
		zzsym.Reach("refused")
		return
	}
	zzsym.Reach("accepted")
	zzsym.Assert(exp < 64, "a page size that is no power of two is refused")
	if exp < 0 {
		return
	}
	exp = zzsym.Pick(exp)
	zzsym.Observe("exp", exp)
	if kind == 2 {
		// its size is a matter of C22
		l = objAsList{objList{l.(objList).b, 1, "", have}}
	}
	usable(l, exp)
}

// bound: page-size exponents 1 to 14 (thorough: 17), two pages filled and read, arbitrary values at both ends of the second page
func H_C26_fill_mb() {
	exp := 1 + zzsym.Choose("exp", tier(14, 17))
	kind := zzsym.Choose("kind", 3)
	l := newList(kind, exp, "")
	if kind == 2 {
		l = objAsList{l.(objList)}
	}
	p := 1 << uint(exp)
	v, w := val(l), val(l)
	var m []int64
	for i := 0; i < 2*p+1; i++ {
		x := int64(i) * 5
		if i == p {
			x = v
		} else if i == 2*p-1 {
			x = w
		}
		zzsym.Assert(l.add(x) == nil, "append succeeds")
		m = append(m, x)
	}
	sameList(l, m)
}

// objAsList leaves the reported size of an object buffer out
type objAsList struct{ objList }

func (l objAsList) size() int { return *l.have }

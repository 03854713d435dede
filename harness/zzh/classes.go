package zzh

import (
	"github.com/alexZaicev/go-vtd-xml/vtdxml/common"
	"github.com/alexZaicev/go-vtd-xml/vtdxml/zzsym"
)

// bound: every 32-bit value, all five classes
func H_C28_all() {
	ch := zzsym.Uint32("ch")
	x := common.NewXmlChar()
	zzsym.Assert(x.IsValidChar(ch) == oChar(ch), "valid characters")
	zzsym.Assert(x.IsSpaceChar(ch) == oSpace(ch), "white space")
	zzsym.Assert(x.IsNameStartChar(ch) == oNameStart(ch), "name start characters")
	zzsym.Assert(x.IsNameChar(ch) == oName(ch), "name characters")
	zzsym.Assert(x.IsContentChar(ch) == (oChar(ch) && ch != '<' && ch != '&' && ch != ']'), "content characters")
}

// bound: every pair of 32-bit values asked one after the other, of one classifier and of two
func H_C28_twice() {
	a, b := zzsym.Uint32("a"), zzsym.Uint32("b")
	x, y := common.NewXmlChar(), common.NewXmlChar()
	p, q := x.IsNameChar(a), y.IsNameStartChar(a)
	zzsym.Assert(p == oName(a) && q == oNameStart(a), "name characters")
	zzsym.Assert(x.IsValidChar(b) == oChar(b), "valid characters")
	zzsym.Assert(x.IsNameChar(b) == oName(b), "name characters")
	zzsym.Assert(y.IsSpaceChar(b) == oSpace(b), "white space")
	zzsym.Assert(x.IsContentChar(a) == (oChar(a) && a != '<' && a != '&' && a != ']'), "content characters")
	zzsym.Assert(x.IsNameStartChar(b) == oNameStart(b), "name start characters")
}

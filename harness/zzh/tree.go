package zzh

import (
	"errors"

	"github.com/alexZaicev/go-vtd-xml/vtdxml/common"
	"github.com/alexZaicev/go-vtd-xml/vtdxml/erroring"
	"github.com/alexZaicev/go-vtd-xml/vtdxml/navigation"
	"github.com/alexZaicev/go-vtd-xml/vtdxml/zzsym"
)

// tree is the element tree as the specification reads it from the document;
// node -1 is the document.
type tree struct {
	idx, depth, parent, first, last, next, prev []int
}

func treeOf(toks []xtok) *tree {
	t := &tree{}
	var open [300]int
	for i, x := range toks {
		if x.typ != tStart {
			continue
		}
		k := len(t.idx)
		t.idx = append(t.idx, i+1)
		t.depth = append(t.depth, x.depth)
		t.first = append(t.first, -1)
		t.last = append(t.last, -1)
		t.next = append(t.next, -1)
		t.prev = append(t.prev, -1)
		p := -1
		if x.depth > 0 {
			p = open[x.depth-1]
			if t.last[p] >= 0 {
				t.prev[k] = t.last[p]
				t.next[t.last[p]] = k
			} else {
				t.first[p] = k
			}
			t.last[p] = k
		}
		t.parent = append(t.parent, p)
		open[x.depth] = k
	}
	return t
}

// move is what a move has to do
func (t *tree) move(cur int, dir navigation.Direction) (int, bool) {
	to := -1
	switch dir {
	case navigation.Root:
		return 0, true
	case navigation.Parent:
		if cur < 0 {
			return cur, false
		}
		return t.parent[cur], true
	case navigation.FirstChild:
		if cur < 0 {
			return 0, true
		}
		to = t.first[cur]
	case navigation.LastChild:
		if cur < 0 {
			return 0, true
		}
		to = t.last[cur]
	case navigation.NextSibling:
		if cur >= 0 {
			to = t.next[cur]
		}
	case navigation.PrevSibling:
		if cur >= 0 {
			to = t.prev[cur]
		}
	}
	if to < 0 {
		return cur, false
	}
	return to, true
}

func (t *tree) at(nav *navigation.VtdNav, cur int) {
	want := 0
	if cur >= 0 {
		want = t.idx[cur]
	}
	i, err := nav.GetCurrentIndex()
	zzsym.Assert(err == nil && int(i) == want, "the cursor is on the right element")
}

// step makes a move and compares it with the tree
func (t *tree) step(nav *navigation.VtdNav, cur int, dir navigation.Direction) int {
	to, want := t.move(cur, dir)
	ok, err := nav.ToElement(dir)
	zzsym.Assert(err == nil, "a legal move is no error")
	zzsym.Assert(ok == want, "a move succeeds exactly when there is such an element")
	t.at(nav, to)
	return to
}

// traverse visits all elements from the document on
func (t *tree) traverse(nav *navigation.VtdNav, visit func(cur int)) {
	t.at(nav, -1)
	ok, err := nav.ToElement(navigation.Root)
	zzsym.Assert(ok && err == nil, "the root can be reached")
	cur, seen := 0, 0
	for {
		zzsym.Assert(cur == seen, "document order")
		seen++
		t.at(nav, cur)
		i, _ := nav.GetCurrentIndex()
		typ, e1 := nav.GetTokenType(int(i))
		dep, e2 := nav.GetTokenDepth(int(i))
		zzsym.Assert(e1 == nil && e2 == nil && typ == tStart && int(dep) == t.depth[cur], "a start tag at its level")
		if visit != nil {
			visit(cur)
		}
		to := t.step(nav, cur, navigation.FirstChild)
		for to == cur && cur >= 0 {
			to = t.step(nav, cur, navigation.NextSibling)
			if to == cur {
				cur = t.step(nav, cur, navigation.Parent)
				to = cur
			}
		}
		if cur < 0 {
			break
		}
		cur = to
	}
	zzsym.Assert(seen == len(t.idx), "every element is visited")
}

// parseTree parses an accepted document
func parseTree(b []byte, c conf) (*navigation.VtdNav, *tree) {
	d := judge(b, 0, len(b), c.ns)
	zzsym.Assume(d.verdict == vAccept)
	nav, err := parseDoc(b, c)
	zzsym.Assert(err == nil, "a well-formed document is accepted")
	zzsym.Assert(nav.GetVtdBufferSize() == len(d.toks)+1, "number of tokens")
	zzsym.Assert(nav.GetEncoding() == common.FormatUtf8, "the navigation object has the encoding of the document")
	observe(nil, nav)
	return nav, treeOf(d.toks)
}

// slots appends k tags whose two arbitrary bytes make them start, end or
// empty-element tags
func slots(b []byte, k int) []byte {
	for ; k > 0; k-- {
		x, y := zzsym.Byte("s"), zzsym.Byte("s")
		zzsym.Assume(x == 'a' && (y == '/' || y == ' ') || x == '/' && y == 'a')
		b = append(b, '<', x, y, '>')
	}
	return b
}

// levels are surroundings of the slots: at each level, with elements around
// them on the same and on other levels.
var levels = []ctx{
	{"<r>", "</r>"},
	{"<r><b/><a>", "</a><b><c/></b></r>"},
	{"<r><b><c/></b><b><c/><a>", "</a><c><d/></c></b></r>"},
	{"<r><b><c><d/></c></b><b><c/><c><d/><a>", "</a></c><c><d><e/></d></c></b><b/></r>"},
	{"<r><b><c><d><e/></d></c></b><b><c><d/><d><a>", "</a><e/></d><d/></c><c><d><e><f/></e></d></c></b></r>"},
	{"<r>x<b y='1'><c z='2'>t<d><e><f/></e><e><a>", "</a><f/></e><!--e--></d><?p?></c><![CDATA[]]></b>u</r>"},
}

func slotTree(k int) ([]byte, conf) {
	x := levels[zzsym.Choose("level", len(levels))]
	b := slots([]byte(x.pre), k)
	return append(b, x.post...), conf{false, 3 + 2*zzsym.Choose("lc", 2)}
}

// bound: trees of up to 8 (thorough: 11) symbolic tags (start, end, empty) on 6 levels below the root, both cache depths
func H_C15_slots() {
	nav, t := parseTree(slotTree(tier(8, 11)))
	t.traverse(nav, nil)
}

// bound: 6 small and the 270-byte document, any 2 (thorough: 3) neighbouring bytes replaced or inserted
func H_C15_mutate() {
	docs := append([]string{everything}, small...)
	b := mutate(docs[zzsym.Choose("doc", len(docs))], tier(2, 3))
	nav, t := parseTree(b, anyConf())
	t.traverse(nav, nil)
}

var units = []string{
	"<b/>", "<b></b>", "<b><c/></b>", "<b><c/><c/></b>", "<b><c><d/></c></b>", "<b><c><d/><d/></c><c/></b>",
	"<b><c><d><e/></d></c></b>", "<b><c/><c><d><e><f/></e></d><d/></c></b>",
}

// manyTree has n copies of one of the units and slots between them, below
// an element of its own if deep; it is padded to more than pad bytes.
func manyTree(n, pad, k int) []byte {
	u := units[zzsym.Choose("unit", len(units))]
	open, closing := "<r>", "</r>"
	switch zzsym.Choose("deep", 3) {
	case 1:
		open, closing = "<r><s/><s>", "</s><s/></r>"
	case 2:
		open, closing = "<r><s><t/><t>", "</t><t/></s></r>"
	}
	b := append([]byte(open), repeat(u, n)...)
	b = slots(b, k)
	b = append(b, repeat(u, 2)...)
	if len(b) < pad {
		b = append(b, repeat(" ", pad-len(b))...)
	}
	return append(b, closing...)
}

// bound: 15 to 70 copies of 8 subtrees on 3 levels with 2 symbolic tags (pages of 32 and 64 cache entries), both cache depths
func H_C15_many() {
	sizes := []struct{ n, pad int }{{15, 0}, {31, 0}, {33, 0}, {66, 1100}}
	x := sizes[zzsym.Choose("size", len(sizes))]
	nav, t := parseTree(manyTree(x.n, x.pad, 2), conf{false, 3 + 2*zzsym.Choose("lc", 2)})
	t.traverse(nav, nil)
}

// bound: 130 to 600 elements in documents of 4100 to 17000 (thorough: 263000) bytes (pages of 128 to 2048 cache entries), both cache depths
func H_C15_pages() {
	sizes := []struct{ n, pad int }{{130, 4100}, {258, 16400}, {515, 65600}, {2050, 263000}}
	x := sizes[zzsym.Choose("size", tier(2, 4))]
	nav, t := parseTree(manyTree(x.n, x.pad, tier(0, 1)), conf{false, 3 + 2*zzsym.Choose("lc", 2)})
	t.traverse(nav, nil)
}

// bound: chains of 1 to 255 levels with 1 symbolic tag at the bottom
func H_C15_deep() {
	ns := []int{1, 2, 3, 4, 5, 6, 7, 31, 33, 64, 127, 128, 129, 252, 253}
	n := ns[zzsym.Choose("n", len(ns))]
	b := append([]byte(repeat("<a>", n)), "<a/>"...)
	b = slots(b, 1)
	b = append(b, repeat("</a>", n)...)
	nav, t := parseTree(b, conf{zzsym.Choose("ns", 2) == 1, 3 + 2*zzsym.Choose("lc", 2)})
	t.traverse(nav, nil)
}

func legalDir() navigation.Direction {
	d := zzsym.Int("dir")
	zzsym.Assume(d >= 0 && d <= 5)
	return navigation.Direction(d)
}

// goTo moves to element number target by first-child and next-sibling moves
func (t *tree) goTo(nav *navigation.VtdNav, target int) int {
	cur := -1
	for n := 0; cur != target; n++ {
		zzsym.Assert(n < 1000, "the way to an element ends")
		if cur < 0 {
			cur = t.step(nav, cur, navigation.FirstChild)
			continue
		}
		// the next sibling while its subtree does not contain the target
		if nx := t.next[cur]; nx >= 0 && nx <= target {
			cur = t.step(nav, cur, navigation.NextSibling)
		} else {
			cur = t.step(nav, cur, navigation.FirstChild)
		}
	}
	return cur
}

// bound: trees of 4 (thorough: 6) symbolic tags on 6 levels, every sequence of 3 moves from every element, both cache depths
func H_C17_slots() {
	nav, t := parseTree(slotTree(tier(4, 6)))
	cur := t.goTo(nav, zzsym.Choose("start", len(t.idx)))
	for k := 0; k < 3; k++ {
		cur = t.step(nav, cur, legalDir())
	}
}

// trees with children and without at every level
var shapes = []string{
	"<r><a><b/><c><d/></c></a><e/><f><g><h><i/><j/></h></g><k/></f></r>",
	"<r><a/><b><c/><d/></b><e/><f><g/></f></r>",
	"<r><a><b><c><d><e/><f/></d><g/></c></b><h/></a><i><j><k/></j></i></r>",
	"<r/>",
	"<r><a><b><c/></b></a><a><b/></a><a><b><c/><c/></b><b><c/></b></a><a/></r>",
}

// bound: 5 trees of up to 14 elements on up to 6 levels, every sequence of 5 (thorough: 7) moves, both cache depths
func H_C17_moves() {
	nav, t := parseTree([]byte(shapes[zzsym.Choose("shape", len(shapes))]), conf{false, 3 + 2*zzsym.Choose("lc", 2)})
	cur := -1
	for k := 0; k < tier(5, 7); k++ {
		cur = t.step(nav, cur, legalDir())
	}
}

// every move from every element, coming back by a walk of its own
func allMoves(nav *navigation.VtdNav, t *tree) {
	for k := range t.idx {
		for d := navigation.Root; d <= navigation.PrevSibling; d++ {
			cur := t.step(nav, 0, navigation.Parent)
			zzsym.Assert(cur == -1, "the parent of the root is the document")
			cur = t.goTo(nav, k)
			cur = t.step(nav, cur, d)
			// and all the way back
			for cur > 0 {
				cur = t.step(nav, cur, navigation.Parent)
			}
			t.step(nav, cur, navigation.Root)
		}
	}
}

// bound: trees of 6 (thorough: 8) symbolic tags on 6 levels, every move from every element, both cache depths
func H_C17_all() {
	nav, t := parseTree(slotTree(tier(6, 8)))
	t.step(nav, -1, navigation.LastChild)
	allMoves(nav, t)
}

// backwards visits all elements by last-child and previous-sibling moves
func (t *tree) backwards(nav *navigation.VtdNav) {
	cur := t.step(nav, -1, navigation.LastChild)
	for seen := 1; ; seen++ {
		to := t.step(nav, cur, navigation.LastChild)
		for to == cur && cur >= 0 {
			to = t.step(nav, cur, navigation.PrevSibling)
			if to == cur {
				cur = t.step(nav, cur, navigation.Parent)
				to = cur
			}
		}
		if cur < 0 {
			zzsym.Assert(seen == len(t.idx), "every element is visited")
			return
		}
		cur = to
	}
}

// bound: trees of 8 (thorough: 10) symbolic tags on 6 levels visited backwards, both cache depths
func H_C17_back() {
	nav, t := parseTree(slotTree(tier(8, 10)))
	t.backwards(nav)
}

// bound: 15 to 70 copies of 8 subtrees on 3 levels with 1 symbolic tag visited backwards, both cache depths
func H_C17_many() {
	sizes := []struct{ n, pad int }{{15, 0}, {31, 0}, {33, 0}, {66, 1100}}
	x := sizes[zzsym.Choose("size", len(sizes))]
	nav, t := parseTree(manyTree(x.n, x.pad, 1), conf{false, 3 + 2*zzsym.Choose("lc", 2)})
	t.backwards(nav)
}

// anyStep makes any move, legal or not
func (t *tree) anyStep(nav *navigation.VtdNav, cur int, d int) int {
	if d >= 0 && d <= 5 {
		return t.step(nav, cur, navigation.Direction(zzsym.Pick(d)))
	}
	ok, err := nav.ToElement(navigation.Direction(d))
	var ne *erroring.NavigationError
	zzsym.Assert(!ok && err != nil && errors.As(err, &ne), "an illegal direction is a navigation error")
	t.at(nav, cur)
	return cur
}

// bound: trees of 4 (thorough: 6) symbolic tags on 6 levels: at every element every failing move and any illegal direction (64-bit) is tried in between
func H_C18_between() {
	nav, t := parseTree(slotTree(tier(4, 6)))
	bad := zzsym.Int("dir")
	zzsym.Assume(bad < 0 || bad > 5)
	t.traverse(nav, func(cur int) {
		t.anyStep(nav, cur, bad)
		for d := navigation.Root; d <= navigation.PrevSibling; d++ {
			if _, ok := t.move(cur, d); !ok {
				t.step(nav, cur, d)
			}
		}
	})
}

// bound: 5 trees of up to 14 elements, every sequence of 4 (thorough: 6) moves in any direction (64-bit), then all elements visited
func H_C18_moves() {
	nav, t := parseTree([]byte(shapes[zzsym.Choose("shape", len(shapes))]), conf{false, 3 + 2*zzsym.Choose("lc", 2)})
	cur := -1
	for k := 0; k < tier(4, 6); k++ {
		cur = t.anyStep(nav, cur, zzsym.Int("dir"))
	}
	cur = t.step(nav, cur, navigation.Root)
	cur = t.step(nav, cur, navigation.Parent)
	t.traverse(nav, nil)
}

// bound: trees of 4 (thorough: 6) symbolic tags on 6 levels: from every element one failing move, then every sequence of 2 moves
func H_C18_then() {
	nav, t := parseTree(slotTree(tier(4, 6)))
	cur := t.goTo(nav, zzsym.Choose("start", len(t.idx)))
	d := legalDir()
	_, ok := t.move(cur, d)
	zzsym.Assume(!ok)
	for k := 0; k < 3; k++ {
		cur = t.step(nav, cur, d)
		d = legalDir()
	}
}

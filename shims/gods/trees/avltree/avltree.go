// Package avltree is a stand-in for github.com/emirpasic/gods/trees/avltree,
// with the same exported shape (Root, Node.Children, Parent, Key, Value). Like
// the original it is not safe for concurrent use.
package avltree

import "github.com/emirpasic/gods/utils"

// Tree is an AVL tree.
type Tree struct {
	Root       *Node
	Comparator utils.Comparator
	size       int
}

// Node is a node of a Tree.
type Node struct {
	Key      interface{}
	Value    interface{}
	Parent   *Node
	Children [2]*Node
	h        int
}

// NewWith returns an empty tree ordered by c.
func NewWith(c utils.Comparator) *Tree { return &Tree{Comparator: c} }

// Empty tells whether there is no node.
func (t *Tree) Empty() bool { return t.size == 0 }

// Size is the number of nodes.
func (t *Tree) Size() int { return t.size }

// Clear drops all nodes.
func (t *Tree) Clear() { t.Root, t.size = nil, 0 }

// Get finds a value.
func (t *Tree) Get(key interface{}) (interface{}, bool) {
	n := t.Root
	for n != nil {
		c := t.Comparator(key, n.Key)
		switch {
		case c == 0:
			return n.Value, true
		case c < 0:
			n = n.Children[0]
		default:
			n = n.Children[1]
		}
	}
	return nil, false
}

// Left is the smallest node, nil when empty.
func (t *Tree) Left() *Node { return t.edge(0) }

// Right is the biggest node, nil when empty.
func (t *Tree) Right() *Node { return t.edge(1) }

func (t *Tree) edge(d int) *Node {
	n := t.Root
	if n == nil {
		return nil
	}
	for n.Children[d] != nil {
		n = n.Children[d]
	}
	return n
}

// Floor is the biggest node not above key.
func (t *Tree) Floor(key interface{}) (*Node, bool) {
	var best *Node
	n := t.Root
	for n != nil {
		c := t.Comparator(key, n.Key)
		if c == 0 {
			return n, true
		}
		if c < 0 {
			n = n.Children[0]
		} else {
			best = n
			n = n.Children[1]
		}
	}
	return best, best != nil
}

// Ceiling is the smallest node not below key.
func (t *Tree) Ceiling(key interface{}) (*Node, bool) {
	var best *Node
	n := t.Root
	for n != nil {
		c := t.Comparator(key, n.Key)
		if c == 0 {
			return n, true
		}
		if c > 0 {
			n = n.Children[1]
		} else {
			best = n
			n = n.Children[0]
		}
	}
	return best, best != nil
}

func height(n *Node) int {
	if n == nil {
		return 0
	}
	return n.h
}

func (n *Node) fix() {
	a, b := height(n.Children[0]), height(n.Children[1])
	if a < b {
		a = b
	}
	n.h = a + 1
}

func (t *Tree) replace(old, with *Node) {
	p := old.Parent
	if with != nil {
		with.Parent = p
	}
	switch {
	case p == nil:
		t.Root = with
	case p.Children[0] == old:
		p.Children[0] = with
	default:
		p.Children[1] = with
	}
}

// rotate lifts the child on side d above n.
func (t *Tree) rotate(n *Node, d int) *Node {
	c := n.Children[d]
	t.replace(n, c)
	n.Children[d] = c.Children[1-d]
	if n.Children[d] != nil {
		n.Children[d].Parent = n
	}
	c.Children[1-d] = n
	n.Parent = c
	n.fix()
	c.fix()
	return c
}

func (t *Tree) rebalance(n *Node) {
	for n != nil {
		n.fix()
		bal := height(n.Children[1]) - height(n.Children[0])
		if bal > 1 || bal < -1 {
			d := 0
			if bal > 1 {
				d = 1
			}
			c := n.Children[d]
			if height(c.Children[1-d]) > height(c.Children[d]) {
				t.rotate(c, 1-d)
			}
			n = t.rotate(n, d)
		}
		n = n.Parent
	}
}

// Put inserts or overwrites.
func (t *Tree) Put(key, value interface{}) {
	if t.Root == nil {
		t.Root = &Node{Key: key, Value: value, h: 1}
		t.size++
		return
	}
	n := t.Root
	for {
		c := t.Comparator(key, n.Key)
		if c == 0 {
			n.Key, n.Value = key, value
			return
		}
		d := 0
		if c > 0 {
			d = 1
		}
		if n.Children[d] == nil {
			n.Children[d] = &Node{Key: key, Value: value, Parent: n, h: 1}
			t.size++
			t.rebalance(n)
			return
		}
		n = n.Children[d]
	}
}

// Remove deletes a key; unknown keys are ignored.
func (t *Tree) Remove(key interface{}) {
	n := t.Root
	for n != nil {
		c := t.Comparator(key, n.Key)
		if c == 0 {
			break
		}
		if c < 0 {
			n = n.Children[0]
		} else {
			n = n.Children[1]
		}
	}
	if n == nil {
		return
	}
	t.size--
	if n.Children[0] != nil && n.Children[1] != nil {
		s := n.Children[1]
		for s.Children[0] != nil {
			s = s.Children[0]
		}
		n.Key, n.Value = s.Key, s.Value
		n = s
	}
	c := n.Children[0]
	if c == nil {
		c = n.Children[1]
	}
	p := n.Parent
	t.replace(n, c)
	t.rebalance(p)
}

// Keys lists the keys in order.
func (t *Tree) Keys() []interface{} {
	var out []interface{}
	var walk func(*Node)
	walk = func(n *Node) {
		if n == nil {
			return
		}
		walk(n.Children[0])
		out = append(out, n.Key)
		walk(n.Children[1])
	}
	walk(t.Root)
	return out
}

// Values lists the values in key order.
func (t *Tree) Values() []interface{} {
	var out []interface{}
	var walk func(*Node)
	walk = func(n *Node) {
		if n == nil {
			return
		}
		walk(n.Children[0])
		out = append(out, n.Value)
		walk(n.Children[1])
	}
	walk(t.Root)
	return out
}

// Prev is the node before n, Next the one after.
func (n *Node) Prev() *Node { return n.step(0) }

// Next is the node after n.
func (n *Node) Next() *Node { return n.step(1) }

func (n *Node) step(d int) *Node {
	if n == nil {
		return nil
	}
	if n.Children[d] != nil {
		n = n.Children[d]
		for n.Children[1-d] != nil {
			n = n.Children[1-d]
		}
		return n
	}
	p := n.Parent
	for p != nil && n == p.Children[d] {
		n, p = p, p.Parent
	}
	return p
}

// Iterator iterates over the tree in order.
type Iterator struct {
	t   *Tree
	n   *Node
	pos int // 0 before, 1 at n, 2 after
}

// Iterator returns an iterator placed before the first node.
func (t *Tree) Iterator() *Iterator { return &Iterator{t: t} }

// Next advances.
func (i *Iterator) Next() bool {
	switch i.pos {
	case 0:
		i.n = i.t.Left()
	case 1:
		i.n = i.n.Next()
	case 2:
		return false
	}
	if i.n == nil {
		i.pos = 2
		return false
	}
	i.pos = 1
	return true
}

// Prev goes back.
func (i *Iterator) Prev() bool {
	switch i.pos {
	case 2:
		i.n = i.t.Right()
	case 1:
		i.n = i.n.Prev()
	case 0:
		return false
	}
	if i.n == nil {
		i.pos = 0
		return false
	}
	i.pos = 1
	return true
}

// Key and Value are those of the current node.
func (i *Iterator) Key() interface{} { return i.n.Key }

// Value is that of the current node.
func (i *Iterator) Value() interface{} { return i.n.Value }

// Begin resets to before the first, End to after the last node.
func (i *Iterator) Begin() { i.n, i.pos = nil, 0 }

// End moves past the last node.
func (i *Iterator) End() { i.n, i.pos = nil, 2 }

package main

import (
	"bytes"
	"fmt"

	"github.com/go-andiamo/aitch"
)

// C19: every named constructor is the generic one with its standard name.  The two are built from
// the same contents and compared as nodes, alone and inside parents.

func init() {
	register(&Prop{ID: "C19", Quick: 240000, Thor: 20000000, Run: runC19,
		Rule: "every constructor of the catalogue (509 named element and attribute constructors of html, svg and htmx) with many random contents each (values of all kinds, attributes, duplicates, conditionals, iterations), compared with the generic constructor of the standard name: name, type, output alone and in parents next to other declarations of the same name, calls of dynamic values; suffix constructors interleaved with one another; all nodes are built before any is rendered; non-trivial: constructor with distinct output",
		Min:  map[string]int64{"constructors": 500, "pairs": 100000, "elements": 20000, "void_elements": 2000, "attributes": 40000, "delimited": 1000, "boolean": 3000, "suffixes": 10000, "neighbours": 30000}})
}

type namedPair struct {
	e        catEntry
	tree     *Node // the generic one
	named    *Node
	name     string
	typ      aitch.NodeType
	nNode    aitch.Node
	gNode    aitch.Node
	nParent  aitch.Node
	gParent  aitch.Node
	parent   *Node
	suffixed bool
}

var namedEntries []catEntry

func init() {
	for _, e := range catalogue {
		switch e.Kind {
		case "elem", "void", "attr", "bool", "delim":
			namedEntries = append(namedEntries, e)
		}
	}
}

func runC19(c *Case) {
	cfg := Cfg{Depth: 3, Kids: c.Range(1, 4), Budget: 8, Attrs: 40, Cond: c.Pct(50), Iter: c.Pct(40), Imper: c.Pct(30), Collect: c.Pct(30), User: c.Pct(20), Dyn: true, Dup: true, Nil: c.Pct(20), Empty: true}
	g := newGen(c.Rand, cfg)
	if c.Idx%10 == 9 {
		c.suffixes(g)
		return
	}
	var pairs []*namedPair
	for k := 0; k < 3; k++ { // several constructors next to one another: none may influence the others
		e := namedEntries[(c.Idx+k*c.N(len(namedEntries)))%len(namedEntries)]
		if k == 0 {
			e = namedEntries[c.Idx%len(namedEntries)]
		}
		p := &namedPair{e: e, name: e.Name, typ: aitch.AttributeNode}
		g.budget = 6
		switch e.Kind {
		case "elem", "void":
			p.typ = aitch.ElementNode
			kind := e.Kind
			if e.Name == "track" {
				kind = "void"
			}
			kids := g.kids(2, "elem")
			if c.Pct(30) {
				kids = append(kids, &Node{K: "text", Vals: g.vals(false)}, g.attr())
			}
			p.tree = &Node{K: kind, Name: e.Name, Via: 1, Kids: kids}
		case "attr":
			p.tree = &Node{K: "attr", Name: e.Name, Via: 1, Vals: g.vals(false)}
		case "bool":
			p.tree = &Node{K: "battr", Name: e.Name, Via: 1}
		case "delim":
			p.tree = &Node{K: "dattr", Name: e.Name, Delim: e.Extra, Via: 1, Vals: g.vals(false)}
			if c.Pct(50) {
				p.tree.Vals = append(p.tree.Vals, g.val(true, 1), g.val(true, 1))
			}
		}
		n := *p.tree
		n.Ctor = e.Fn
		p.named = &n
		pairs = append(pairs, p)
	}
	b := &Builder{}
	for _, p := range pairs {
		p.nNode = b.node(p.named)
		c.Count("constructors_called", 1)
	}
	if c.Idx < len(namedEntries) {
		c.Count("constructors", 1)
	}
	for _, p := range pairs {
		p.gNode = b.node(p.tree)
		// neighbours: the same constructor and the generic one in one parent
		before, after := g.attr(), g.attr()
		other := *p.tree
		if p.tree.K == "attr" || p.tree.K == "dattr" {
			other.Vals = g.vals(false)
		}
		order := c.N(4)
		mk := func(x *Node) *Node {
			kids := []*Node{before, x, after}
			switch order {
			case 0:
				kids = []*Node{before, x, after, &other}
			case 1:
				kids = []*Node{&other, before, x, after}
			case 2:
				kids = []*Node{before, x, x, after}
			}
			return &Node{K: "elem", Name: "parent", Via: 1, Kids: kids}
		}
		if p.e.Name == "track" {
			before, after = nil, nil
		}
		p.parent = mk(p.tree)
		p.nParent, p.gParent = b.node(mk(p.named)), b.node(p.parent)
		c.Count("neighbours", 1)
	}
	run := g.newRun(c.Rand)
	for _, p := range pairs {
		c.samePair(p, run)
	}
	c.Sample(func() any { return map[string]any{"constructor": pairs[0].e.Fn, "tree": js(pairs[0].tree)} })
}

func (c *Case) samePair(p *namedPair, base *Run) {
	c.Count("pairs", 1)
	switch {
	case p.suffixed:
		c.Count("suffixes", 1)
	case p.e.Kind == "elem":
		c.Count("elements", 1)
	case p.e.Kind == "void":
		c.Count("void_elements", 1)
	case p.e.Kind == "delim":
		c.Count("delimited", 1)
	case p.e.Kind == "bool":
		c.Count("boolean", 1)
	case p.e.Kind == "attr":
		c.Count("attributes", 1)
	}
	fail := func(what string, detail ...any) {
		if p.e.Fn == "html.Track" {
			c.Known("html.Track", what, fmt.Sprint(detail...))
			return
		}
		c.Fail(p.e.Fn+" "+what, map[string]any{"contents": js(p.tree), "more": fmt.Sprint(detail...)})
	}
	if p.nNode == nil {
		fail("returns nil")
		return
	}
	if p.nNode.Name() != p.name || p.nNode.Type() != p.typ {
		fail("has the wrong name or type", fmt.Sprintf("%q %d", p.nNode.Name(), p.nNode.Type()))
		return
	}
	for i, pair := range [][2]aitch.Node{{p.nNode, p.gNode}, {p.nParent, p.gParent}} {
		if pair[0] == nil {
			continue
		}
		r1, r2 := base.again(), base.again()
		_, e1 := render(pair[0], r1)
		_, e2 := render(pair[1], r2)
		c.Eval()
		if e1 != nil || e2 != nil || !bytes.Equal(r1.rec.out, r2.rec.out) {
			fail("does not render like the generic constructor", i, e1, e2, diff(r2.rec.out, r1.rec.out))
			return
		}
		if len(r1.ev) != len(r2.ev) {
			fail("calls other dynamic functions than the generic constructor", len(r1.ev), len(r2.ev))
			return
		}
		for k := range r1.ev {
			if a, b := r1.ev[k], r2.ev[k]; a.Kind != b.Kind || a.ID != b.ID || a.Data != b.Data || a.Depth != b.Depth {
				fail("calls dynamic functions in another way than the generic constructor", a.String(), b.String())
				return
			}
		}
		c.NonTrivial(p.e.Fn, p.name, r1.rec.out)
	}
	// and what the standard name demands
	m := &model{run: base}
	env := &Env{data: base.data, cargo: base.cargo}
	if p.typ == aitch.ElementNode {
		m.node(p.tree, env)
	} else {
		m.writeAttrs(m.attrsOf([]*Node{p.tree}, env), env, 0)
	}
	r := base.again()
	_, err := render(p.nNode, r)
	if err != nil || !bytes.Equal(m.out, r.rec.out) {
		fail("does not render with its standard name", err, diff(m.out, r.rec.out))
	}
}

// suffixes builds many nodes with the constructors that take a suffix before any of them is used
func (c *Case) suffixes(g *Gen) {
	var pairs []*namedPair
	b := &Builder{}
	suffixes := []string{"x", "label", "a-b", "foo-bar-baz", "", "1", "click", "after-request", "x:y", "zzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzz", "é", "ABC"}
	for i := c.Range(2, 8); i > 0; i-- {
		fn := c.Pick("html.Aria", "html.Data", "htmx.On")
		prefix := map[string]string{"html.Aria": "aria-", "html.Data": "data-", "htmx.On": "hx-on:"}[fn]
		suffix := suffixes[c.N(len(suffixes))]
		if c.Pct(40) {
			suffix = c.aName(c.Range(1, 9))
		}
		vs := g.vals(false)
		tree := &Node{K: "attr", Name: prefix + suffix, Via: 1, Vals: vs}
		p := &namedPair{e: cat[fn], tree: tree, name: prefix + suffix, typ: aitch.AttributeNode, suffixed: true, nNode: reg_named[fn](suffix, b.vals(fn, vs)...)}
		pairs = append(pairs, p)
	}
	for _, p := range pairs {
		p.gNode = aitch.NewAttribute([]byte(p.name), b.vals("attr", p.tree.Vals)...)
		p.nParent, p.gParent = aitch.Element("i", p.nNode), aitch.Element("i", p.gNode)
	}
	run := g.newRun(c.Rand)
	for _, p := range pairs {
		c.samePair(p, run)
	}
}

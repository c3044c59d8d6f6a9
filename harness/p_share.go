package main

import (
	"bytes"
	"fmt"

	"github.com/go-andiamo/aitch"
	"github.com/go-andiamo/aitch/html"
	"github.com/go-andiamo/aitch/htmx"
)

// C06: building never affects other nodes or the caller's arguments.  Pools of nodes that are built
// once and used in many parents; every slice and map handed over has spare capacity, is watched, and
// is overwritten afterwards.  The model renders each parent as if it had private copies.

func init() {
	register(&Prop{ID: "C06", Quick: 60000, Thor: 2000000, Run: runC06,
		Rule: "random pools of shared nodes (attributes of all kinds, texts, collections, conditionals, iterations, elements, nodes used as values) built once and used in many parents with renders in between, all argument slices with watched spare capacity and overwritten afterwards; every constructor of the catalogue alone, header maps, node maps, document slices; non-trivial: a shared node used at least twice",
		Min:  map[string]int64{"parents": 50000, "shared_uses": 100000, "shared_delimited_uses": 10000, "argument_slices": 200000, "constructors": 700, "renders": 100000, "value_pools": 1500}})
}

func runC06(c *Case) {
	if c.Idx < 3*len(catalogue) {
		c.oneConstructor(catalogue[c.Idx%len(catalogue)])
		return
	}
	if c.Idx%10 == 0 {
		c.sharedMaps()
		return
	}
	if c.Idx%500 == 3 {
		c.manyParents()
		return
	}
	if c.Idx%20 == 7 {
		c.sharedValues()
		return
	}
	cfg := Cfg{Depth: 3, Kids: c.Range(1, 4), Budget: 12, Attrs: 40, Cond: true, Iter: c.Pct(50), Imper: c.Pct(40), Collect: c.Pct(40), Dyn: c.Pct(50), Dup: true, Nil: c.Pct(20), Named: true, Empty: true, Doc: c.Pct(20), User: c.Pct(30)}
	g := newGen(c.Rand, cfg)
	b := &Builder{hostile: c.Pct(70), shared: map[*Node]aitch.Node{}, share: map[*Node]bool{}}
	// the pool
	var pool []*Node
	add := func(n *Node) {
		pool = append(pool, n)
		b.share[n] = true
	}
	for i := c.Range(2, 6); i > 0; i-- {
		add(g.attr())
	}
	for i := c.Range(0, 3); i > 0; i-- {
		d := delimAttrs[c.N(len(delimAttrs))]
		add(&Node{K: "dattr", Name: d[0], Delim: d[1], Vals: []*Val{g.val(true, 1), g.val(true, 1)}[:c.Range(1, 2)], Ctor: g.named(byAttr, "delim:"+d[0])})
	}
	pickSome := func() (result []*Node) {
		for i := c.Range(1, 4); i > 0; i-- {
			n := pool[c.N(len(pool))]
			result = append(result, n)
			if c.Pct(15) {
				result = append(result, n)
			}
		}
		return result
	}
	for i := c.Range(1, 4); i > 0; i-- {
		g.budget = 10
		switch c.N(7) {
		case 0:
			add(&Node{K: "coll", Kids: append(pickSome(), g.kids(2, "list")...)})
		case 1, 2:
			add(condChain(g, c.N(2)))
		case 3:
			id := g.next()
			g.condIDs = append(g.condIDs, id)
			add(&Node{K: "cond", ID: id, Kids: append(pickSome(), g.kids(2, "list")...)})
		case 4:
			add(&Node{K: "elem", Name: "b", Kids: append(pickSome(), g.kids(1, "elem")...)})
		default:
			add(g.node(3))
		}
	}
	type parent struct {
		tree *Node
		node aitch.Node
	}
	var parents []parent
	fail := func(what string, more any) {
		c.Fail(what, map[string]any{"pool": js(pool), "parents": len(parents), "more": more})
	}
	check := func(p parent) {
		run := g.newRun(c.Rand)
		m := modelRun(p.tree, run)
		_, err := render(p.node, run)
		c.Eval()
		c.Count("renders", 1)
		if err != nil {
			fail("render failed: "+err.Error(), nil)
		}
		if !bytes.Equal(m.out, run.rec.out) {
			fail("a parent does not render as with private copies of its contents", map[string]any{"tree": js(p.tree), "diff": diff(m.out, run.rec.out), "data": dump(run.data)})
		}
		c.NonTrivial(run.rec.out)
	}
	args := func() {
		c.Count("argument_slices", len(b.slabs))
		if e := b.checkArgs(); e != "" {
			fail("a constructor or render changed its arguments: "+e, nil)
		}
		b.junkArgs()
	}
	for i := c.Range(2, 8); i > 0; i-- {
		var t *Node
		g.budget = 15
		kids := pickSome()
		for _, k := range kids {
			c.Count("shared_uses", 1)
			if k.K == "dattr" {
				c.Count("shared_delimited_uses", 1)
			}
		}
		switch c.N(8) {
		case 0:
			t = &Node{K: "void", Name: "img", Via: c.N(2), Kids: kids}
		case 1:
			t = &Node{K: "elem", Name: "g", Ctor: "svg.G", Kids: append(kids, g.kids(2, "elem")...)}
		case 2:
			t = &Node{K: "imper", ID: g.next(), Ops: []*Op{{K: "start", S: "i", Nodes: kids}, {K: "nodes", Nodes: kids}, {K: "endall"}, {K: "start", S: "u", Nodes: kids}}}
		case 3:
			t = &Node{K: "elem", Name: "div", Via: 1, Kids: append(g.kids(2, "elem"), kids...)}
			if c.Pct(60) { // nodes used as values
				t.Kids = append(t.Kids, &Node{K: c.Pick("attr", "attr", "text"), Name: "ref", Vals: []*Val{{K: "noderef", N2: pool[c.N(len(pool))]}, {K: "noderef", N2: pool[c.N(len(pool))]}}})
				t.Kids = append(t.Kids, &Node{K: "dattr", Name: "refs", Delim: ",", Vals: []*Val{{K: "noderef", N2: pool[c.N(len(pool))]}, {K: "cv", Sub: []*Val{{K: "noderef", N2: pool[c.N(len(pool))]}}}}})
			}
		case 4:
			t = &Node{K: "doc", Head: g.kids(1, "elem"), Kids: kids}
		default:
			t = &Node{K: "elem", Name: c.Pick("div", "p"), Via: 1, Kids: kids}
		}
		p := parent{t, b.node(t)}
		parents = append(parents, p)
		c.Count("parents", 1)
		if c.Pct(30) {
			check(parents[c.N(len(parents))])
		}
		if c.Pct(40) {
			args()
		}
	}
	args()
	for _, p := range parents {
		check(p)
	}
	for _, n := range pool { // the shared nodes themselves
		if b.shared[n] == nil {
			continue
		}
		if !n.isAttr() {
			check(parent{n, b.shared[n]})
			continue
		}
		t := elemWith(n)
		check(parent{t, (&Builder{shared: b.shared, share: b.share}).node(t)})
	}
	c.Count("argument_slices", len(b.slabs))
	if e := b.checkArgs(); e != "" {
		fail("rendering changed a slice of the caller: "+e, nil)
	}
	c.Sample(func() any { return map[string]any{"pool": js(pool), "parents": len(parents)} })
}

// oneConstructor calls a constructor with watched slices, overwrites them, and renders
func (c *Case) oneConstructor(e catEntry) {
	c.Count("constructors", 1)
	g := newGen(c.Rand, Cfg{Depth: 2, Kids: 3, Budget: 5, Dyn: true, Named: true})
	b := &Builder{hostile: true, shared: map[*Node]aitch.Node{}, share: map[*Node]bool{}}
	run := g.newRun(c.Rand)
	var n *Node
	switch e.Kind {
	case "elem", "void":
		if e.Name == "track" {
			return // judged by C19
		}
		n = &Node{K: e.Kind, Name: e.Name, Ctor: e.Fn, Kids: []*Node{g.attr(), {K: "plain", Vals: []*Val{{K: "str", S: "x"}}}, g.attr()}}
	case "attr":
		n = elemWith(&Node{K: "attr", Name: e.Name, Ctor: e.Fn, Vals: g.vals(false)})
	case "delim", "css":
		n = elemWith(&Node{K: "dattr", Name: c.cssName(e), Delim: c.delimOf(e), Ctor: e.Fn, Vals: g.vals(false)})
	case "unit":
		n = elemWith(&Node{K: "attr", Name: "title", Vals: []*Val{{K: "unit", S: e.Fn, Sub: g.vals(false)}}})
	case "bool":
		n = elemWith(&Node{K: "battr", Name: e.Name, Ctor: e.Fn})
	case "named":
		f := reg_named[e.Fn]
		vs := g.vals(false)
		args := b.vals(e.Fn, vs)
		node := f("zz", args...)
		if s := b.checkArgs(); s != "" {
			c.Fail(s)
		}
		b.junkArgs()
		t := elemWith(&Node{K: "attr", Name: e.Name, Vals: vs})
		if e.Name == "!zz" {
			t = &Node{K: "pi", Name: "zz", Vals: vs}
		} else {
			node = aitch.Element("div", node)
		}
		m := modelRun(t, run)
		if _, err := render(node, run); err != nil || !bytes.Equal(m.out, run.rec.out) {
			c.Fail(e.Fn+" does not render what it was given", diff(m.out, run.rec.out))
		}
		c.Eval()
		c.Count("argument_slices", 1)
		return
	default:
		return
	}
	node := b.node(n)
	c.Count("argument_slices", len(b.slabs))
	if s := b.checkArgs(); s != "" {
		c.Fail("a constructor changed its arguments: "+s, js(n))
	}
	b.junkArgs()
	m := modelRun(n, run)
	_, err := render(node, run)
	c.Eval()
	if err != nil || !bytes.Equal(m.out, run.rec.out) {
		c.Fail(e.Fn+" depends on its argument slice after construction", map[string]any{"tree": js(n), "diff": diff(m.out, run.rec.out), "data": dump(run.data)})
	}
	c.NonTrivial(e.Fn, run.rec.out)
}

func (c *Case) cssName(e catEntry) string {
	if e.Kind == "css" {
		return "style"
	}
	return e.Name
}

func (c *Case) delimOf(e catEntry) string {
	if e.Kind == "css" {
		return "; "
	}
	return e.Extra
}

// sharedMaps: header maps, node maps and document slices
func (c *Case) sharedMaps() {
	g := newGen(c.Rand, Cfg{Depth: 3, Kids: 3, Budget: 20, Attrs: 30, Dyn: c.Pct(50), Named: true, Cond: true})
	b := &Builder{hostile: true, shared: map[*Node]aitch.Node{}, share: map[*Node]bool{}}
	switch c.N(3) {
	case 0: // the same maps used for several attributes
		n := g.headers()
		maps := b.headerMaps(n)
		args := make([]any, len(maps), len(maps)+2)
		for i, m := range maps {
			args[i] = m
		}
		jsMaps := append(make([]htmx.HeadersMap, 0, len(maps)+2), maps...)
		a1, a2, a3 := htmx.Headers(args...), htmx.HeadersJS(jsMaps...), htmx.Headers(args...)
		if s := b.checkArgs(); s != "" {
			c.Fail("htmx.Headers changed a map: "+s, js(n))
		}
		b.junkArgs()
		for i := range args {
			args[i], jsMaps[i] = htmx.HeadersMap{"JUNK": 1}, htmx.HeadersMap{"JUNK": 1}
		}
		run := g.newRun(c.Rand)
		for i, a := range []aitch.Node{a1, a2, a3} {
			run := run.again()
			k := *n
			k.Ctor = []string{"htmx.Headers", "htmx.HeadersJS", "htmx.Headers"}[i]
			m := modelRun(elemWith(&k), run)
			_, err := render(aitch.Element("div", a), run)
			c.Eval()
			c.Count("renders", 1)
			if err != nil || !bytes.Equal(m.out, run.rec.out) {
				c.Fail("header attribute does not render what it was given", map[string]any{"diff": diff(m.out, run.rec.out), "node": js(n)})
			}
		}
		c.Count("header_maps", len(maps))
		c.NonTrivial(fmt.Sprint(n.Keys))
	case 1: // a node map that is changed after parsing
		t1, t2 := g.node(3), g.node(3)
		n1, n2 := b.node(t1), b.node(t2)
		nm := aitch.NodeMap{"a": n1, "b": n2, "c": nil}
		tm, err := aitch.NewTemplate("t", "<p>{{a .}}|{{b .}}|{{a .}}</p>", nm)
		if err != nil {
			c.Fail("cannot parse: " + err.Error())
		}
		if len(nm) != 3 || nm["a"] != n1 || nm["b"] != n2 || nm["c"] != nil {
			c.Fail("NewTemplate changed the node map")
		}
		nm["a"], nm["b"] = aitch.Text("JUNK"), nil
		delete(nm, "c")
		b.junkArgs()
		run := g.newRun(c.Rand)
		m := &model{run: run}
		env := &Env{data: run.data, cargo: run.cargo}
		m.w("<p>")
		m.node(t1, env)
		m.w("|")
		m.node(t2, env)
		m.w("|")
		m.node(t1, env)
		m.w("</p>")
		run.rec = newRec()
		run.rec.run = run
		err = tm.Execute(run.rec.w(), run.data, run.cargo)
		c.Eval()
		c.Count("node_maps", 1)
		if err != nil || !bytes.Equal(m.out, run.rec.out) {
			c.Fail("a template depends on its node map after parsing", diff(m.out, run.rec.out))
		}
		c.NonTrivial(run.rec.out)
	default: // the same slices used for head and body
		kids := g.kids(2, "elem")
		cs := b.contents("Document", kids)
		d1, d2 := html.Document("en", cs, cs), html.Document(nil, nil, cs)
		if s := b.checkArgs(); s != "" {
			c.Fail("html.Document changed its arguments: " + s)
		}
		b.junkArgs()
		lang := []*Val{{K: "str", S: "en"}}
		for i, d := range []aitch.Node{d1, d2} {
			run := g.newRun(c.Rand)
			t := &Node{K: "doc", Vals: lang, Head: kids, Kids: kids}
			if i == 1 {
				t = &Node{K: "doc", Kids: kids}
			}
			m := modelRun(t, run)
			_, err := render(d, run)
			c.Eval()
			c.Count("documents", 1)
			if err != nil || !bytes.Equal(m.out, run.rec.out) {
				c.Fail("a document depends on its slices after construction", diff(m.out, run.rec.out))
			}
			c.NonTrivial(run.rec.out)
		}
	}
}

// manyParents uses a few nodes in thousands of parents
func (c *Case) manyParents() {
	cfg := Cfg{Depth: 2, Kids: 2, Budget: 8, Attrs: 50, Cond: true, Collect: true, Dyn: true, Dup: true, Named: true, Empty: true}
	g := newGen(c.Rand, cfg)
	b := &Builder{shared: map[*Node]aitch.Node{}, share: map[*Node]bool{}}
	pool := []*Node{g.attr(), {K: "dattr", Name: "class", Delim: " ", Vals: []*Val{{K: "str", S: "shared"}}}, condChain(g, 1), {K: "elem", Name: "b", Kids: g.kids(1, "elem")}, {K: "coll", Kids: g.kids(1, "list")}}
	for _, n := range pool {
		b.share[n] = true
	}
	n := c.Range(1500, 5000)
	shape := c.N(3)
	var prev aitch.Node
	for i := 0; i < n; i++ {
		t := &Node{K: "elem", Name: "p", Kids: []*Node{{K: "dattr", Name: "class", Delim: " ", Vals: []*Val{{K: "str", S: fmt.Sprint("own", i)}}}}}
		for j := range pool {
			if shape != 0 || j == i%len(pool) {
				t.Kids = append(t.Kids, pool[j])
			}
		}
		node := b.node(t)
		if i%97 == 0 || i > n-3 {
			run := g.newRun(c.Rand)
			m := modelRun(t, run)
			_, err := render(node, run)
			c.Eval()
			c.Count("renders", 1)
			if err != nil || !bytes.Equal(m.out, run.rec.out) {
				c.Fail(fmt.Sprintf("parent %d of shared nodes does not render as with private copies", i+1), js(t), diff(m.out, run.rec.out), fmt.Sprint(err))
			}
		}
		prev = node
	}
	_ = prev
	c.Count("parents", n)
	c.Count("shared_uses", n)
}

// sharedValues uses nodes as values, again and again: texts, attributes and the like with values that
// come to nothing, alone and in collections of collections
func (c *Case) sharedValues() {
	g := newGen(c.Rand, Cfg{Depth: 1, Dyn: c.Pct(50), Empty: true, Named: true})
	b := &Builder{hostile: c.Pct(50), shared: map[*Node]aitch.Node{}, share: map[*Node]bool{}}
	var pool []*Node
	for i := c.Range(2, 5); i > 0; i-- {
		n := &Node{K: c.Pick("text", "text", "frag", "comment", "attr", "dattr", "pi"), Name: "x-v", Delim: ","}
		for j := c.Range(1, 7); j > 0; j-- {
			switch c.N(5) {
			case 0, 1:
				n.Vals = append(n.Vals, &Val{K: c.Pick("nil", "elemv")})
			case 2:
				n.Vals = append(n.Vals, &Val{K: "cv", Sub: []*Val{{K: "nil"}, g.val(true, 0), {K: "nil"}}})
			default:
				n.Vals = append(n.Vals, g.val(false, 1))
			}
		}
		pool = append(pool, n)
	}
	for i := c.Range(2, 6); i > 0; i-- {
		n := &Node{K: "coll"}
		for j := c.Range(1, 4); j > 0; j-- {
			n.Kids = append(n.Kids, pool[c.N(len(pool))])
		}
		pool = append(pool, n)
	}
	for _, n := range pool {
		b.share[n] = true
	}
	ref := func() *Val {
		v := &Val{K: "noderef", N2: pool[c.N(len(pool))]}
		switch c.N(6) {
		case 0:
			return &Val{K: "nv", Sub: []*Val{v}}
		case 1:
			return &Val{K: "cv", Sub: []*Val{v, g.val(false, 0)}}
		case 2:
			return &Val{K: "unit", S: units[c.N(len(units))], Sub: []*Val{v}}
		}
		return v
	}
	var trees []*Node
	var nodes []aitch.Node
	for i := c.Range(2, 10); i > 0; i-- {
		n := &Node{K: c.Pick("text", "attr", "dattr", "comment", "frag"), Name: c.Pick("ref", "class"), Delim: " "}
		for j := c.Range(1, 4); j > 0; j-- {
			if c.Pct(75) {
				n.Vals = append(n.Vals, ref())
			} else {
				n.Vals = append(n.Vals, g.val(false, 1))
			}
		}
		if n.isAttr() {
			n = elemWith(n)
		}
		trees, nodes = append(trees, n), append(nodes, b.node(n))
		c.Count("parents", 1)
		c.Count("shared_uses", len(n.Vals))
		if c.Pct(30) {
			b.junkArgs()
		}
	}
	for i, n := range nodes {
		run := g.newRun(c.Rand)
		m := modelRun(trees[i], run)
		_, err := render(n, run)
		c.Eval()
		c.Count("renders", 1)
		if err != nil || !bytes.Equal(m.out, run.rec.out) {
			c.Fail("nodes used as values do not render as private copies", map[string]any{"trees": js(trees), "at": i, "diff": diff(m.out, run.rec.out), "data": dump(run.data)})
		}
		c.NonTrivial(run.rec.out)
	}
	if e := b.checkArgs(); e != "" {
		c.Fail("a constructor or render changed its arguments: "+e, js(trees))
	}
	c.Count("value_pools", 1)
}

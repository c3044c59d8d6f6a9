package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"
	"strings"

	"github.com/go-andiamo/aitch"
	"github.com/go-andiamo/aitch/context"
)

func js(v any) json.RawMessage {
	data, err := json.Marshal(v)
	if err != nil {
		data, _ = json.Marshal(fmt.Sprint(v))
	}
	if len(data) > 6000 {
		data, _ = json.Marshal(string(data[:6000]) + "…")
	}
	return data
}

func countKinds(c *Case, n *Node) {
	if n == nil {
		c.Count("node_nil", 1)
		return
	}
	c.Count("node_"+n.K, 1)
	for _, k := range n.Kids {
		countKinds(c, k)
	}
	for _, k := range n.Head {
		countKinds(c, k)
	}
	for _, op := range n.Ops {
		c.Count("op_"+op.K, 1)
		for _, k := range op.Nodes {
			countKinds(c, k)
		}
	}
}

// checkOutput renders the node and compares the output with the model's
func (c *Case) checkOutput(tree *Node, node aitch.Node, run *Run) *model {
	m := modelRun(tree, run)
	_, err := render(node, run)
	for i := len(run.undo) - 1; i >= 0; i-- {
		run.undo[i]()
	}
	c.Count("data_changes_while_rendering", len(run.undo))
	c.Eval()
	c.Count("renders", 1)
	c.Count("bytes", len(run.rec.out))
	c.Count("writes", run.rec.writes)
	if err != nil {
		c.Fail("render failed without any failing part", err.Error(), js(tree))
	}
	if !bytes.Equal(run.rec.out, m.out) {
		c.Fail("output is not the declared tree", map[string]any{"diff": diff(m.out, run.rec.out), "tree": js(tree), "data": dump(run.data)})
	}
	return m
}

// sameEvents checks the calls of user functions: which, in which order, with which context, and what had been written by then
func (c *Case) sameEvents(tree *Node, m *model, run *Run) {
	fail := func(what string, i int) {
		var want, got []string
		for _, e := range m.ev {
			want = append(want, e.String())
		}
		for _, e := range run.ev {
			got = append(got, e.String())
		}
		c.Fail(what, map[string]any{"event": i, "want": want, "got": got, "tree": js(tree)})
	}
	for i := range m.ev {
		w := m.ev[i]
		if i >= len(run.ev) {
			fail("a user function was not called", i)
		}
		g := run.ev[i]
		switch {
		case w.Kind != g.Kind || w.ID != g.ID:
			fail("user functions are called in the wrong order or the wrong number of times", i)
		case w.Data != g.Data || w.Depth != g.Depth || !sameAny(w.Cargo, g.Cargo):
			fail("a user function is called with the wrong context", i)
		case g.Lo < w.Lo:
			fail("a user function is called before what precedes its tag or text was written", i)
		case g.Lo > w.Hi:
			fail("a user function is called after what follows it was written", i)
		}
	}
	if len(run.ev) > len(m.ev) {
		fail("a user function was called too often", len(m.ev))
	}
	c.Count("callbacks", len(run.ev))
}

// contentsNode wraps trees that are too big to generate randomly
func bigTree(c *Case) *Node {
	switch c.N(5) {
	case 0: // deep
		depth := c.Range(50, 1500)
		if c.Pct(5) {
			depth = c.Range(1500, 12000)
		}
		if c.Thorough() {
			depth = c.Range(1000, 20000)
		}
		n := &Node{K: "text", Vals: []*Val{{K: "str", S: "deep"}}}
		for i := 0; i < depth; i++ {
			kids := []*Node{n}
			if c.Pct(20) {
				kids = append(kids, &Node{K: "attr", Name: "id", Vals: []*Val{{K: "int", N: int64(i)}}})
			}
			if c.Pct(20) {
				kids = append([]*Node{{K: "text", Vals: []*Val{{K: "int", N: int64(i)}}}}, kids...)
			}
			n = &Node{K: c.Pick("elem", "elem", "coll"), Name: elemNames[c.N(len(elemNames))], Via: c.N(2), Kids: kids}
		}
		c.Max("max_depth", depth)
		return n
	case 1: // wide
		width := c.Range(200, 6000)
		n := &Node{K: "elem", Name: "div"}
		for i := 0; i < width; i++ {
			k := &Node{K: "elem", Name: "li", Kids: []*Node{{K: "plain", Vals: []*Val{{K: "int", N: int64(i % 100)}}}}}
			if c.Pct(20) {
				k = &Node{K: "text", Vals: []*Val{{K: "str", S: fmt.Sprint("t", i)}}}
			}
			n.Kids = append(n.Kids, k)
		}
		c.Max("max_children", width)
		switch c.N(4) {
		case 0:
			n.K, n.Name = "coll", ""
		case 1: // in collections
			for i := c.Range(1, 3); i > 0; i-- {
				n.Kids = []*Node{{K: "coll", Kids: n.Kids}}
			}
		}
		return n
	case 2: // long text
		size := []int{1 << 12, 1 << 16, 1<<16 + 1, 1 << 18, 1 << 20}[c.N(5)] + c.N(3)
		unit := c.str(30) + "."
		s := strings.Repeat(unit, size/len(unit)+1)[:size]
		n := &Node{K: "elem", Name: "p", Kids: []*Node{{K: "attr", Name: "title", Vals: []*Val{{K: "str", S: s}, {K: "bytes", S: "tail"}}}, {K: "text", Vals: []*Val{{K: "str", S: s}, {K: "bytes", S: "tail"}}}}}
		c.Max("max_text", size)
		return n
	case 3: // many attributes
		count := c.Range(20, 400)
		n := &Node{K: c.Pick("elem", "void"), Name: "div"}
		for i := 0; i < count; i++ {
			n.Kids = append(n.Kids, &Node{K: "attr", Name: fmt.Sprintf("a%d", i), Vals: []*Val{{K: "int", N: int64(i % 100)}}})
			if c.Pct(30) {
				n.Kids = append(n.Kids, &Node{K: "text", Vals: []*Val{{K: "str", S: "t"}}})
			}
		}
		c.Max("max_attributes", count)
		return n
	}
	// nested collections with several values per text
	n := &Node{K: "coll"}
	for i := 0; i < 30; i++ {
		t := &Node{K: "text"}
		for j := c.N(40); j > 0; j-- {
			t.Vals = append(t.Vals, &Val{K: "str", S: c.str(30)})
		}
		n = &Node{K: c.Pick("coll", "elem"), Name: "i", Kids: []*Node{t, n, {K: "void", Name: "br"}, {K: "comment", Vals: t.Vals}}}
	}
	return n
}

// contexts that a static tree must not care about
func staticRun(c *Case) *Run {
	run := &Run{}
	switch c.N(3) {
	case 0:
		run.data = map[string]any{"a": 1}
		run.cargo = "cargo"
	case 1:
		run.data = map[string]any{}
	}
	return run
}

// dump writes out data without the harness's own entries
func dump(v any) string {
	var sb strings.Builder
	var walk func(v any)
	walk = func(v any) {
		switch vt := v.(type) {
		case map[string]any:
			sb.WriteString("{")
			for _, k := range sortedKeys(vt) {
				if k != "$run" {
					fmt.Fprintf(&sb, "%s:", k)
					walk(vt[k])
					sb.WriteString(" ")
				}
			}
			sb.WriteString("}")
		case []any:
			sb.WriteString("[")
			for _, x := range vt {
				walk(x)
				sb.WriteString(" ")
			}
			sb.WriteString("]")
		case []map[string]any:
			sb.WriteString("maps[")
			for _, x := range vt {
				walk(x)
				sb.WriteString(" ")
			}
			sb.WriteString("]")
		case func() any:
			fmt.Fprintf(&sb, "func()%#v", vt())
		default:
			fmt.Fprintf(&sb, "%#v", v)
		}
	}
	walk(v)
	if sb.Len() > 3000 {
		return sb.String()[:3000] + "…"
	}
	return sb.String()
}

type plainErr struct{ s string }

func (e *plainErr) Error() string { return e.s }

func init() {
	register(&Prop{ID: "C01", Quick: 48000, Thor: 2000000, Run: runC01,
		Rule: "random static trees (all node kinds, attributes anywhere, all constructors) plus outsized ones (deep, wide, long, many attributes), rendered and compared byte for byte with an independent model; non-trivial: at least 3 nodes rendered",
		Min:  map[string]int64{"renders": 20000, "node_elem": 20000, "node_void": 1000, "node_coll": 1000, "node_comment": 1000, "node_pi": 200, "node_frag": 1000}})
	register(&Prop{ID: "C04", Quick: 40000, Thor: 3000000, Run: runC04,
		Rule: "random trees of nested conditionals (functions, keys, negated keys, nil) around attributes and contents, each rendered under several truth assignments (also with callbacks that change the data on the way) and compared with a model; every evaluation of a condition is checked against the conditions around it; non-trivial: a tree with a condition whose truth differed between two renders",
		Min:  map[string]int64{"renders": 100000, "node_cond": 20000, "node_when": 20000, "cond_evaluations": 50000, "active_cond_attrs": 5000}})
	register(&Prop{ID: "C12", Quick: 120000, Thor: 2000000, Run: runC12,
		Rule: "random trees full of dynamic values and callbacks, each rendered with several data; recorded calls (which, order, context, bytes already written) are compared with the model's; non-trivial: at least 3 callbacks observed",
		Min:  map[string]int64{"renders": 40000, "callbacks": 100000}})
	register(&Prop{ID: "C10", Quick: 40000, Thor: 2000000, Run: runC10,
		Rule: "random nested iterations over function results, data keys of any type and yielded items; outputs, contexts seen by callbacks, parents and the surrounding context afterwards are compared with the model; non-trivial: at least 2 items rendered",
		Min:  map[string]int64{"renders": 40000, "items": 50000, "node_iterkey": 5000, "node_yield": 3000, "node_iter": 3000, "yields_within": 20000}})
	register(&Prop{ID: "C11", Quick: 150000, Thor: 3000000, Run: runC11,
		Rule: "random sequences of imperative calls with random attributes, nested and successive blocks, compared with a stack model; non-trivial: at least 4 operations",
		Min:  map[string]int64{"renders": 30000, "op_start": 20000, "op_end": 10000, "op_endall": 2000, "op_nodes": 5000}})
}

func runC01(c *Case) {
	var tree *Node
	if c.Idx%40 == 0 {
		tree = bigTree(c)
	} else {
		cfg := Cfg{Depth: c.Range(1, 7), Kids: c.Range(1, 6), Budget: c.Range(3, 120), Attrs: 20, Empty: true, Named: true}
		tree = newGen(c.Rand, cfg).node(6)
		if c.Pct(60) {
			tree = &Node{K: "elem", Name: "div", Kids: []*Node{tree, newGen(c.Rand, cfg).node(4), newGen(c.Rand, cfg).node(4)}}
		}
	}
	countKinds(c, tree)
	b := &Builder{}
	node := b.node(tree)
	run := staticRun(c)
	m := c.checkOutput(tree, node, run)
	if len(m.out) > 20 {
		c.NonTrivial(m.out)
	}
	if len(m.out) < 600 {
		c.Sample(func() any { return map[string]any{"tree": js(tree), "output": string(run.rec.out)} })
	}
}

func runC04(c *Case) {
	cfg := Cfg{Depth: 7, Kids: c.Range(2, 5), Budget: c.Range(5, 60), Attrs: 45, Cond: true, CondHeavy: true, Dup: true, Nil: c.Pct(30), Iter: c.Pct(15), Dyn: c.Pct(30), Set: c.Pct(30)}
	if c.Pct(10) {
		cfg.Imper, cfg.Collect = true, true
	}
	g := newGen(c.Rand, cfg)
	tree := &Node{K: c.Pick("elem", "elem", "void"), Name: "div", Via: c.N(2)}
	depth := c.Range(2, 8)
	tree.Kids = g.kids(depth, "elem")
	for len(tree.Kids) < 2 {
		tree.Kids = append(tree.Kids, g.node(depth))
	}
	if cfg.Set { // conditions on one key, changed in between
		var list func(depth int) []*Node
		list = func(depth int) (ns []*Node) {
			for i := c.Range(1, 4); i > 0; i-- {
				switch c.N(5) {
				case 0, 1:
					ns = append(ns, &Node{K: "set", ID: g.next(), Key: c.Pick("k0", "k0", "k1"), Via: c.N(5)})
				case 2:
					ns = append(ns, &Node{K: "text", Vals: []*Val{{K: "key", S: "k0"}, {K: "bytes", S: fmt.Sprint("t", i)}}})
				default:
					if depth > 0 {
						n := &Node{K: "when", Key: c.Pick("k0", "k0", "!k0", "k1"), Kids: list(depth - 1)}
						if c.Pct(30) {
							n = &Node{K: c.Pick("coll", "elem"), Name: "b", Kids: []*Node{n}}
						}
						ns = append(ns, n)
					}
				}
			}
			return ns
		}
		tree.Kids = append(tree.Kids, list(3)...)
	}
	if c.Pct(40) { // chains of conditions with siblings at every level
		tree.Kids = append(tree.Kids, condChain(g, c.Range(2, 7)))
	}
	parents := map[int][]*Node{}
	condParents(tree, nil, parents)
	countKinds(c, tree)
	node := (&Builder{}).node(tree)
	outs := map[string]bool{}
	n := c.Range(3, 6)
	for i := 0; i < n; i++ {
		run := g.newRun(c.Rand)
		c.checkOutput(tree, node, run)
		outs[string(run.rec.out)] = true
		for _, cc := range run.conds {
			c.Count("cond_evaluations", 1)
			for _, p := range parents[cc.id] {
				if p.K == "cond" && !run.truth[p.ID] {
					c.Fail("an inner condition was evaluated although an outer one does not hold", map[string]any{"inner": cc.id, "outer": p.ID, "tree": js(tree)})
				}
				if p.K == "when" && !cfg.Set && !inIteration(tree, cc.id) && !(&model{run: run}).holds(p, &Env{data: run.data}) {
					c.Fail("an inner condition was evaluated although an outer key condition does not hold", map[string]any{"inner": cc.id, "outer": p.Key, "tree": js(tree)})
				}
			}
		}
		m := &model{run: run}
		for _, d := range attrDecls(tree.Kids, nil) {
			active := len(d.conds) > 0
			for _, cn := range d.conds {
				active = active && m.holds(cn, &Env{data: run.data})
			}
			if active {
				c.Count("active_cond_attrs", 1)
			}
		}
	}
	if len(outs) > 1 {
		for o := range outs {
			c.NonTrivial(o)
		}
		c.Sample(func() any { return map[string]any{"tree": js(tree), "outputs": sortedKeys(outs)} })
	}
}

// condChain is a chain of nested conditions where each level has several sibling conditions with attributes
func condChain(g *Gen, depth int) *Node {
	id := g.next()
	g.condIDs = append(g.condIDs, id)
	n := &Node{K: "cond", ID: id}
	if g.Pct(25) {
		n = &Node{K: "when", Key: g.Pick("", "!") + g.condKey()}
	}
	n.Kids = append(n.Kids, g.attr())
	if g.Pct(40) {
		n.Kids = append(n.Kids, &Node{K: "text", Vals: g.vals(false)})
	}
	if depth > 0 {
		sib := 1
		if g.Pct(60) {
			sib = 2
		}
		for i := 0; i < sib; i++ {
			k := condChain(g, depth-1)
			if g.Pct(15) {
				k = &Node{K: "coll", Kids: []*Node{k, g.attr()}}
			}
			n.Kids = append(n.Kids, k)
		}
	}
	if g.Pct(50) {
		n.Kids = append(n.Kids, g.attr())
	}
	return n
}

// condParents collects for each condition function the conditions around it (within one scope)
func condParents(n *Node, around []*Node, out map[int][]*Node) {
	if n == nil {
		return
	}
	next := around
	switch n.K {
	case "cond", "when":
		if n.K == "cond" {
			out[n.ID] = around
		}
		next = append(append([]*Node{}, around...), n)
	}
	for _, k := range n.Kids {
		condParents(k, next, out)
	}
	for _, op := range n.Ops {
		for _, k := range op.Nodes {
			condParents(k, next, out)
		}
	}
}

func inIteration(n *Node, id int) bool {
	found := false
	var walk func(n *Node, in bool)
	walk = func(n *Node, in bool) {
		if n == nil {
			return
		}
		in = in || n.K == "iter" || n.K == "iterkey" || n.K == "yield"
		if n.K == "cond" && n.ID == id && in {
			found = true
		}
		for _, k := range n.Kids {
			walk(k, in)
		}
		for _, op := range n.Ops {
			for _, k := range op.Nodes {
				walk(k, in)
			}
		}
	}
	walk(n, false)
	return found
}

// wide is a node of some kind with very many others in it
func (c *Case) wide(g *Gen) *Node {
	var kids []*Node
	for i := c.Range(30, 400); i > 0; i-- {
		k := &Node{K: c.Pick("text", "text", "elem", "frag", "comment"), Name: "b"}
		if k.K == "elem" {
			k.Kids = []*Node{{K: "text", Vals: []*Val{g.fn()}}}
		} else {
			k.Vals = []*Val{{K: "str", S: fmt.Sprint(i)}, {K: c.Pick("key", "dot"), S: "s0"}}
			if c.Pct(30) {
				k.Vals = append(k.Vals, g.fn())
			}
		}
		kids = append(kids, k)
	}
	id := g.next()
	c.Count("wide_nodes", 1)
	switch c.N(8) {
	case 0, 1:
		g.colIDs = append(g.colIDs, id)
		return &Node{K: "collect", ID: id, Kids: kids}
	case 2:
		g.condIDs = append(g.condIDs, id)
		return &Node{K: "cond", ID: id, Kids: kids}
	case 3:
		return &Node{K: "when", Key: "s0", Kids: kids}
	case 4:
		g.iterIDs = append(g.iterIDs, id)
		return &Node{K: c.Pick("iter", "yield"), ID: id, Kids: kids}
	case 5:
		g.impIDs = append(g.impIDs, id)
		return &Node{K: "imper", ID: id, Ops: []*Op{{K: "start", S: "p"}, {K: "nodes", Nodes: kids}, {K: "endall"}}}
	case 6:
		t := &Node{K: c.Pick("text", "comment", "frag")}
		for _, k := range kids {
			t.Vals = append(t.Vals, k.Vals...)
		}
		return t
	}
	return &Node{K: c.Pick("coll", "elem"), Name: "div", Kids: kids}
}

func runC12(c *Case) {
	cfg := Cfg{Depth: 5, Kids: c.Range(2, 5), Budget: c.Range(5, 60), Attrs: 35, Dyn: true, DynHeavy: true, Named: true, Dup: true,
		Cond: c.Pct(60), Iter: c.Pct(70), Imper: c.Pct(60), Collect: c.Pct(60), User: c.Pct(50), Empty: c.Pct(40), Doc: c.Pct(30), Set: c.Pct(30)}
	g := newGen(c.Rand, cfg)
	tree := &Node{K: "elem", Name: "div", Kids: g.kids(5, "elem")}
	tree.Kids = append(tree.Kids, g.node(4), g.node(4))
	if c.Idx%61 == 7 {
		tree.Kids = append(tree.Kids, c.wide(g), g.node(3))
	}
	countKinds(c, tree)
	node := (&Builder{}).node(tree)
	total := 0
	n := c.Range(2, 4)
	for i := 0; i < n; i++ {
		run := g.newRun(c.Rand)
		if i > 0 && c.Pct(30) { // the data of the previous render, changed in place
			run.needData()
			run.data["s0"], run.data["m0"] = "changed", i
		}
		m := c.checkOutput(tree, node, run)
		c.sameEvents(tree, m, run)
		total += len(run.ev)
		if len(run.ev) >= 3 {
			c.NonTrivial(run.rec.out, len(run.ev))
		}
		if len(m.out) < 800 {
			c.Sample(func() any {
				var evs []string
				for _, e := range run.ev {
					evs = append(evs, fmt.Sprintf("%s#%d at byte %d", e.Kind, e.ID, e.Lo))
				}
				return map[string]any{"output": string(run.rec.out), "calls": evs}
			})
		}
		if i == 0 && c.Pct(50) { // same data object, new contents: values must be looked up again
			again := run.again()
			run.needData()
			run.data["s1"], run.data["m1"], run.data["k1"] = c.str(20)+"!", c.N(1000), c.Pct(50)
			m := c.checkOutput(tree, node, again)
			c.sameEvents(tree, m, again)
		}
	}
	c.Max("max_callbacks", total)
}

func runC10(c *Case) {
	if c.Pct(15) {
		c.yieldWithin()
	}
	cfg := Cfg{Depth: 5, Kids: c.Range(1, 4), Budget: c.Range(5, 40), Attrs: 15, Dyn: true, DynHeavy: c.Pct(50), Iter: true, Nil: true, Cond: c.Pct(40), Imper: c.Pct(20), Collect: c.Pct(20), User: true, Set: c.Pct(20)}
	g := newGen(c.Rand, cfg)
	probe := func() *Node {
		id := g.next()
		g.userIDs = append(g.userIDs, id)
		return &Node{K: "user", ID: id}
	}
	kinds := []string{"iter", "yield", "iterkey"}
	tree := &Node{K: c.Pick("elem", "coll"), Name: "ul"}
	for i := c.Range(1, 3); i > 0; i-- {
		it := &Node{K: kinds[c.N(3)], Kids: append([]*Node{probe(), {K: "text", Vals: []*Val{{K: "dot"}, {K: "key", S: "s0"}, {K: "key", S: "m1"}}}}, g.kids(4, "list")...)}
		if it.K == "iterkey" {
			it.Key = fmt.Sprintf("l%d", c.N(4))
		} else {
			it.ID = g.next()
			g.iterIDs = append(g.iterIDs, it.ID)
		}
		tree.Kids = append(tree.Kids, it, &Node{K: "text", Vals: []*Val{{K: "bytes", S: "|"}, {K: "dot"}, {K: "key", S: "s0"}, {K: "key", S: "m1"}}}, probe())
	}
	countKinds(c, tree)
	node := (&Builder{}).node(tree)
	for i := c.Range(2, 4); i > 0; i-- {
		run := g.newRun(c.Rand)
		if c.Pct(10) {
			bigList(c, g, run)
		}
		if c.Pct(5) {
			run.data = nil
		}
		// contexts seen by user functions: the parent chain must lead to the contexts that surround
		var root *context.Context
		run.hook = func(kind string, id int, ctx *context.Context) {
			for p := ctx; p != nil; p = p.Parent {
				if p.Parent == nil {
					if root == nil {
						root = p
					} else if root != p {
						c.Fail("the parents of an iteration context do not lead to the context of the render", kind, id)
					}
				}
			}
			if kind == "user" && ctx.Parent != nil {
				c.Count("item_probes", 1)
				// data rule, checked on what the callback sees rather than with the model
				if d, ok := ctx.Cargo.(map[string]any); ok {
					if mapPtr(d) != mapPtr(ctx.Data) {
						c.Fail("the data of a map item is not the item", js(tree))
					}
				} else if mapPtr(ctx.Data) != mapPtr(ctx.Parent.Data) {
					c.Fail("the data of an item that is not a map is not the surrounding data", js(tree))
				}
			}
		}
		m := modelRun(tree, run)
		items := 0
		run2 := run
		ctx, err := render(node, run2)
		c.Eval()
		c.Count("renders", 1)
		if err != nil {
			c.Fail("render failed", err.Error())
		}
		if !bytes.Equal(m.out, run.rec.out) {
			c.Fail("iteration output is wrong", map[string]any{"diff": diff(m.out, run.rec.out), "tree": js(tree), "data": dump(run.data)})
		}
		c.sameEvents(tree, m, run)
		if ctx.Parent != nil || mapPtr(ctx.Data) != mapPtr(run.data) || !sameAny(ctx.Cargo, run.cargo) || ctx.Writer != any(run.rec.w()) || ctx.Error != nil {
			c.Fail("the surrounding context was changed by an iteration", js(tree))
		}
		for _, e := range run.ev {
			if e.Depth > 0 && e.Kind == "user" {
				items++
			}
			c.Max("max_iteration_depth", e.Depth)
		}
		c.Count("items", items)
		if items >= 2 {
			c.NonTrivial(run.rec.out)
		}
		if len(m.out) < 600 {
			c.Sample(func() any { return map[string]any{"tree": js(tree), "output": string(run.rec.out)} })
		}
	}
}

func bigList(c *Case, g *Gen, run *Run) {
	n := c.Range(20, 120)
	if c.Pct(10) {
		n = c.Range(200, 1200)
	}
	items := make([]any, n)
	for i := range items {
		switch c.N(4) {
		case 0:
			items[i] = map[string]any{"s0": fmt.Sprint("item", i), "m1": i, "$run": run}
		case 1:
			items[i] = nil
		case 2:
			items[i] = oddItem(c.Rand)
		default:
			items[i] = i
		}
	}
	key := fmt.Sprintf("l%d", c.N(4))
	run.needData()
	run.data[key] = items
	ints := make([]int, c.Range(10, 80)*[]int{1, 1, 1, 5, 20}[c.N(5)])
	for i := range ints {
		ints[i] = i
	}
	run.needData()
	run.data[fmt.Sprintf("l%d", c.N(4))] = ints
	if len(g.iterIDs) > 0 && c.Pct(50) {
		run.lists[g.iterIDs[c.N(len(g.iterIDs))]] = items[:c.N(n)]
	}
}

func runC11(c *Case) {
	cfg := Cfg{Depth: 4, Kids: c.Range(2, 6), Budget: c.Range(3, 40), Attrs: 25, Dup: true, Nil: true, Imper: true, Dyn: c.Pct(60), Named: c.Pct(50), Cond: c.Pct(30), Iter: c.Pct(20), Collect: c.Pct(20), Empty: true}
	g := newGen(c.Rand, cfg)
	tree := &Node{K: c.Pick("coll", "elem"), Name: "div"}
	for i := c.Range(1, 3); i > 0; i-- {
		tree.Kids = append(tree.Kids, g.imper(c.Range(1, 4)))
	}
	if c.Pct(5) { // a long block
		n := tree.Kids[0]
		for i := 0; i < 400; i++ {
			switch c.N(3) {
			case 0:
				n.Ops = append(n.Ops, &Op{K: "end"})
			default:
				n.Ops = append(n.Ops, &Op{K: "start", S: fmt.Sprint("e", i), Void: c.Pct(10)})
			}
		}
		n.Ops = append(n.Ops, &Op{K: "endall"}, &Op{K: "end"}, &Op{K: "endall"}, &Op{K: "start", S: "z"}, &Op{K: "end"})
	}
	countKinds(c, tree)
	node := (&Builder{}).node(tree)
	for i := c.Range(1, 3); i > 0; i-- {
		run := g.newRun(c.Rand)
		m := c.checkOutput(tree, node, run)
		c.sameEvents(tree, m, run)
		if len(tree.Kids[0].Ops) >= 4 {
			c.NonTrivial(run.rec.out)
		}
		if len(m.out) < 600 {
			c.Sample(func() any { return map[string]any{"tree": js(tree), "output": string(run.rec.out)} })
		}
	}
}

var _ = reflect.DeepEqual

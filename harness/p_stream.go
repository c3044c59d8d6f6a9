package main

import (
	"bytes"
	"fmt"
	"runtime"
	"runtime/debug"

	"github.com/go-andiamo/aitch"
	"github.com/go-andiamo/aitch/context"
)

// C23: output is streamed.  Callbacks write to the writer themselves; what they find written
// already, and where their own output ends up, is compared with the model.
// C24: static templates render without allocating.

func init() {
	register(&Prop{ID: "C23", Quick: 60000, Thor: 3000000, Run: runC23,
		Rule: "random trees whose callbacks (values, collectors, iteration and yield functions, imperative functions between all their operations) write to the context or its writer themselves, rendered directly and in templates; the bytes received when each one runs, after each yielded item and after each imperative operation, and the place of their own output, are compared with the model's; non-trivial: at least 3 writing callbacks observed",
		Min:  map[string]int64{"renders": 60000, "own_writes": 60000, "items_checked": 20000, "ops_checked": 60000, "in_template": 10000}})
	register(&Prop{ID: "C24", Shards: 8, MaxProcs: 1, Quick: 30000, Thor: 1000000, Run: runC24,
		Rule: "random and outsized static trees of all node kinds, rendered to a writer that keeps nothing, with the allocation counters of the runtime read around every render; the smallest of several measurements counts; non-trivial: a tree of at least 50 nodes",
		Min:  map[string]int64{"measured_renders": 60000, "nodes_measured": 2000000}})
}

// ownWriters lets the callbacks of a tree write themselves
func ownWriters(c *Case, g *Gen, n *Node, seen map[*Node]bool) {
	if n == nil || seen[n] {
		return
	}
	seen[n] = true
	vals := func() {
		for i, v := range n.Vals {
			switch {
			case (v.K == "fn" || v.K == "rawfn") && c.Pct(60), c.Pct(10):
				n.Vals[i] = &Val{K: "wfn", ID: g.next(), S: c.Pick("", "", "(fn)"), Sub: []*Val{{S: c.own()}}}
				c.Count("own_writes", 1)
			}
		}
	}
	switch n.K {
	case "text", "frag", "comment", "pi", "plain":
		if !(n.K == "pi" && n.Via == 1) {
			vals()
		}
	case "attr":
		if n.Ctor == "" {
			vals()
		}
	case "iter", "yield", "collect", "imper":
		if c.Pct(70) {
			n.W = c.own()
			c.Count("own_writes", 1)
		}
	}
	for _, ks := range [][]*Node{n.Kids, n.Head} {
		for _, k := range ks {
			ownWriters(c, g, k, seen)
		}
	}
	for _, op := range n.Ops {
		for _, k := range op.Nodes {
			ownWriters(c, g, k, seen)
		}
	}
}

func (c *Case) own() string { return fmt.Sprintf("[own %d]", c.N(1000)) }

func runC23(c *Case) {
	cfg := Cfg{Depth: 5, Kids: c.Range(1, 4), Budget: c.Range(5, 40), Attrs: 25, Dyn: true, DynHeavy: c.Pct(60), Named: true, Dup: true,
		Cond: c.Pct(50), Iter: c.Pct(80), Imper: c.Pct(70), Collect: c.Pct(70), User: c.Pct(50), Empty: c.Pct(40), Doc: c.Pct(20), Nil: c.Pct(20)}
	g := newGen(c.Rand, cfg)
	tree := g.richTree(c)
	ownWriters(c, g, tree, map[*Node]bool{})
	node := (&Builder{}).node(tree)
	for i := c.Range(1, 3); i > 0; i-- {
		s := c.newSubject(node, 25)
		run := g.newRun(c.Rand)
		m := s.model(tree, run)
		_, err := s.render(run)
		c.Eval()
		c.Count("renders", 1)
		if s.tmpl != nil {
			c.Count("in_template", 1)
		}
		if err != nil {
			c.Fail("render failed without any failing part", err.Error(), js(tree))
		}
		if !bytes.Equal(m.out, run.rec.out) {
			c.Fail("what callbacks write is not where they were called", map[string]any{"diff": diff(m.out, run.rec.out), "tree": js(tree)})
		}
		c.sameEvents(tree, m, run)
		own := 0
		for _, e := range run.ev {
			switch e.Kind {
			case "yielded":
				c.Count("items_checked", 1)
				own++
			case "op":
				c.Count("ops_checked", 1)
				own++
			case "fn", "iter", "yield", "collect":
				own++
			}
		}
		if own >= 3 {
			c.NonTrivial(run.rec.out)
		}
		if len(m.out) < 600 {
			c.Sample(func() any { return map[string]any{"tree": js(tree), "output": string(run.rec.out)} })
		}
	}
}

// sink keeps nothing of what it gets but a checksum
type sink struct {
	n   int
	sum uint32
}

func (s *sink) Write(p []byte) (int, error) {
	s.n += len(p)
	for _, b := range p {
		s.sum = s.sum*16777619 ^ uint32(b)
	}
	return len(p), nil
}

// what a render of a static tree may allocate, whatever the size of the tree
const (
	maxAllocs = 16
	maxBytes  = 64 << 10
)

func countNodes(n *Node) int {
	if n == nil {
		return 0
	}
	total := 1 + len(n.Vals)
	for _, k := range n.Kids {
		total += countNodes(k)
	}
	for _, k := range n.Head {
		total += countNodes(k)
	}
	return total
}

func runC24(c *Case) {
	debug.SetGCPercent(400)
	var tree *Node
	cfg := Cfg{Depth: 6, Kids: c.Range(2, 6), Budget: c.Range(20, 150), Attrs: 25, Empty: true, Named: true, Dup: c.Pct(60), Doc: true}
	g := newGen(c.Rand, cfg)
	switch c.N(10) {
	case 0:
		tree = bigTree(c)
	case 1, 2, 3, 4, 5, 6: // the same over and over: whatever a part allocates shows many times
		g.budget = c.Range(1, 12)
		n := g.node(4)
		if c.Pct(30) {
			n = &Node{K: c.Pick("elem", "void"), Name: c.Pick("p", "img", "rect"), Kids: g.kids(2, "elem")}
		}
		tree = &Node{K: c.Pick("elem", "coll", "doc"), Name: "div"}
		for i := c.Range(40, 150); i > 0; i-- {
			tree.Kids = append(tree.Kids, n)
		}
		if c.Pct(10) && n.K == "elem" { // and within itself
			in := n
			for i := 0; i < 60; i++ {
				in = &Node{K: "elem", Name: n.Name, Kids: append(append([]*Node{}, n.Kids...), in)}
			}
			tree = in
		}
		c.Count("repeated_parts", 1)
	default:
		tree = &Node{K: c.Pick("elem", "coll", "doc"), Name: "div"}
		for i := c.Range(1, 12); i > 0; i-- {
			g.budget = cfg.Budget
			tree.Kids = append(tree.Kids, g.node(6))
		}
		if tree.K == "doc" {
			g.budget = 20
			tree.Head = g.kids(3, "elem")
			tree.Vals = []*Val{{K: "str", S: "en"}}
		}
	}
	countKinds(c, tree)
	node := (&Builder{}).node(tree)
	want := &sink{}
	_, _ = want.Write(modelRun(tree, &Run{}).out)
	nodes := countNodes(tree)
	times := 4
	if want.n > 1<<20 {
		times = 2
	}
	allocs, size := measure(c, tree, node, want, times)
	c.Eval()
	c.Count("nodes_measured", nodes)
	c.Max("max_allocations", allocs)
	c.Max("max_bytes_allocated", size)
	if allocs > maxAllocs || size > maxBytes { // once more, in case something else of this process was at it
		allocs, size = measure(c, tree, node, want, 20)
	}
	if allocs > maxAllocs || size > maxBytes {
		c.Fail("rendering a static template allocates", map[string]any{"allocations": allocs, "bytes": size, "nodes": nodes, "output_bytes": want.n, "tree": js(tree)})
	}
	if nodes >= 50 {
		c.NonTrivial(want.n, want.sum)
	}
	if nodes < 40 {
		c.Sample(func() any { return map[string]any{"tree": js(tree), "allocations": allocs, "bytes": size} })
	}
}

// measure renders the node some times and returns the least that a render allocated
func measure(c *Case, tree *Node, node aitch.Node, want *sink, times int) (allocs, size int) {
	allocs, size = 1<<30, 1<<30
	var before, after runtime.MemStats
	got := &sink{}
	ctx := context.New(got, nil, nil)
	for i := 0; i <= times; i++ {
		*got = sink{}
		runtime.ReadMemStats(&before)
		err := node.Render(ctx)
		runtime.ReadMemStats(&after)
		c.Count("measured_renders", 1)
		if err != nil || *got != *want {
			c.Fail("a measured render is wrong", map[string]any{"error": fmt.Sprint(err), "bytes": got.n, "want": want.n, "tree": js(tree)})
		}
		if i > 0 { // the first one may prepare things
			allocs = min(allocs, int(after.Mallocs-before.Mallocs))
			size = min(size, int(after.TotalAlloc-before.TotalAlloc))
		}
	}
	return allocs, size
}

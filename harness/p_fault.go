package main

import (
	"bytes"
	"errors"
	"fmt"
	"sort"

	"github.com/go-andiamo/aitch"
	"github.com/go-andiamo/aitch/context"
)

// C08: a failed write is reported and ends the output.  Every write of a render is made to fail in
// every mode; the recorder judges what it still receives.
// C09: an error raised by a callback is never lost.  The first error raised is observed online.

type testErr struct{ id, n int }

func (e *testErr) Error() string {
	return fmt.Sprintf("error raised by callback %d (call %d)", e.id, e.n)
}

func init() {
	register(&Prop{ID: "C08", Quick: 24000, Thor: 300000, Run: runC08,
		Rule: "random trees of all node kinds, directly and in templates; every write (all of them up to 64, else a sample including the first and last ones) fails in each of 6 modes (permanent or transient, accepting nothing, some or all of the data); non-trivial: one failing write in one mode that hit",
		Min:  map[string]int64{"faults": 300000, "template_faults": 30000, "transient_faults": 100000, "partial_faults": 50000, "faults_in_iterations": 5000, "faults_in_imperatives": 5000, "faults_in_attributes": 20000}})
	register(&Prop{ID: "C09", Quick: 100000, Thor: 3000000, Run: runC09,
		Rule: "random trees where one or several callbacks (imperative functions, user nodes and attributes, dynamic values, collectors, iteration and yield functions) fail in their first or a later call, returned or stored, directly or in a template; the first error raised is recorded online and compared with what the outermost render reports; non-trivial: a failing callback below at least one other node",
		Min:  map[string]int64{"raised": 50000, "raised_by_imper": 3000, "raised_by_user": 3000, "raised_by_fn": 5000, "raised_by_collect": 3000, "raised_by_iter": 1000, "raised_by_yield": 1000, "several_failing": 10000, "in_template": 5000, "in_iteration": 3000, "swallowed_returns": 500, "wrapped_returns": 500}})
}

// subject is something that can be rendered: a node, or a template around it
type subject struct {
	node     aitch.Node
	tmpl     *aitch.Template
	pre, mid string
	post     string
	twice    bool
}

func (c *Case) newSubject(node aitch.Node, pct int) *subject {
	s := &subject{node: node}
	if c.Pct(pct) {
		s.pre, s.mid, s.post = c.Pick("", "<main>", "text <b>x</b> "), "", c.Pick("", "</main>\n", " end")
		text := s.pre + "{{n .}}"
		if c.Pct(30) {
			s.twice, s.mid = true, c.Pick("", "<hr>", "middle")
			text += s.mid + "{{n .}}"
		}
		t, err := aitch.NewTemplate("t", text+s.post, aitch.NodeMap{"n": node})
		if err != nil {
			c.Fail("cannot parse a template: " + err.Error())
		}
		s.tmpl = t
	}
	return s
}

// render returns the context too, unless it is a template's
func (s *subject) render(run *Run) (*context.Context, error) {
	if s.tmpl == nil {
		return render(s.node, run)
	}
	if run.rec == nil {
		run.rec = newRec()
	}
	run.rec.run = run
	return nil, s.tmpl.Execute(run.rec.w(), run.data, run.cargo)
}

func (s *subject) model(tree *Node, run *Run) *model {
	m := &model{run: run}
	env := &Env{data: run.data, cargo: run.cargo}
	m.w(s.pre)
	m.node(tree, env)
	m.w(s.mid)
	if s.twice {
		m.node(tree, env)
	}
	m.w(s.post)
	return m
}

func runC08(c *Case) {
	cfg := Cfg{Depth: 5, Kids: c.Range(1, 4), Budget: c.Range(2, 25), Attrs: 30, Cond: c.Pct(60), Iter: c.Pct(60), Imper: c.Pct(60), Collect: c.Pct(60), User: c.Pct(50), Dyn: c.Pct(60), Dup: true, Nil: c.Pct(20), Doc: c.Pct(20), Named: true, Empty: true}
	g := newGen(c.Rand, cfg)
	var tree *Node
	switch c.N(6) {
	case 0:
		tree = &Node{K: "coll", Kids: []*Node{g.node(3), g.node(3), g.node(3)}}
	case 1:
		tree = &Node{K: "iter", ID: g.next(), Kids: []*Node{g.node(3), g.node(3)}}
		g.iterIDs = append(g.iterIDs, tree.ID)
	case 2:
		tree = g.imper(3)
	case 3:
		tree = &Node{K: "doc", Head: g.kids(2, "elem"), Kids: g.kids(3, "elem")}
	default:
		tree = g.richTree(c)
	}
	node := (&Builder{}).node(tree)
	s := c.newSubject(node, 30)
	base := g.newRun(c.Rand)
	var kinds []string // what was being rendered at each write
	full := s.model(tree, base).out
	probe := base.again()
	probe.rec = newRec()
	if _, err := s.render(probe); err != nil || !bytes.Equal(probe.rec.out, full) {
		c.Fail("undisturbed render is wrong", map[string]any{"tree": js(tree), "diff": diff(full, probe.rec.out)})
	}
	_ = kinds
	writes := probe.rec.writes
	c.Count("writes", writes)
	c.Max("max_writes", writes)
	c.Count("faults_in_iterations", 0)
	idx := make([]int, 0, 64)
	if writes <= 64 {
		for i := 0; i < writes; i++ {
			idx = append(idx, i)
		}
	} else {
		for i := 0; i < 20; i++ {
			idx = append(idx, i, writes-1-i)
		}
		for i := 0; i < 24; i++ {
			idx = append(idx, c.N(writes))
		}
	}
	var has [8]bool
	walkTree(tree, func(n *Node) {
		switch n.K {
		case "iter", "iterkey", "yield":
			has[0] = true
		case "imper":
			has[1] = true
		case "attr", "dattr", "battr":
			has[2] = true
		}
	})
	for _, i := range idx {
		for mode := 0; mode < 6; mode++ {
			run := base.again()
			run.rec = newRec()
			fe := c.anErr(fmt.Sprintf("write %d", i))
			run.rec.failAt, run.rec.failErr, run.rec.perm = i, fe, mode%2 == 0
			switch mode / 2 {
			case 0:
				run.rec.accept = 0
			case 1:
				run.rec.accept = 1 + c.N(2)
				c.Count("partial_faults", 1)
			default:
				run.rec.accept = -1
			}
			ctx, err := s.render(run)
			c.Eval()
			c.Count("faults", 1)
			if s.tmpl != nil {
				c.Count("template_faults", 1)
			}
			if mode%2 == 1 {
				c.Count("transient_faults", 1)
			}
			for k, name := range []string{"faults_in_iterations", "faults_in_imperatives", "faults_in_attributes"} {
				if has[k] {
					c.Count(name, 1)
				}
			}
			bad := func(what string) {
				c.Fail(what, map[string]any{"failing write": i, "of": writes, "permanent": run.rec.perm, "accepted": run.rec.accept, "template": s.tmpl != nil, "tree": js(tree), "written": fmt.Sprintf("%.600q", run.rec.out), "late": fmt.Sprintf("%.300q", run.rec.late), "error": fmt.Sprint(err)})
			}
			if !run.rec.failed {
				bad("the write was not reached: renders are not repeatable")
			}
			if err == nil {
				bad("a failed write was not reported")
			}
			if !errors.Is(err, fe) {
				bad("the error reported is not that of the failed write")
			}
			if ctx != nil && !errors.Is(ctx.Error, fe) {
				bad("the context does not hold the error of the failed write")
			}
			if len(run.rec.late) > 0 {
				bad("something was written after the failed write")
			}
			if !bytes.HasPrefix(full, run.rec.out) {
				bad("what was written is not a prefix of the successful render")
			}
			c.NonTrivial(run.rec.out, mode, s.tmpl != nil)
		}
	}
	if writes < 40 {
		c.Sample(func() any {
			return map[string]any{"tree": js(tree), "writes": writes, "template": s.tmpl != nil, "full output": string(full)}
		})
	}
}

func walkTree(n *Node, f func(n *Node)) {
	if n == nil {
		return
	}
	f(n)
	for _, k := range n.Kids {
		walkTree(k, f)
	}
	for _, k := range n.Head {
		walkTree(k, f)
	}
	for _, op := range n.Ops {
		for _, k := range op.Nodes {
			walkTree(k, f)
		}
	}
}

// wrap puts the node below another one
func (g *Gen) wrap(n *Node) *Node {
	text := func() *Node { return &Node{K: "text", Vals: []*Val{{K: "str", S: "t"}}} }
	around := func() []*Node {
		var result []*Node
		if g.Pct(50) {
			result = append(result, text())
		}
		result = append(result, n)
		if g.Pct(60) {
			result = append(result, text())
		}
		return result
	}
	switch g.N(12) {
	case 0, 1:
		return &Node{K: "elem", Name: "div", Via: g.N(2), Kids: around()}
	case 2:
		return &Node{K: "coll", Kids: around()}
	case 3:
		id := g.next()
		g.condIDs = append(g.condIDs, id)
		return &Node{K: "cond", ID: id, Kids: around()}
	case 4:
		return &Node{K: "when", Key: g.Pick("", "!") + "absent", Kids: around()}
	case 5, 6:
		id := g.next()
		g.iterIDs = append(g.iterIDs, id)
		return &Node{K: g.Pick("iter", "yield"), ID: id, Kids: around()}
	case 7:
		return &Node{K: "iterkey", Key: "l0", Kids: around()}
	case 8:
		id := g.next()
		g.colIDs = append(g.colIDs, id)
		return &Node{K: "collect", ID: id, Kids: around()}
	case 9:
		id := g.next()
		g.userIDs = append(g.userIDs, id)
		return &Node{K: "user", ID: id, Kids: around()}
	case 10:
		id := g.next()
		g.impIDs = append(g.impIDs, id)
		return &Node{K: "imper", ID: id, Ops: []*Op{{K: "start", S: "i"}, {K: "nodes", Nodes: around()}, {K: "str", S: "s"}, {K: "endall"}}}
	}
	if n.K == "doc" {
		return n
	}
	return &Node{K: "doc", Head: []*Node{text()}, Kids: around()}
}

func runC09(c *Case) {
	cfg := Cfg{Depth: 4, Kids: c.Range(1, 3), Budget: c.Range(2, 20), Attrs: 30, Cond: true, Iter: true, Imper: true, Collect: true, User: true, Dyn: true, DynHeavy: c.Pct(50), Dup: true, Doc: c.Pct(10), Empty: c.Pct(30)}
	g := newGen(c.Rand, cfg)
	tree := g.node(4)
	if c.Pct(50) {
		tree = g.richTree(c)
	}
	for i := c.N(7); i > 0; i-- {
		tree = g.wrap(tree)
	}
	if tree.K == "user" { // what a user's node returns as the outermost node is not the library's business
		tree = &Node{K: "coll", Kids: []*Node{tree}}
	}
	// how callbacks fail
	walkTree(tree, func(n *Node) {
		switch n.K {
		case "user", "uattr":
			n.Fail = c.Pick("return", "return", "ctx", "swallow", "wrap")
		case "imper":
			n.Fail = c.Pick("return", "return", "ctx", "early", "wrap")
		}
	})
	node := (&Builder{}).node(tree)
	s := c.newSubject(node, 30)
	var ids []int
	for _, l := range [][]int{g.fnIDs, g.userIDs, g.impIDs, g.colIDs, g.iterIDs} {
		ids = append(ids, l...)
	}
	if len(ids) == 0 {
		return
	}
	for round := 0; round < 4; round++ {
		base := g.newRun(c.Rand)
		for _, id := range g.condIDs {
			if c.Pct(60) {
				base.truth[id] = true
			}
		}
		for _, id := range g.iterIDs {
			for len(base.lists[id]) < 1 {
				base.lists[id] = append(base.lists[id], c.N(10))
			}
		}
		m := s.model(tree, base)
		called := map[int]int{}
		for _, e := range m.ev {
			called[e.ID]++
		}
		// which calls of which callbacks fail
		plan := map[int]int{}
		want := 1
		if c.Pct(40) {
			want = c.Range(2, 5)
			c.Count("several_failing", 1)
		}
		for try := 0; try < 40 && len(plan) < want; try++ {
			id := ids[c.N(len(ids))]
			if called[id] > 0 {
				plan[id] = c.N(called[id])
			}
		}
		if len(plan) == 0 {
			continue
		}
		run := base.again()
		run.rec = newRec()
		run.fails = plan
		if c.Pct(25) {
			run.bare = map[int]error{}
			for _, id := range sortedIDs(plan) {
				if c.Pct(60) {
					run.bare[id] = c.anErr("callback")
				}
			}
		}
		run.nth = map[int]int{}
		ctx, err := s.render(run)
		c.Eval()
		c.Count("renders", 1)
		bad := func(what string) {
			var evs []string
			for _, e := range run.ev {
				evs = append(evs, e.String())
			}
			c.Fail(what, map[string]any{"failing callbacks and calls": fmt.Sprint(plan), "raised": fmt.Sprint(run.raised), "template": s.tmpl != nil, "tree": js(tree), "written": fmt.Sprintf("%.600q", run.rec.out), "full": fmt.Sprintf("%.600q", m.out), "error": fmt.Sprint(err), "calls": evs})
		}
		if len(run.raised) == 0 {
			bad("no failing callback was called")
		}
		first := run.raised[0]
		c.Count("raised", 1)
		c.Count("raised_by_"+first.kind, 1)
		if s.tmpl != nil {
			c.Count("in_template", 1)
		}
		if first.depth > 0 {
			c.Count("in_iteration", 1)
		}
		c.Count("swallowed_returns", run.swallowed)
		c.Count("wrapped_returns", run.wrapped)
		if err == nil {
			bad("an error raised while rendering was lost")
		}
		if !errors.Is(err, first.err) {
			bad("the error reported is not the first one raised")
		}
		if w := (*wrapErr)(nil); errors.As(err, &w) {
			bad("the error reported is what a user function made of the first one raised")
		}
		if ctx != nil && !errors.Is(ctx.Error, first.err) {
			bad("the context does not hold the first error raised")
		}
		if first.at != len(run.rec.out) {
			bad("something was written after the failure")
		}
		if !bytes.HasPrefix(m.out, run.rec.out) {
			bad("what was written is not a prefix of the successful render")
		}
		c.NonTrivial(run.rec.out, first.kind, first.depth)
		c.Max("max_iteration_depth", first.depth)
		c.Sample(func() any {
			return map[string]any{"tree": js(tree), "first error": first.err.Error(), "written until then": string(run.rec.out)}
		})
	}
}

func sortedIDs(m map[int]int) (ids []int) {
	for id := range m {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	return ids
}

package main

import (
	"bytes"
	"fmt"

	"github.com/go-andiamo/aitch"
	"github.com/go-andiamo/aitch/context"
)

// C05: rendering is repeatable and leaves no trace.  The oracle compares executions with one
// another (and with the model), over random histories of renders of two builds of one template.

func init() {
	register(&Prop{ID: "C05", Quick: 30000, Thor: 3000000, Run: runC05,
		Rule: "random trees of all node kinds (and their use in templates), built twice, rendered in random histories of 15-40 steps: with several data, with failing writers, failing and panicking callbacks, data and lists changed in place by the caller, and re-entrantly from their own callbacks; with one context used again for several renders; small templates rendered 6000 times in a row; outputs are compared with the first ones and with the model, data and contexts with snapshots; non-trivial: a history with at least two different outputs",
		Min:  map[string]int64{"renders": 50000, "failed_renders": 5000, "reentrant_renders": 3000, "template_renders": 3000, "panicking_renders": 5000, "data_changed_in_place": 5000, "active_conditional_attributes": 2000, "same_context_renders": 10000, "renders_in_a_row": 200000}})
}

func (g *Gen) richTree(c *Case) *Node {
	tree := &Node{K: "elem", Name: "div", Via: 1, Kids: g.kids(5, "elem")}
	// several unconditional attributes next to conditional ones
	for i := c.N(6); i > 0; i-- {
		tree.Kids = append(tree.Kids, g.attr())
	}
	if g.Cond {
		tree.Kids = append(tree.Kids, condChain(g, c.N(3)))
	}
	tree.Kids = append(tree.Kids, g.node(4), g.node(4))
	return tree
}

func runC05(c *Case) {
	cfg := Cfg{Depth: 5, Kids: c.Range(1, 5), Budget: c.Range(5, 50), Attrs: 35, Cond: true, Iter: c.Pct(70), Imper: c.Pct(50), Collect: c.Pct(50), User: c.Pct(50), Dyn: true, Dup: true, Nil: c.Pct(30), Doc: c.Pct(20), Named: true, Empty: true}
	g := newGen(c.Rand, cfg)
	tree := g.richTree(c)
	nodes := []aitch.Node{(&Builder{}).node(tree), (&Builder{hostile: true}).node(tree)}
	tmpl, err := aitch.NewTemplate("t", "<x>{{n .}}</x>", aitch.NodeMap{"n": nodes[0]})
	if err != nil {
		c.Fail("cannot parse a template: " + err.Error())
	}
	var runs []*Run
	var outs [][]byte
	var evs [][]Event
	var snaps []string
	distinct := map[string]bool{}
	for i := c.Range(2, 5); i > 0; i-- {
		run := g.newRun(c.Rand)
		m := modelRun(tree, run)
		if m.condAttrs > 0 {
			c.Count("active_conditional_attributes", m.condAttrs)
		}
		runs, outs, evs, snaps = append(runs, run), append(outs, m.out), append(evs, m.ev), append(snaps, dump(run.data)+dump(run.cargo)+dumpLists(run))
		distinct[string(m.out)] = true
	}
	fail := func(what string, detail ...any) {
		c.Fail(what, map[string]any{"tree": js(tree), "more": fmt.Sprint(detail...)})
	}
	if c.Idx%150 == 7 { // very many renders of one small template
		c.manyRenders(g, fail)
	}
	// renders with the very same context, its data (or what is in it) changed in between
	if c.Pct(30) {
		run := runs[0].fresh()
		run.rec = newRec()
		run.rec.run = run
		ctx := context.New(run.rec.w(), run.data, run.cargo)
		for k := 0; k < 4; k++ {
			i := c.N(len(runs))
			ctx.Data, ctx.Cargo = runs[i].data, runs[i].cargo
			run.data, run.cargo, run.truth, run.lists = runs[i].data, runs[i].cargo, runs[i].truth, runs[i].lists
			before := len(run.rec.out)
			err := nodes[k%2].Render(ctx)
			c.Count("same_context_renders", 1)
			c.Eval()
			if err != nil || ctx.Error != nil {
				fail("a render with a used context failed", err, ctx.Error)
			}
			if got := run.rec.out[before:]; !bytes.Equal(got, outs[i]) {
				fail("a render with a used context differs from the first one with the same data", diff(outs[i], got))
			}
			if ctx.Writer != any(run.rec.w()) || mapPtr(ctx.Data) != mapPtr(runs[i].data) || !sameAny(ctx.Cargo, runs[i].cargo) || ctx.Parent != nil {
				fail("a render changed the context it was given")
			}
		}
	}
	var one func(depth int)
	one = func(depth int) {
		i := c.N(len(runs))
		run := runs[i].fresh()
		run.rec = newRec()
		run.rec.run = run
		node := nodes[c.N(2)]
		c.Eval()
		mode := c.N(12)
		if mode == 11 {
			if depth > 0 || !c.Pct(30) {
				mode = 5
			} else { // the caller changes its data in place
				other := g.newRun(c.Rand)
				changeInPlace(c.Rand, runs[i], other)
				m := modelRun(tree, runs[i])
				outs[i], evs[i], snaps[i] = m.out, m.ev, dump(runs[i].data)+dump(runs[i].cargo)+dumpLists(runs[i])
				distinct[string(m.out)] = true
				run = runs[i].fresh()
				run.rec = newRec()
				run.rec.run = run
				c.Count("data_changed_in_place", 1)
			}
		}
		if mode == 10 { // a render that panics in a callback
			at := 1 + c.N(6)
			run.hook = func(kind string, id int, ctx *context.Context) {
				if at--; at == 0 {
					panic(&panicked{})
				}
			}
			p := catch(func() {
				if c.Pct(30) {
					_ = tmpl.Execute(run.rec.w(), run.data, run.cargo)
				} else {
					_ = node.Render(context.New(run.rec.w(), run.data, run.cargo))
				}
			})
			if _, ok := p.(*panicked); !ok && p != nil {
				panic(p)
			}
			if at <= 0 {
				c.Count("panicking_renders", 1)
			}
			return
		}
		if mode == 0 { // a render that fails
			run.rec.failAt, run.rec.accept, run.rec.perm, run.rec.failErr = c.N(60), c.N(3)-1, c.Pct(50), c.anErr("write")
		}
		if mode == 1 {
			run.errs = map[int]error{}
			for _, id := range append(append(append([]int{}, g.userIDs...), g.impIDs...), g.colIDs...) {
				if c.Pct(30) {
					run.errs[id] = c.anErr("callback")
				}
			}
		}
		if mode >= 8 && depth < 3 {
			calls := 0
			run.hook = func(kind string, id int, ctx *context.Context) {
				if calls++; calls == 3 || (calls == 1 && id%3 == 0) {
					c.Count("reentrant_renders", 1)
					one(depth + 1)
				}
			}
		}
		if mode == 2 || mode == 3 {
			err := tmpl.Execute(run.rec.w(), run.data, run.cargo)
			c.Count("template_renders", 1)
			want := "<x>" + string(outs[i]) + "</x>"
			if err != nil || string(run.rec.out) != want {
				fail("a template execution differs from the first render", err, diff([]byte(want), run.rec.out))
			}
			for k, e := range run.ev {
				if w := evs[i]; k >= len(w) || e.Kind != w[k].Kind || e.ID != w[k].ID || e.Data != w[k].Data || e.Depth != w[k].Depth || !sameAny(e.Cargo, w[k].Cargo) {
					fail("in a template execution a user function is called with another context than in a render", k, e.String())
				}
			}
		} else {
			ctx := context.New(run.rec.w(), run.data, run.cargo)
			parent := &context.Context{Writer: run.rec.w(), Data: map[string]any{"$run": run}}
			withParent := c.Pct(20) && run.hook == nil
			if withParent {
				ctx.Parent = parent
			}
			err := node.Render(ctx)
			c.Count("renders", 1)
			if run.rec.failed || (mode == 1 && err != nil) {
				c.Count("failed_renders", 1)
				if err == nil {
					fail("a failed write was not reported")
				}
			} else {
				if err != nil {
					fail("render failed", err.Error())
				}
				if !bytes.Equal(run.rec.out, outs[i]) {
					fail("a render differs from the first one with the same data", diff(outs[i], run.rec.out))
				}
			}
			if ctx.Writer != any(run.rec.w()) || mapPtr(ctx.Data) != mapPtr(run.data) || !sameAny(ctx.Cargo, run.cargo) || (ctx.Parent == nil) == withParent || (withParent && ctx.Parent != parent) {
				fail("a render changed the caller's context")
			}
		}
	}
	for i := c.Range(15, 40); i > 0; i-- {
		one(0)
	}
	for i, run := range runs {
		if s := dump(run.data) + dump(run.cargo) + dumpLists(run); s != snaps[i] {
			fail("rendering changed the data", "before", snaps[i], "after", s)
		}
	}
	if len(distinct) > 1 {
		for o := range distinct {
			c.NonTrivial(o)
		}
	}
	c.Sample(func() any { return map[string]any{"tree": js(tree), "outputs": sortedKeys(distinct)} })
}

// manyRenders renders one small tree some thousand times
func (c *Case) manyRenders(g *Gen, fail func(string, ...any)) {
	g.budget = 12
	tree := &Node{K: "elem", Name: "p", Kids: []*Node{condChain(g, 1), g.node(2), &Node{K: "elem", Name: "i", Kids: []*Node{condChain(g, 0), g.node(1)}}}}
	for i := c.N(4); i > 0; i-- {
		tree.Kids = append(tree.Kids, g.attr())
	}
	node := (&Builder{}).node(tree)
	tmpl, err := aitch.NewTemplate("t", "<x>{{n .}}</x>", aitch.NodeMap{"n": node})
	if err != nil {
		fail("cannot parse a template", err)
	}
	var runs [3]*Run
	var outs [3][]byte
	size := 0
	for i := range runs {
		runs[i] = g.newRun(c.Rand)
		outs[i] = modelRun(tree, runs[i]).out
		size += len(outs[i])
	}
	n := 6000
	if size > 3000 {
		n = 300
	}
	for k := 0; k < n; k++ {
		run := runs[k%3].fresh()
		run.rec = newRec()
		run.rec.run = run
		var err error
		want := outs[k%3]
		if k%7 == 6 {
			err = tmpl.Execute(run.rec.w(), run.data, run.cargo)
			want = []byte("<x>" + string(want) + "</x>")
		} else {
			err = node.Render(context.New(run.rec.w(), run.data, run.cargo))
		}
		if err != nil || !bytes.Equal(run.rec.out, want) {
			fail(fmt.Sprintf("render %d of %s differs from the first one", k+1, js(tree)), err, diff(want, run.rec.out))
		}
	}
	c.Count("renders_in_a_row", n)
	c.Eval()
}

type panicked struct{}

func (*panicked) Error() string { return "a callback panics" }

// changeInPlace puts what the other run has into the maps and lists of the run
func changeInPlace(r *Rand, run, other *Run) {
	lists := func(to, from any) bool {
		t, ok1 := to.([]any)
		f, ok2 := from.([]any)
		if !ok1 || !ok2 || len(t) == 0 {
			return false
		}
		for i := range t {
			if len(f) > 0 {
				t[i] = f[i%len(f)]
			} else {
				t[i] = i
			}
		}
		return true
	}
	if run.data == nil {
		return
	}
	for _, k := range sortedKeys(run.data) {
		if k == "$run" {
			continue
		}
		v, ok := other.data[k]
		switch {
		case r.Pct(30):
		case !ok:
			delete(run.data, k)
		default:
			if !lists(run.data[k], v) {
				run.data[k] = v
			}
		}
	}
	for _, k := range sortedKeys(other.data) {
		if _, ok := run.data[k]; !ok && k != "$run" && r.Pct(70) {
			run.data[k] = other.data[k]
		}
	}
	if m, ok := run.cargo.(map[string]any); ok {
		m["s0"] = r.N(100)
	}
	for id := 0; id < 2000; id++ {
		if l, ok := run.lists[id]; ok {
			lists(l, other.lists[id])
		}
		if b, ok := run.truth[id]; ok && r.Pct(50) {
			run.truth[id] = !b
		}
	}
}

func dumpLists(run *Run) (s string) {
	for id := 0; id < 2000; id++ {
		if l, ok := run.lists[id]; ok {
			s += fmt.Sprint(id, "=", dump(l), ";")
		}
	}
	return s
}

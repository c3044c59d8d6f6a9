package main

import (
	"bytes"
	"errors"
	"fmt"
	"maps"
	"slices"
	"sort"

	"github.com/go-andiamo/aitch"
	"github.com/go-andiamo/aitch/context"
)

// C25: nodes that are implemented outside the library are as good as its own.
// C26: a panic of a callback reaches the caller, and nothing is left behind.

func init() {
	register(&Prop{ID: "C25", Quick: 60000, Thor: 3000000, Run: runC25,
		Rule: "random trees in which arbitrary contents and attributes are put into node types of the harness (structs, pointers, embedding structs, function types, types that cannot be compared) that pass on type, name and render; output, number and order of their renders and the contexts they get are compared with the model; non-trivial: at least 2 foreign nodes rendered",
		Min:  map[string]int64{"renders": 60000, "foreign_contents": 100000, "foreign_attributes": 20000, "foreign_renders": 200000}})
	register(&Prop{ID: "C26", Quick: 60000, Thor: 3000000, Run: runC26,
		Rule: "random trees of all node kinds where one call of one callback, or of a method or function that gives the text of a value in the data, panics with a value of some kind; what the caller gets, what is written afterwards, and several later renders of the same nodes are checked; non-trivial: a panic below at least one other node",
		Min:  map[string]int64{"panics": 40000, "panics_in_templates": 5000, "later_renders": 80000, "panics_recovered_by_user_code": 5000, "panics_in_a_row": 50000, "panics_in_value": 3000}})
}

type foreignPtr struct {
	aitch.Node
	id int
}

func (f *foreignPtr) Render(ctx *context.Context) error {
	runOf(ctx).event("foreign", f.id, ctx)
	return f.Node.Render(ctx)
}

// foreignVal cannot be compared
type foreignVal struct {
	node []aitch.Node
	id   int
}

func (f foreignVal) Type() aitch.NodeType { return f.node[0].Type() }
func (f foreignVal) Name() string         { return f.node[0].Name() }
func (f foreignVal) Render(ctx *context.Context) error {
	runOf(ctx).event("foreign", f.id, ctx)
	return f.node[0].Render(ctx)
}

type foreignFunc func() (aitch.Node, int)

func (f foreignFunc) Type() aitch.NodeType { n, _ := f(); return n.Type() }
func (f foreignFunc) Name() string         { n, _ := f(); return n.Name() }
func (f foreignFunc) Render(ctx *context.Context) error {
	n, id := f()
	runOf(ctx).event("foreign", id, ctx)
	return n.Render(ctx)
}

// foreignType says that it is of some other type, which only matters for attributes
type foreignType struct {
	node aitch.Node
	id   int
}

func (f *foreignType) Type() aitch.NodeType { return userTypes[f.id%len(userTypes)] }
func (f *foreignType) Name() string         { return "#foreign" }
func (f *foreignType) Render(ctx *context.Context) error {
	runOf(ctx).event("foreign", f.id, ctx)
	return f.node.Render(ctx)
}

func foreign(n *Node, node aitch.Node) aitch.Node {
	if n.Fgn == 0 || node == nil {
		return node
	}
	switch n.Fgn % 5 {
	case 0:
		return foreignVal{[]aitch.Node{node}, n.Fgn}
	case 1:
		return foreignFunc(func() (aitch.Node, int) { return node, n.Fgn })
	case 2:
		if !n.isAttr() {
			return &foreignType{node, n.Fgn}
		}
	case 3:
		return struct{ *foreignPtr }{&foreignPtr{node, n.Fgn}}
	}
	return &foreignPtr{node, n.Fgn}
}

// makeForeign wraps nodes of the tree; collections and conditionals only if no attributes come through them
func makeForeign(c *Case, g *Gen, n *Node, seen map[*Node]bool) {
	if n == nil || seen[n] {
		return
	}
	seen[n] = true
	for _, k := range n.Kids {
		makeForeign(c, g, k, seen)
	}
	for _, k := range n.Head {
		makeForeign(c, g, k, seen)
	}
	for _, op := range n.Ops {
		for _, k := range op.Nodes {
			makeForeign(c, g, k, seen)
		}
	}
	if !c.Pct(35) {
		return
	}
	switch n.K {
	case "plain", "dattr", "uattr":
		return
	case "imper":
		for _, op := range n.Ops {
			if op.K == "self" { // renders the node within
				return
			}
		}
	case "coll", "condnil", "cond", "when":
		if len(attrDecls([]*Node{n}, nil)) > 0 {
			return
		}
	}
	n.Fgn = g.next()
	if n.isAttr() {
		c.Count("foreign_attributes", 1)
	} else {
		c.Count("foreign_contents", 1)
	}
}

func runC25(c *Case) {
	cfg := Cfg{Depth: 5, Kids: c.Range(1, 4), Budget: c.Range(5, 40), Attrs: 30, Dyn: c.Pct(60), Named: true, Dup: true,
		Cond: c.Pct(60), Iter: c.Pct(60), Imper: c.Pct(60), Collect: c.Pct(60), User: c.Pct(30), Empty: true, Doc: c.Pct(30), Nil: c.Pct(20)}
	g := newGen(c.Rand, cfg)
	tree := g.richTree(c)
	makeForeign(c, g, tree, map[*Node]bool{})
	node := foreign(tree, (&Builder{}).node(tree))
	for i := c.Range(1, 3); i > 0; i-- {
		s := c.newSubject(node, 25)
		run := g.newRun(c.Rand)
		m := s.model(tree, run)
		_, err := s.render(run)
		c.Eval()
		c.Count("renders", 1)
		if err != nil {
			c.Fail("render failed without any failing part", err.Error(), js(tree))
		}
		if !bytes.Equal(m.out, run.rec.out) {
			c.Fail("the output with foreign nodes is wrong", map[string]any{"diff": diff(m.out, run.rec.out), "tree": js(tree), "data": dump(run.data)})
		}
		c.sameEvents(tree, m, run)
		n := 0
		for _, e := range run.ev {
			if e.Kind == "foreign" {
				n++
			}
		}
		c.Count("foreign_renders", n)
		if n >= 2 {
			c.NonTrivial(run.rec.out, n)
		}
		if len(m.out) < 600 {
			c.Sample(func() any { return map[string]any{"tree": js(tree), "output": string(run.rec.out)} })
		}
	}
}

type panicKey struct{ p *int }

// boundaries makes some of the user nodes and imperative blocks recover from panics within
func boundaries(c *Case, n *Node, seen map[*Node]bool) (found bool) {
	if n == nil || seen[n] {
		return false
	}
	seen[n] = true
	if (n.K == "user" || n.K == "imper") && c.Pct(50) {
		n.Fail, found = "recover", true
		c.Count("boundaries", 1)
	}
	for _, ks := range [][]*Node{n.Kids, n.Head} {
		for _, k := range ks {
			found = boundaries(c, k, seen) || found
		}
	}
	for _, op := range n.Ops {
		for _, k := range op.Nodes {
			found = boundaries(c, k, seen) || found
		}
	}
	return found
}

func runC26(c *Case) {
	cfg := Cfg{Depth: 5, Kids: c.Range(1, 4), Budget: c.Range(5, 30), Attrs: 30, Dyn: true, Named: c.Pct(50), Dup: true,
		Cond: c.Pct(60), Iter: c.Pct(70), Imper: c.Pct(70), Collect: c.Pct(70), User: c.Pct(70), Empty: true, Doc: c.Pct(20), Nil: c.Pct(20)}
	g := newGen(c.Rand, cfg)
	tree := g.richTree(c)
	bounded := c.Pct(40)
	if bounded {
		if c.Pct(40) { // iterations around a boundary around iterations
			id, iid, id2 := g.next(), g.next(), g.next()
			g.iterIDs = append(g.iterIDs, iid, id2)
			in := &Node{K: c.Pick("iter", "yield"), ID: id2, Kids: []*Node{g.node(2), {K: "text", Vals: []*Val{g.fn(), {K: "dot"}, {K: "key", S: "s0"}}}, g.node(2)}}
			user := &Node{K: "user", ID: id, Kids: []*Node{in, g.node(2)}}
			if c.Pct(40) {
				user = &Node{K: "imper", ID: id, Ops: []*Op{{K: "start", S: "b"}, {K: "nodes", Nodes: []*Node{in}}, {K: "end"}}}
				g.impIDs = append(g.impIDs, id)
			} else {
				g.userIDs = append(g.userIDs, id)
			}
			tree = &Node{K: c.Pick("elem", "coll"), Name: "div", Kids: []*Node{tree, {K: c.Pick("iter", "yield"), ID: iid, Kids: []*Node{user, {K: "text", Vals: []*Val{{K: "dot"}, {K: "key", S: "s0"}, {K: "key", S: "m0"}, g.fn()}}}}, g.node(2)}}
		}
		bounded = boundaries(c, tree, map[*Node]bool{})
	}
	node := (&Builder{}).node(tree)
	s := c.newSubject(node, 25)
	for i := c.Range(1, 3); i > 0; i-- {
		base := g.newRun(c.Rand)
		t := &ticks{}
		if c.Pct(50) {
			c.putTicks(t, base)
		}
		m := s.model(tree, base)
		// calls that the render makes
		probe := base.again()
		calls := 0
		probe.hook = func(kind string, id int, ctx *context.Context) {
			if kind != "cond" || !bounded {
				calls++
			}
		}
		t.hook = func() { calls++ }
		_, err := s.render(probe)
		t.hook = nil
		if err != nil || !bytes.Equal(probe.rec.out, m.out) {
			c.Fail("undisturbed render is wrong", map[string]any{"tree": js(tree), "diff": diff(m.out, probe.rec.out)})
		}
		c.Eval()
		if calls == 0 {
			continue
		}
		times := 1
		if c.Idx%600 == 5 && calls < 40 && len(m.out) < 2000 {
			times = 2500
			c.Count("panics_in_a_row", times)
		}
		first := c.N(calls)
		for k := 0; k < times; k++ {
			at := first
			if k > 0 && c.Pct(50) {
				at = c.N(calls)
			}
			c.panicOnce(tree, s, base, t, m, at, bounded)
		}
		// nothing is left behind
		for k := c.Range(1, 3); k > 0; k-- {
			later := base
			if c.Pct(50) {
				later = g.newRun(c.Rand)
			}
			r := later.again()
			want := s.model(tree, r)
			_, err := s.render(r)
			c.Count("later_renders", 1)
			c.Eval()
			if err != nil || !bytes.Equal(want.out, r.rec.out) {
				c.Fail("a render after one with a panic is wrong", map[string]any{"tree": js(tree), "error": fmt.Sprint(err), "diff": diff(want.out, r.rec.out)})
			}
		}
	}
}

// panicOnce renders with one panic in a callback
func (c *Case) panicOnce(tree *Node, s *subject, base *Run, t *ticks, m *model, at int, bounded bool) {
	value := panicValue(c)
	run := base.again()
	run.rec = newRec()
	run.rec.run = run
	var kind string
	depth, done, n := 0, -1, at
	run.hook = func(k string, id int, ctx *context.Context) {
		if k == "cond" && bounded {
			return
		}
		if n == 0 && done < 0 {
			kind, done = k, len(run.rec.out)
			if ctx != nil {
				depth = depthOf(ctx)
			}
			panic(value)
		}
		n--
	}
	detail := func(more ...any) any {
		return map[string]any{"tree": js(tree), "kind": kind, "value": fmt.Sprintf("%T %v", value, value), "more": fmt.Sprint(more...), "output": fmt.Sprintf("%.2000q", run.rec.out)}
	}
	var want *model
	escapes := true // what the model says with boundaries
	if bounded {
		want, escapes = s.modelPanic(tree, base.again(), t, at+1)
	}
	t.hook = func() { run.hook("value", 0, nil) }
	var err error
	var ctx *context.Context
	got := catch(func() {
		if s.tmpl != nil {
			err = s.tmpl.Execute(run.rec.w(), run.data, run.cargo)
			return
		}
		ctx = context.New(run.rec.w(), run.data, run.cargo)
		err = s.node.Render(ctx)
	})
	t.hook = nil
	if v, ok := got.(*violation); ok {
		panic(v)
	}
	c.Count("panics", 1)
	c.Count("panics_in_"+kind, 1)
	if depth > 0 {
		c.Count("panics_in_iterations", 1)
	}
	switch {
	case done < 0:
		c.Fail("a callback that was called before is not called", detail())
	case !escapes:
		c.Count("panics_recovered_by_user_code", 1)
		if got != nil || err != nil {
			c.Fail("a panic that user code recovered from is reported", detail(fmt.Sprintf("caller got %T %v, error %v", got, got, err)))
		}
	case s.tmpl != nil && got == nil:
		c.Count("panics_in_templates", 1)
		if err == nil {
			c.Fail("the panic of a callback in a template is lost", detail())
		}
		if e, ok := value.(error); ok && !errors.Is(err, e) {
			c.Fail("a template execution reports another error than the one a callback panics with", detail(err))
		}
	case !samePanic(got, value):
		c.Fail("the panic of a callback does not reach the caller as it was", detail(fmt.Sprintf("caller got %T %v, error %v", got, got, err)))
	}
	if escapes && len(run.rec.out) != done {
		c.Fail("something is written after a callback panics", detail(done, len(run.rec.out)))
	}
	if want != nil {
		if !bytes.Equal(want.out, run.rec.out) {
			c.Fail("the output around user code that recovers from a panic is wrong", detail(diff(want.out, run.rec.out)))
		}
		c.sameEvents(tree, want, run)
	} else if !bytes.HasPrefix(m.out, run.rec.out) {
		c.Fail("the output before a panic is wrong", detail(diff(m.out, run.rec.out)))
	}
	if ctx != nil && (ctx.Writer != any(run.rec.w()) || mapPtr(ctx.Data) != mapPtr(run.data) || !sameAny(ctx.Cargo, run.cargo) || ctx.Parent != nil) {
		c.Fail("a render with a panic changed the caller's context", detail())
	}
	if done > 0 {
		c.NonTrivial(run.rec.out, kind)
	}
	c.Sample(func() any { return detail(done) })
}

// modelPanic is what a render is to write and call when the given event panics; escapes is whether the panic gets out
func (s *subject) modelPanic(tree *Node, run *Run, t *ticks, at int) (m *model, escapes bool) {
	m = &model{run: run, panicAt: at}
	t.hook = m.tick
	defer func() { t.hook = nil }()
	env := &Env{data: run.data, cargo: run.cargo}
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(modelPanic); !ok {
				panic(r)
			}
			escapes = true
		}
	}()
	m.w(s.pre)
	m.node(tree, env)
	m.w(s.mid)
	if s.twice {
		m.node(tree, env)
	}
	m.w(s.post)
	return m, false
}

// ticks is told when values of the data are asked for their text
type ticks struct{ hook func() }

func (t *ticks) tick() {
	if t.hook != nil {
		t.hook()
	}
}

type tickPtr struct {
	t *ticks
	s string
}

func (v *tickPtr) String() string { v.t.tick(); return v.s }

type tickVal struct {
	t *ticks
	s string
}

func (v tickVal) String() string { v.t.tick(); return v.s }

// of makes a value that tells when it is asked
func (t *ticks) of(c *Case, v any) any {
	switch c.N(4) {
	case 0:
		return func() any { t.tick(); return v }
	case 1:
		in := tickVal{t, c.str(20)}
		return func() any { t.tick(); return in }
	case 2:
		return tickVal{t, c.str(20)}
	}
	return &tickPtr{t, c.str(20)}
}

// putTicks puts values that tell when they are asked into the data, the items of iterations and the cargo
func (c *Case) putTicks(t *ticks, run *Run) {
	pct := c.Range(20, 100)
	var in func(v any) any
	in = func(v any) any {
		switch vt := v.(type) {
		case map[string]any:
			if vt == nil {
				return vt
			}
			vt = maps.Clone(vt)
			v = vt
			for _, k := range sortedKeys(vt) {
				switch {
				case k == "$run":
				case k != "" && k[0] == 'l':
					if l, ok := vt[k].([]any); ok {
						vt[k] = in(l)
					}
				case k != "" && (k[0] == 's' || k[0] == 'm'):
					vt[k] = in(vt[k])
				}
			}
		case []any:
			vt = slices.Clone(vt)
			v = vt
			for i := range vt {
				vt[i] = in(vt[i])
			}
		default:
			if c.Pct(pct) {
				return t.of(c, v)
			}
		}
		return v
	}
	if run.data != nil {
		run.data = in(run.data).(map[string]any)
	}
	ids := []int{}
	for id := range run.lists {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		run.lists[id], _ = in(run.lists[id]).([]any)
	}
	if c.Pct(50) {
		run.cargo = t.of(c, run.cargo)
	}
	c.Count("renders_with_watched_values", 1)
}

func panicValue(c *Case) any {
	switch c.N(6) {
	case 0:
		return &panicked{}
	case 1:
		return "a panic with text " + c.str(20)
	case 2:
		return errors.New("a panic with an error")
	case 3:
		return panicKey{new(int)}
	case 4:
		return c.N(100)
	}
	return fmt.Errorf("wrapping %w", &testErr{1, 2})
}

func samePanic(got, want any) bool { return got != nil && got == want }

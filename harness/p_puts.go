package main

import (
	"bytes"
	"fmt"
	"sort"

	"github.com/go-andiamo/aitch"
	"github.com/go-andiamo/aitch/context"
)

// C33: what user code puts into its context is used from there on

func init() {
	register(&Prop{ID: "C33", Shards: 8, Quick: 90000, Thor: 2000000, Run: runC33,
		Rule: "random trees in which user nodes, imperative functions, collectors, conditions, iteration functions, dynamic texts and values of attributes put other data, another cargo or both into the context they are given (and leave them there, or put the former ones back when they end), or render with a copy, a child or a context of their own that has others; output, calls and the contexts of all calls are compared with a model; what the caller's context has in the end; directly and in templates with several markers, several renders with other or no changes; non-trivial: the changes change the output or the context of a call",
		Min:  map[string]int64{"renders": 150000, "observable": 20000, "put_user": 20000, "put_imper": 8000, "put_collect": 8000, "put_iter": 5000, "put_text": 8000, "put_attr": 8000, "put_cond": 4000, "put_back": 15000, "own_contexts": 15000, "in_items": 8000, "in_templates": 20000, "no_data": 5000, "condition_changed": 3000}})
}

// put is what a callback puts into its context
type put struct {
	Data       map[string]any
	Cargo      any
	SetD, SetC bool
	Scope      string // "" stays, "back" until the callback ends; "copy", "child", "new": a context of its own
}

func (p *put) own() bool { return p.Scope == "copy" || p.Scope == "child" || p.Scope == "new" }

func (p *put) into(data *map[string]any, cargo *any) {
	if p.SetD {
		*data = p.Data
	}
	if p.SetC {
		*cargo = p.Cargo
	}
}

// restore returns what puts back what the context has now
func (p *put) restore(ctx *context.Context) func() {
	data, cargo := ctx.Data, ctx.Cargo
	return func() {
		if p.Scope == "back" {
			ctx.Data, ctx.Cargo = data, cargo
		}
	}
}

// back is the same in the model
func (p *put) back(env *Env, data map[string]any, cargo any) {
	if p.Scope == "back" {
		env.data, env.cargo = data, cargo
	}
}

// context is the context to render with
func (p *put) context(ctx *context.Context) *context.Context {
	switch p.Scope {
	case "copy":
		cp := *ctx
		ctx = &cp
	case "child":
		parent := ctx
		ctx = context.New(parent.Writer, parent.Data, parent.Cargo)
		ctx.Parent = parent
	case "new":
		ctx = context.New(ctx.Writer, ctx.Data, ctx.Cargo)
	default:
		return ctx
	}
	p.into(&ctx.Data, &ctx.Cargo)
	return ctx
}

// env is the same in the model
func (p *put) env(env *Env) *Env {
	if !p.own() {
		return env
	}
	inner := *env
	switch p.Scope {
	case "child":
		inner.depth++
	case "new":
		inner.depth = 0
	}
	p.into(&inner.data, &inner.cargo)
	return &inner
}

// putIDs are the callbacks of the contents of the tree, by their kind
func putIDs(tree *Node) map[int]string {
	ids := map[int]string{}
	var val func(v *Val)
	val = func(v *Val) {
		switch v.K {
		case "fn", "rawfn":
			ids[v.ID] = "text"
		}
		for _, sub := range v.Sub {
			val(sub)
		}
	}
	walkTree(tree, func(n *Node) {
		switch n.K {
		case "user", "imper", "collect":
			ids[n.ID] = n.K
		case "cond": // one that is not evaluated for attributes, too
			if n.ID != 0 && len(attrDecls([]*Node{n}, nil)) == 0 {
				ids[n.ID] = "cond"
			}
		case "iter", "yield":
			ids[n.ID] = "iter"
		case "text", "plain", "comment", "frag", "pi":
			for _, v := range n.Vals {
				val(v)
			}
		}
	})
	return ids
}

// putTag makes an element with an attribute whose value function changes the context; nothing else of the tag is dynamic
func (c *Case) putTag(g *Gen, ids map[int]string, within *Node) *Node {
	n := &Node{K: "elem", Name: c.Pick("div", "p", "x-y")}
	id := g.next()
	ids[id] = "attr"
	attr := &Node{K: "attr", Name: "data-put", Vals: []*Val{{K: "fn", ID: id}}}
	if c.Pct(40) {
		attr = &Node{K: "dattr", Name: "class", Delim: " ", Vals: attr.Vals}
	}
	for i := c.N(3); i > 0; i-- {
		n.Kids = append(n.Kids, &Node{K: "attr", Name: fmt.Sprint("a", i), Vals: []*Val{{K: "str", S: "static"}}})
	}
	if c.Pct(30) {
		attr.Vals = append(attr.Vals, &Val{K: "str", S: "more"})
	}
	for i := c.N(3); i > 0; i-- {
		attr = &Node{K: c.Pick("when", "coll", "when"), Key: c.Pick("s0", "s1", "!no"), Kids: []*Node{attr}}
	}
	n.Kids = append(n.Kids, attr)
	if c.Pct(50) {
		n.Kids = append(n.Kids, &Node{K: "text", Vals: []*Val{{K: "key", S: "s0"}, {K: "dot"}}})
	}
	if within != nil {
		n.Kids = append(n.Kids, within)
	}
	return n
}

func (c *Case) puts(g *Gen, run *Run, ids map[int]string) map[int]*put {
	result := map[int]*put{}
	pct := []int{10, 30, 60, 100}[c.N(4)]
	for _, id := range sortedInts(ids) {
		if !c.Pct(pct) {
			continue
		}
		p := &put{SetD: c.Pct(75), SetC: c.Pct(50)}
		switch kind := ids[id]; {
		case kind == "user" && c.Pct(60):
			p.Scope = c.Pick("back", "back", "copy", "child", "new")
		case kind == "imper" && c.Pct(50):
			p.Scope = "back"
		}
		switch c.N(8) {
		case 0:
		case 1:
			p.Data = map[string]any{}
		case 2:
			p.Data = map[string]any{"s0": fmt.Sprint("put", id), "k0": c.Pct(50), "l0": []any{id, "x"}}
		default:
			p.Data = g.data(c.Rand, run, 1)
		}
		p.Cargo = g.scalar(c.Rand)
		if c.Pct(20) {
			p.Cargo = map[string]any{"s0": "cargo"}
		}
		result[id] = p
	}
	return result
}

func runC33(c *Case) {
	cfg := Cfg{Depth: 5, Kids: c.Range(2, 5), Budget: c.Range(6, 50), Attrs: 20, Cond: true, Iter: true, Imper: true, Collect: true, User: true, Dyn: true, DynHeavy: true, Dup: true, Doc: c.Pct(10), Empty: c.Pct(30), Set: c.Pct(20), CondHeavy: c.Pct(20)}
	g := newGen(c.Rand, cfg)
	var trees []*Node
	ids := map[int]string{}
	for i := c.Range(1, 3); i > 0; i-- {
		tree := g.node(5)
		if c.Pct(40) {
			tree = g.richTree(c)
		}
		for j := c.few(3); j > 0; j-- {
			tree = g.wrap(tree)
			if c.Pct(25) && !tree.isAttr() && tree.K != "elem" && tree.K != "doc" && len(attrDecls([]*Node{tree}, nil)) == 0 {
				tree = c.putTag(g, ids, tree)
			} else if c.Pct(25) {
				tree = &Node{K: "coll", Kids: []*Node{c.putTag(g, ids, nil), tree}}
			}
			if c.Pct(50) {
				id := g.next()
				g.userIDs = append(g.userIDs, id)
				tree = &Node{K: "user", ID: id, Kids: []*Node{tree, {K: "text", Vals: []*Val{{K: "key", S: "s0"}, {K: "dot"}}}}}
			}
		}
		trees = append(trees, tree)
		g.budget = max(g.budget, 10)
	}
	probe := func() *Node {
		return &Node{K: c.Pick("text", "frag"), Vals: []*Val{{K: "str", S: "|"}, {K: "key", S: "s0"}, {K: "dot"}}}
	}
	var all []*Node
	for i, t := range trees {
		all = append(all, t)
		if i > 0 || c.Pct(50) {
			all = append(all, probe(), &Node{K: "when", Key: "k0", Kids: []*Node{{K: "text", Vals: []*Val{{K: "str", S: "k0"}}}}})
		}
	}
	tree := &Node{K: c.Pick("coll", "elem"), Name: "div", Kids: all}
	for id, kind := range putIDs(tree) {
		ids[id] = kind
	}
	b := &Builder{}
	var tmpl *aitch.Template
	var node aitch.Node
	var parts []*Node
	if c.Pct(25) { // in a template, at several markers
		text, nodes := "", aitch.NodeMap{}
		for i, n := range all {
			name := fmt.Sprint("n", i)
			nodes[name] = b.node(n)
			text += "<i>{{" + name + " .}}</i>"
			parts = append(parts, n)
		}
		t, err := aitch.NewTemplate("t", text, nodes)
		if err != nil {
			c.Fail("cannot parse a template: " + err.Error())
		}
		tmpl = t
	} else {
		node = b.node(tree)
	}
	run := g.newRun(c.Rand)
	expect := func(run *Run) (*model, *Env) {
		m, env := &model{run: run}, &Env{data: run.data, cargo: run.cargo}
		if tmpl == nil {
			m.node(tree, env)
		}
		for _, n := range parts {
			m.w("<i>")
			m.node(n, env)
			m.w("</i>")
		}
		return m, env
	}
	for i, n := 0, c.Range(2, 3); i < n; i++ {
		if c.Pct(30) {
			run = g.newRun(c.Rand)
		} else {
			run = run.again()
		}
		run.rec = newRec()
		run.puts = nil
		plain, _ := expect(run)
		if !c.Pct(10) {
			run.puts = c.puts(g, run, ids)
		}
		m, env := expect(run)
		var ctx *context.Context
		var err error
		if tmpl == nil {
			ctx, err = render(node, run)
		} else {
			run.rec.run = run
			err = tmpl.Execute(run.rec.w(), run.data, run.cargo)
			c.Count("in_templates", 1)
		}
		c.Eval()
		c.Count("renders", 1)
		c.Count("events", len(run.ev))
		bad := func(what string) {
			c.Fail(what, map[string]any{"tree": js(tree), "puts": dumpPuts(run.puts), "error": fmt.Sprint(err), "diff": diff(m.out, run.rec.out), "template": tmpl != nil})
		}
		if err != nil {
			bad("a render failed")
		}
		if !bytes.Equal(m.out, run.rec.out) {
			bad("what user code put into its context is not used, or used elsewhere")
		}
		c.sameEvents(tree, m, run)
		if ctx != nil && (mapPtr(ctx.Data) != mapPtr(env.data) || !sameAny(ctx.Cargo, env.cargo)) {
			bad("the caller's context does not have what user code put there last")
		}
		for _, e := range m.ev {
			p := run.puts[e.ID]
			if p == nil || e.Kind == "op" {
				continue
			}
			c.Count("put_"+ids[e.ID], 1)
			switch {
			case p.own():
				c.Count("own_contexts", 1)
			case p.Scope == "back":
				c.Count("put_back", 1)
			}
			if e.Depth > 0 {
				c.Count("in_items", 1)
			}
			if p.SetD && p.Data == nil {
				c.Count("no_data", 1)
			}
		}
		for _, call := range run.conds {
			if run.puts[call.id] != nil {
				c.Count("put_cond", 1)
			}
		}
		changed := !bytes.Equal(plain.out, m.out) || len(plain.ev) != len(m.ev)
		if len(plain.ev) != len(m.ev) {
			c.Count("condition_changed", 1)
		}
		for j := 0; !changed && j < len(m.ev); j++ {
			changed = plain.ev[j].Data != m.ev[j].Data || !sameAny(plain.ev[j].Cargo, m.ev[j].Cargo)
		}
		if changed {
			c.Count("observable", 1)
			c.NonTrivial(js(tree), i, fmt.Sprint(dumpPuts(run.puts)))
			c.Sample(func() any {
				return map[string]any{"tree": js(tree), "puts": dumpPuts(run.puts), "events": fmt.Sprint(run.ev), "out": string(run.rec.out)}
			})
		}
	}
}

func sortedInts[V any](m map[int]V) []int {
	keys := make([]int, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sort.Ints(keys)
	return keys
}

func dumpPuts(ps map[int]*put) (result []string) {
	for _, id := range sortedInts(ps) {
		p := ps[id]
		s := fmt.Sprintf("%d:%s", id, p.Scope)
		if p.SetD {
			s += " data=" + dump(p.Data)
		}
		if p.SetC {
			s += fmt.Sprintf(" cargo=%v", p.Cargo)
		}
		result = append(result, s)
	}
	return result
}

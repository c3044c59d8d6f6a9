package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"strings"

	"github.com/go-andiamo/aitch"
	"github.com/go-andiamo/aitch/context"
)

// C31: user code captures what is rendered within it, and handles failures

func init() {
	register(&Prop{ID: "C31", Shards: 8, Quick: 150000, Thor: 3000000, Run: runC31,
		Rule: "random trees in which user nodes and imperative functions capture what is rendered within them: by another writer in the very context, a copy of the context, a child context or a context of its own, and then write it as it is, twice, in upper case, reversed or only its length, and pairs of nodes that capture all that comes between them, across elements; in some runs callbacks raise errors (stored or returned) or the other writer fails, which user code around them handles (dropping what was captured, or keeping what was written so far) or passes on; output, callbacks and contexts are compared with a model; directly and within templates, several renders of each; non-trivial: something was captured",
		Min:  map[string]int64{"renders": 100000, "captures_swap": 30000, "captures_copy": 10000, "captures_child": 10000, "captures_new": 10000, "captures_imper": 10000, "in_place": 5000, "raised": 20000, "handled": 8000, "passed_on": 8000, "in_iteration": 8000, "in_template": 10000, "nested": 10000, "no_room": 3000, "opened": 30000}})
}

// captures is what a run and its model know about captures and errors
type captures struct {
	c       *Case
	stack   []*capWriter
	n       int          // events so far
	at      map[int]bool // the events that raise an error
	down    bool         // an error has been raised and not been handled yet: calls are not looked at
	ret     error        // to be returned by the callback that raised it
	obs     []int        // bytes written when each error was raised
	err     error        // the last one raised
	handled int
	dry     bool // only the size counts
}

type capErr struct{ n int }

func (e *capErr) Error() string { return fmt.Sprintf("error raised by event %d", e.n) }

// capWriter is a writer that user code puts in place
type capWriter struct {
	run  *Run
	buf  []byte
	room int // fails when there is more than that
	old  io.Writer
}

func (w *capWriter) Write(b []byte) (int, error) {
	if s := w.run.capt; w.room > 0 && len(w.buf)+len(b) > w.room {
		if !s.down {
			s.down = true
			s.err = &capErr{-s.n}
			s.c.Count("no_room", 1)
		}
		n := max(0, w.room-len(w.buf))
		w.buf = append(w.buf, b[:n]...)
		return n, s.err
	}
	w.buf = append(w.buf, b...)
	return len(b), nil
}

func (r *Run) pos() int {
	if l := len(r.capt.stack); l > 0 {
		return len(r.capt.stack[l-1].buf)
	}
	return len(r.rec.out)
}

// event is an event of a real render
func (s *captures) event(r *Run, kind string, id int, ctx *context.Context) {
	if s.down {
		return
	}
	n := s.n
	s.n++
	at := r.pos()
	r.ev = append(r.ev, Event{Kind: kind, ID: id, Lo: at, Hi: at, Data: mapPtr(ctx.Data), Depth: depthOf(ctx), Cargo: ctx.Cargo})
	if s.at[n] {
		s.down = true
		s.obs = append(s.obs, at)
		s.err = &capErr{n}
		s.c.Count("raised", 1)
		if ctx.Parent != nil {
			s.c.Count("in_iteration", 1)
		}
		if (kind == "user" || kind == "imper") && n%2 == 0 {
			s.ret = s.err
		} else {
			ctx.Error = s.err
		}
	}
}

// returned is the error that a callback is to return, if it has raised one
func (r *Run) returned(ctx *context.Context) (err error, stop bool) {
	if r.capt == nil {
		return nil, false
	}
	err = r.capt.ret
	r.capt.ret = nil
	return err, err != nil || ctx.Error != nil
}

// modelErr is an error raised in the model
type modelErr struct{}

// raise raises the error of an event in the model: if it is raised within a tag or text, as much has been
// written as there was in the real render
func (s *captures) raise(m *model, lo int) {
	n := s.n
	s.n++
	if s.at[n] {
		if len(s.obs) > 0 {
			if o := s.obs[0]; o >= lo && o <= len(m.out) {
				m.out = m.out[:o]
			}
			s.obs = s.obs[1:]
		}
		panic(modelErr{})
	}
}

// use is what user code makes of what it captured
func use(n *Node, b []byte) string {
	switch n.Use {
	case "twice":
		return string(b) + "~" + string(b)
	case "length":
		return fmt.Sprintf("#%d", len(b))
	case "upper":
		return strings.ToUpper(string(b))
	case "reverse":
		r := make([]byte, len(b))
		for i, x := range b {
			r[len(b)-1-i] = x
		}
		return string(r)
	}
	return string(b)
}

func (m *model) capture(n *Node, env *Env, f func(env *Env)) {
	out, self := m.out, m.self
	inner := *env
	switch n.Cap {
	case "child":
		inner.depth++
	case "new":
		inner.depth = 0
	}
	if n.Cap != "inplace" {
		m.out = nil
	}
	m.self = map[int]int{}
	for k, v := range self {
		m.self[k] = v
	}
	defer func() {
		m.self = self
		if r := recover(); r != nil {
			if _, ok := r.(modelErr); !ok {
				panic(r)
			}
			if n.Cap != "inplace" {
				m.out = out
			}
			if !n.Catch {
				panic(r)
			}
			m.w(fmt.Sprintf("{!%d}", n.ID))
		}
	}()
	f(&inner)
	if n.Room > 0 && !m.capt.dry && len(m.out) > n.Room {
		panic(modelErr{})
	}
	if n.Cap != "inplace" {
		got := m.out
		m.out = out
		m.w(use(n, got))
	}
}

func (u *userNode) capture(ctx *context.Context, run *Run) error {
	s := run.capt
	w := &capWriter{run: run, room: u.n.Room}
	cctx := ctx
	s.c.Count("captures_"+u.n.Cap, 1)
	if len(s.stack) > 0 {
		s.c.Count("nested", 1)
	}
	old := ctx.Writer
	switch u.n.Cap {
	case "swap":
		ctx.Writer = w
	case "copy":
		cp := *ctx
		cp.Writer = w
		cctx = &cp
	case "child":
		cctx = context.New(w, ctx.Data, ctx.Cargo)
		cctx.Parent = ctx
	case "new":
		cctx = context.New(w, ctx.Data, ctx.Cargo)
	}
	if u.n.Cap != "inplace" {
		s.stack = append(s.stack, w)
	} else {
		s.c.Count("in_place", 1)
	}
	var err error
	for _, k := range u.kids {
		if k != nil && k.Type() != aitch.AttributeNode && err == nil && !(cctx.Error != nil && isUser(k)) {
			err = k.Render(cctx)
		}
	}
	if u.n.Cap != "inplace" {
		s.stack = s.stack[:len(s.stack)-1]
		if u.n.Cap == "swap" {
			if ctx.Writer != any(w) {
				s.c.Fail("the writer that user code put into the context was replaced", u.n.ID)
			}
			ctx.Writer = old
		}
	}
	if err == nil {
		err = cctx.Error
	}
	if err != nil {
		if !errors.Is(err, s.err) {
			s.c.Fail("user code is told of another error than the one raised within it", map[string]any{"told": fmt.Sprint(err), "raised": fmt.Sprint(s.err)})
		}
		if !u.n.Catch {
			s.c.Count("passed_on", 1)
			return err
		}
		cctx.Error = nil
		s.down = false
		s.handled++
		s.c.Count("handled", 1)
		ctx.Write([]byte(fmt.Sprintf("{!%d}", u.n.ID)))
		return ctx.Error
	}
	if s.down {
		s.c.Fail("user code is not told of an error raised within it", map[string]any{"raised": fmt.Sprint(s.err), "by": u.n.ID, "events": fmt.Sprint(run.ev), "node": js(u.n)})
	}
	if u.n.Cap != "inplace" {
		ctx.Write([]byte(use(u.n, w.buf)))
	}
	return ctx.Error
}

// mark is a node that captures all that comes after it, up to its counterpart
func (u *userNode) mark(ctx *context.Context, run *Run) error {
	s := run.capt
	if u.n.Cap == "open" {
		w := &capWriter{run: run, old: ctx.Writer}
		ctx.Writer = w
		s.stack = append(s.stack, w)
		s.c.Count("opened", 1)
		return nil
	}
	w := s.stack[len(s.stack)-1]
	s.stack = s.stack[:len(s.stack)-1]
	if ctx.Writer != any(w) {
		s.c.Fail("the writer that user code put into the context was replaced", u.n.ID)
	}
	ctx.Writer = w.old
	ctx.Write([]byte(use(u.n, w.buf)))
	return ctx.Error
}

// static tells whether no user code takes part in a node
func static(n *Node) bool {
	ok := true
	walkTree(n, func(n *Node) {
		switch n.K {
		case "elem", "void", "coll", "text", "frag", "comment", "pi", "plain", "attr", "battr", "dattr", "doc":
		default:
			ok = false
		}
		for _, v := range n.Vals {
			ok = ok && staticVal(v)
		}
		if n.Fgn != 0 {
			ok = false
		}
	})
	return ok
}

func staticVal(v *Val) bool {
	switch v.K {
	case "fn", "rawfn", "wfn", "anyfn", "noderef", "elemv":
		return false
	}
	for _, sub := range v.Sub {
		if !staticVal(sub) {
			return false
		}
	}
	return true
}

// marked puts pairs of marks around random parts of a new tree
func (c *Case) marked(g *Gen) *Node {
	var slots []*Node // where marks can be, in document order
	var grow func(d int) *Node
	grow = func(d int) *Node {
		n := &Node{K: c.Pick("coll", "elem"), Name: c.Pick("div", "p", "X-Y", "table")}
		for i := c.Range(1, 4); i > 0; i-- {
			slot := &Node{K: "coll"}
			slots = append(slots, slot)
			n.Kids = append(n.Kids, slot)
			if d > 0 && c.Pct(60) {
				n.Kids = append(n.Kids, grow(d-1))
			} else {
				g.budget = max(g.budget, 3)
				n.Kids = append(n.Kids, g.node(2))
			}
		}
		slot := &Node{K: "coll"}
		slots = append(slots, slot)
		n.Kids = append(n.Kids, slot)
		if n.K == "elem" && c.Pct(40) {
			n.Kids = append(n.Kids, &Node{K: "attr", Name: "title", Vals: []*Val{{K: "str", S: "t"}}})
		}
		return n
	}
	root := grow(3)
	open := 0
	for i, slot := range slots {
		for len(slots)-i > open && c.Pct(30) && open < 5 {
			id := g.next()
			slot.Kids = append(slot.Kids, &Node{K: "user", ID: id, Cap: "open"})
			open++
		}
		for open > 0 && (c.Pct(30) || i == len(slots)-1) {
			id := g.next()
			slot.Kids = append(slot.Kids, &Node{K: "user", ID: id, Cap: "close", Use: c.Pick("plain", "upper", "reverse", "length", "twice")})
			open--
		}
	}
	return root
}

// captureFrom is the same for an imperative function; the result ends it
func captureFrom(n *Node, ctx *context.Context, run *Run) func() error {
	s := run.capt
	w := &capWriter{run: run}
	old := ctx.Writer
	ctx.Writer = w
	s.stack = append(s.stack, w)
	s.c.Count("captures_imper", 1)
	return func() error {
		ctx.Writer = old
		s.stack = s.stack[:len(s.stack)-1]
		if ctx.Error != nil {
			if !n.Catch {
				s.c.Count("passed_on", 1)
				return ctx.Error
			}
			ctx.Error = nil
			s.down = false
			s.handled++
			s.c.Count("handled", 1)
			ctx.Write([]byte(fmt.Sprintf("{!%d}", n.ID)))
			return ctx.Error
		}
		if s.down {
			s.c.Fail("an imperative function is not told of an error raised within it", map[string]any{"raised": fmt.Sprint(s.err), "by": n.ID})
		}
		ctx.Write([]byte(use(n, w.buf)))
		return ctx.Error
	}
}

// modelSize ends the case when the output gets too long
func modelSize(tree *Node, run *Run) {
	m := &model{run: run, capt: &captures{dry: true}}
	m.node(tree, &Env{data: run.data, cargo: run.cargo})
}

func runC31(c *Case) {
	cfg := Cfg{Depth: 5, Kids: c.Range(1, 4), Budget: c.Range(4, 40), Attrs: 25, Cond: true, Iter: true, Imper: true, Collect: true, User: true, Dyn: true, DynHeavy: c.Pct(40), Dup: true, Doc: c.Pct(10), Empty: c.Pct(30)}
	g := newGen(c.Rand, cfg)
	tree := g.node(5)
	if c.Pct(40) {
		tree = g.richTree(c)
	}
	marks := c.Pct(8)
	if marks {
		tree = c.marked(g)
	}
	wraps := c.N(6)
	if !marks && c.Pct(40) { // something that may not fit where it is captured
		id := g.next()
		gs := newGen(c.Rand, Cfg{Depth: 3, Kids: 3, Budget: c.Range(2, 12), Attrs: 25, Empty: true})
		part := &Node{K: "user", ID: id, Kids: gs.kids(3, "list")}
		g.userIDs = append(g.userIDs, id)
		tree = &Node{K: c.Pick("coll", "elem"), Name: "div", Kids: []*Node{tree, part}}
		if c.Pct(50) {
			tree.Kids[0], tree.Kids[1] = part, tree.Kids[0]
		}
	}
	for i := 0; i < wraps; i++ {
		tree = g.wrap(tree)
		if c.Pct(75) {
			id := g.next()
			g.userIDs = append(g.userIDs, id)
			tree = &Node{K: "user", ID: id, Kids: []*Node{tree}}
		}
	}
	tree = &Node{K: c.Pick("coll", "elem"), Name: "div", Kids: append([]*Node{tree}, g.kids(3, "list")...)}
	walkTree(tree, func(n *Node) {
		switch n.K {
		case "user":
			if n.Cap == "" && c.Pct(65) {
				n.Cap = c.Pick("swap", "swap", "swap", "copy", "child", "new", "inplace")
				n.Use = c.Pick("plain", "plain", "upper", "reverse", "length", "twice")
				n.Catch = c.Pct(50)
				if n.Cap != "inplace" && !marks && c.Pct(60) {
					ok := true
					for _, k := range n.Kids {
						ok = ok && static(k)
					}
					if ok {
						n.Room = c.Range(1, 60)
					}
				}
			}
		case "imper":
			if l := len(n.Ops); l > 0 && c.Pct(50) {
				n.Cap = "swap"
				n.Use = c.Pick("plain", "plain", "upper", "reverse", "length", "twice")
				n.CapAt[0] = c.N(l)
				n.CapAt[1] = c.Range(n.CapAt[0]+1, l)
				if c.Pct(50) { // elements that are open when something fails are nobody's business
					i := n.CapAt[0]
					if op := n.Ops[i]; op.K == "nodes" || op.K == "str" || op.K == "raw" {
						n.CapAt[1], n.Catch = i+1, true
					}
				}
			}
		}
	})
	node := (&Builder{}).node(tree)
	pre, post := "", ""
	var tmpl *aitch.Template
	if c.Pct(25) {
		pre, post = c.Pick("", "<main>", "a "), c.Pick("", "</main>", " z")
		t, err := aitch.NewTemplate("t", pre+"{{n .}}"+post, aitch.NodeMap{"n": node})
		if err != nil {
			c.Fail("cannot parse a template: " + err.Error())
		}
		tmpl = t
	}
	run := g.newRun(c.Rand)
	for _, id := range g.condIDs {
		if c.Pct(60) {
			run.truth[id] = true
		}
	}
	events := 0
	for i, n := 0, c.Range(2, 4); i < n; i++ {
		if c.Pct(30) {
			run = g.newRun(c.Rand)
		} else {
			run = run.again()
		}
		run.rec = newRec()
		at := map[int]bool{}
		if events > 0 && !marks && c.Pct(75) {
			for j := c.Range(1, 4); j > 0; j-- {
				at[c.N(events)] = true
			}
		}
		modelSize(tree, run)
		run.capt = &captures{c: c, at: at}
		var ctx *context.Context
		var err error
		if tmpl == nil {
			ctx, err = render(node, run)
		} else {
			run.rec.run = run
			err = tmpl.Execute(run.rec.w(), run.data, run.cargo)
			c.Count("in_template", 1)
		}
		c.Eval()
		c.Count("renders", 1)
		events = run.capt.n
		m := &model{run: run, capt: &captures{at: at, obs: run.capt.obs}}
		m.w(pre)
		failed := false
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(modelErr); !ok {
						panic(r)
					}
					failed = true
				}
			}()
			m.node(tree, &Env{data: run.data, cargo: run.cargo})
			m.w(post)
		}()
		bad := func(what string) {
			c.Fail(what, map[string]any{"tree": js(tree), "raising events": fmt.Sprint(at), "error": fmt.Sprint(err), "diff": diff(m.out, run.rec.out), "template": tmpl != nil})
		}
		if failed != (err != nil) {
			bad("an error that was handled is reported, or one that was not is lost")
		}
		if err != nil && !errors.Is(err, run.capt.err) {
			bad("the error reported is not the one that was not handled")
		}
		if !bytes.Equal(m.out, run.rec.out) {
			bad("the output with captured parts is wrong")
		}
		c.sameEvents(tree, m, run)
		if ctx != nil && (ctx.Writer != any(run.rec.w()) || (ctx.Error != nil) != failed || ctx.Parent != nil || mapPtr(ctx.Data) != mapPtr(run.data)) {
			bad("the context is not as it was")
		}
		if run.capt.n > 0 {
			c.NonTrivial(run.rec.out)
		}
		if len(m.out) < 400 && run.capt.handled > 0 {
			c.Sample(func() any {
				return map[string]any{"tree": js(tree), "output": string(run.rec.out), "handled": run.capt.handled}
			})
		}
	}
}

package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"runtime"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/go-andiamo/aitch"
	"github.com/go-andiamo/aitch/context"
)

// C28: renders, constructors and code generation do all their work in the goroutine of their
// caller, before they return.  Every callback and every call of a reader or writer notes the
// goroutine it runs in; those that run elsewhere, or after the call has returned, are violations.
// runtime.Goexit in a callback ends the render (and the goroutine) like a panic nobody recovers.

func init() {
	register(&Prop{ID: "C28", Quick: 16000, Thor: 400000, Run: runC28,
		Rule: "random trees of all node kinds, large and wide ones, long lists and texts, directly and in templates, succeeding and failing; code generation from pieces; each callback, write and read is checked for the goroutine it runs in (the caller's is locked to its thread) and for the call being still active; the number of goroutines is compared afterwards; callbacks that end their goroutine; non-trivial: a render with at least three user calls",
		Min:  map[string]int64{"renders": 20000, "template_renders": 3000, "writes": 300000, "callbacks": 50000, "cond": 5000, "fn": 2000, "iter": 1000, "yield": 1000, "collect": 1000, "imper": 1000, "user": 2000, "foreign_calls": 5000, "value_calls": 3000, "reads": 5000, "generated_writes": 20000, "big_trees": 300, "exits": 1000, "failing": 2000}})
}

// watcher is told of every call of user code.  While a call is watched, its goroutine is locked to
// its thread, so that no other goroutine can run on that thread.
type watcher struct {
	id     int
	active atomic.Bool
	calls  atomic.Int64
	wrong  atomic.Pointer[string]
}

func (w *watcher) start() {
	runtime.LockOSThread()
	w.id = syscall.Gettid()
	w.active.Store(true)
}

func (w *watcher) saw(what string) {
	w.calls.Add(1)
	if !w.active.Load() {
		s := what + " after the call has returned"
		w.wrong.CompareAndSwap(nil, &s)
	} else if id := syscall.Gettid(); id != w.id {
		s := fmt.Sprintf("%s in another goroutine (thread %d, the caller is locked to %d)", what, id, w.id)
		w.wrong.CompareAndSwap(nil, &s)
	}
}

// stop is called when the call has returned; it says what was wrong
func (w *watcher) stop() string {
	w.active.Store(false)
	runtime.UnlockOSThread()
	if s := w.wrong.Load(); s != nil {
		return *s
	}
	return ""
}

// watchedNode is a foreign node whose every method is watched
type watchedNode struct {
	w   **watcher
	typ aitch.NodeType
	n   *int
}

func (x *watchedNode) Render(ctx *context.Context) error {
	*x.n++
	(*x.w).saw("Render of a foreign node")
	if x.typ == aitch.AttributeNode {
		ctx.Write([]byte(" w=1"))
	} else {
		ctx.Write([]byte("w"))
	}
	return ctx.Error
}

func (x *watchedNode) Type() aitch.NodeType {
	*x.n++
	(*x.w).saw("Type of a foreign node")
	return x.typ
}

func (x *watchedNode) Name() string {
	*x.n++
	(*x.w).saw("Name of a foreign node")
	return "w"
}

// watchedValue is a Stringer that is watched
type watchedValue struct {
	w **watcher
	n *int
}

func (v *watchedValue) String() string {
	*v.n++
	(*v.w).saw("String of a value")
	return "v"
}

func runC28(c *Case) {
	c.Eval()
	switch {
	case c.Idx%17 == 5:
		c.generatesHere()
		return
	case c.Idx%9 == 2:
		c.exits()
		return
	}
	goroutines := runtime.NumGoroutine()
	w := &watcher{}
	foreign, values := 0, 0
	check := func(what string, detail ...any) {
		if s := w.stop(); s != "" {
			c.Fail(what+": "+s, detail...)
		}
	}
	cfg := Cfg{Depth: 5, Kids: c.Range(1, 4), Budget: c.Range(5, 60), Attrs: 30, Cond: true, Iter: true, Imper: c.Pct(60), Collect: c.Pct(60), User: c.Pct(60), Dyn: true, Dup: true, Nil: c.Pct(20), Doc: c.Pct(20), Named: true, Empty: true}
	g := newGen(c.Rand, cfg)
	var tree *Node
	big := c.Idx%41 == 1
	switch {
	case big && c.Pct(50):
		tree = &Node{K: "coll", Kids: []*Node{bigTree(c), g.richTree(c)}}
		c.Count("big_trees", 1)
	case big: // many equal parts with callbacks in them
		part := &Node{K: "elem", Name: "p", Via: 1, Kids: []*Node{g.node(3), g.node(3), {K: "cond", ID: g.next(), Kids: []*Node{g.attr(), g.node(2)}}}}
		g.condIDs = append(g.condIDs, part.Kids[2].ID)
		tree = &Node{K: c.Pick("coll", "elem", "collect", "cond"), Name: "div", Via: 1, ID: g.next()}
		g.condIDs = append(g.condIDs, tree.ID)
		g.colIDs = append(g.colIDs, tree.ID)
		for i := c.Range(20, 400); i > 0; i-- {
			tree.Kids = append(tree.Kids, part)
		}
		c.Count("big_trees", 1)
	default:
		tree = g.richTree(c)
	}
	// construction
	w.start()
	fn := func() any { values++; w.saw("a function value"); return "x" }
	var node aitch.Node
	var s *subject
	extra := aitch.NewElement([]byte("x"), &watchedNode{&w, aitch.AttributeNode, &foreign}, &watchedNode{&w, aitch.ElementNode, &foreign}, fn, &watchedValue{&w, &values},
		aitch.Attribute("a", &watchedValue{&w, &values}, aitch.DynamicValueKey("watched")), aitch.When("yes", &watchedNode{&w, aitch.AttributeNode, &foreign}, &watchedNode{&w, aitch.ElementNode, &foreign}),
		aitch.IterateKey("watchedList", &watchedNode{&w, aitch.ElementNode, &foreign}, aitch.Text(aitch.DynamicValueKey("."))), aitch.DynamicValueKey("watchedFn"))
	node = aitch.Collection((&Builder{}).node(tree), extra, &watchedNode{&w, aitch.ElementNode, &foreign})
	s = c.newSubject(node, 25)
	check("a constructor")
	for i := c.Range(1, 4); i > 0; i-- {
		w2 := &watcher{}
		w = w2
		run := g.newRun(c.Rand)
		if run.data != nil {
			run.needData()
			run.data["watched"], run.data["watchedFn"], run.data["yes"] = &watchedValue{&w, &values}, fn, true
			list := []any{}
			for j := c.listLen(); j > 0; j-- {
				list = append(list, &watchedValue{&w, &values}, fn)
			}
			if len(list) > 100 {
				list = list[:100]
			}
			run.data["watchedList"] = list
		}
		run.rec = newRec()
		run.rec.yield = func() { w2.saw("a write") }
		events := map[string]int{}
		run.hook = func(kind string, id int, ctx *context.Context) {
			events[kind]++
			w2.saw("the callback of a " + kind)
		}
		if c.Pct(15) {
			run.rec.failAt, run.rec.failErr, run.rec.perm = c.N(60), errors.New("failing"), c.Pct(50)
			c.Count("failing", 1)
		}
		w2.start()
		if _, err := s.render(run); err != nil && run.rec.failAt < 0 {
			c.Fail("render reports an error", err.Error())
		}
		c.Count("renders", 1)
		if s.tmpl != nil {
			c.Count("template_renders", 1)
		}
		check("a render", js(tree))
		c.Count("writes", run.rec.writes)
		for k, n := range events {
			c.Count(k, n)
			c.Count("callbacks", n)
		}
		if w2.calls.Load() > 3 {
			c.NonTrivial(run.rec.out, fmt.Sprint(events))
		}
	}
	c.Count("foreign_calls", foreign)
	c.Count("value_calls", values)
	c.leftover(goroutines)
	runtime.KeepAlive(node)
}

// leftover waits for goroutines that were started meanwhile to end
func (c *Case) leftover(before int) {
	for i := 0; runtime.NumGoroutine() > before; i++ {
		if i > 40 {
			buf := make([]byte, 1<<16)
			c.Fail("goroutines are left over", map[string]any{"before": before, "now": runtime.NumGoroutine(), "stacks": string(buf[:runtime.Stack(buf, true)])})
		}
		time.Sleep(5 * time.Millisecond)
	}
}

type watchedReader struct {
	r io.Reader
	w *watcher
	n int
}

func (r *watchedReader) Read(b []byte) (int, error) {
	r.n++
	r.w.saw("a read")
	return r.r.Read(b)
}

type watchedWriter struct {
	w      *watcher
	n      int
	failAt int
	panics bool
}

func (x *watchedWriter) Write(b []byte) (int, error) {
	x.n++
	x.w.saw("a write")
	if x.n == x.failAt {
		if x.panics {
			panic("stop")
		}
		return 0, errors.New("failing")
	}
	return len(b), nil
}

// generatesHere checks code generation
func (c *Case) generatesHere() {
	before := runtime.NumGoroutine()
	for i := 0; i < 3; i++ {
		kind := c.Pick("html", "svg")
		text := c.serialise(c.document(kind), kind)
		if c.Pct(20) {
			text = bytes.Repeat(text, c.Range(2, 200))
		}
		src := &pieceReader{data: text, r: c.Fork(), max: 1 + c.N(1000), zero: c.N(20), failAt: -1}
		if c.Pct(20) {
			src.failAt, src.err = c.N(len(text)+1), errors.New("failing")
		}
		w := &watcher{}
		out := &watchedWriter{w: w}
		if c.Pct(30) {
			out.failAt, out.panics = 1+c.N(40), c.Pct(30)
		}
		in := &watchedReader{r: src, w: w}
		w.start()
		catch(func() { _ = genCode[kind](in, out) })
		if s := w.stop(); s != "" {
			c.Fail("code generation: "+s, string(text))
		}
		c.Count("reads", in.n)
		c.Count("generated_writes", out.n)
		c.NonTrivial(text, in.n, out.n)
	}
	c.leftover(before)
}

// exits lets callbacks (or writes) end the goroutine that renders
func (c *Case) exits() {
	before := runtime.NumGoroutine()
	cfg := Cfg{Depth: 4, Kids: c.Range(1, 4), Budget: c.Range(5, 40), Attrs: 30, Cond: true, Iter: true, Imper: c.Pct(60), Collect: c.Pct(60), User: c.Pct(60), Dyn: true, Dup: true, Doc: c.Pct(20), Named: true, Empty: true}
	g := newGen(c.Rand, cfg)
	tree := g.richTree(c)
	s := c.newSubject((&Builder{}).node(tree), 25)
	for i := 0; i < 4; i++ {
		run := g.newRun(c.Rand)
		m := s.model(tree, run)
		if len(m.ev) == 0 && len(m.out) == 0 {
			continue
		}
		run.rec = newRec()
		k, at, stop := 0, -1, -1
		if len(m.ev) > 0 && c.Pct(80) {
			at = c.N(len(m.ev))
		} else {
			stop = c.N(10)
		}
		var atExit int
		exited := false
		leave := func() {
			atExit, exited = len(run.rec.out), true
			runtime.Goexit()
		}
		run.hook = func(kind string, id int, ctx *context.Context) {
			if exited {
				panic(&violation{What: "a callback is called after one has ended the goroutine"})
			}
			if k++; k-1 == at {
				leave()
			}
		}
		writes := 0
		run.rec.yield = func() {
			if exited {
				panic(&violation{What: "something is written after a callback has ended the goroutine"})
			}
			if writes++; writes-1 == stop {
				leave()
			}
		}
		done := make(chan any, 1)
		returned := false
		go func() {
			defer func() { done <- recover() }()
			_, _ = s.render(run)
			returned = true
		}()
		select {
		case r := <-done:
			if r != nil {
				if v, ok := r.(*violation); ok {
					panic(v)
				}
				c.Fail("a render panics when a callback ends the goroutine", fmt.Sprint(r))
			}
		case <-time.After(20 * time.Second):
			c.Fail("a render hangs when a callback ends the goroutine", js(tree))
		}
		run.hook, run.rec.yield = nil, nil
		if exited == returned {
			c.Fail("a render goes on although a callback has ended the goroutine", js(tree))
		}
		if exited {
			c.Count("exits", 1)
			if len(run.rec.out) != atExit || !bytes.HasPrefix(m.out, run.rec.out) {
				c.Fail("what was written before a callback ended the goroutine is wrong", map[string]any{"tree": js(tree), "diff": diff(m.out, run.rec.out)})
			}
		}
		// nothing is left behind
		again := g.newRun(c.Rand)
		m = s.model(tree, again)
		if _, err := s.render(again); err != nil || !bytes.Equal(again.rec.out, m.out) {
			c.Fail("a render after one in which a callback ended the goroutine is wrong", map[string]any{"tree": js(tree), "diff": diff(m.out, again.rec.out)})
		}
		c.NonTrivial(run.rec.out, again.rec.out)
	}
	c.leftover(before)
}

package main

import (
	"bytes"
	"errors"
	"fmt"

	"github.com/go-andiamo/aitch"
	"github.com/go-andiamo/aitch/context"
)

// Trees rendered recursively: while an item is rendered, user code yields further items

type walkItem struct {
	name  string
	kids  []*walkItem
	value any    // what is yielded: the item itself or a map
	fail  string // "", "store", "panic"
	late  bool   // fails after its contents rather than before them
	catch bool   // recovers when one of its contents panics
}

func (w *walkItem) String() string { return w.name }

type walk struct {
	root  *context.Context
	yield func(any)
	stack []*walkItem
	log   []string
	err   error
	note  func(ctx *context.Context)
}

var errWalk = errors.New("cannot walk on")

func (w *walk) top() *walkItem { return w.stack[len(w.stack)-1] }

// visit yields the contents of the item that is being rendered
func (w *walk) visit(ctx *context.Context) {
	at := w.top()
	for _, k := range at.kids {
		w.into(at, k, func() { w.yield(k.value) })
	}
}

func (w *walk) into(at, k *walkItem, f func()) {
	depth := len(w.stack)
	w.stack = append(w.stack, k)
	defer func() {
		w.stack = w.stack[:depth]
		if at != nil && at.catch {
			if p := recover(); p != nil && p != any(errWalk) {
				panic(p)
			} else if p != nil {
				w.log = append(w.log, "caught in "+at.name)
			}
		}
	}()
	f()
}

func (w *walk) probe(ctx *context.Context, late bool) []byte {
	it := w.top()
	w.log = append(w.log, it.name)
	w.note(ctx)
	if it.late == late {
		switch it.fail {
		case "store":
			if ctx.Error == nil {
				ctx.Error = errWalk
			}
		case "panic":
			panic(errWalk)
		}
	}
	return []byte(it.name)
}

// walkUser is a node of the user that visits
type walkUser struct{ w **walk }

func (u *walkUser) Render(ctx *context.Context) error {
	(*u.w).visit(ctx)
	return ctx.Error
}
func (u *walkUser) Type() aitch.NodeType { return aitch.ElementNode }
func (u *walkUser) Name() string         { return "walk" }

func (c *Case) walkTree(depth int, n *int) *walkItem {
	*n++
	it := &walkItem{name: fmt.Sprintf("i%d", *n)}
	if c.Pct(40) {
		it.value = map[string]any{"n": it.name + "n", "item": it}
	} else {
		it.value = it
	}
	it.catch = c.Pct(30)
	if depth > 0 {
		for i := c.few(4); i > 0 && *n < 40; i-- {
			it.kids = append(it.kids, c.walkTree(depth-1, n))
		}
	}
	return it
}

// yieldWithin renders random trees of items with one yield iteration
func (c *Case) yieldWithin() {
	n := 0
	roots := make([]*walkItem, c.Range(1, 4))
	var all []*walkItem
	var collect func(it *walkItem)
	collect = func(it *walkItem) {
		all = append(all, it)
		for _, k := range it.kids {
			collect(k)
		}
	}
	for i := range roots {
		roots[i] = c.walkTree(c.Range(1, 5), &n)
		collect(roots[i])
	}
	for i := c.N(3); i > 0; i-- {
		it := all[c.N(len(all))]
		it.fail, it.late = c.Pick("store", "panic", "panic"), c.Pct(50)
	}
	how := c.Pick("imper", "user", "fn", "collect")
	outer := map[string]any{"n": "outer"}
	cargo := &walkItem{name: "cargo"}
	var w *walk
	var visitor any
	switch how {
	case "imper":
		visitor = aitch.Imperative(func(ic aitch.ImperativeContext) error {
			w.visit(ic.Context())
			return nil
		})
	case "user":
		visitor = &walkUser{&w}
	case "fn":
		visitor = aitch.Fragment(func(ctx *context.Context) []byte {
			w.visit(ctx)
			return nil
		})
	default:
		visitor = aitch.ContentCollect(func(ctx *context.Context) []aitch.Node {
			w.visit(ctx)
			return nil
		})
	}
	first := aitch.DynamicValueFunc(func(ctx *context.Context) []byte { return w.probe(ctx, false) })
	last := aitch.DynamicValueFunc(func(ctx *context.Context) []byte { return w.probe(ctx, true) })
	dot, key := aitch.DynamicValueKey("."), aitch.DynamicValueKey("n")
	node := aitch.Element("ul", aitch.IterateYield(func(ctx *context.Context, yield func(any)) {
		w.root, w.yield = ctx, yield
		for _, r := range roots {
			w.into(nil, r, func() { yield(r.value) })
		}
	}, aitch.Element("li", aitch.Text(first), aitch.Text(dot), aitch.Text(key), aitch.Element("p", visitor), aitch.Text(dot), aitch.Text(key), aitch.Text(last))),
		aitch.Text(dot), aitch.Text(key))

	// what is expected, by recursion over the items
	model := &walk{note: func(*context.Context) {}}
	var out bytes.Buffer
	var show func(it *walkItem)
	say := func(it *walkItem, late bool) {
		if model.err == nil {
			ctx := &context.Context{}
			b := model.probe(ctx, late)
			if model.err = ctx.Error; model.err == nil {
				out.Write(b)
			}
		}
	}
	put := func(s string) {
		if model.err == nil {
			out.WriteString(s)
		}
	}
	show = func(it *walkItem) {
		if model.err != nil {
			return
		}
		own := it.name + "outer"
		if _, ok := it.value.(map[string]any); ok {
			own = it.name + "n"
		}
		put("<li>")
		say(it, false)
		put(own + "<p>")
		if model.err == nil {
			for _, k := range it.kids {
				model.into(it, k, func() { show(k) })
			}
		}
		put("</p>" + own)
		say(it, true)
		put("</li>")
	}
	put("<ul>")
	wantPanic := catch(func() {
		for _, r := range roots {
			model.into(nil, r, func() { show(r) })
		}
	})
	if wantPanic == nil {
		put("cargoouter</ul>")
	}

	for i := c.Range(1, 2); i > 0; i-- {
		var got bytes.Buffer
		ctx := context.New(&got, outer, cargo)
		w = &walk{}
		w.note = func(at *context.Context) {
			it := w.top()
			if at.Parent != w.root || w.root != ctx {
				c.Fail("the parent of an item yielded while another one is rendered is not the surrounding context", it.name)
			}
			if !sameAny(at.Cargo, it.value) {
				c.Fail("an item does not keep its cargo when others are yielded while it is rendered", map[string]any{"item": it.name, "cargo": fmt.Sprint(at.Cargo), "visited by": how, "log": w.log})
			}
			data := outer
			if m, ok := it.value.(map[string]any); ok {
				data = m
			}
			if mapPtr(at.Data) != mapPtr(data) {
				c.Fail("an item does not keep its data when others are yielded while it is rendered", map[string]any{"item": it.name, "data": dump(at.Data), "visited by": how})
			}
		}
		var err error
		p := catch(func() { err = node.Render(ctx) })
		c.Count("yields_within", n)
		if p != wantPanic {
			c.Fail("a panic within a yielded item does not reach the caller as it is", fmt.Sprint(p), fmt.Sprint(wantPanic))
		}
		if p == nil && err != model.err {
			c.Fail("the error within a yielded item is not what the render returns", fmt.Sprint(err), fmt.Sprint(model.err))
		}
		if !bytes.Equal(got.Bytes(), out.Bytes()) {
			c.Fail("output is wrong where items are yielded while another one is rendered", map[string]any{"diff": diff(out.Bytes(), got.Bytes()), "visited by": how})
		}
		if fmt.Sprint(w.log) != fmt.Sprint(model.log) {
			c.Fail("user functions are called in another order where items are yielded while another one is rendered", fmt.Sprint(w.log), fmt.Sprint(model.log))
		}
		if ctx.Parent != nil || mapPtr(ctx.Data) != mapPtr(outer) || !sameAny(ctx.Cargo, cargo) {
			c.Fail("the surrounding context was changed by an iteration", how)
		}
	}
}

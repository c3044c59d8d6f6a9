package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"runtime"
	"sort"
	"strings"
	"unsafe"
	"weak"

	"github.com/go-andiamo/aitch"
	"github.com/go-andiamo/aitch/context"
	"github.com/go-andiamo/aitch/css"
	"github.com/go-andiamo/aitch/html"
	"github.com/go-andiamo/aitch/htmx"
)

// C27: nothing given to a render is kept once it is over.  Everything that is handed over - data,
// cargo, items, writers, results of callbacks, nodes and names made while rendering, errors and
// panic values - is watched by weak pointers, while the node, the template (and sometimes the
// caller's context) stay alive.  After a garbage collection all of it must be gone.

func init() {
	register(&Prop{ID: "C27", Quick: 8000, Thor: 200000, Run: runC27,
		Rule: "random trees of all node kinds (and trees whose callbacks make new values, nodes, names and items in every call), directly and in templates, rendered several times each with success, a failing write, a failing callback, a panic; some with one context for all renders; weak pointers to all that was handed over must be nil after a garbage collection while the nodes and templates are still in use; the heap must not grow over thousands of renders; non-trivial: one render after which everything was collected",
		Min:  map[string]int64{"renders": 10000, "failed_renders": 1000, "panicking_renders": 1000, "template_renders": 2000, "renders_in_a_kept_context": 1000, "watched": 200000, "watched_data": 10000, "watched_item": 10000, "watched_result": 10000, "watched_node": 5000, "watched_name": 2000, "watched_error": 1000, "watched_panic": 300, "watched_writer": 5000, "built_and_dropped": 2000, "generations": 500, "heap_measurements": 10}})
}

// token is something to watch: it is large enough to be allocated on its own
type keepsake struct {
	_    [6]uint64
	self *keepsake
}

func (t *keepsake) String() string { return "<token>" }

type pin struct {
	what string
	dead func() bool
}

// pins are the things that are being watched
type pins struct {
	list []pin
	kept bool // the context (with its data, cargo and writer) is kept by the caller
}

func watch[T any](p *pins, what string, v *T) *T {
	if v == nil {
		return nil
	}
	w := weak.Make(v)
	p.list = append(p.list, pin{what, func() bool { return w.Value() == nil }})
	return v
}

func (p *pins) token(what string) *keepsake {
	t := &keepsake{}
	t.self = t
	return watch(p, what, t)
}

// str makes a string of its own
func (p *pins) str(what string, i int) string {
	s := strings.Clone(fmt.Sprintf("<%s %d>&%s", what, i, strings.Repeat("x", 64+i%9)))
	watch(p, what, unsafe.StringData(s))
	return s
}

func (p *pins) bytes(what string, i int) []byte {
	b := make([]byte, 64, 80)
	copy(b, fmt.Sprintf("%s-%d", what, i))
	for j := range b {
		if b[j] == 0 {
			b[j] = 'x'
		}
	}
	watch(p, what, &b[0])
	return b
}

// alive returns what is still referenced after garbage collections
func (p *pins) alive() (result []string) {
	for i := 0; i < 5; i++ {
		runtime.GC()
		result = result[:0]
		for _, x := range p.list {
			if !x.dead() {
				result = append(result, x.what)
			}
		}
		if len(result) == 0 {
			return nil
		}
	}
	count := map[string]int{}
	for _, w := range result {
		count[w]++
	}
	result = nil
	for w, n := range count {
		result = append(result, fmt.Sprintf("%d x %s", n, w))
	}
	sort.Strings(result)
	return result
}

// apart runs f in a goroutine of its own, so that nothing of it is left on the stack
func apart(f func()) {
	done := make(chan any, 1)
	go func() {
		defer func() { done <- recover() }()
		f()
	}()
	if r := <-done; r != nil {
		panic(r)
	}
}

// ---- trees that make everything anew in every call -------------------------------------------------

// maker is the writer of a render, and makes everything that its callbacks hand over
type maker struct {
	*pins
	r       *Rand
	n       int
	failAt  int // index of the write that fails
	writes  int
	calls   int
	panicAt int
	errAt   int
	budget  int
}

func (m *maker) Write(p []byte) (int, error) {
	m.writes++
	if m.writes == m.failAt {
		return 0, m.err("error")
	}
	return len(p), nil
}

type ownErr struct{ t *keepsake }

func (e *ownErr) Error() string { return "own error" }

func (m *maker) err(what string) error {
	e := &ownErr{m.token(what)}
	watch(m.pins, what, e)
	return e
}

func makerOf(ctx *context.Context) *maker {
	m, ok := ctx.Writer.(*maker)
	if !ok {
		panic(&violation{What: fmt.Sprintf("the writer of a context in a callback is not that of the render, but a %T", ctx.Writer)})
	}
	return m
}

// call is part of every callback
func (m *maker) call() int {
	m.calls++
	m.n++
	if m.calls == m.panicAt {
		if m.r.Pct(50) {
			panic(m.token("panic"))
		}
		panic(m.err("panic"))
	}
	return m.n
}

// fails tells whether a callback is to return an error
func (m *maker) fails() error {
	if m.calls == m.errAt {
		return m.err("error")
	}
	return nil
}

// data makes a map with values of all kinds
func (m *maker) data(what string, depth int) map[string]any {
	i := m.n
	d := map[string]any{
		"tok": m.token(what), "str": m.str(what, i), "bytes": m.bytes(what, i), "stringer": m.token(what), "n": i, "yes": true, "no": false,
		"texts": []string{m.str(what, i), m.str(what, i+1)}, "toks": []*keepsake{m.token(what), m.token(what)},
	}
	t := m.token(what)
	d["fn"] = func() any { runtime.KeepAlive(t); return m.str("result", m.n) }
	items := []any{m.token(what), m.str(what, i), m.bytes(what, i), nil, i}
	watch(m.pins, what, &items[0])
	if depth > 0 {
		items = append(items, m.data("item", depth-1), m.data("item", depth-1))
		d["maps"] = []map[string]any{m.data("item", depth-1), m.data("item", depth-1), nil}
	}
	d["items"] = items
	return d
}

// pinNode is a user's node made of a token
type pinNode struct {
	t    *keepsake
	kids []aitch.Node
	typ  aitch.NodeType
}

func (u *pinNode) Render(ctx *context.Context) error {
	m := makerOf(ctx)
	m.call()
	if err := m.fails(); err != nil {
		return err
	}
	if u.typ == aitch.AttributeNode {
		ctx.Write([]byte(` u="1"`))
		return nil
	}
	for _, k := range u.kids {
		if err := k.Render(ctx); err != nil {
			return err
		}
	}
	return nil
}
func (u *pinNode) Type() aitch.NodeType { return u.typ }
func (u *pinNode) Name() string         { return "u" }

// some makes a few new nodes, which are made of new things
func (m *maker) some(typ aitch.NodeType) (nodes []aitch.Node) {
	for i := m.r.N(4); i > 0; i-- {
		t := m.token("node")
		dyn := func(ctx *context.Context) []byte {
			runtime.KeepAlive(t)
			m := makerOf(ctx)
			return m.bytes("result", m.call())
		}
		switch m.r.N(6) {
		case 0:
			nodes = append(nodes, watch(m.pins, "node", &pinNode{t: t, typ: typ}))
		case 1:
			nodes = append(nodes, aitch.Attribute("a", m.str("node", i), dyn))
		case 2:
			nodes = append(nodes, aitch.DelimitedAttribute("class", " ", m.bytes("node", i), dyn))
		case 3:
			nodes = append(nodes, nil)
		default:
			if typ == aitch.AttributeNode {
				nodes = append(nodes, html.Title(dyn))
				continue
			}
			b := m.r.N(7)
			nodes = append(nodes, freshTree(m.pins, m.r, "node", 2, &b))
		}
	}
	if len(nodes) > 0 {
		watch(m.pins, "node", &nodes[0])
	}
	return nodes
}

// freshTree builds a tree; what is watched in it are the things it is made of.  While rendering, it
// makes more of them.  The tree itself must not refer to any maker.
func freshTree(p *pins, r *Rand, what string, depth int, budget *int) aitch.Node {
	n := r.N(4)
	var kids []aitch.Node
	*budget--
	for i := 0; i < n && depth > 0 && *budget > 0; i++ {
		kids = append(kids, freshTree(p, r, what, depth-1, budget))
	}
	value := func() any {
		switch r.N(12) {
		case 0:
			return aitch.DynamicValueKey(r.Pick("str", "bytes", "stringer", "fn", "tok", "n", "missing", "."))
		case 1:
			return func(ctx *context.Context) []byte { m := makerOf(ctx); return m.bytes("result", m.call()) }
		case 2:
			return aitch.DynamicValueFunc(func(ctx *context.Context) []byte { m := makerOf(ctx); return m.bytes("result", m.call()) })
		case 3:
			return p.str(what, r.N(100))
		case 4:
			return p.bytes(what, r.N(100))
		case 5:
			return p.token(what)
		case 6:
			t := p.token(what)
			return func() any { runtime.KeepAlive(t); return 1 }
		case 7:
			return aitch.NewConcatValue(p.str(what, 1), aitch.DynamicValueKey("str"), p.bytes(what, 2))
		case 8:
			return aitch.NewValue(aitch.DynamicValueKey("bytes"))
		case 9:
			return css.Px(aitch.DynamicValueKey("n"))
		default:
			return aitch.DynamicValueKey(r.Pick("str", "bytes", "stringer", "fn", "n"))
		}
	}
	attrs := func() (result []any) {
		for i := r.N(4); i > 0; i-- {
			switch r.N(8) {
			case 0:
				result = append(result, aitch.NewAttribute(p.bytes(what, 3), value()))
			case 1:
				result = append(result, aitch.DelimitedAttribute("class", " ", value(), value()))
			case 2:
				result = append(result, aitch.When(aitch.DynamicValueKey(r.Pick("yes", "no", "!no")), html.Class(value()), html.Id(value())))
			case 3:
				result = append(result, html.Style(css.Color(value()), css.Margin(value())))
			case 4:
				result = append(result, &pinNode{t: p.token(what), typ: aitch.AttributeNode})
			case 5:
				result = append(result, htmx.Headers(htmx.HeadersMap{p.str(what, 1): value(), "X": value()}))
			case 6:
				result = append(result, aitch.Conditional(func(ctx *context.Context) bool { return makerOf(ctx).call()%2 == 0 }, html.Title(value())))
			default:
				result = append(result, aitch.Attribute("title", value(), value()))
			}
		}
		return result
	}
	switch r.N(14) {
	case 0, 1:
		args := attrs()
		for _, k := range kids {
			args = append(args, k)
		}
		return aitch.Element(r.Pick("div", "p", "span"), append(args, value())...)
	case 2:
		return aitch.VoidElement("br", attrs()...)
	case 3:
		return aitch.Collection(kids...)
	case 4:
		t := p.token(what)
		return aitch.Conditional(func(ctx *context.Context) bool { runtime.KeepAlive(t); return makerOf(ctx).call()%5 != 0 }, kids...)
	case 5:
		return aitch.When(aitch.DynamicValueKey(r.Pick("yes", "!no", "no")), kids...)
	case 6:
		return aitch.Iterate(func(ctx *context.Context) []any {
			m := makerOf(ctx)
			m.call()
			if m.budget--; m.budget < 0 {
				return nil
			}
			items := []any{m.token("item"), m.str("item", m.n), m.data("item", 0), nil, m.bytes("item", m.n)}
			return items[:m.r.N(len(items)+1)]
		}, kids...)
	case 7:
		return aitch.IterateKey(r.Pick("items", "texts", "toks", "maps", "missing", "bytes"), kids...)
	case 8:
		return aitch.IterateYield(func(ctx *context.Context, yield func(any)) {
			m := makerOf(ctx)
			m.call()
			if m.budget--; m.budget < 0 {
				return
			}
			for i := m.r.N(4); i > 0; i-- {
				yield([]any{m.token("item"), m.str("item", i), m.data("item", 0), nil}[m.r.N(4)])
			}
			if err := m.fails(); err != nil && ctx.Error == nil {
				ctx.Error = err
			}
		}, kids...)
	case 9:
		return aitch.ContentCollect(func(ctx *context.Context) []aitch.Node {
			m := makerOf(ctx)
			m.call()
			if m.budget--; m.budget < 0 {
				return nil
			}
			return m.some(aitch.ElementNode)
		})
	case 10:
		return aitch.Imperative(func(ic aitch.ImperativeContext) error {
			m := makerOf(ic.Context())
			m.call()
			if m.budget--; m.budget < 0 {
				return nil
			}
			t := m.token("node")
			_ = t
			for i := m.r.N(6); i > 0; i-- {
				switch m.r.N(6) {
				case 0, 1:
					ic.Start(m.bytes("name", i), m.r.Pct(30), m.some(aitch.AttributeNode)...)
				case 2:
					ic.WriteString(m.str("name", i))
				case 3:
					ic.WriteRaw(m.bytes("name", i))
				case 4:
					ic.WriteNodes(m.some(aitch.ElementNode)...)
				default:
					ic.End()
				}
			}
			return m.fails()
		})
	case 11:
		return &pinNode{t: p.token(what), kids: kids, typ: aitch.ElementNode}
	case 12:
		return []func(...any) aitch.Node{aitch.Comment, aitch.Fragment, aitch.Text}[r.N(3)](value(), value())
	default:
		return html.Document("en", attrs(), append(kidsAny(kids), attrs()...))
	}
}

func kidsAny(kids []aitch.Node) (result []any) {
	for _, k := range kids {
		result = append(result, k)
	}
	return result
}

// outcome is how a render ended
type outcome struct {
	failed, panicked bool
	what             string
	writes, calls    int
}

func runC27(c *Case) {
	switch {
	case c.Idx%401 == 9:
		c.heapGrowth()
		return
	case c.Idx%9 == 3:
		c.dropped()
		return
	case c.Idx%7 < 2:
		c.retainTree()
		return
	}
	p := &pins{}
	c.Eval()
	var node aitch.Node
	var tmpl *aitch.Template
	var kept *context.Context
	var keep *maker
	asTmpl := c.Pct(30)
	own := &pins{} // what the node itself is made of stays alive, of course
	apart(func() {
		b := c.Range(5, 40)
		node = aitch.Collection(freshTree(own, c.Rand, "static", 4, &b), freshTree(own, c.Rand, "static", 4, &b), freshTree(own, c.Rand, "static", 3, &b))
		if asTmpl {
			t, err := aitch.NewTemplate("t", "<a>{{n .}}</a>{{n .}}", aitch.NodeMap{"n": node})
			if err != nil {
				panic(&violation{What: "cannot parse a template: " + err.Error()})
			}
			tmpl = t
		}
		if !asTmpl && c.Pct(40) { // one context for all the renders, kept by the caller
			quiet := &pins{}
			keep = &maker{pins: quiet, r: c.Fork(), failAt: -1, panicAt: -1, errAt: -1, budget: 40}
			kept = context.New(keep, keep.data("data", 1), keep.token("cargo"))
			p.kept = true
		}
	})
	writes, calls := 8, 8
	var outs []outcome
	n := c.Range(3, 12)
	for i := 0; i < n; i++ {
		var o outcome
		apart(func() {
			m := keep
			if m == nil {
				m = &maker{}
			}
			m.r, m.failAt, m.panicAt, m.errAt, m.budget, m.writes, m.calls = c.Fork(), -1, -1, -1, 40, 0, 0
			m.pins = p
			switch c.N(6) {
			case 0:
				m.failAt, o.what = 1+c.N(writes), "failing write"
			case 1:
				m.panicAt, o.what = 1+c.N(calls), "panic"
			case 2:
				m.errAt, o.what = 1+c.N(calls), "failing callback"
			}
			var err error
			r := catch(func() {
				switch {
				case kept != nil:
					err = node.Render(kept)
				case tmpl != nil:
					watch(p, "writer", m)
					err = tmpl.Execute(m, m.data("data", 1), m.token("cargo"))
				default:
					watch(p, "writer", m)
					err = node.Render(context.New(m, m.data("data", 1), m.token("cargo")))
				}
			})
			o.failed, o.panicked = err != nil, r != nil
			o.writes, o.calls = m.writes, m.calls
			if kept != nil {
				if kept.Error != nil { // the caller's to clear
					kept.Error = nil
				}
				m.pins, m.r = &pins{}, nil
			}
		})
		writes, calls = max(writes, o.writes), max(calls, o.calls)
		outs = append(outs, o)
		c.Count("renders", 1)
		if o.failed {
			c.Count("failed_renders", 1)
		}
		if o.panicked || tmpl != nil && o.what == "panic" && o.failed {
			c.Count("panicking_renders", 1)
		}
		if tmpl != nil {
			c.Count("template_renders", 1)
		}
		if kept != nil {
			c.Count("renders_in_a_kept_context", 1)
		}
	}
	for _, x := range p.list {
		c.Count("watched_"+x.what, 1)
	}
	c.Count("watched", len(p.list))
	left := p.alive()
	if left != nil {
		c.Fail("things that were handed over in renders are still referenced after them", map[string]any{"left": left, "renders": fmt.Sprint(outs), "template": tmpl != nil, "context kept": kept != nil})
	}
	c.NonTrivial(c.Idx, len(p.list), fmt.Sprint(outs))
	runtime.KeepAlive(node)
	runtime.KeepAlive(tmpl)
	runtime.KeepAlive(kept)
}

// retainTree does the same with the trees of all the other monitors
func (c *Case) retainTree() {
	c.Eval()
	cfg := Cfg{Depth: 4, Kids: c.Range(1, 4), Budget: c.Range(5, 40), Attrs: 30, Cond: true, Iter: true, Imper: c.Pct(60), Collect: c.Pct(60), User: c.Pct(50), Dyn: true, Dup: true, Nil: c.Pct(20), Doc: c.Pct(20), Named: true, Empty: true}
	g := newGen(c.Rand, cfg)
	var s *subject
	var tree *Node
	apart(func() {
		tree = g.richTree(c)
		s = c.newSubject((&Builder{}).node(tree), 30)
	})
	p := &pins{}
	n := c.Range(2, 8)
	writes, calls := 10, 4
	for i := 0; i < n; i++ {
		apart(func() {
			run := g.newRun(c.Rand)
			for _, k := range []string{"cargo", "data"} {
				run.needData()
				run.data["$"+k] = p.token(k)
			}
			if run.cargo == nil || c.Pct(50) {
				run.cargo = p.token("cargo")
			}
			run.rec = newRec()
			watch(p, "data", run)
			watch(p, "writer", run.rec)
			for id, l := range run.lists {
				if len(l) > 0 && c.Pct(50) {
					run.lists[id] = append(append([]any{}, l...), p.token("item"))
				}
			}
			stop, k := -1, 0
			switch c.N(5) {
			case 0:
				e := &ownErr{p.token("error")}
				run.rec.failAt, run.rec.failErr, run.rec.perm = c.N(writes), watch(p, "error", e), c.Pct(50)
			case 1:
				stop = c.N(calls)
			}
			run.hook = func(kind string, id int, ctx *context.Context) {
				if k == stop {
					k++
					panic(p.token("panic"))
				}
				k++
			}
			var err error
			var ctx *context.Context
			r := catch(func() { ctx, err = s.render(run) })
			_ = ctx
			writes, calls = max(writes, run.rec.writes), max(calls, k)
			c.Count("renders", 1)
			if r != nil || s.tmpl != nil && stop >= 0 && k > stop {
				c.Count("panicking_renders", 1)
			}
			if err != nil {
				c.Count("failed_renders", 1)
			}
			if s.tmpl != nil {
				c.Count("template_renders", 1)
			}
		})
	}
	for _, x := range p.list {
		c.Count("watched_"+x.what, 1)
	}
	c.Count("watched", len(p.list))
	if left := p.alive(); left != nil {
		c.Fail("things that were handed over in renders are still referenced after them", map[string]any{"left": left, "tree": js(tree), "template": s.tmpl != nil})
	}
	c.NonTrivial("tree", c.Idx, len(p.list))
	runtime.KeepAlive(s)
}

// dropped builds nodes, templates and code, and drops them again
func (c *Case) dropped() {
	c.Eval()
	p := &pins{}
	for i := c.Range(2, 8); i > 0; i-- {
		apart(func() {
			b := c.Range(3, 30)
			node := aitch.Collection(watch(p, "static", &pinNode{t: p.token("static"), typ: aitch.ElementNode}), freshTree(p, c.Rand, "static", 4, &b))
			m := &maker{pins: p, r: c.Fork(), failAt: -1, panicAt: -1, errAt: -1, budget: 20}
			watch(p, "writer", m)
			how := c.N(6)
			if how == 5 {
				m.failAt = 1 + c.N(6)
			}
			catch(func() {
				if how < 3 {
					text := "<x>{{n .}}</x>"
					if how == 2 {
						text = "{{n .}} {{unknown .}}" // cannot be parsed
					}
					t, err := aitch.NewTemplate("t", text, aitch.NodeMap{"n": node})
					if err == nil {
						watch(p, "static", t)
						if how == 1 {
							_ = t.Execute(m, m.data("data", 1), m.token("cargo"))
						}
					}
				} else {
					_ = node.Render(context.New(m, m.data("data", 1), m.token("cargo")))
				}
			})
			c.Count("built_and_dropped", 1)
			if c.Pct(40) {
				kind := c.Pick("html", "svg")
				src := &pinReader{token: p.token("reader"), data: []byte("<p class=a>text<br></p><g fill=red></g>"), n: 1 + c.N(9), fail: c.Pct(20)}
				watch(p, "reader", src)
				dst := &maker{pins: p, failAt: -1}
				if c.Pct(25) {
					dst.failAt = 1 + c.N(3)
				}
				watch(p, "writer", dst)
				if c.Pct(15) {
					src.panicAt = 2
				}
				catch(func() { _ = genCode[kind](src, dst) })
				c.Count("generations", 1)
			}
		})
	}
	for _, x := range p.list {
		c.Count("watched_"+x.what, 1)
	}
	c.Count("watched", len(p.list))
	if left := p.alive(); left != nil {
		c.Fail("nodes, templates or inputs are still referenced after they were dropped", map[string]any{"left": left})
	}
	c.NonTrivial("dropped", c.Idx, len(p.list))
}

type pinReader struct {
	token   *keepsake
	data    []byte
	n       int
	fail    bool
	reads   int
	panicAt int
}

func (r *pinReader) Read(b []byte) (int, error) {
	if r.reads++; r.reads == r.panicAt {
		panic(r.token)
	}
	if len(r.data) == 0 {
		if r.fail {
			return 0, errors.New("failing reader")
		}
		return 0, io.EOF
	}
	n := copy(b, r.data[:min(r.n, len(r.data))])
	r.data = r.data[n:]
	return n, nil
}

// heapGrowth renders one node thousands of times, with new data each time
func (c *Case) heapGrowth() {
	c.Eval()
	var node aitch.Node
	own := &pins{}
	apart(func() {
		b := 40
		node = aitch.Collection(freshTree(own, c.Rand, "static", 4, &b), freshTree(own, c.Rand, "static", 4, &b), aitch.Element("p", aitch.DynamicValueKey("str"), html.Class(aitch.DynamicValueKey("str"), aitch.DynamicValueKey("n")), aitch.IterateKey("items", aitch.Text(aitch.DynamicValueKey("."))), aitch.When("yes", aitch.Text(aitch.DynamicValueKey("fn")))))
	})
	tmpl, err := aitch.NewTemplate("t", "<x>{{n .}}</x>", aitch.NodeMap{"n": node})
	if err != nil {
		c.Fail("cannot parse a template: " + err.Error())
	}
	var ms runtime.MemStats
	measure := func() int64 {
		low := int64(1 << 62)
		for i := 0; i < 4; i++ {
			runtime.GC()
			runtime.ReadMemStats(&ms)
			low = min(low, int64(ms.HeapAlloc))
		}
		return low
	}
	rounds := func(n int) {
		apart(func() {
			for i := 0; i < n; i++ {
				m := &maker{pins: &pins{}, r: c.Fork(), failAt: -1, panicAt: -1, errAt: -1, budget: 12, n: c.N(1 << 30)}
				switch i % 8 {
				case 0:
					m.failAt = 1 + i%20
				case 1:
					m.panicAt = 1 + i%5
				}
				catch(func() {
					if i%3 == 0 {
						_ = tmpl.Execute(m, m.data("data", 1), i)
					} else {
						_ = node.Render(context.New(m, m.data("data", 1), i))
					}
				})
			}
		})
	}
	rounds(50)
	before := measure()
	n := 1500
	rounds(n)
	grown := measure() - before
	for i := 0; i < 2 && grown > 65536; i++ { // not a one-time cost?
		before = measure()
		rounds(n)
		grown = measure() - before
	}
	c.Count("heap_measurements", 1)
	c.Count("renders", n)
	c.Max("heap_growth_bytes", int(max(grown, 0)))
	if grown > 65536 {
		c.Fail("the heap grows with every render", map[string]any{"renders": n, "bytes": grown})
	}
	c.NonTrivial("heap", c.Idx)
	runtime.KeepAlive(node)
	runtime.KeepAlive(tmpl)
}

var _ = bytes.Equal

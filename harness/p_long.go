package main

import (
	"fmt"
	"runtime"
	"strings"

	"github.com/go-andiamo/aitch"
	"github.com/go-andiamo/aitch/context"
	"github.com/go-andiamo/aitch/html"
)

// C32: a render lets go of what it has finished with.  Long renders (hundreds of items, imperative
// operations, collected nodes, dynamic values, captured failures) in which user code makes everything
// anew; every now and then user code collects garbage, in the middle of the render, and looks at how
// much of what it made so far is still referenced (weak pointers), how large the heap is, how much has
// been allocated for the last items and how deep the stack is.

func init() {
	register(&Prop{ID: "C32", Quick: 1600, Thor: 60000, Run: runC32,
		Rule: "long renders (60-260 items, operations or siblings; now and then with 20 KiB per item) of random trees whose callbacks make new data, items, results, nodes, names and errors in every call: yielded items (also within one another), imperative blocks, wide elements of dynamic nodes, iterations, ranges in templates, failures and panics that user code handles; at 6 points within each render, weak pointers, heap, allocations per item and stack depth are looked at: none may grow with what has been rendered; non-trivial: a render of at least 60 steps in which at least 300 things were made",
		Min:  map[string]int64{"renders": 400, "checkpoints": 2500, "watched": 300000, "loop_yield": 50, "loop_imperative": 50, "loop_wide": 20, "loop_iterate": 20, "loop_template": 20, "loop_handled": 20, "heap_comparisons": 300, "allocation_comparisons": 150}})
}

// most things that may be alive between two items: what the last one left on the stack, or in slots
// that the next one uses again
const longAlive = 24

type longRender struct {
	c      *Case
	m      *maker
	kind   string
	total  int // steps
	every  int // steps between checkpoints
	done   int
	checks int
	seen   int
	heap   []int64
	alloc  []int64
	last   int64
	depth  []int
	big    bool
	even   bool // the same work at each step
	viol   any
}

func (l *longRender) fail(what string, detail ...any) {
	defer func() {
		l.viol = recover() // a template makes an error of it
		panic(l.viol)
	}()
	l.c.Fail(what, map[string]any{"loop": l.kind, "step": l.done, "of": l.total, "made_so_far": l.seen, "more": fmt.Sprint(detail...)})
}

// step is called by user code after each item
func (l *longRender) step() {
	l.done++
	l.m.budget = 12
	if l.even {
		l.m.r = &Rand{s: uint64(l.c.Idx)*7919 + 77}
	}
	if l.done%l.every == 0 {
		l.check()
	}
}

func (l *longRender) check() {
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	if l.checks > 0 {
		l.alloc = append(l.alloc, int64(ms.TotalAlloc)-l.last)
	}
	l.checks++
	p := l.m.pins
	l.seen += len(p.list)
	for i := 0; i < 4; i++ {
		runtime.GC()
		alive := p.list[:0]
		for _, x := range p.list {
			if !x.dead() {
				alive = append(alive, x)
			}
		}
		p.list = append([]pin(nil), alive...) // and no more memory
		if len(alive) <= longAlive/2 {
			break
		}
	}
	l.seen -= len(p.list)
	l.c.Max("alive_between_items", len(p.list))
	if len(p.list) > longAlive {
		count := map[string]int{}
		for _, x := range p.list {
			count[x.what]++
		}
		l.fail("a render still refers to what it has finished with", count)
	}
	pcs := make([]uintptr, 4000)
	n := runtime.Callers(0, pcs)
	l.depth = append(l.depth, n)
	if n > l.depth[0]+60 {
		l.fail("the stack grows with what has been rendered", l.depth)
	}
	pcs = nil
	runtime.ReadMemStats(&ms)
	l.heap = append(l.heap, int64(ms.HeapAlloc))
	l.last = int64(ms.TotalAlloc)
}

// finish compares the checkpoints
func (l *longRender) finish() {
	if n := len(l.heap); n >= 4 {
		l.c.Count("heap_comparisons", 1)
		first, last := max(l.heap[0], l.heap[1]), l.heap[n-1]
		for _, h := range l.heap[2:] {
			last = min(last, h)
		}
		l.c.Max("heap_growth", int(max(0, last-first)))
		if last > first+150_000 {
			l.fail("the memory of a render grows with what has been rendered", l.heap)
		}
	}
	if n := len(l.alloc); n >= 4 && l.even {
		l.c.Count("allocation_comparisons", 1)
		first, last := max(l.alloc[0], l.alloc[1]), min(l.alloc[n-1], l.alloc[n-2])
		if first > 0 {
			l.c.Max("allocation_growth_percent", int(last*100/first))
		}
		if last > 2*first+100_000 {
			l.fail("a render allocates more and more for the same items", l.alloc)
		}
	}
}

// item makes an item
func (l *longRender) item() any {
	m := l.m
	if l.big {
		s := strings.Clone(fmt.Sprint("<item>&", m.n, strings.Repeat("<y>", 7000)))
		return s
	}
	switch m.r.N(6) {
	case 0:
		return m.str("item", m.n)
	case 1:
		return m.data("item", 1)
	case 2:
		return nil
	case 3:
		return m.bytes("item", m.n)
	}
	return m.token("item")
}

// stepNode is a user's node that ends a step
type stepNode struct{ l *longRender }

func (s *stepNode) Render(ctx *context.Context) error { s.l.step(); return nil }
func (s *stepNode) Type() aitch.NodeType              { return aitch.ElementNode }
func (s *stepNode) Name() string                      { return "step" }

// handleNode renders its contents, and handles their failures and panics
type handleNode struct {
	l     *longRender
	inner []aitch.Node
	how   int
}

func (h *handleNode) Type() aitch.NodeType { return aitch.ElementNode }
func (h *handleNode) Name() string         { return "handle" }
func (h *handleNode) Render(ctx *context.Context) error {
	m := h.l.m
	inner := ctx
	if h.how%2 == 0 {
		inner = &context.Context{Writer: ctx.Writer, Data: ctx.Data, Cargo: m.token("cargo"), Parent: ctx}
		watch(m.pins, "context", inner)
	}
	for _, n := range h.inner {
		m.panicAt, m.errAt = -1, -1
		if m.r.Pct(50) {
			m.panicAt = m.calls + 1 + m.r.N(3)
		} else {
			m.errAt = m.calls + 1 + m.r.N(3)
		}
		catch(func() { _ = n.Render(inner) })
		m.panicAt, m.errAt = -1, -1
		inner.Error = nil
	}
	return nil
}

func runC32(c *Case) {
	c.Eval()
	l := &longRender{c: c, kind: c.Pick("yield", "yield", "imperative", "imperative", "wide", "iterate", "template", "handled")}
	l.total = c.Range(60, 260)
	l.big = c.Pct(12) && (l.kind == "yield" || l.kind == "imperative")
	l.even = c.Pct(60)
	if c.Thorough() && c.Pct(30) {
		l.total *= 4
	}
	l.every = l.total / 6
	own := &pins{}
	var top aitch.Node
	markers := aitch.NodeMap{}
	text := "<x>{{n .}}</x>"
	apart(func() {
		b := c.Range(3, 12)
		body := []aitch.Node{freshTree(own, c.Rand, "static", 3, &b)}
		for c.Pct(40) {
			body = append(body, freshTree(own, c.Rand, "static", 2, &b))
		}
		if l.big {
			body = []aitch.Node{aitch.Element("p", aitch.DynamicValueKey("."), html.Title(aitch.DynamicValueKey(".")))}
		}
		// nodes around what is repeated
		for i := c.N(3); i > 0 && !l.big; i-- {
			switch c.N(5) {
			case 0:
				body = []aitch.Node{aitch.Element("div", append(kidsAny(body), html.Class(aitch.DynamicValueKey("str"), "x"))...)}
			case 1:
				body = []aitch.Node{aitch.Conditional(func(*context.Context) bool { return true }, body...)}
			case 2:
				inner := body
				body = []aitch.Node{aitch.ContentCollect(func(*context.Context) []aitch.Node { return append([]aitch.Node{}, inner...) })}
			case 3:
				inner := body
				body = []aitch.Node{aitch.Imperative(func(ic aitch.ImperativeContext) error { ic.WriteNodes(inner...); return nil })}
			case 4:
				body = []aitch.Node{aitch.IterateYield(func(_ *context.Context, yield func(any)) { yield(l.item()); yield(l.item()) }, body...)}
			}
		}
		switch l.kind {
		case "yield":
			nested := c.Pct(25)
			if nested { // yields within a yielded item: the items around stay in use
				var again func(any)
				at := 0
				body = append(body, aitch.Imperative(func(ic aitch.ImperativeContext) error {
					if at++; at%3 == 1 && !l.big {
						again(l.item())
					}
					return nil
				}))
				top = aitch.IterateYield(func(_ *context.Context, yield func(any)) {
					again, at = yield, 0
					for i := 0; i < l.total; i++ {
						at = 0
						yield(l.item())
						l.step()
					}
				}, body...)
				break
			}
			top = aitch.IterateYield(func(_ *context.Context, yield func(any)) {
				for i := 0; i < l.total; i++ {
					yield(l.item())
					l.step()
				}
			}, body...)
		case "iterate":
			items := make([]any, l.total)
			for i := range items {
				items[i] = i
			}
			body = append(body, &stepNode{l})
			if c.Pct(50) {
				top = aitch.Iterate(func(*context.Context) []any { return items }, body...)
			} else {
				top = aitch.IterateKey("many", body...)
			}
		case "template":
			body = append(body, &stepNode{l})
			top = aitch.Collection(body...)
			text = c.Pick("{{range .Data.many}}<i>{{n $}}</i>{{end}}", "<x>{{range $i, $e := .Data.many}}{{if $i}}, {{end}}{{with $}}{{n .}}{{end}}{{end}}</x>", "{{define \"d\"}}<b>{{n .}}</b>{{end}}{{range .Data.many}}{{template \"d\" $}}{{end}}")
		case "wide":
			var kids []any
			l.total = min(l.total, 300)
			l.every = l.total / 6
			for i := 0; i < l.total; i++ {
				b := 4
				if c.Pct(50) {
					kids = append(kids, body[c.N(len(body))])
				} else {
					kids = append(kids, freshTree(own, c.Rand, "static", 2, &b))
				}
				kids = append(kids, &stepNode{l})
			}
			top = aitch.Element("div", kids...)
			if c.Pct(30) {
				top = aitch.ContentCollect(func(*context.Context) (nodes []aitch.Node) {
					for _, k := range kids {
						nodes = append(nodes, k.(aitch.Node))
					}
					return nodes
				})
			}
			l.even = false
		case "handled":
			body = []aitch.Node{&handleNode{l: l, inner: body, how: c.N(2)}}
			top = aitch.IterateYield(func(_ *context.Context, yield func(any)) {
				for i := 0; i < l.total; i++ {
					yield(l.item())
					l.step()
				}
			}, body...)
		case "imperative":
			top = aitch.Imperative(func(ic aitch.ImperativeContext) error {
				depth := 0
				for i := 0; i < l.total; i++ {
					l.op(ic, body, &depth)
					l.step()
				}
				for ; depth > 0 && c.Pct(80); depth-- {
					ic.End()
				}
				ic.EndAll()
				return nil
			})
		}
		for i := c.N(3); i > 0 && l.kind != "template"; i-- {
			switch c.N(4) {
			case 0:
				top = aitch.Element("section", html.Id(aitch.DynamicValueKey("str")), top)
			case 1:
				top = aitch.When("yes", top)
			case 2:
				top = aitch.Collection(aitch.Text("<"), top)
			case 3:
				inner := top
				top = aitch.IterateYield(func(_ *context.Context, yield func(any)) { yield(nil) }, inner)
			}
		}
	})
	markers["n"] = top
	tmpl, err := aitch.NewTemplate("t", text, markers)
	if err != nil {
		c.Fail("cannot parse a template: " + err.Error())
	}
	renders := 1
	if c.Pct(20) {
		renders = 2
	}
	for i := 0; i < renders; i++ {
		apart(func() {
			quiet := &pins{}
			m := &maker{pins: quiet, r: c.Fork(), failAt: -1, panicAt: -1, errAt: -1, budget: 12}
			l.m, l.done, l.checks, l.heap, l.alloc, l.depth = m, 0, 0, nil, nil, nil
			data := m.data("data", 1)
			many := make([]int, l.total)
			data["many"] = many
			m.pins = &pins{}
			var err error
			if l.kind == "template" || c.Pct(20) {
				err = tmpl.Execute(m, data, m.n)
			} else {
				err = top.Render(context.New(m, data, m.n))
			}
			if l.viol != nil {
				panic(l.viol)
			}
			if err != nil {
				l.fail("a render failed", err.Error())
			}
			if l.done != l.total {
				l.fail("not all was rendered")
			}
			l.check()
			c.Count("renders", 1)
			c.Count("checkpoints", l.checks)
			c.Count("steps", l.done)
		})
		l.finish()
	}
	c.Count("watched", l.seen)
	c.Count("loop_"+l.kind, 1)
	if l.total >= 60 && l.seen >= 300 {
		c.NonTrivial(c.Idx, l.kind, l.seen)
	}
	runtime.KeepAlive(top)
	runtime.KeepAlive(own)
}

// op is an imperative operation
func (l *longRender) op(ic aitch.ImperativeContext, body []aitch.Node, depth *int) {
	m := l.m
	if l.big {
		ic.WriteString(l.item().(string))
		return
	}
	for i := m.r.Range(1, 3); i > 0; i-- {
		m.n++
		switch m.r.N(8) {
		case 0, 1, 2:
			void := m.r.Pct(30) || *depth > 4
			ic.Start(m.bytes("name", m.n), void, m.some(aitch.AttributeNode)...)
			if !void {
				*depth++
			}
		case 3:
			ic.WriteNodes(body...)
		case 4:
			ic.WriteNodes(m.some(aitch.ElementNode)...)
		case 5:
			ic.WriteString(m.str("text", m.n))
			ic.WriteRaw(m.bytes("text", m.n))
		default:
			ic.End()
			*depth = max(0, *depth-1)
		}
	}
	if m.r.Pct(5) {
		ic.EndAll()
		*depth = 0
	}
}

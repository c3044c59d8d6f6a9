package main

import (
	"bytes"
	"errors"
	"fmt"
	"hash/fnv"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/go-andiamo/aitch"
	"github.com/go-andiamo/aitch/context"
)

// C07: concurrent rendering and building.  The workload runs under the race detector; every
// goroutine renders shared, never before rendered nodes with its own context, executes a shared
// template, builds new elements out of shared nodes and looks things up in its contexts.  Nothing
// of the harness synchronises the goroutines between the barriers at the start and at the end (no
// atomics, locks or channels), so that the detector sees the happens-before order of the library
// alone.  Outputs and callbacks are compared with the model afterwards.

func init() {
	register(&Prop{ID: "C07", Shards: 4, MaxProcs: 4, Quick: 4000, Thor: 300000, Run: runC07,
		Rule:        "random trees of all node kinds, built once and never rendered before; 2-12 goroutines start at a barrier, and each renders them, executes a shared template builds new parents and templates from shared nodes and generates code, with own and shared data, some with failing writers, yielding at random; run under the race detector; outputs and callbacks compared with the model; non-trivial: a distinct order of the goroutines' writes with at least one switch between goroutines in the middle of a render",
		Assumptions: []string{"the race detector reports races of the executions that happen, not of all possible ones"},
		Min:         map[string]int64{"goroutines": 15000, "renders": 30000, "template_executions": 4000, "concurrent_builds": 4000, "mid_render_switches": 20000, "lookups": 10000, "concurrent_templates": 2000, "concurrent_generations": 2000, "failing_renders": 1000}})
}

type raceJob struct {
	kind  int // 0 render, 1 template, 2 build and render, 3 parse and execute a template, 4 generate code
	tree  *Node
	node  aitch.Node
	tmpl  *aitch.Template
	run   *Run
	want  *model
	pre   string
	post  string
	fail  bool
	err   error
	panic any
	stamp []int64
	code  int
}

// what code is generated from concurrently, and the code generated alone
var genKinds = []string{"html", "svg", "html", "svg"}
var genInputs = []string{
	"<!DOCTYPE html><html lang=en><head><title>t</title><script>var a = 1 < 2;</script></head><body class='a b'><p hidden>x &amp; y<br><x-y data-a=1 aria-label=l>z</x-y></p><!-- c --></body></html>",
	"<svg viewBox=\"0 0 10 10\"><g fill=\"red\"><path d=\"M0 0\"/><linearGradient id=\"a\"><stop offset=\"1\"/></linearGradient><text>t</text></g></svg>",
	"<ul><li>1<li>2</ul></div><p>unclosed <b>bold <input disabled value='\"'>",
	"<text>a<tspan>b</tspan></text><unknown x='1'/>",
}
var generated [][]byte

// yielder is the source of delays of one goroutine; nothing in it is shared
type yielder struct {
	r    *Rand
	pct  int
	spin int
}

func (y *yielder) yield() {
	if y.r.Pct(y.pct) {
		switch {
		case y.spin > 0 && y.r.Pct(20):
			t := time.Now()
			for time.Since(t) < time.Duration(y.r.N(y.spin))*time.Microsecond {
			}
		default:
			runtime.Gosched()
		}
	}
}

func runC07(c *Case) {
	cfg := Cfg{Depth: 4, Kids: c.Range(1, 4), Budget: c.Range(5, 25), Attrs: 40, Cond: true, Iter: true, Imper: c.Pct(60), Collect: c.Pct(50), User: c.Pct(40), Dyn: true, Dup: true, Nil: c.Pct(20), Doc: c.Pct(20), Named: true, Empty: true}
	g := newGen(c.Rand, cfg)
	b := &Builder{shared: map[*Node]aitch.Node{}, share: map[*Node]bool{}}
	var pool []*Node
	add := func(n *Node) {
		pool = append(pool, n)
		b.share[n] = true
		b.shared[n] = b.build(n)
	}
	for i := c.Range(2, 4); i > 0; i-- {
		add(g.attr())
	}
	for i := c.Range(1, 3); i > 0; i-- {
		d := delimAttrs[c.N(len(delimAttrs))]
		add(&Node{K: "dattr", Name: d[0], Delim: d[1], Vals: []*Val{g.val(true, 1), g.val(true, 1), g.val(true, 1)}[:c.Range(1, 3)], Ctor: g.named(byAttr, "delim:"+d[0])})
	}
	add(condChain(g, c.N(3)))
	add(&Node{K: "coll", Kids: append(append([]*Node{}, pool[:c.N(len(pool))]...), g.kids(2, "list")...)})
	some := func() (result []*Node) {
		for i := c.Range(1, 5); i > 0; i-- {
			result = append(result, pool[c.N(len(pool))])
		}
		return result
	}
	var trees []*Node
	var nodes []aitch.Node
	for i := c.Range(1, 3); i > 0; i-- {
		g.budget = cfg.Budget
		t := g.richTree(c)
		t.Kids = append(t.Kids, some()...)
		trees = append(trees, t)
		nodes = append(nodes, b.node(t))
	}
	pre, post := "<main>", "</main>"
	tmpl, err := aitch.NewTemplate("t", pre+"{{n .}}"+post, aitch.NodeMap{"n": nodes[0]})
	if err != nil {
		c.Fail("cannot parse a template: " + err.Error())
	}
	// the jobs of each goroutine, and what each is to yield alone
	goroutines := c.Range(2, 12)
	hook := func(kind string, id int, ctx *context.Context) {
		if v, ok := context.Get[string](ctx, "s0"); ok && v == "" {
			panic("empty")
		}
		context.Get[int](ctx, "Field")
	}
	shared := g.newRun(c.Rand)
	jobs := make([][]*raceJob, goroutines)
	builders := make([]*Builder, goroutines)
	pct := []int{2, 10, 30, 60}[c.N(4)]
	spin := []int{0, 0, 5, 20}[c.N(4)]
	for gi := range jobs {
		builders[gi] = &Builder{shared: b.shared, share: b.share}
		own := g.newRun(c.Rand)
		y := &yielder{r: c.Rand.Fork(), pct: pct, spin: spin}
		for i := c.Range(2, 5); i > 0; i-- {
			base := shared
			if c.Pct(60) {
				base = own
			}
			j := &raceJob{kind: []int{0, 0, 0, 0, 1, 1, 2, 2, 2, 2, 3, 4}[c.N(12)], run: base.again()}
			switch j.kind {
			case 0:
				k := c.N(len(trees))
				j.tree, j.node = trees[k], nodes[k]
			case 1, 3:
				j.tree, j.tmpl, j.pre, j.post = trees[0], tmpl, pre, post
			case 4:
				j.tree, j.run = &Node{K: "coll"}, &Run{}
				j.code = c.N(len(genInputs))
			case 2:
				g.budget = 8
				j.tree = &Node{K: c.Pick("elem", "elem", "void"), Name: c.Pick("div", "x-y"), Via: 1, Kids: append(some(), g.kids(2, "elem")...)}
				for _, id := range g.condIDs { // conditions of the new tree
					if _, ok := base.truth[id]; !ok {
						base.truth[id] = c.Pct(50)
					}
				}
				for _, id := range g.iterIDs {
					if _, ok := base.lists[id]; !ok {
						base.lists[id] = g.items(c.Rand, base, 1)
					}
				}
				if c.Pct(20) {
					j.tree = &Node{K: "imper", ID: g.next(), Ops: []*Op{{K: "start", S: "i", Nodes: some()}, {K: "nodes", Nodes: some()}, {K: "endall"}}}
				}
			}
			j.run.hook = hook
			j.run.rec = newRec()
			j.run.rec.run = j.run
			if j.fail = c.Pct(8); j.fail {
				j.run.rec.failAt, j.run.rec.accept, j.run.rec.perm, j.run.rec.failErr = c.N(25), c.N(3)-1, c.Pct(50), c.anErr("write")
			}
			j.run.rec.yield = func() {
				if len(j.stamp) < 4000 {
					j.stamp = append(j.stamp, time.Now().UnixNano())
				}
				y.yield()
			}
			jobs[gi] = append(jobs[gi], j)
		}
	}
	for gi := range jobs { // the inputs are complete now
		for _, j := range jobs[gi] {
			m := &model{run: j.run}
			env := &Env{data: j.run.data, cargo: j.run.cargo}
			m.w(j.pre)
			m.node(j.tree, env)
			m.w(j.post)
			j.want = m
		}
	}
	snap := dump(shared.data) + dump(shared.cargo)
	// go
	start := make(chan struct{})
	var ready, done sync.WaitGroup
	for gi := range jobs {
		ready.Add(1)
		done.Add(1)
		go func() {
			defer done.Done()
			ready.Done()
			<-start
			for _, j := range jobs[gi] {
				func() {
					defer func() {
						if r := recover(); r != nil {
							j.panic = fmt.Sprintf("%v\n%s", r, debug.Stack())
							if v, ok := r.(*violation); ok {
								j.panic = v
							}
						}
					}()
					switch j.kind {
					case 1:
						j.err = j.tmpl.Execute(j.run.rec.w(), j.run.data, j.run.cargo)
						return
					case 3:
						var t *aitch.Template
						if t, j.err = aitch.NewTemplate("t", pre+"{{n .}}"+post, aitch.NodeMap{"n": nodes[0]}); j.err == nil {
							j.err = t.Execute(j.run.rec.w(), j.run.data, j.run.cargo)
						}
						return
					case 4:
						j.err = genCode[genKinds[j.code]](strings.NewReader(genInputs[j.code]), j.run.rec.w())
						return
					case 2:
						j.node = builders[gi].build(j.tree)
					}
					j.err = j.node.Render(context.New(j.run.rec.w(), j.run.data, j.run.cargo))
				}()
			}
		}()
	}
	ready.Wait()
	close(start)
	done.Wait()
	// judge
	if generated == nil {
		for i, in := range genInputs {
			var w bytes.Buffer
			if err := genCode[genKinds[i]](strings.NewReader(in), &w); err != nil {
				c.Fail("code generation failed", err.Error())
			}
			generated = append(generated, w.Bytes())
		}
	}
	c.Count("goroutines", goroutines)
	type ev struct {
		t    int64
		g, j int
	}
	var evs []ev
	for gi := range jobs {
		for ji, j := range jobs[gi] {
			c.Eval()
			if j.kind == 4 {
				j.want = &model{run: j.run, out: generated[j.code]}
			}
			c.Count([]string{"renders", "template_executions", "concurrent_builds", "concurrent_templates", "concurrent_generations"}[j.kind], 1)
			c.Count("lookups", 2*len(j.run.ev))
			c.Count("writes", j.run.rec.writes)
			detail := func() any {
				return map[string]any{"goroutine": gi, "job": ji, "kind": j.kind, "tree": js(j.tree), "diff": diff(j.want.out, j.run.rec.out), "pool": js(pool)}
			}
			if j.panic != nil {
				if v, ok := j.panic.(*violation); ok {
					c.Fail("concurrent render: "+v.What, v.Detail, detail())
				}
				c.Fail("panic in a concurrent render or build", j.panic, detail())
			}
			if j.run.rec.failed {
				c.Count("failing_renders", 1)
				if !errors.Is(j.err, j.run.rec.failErr) {
					c.Fail("a concurrent render does not report its failed write", fmt.Sprint(j.err), detail())
				}
				if !bytes.HasPrefix(j.want.out, j.run.rec.out) {
					c.Fail("a failed concurrent render has written something else", detail())
				}
			} else {
				if j.err != nil {
					c.Fail("a concurrent render failed: "+j.err.Error(), detail())
				}
				if !bytes.Equal(j.want.out, j.run.rec.out) {
					c.Fail("the output of a concurrent render is not what it is alone", detail())
				}
				c.sameEvents(j.tree, j.want, j.run)
			}
			for _, t := range j.stamp {
				evs = append(evs, ev{t, gi, ji})
			}
		}
	}
	if s := dump(shared.data) + dump(shared.cargo); s != snap {
		c.Fail("concurrent renders changed the data", snap, s)
	}
	sort.SliceStable(evs, func(i, j int) bool { return evs[i].t < evs[j].t })
	h := fnv.New64a()
	switches := 0
	lastJob := make([]int, goroutines)
	for i, e := range evs {
		fmt.Fprint(h, e.g, " ")
		if i > 0 && evs[i-1].g != e.g {
			if lastJob[e.g] == e.j+1 { // it was in the middle of this job
				switches++
			}
		}
		lastJob[e.g] = e.j + 1
	}
	c.Count("mid_render_switches", switches)
	c.Count("write_events", len(evs))
	c.Max("goroutines", goroutines)
	if switches > 0 {
		c.NonTrivial(h.Sum64())
	}
	c.Sample(func() any {
		return map[string]any{"goroutines": goroutines, "switches": switches, "writes": len(evs), "tree": js(trees[0])}
	})
}

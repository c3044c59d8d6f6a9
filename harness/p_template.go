package main

import (
	"bytes"
	"errors"
	"fmt"
	htmltemplate "html/template"
	"strings"

	"github.com/go-andiamo/aitch"
	"github.com/go-andiamo/aitch/context"
)

// C16: templates.  Random templates of literal pieces and markers; the oracle concatenates the
// literals and what the model says each mapped node writes.  A second oracle executes the same text
// with html/template and the model's output as values, which allows for literals that html/template
// itself rewrites.

func init() {
	register(&Prop{ID: "C16", Quick: 60000, Thor: 3000000, Run: runC16,
		Rule: "random templates of literal pieces and 1-60 markers (attribute nodes in tags, all other node kinds in content, the same node at several markers, in pipelines, variables, branches, ranges, blocks and defined templates), executed several times with different data, interleaved (executions started from callbacks of others), with failing nodes and every kind of failing write; templates without data needs executed with any data and cargo; node maps changed by the caller after parsing; malformed texts and unknown markers; compared with literals+model and with html/template; non-trivial: a template with at least one marker and distinct output",
		Min:  map[string]int64{"executions": 60000, "markers": 100000, "attribute_markers": 20000, "repeated_markers": 20000, "nested_executions": 3000, "failing_writes": 20000, "failing_nodes": 1500, "malformed": 3000, "unknown_markers": 1500, "nil_entries": 10000, "plain_executions": 10000, "maps_changed_later": 5000, "rewritten_literals": 1000}})
}

var tmplLits = []string{"", " ", "\n", "text", "é日本🙂", "a &amp; b", "a & b", "<p>", "</p>", "<br/>", "<hr>", "<section class=\"x y\">", "</section>", "<p title='q\"'>", "<a href=\"http://x/?a=1&b=2\">", "</a>", "&nbsp;", "\t tab",
	"<!DOCTYPE html>\n", "<script>var a = 1;</script>", "<style>a{b:c}</style>", "<title>t</title>", "<textarea> x </textarea>", "<input disabled value=5>", "}}", "} }", "{ {", "{", "%s", "\\", "'", "\"", "<x-y data-z='1'/>", "\r\n", "\x00", "\xff", "<DIV ID=Q>", "</DIV>", "<td\n\n  a=b  >"}
var tmplRewritten = []string{"<!-- comment -->", "a < b", "1<2", "<", "<style>/* c */a{}</style>", "<script>// c\nx()</script>"}

type tmplPiece struct {
	lit  string
	name string // marker
	attr bool
	text string // what is written in the template for it
}

func runC16(c *Case) {
	if c.Idx%8 == 0 {
		c.badTemplates()
		return
	}
	if c.Idx%8 == 1 {
		c.plainTemplates()
		return
	}
	cfg := Cfg{Depth: 3, Kids: c.Range(1, 3), Budget: 8, Attrs: 30, Cond: true, Iter: c.Pct(60), Imper: c.Pct(50), Collect: c.Pct(50), User: c.Pct(50), Dyn: true, Dup: true, Nil: c.Pct(20), Named: true, Empty: true, Doc: c.Pct(20)}
	g := newGen(c.Rand, cfg)
	nodes := map[string]*Node{}
	nm := aitch.NodeMap{}
	var content, attrs []string
	names := []string{"a", "b", "body", "head2", "x_1", "é", "_u", "Title", "m9", "日本", "dot", "nodes", "print", "len", "index", "js", "slice", "lt", "call", "not", "println"}
	perm := c.Perm(len(names))
	for i := c.Range(1, 4); i > 0; i-- {
		name := names[perm[i]]
		g.budget = cfg.Budget
		nodes[name] = g.node(3)
		content = append(content, name)
	}
	for i := c.N(3); i > 0; i-- {
		name := names[perm[4+i]]
		for nodes[name] = g.attr(); nodes[name].Keys != nil && c.Pct(50); {
			nodes[name] = g.attr()
		}
		attrs = append(attrs, name)
	}
	if c.Pct(3) { // many of them
		for i := c.Range(8, 150); i > 0; i-- {
			name := fmt.Sprintf("n%d", i)
			nodes[name] = &Node{K: "text", Vals: []*Val{{K: "str", S: name}, {K: "key", S: "s0"}}}
			content = append(content, name)
		}
		c.Count("large_node_maps", 1)
	}
	for _, name := range sortedKeys(nodes) {
		nm[name] = (&Builder{}).node(nodes[name])
	}
	if c.Pct(50) {
		nm["nothing"], nm["nothing2"] = nil, aitch.Element("not a name")
		c.Count("nil_entries", 2)
	}
	// the text
	rewritten := c.Pct(10)
	var pieces []tmplPiece
	lit := func() {
		for i := c.N(4); i > 0; i-- {
			s := tmplLits[c.N(len(tmplLits))]
			if rewritten && c.Pct(30) {
				s = tmplRewritten[c.N(len(tmplRewritten))]
			}
			if strings.HasSuffix(s, "{") || strings.HasSuffix(s, "<") {
				s += " "
			}
			pieces = append(pieces, tmplPiece{lit: s, text: s})
		}
	}
	defs := ""
	used := map[string]int{}
	count := c.Range(1, 8)
	if c.Pct(4) {
		count = c.Range(9, 60)
	}
	for i := count; i > 0; i-- {
		lit()
		if len(attrs) > 0 && c.Pct(30) {
			s := "<" + c.Pick("div", "p", "x-y", "input") + c.Pick("", " ", " id=\"i\"", " id=\"i\" ", " a='1' ", "\n")
			pieces = append(pieces, tmplPiece{lit: s, text: s})
			for k := c.Range(1, 2); k > 0; k-- {
				name := attrs[c.N(len(attrs))]
				pieces = append(pieces, tmplPiece{name: name, attr: true, text: c.Pick("{{"+name+" .}}", "{{"+name+" $}}", "{{. | "+name+"}}", "{{"+name+"  . }}")})
				used[name]++
				c.Count("attribute_markers", 1)
			}
			s = c.Pick(">", " >", " b=\"2\">", "/>")
			pieces = append(pieces, tmplPiece{lit: s, text: s})
		} else {
			name := content[c.N(len(content))]
			text := "{{" + name + " .}}"
			p := tmplPiece{name: name}
			switch c.N(14) {
			case 0:
				text = "{{" + name + " $}}"
			case 1:
				text = "{{. | " + name + "}}"
			case 2:
				text = "{{$x := .}}{{" + name + " $x}}"
			case 3:
				text = "{{with $}}{{" + name + " .}}{{end}}"
			case 4:
				text = "{{if true}}{{" + name + " .}}{{end}}"
			case 5:
				text = "{{if false}}{{" + content[0] + " .}}{{else}}{{" + name + " .}}{{end}}"
			case 6:
				d := fmt.Sprintf("d%d", i)
				defs += "{{define \"" + d + "\"}}{{" + name + " .}}{{end}}"
				text = "{{template \"" + d + "\" .}}"
			case 7:
				text = fmt.Sprintf("{{block \"b%d\" .}}{{%s .}}{{end}}", i, name)
			case 8:
				text = "{{/* a comment */}}{{" + name + " . }}"
			case 9: // once per element
				text = "{{range $i, $e := .Data.twice}}{{" + name + " $}}{{end}}"
				pieces = append(pieces, tmplPiece{name: name})
				used[name]++
				c.Count("markers", 1)
			}
			p.text = text
			pieces = append(pieces, p)
			used[name]++
		}
		c.Count("markers", 1)
	}
	lit()
	for _, n := range used {
		if n > 1 {
			c.Count("repeated_markers", n)
		}
	}
	var sb strings.Builder
	for _, p := range pieces {
		sb.WriteString(p.text)
	}
	text := sb.String() + defs
	if c.Pct(50) {
		text = defs + sb.String()
	}
	fail := func(what string, detail ...any) {
		c.Fail(what, map[string]any{"text": text, "nodes": js(nodes), "more": fmt.Sprint(detail...)})
	}
	var tmpl *aitch.Template
	var err error
	if c.Pct(50) {
		tmpl, err = aitch.NewTemplate(c.Pick("t", "", "name with spaces"), text, nm)
		if err != nil || tmpl == nil {
			fail("a template does not parse", err)
		}
	} else if p := catch(func() { tmpl = aitch.MustNewTemplate("t", text, nm) }); p != nil {
		fail("MustNewTemplate panics", p)
	}
	if c.Pct(50) { // the map is the caller's
		for _, name := range sortedKeys(nm) {
			switch c.N(4) {
			case 0:
				delete(nm, name)
			case 1:
				nm[name] = aitch.Text("another node")
			case 2:
				nm[name] = nil
			}
		}
		nm["added"] = aitch.Text("added")
		c.Count("maps_changed_later", 1)
	}
	// the expected output, and the reference execution
	expect := func(run *Run) *model {
		m := &model{run: run}
		env := &Env{data: run.data, cargo: run.cargo}
		for _, p := range pieces {
			switch {
			case p.name == "":
				m.w(p.lit)
			case p.attr:
				m.writeAttrs(m.attrsOf([]*Node{nodes[p.name]}, env), env, len(m.out))
			default:
				m.node(nodes[p.name], env)
			}
		}
		return m
	}
	reference := func(run *Run) []byte {
		fm := htmltemplate.FuncMap{}
		for name, n := range nodes {
			fm[name] = func(any) any {
				m := &model{run: run}
				env := &Env{data: run.data, cargo: run.cargo}
				if n.isAttr() {
					m.writeAttrs(m.attrsOf([]*Node{n}, env), env, 0)
					return htmltemplate.HTMLAttr(m.out)
				}
				m.node(n, env)
				return htmltemplate.HTML(m.out)
			}
		}
		var w bytes.Buffer
		t, err := htmltemplate.New("t").Funcs(fm).Parse(text)
		if err == nil {
			err = t.Execute(&w, map[string]any{"Data": run.data})
		}
		if err != nil {
			fail("harness: the reference template fails", err)
		}
		return w.Bytes()
	}
	var one func(depth int)
	one = func(depth int) {
		run := g.newRun(c.Rand)
		run.needData()
		run.data["twice"] = []any{1, 2}
		if c.Pct(3) {
			run.data["twice"] = [2]int{1, 2}
		}
		m := expect(run)
		want := m.out
		run.rec = newRec()
		run.rec.run = run
		if rewritten {
			want = reference(run)
			if !bytes.Equal(want, m.out) {
				c.Count("rewritten_literals", 1)
			}
		}
		mode := c.N(10)
		if depth < 2 && mode < 2 {
			calls := 0
			run.hook = func(kind string, id int, ctx *context.Context) {
				if calls++; calls == 2 {
					c.Count("nested_executions", 1)
					one(depth + 1)
				}
			}
		}
		snap := dump(run.data) + dump(run.cargo)
		err := tmpl.Execute(run.rec.w(), run.data, run.cargo)
		c.Eval()
		c.Count("executions", 1)
		if err != nil {
			fail("an execution failed", err)
		}
		if !bytes.Equal(want, run.rec.out) {
			fail("an execution does not write the literals with the nodes at their markers", diff(want, run.rec.out), dump(run.data))
		}
		if !rewritten {
			c.sameEvents(&Node{K: "coll"}, m, run)
		}
		if s := dump(run.data) + dump(run.cargo); s != snap {
			fail("an execution changed the data", snap, s)
		}
		c.NonTrivial(run.rec.out)
		writes := run.rec.writes
		switch {
		case mode == 2 || mode == 3: // failing writers
			for i := 0; i < 6; i++ {
				r := run.again()
				r.rec = newRec()
				r.rec.run = r
				werr := c.anErr(fmt.Sprintf("write %d", i))
				r.rec.failAt, r.rec.accept, r.rec.perm, r.rec.failErr = c.N(writes+1), c.N(4)-1, c.Pct(50), werr
				if i == 0 {
					r.rec.failAt = 0
				}
				err := tmpl.Execute(r.rec.w(), r.data, r.cargo)
				c.Eval()
				if !r.rec.failed {
					if err != nil || !bytes.Equal(r.rec.out, want) {
						fail("an execution differs from the one before", err, diff(want, r.rec.out))
					}
					continue
				}
				c.Count("failing_writes", 1)
				switch {
				case !errors.Is(err, werr):
					fail("an execution does not report its failed write", r.rec.failAt, err)
				case len(r.rec.late) > 0:
					fail("an execution writes after a failed write", fmt.Sprintf("%q", r.rec.late))
				case !bytes.HasPrefix(want, r.rec.out):
					fail("a failed execution has written something else", diff(want, r.rec.out))
				}
			}
		case mode == 4 || mode == 5: // failing nodes
			r := run.again()
			r.rec = newRec()
			r.rec.run = r
			r.fails, r.nth = map[int]int{}, map[int]int{}
			for _, ids := range [][]int{g.fnIDs, g.userIDs, g.impIDs, g.colIDs, g.iterIDs} {
				for _, id := range ids {
					if c.Pct(20) {
						r.fails[id] = c.N(3)
					}
				}
			}
			err := tmpl.Execute(r.rec.w(), r.data, r.cargo)
			c.Eval()
			if len(r.raised) == 0 {
				if err != nil || !bytes.Equal(r.rec.out, want) {
					fail("an execution differs from the one before", err, diff(want, r.rec.out))
				}
				return
			}
			c.Count("failing_nodes", 1)
			first := r.raised[0]
			switch {
			case !errors.Is(err, first.err):
				fail("an execution does not report the first error of a node", first, err)
			case len(r.rec.out) > first.at && first.kind != "fn":
				fail("an execution writes after the error of a node", first, fmt.Sprintf("%q", r.rec.out[first.at:]))
			case !bytes.HasPrefix(want, r.rec.out) && !rewritten:
				// what an imperative function or a user node did not do any more may be missing, but nothing else was written
				fail("a failed execution has written something else", diff(want, r.rec.out))
			}
		}
	}
	for i := c.Range(1, 5); i > 0; i-- {
		one(0)
	}
	c.Sample(func() any { return map[string]any{"text": text, "nodes": js(nodes)} })
}

// plainTemplates are templates that need no data, executed with all kinds of data and cargo
func (c *Case) plainTemplates() {
	g := newGen(c.Rand, Cfg{Depth: 3, Kids: 3, Budget: 8, Attrs: 20, Empty: true, Named: true})
	text, want := "", ""
	nm := aitch.NodeMap{}
	var trees []*Node
	for i := c.N(4); i >= 0; i-- {
		s := c.Pick("", " ", "text", "é日本🙂", "<p>", "</p>", "<hr>", "<i title='q'>", "&nbsp;", "\n")
		text, want = text+s, want+s
		if c.Pct(60) {
			var n *Node
			for n == nil || n.isAttr() {
				g.budget = 8
				n = g.node(3)
			}
			name := fmt.Sprint("n", i)
			trees = append(trees, n)
			nm[name] = (&Builder{}).node(n)
			text += "{{" + name + " .}}"
			want += string(modelRun(n, &Run{}).out)
			c.Count("markers", 1)
		}
	}
	fail := func(what string, detail ...any) {
		c.Fail(what, map[string]any{"text": text, "nodes": js(trees), "more": fmt.Sprint(detail...)})
	}
	t, err := aitch.NewTemplate("t", text, nm)
	if err != nil {
		fail("a template does not parse", err)
	}
	datas := []map[string]any{nil, {}, {"a": 1}, {"n1": "x", "Data": nil}}
	cargos := []any{nil, 0, "cargo", []any{1}, map[string]any{"a": 1}, (*int)(nil), struct{}{}, errors.New("an error"), &context.Context{}}
	for i := 0; i < 4; i++ {
		data, cargo := datas[c.N(len(datas))], cargos[c.N(len(cargos))]
		w := newRec()
		err := t.Execute(w.w(), data, cargo)
		c.Eval()
		c.Count("plain_executions", 1)
		if err != nil || string(w.out) != want {
			fail("an execution does not write the literals with the nodes at their markers", err, diff([]byte(want), w.out))
		}
		c.NonTrivial(text, i)
		for k := 0; k < 3 && w.writes > 0; k++ {
			f := newRec()
			f.failAt, f.accept, f.perm, f.failErr = c.N(w.writes), c.N(4)-1, c.Pct(50), c.anErr(fmt.Sprintf("write %d", k))
			err := t.Execute(f.w(), data, cargo)
			c.Eval()
			c.Count("failing_writes", 1)
			switch {
			case !errors.Is(err, f.failErr):
				fail("an execution does not report its failed write", f.failAt, err)
			case len(f.late) > 0:
				fail("an execution writes after a failed write", fmt.Sprintf("%q", f.late))
			case !strings.HasPrefix(want, string(f.out)):
				fail("a failed execution has written something else", diff([]byte(want), f.out))
			}
		}
	}
	c.Sample(func() any { return map[string]any{"text": text, "nodes": js(trees), "output": want} })
}

func (c *Case) badTemplates() {
	nm := aitch.NodeMap{"a": aitch.Element("b", "x"), "at": aitch.Attribute("id", 1), "nothing": nil}
	var text, kind string
	if c.Pct(40) {
		kind = "unknown_markers"
		text = c.Pick("{{unknown .}}", "{{nothing .}}", "<p>{{a .}}{{b .}}</p>", "{{A .}}", "{{define \"x\"}}{{zz .}}{{end}}", "{{if true}}{{zz .}}{{end}}", "{{. | zz}}", "{{template \"x\" (zz .)}}", "<i {{att .}}>")
	} else {
		kind = "malformed"
		text = c.Pick("{{a .", "{{a . }", "{{", "{{end}}", "{{if}}x{{end}}", "{{if true}}", "{{range .Data}}", "{{a . ))}}", "{{define \"x\"}}", "{{$x}}", "{{else}}", "{{\"unterminated}}", "{{a 'x}}", "{{/* open", "{{template}}", "{{a .}}{{with}}{{end}}", "{{.}", "{{a (.}}", "{{a .}} {{end}}")
	}
	for i := c.N(3); i > 0; i-- {
		if l := tmplLits[c.N(len(tmplLits))]; !strings.HasSuffix(l, "{") {
			text = l + text
		}
	}
	if c.Pct(50) {
		text = "{{a .}}" + text
	}
	t, err := aitch.NewTemplate("t", text, nm)
	c.Eval()
	c.Count(kind, 1)
	if err == nil {
		c.Fail("a template with an unknown marker or malformed text parses without error", text)
	}
	if t != nil {
		c.Fail("a failed parse returns a template", text)
	}
	p := catch(func() { t = aitch.MustNewTemplate("t", text, nm) })
	if p == nil {
		c.Fail("MustNewTemplate does not panic for a template that does not parse", text)
	}
	c.NonTrivial(text)
}

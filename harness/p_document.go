package main

import (
	"bytes"
	"fmt"

	xhtml "golang.org/x/net/html"

	"github.com/go-andiamo/aitch"
	"github.com/go-andiamo/aitch/context"
	"github.com/go-andiamo/aitch/html"
)

// C21: documents.  Three oracles: the skeleton read back from the tokens, the model, and the same
// skeleton built by hand from its elements.

func init() {
	register(&Prop{ID: "C21", Quick: 160000, Thor: 6000000, Run: runC21,
		Rule: "documents with every kind of language value (nil, static, empty, dynamic, values made of values), with and without head contents, random head and body contents (nodes, attributes anywhere, plain values, conditionals, iterations, nil), rendered alone, in iterations, conditionals, collections, collectors, imperative blocks, user nodes and templates, several times with other data, and to a failing writer; non-trivial: distinct output with contents",
		Min:  map[string]int64{"documents": 60000, "with_lang": 20000, "without_lang": 15000, "with_head": 20000, "without_head": 15000, "head_attributes": 5000, "body_attributes": 10000, "nested": 10000, "failing_writers": 10000, "in_template": 3000}})
}

func runC21(c *Case) {
	cfg := Cfg{Depth: c.Range(1, 4), Kids: c.Range(1, 5), Budget: c.Range(2, 25), Attrs: 25, Cond: c.Pct(60), Iter: c.Pct(60), Imper: c.Pct(40), Collect: c.Pct(40), User: c.Pct(30), Dyn: true, Dup: true, Nil: c.Pct(30), Named: true, Empty: true}
	g := newGen(c.Rand, cfg)
	n := &Node{K: "doc", Kids: g.kids(cfg.Depth, "elem")}
	switch c.N(6) {
	case 0, 1:
	case 2:
		n.Vals = []*Val{{K: c.Pick("str", "str", "stringer"), S: c.Pick("", "", "en", "en-GB", `x"y<z>`, "\x00", "日本")}}
		if c.Pct(30) {
			n.Vals = []*Val{{K: c.Pick("anyfn", "nv", "cv", "text"), Sub: n.Vals}}
		}
	case 3:
		n.Vals = []*Val{g.fn()}
	default:
		v := g.val(false, 2)
		for v.K == "nil" { // nil is no language
			v = g.val(false, 2)
		}
		n.Vals = []*Val{v}
	}
	if c.Pct(60) {
		n.Head = g.kids(cfg.Depth, "elem")
		something := false
		for _, k := range n.Head {
			something = something || k != nil
		}
		if !something {
			n.Head = append(n.Head, g.node(1))
		}
	}
	if c.Pct(8) { // a single node or attribute with the name of a part of the skeleton
		name := c.Pick("body", "head", "html", "lang", "title")
		k := &Node{K: "attr", Name: name, Vals: []*Val{g.val(true, 1)}}
		switch c.N(4) {
		case 0:
			k.K, k.Vals = "battr", nil
		case 1:
			k = &Node{K: "user", ID: g.next(), Name: name, Kids: g.kids(1, "list")}
		case 2:
			k = &Node{K: "cond", ID: g.next(), Kids: []*Node{k}}
			g.condIDs = append(g.condIDs, k.ID)
		}
		if c.Pct(50) {
			n.Kids = []*Node{k}
		} else {
			n.Head = []*Node{k}
		}
		c.Count("skeleton_names", 1)
	}
	for _, k := range n.Head {
		if k.isAttr() {
			c.Count("head_attributes", 1)
		}
	}
	for _, k := range n.Kids {
		if k.isAttr() {
			c.Count("body_attributes", 1)
		}
	}
	b := &Builder{hostile: true}
	doc := b.node(n)
	if doc == nil || doc.Type() != aitch.DocumentNode {
		c.Fail("Document does not make a document", js(n))
	}
	if e := b.checkArgs(); e != "" {
		c.Fail("Document changed its arguments: "+e, js(n))
	}
	run := g.newRun(c.Rand)
	m := c.checkOutput(n, doc, run)
	c.sameEvents(n, m, run)
	c.skeleton(n, run.rec.out)
	c.Count("documents", 1)
	if len(n.Vals) > 0 {
		c.Count("with_lang", 1)
	} else {
		c.Count("without_lang", 1)
	}
	if len(n.Head) > 0 {
		c.Count("with_head", 1)
	} else {
		c.Count("without_head", 1)
	}
	if len(n.Kids)+len(n.Head) > 0 {
		c.NonTrivial(run.rec.out)
	}
	first := append([]byte{}, run.rec.out...)
	// the same, built by hand
	if c.Pct(40) {
		hb := &Builder{}
		var parts []any
		if len(n.Vals) > 0 {
			parts = append(parts, html.Lang(hb.val(n.Vals[0])))
		}
		if len(n.Head) > 0 {
			parts = append(parts, aitch.Element("head", hb.contents("", n.Head)...))
		}
		parts = append(parts, aitch.Element("body", hb.contents("", n.Kids)...))
		r := run.again()
		r.rec = newRec()
		r.rec.Write([]byte("<!DOCTYPE html>\n"))
		_, err := render(aitch.Element("html", parts...), r)
		if err != nil || !bytes.Equal(r.rec.out, first) {
			c.Fail("a document is not the same as its elements", err, diff(first, r.rec.out), js(n))
		}
		c.Count("by_hand", 1)
	}
	// the caller changes its slices; other data; and again
	b.junkArgs()
	other := g.newRun(c.Rand)
	c.skeleton(n, func() []byte { c.checkOutput(n, doc, other); return other.rec.out }())
	r := run.again()
	c.checkOutput(n, doc, r)
	// in some surroundings
	if c.Pct(40) {
		tree := g.wrap(n)
		nr := g.newRun(c.Rand)
		m := c.checkOutput(tree, (&Builder{}).node(tree), nr)
		c.sameEvents(tree, m, nr)
		c.Count("nested", 1)
	}
	if c.Pct(10) {
		t, err := aitch.NewTemplate("t", "{{doc .}}", map[string]aitch.Node{"doc": doc})
		if err != nil {
			c.Fail("template", err.Error())
		}
		r := run.again()
		r.rec = newRec()
		r.rec.run = r
		if err = t.Execute(r.rec.w(), r.data, r.cargo); err != nil || !bytes.Equal(r.rec.out, first) {
			c.Fail("a document in a template renders differently", err, diff(first, r.rec.out), js(n))
		}
		c.Count("in_template", 1)
	}
	if c.Pct(40) && run.rec.writes > 0 {
		r := run.again()
		r.rec = newRec()
		r.rec.failAt, r.rec.accept, r.rec.failErr, r.rec.perm = c.N(run.rec.writes), 0, c.anErr("write"), c.Pct(50)
		r.rec.run = r
		ctx := context.New(r.rec.w(), r.data, r.cargo)
		err := doc.Render(ctx)
		c.Count("failing_writers", 1)
		if err != r.rec.failErr || ctx.Error != r.rec.failErr || r.rec.lateN > 0 || !bytes.HasPrefix(first, r.rec.out) {
			c.Fail("a failed write of a document is not reported, or the document goes on", fmt.Sprint(err, r.rec.failAt, r.rec.lateN), js(n))
		}
	}
	c.Sample(func() any {
		return map[string]any{"document": js(n), "output": fmt.Sprintf("%.400q", first)}
	})
}

// skeleton reads the skeleton of a document back
func (c *Case) skeleton(n *Node, out []byte) {
	fail := func(what string) {
		c.Fail(what, map[string]any{"document": js(n), "output": fmt.Sprintf("%.1000q", out)})
	}
	z := xhtml.NewTokenizer(bytes.NewReader(out))
	next := func() xhtml.Token {
		for {
			tt := z.Next()
			t := z.Token()
			if tt == xhtml.TextToken && len(bytes.TrimSpace([]byte(t.Data))) == 0 {
				continue
			}
			return t
		}
	}
	if t := next(); t.Type != xhtml.DoctypeToken || t.Data != "html" {
		fail("does not begin with the HTML5 doctype")
	}
	t := next()
	if t.Type != xhtml.StartTagToken || t.Data != "html" {
		fail("no html element after the doctype")
	}
	if (len(t.Attr) == 1 && t.Attr[0].Key == "lang") != (len(n.Vals) > 0) || len(t.Attr) > 1 {
		fail("the html element has a lang attribute, or none, against what was given")
	}
	t = next()
	if len(n.Head) > 0 {
		if t.Type != xhtml.StartTagToken || t.Data != "head" {
			fail("no head element")
		}
	} else if t.Type != xhtml.StartTagToken || t.Data != "body" {
		fail("no body element")
	}
	if !bytes.HasSuffix(out, []byte("</body></html>")) {
		fail("does not end with the body and the html element")
	}
	// no generated content contains these names
	for what, count := range map[string]int{"<html": 1, "</html>": 1, "<body": 1, "</body>": 1, "<head": min(1, len(n.Head)), "</head>": min(1, len(n.Head)), "<!DOCTYPE html>": 1} {
		got := bytes.Count(out, []byte(what))
		if what == "<!DOCTYPE html>" && got >= 1 { // processing instructions may be among the contents
			continue
		}
		if got != count {
			fail(fmt.Sprintf("%d of %s, expected %d", got, what, count))
		}
	}
}

package main

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/go-andiamo/aitch"
)

// C22: CSS declarations and units.  The oracle computes the declarations an element has to have
// from the standard property names and units and compares them with the style attribute that is
// read back from the start tag.

func init() {
	register(&Prop{ID: "C22", Quick: 200000, Thor: 12000000, Run: runC22,
		Rule: "elements (void ones, imperative tags, documents) with up to 80 declarations by the 133 property constructors and html.Style/svg.Style, spread over contents, nested collections and conditionals (active or not), with values of all kinds: static, dynamic, empty, none, several, the 15 units nested and mixed; units used in texts, attributes, concatenations and other units; several nodes built from the same argument slices; slices with spare capacity, changed afterwards; non-trivial: two declarations or a unit with a dynamic value",
		Min:  map[string]int64{"tags": 100000, "declarations": 300000, "properties": 133, "units": 15, "unit_values": 60000, "conditional_active": 30000, "conditional_inactive": 20000, "style_attributes": 20000, "dynamic_values": 50000, "unit_texts": 10000}})
}

// unitVal generates a value with a unit
func (c *Case) unitVal(g *Gen, depth int) *Val {
	v := &Val{K: "unit", S: units[c.N(len(units))]}
	for i := []int{1, 1, 1, 0, 2, c.few(4)}[c.N(6)]; i > 0; i-- {
		switch {
		case depth > 0 && c.Pct(20):
			v.Sub = append(v.Sub, c.unitVal(g, depth-1))
		case c.Pct(40):
			v.Sub = append(v.Sub, &Val{K: "int", S: "int", N: int64(c.N(100))})
		default:
			v.Sub = append(v.Sub, g.val(false, 1))
		}
	}
	return v
}

func runC22(c *Case) {
	g := newGen(c.Rand, Cfg{Dyn: c.Pct(70), DynHeavy: c.Pct(30), Empty: true, Named: true, Depth: 2, Kids: 2, Budget: 6})
	if c.Idx < len(cssProps) {
		c.Count("properties", 1)
	}
	if c.Idx < len(units) {
		c.Count("units", 1)
	}
	value := func() *Val {
		if c.Pct(40) {
			c.Count("unit_values", 1)
			return c.unitVal(g, 2)
		}
		if c.Pct(30) {
			return &Val{K: "str", S: c.Pick("solid", "auto", "red", "0", " !important", "url('x')", "none", "a; b:c")}
		}
		return g.val(false, 2)
	}
	values := func(n int) (vs []*Val) {
		for ; n > 0; n-- {
			vs = append(vs, value())
		}
		return vs
	}
	if c.Pct(12) {
		c.unitsAlone(g, value)
		return
	}
	count := c.Range(1, 8)
	if c.Pct(3) {
		count = c.Range(20, 80)
	}
	var decls []*Node
	for i := 0; i < count; i++ {
		e := cssProps[c.N(len(cssProps))]
		if i == 0 {
			e = cssProps[c.Idx%len(cssProps)]
		}
		n := &Node{K: "dattr", Name: "style", Delim: "; ", Ctor: e.Fn, Vals: values([]int{1, 1, 1, 2, 3, c.few(5)}[c.N(6)])}
		if c.Pct(15) {
			n.Ctor, n.Vals = c.Pick("html.Style", "svg.Style", ""), values(c.few(3))
			c.Count("style_attributes", 1)
		}
		decls = append(decls, n)
	}
	c.Count("declarations", len(decls))
	imper := c.Pct(15)
	var spread func(ds []*Node, depth int) []*Node
	spread = func(ds []*Node, depth int) (result []*Node) {
		for len(ds) > 0 {
			n := 1 + c.N(len(ds))
			switch {
			case c.Pct(15):
				result = append(result, &Node{K: "text", Vals: []*Val{{K: "str", S: "t"}}})
			case c.Pct(10):
				result = append(result, &Node{K: "attr", Name: c.Pick("id", "title"), Vals: []*Val{value()}})
			case depth > 0 && c.Pct(20):
				result, ds = append(result, &Node{K: "coll", Kids: spread(ds[:n], depth-1)}), ds[n:]
			case depth > 0 && c.Pct(20):
				k := &Node{K: "cond", ID: g.next(), Kids: spread(ds[:n], depth-1)}
				g.condIDs = append(g.condIDs, k.ID)
				if c.Pct(30) {
					k.K, k.Key = "when", c.Pick("", "!")+fmt.Sprintf("k%d", c.N(6))
				}
				result, ds = append(result, k), ds[n:]
			default:
				result, ds = append(result, ds[0]), ds[1:]
			}
		}
		return result
	}
	kids := spread(decls, 3)
	var tree *Node
	skip := ""
	switch {
	case imper:
		kids = decls
		tree = &Node{K: "imper", ID: g.next(), Ops: []*Op{{K: "start", S: "i", Void: c.Pct(50), Nodes: decls}, {K: "endall"}}}
	case c.Pct(10):
		tree, skip = &Node{K: "doc", Kids: kids}, "<!DOCTYPE html>\n<html>"
	case c.Pct(30):
		tree = &Node{K: "void", Name: "img", Via: c.N(2), Kids: kids}
	default:
		tree = &Node{K: "elem", Name: c.Pick("div", "p", "g"), Via: c.N(2), Kids: kids}
		tree.Ctor = g.named(byElem, tree.Name)
	}
	b := &Builder{hostile: true}
	node := b.node(tree)
	if e := b.checkArgs(); e != "" {
		c.Fail("a constructor changed its arguments: "+e, js(tree))
	}
	for r := c.Range(1, 3); r > 0; r-- {
		c.judgeStyle(tree, kids, node, g.newRun(c.Rand), skip)
		if c.Pct(50) {
			b.junkArgs()
		}
	}
	if e := b.checkArgs(); e != "" {
		c.Fail("a render changed the arguments: "+e, js(tree))
	}
}

func (c *Case) judgeStyle(tree *Node, kids []*Node, node aitch.Node, run *Run, skip string) {
	_, err := render(node, run)
	c.Eval()
	c.Count("tags", 1)
	fail := func(what string) {
		c.Fail(what, map[string]any{"tree": js(tree), "output": fmt.Sprintf("%.800q", run.rec.out), "data": dump(run.data)})
	}
	if err != nil {
		fail("render failed: " + err.Error())
	}
	if !bytes.HasPrefix(run.rec.out, []byte(skip)) {
		fail("unexpected beginning of the output")
	}
	_, attrs, _, e := parseStartTag(run.rec.out[len(skip):])
	if e != "" {
		fail("malformed start tag: " + e)
	}
	m := &model{run: run}
	env := &Env{data: run.data, cargo: run.cargo}
	text := func(a atom) string {
		t := &model{run: run}
		t.atom(a, env, 0)
		c.Count("dynamic_values", len(t.ev))
		return string(t.out)
	}
	var always, sometimes []string
	declared, active := false, 0
	for _, d := range attrDecls(kids, nil) {
		if d.n.Name != "style" {
			continue
		}
		on := true
		for _, k := range d.conds {
			on = on && m.holds(k, env)
		}
		if !on {
			c.Count("conditional_inactive", 1)
			continue
		}
		declared = true
		var parts []string
		if e, ok := cat[d.n.Ctor]; ok && e.Kind == "css" { // one declaration: name, colon, all values
			parts = []string{e.Name + text(flat(atomsOf(d.n.Vals)))}
		} else {
			for _, a := range atomsOf(d.n.Vals) {
				parts = append(parts, text(a))
			}
		}
		if len(d.conds) == 0 {
			always = append(always, parts...)
		} else {
			active++
			c.Count("conditional_active", 1)
			sometimes = append(sometimes, parts...)
		}
	}
	var style *tagAttr
	for i := range attrs {
		if attrs[i].name == "style" {
			if style != nil {
				fail("more than one style attribute")
			}
			style = &attrs[i]
		}
	}
	switch {
	case style == nil && declared:
		fail("no style attribute")
	case style == nil:
		return
	case !declared:
		fail("a style attribute though no declaration is active")
	case !style.has:
		fail("style attribute without a value")
	}
	parts := append(always, sometimes...)
	empty := false
	for _, p := range parts {
		empty = empty || p == ""
	}
	if !empty {
		if want := strings.Join(parts, "; "); style.value != want {
			fail(fmt.Sprintf("style is %q, expected %q", style.value, want))
		}
	} else if e := delimitedOK(style.value, "; ", parts); e != "" {
		fail(fmt.Sprintf("style is %q: %s", style.value, e))
	}
	if len(parts) > 1 {
		c.NonTrivial(run.rec.out)
		c.Sample(func() any { return map[string]any{"tree": js(tree), "output": fmt.Sprintf("%.400q", run.rec.out)} })
	}
}

// unitsAlone uses units outside of declarations, and several nodes built from the same slices
func (c *Case) unitsAlone(g *Gen, value func() *Val) {
	v := c.unitVal(g, 3)
	b := &Builder{hostile: true}
	args := make([]any, 0, len(v.Sub)+4)
	for _, s := range v.Sub {
		args = append(args, b.val(s))
	}
	args = args[:len(args):cap(args)]
	names := []string{v.S, units[c.N(len(units))], units[c.N(len(units))]}
	prop := cssProps[c.N(len(cssProps))]
	var built []aitch.Node
	var want []func(run *Run) string
	text := func(as atom) func(run *Run) string {
		return func(run *Run) string {
			m := &model{run: run}
			m.atom(as, &Env{data: run.data, cargo: run.cargo}, 0)
			return string(m.out)
		}
	}
	for _, name := range names { // the same slice for several units and a property
		as := append(flat(atomsOf(v.Sub)), leaf{text: cat[name].Name})
		value := reg_unit[name](args...)
		built = append(built, aitch.Text(value), aitch.Element("i", aitch.Attribute("title", "a", value, "b")), aitch.Text(aitch.NewConcatValue("x", value, value)))
		f := text(as)
		want = append(want, f, func(run *Run) string { return `<i title="a` + f(run) + `b"></i>` }, func(run *Run) string { return "x" + f(run) + f(run) })
		if prop.Fn != "" {
			built = append(built, aitch.Element("i", reg_any[prop.Fn](args...), reg_any[prop.Fn](value)))
			plain := text(flat(atomsOf(v.Sub)))
			want = append(want, func(run *Run) string {
				return `<i style="` + prop.Name + plain(run) + "; " + prop.Name + f(run) + `"></i>`
			})
		}
	}
	full := args[:cap(args)]
	for i := len(args); i < len(full); i++ {
		if full[i] != nil {
			c.Fail("a unit constructor wrote beyond the arguments it was given", names, fmt.Sprint(full[i]))
		}
	}
	for i := range args { // what was built is independent of the slice
		args[i] = "JUNK"
	}
	for k := c.Range(1, 2); k > 0; k-- {
		run := g.newRun(c.Rand)
		for i, n := range built {
			r := run.again()
			_, err := render(n, r)
			c.Eval()
			c.Count("unit_texts", 1)
			if w := want[i](r); err != nil || string(r.rec.out) != w {
				c.Fail("a value with a unit is not its values followed by its unit", map[string]any{"unit": names, "value": js(v), "output": string(r.rec.out), "want": w})
			}
			c.NonTrivial(r.rec.out)
		}
	}
}

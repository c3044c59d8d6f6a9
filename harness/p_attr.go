package main

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/go-andiamo/aitch"
)

// C03: every attribute once, last one wins, delimited ones merge.  The oracle is the rule itself,
// applied to the sequence of declarations; the start tag is read back by a strict parser.

type tagAttr struct {
	name  string
	value string
	has   bool
}

// parseStartTag reads a start tag at the beginning of the output
func parseStartTag(out []byte) (name string, attrs []tagAttr, rest []byte, err string) {
	if len(out) == 0 || out[0] != '<' {
		return "", nil, nil, "no start tag"
	}
	i := 1
	for i < len(out) && out[i] != ' ' && out[i] != '>' {
		i++
	}
	name = string(out[1:i])
	for i < len(out) && out[i] == ' ' {
		i++
		j := i
		for j < len(out) && out[j] != '=' && out[j] != ' ' && out[j] != '>' && out[j] != '"' {
			j++
		}
		if j == i {
			return name, attrs, nil, "attribute without a name"
		}
		a := tagAttr{name: string(out[i:j])}
		i = j
		if i < len(out) && out[i] == '=' {
			if i+1 >= len(out) || out[i+1] != '"' {
				return name, attrs, nil, "attribute value without a quote"
			}
			k := bytes.IndexByte(out[i+2:], '"')
			if k < 0 {
				return name, attrs, nil, "unterminated attribute value"
			}
			a.value, a.has = string(out[i+2:i+2+k]), true
			i += k + 3
		}
		attrs = append(attrs, a)
	}
	if i >= len(out) || out[i] != '>' {
		return name, attrs, nil, "unterminated start tag"
	}
	return name, attrs, out[i+1:], ""
}

// delimitedOK checks that the value is the non-empty parts in order, separated by at least one
// delimiter, with no more delimiters than the empty parts explain
func delimitedOK(value, delim string, parts []string) string {
	what := delimitedGreedy(value, delim, parts)
	if what != "" && delim != "" {
		for _, p := range parts { // parts may begin or end like delimiters
			if strings.HasPrefix(p, delim[:1]) || strings.HasSuffix(p, delim[len(delim)-1:]) {
				if delimitedAnyhow(value, delim, parts) {
					return ""
				}
				break
			}
		}
	}
	return what
}

// delimitedAnyhow tells whether there is any way to read a value as the parts
func delimitedAnyhow(value, delim string, parts []string) bool {
	full, empties := 0, 0
	now := map[int]int{0: 0} // places in the value, with the fewest delimiters up to there
	delims := func(from map[int]int, least int) map[int]int {
		result := map[int]int{}
		for at, n := range from {
			for k := 0; ; k++ {
				if have, ok := result[at]; k >= least && (!ok || n+k < have) {
					result[at] = n + k
				}
				if !strings.HasPrefix(value[at:], delim) {
					break
				}
				at += len(delim)
			}
		}
		return result
	}
	for _, p := range parts {
		if p == "" {
			empties++
			continue
		}
		now = delims(now, min(full, 1))
		next := map[int]int{}
		for at, n := range now {
			if strings.HasPrefix(value[at:], p) {
				next[at+len(p)] = n
			}
		}
		now = next
		full++
	}
	n, ok := delims(now, 0)[len(value)]
	return ok && n <= max(0, full-1)+empties
}

func delimitedGreedy(value, delim string, parts []string) string {
	var full []string
	for _, p := range parts {
		if p != "" {
			full = append(full, p)
		}
	}
	empties := len(parts) - len(full)
	delims := 0
	eat := func() (n int) {
		for delim != "" && strings.HasPrefix(value, delim) {
			value = value[len(delim):]
			n++
		}
		return n
	}
	delims += eat()
	for i, p := range full {
		if i > 0 {
			n := eat()
			if n == 0 && delim != "" {
				return fmt.Sprintf("values run together before %q", p)
			}
			delims += n
		}
		if !strings.HasPrefix(value, p) {
			return fmt.Sprintf("value %q expected at %q", p, value)
		}
		value = value[len(p):]
	}
	delims += eat()
	if value != "" {
		return fmt.Sprintf("unexpected %q", value)
	}
	if limit := max(0, len(full)-1) + empties; delim != "" && delims > limit {
		return fmt.Sprintf("%d delimiters for %d values and %d empty ones", delims, len(full), empties)
	}
	return ""
}

func init() {
	register(&Prop{ID: "C03", Quick: 240000, Thor: 6000000, Run: runC03,
		Rule: "random sequences of plain, boolean and delimited (class, style, css, svg, htmx) declarations of a few names, spread over the contents and nested collections of elements, void elements, imperative tags and documents, with static, dynamic and empty values; the start tag is parsed and compared with the rule applied to the sequence; non-trivial: some name declared at least twice",
		Min:  map[string]int64{"tags": 60000, "repeated": 40000, "merged": 15000, "overridden": 15000, "empty_values": 5000, "after_delimited": 1000, "kinds_mixed": 20000}})
}

type attrPlan struct {
	name  string
	delim string // of the delimited declarations
	kind  string // plain, delim, mixed (delimited ones, then plain ones), custom
}

func runC03(c *Case) {
	if c.Idx%11 == 3 {
		c.onceOnly()
		return
	}
	g := newGen(c.Rand, Cfg{Depth: 3, Kids: 3, Budget: 10, Dyn: c.Pct(60), Empty: true, Named: true})
	var plans []attrPlan
	for i := c.Range(1, 5); i > 0; i-- {
		switch c.N(6) {
		case 0, 1:
			plans = append(plans, attrPlan{name: c.Pick("id", "title", "href", "a-b", "x:y", "A.b", "Title", "TITLE", "Id", "a.b", "hidden", "checked", "open"), kind: "plain"})
		case 2:
			d := delimAttrs[c.N(len(delimAttrs))]
			plans = append(plans, attrPlan{name: d[0], delim: d[1], kind: "mixed"})
		default:
			d := delimAttrs[c.N(len(delimAttrs))]
			if c.Pct(20) {
				d = [2]string{c.Pick("hx-trigger", "hx-params", "hx-inherit", "hx-disinherit"), " "}
			}
			plans = append(plans, attrPlan{name: d[0], delim: d[1], kind: "delim"})
		}
	}
	if c.Pct(30) { // names that almost are the name of another one
		n := plans[c.N(len(plans))].name
		n = []string{n + ":", n + "-", n + ".", n + "_", n + n, n[:len(n)-1] + "x", n + "0", strings.ToUpper(n), "x" + n, n[:1]}[c.N(10)]
		plans = append(plans, attrPlan{name: n, kind: "plain"})
	}
	seen := map[string]bool{}
	uniq := plans[:0:0]
	for _, p := range plans {
		if !seen[p.name] {
			seen[p.name] = true
			uniq = append(uniq, p)
		}
	}
	plans = uniq
	// the declarations in order
	var decls []*Node
	gone := map[string]bool{} // mixed names that have turned plain
	total := c.Range(1, 12)
	if c.Pct(3) {
		total = c.Range(20, 80)
		if c.Pct(10) {
			total = c.Range(200, 600)
		}
	}
	part := 0
	vals := func(n int) (result []*Val) {
		for ; n > 0; n-- {
			v := g.val(false, 2)
			if c.Pct(40) {
				part++
				v = &Val{K: "str", S: fmt.Sprintf("p%d", part)}
			}
			result = append(result, v)
		}
		return result
	}
	for i := 0; i < total; i++ {
		p := plans[c.N(len(plans))]
		switch {
		case p.kind == "plain" || gone[p.name] || (p.kind == "mixed" && c.Pct(20)):
			gone[p.name] = p.kind == "mixed"
			switch {
			case c.Pct(30):
				decls = append(decls, &Node{K: "battr", Name: p.name, Via: c.N(2), Ctor: g.named(byAttr, "bool:"+p.name)})
			case c.Pct(10):
				decls = append(decls, &Node{K: "uattr", Name: p.name, ID: g.next()})
			default:
				decls = append(decls, &Node{K: "attr", Name: p.name, Via: c.N(2), Ctor: g.named(byAttr, "attr:"+p.name), Vals: vals(c.few(4))})
			}
		default:
			n := &Node{K: "dattr", Name: p.name, Delim: p.delim, Via: c.N(2), Ctor: g.named(byAttr, "delim:"+p.name), Vals: vals(c.few(4))}
			if p.name == "style" && c.Pct(50) {
				n.Ctor = cssProps[c.N(len(cssProps))].Fn
			}
			decls = append(decls, n)
		}
	}
	// spread them over contents and nested collections
	var kids []*Node
	var spread func(ds []*Node, depth int) []*Node
	spread = func(ds []*Node, depth int) (result []*Node) {
		for len(ds) > 0 {
			switch {
			case c.Pct(25):
				result = append(result, &Node{K: "text", Vals: []*Val{{K: "str", S: "t"}}})
			case depth > 0 && c.Pct(30):
				n := 1 + c.N(len(ds))
				coll := &Node{K: "coll", Kids: spread(ds[:n], depth-1)}
				for i := c.N(4); c.Pct(4) && i < 30; i++ {
					for j := c.N(12); j > 0; j-- {
						coll = &Node{K: "coll", Kids: []*Node{coll}}
					}
				}
				result = append(result, coll)
				ds = ds[n:]
			default:
				if c.Pct(5) {
					result = append(result, nil)
				}
				result = append(result, ds[0])
				ds = ds[1:]
			}
		}
		return result
	}
	kids = spread(decls, 4)
	form := c.N(10)
	var tree *Node
	skip := ""
	switch form {
	case 0, 1, 2:
		tree = &Node{K: "elem", Name: "div", Via: c.N(2), Kids: kids}
	case 3:
		tree = &Node{K: "elem", Name: "p", Ctor: "html.P", Kids: kids}
	case 4:
		tree = &Node{K: "void", Name: "img", Via: c.N(2), Kids: kids}
	case 5:
		tree = &Node{K: "elem", Name: "br", Via: 0, Kids: kids}
	case 6:
		tree = &Node{K: "elem", Name: "g", Ctor: "svg.G", Kids: kids}
	case 7:
		tree, skip = &Node{K: "doc", Kids: kids}, "<!DOCTYPE html>\n<html>"
	default:
		tree = &Node{K: "imper", ID: g.next(), Ops: []*Op{{K: "start", S: "i", Nodes: decls, Void: c.Pct(50)}, {K: "endall"}}}
	}
	node := (&Builder{}).node(tree)
	for r := c.Range(1, 2); r > 0; r-- {
		run := g.newRun(c.Rand)
		c.judgeTag(tree, decls, node, run, skip)
	}
}

// onceOnly declares attributes of all kinds under the same few names, also under conditions: whatever
// wins, a name that is declared (and whose condition holds) must be there exactly once
func (c *Case) onceOnly() {
	g := newGen(c.Rand, Cfg{Depth: 3, Kids: 3, Budget: 10, Dyn: c.Pct(60), Empty: true, Cond: true})
	names := [][2]string{{"class", " "}, {"style", "; "}, {"id", ","}, {"x-y", " "}}[:c.Range(1, 4)]
	decl := func() *Node {
		d := names[c.N(len(names))]
		switch c.N(4) {
		case 0:
			return &Node{K: "battr", Name: d[0], Via: c.N(2)}
		case 1:
			return &Node{K: "uattr", Name: d[0], ID: g.next()}
		case 2:
			return &Node{K: "attr", Name: d[0], Via: c.N(2), Vals: []*Val{g.val(false, 1)}}
		}
		return &Node{K: "dattr", Name: d[0], Delim: d[1], Via: c.N(2), Vals: []*Val{g.val(false, 1), g.val(false, 1)}[:c.N(3)]}
	}
	var list func(depth int) []*Node
	list = func(depth int) (result []*Node) {
		for i := c.Range(1, 4); i > 0; i-- {
			switch {
			case depth == 0 || c.Pct(50):
				result = append(result, decl())
			case c.Pct(25):
				result = append(result, &Node{K: "coll", Kids: list(depth - 1)})
			case c.Pct(40):
				result = append(result, &Node{K: "when", Key: c.Pick("", "!") + g.condKey(), Kids: list(depth - 1)})
			default:
				id := g.next()
				g.condIDs = append(g.condIDs, id)
				result = append(result, &Node{K: "cond", ID: id, Kids: list(depth - 1)})
			}
		}
		return result
	}
	tree := &Node{K: c.Pick("elem", "elem", "void"), Name: "img", Via: c.N(2), Kids: list(3)}
	node := (&Builder{}).node(tree)
	for r := 3; r > 0; r-- {
		run := g.newRun(c.Rand)
		_, err := render(node, run)
		c.Eval()
		c.Count("kinds_mixed", 1)
		bad := func(what string) {
			c.Fail(what, map[string]any{"tree": js(tree), "output": fmt.Sprintf("%.600q", run.rec.out), "data": dump(run.data), "conditions": fmt.Sprint(run.truth)})
		}
		if err != nil {
			bad("render failed: " + err.Error())
		}
		want := map[string]int{}
		m := &model{run: run}
		for _, d := range attrDecls(tree.Kids, nil) {
			active := true
			for _, cn := range d.conds {
				active = active && m.holds(cn, &Env{data: run.data})
			}
			if active {
				want[d.n.Name] = 1
			}
		}
		_, attrs, _, e := parseStartTag(run.rec.out)
		if e != "" {
			bad("malformed start tag: " + e)
		}
		for _, a := range attrs {
			want[a.name]--
		}
		for name, n := range want {
			switch {
			case n > 0:
				bad("attribute " + name + " is missing")
			case n < 0:
				bad("attribute " + name + " is there too often, or although no condition holds")
			}
		}
	}
}

func (c *Case) judgeTag(tree *Node, decls []*Node, node aitch.Node, run *Run, skip string) {
	if _, err := render(node, run); err != nil {
		c.Fail("render failed", err.Error(), js(tree))
	}
	c.Eval()
	c.Count("tags", 1)
	bad := func(what string) {
		c.Fail(what, map[string]any{"tree": js(tree), "output": fmt.Sprintf("%.600q", run.rec.out), "data": dump(run.data)})
	}
	if !bytes.HasPrefix(run.rec.out, []byte(skip)) {
		bad("unexpected beginning of the output")
	}
	_, attrs, _, e := parseStartTag(run.rec.out[len(skip):])
	if e != "" {
		bad("malformed start tag: " + e)
	}
	// the rule
	var names []string
	byName := map[string][]*Node{}
	for _, d := range decls {
		if byName[d.Name] == nil {
			names = append(names, d.Name)
		}
		byName[d.Name] = append(byName[d.Name], d)
	}
	var got []string
	for _, a := range attrs {
		got = append(got, a.name)
	}
	if strings.Join(names, "|") != strings.Join(got, "|") {
		bad(fmt.Sprintf("attributes are %v, expected once each in the order %v", got, names))
	}
	text := func(as []atom) (parts []string) {
		for _, a := range as {
			m := &model{run: run}
			m.atom(a, &Env{data: run.data, cargo: run.cargo}, 0)
			parts = append(parts, string(m.out))
		}
		return parts
	}
	for i, name := range names {
		ds := byName[name]
		last := ds[len(ds)-1]
		if len(ds) > 1 {
			c.Count("repeated", 1)
		}
		switch last.K {
		case "battr":
			if attrs[i].has {
				bad("boolean attribute " + name + " has a value")
			}
		case "uattr":
			if want := fmt.Sprintf("{%d}", last.ID); attrs[i].value != want {
				bad(fmt.Sprintf("attribute %s is %q, expected the last declaration's %q", name, attrs[i].value, want))
			}
		case "attr":
			want := strings.Join(text(attrAtoms(last)), "")
			if !attrs[i].has || attrs[i].value != want {
				bad(fmt.Sprintf("attribute %s is %q, expected the last declaration's %q", name, attrs[i].value, want))
			}
			if len(ds) > 1 {
				c.Count("overridden", 1)
				if ds[0].K == "dattr" {
					c.Count("after_delimited", 1)
				}
			}
		case "dattr":
			var parts []string
			for _, d := range ds {
				parts = append(parts, text(attrAtoms(d))...)
			}
			for _, p := range parts {
				if p == "" {
					c.Count("empty_values", 1)
				}
			}
			if !attrs[i].has {
				bad("delimited attribute " + name + " has no value")
			}
			if e := delimitedOK(attrs[i].value, last.Delim, parts); e != "" {
				bad(fmt.Sprintf("delimited attribute %s is %q: %s", name, attrs[i].value, e))
			}
			if len(ds) > 1 {
				c.Count("merged", 1)
			}
		}
	}
	if len(names) < len(decls) {
		c.NonTrivial(run.rec.out)
		c.Sample(func() any {
			return map[string]any{"declarations": js(decls), "output": fmt.Sprintf("%.400q", run.rec.out)}
		})
	}
}

package main

import (
	"bytes"
	"fmt"
	"strings"
	"unicode/utf8"

	"github.com/go-andiamo/aitch"
)

// C14: names are checked, and nil nodes are ignored.  The first 256 cases try every name of one and
// two bytes (and those in the middle and at the end of longer ones), the others random names and
// trees with nil nodes put everywhere.

func init() {
	register(&Prop{ID: "C14", Quick: 160000, Thor: 3000000, Run: runC14,
		Rule: "all names of one and two bytes, every byte at the start, in the middle and at the end of longer names, and random names (one foreign code point or byte in a valid name, look-alike letters, whitespace, newlines, very long ones) for all five checked constructors with panicking off and on, judged by a hand-written scanner; random trees with nil nodes (plain ones and those of checked constructors) inserted into every kind of list, compared with the same trees without them; non-trivial: a name, or a tree with nil nodes that renders something",
		Min:  map[string]int64{"names_checked": 800000, "valid_names": 30000, "invalid_names": 100000, "nil_trees": 30000, "nil_nodes": 150000, "nil_in_elem": 15000, "nil_in_coll": 5000, "nil_in_cond": 5000, "nil_in_iter": 1500, "nil_in_collect": 1500, "nil_in_imper": 4000, "nil_in_doc": 1000, "nil_in_templates": 10000}})
}

// validName is the rule for names
func validName(s string) bool {
	for i := 0; i < len(s); i++ {
		b := s[i]
		letter := 'a' <= b && b <= 'z' || 'A' <= b && b <= 'Z'
		if letter {
			continue
		}
		if i == 0 || !('0' <= b && b <= '9' || b == '.' || b == '_' || b == '-' || b == ':') {
			return false
		}
	}
	return len(s) > 0
}

var checkedCtors = []struct {
	name string
	typ  aitch.NodeType
	f    func(name string) aitch.Node
}{
	{"Element", aitch.ElementNode, func(n string) aitch.Node { return aitch.Element(n, "c") }},
	{"VoidElement", aitch.ElementNode, func(n string) aitch.Node { return aitch.VoidElement(n, "c") }},
	{"Attribute", aitch.AttributeNode, func(n string) aitch.Node { return aitch.Attribute(n, "v") }},
	{"BooleanAttribute", aitch.AttributeNode, func(n string) aitch.Node { return aitch.BooleanAttribute(n) }},
	{"DelimitedAttribute", aitch.AttributeNode, func(n string) aitch.Node { return aitch.DelimitedAttribute(n, ",", "v", "w") }},
}

func (c *Case) checkName(name string) {
	valid := validName(name)
	for i, ctor := range checkedCtors {
		for _, panics := range []bool{false, true} {
			var node aitch.Node
			var raised any
			aitch.PanicOnInvalidName = panics
			func() {
				defer func() {
					aitch.PanicOnInvalidName = false
					raised = recover()
				}()
				node = ctor.f(name)
			}()
			c.w.counters["names_checked"]++
			switch {
			case valid && raised != nil:
				c.Fail(fmt.Sprintf("%s panics for the valid name %q", ctor.name, name), fmt.Sprint(raised))
			case valid && node == nil:
				c.Fail(fmt.Sprintf("%s returns nil for the valid name %q", ctor.name, name))
			case valid && (node.Name() != name || node.Type() != ctor.typ):
				c.Fail(fmt.Sprintf("%s has name %q and type %d for %q", ctor.name, node.Name(), node.Type(), name))
			case !valid && panics && raised == nil:
				c.Fail(fmt.Sprintf("%s does not panic for the invalid name %q although that is switched on", ctor.name, name))
			case !valid && !panics && raised != nil:
				c.Fail(fmt.Sprintf("%s panics for the invalid name %q although that is switched off", ctor.name, name), fmt.Sprint(raised))
			case !valid && !panics && node != nil:
				c.Fail(fmt.Sprintf("%s accepts the invalid name %q", ctor.name, name))
			}
			if valid && !panics {
				want := "<" + name + ">c</" + name + ">"
				if i == 1 || (i == 0 && voidNames[name]) {
					want = "<" + name + ">"
				}
				if i >= 2 {
					want = `<e ` + name + []string{`="v"`, ``, `="v,w"`}[i-2] + `></e>`
					node = aitch.Element("e", node)
				}
				run := &Run{}
				if _, err := render(node, run); err != nil || string(run.rec.out) != want {
					c.Fail(fmt.Sprintf("%s renders %q for the name %q", ctor.name, run.rec.out, name))
				}
			}
		}
	}
	c.Eval()
	if valid {
		c.w.counters["valid_names"]++
	} else {
		c.w.counters["invalid_names"]++
	}
}

var lookalikes = []rune("аеорсӏɡАВСＡｂＺ０１９．＿－：ªºµßıſKÅ²³¹½·˙–—‐‑\u00ad\u200b\u200d\u2060\ufeff\u0300\u2028\u0085\u00a0")

func (c *Case) aName(n int) string {
	const first = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
	const rest = first + "0123456789._-:"
	b := make([]byte, n)
	for i := range b {
		b[i] = rest[c.N(len(rest))]
	}
	if n > 0 {
		b[0] = first[c.N(len(first))]
	}
	return string(b)
}

func runC14(c *Case) {
	if c.Idx < 256 {
		b := byte(c.Idx)
		c.checkName(string([]byte{b}))
		for i := 0; i < 256; i++ {
			c.checkName(string([]byte{b, byte(i)}))
			if c.Thorough() {
				for j := 0; j < 256; j++ {
					c.checkName(string([]byte{b, byte(i), byte(j)}))
				}
			}
		}
		for _, s := range []string{"a%sb", "div%s", "%sdiv", "a-b:%sc", "data-%s", "x%s\n", "a%s%s"} {
			c.checkName(strings.ReplaceAll(s, "%s", string([]byte{b})))
		}
		if c.Idx == 0 {
			c.checkName("")
		}
		c.Count("systematic_first_bytes", 1)
		c.NonTrivial("byte", c.Idx)
		return
	}
	if c.Idx%2 == 0 {
		for i := 0; i < 6; i++ {
			n := c.N(12)
			if c.Pct(2) {
				n = c.Range(100, 5000)
			}
			name := c.aName(n)
			switch c.N(8) {
			case 0, 1:
			case 2: // one foreign rune
				at := c.N(len(name) + 1)
				r := lookalikes[c.N(len(lookalikes))]
				if c.Pct(50) {
					r = rune(c.N(0x110000))
				}
				name = name[:at] + string(r) + name[at:]
			case 3: // one foreign byte
				at := c.N(len(name) + 1)
				name = name[:at] + string([]byte{byte(c.N(256))}) + name[at:]
			case 4: // valid around a line break
				name += c.Pick("\n", "\r\n", "\n\n", "\r", "\x00", " ", "\t") + c.aName(c.N(4))
			case 5:
				name = c.Pick("\n", " ", "-", ".", ":", "_", "1", "/", "!", "\ufeff", "\u200b") + name
			case 6:
				name += c.Pick(" onload=x", ">", "/", "=", "\"", "'", "<", ">x", " ", "\ufeff")
			case 7:
				name = string(lookalikes[c.N(len(lookalikes))])
			}
			c.checkName(name)
			c.NonTrivial(name)
			if !utf8.ValidString(name) {
				c.Count("names_not_utf8", 1)
			}
		}
		return
	}
	c.nilTree()
}

// withNils copies the tree with nil nodes put into its lists
func (c *Case) withNils(n *Node, pct int) *Node {
	if n == nil || n.isAttr() || n.K == "plain" {
		return n
	}
	k := *n
	list := func(kind string, ns []*Node) (result []*Node) {
		for _, x := range ns {
			for c.Pct(pct) {
				result = append(result, nil)
				c.Count("nil_in_"+kind, 1)
				c.Count("nil_nodes", 1)
			}
			result = append(result, c.withNils(x, pct))
		}
		for c.Pct(pct) {
			result = append(result, nil)
			c.Count("nil_in_"+kind, 1)
			c.Count("nil_nodes", 1)
		}
		return result
	}
	kind := n.K
	switch kind {
	case "void":
		kind = "elem"
	case "when":
		kind = "cond"
	case "iterkey", "yield":
		kind = "iter"
	case "condnil":
		kind = "coll"
	}
	switch kind {
	case "elem", "cond", "iter", "coll", "collect", "doc":
		k.Kids = list(kind, n.Kids)
		if n.Head != nil {
			k.Head = list(kind, n.Head)
		}
	case "imper":
		k.Ops = nil
		for _, op := range n.Ops {
			o := *op
			if op.K == "start" || op.K == "nodes" {
				o.Nodes = list(kind, op.Nodes)
			}
			k.Ops = append(k.Ops, &o)
		}
	}
	return &k
}

func (c *Case) nilTree() {
	cfg := Cfg{Depth: 4, Kids: c.Range(1, 4), Budget: c.Range(2, 20), Attrs: 35, Cond: true, Iter: true, Imper: c.Pct(60), Collect: c.Pct(60), User: c.Pct(30), Dyn: c.Pct(50), Dup: true, Doc: c.Pct(40), Named: true, Empty: true}
	g := newGen(c.Rand, cfg)
	tree := g.richTree(c)
	pct := []int{10, 30, 60}[c.N(3)]
	nilTree := c.withNils(tree, pct)
	ctors := c.Pct(60)
	b := &Builder{hostile: c.Pct(30), nils: func() aitch.Node {
		if !ctors {
			return nil
		}
		bad := c.Pick("", "b@d", "1x", "a b", "x\n", "é", "-a")
		return checkedCtors[c.N(len(checkedCtors))].f(bad)
	}}
	run := g.newRun(c.Rand)
	m := modelRun(tree, run)
	plain := (&Builder{}).node(tree)
	node := b.node(nilTree)
	run2 := run.again()
	_, err1 := render(plain, run)
	_, err2 := render(node, run2)
	c.Eval()
	c.Count("nil_trees", 1)
	detail := func(got []byte) any {
		return map[string]any{"tree": js(nilTree), "diff": diff(m.out, got), "data": dump(run.data), "errors": fmt.Sprint(err1, err2)}
	}
	if err1 != nil || err2 != nil {
		c.Fail("render failed", detail(run2.rec.out))
	}
	if !bytes.Equal(run.rec.out, run2.rec.out) {
		c.Fail("a tree with nil nodes renders differently from the tree without them", detail(run2.rec.out))
	}
	if !bytes.Equal(m.out, run2.rec.out) {
		c.Fail("a tree with nil nodes renders differently from the model", detail(run2.rec.out))
	}
	if len(m.out) > 12 {
		c.NonTrivial(m.out)
	}
	if c.Pct(40) {
		run3 := run.again()
		run3.rec = newRec()
		run3.rec.run = run3
		nm := aitch.NodeMap{"a": node, "nothing": b.nilNode(), "void": nil, "n2": aitch.Text(nil, b.nilNode(), "x", nil)}
		t, err := aitch.NewTemplate("t", "<i>{{a .}}</i>{{n2 .}}", nm)
		if err != nil {
			c.Fail("nil entries in a template map: " + err.Error())
		}
		if err = t.Execute(run3.rec.w(), run3.data, run3.cargo); err != nil || string(run3.rec.out) != "<i>"+string(m.out)+"</i>x" {
			c.Fail("nil entries in a template map change the output", detail(run3.rec.out))
		}
		c.Count("nil_in_templates", 1)
		only := aitch.NodeMap{}
		for i := c.N(4); i > 0; i-- {
			only[fmt.Sprint("n", i)] = b.nilNode()
		}
		if len(only) == 0 && c.Pct(50) {
			only = nil
		}
		run4 := run.again()
		run4.rec = newRec()
		if t, err = aitch.NewTemplate("t", "<i>no nodes</i>", only); err != nil {
			c.Fail("a template map of nothing but nil entries: " + err.Error())
		}
		if err = t.Execute(run4.rec.w(), run4.data, run4.cargo); err != nil || string(run4.rec.out) != "<i>no nodes</i>" {
			c.Fail("a template map of nothing but nil entries changes the output", detail(run4.rec.out))
		}
		if t, err = aitch.NewTemplate("t", "<i>{{n1 .}}</i>", only); err == nil || t != nil {
			c.Fail("a marker of a nil entry in a template map is accepted")
		}
		// nothing but nil
		for _, n := range []aitch.Node{aitch.Collection(b.nilNode()), aitch.Conditional(nil, b.nilNode(), nil), aitch.When("!absent-key", nil, b.nilNode()), aitch.IterateKey("l0", b.nilNode()), aitch.Text(b.nilNode()), aitch.Fragment(nil)} {
			r := run.again()
			if _, err := render(n, r); err != nil || len(r.rec.out) > 0 {
				c.Fail("something made of nil nodes only renders something", fmt.Sprintf("%T %q %v", n, r.rec.out, err))
			}
		}
	}
	c.Sample(func() any { return map[string]any{"tree": js(nilTree), "output": string(m.out)} })
}

package main

import (
	"bytes"
	"fmt"
	"strings"
)

// C30: declarations that say the same are interchangeable.  A tree is rewritten by laws that do not
// change what it says; both trees are built and rendered with the same inputs, and what they write
// and call is compared with each other - no model of rendering is involved.

func init() {
	register(&Prop{ID: "C30", Quick: 60000, Thor: 2000000, Run: runC30,
		Rule: "random trees of all node kinds, rewritten 1-40 times at random places by 25 laws (grouping, splitting, merging, nothings, attributes moved past contents and split, other constructors and value types, elements as imperative calls, documents as elements...); outputs and sequences of callbacks (with data, cargo and depth) of both compared for several inputs; contents rendered alone and together; non-trivial: a rewritten tree with some output",
		Min:  map[string]int64{"pairs": 60000, "rewrites": 300000, "rendered_alone": 10000, "callbacks": 100000, "law_group": 50000, "law_ungroup": 3000, "law_nothing": 10000, "law_split_text": 3000, "law_merge_text": 500, "law_move_attr": 3000, "law_split_attr": 1000, "law_overridden": 2000, "law_split_when": 500, "law_true_around": 3000, "law_imperative": 2000, "law_collector": 2000, "law_constructor": 3000, "law_value_type": 3000, "law_value_parts": 3000, "shared": 10000, "law_nil_value": 3000, "law_concat": 1000, "law_void_contents": 1000, "law_document": 500}})
}

const newID = 1 << 20 // ids of what the laws add

type rewriter struct {
	*Case
	run   []func(*Run)
	id    int
	laws  map[string]int
	quiet bool // no more callbacks
	apart bool // what is used several times becomes several copies
}

func (w *rewriter) law(name string) { w.laws[name]++ }

func (w *rewriter) nextID() int { w.id++; return newID + w.id }

// cloneTree copies a tree
func (w *rewriter) cloneTree(n *Node, seen map[*Node]*Node) *Node {
	if n == nil {
		return nil
	}
	if r, ok := seen[n]; ok && n.Same && !w.apart {
		return r
	}
	r := *n
	seen[n] = &r
	r.Vals = append([]*Val{}, n.Vals...)
	list := func(ns []*Node) (result []*Node) {
		for _, k := range ns {
			result = append(result, w.cloneTree(k, seen))
		}
		return result
	}
	r.Kids, r.Head = list(n.Kids), list(n.Head)
	r.Ops = nil
	for _, op := range n.Ops {
		o := *op
		o.Nodes = list(op.Nodes)
		r.Ops = append(r.Ops, &o)
	}
	return &r
}

// hasAttr tells whether a node declares attributes of an element that it is put into
func hasAttr(n *Node) bool { return len(attrDecls([]*Node{n}, nil)) > 0 }

func anyAttr(ns []*Node) bool { return len(attrDecls(ns, nil)) > 0 }

// rewriteTree rewrites a tree everywhere below
func (w *rewriter) rewriteTree(n *Node, seen map[*Node]bool) *Node {
	if n == nil || seen[n] {
		return n
	}
	seen[n] = true
	switch n.K {
	case "elem", "void":
		n.Kids = w.list(n.Kids, seen, "elem")
		w.elemLaws(n)
	case "coll", "condnil", "cond", "when":
		n.Kids = w.list(n.Kids, seen, n.K)
	case "iter", "iterkey", "yield", "collect":
		n.Kids = w.list(n.Kids, seen, "other")
	case "user":
		if n.ID%4 != 0 { // those have the type of their first content
			n.Kids = w.list(n.Kids, seen, "other")
		}
	case "doc":
		n.Kids = w.list(n.Kids, seen, "elem")
		if len(n.Head) > 0 {
			if n.Head = w.list(n.Head, seen, "elem"); len(n.Head) == 0 {
				n.Head = []*Node{{K: "coll"}} // without any there is no head
			}
		}
	case "imper":
		for _, op := range n.Ops {
			switch op.K {
			case "nodes":
				op.Nodes = w.list(op.Nodes, seen, "other")
			case "start":
				for _, a := range op.Nodes {
					if a != nil {
						w.valueLaws(a)
					}
				}
			}
		}
	case "text", "plain", "frag", "comment", "attr", "dattr":
		w.valueLaws(n)
	}
	return w.nodeLaws(n)
}

// nodeLaws replaces a node by one that says the same
func (w *rewriter) nodeLaws(n *Node) *Node {
	switch n.K {
	case "doc":
		if w.Pct(60) {
			w.law("document")
			h := &Node{K: "elem", Name: "html", Via: 1}
			if w.Pct(50) {
				h.Ctor = "html.Html"
			}
			if len(n.Vals) > 0 {
				h.Kids = append(h.Kids, &Node{K: "attr", Name: "lang", Via: 1, Vals: n.Vals})
			}
			if len(n.Head) > 0 {
				h.Kids = append(h.Kids, &Node{K: "elem", Name: "head", Via: w.N(2), Kids: n.Head})
			}
			h.Kids = append(h.Kids, &Node{K: "elem", Name: "body", Via: w.N(2), Kids: n.Kids})
			return &Node{K: "coll", Kids: []*Node{{K: "pi", Name: "DOCTYPE", Vals: []*Val{{K: "str", S: "html"}}, Via: w.N(2)}, h}}
		}
	case "text", "frag":
		if w.Pct(20) {
			w.law("text_kind")
			n.K = w.Pick("text", "frag")
		}
	case "elem":
		isVoid := voidNames[n.Name] && n.Via == 0 && n.Ctor == ""
		if w.Pct(20) {
			w.law("constructor")
			switch {
			case isVoid:
				n.K, n.Via = "void", 1
			case voidNames[n.Name]:
				n.Ctor, n.Via = "", 1
			default:
				n.Ctor, n.Via = "", w.N(2)
			}
		}
		if w.Pct(10) && !w.quiet && onlyOwnAttrs(n) {
			w.law("imperative")
			var attrs, nodes []*Node
			for _, k := range n.Kids {
				switch {
				case k == nil:
				case k.isAttr():
					attrs = append(attrs, k)
				default:
					if k.K == "plain" {
						k = &Node{K: "text", Vals: k.Vals}
					}
					nodes = append(nodes, k)
				}
			}
			im := &Node{K: "imper", ID: w.nextID(), Ops: []*Op{{K: "start", S: n.Name, Nodes: attrs, Void: isVoid || n.K == "void"}}}
			if isVoid || n.K == "void" {
				return im
			}
			for i := 0; i < len(nodes); {
				j := i + 1 + w.N(len(nodes)-i)
				im.Ops = append(im.Ops, &Op{K: "nodes", Nodes: nodes[i:j]})
				i = j
			}
			im.Ops = append(im.Ops, &Op{K: w.Pick("end", "endall")})
			return im
		}
	case "void":
		if w.Pct(20) {
			w.law("constructor")
			n.Ctor, n.Via = "", w.N(2)
		}
	case "attr", "battr", "dattr":
		if w.Pct(15) && n.Keys == nil && !strings.HasPrefix(n.Ctor, "css.") {
			w.law("constructor")
			n.Ctor, n.Via = "", 1
		}
	}
	return n
}

// onlyOwnAttrs tells whether all attributes of an element are its direct contents
func onlyOwnAttrs(n *Node) bool {
	for _, k := range n.Kids {
		if k != nil && !k.isAttr() && hasAttr(k) {
			return false
		}
	}
	return true
}

// valueLaws changes the values of a node
func (w *rewriter) valueLaws(n *Node) {
	if n.Keys != nil || n.K == "uattr" || n.K == "battr" {
		return
	}
	if strings.HasPrefix(n.Ctor, "css.") || n.K == "plain" {
		return
	}
	for i, v := range n.Vals {
		if v.K == "str" && w.Pct(15) {
			w.law("value_type")
			switch w.N(4) {
			case 0:
				n.Vals[i] = &Val{K: "stringer", S: v.S}
			case 1:
				n.Vals[i] = &Val{K: "anyfn", Sub: []*Val{{K: "str", S: v.S}}}
			case 2:
				n.Vals[i] = &Val{K: "nv", Sub: []*Val{v}}
			default:
				n.Vals[i] = &Val{K: "cv", Sub: []*Val{v}}
			}
		}
	}
	for i, v := range n.Vals {
		if !w.Pct(12) || v.K != "str" && v.K != "fn" && v.K != "key" && v.K != "int" && v.K != "stringer" {
			continue
		}
		w.law("value_parts")
		empty := &Val{K: "str"}
		parts := [][]*Val{{v}, {empty, v}, {v, empty}, {v, {K: "nil"}}, {empty, v, empty}}[w.N(5)]
		if v.K == "str" && len(v.S) > 1 && w.Pct(70) { // not within a character
			parts = nil
			for from, to := 0, 1; from < len(v.S); to++ {
				if to == len(v.S) || v.S[to]&0xC0 != 0x80 && w.Pct(40) {
					parts = append(parts, &Val{K: "str", S: v.S[from:to]})
					from = to
				}
			}
		}
		if len(parts) > 2 && w.Pct(30) {
			parts = append([]*Val{{K: "cv", Sub: parts[:2:2]}}, parts[2:]...)
		}
		n.Vals[i] = &Val{K: "cv", Sub: parts}
		if len(parts) != 1 && w.Pct(50) {
			n.Vals[i] = &Val{K: "nv", Sub: []*Val{{K: "text", Sub: parts}}}
		}
	}
	if w.Pct(8) {
		w.law("nil_value")
		i := w.N(len(n.Vals) + 1)
		n.Vals = append(n.Vals[:i:i], append([]*Val{{K: w.Pick("nil", "elemv")}}, n.Vals[i:]...)...)
	}
	if len(n.Vals) >= 2 && n.K != "dattr" && w.Pct(15) {
		w.law("concat")
		i := w.N(len(n.Vals) - 1)
		j := i + 2 + w.N(len(n.Vals)-i-1)
		n.Vals = append(n.Vals[:i:i], append([]*Val{{K: w.Pick("cv", "cv", "text"), Sub: append([]*Val{}, n.Vals[i:j]...)}}, n.Vals[j:]...)...)
	}
}

// nothing is a node that says nothing
func (w *rewriter) nothing() *Node {
	some := func() []*Node {
		return []*Node{{K: "attr", Name: w.Pick("id", "class", "title"), Via: 1, Vals: []*Val{{K: "str", S: "NOTHING"}}}, {K: "text", Vals: []*Val{{K: "str", S: "NOTHING"}}}}
	}
	switch w.N(12) {
	case 0:
		return nil
	case 1:
		return &Node{K: "coll"}
	case 2:
		return &Node{K: "condnil"}
	case 3:
		return &Node{K: "when", Key: "never there", Kids: some()}
	case 4:
		return &Node{K: "text"}
	case 5:
		return &Node{K: "text", Vals: []*Val{{K: "str", S: ""}}}
	case 6:
		return &Node{K: "frag", Vals: []*Val{{K: "nil"}}}
	case 7:
		return &Node{K: "iterkey", Key: "never there", Kids: some()}
	case 8:
		return &Node{K: "when", Key: "!never there"}
	case 9:
		if w.quiet {
			return &Node{K: "coll"}
		}
		return &Node{K: "cond", ID: w.nextID(), Kids: some()}
	case 10:
		if w.quiet {
			return &Node{K: "coll"}
		}
		return &Node{K: w.Pick("iter", "yield"), ID: w.nextID(), Kids: some()}
	default:
		if w.quiet {
			return &Node{K: "coll"}
		}
		return &Node{K: w.Pick("imper", "collect"), ID: w.nextID()}
	}
}

// list rewrites a list of nodes
func (w *rewriter) list(kids []*Node, seen map[*Node]bool, in string) []*Node {
	var result []*Node
	for _, k := range kids {
		k = w.rewriteTree(k, seen)
		if k != nil && k.K == "plain" && w.Pct(30) {
			w.law("plain")
			k = &Node{K: "text", Vals: k.Vals}
		}
		result = append(result, k)
	}
	kids = result
	for i := w.N(4); i > 0; i-- {
		kids = w.listLaw(kids, in)
	}
	return kids
}

func splice(kids []*Node, i, j int, with ...*Node) []*Node {
	result := append([]*Node{}, kids[:i]...)
	result = append(result, with...)
	return append(result, kids[j:]...)
}

// asNodes makes plain values texts
func asNodes(kids []*Node) (result []*Node) {
	for _, k := range kids {
		if k != nil && k.K == "plain" {
			k = &Node{K: "text", Vals: k.Vals}
		}
		result = append(result, k)
	}
	return result
}

func (w *rewriter) listLaw(kids []*Node, in string) []*Node {
	i := w.N(len(kids) + 1)
	j := i + w.N(min(len(kids)-i, 5)+1)
	part := kids[i:j]
	switch w.N(13) {
	case 0, 1: // a collection around some of them
		w.law("group")
		return splice(kids, i, j, &Node{K: w.Pick("coll", "coll", "condnil"), Kids: asNodes(part)})
	case 2: // collections dissolved
		for k, n := range kids {
			if n != nil && (n.K == "coll" || n.K == "condnil") && n.Fgn == 0 && w.Pct(50) {
				w.law("ungroup")
				return splice(kids, k, k+1, n.Kids...)
			}
		}
	case 3, 4: // something that says nothing
		w.law("nothing")
		return splice(kids, i, i, w.nothing())
	case 5: // a text in two
		for k, n := range kids {
			if n != nil && (n.K == "text" || n.K == "frag") && len(n.Vals) > 1 && w.Pct(60) {
				w.law("split_text")
				at := 1 + w.N(len(n.Vals)-1)
				return splice(kids, k, k+1, &Node{K: n.K, Vals: n.Vals[:at:at]}, &Node{K: "text", Vals: n.Vals[at:]})
			}
		}
		for k, n := range kids { // within a string
			if n != nil && n.K == "text" && len(n.Vals) == 1 && n.Vals[0].K == "str" && len(n.Vals[0].S) > 1 && w.Pct(60) {
				w.law("split_text")
				s := n.Vals[0].S
				at := 1 + w.N(len(s)-1)
				for at > 0 && s[at]&0xC0 == 0x80 { // not within a character
					at--
				}
				return splice(kids, k, k+1, &Node{K: "text", Vals: []*Val{{K: "str", S: s[:at]}}}, &Node{K: "frag", Vals: []*Val{{K: "str", S: s[at:]}}})
			}
		}
	case 6: // two texts in one
		for k := 0; k+1 < len(kids); k++ {
			a, b := kids[k], kids[k+1]
			if a != nil && b != nil && (a.K == "text" || a.K == "plain" || a.K == "frag") && (b.K == "text" || b.K == "plain" || b.K == "frag") {
				w.law("merge_text")
				return splice(kids, k, k+2, &Node{K: "text", Vals: append(append([]*Val{}, a.Vals...), b.Vals...)})
			}
		}
	case 7: // an attribute moved past what is no attribute
		if in == "elem" || in == "coll" || in == "condnil" {
			for try := 0; try < 4 && len(kids) > 1; try++ {
				k := w.N(len(kids) - 1)
				a, b := kids[k], kids[k+1]
				if a != nil && b != nil && a.isAttr() != b.isAttr() && (a.isAttr() || !hasAttr(a)) && (b.isAttr() || !hasAttr(b)) {
					w.law("move_attr")
					return splice(kids, k, k+2, b, a)
				}
			}
		}
	case 8: // conditions that hold
		if !anyAttr(part) && len(part) > 0 {
			w.law("true_around")
			n := &Node{K: "when", Key: "!never there", Kids: asNodes(part)}
			if !w.quiet && w.Pct(50) {
				id := w.nextID()
				w.run = append(w.run, func(r *Run) { r.truth[id] = true })
				n = &Node{K: "cond", ID: id, Kids: n.Kids}
			}
			return splice(kids, i, j, n)
		}
	case 9: // one after the other, or both in one
		for k, n := range kids {
			if n != nil && n.K == "when" && len(n.Kids) > 1 && n.Fgn == 0 && w.Pct(60) {
				w.law("split_when")
				at := 1 + w.N(len(n.Kids)-1)
				return splice(kids, k, k+1, &Node{K: "when", Key: n.Key, Kids: n.Kids[:at:at]}, &Node{K: "when", Key: n.Key, Kids: n.Kids[at:]})
			}
		}
	case 10: // what collects them while rendering
		if !w.quiet && !anyAttr(part) && len(part) > 0 {
			w.law("collector")
			return splice(kids, i, j, &Node{K: "collect", ID: w.nextID(), Kids: asNodes(part)})
		}
	case 11: // what writes them imperatively
		if !w.quiet && !anyAttr(part) && len(part) > 0 {
			w.law("written")
			n := &Node{K: "imper", ID: w.nextID()}
			for _, k := range asNodes(part) {
				n.Ops = append(n.Ops, &Op{K: "nodes", Nodes: []*Node{k}})
			}
			return splice(kids, i, j, n)
		}
	case 12: // a condition around a condition, the other way round
		for _, n := range kids {
			if n != nil && n.K == "when" && len(n.Kids) == 1 && n.Kids[0] != nil && n.Kids[0].K == "when" && n.Fgn == 0 && n.Kids[0].Fgn == 0 {
				w.law("swap_when")
				in := *n.Kids[0]
				in.Key, n.Key = n.Key, in.Key
				n.Kids = []*Node{&in}
			}
		}
	}
	return kids
}

// elemLaws are those of the contents of an element as a whole
func (w *rewriter) elemLaws(n *Node) {
	isVoid := n.K == "void" || voidNames[n.Name] && n.Via == 0 && n.Ctor == ""
	if isVoid && w.Pct(40) { // contents of void elements say nothing
		w.law("void_contents")
		var kids []*Node
		for _, k := range n.Kids {
			if k != nil && !k.isAttr() && !hasAttr(k) {
				continue
			}
			kids = append(kids, k)
		}
		n.Kids = kids
	}
	if isVoid && w.Pct(20) {
		w.law("void_contents")
		i := w.N(len(n.Kids) + 1)
		n.Kids = splice(n.Kids, i, i, &Node{K: "elem", Name: "b", Via: 1, Kids: []*Node{{K: "text", Vals: []*Val{{K: "str", S: "NOTHING"}}}}})
	}
	for k, a := range n.Kids {
		if a == nil || a.Fgn != 0 || a.Keys != nil {
			continue
		}
		switch {
		case a.K == "attr" && w.Pct(10): // overridden by the next one
			w.law("overridden")
			v := &Val{K: "str", S: "NOTHING"}
			if w.Pct(30) {
				v = &Val{K: "fn", S: "NOTHING", ID: -1}
			}
			over := &Node{K: w.Pick("attr", "attr", "battr", "dattr"), Name: a.Name, Delim: " ", Via: 1, Vals: []*Val{v}}
			if over.K == "battr" {
				over.Vals = nil
			}
			n.Kids = splice(n.Kids, k, k, over)
			return
		case a.K == "dattr" && len(a.Vals) > 1 && !strings.HasPrefix(a.Ctor, "css.") && w.Pct(40):
			for _, d := range attrDecls(n.Kids, nil) {
				if d.n.Name == a.Name && d.n.K != "dattr" {
					return
				}
			}
			w.law("split_attr")
			at := 1 + w.N(len(a.Vals)-1)
			b := *a
			b.Vals, b.Same = a.Vals[at:], false
			first := *a
			first.Vals, first.Same = a.Vals[:at:at], false
			n.Kids = splice(n.Kids, k, k+1, &first, &b)
			return
		}
	}
}

func runC30(c *Case) {
	c.Eval()
	cfg := Cfg{Depth: 5, Kids: c.Range(1, 5), Budget: c.Range(3, 40), Attrs: c.Range(10, 50), Cond: c.Pct(80), Iter: c.Pct(60), Imper: c.Pct(50), Collect: c.Pct(50), User: c.Pct(50), Dyn: true, Dup: c.Pct(70), Nil: c.Pct(40), Doc: c.Pct(40), Named: true, Empty: true}
	g := newGen(c.Rand, cfg)
	var tree *Node
	if c.Pct(50) {
		tree = g.richTree(c)
	} else {
		tree = &Node{K: "coll", Kids: []*Node{g.node(4), g.node(4), g.node(3)}}
	}
	if c.Pct(30) { // the same group in several places
		x := &Node{K: c.Pick("coll", "coll", "condnil", "elem"), Name: "i", Via: 1, Kids: []*Node{g.node(2), nil}, Same: true}
		if c.Pct(50) {
			x.Kids = append(x.Kids, g.node(1), nil)
		}
		all := &Node{K: "coll"}
		for i := c.Range(2, 4); i > 0; i-- {
			in := &Node{K: c.Pick("coll", "coll", "condnil", "elem"), Name: "u", Via: 1, Kids: []*Node{x}}
			for k := c.N(3); k > 0; k-- {
				in.Kids = append(in.Kids, g.node(1))
			}
			all.Kids = append(all.Kids, in)
		}
		all.Kids = append(all.Kids, tree)
		tree = all
		c.Count("shared", 1)
	}
	w := &rewriter{Case: c, laws: map[string]int{}, apart: c.Pct(60)}
	other := tree
	for i := c.Range(1, 3); i > 0; i-- {
		other = w.rewriteTree(w.cloneTree(other, map[*Node]*Node{}), map[*Node]bool{})
	}
	total := 0
	for l, n := range w.laws {
		c.Count("law_"+l, n)
		total += n
	}
	c.Count("rewrites", total)
	c.Count("pairs", 1)
	c.Max("max_rewrites", total)
	a, b := (&Builder{}).node(tree), (&Builder{}).node(other)
	fail := func(what string, detail ...any) {
		c.Fail(what, map[string]any{"tree": js(tree), "rewritten": js(other), "laws": fmt.Sprint(w.laws), "more": fmt.Sprint(detail...)})
	}
	asTemplate := c.Pct(15)
	for i := c.Range(1, 3); i > 0; i-- {
		ra := g.newRun(c.Rand)
		for _, f := range w.run {
			f(ra)
		}
		rb := ra.again()
		_, ea := render(a, ra)
		var eb error
		if asTemplate {
			s := c.newSubject(b, 100)
			eb = nil
			if _, eb = s.render(rb); eb == nil {
				full := s.pre + string(ra.rec.out) + s.mid
				if s.twice {
					full += string(ra.rec.out)
				}
				if full += s.post; string(rb.rec.out) != full {
					fail("a template with a rewritten node writes something else", diff([]byte(full), rb.rec.out))
				}
			}
			if ea != nil || eb != nil {
				fail("a render fails", ea, eb)
			}
			continue
		}
		_, eb = render(b, rb)
		if ea != nil || eb != nil {
			fail("a render fails", ea, eb)
		}
		if !bytes.Equal(ra.rec.out, rb.rec.out) {
			fail("a rewritten tree writes something else", diff(ra.rec.out, rb.rec.out))
		}
		xa, xb := calls(ra), calls(rb)
		c.Count("callbacks", len(xa))
		for k := 0; k < len(xa) || k < len(xb); k++ {
			if k >= len(xa) || k >= len(xb) || xa[k] != xb[k] {
				show := func(x []string) string { return fmt.Sprintf("%.600s", strings.Join(x[min(k, len(x)):], "; ")) }
				fail("a rewritten tree calls something else", k, "\nwant ", show(xa), "\ngot ", show(xb))
			}
		}
		if len(ra.rec.out) > 0 {
			c.NonTrivial(ra.rec.out, len(xa), js(w.laws))
		}
	}
	// contents alone and together
	if c.Pct(35) {
		var kids []*Node
		for i := c.Range(1, 4); i > 0; i-- {
			kids = append(kids, g.node(3))
		}
		run := g.newRun(c.Rand)
		var sum []byte
		var sumCalls []string
		for _, k := range kids {
			r := run.again()
			if _, err := render((&Builder{}).node(k), r); err != nil {
				fail("a render fails", err)
			}
			sum, sumCalls = append(sum, r.rec.out...), append(sumCalls, calls(r)...)
		}
		pre, post := "", ""
		whole := &Node{K: c.Pick("coll", "elem", "imper", "collect", "when", "doc"), Kids: kids, ID: newID, Name: "q", Key: "!never there", Via: 1}
		for _, k := range kids {
			if hasAttr(k) {
				whole.K = c.Pick("coll", "imper", "collect")
			}
		}
		switch whole.K {
		case "elem":
			pre, post = "<q>", "</q>"
		case "doc":
			pre, post = "<!DOCTYPE html>\n<html><body>", "</body></html>"
		case "imper":
			whole.Ops = []*Op{{K: "nodes", Nodes: kids}}
		}
		r := run.again()
		if _, err := render((&Builder{}).node(whole), r); err != nil {
			fail("a render fails", err)
		}
		if want := pre + string(sum) + post; string(r.rec.out) != want {
			tree, other = whole, nil
			fail("contents rendered together are not what they are alone", diff([]byte(want), r.rec.out))
		}
		if fmt.Sprint(calls(r)) != fmt.Sprint(sumCalls) {
			tree, other = whole, nil
			fail("contents rendered together call something else than alone", fmt.Sprint(sumCalls), "\ngot ", fmt.Sprint(calls(r)))
		}
		c.Count("rendered_alone", len(kids))
	}
}

// calls are the callbacks of a run, without those that the laws have added
func calls(r *Run) (result []string) {
	for _, e := range r.ev {
		if e.ID < newID && e.ID >= 0 {
			result = append(result, fmt.Sprintf("%s#%d data=%x depth=%d cargo=%v", e.Kind, e.ID, e.Data, e.Depth, e.Cargo))
		}
	}
	return result
}

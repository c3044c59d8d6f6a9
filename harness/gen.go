package main

import (
	"errors"
	"fmt"
	"math"
	"strings"
)

// Cfg chooses which parts of the library a workload exercises
type Cfg struct {
	Depth, Kids, Budget int
	Attrs               int // percent of the contents of elements that are attributes
	Cond                bool
	Iter                bool
	Imper               bool
	Collect             bool
	User                bool
	Dyn                 bool // dynamic values
	Dup                 bool // repeat attribute names
	Nil                 bool
	Doc                 bool
	Named               bool // use constructors of html, svg, css, htmx
	Empty               bool // allow empty values everywhere but in delimited attributes
	CondHeavy           bool
	DynHeavy            bool
	Set                 bool // functions that change the data while it is being rendered
}

// Gen generates abstract trees
type Gen struct {
	*Rand
	Cfg
	id      int
	budget  int
	iterIDs []int
	condIDs []int
	fnIDs   []int
	userIDs []int
	impIDs  []int
	colIDs  []int
	iters   int
}

func newGen(r *Rand, cfg Cfg) *Gen { return &Gen{Rand: r, Cfg: cfg, budget: cfg.Budget} }

func (g *Gen) next() int { g.id++; return g.id }

var words = []string{"alpha", "beta", "gamma", "delta", "x", "y", "zz", "Hello", "World", "42", "a-b", "é", "日本語", "🙂", "tab\there", "line\nbreak"}
var specials = []string{"<", ">", "&", `"`, "'", "&amp;", "<b>", "</div>", "-->", "<!--", "]]>", "\\", "\x00", "\xff\xfe", "`", "=", "/", ";", "&#60;", "<script>alert(1)</script>", "\" onload=\"x", "' x='", "\r", "\u2028", "%", "{{.}}", "javascript:"}

// hostility raises the share of hostile strings everywhere
var hostility = 0

func (r *Rand) str(hostile int) string {
	hostile += hostility
	n := 1 + r.N(3)
	if hostility > 0 {
		switch r.N(8) {
		case 0: // any bytes
			b := make([]byte, 1+r.N(12))
			for i := range b {
				b[i] = byte(r.N(256))
			}
			return string(b)
		case 1: // any code points
			var sb strings.Builder
			for i := 1 + r.N(6); i > 0; i-- {
				switch r.N(4) {
				case 0:
					sb.WriteRune(rune(r.N(0x80)))
				case 1:
					sb.WriteRune(rune(r.N(0x3000)))
				case 2:
					sb.WriteRune(rune(0xff00 + r.N(0xf0)))
				default:
					sb.WriteRune(rune(r.N(0x110000)))
				}
			}
			return sb.String()
		case 2:
			n = 1 + r.N(12)
		}
	}
	if r.Pct(4) { // nothing but blanks
		return []string{"\n", "\t", " ", "\n\t", "\n    ", "  ", "\r\n", "\f", "\v", "\u00a0"}[r.N(10)]
	}
	var sb strings.Builder
	for i := 0; i < n; i++ {
		if r.Pct(hostile) {
			sb.WriteString(specials[r.N(len(specials))])
		} else {
			sb.WriteString(words[r.N(len(words))])
		}
	}
	if r.Pct(1) {
		if r.Pct(50) {
			sb.WriteString(strings.Repeat(words[r.N(len(words))], 1+r.N(400)))
		} else { // what there is comes late, about where a buffer might end
			size := []int{32, 64, 128, 256, 512, 1024, 2048, 4096, 8192}[r.N(9)]
			if r.N(40) == 0 {
				size = []int{1 << 15, 1 << 16, 1 << 17}[r.N(3)]
			}
			s := strings.Repeat("long text, ", size/11+3)[:size+r.N(12)-8] + sb.String()
			if r.Pct(40) {
				at := r.N(len(s) / 2)
				s = s[:at] + specials[r.N(len(specials))] + s[at:]
			}
			return s
		}
	}
	return sb.String()
}

func (g *Gen) textStr() string { return g.str(25) }

// textAfter is a text after a prefix, or without if it renders something
func (g *Gen) textAfter(prefix string) string {
	s := g.textStr()
	if g.Pct(20) && strings.Trim(s, "\x00") != "" {
		return s
	}
	return prefix + s
}

// static value that renders something; no NUL-only strings
func (g *Gen) nonEmptyStatic() *Val {
	switch g.N(9) {
	case 0:
		return &Val{K: "int", S: g.Pick("int", "int8", "int32", "int64", "uint", "uint8", "uint64"), N: int64(g.N(120))}
	case 1:
		return &Val{K: "bool", N: int64(g.N(2))}
	case 2:
		return &Val{K: "float", N: int64(math.Float64bits(float64(g.N(2000)) / 8))}
	case 3:
		return &Val{K: "bytes", S: g.Pick("raw", "&nbsp;", "&copy;", "r2", "!important")}
	case 4:
		return &Val{K: "stringer", S: g.textAfter("S")}
	case 5:
		return &Val{K: "anyfn", Sub: []*Val{{K: "str", S: g.textAfter("F")}}}
	}
	return &Val{K: "str", S: g.textAfter("v")}
}

func (g *Gen) emptyStatic() *Val {
	switch g.N(6) {
	case 0:
		return &Val{K: "str"}
	case 1:
		return &Val{K: "bytes"}
	case 2:
		return &Val{K: "nil"}
	case 3:
		return &Val{K: "unsup", N: int64(g.N(6))}
	case 4:
		return &Val{K: "elemv"}
	}
	return &Val{K: "str", S: "\x00"}
}

func (g *Gen) fn() *Val {
	id := g.next()
	g.fnIDs = append(g.fnIDs, id)
	v := &Val{K: g.Pick("fn", "rawfn"), ID: id, S: fmt.Sprintf("f%d", id)}
	if g.N(1200) == 0 {
		v.S += strings.Repeat("0123456789", []int{30, 500, 7000}[g.N(3)])
	}
	return v
}

// value for any position; nonEmpty ones always render something
func (g *Gen) val(nonEmpty bool, depth int) *Val {
	dynPct := 30
	if g.DynHeavy {
		dynPct = 70
	}
	if g.Dyn && g.Pct(dynPct) {
		switch g.N(5) {
		case 0, 1:
			return g.fn()
		case 2:
			return &Val{K: "key", S: fmt.Sprintf("s%d", g.N(3))}
		case 3:
			if !nonEmpty {
				if g.Pct(8) {
					return &Val{K: "key", S: oddKeys[g.N(len(oddKeys)-1)]}
				}
				return &Val{K: "key", S: fmt.Sprintf("m%d", g.N(4))}
			}
			return g.fn()
		default:
			if !nonEmpty {
				return &Val{K: "dot"}
			}
			return g.fn()
		}
	}
	if depth > 0 && g.Pct(20) {
		n := 1 + g.few(3)
		subs := make([]*Val, n)
		for i := range subs {
			subs[i] = g.val(nonEmpty, depth-1)
		}
		k := g.Pick("nv", "cv", "cv", "text", "attrv", "comv", "coll", "unit", "var")
		if k == "nv" || k == "var" {
			subs = subs[:1]
		}
		if k == "coll" {
			for i := range subs { // a collection holds nodes
				subs[i] = g.val(nonEmpty, 0)
			}
		}
		v := &Val{K: k, Sub: subs}
		if k == "var" {
			v.S = "n" + g.textStr()
		}
		if k == "unit" {
			if !g.Named {
				v.K = "cv"
			} else {
				v.S = units[g.N(len(units))]
			}
		}
		return v
	}
	if !nonEmpty && g.Empty && g.Pct(15) {
		return g.emptyStatic()
	}
	return g.nonEmptyStatic()
}

var units = func() (result []string) {
	for _, k := range sortedKeys(reg_unit) {
		result = append(result, k)
	}
	return result
}()

func (g *Gen) vals(nonEmpty bool) []*Val {
	n := 1
	if g.Pct(30) {
		n = g.few(4)
	}
	vs := make([]*Val, n)
	for i := range vs {
		vs[i] = g.val(nonEmpty, 2)
	}
	return vs
}

var plainAttrs = []string{"id", "title", "href", "data-x", "x-1", "lang", "alt", "name", "value", "width", "src", "role"}
var boolAttrs = []string{"hidden", "checked", "disabled", "open", "x-flag"}
var delimAttrs = [][2]string{{"class", " "}, {"style", "; "}, {"x-list", ","}, {"class", " "}, {"style", "; "}, {"hx-vars", ", "}}

// named picks a named constructor (or "" for the generic one)
func (g *Gen) named(m map[string][]string, key string) string {
	if !g.Named {
		return ""
	}
	if c := m[key]; len(c) > 0 && g.Pct(60) {
		return c[g.N(len(c))]
	}
	return ""
}

var suffixCtors = [][2]string{{"html.Aria", "aria-"}, {"html.Data", "data-"}, {"htmx.On", "hx-on:"}}

func (g *Gen) attr() *Node {
	if g.User && g.Pct(8) {
		id := g.next()
		g.userIDs = append(g.userIDs, id)
		return &Node{K: "uattr", Name: plainAttrs[g.N(len(plainAttrs))], ID: id}
	}
	if g.Named && g.Pct(4) {
		return g.headers()
	}
	if g.Named && g.Pct(6) { // constructors that are given a part of the name
		s := suffixCtors[g.N(len(suffixCtors))]
		return &Node{K: "attr", Name: s[1] + g.Pick("x", "y", "click", "mouseup", "before-request", "htmx:afterSwap", "a.b", "X-1", "label"), Vals: g.vals(false), Ctor: s[0]}
	}
	switch g.N(6) {
	case 0, 1:
		name := plainAttrs[g.N(len(plainAttrs))]
		if g.Pct(15) {
			name = boolAttrs[g.N(len(boolAttrs))]
		}
		if !g.Dup && g.Pct(70) {
			name = fmt.Sprintf("a%d", g.next())
		}
		return &Node{K: "attr", Name: name, Vals: g.vals(false), Via: g.N(2), Ctor: g.named(byAttr, "attr:"+name)}
	case 2:
		name := boolAttrs[g.N(len(boolAttrs))]
		if g.Pct(15) {
			name = plainAttrs[g.N(len(plainAttrs))]
		}
		return &Node{K: "battr", Name: name, Via: g.N(2), Ctor: g.named(byAttr, "bool:"+name)}
	}
	d := delimAttrs[g.N(len(delimAttrs))]
	n := &Node{K: "dattr", Name: d[0], Delim: d[1], Vals: g.vals(!g.Empty || g.Pct(50)), Via: g.N(2), Ctor: g.named(byAttr, "delim:"+d[0])}
	if d[0] == "style" && g.Named && g.Pct(50) {
		n.Ctor = cssProps[g.N(len(cssProps))].Fn
	}
	return n
}

// headers generates an attribute made of header maps
func (g *Gen) headers() *Node {
	n := &Node{K: "attr", Name: "hx-headers", Ctor: g.Pick("htmx.Headers", "htmx.HeadersJS"), Keys: []string{}}
	for m := g.N(3); m >= 0; m-- {
		used := map[string]bool{}
		for e := g.N(4); e > 0; e-- {
			k := g.Pick("X-A", "X-B", "Accept", "k"+g.textStr())
			if used[k] {
				continue
			}
			used[k] = true
			n.Keys, n.Maps, n.Vals = append(n.Keys, k), append(n.Maps, 2-m), append(n.Vals, g.val(false, 1))
		}
	}
	return n
}

var elemNames = []string{"div", "span", "p", "a", "b", "ul", "li", "section", "table", "td", "h1", "x-y", "svg", "g", "custom"}
var htmlVoids = sortedKeys(voidNames)
var voidElemNames = []string{"br", "img", "input", "hr", "meta", "link", "wbr", "x-void"}

// kids generates the contents of an element (in = "elem") or of a node list (in = "list")
func (g *Gen) kids(depth int, in string) (result []*Node) {
	n := g.N(g.Kids + 1)
	if g.Pct(3) {
		n = g.Kids * 4
	}
	for i := 0; i < n; i++ {
		if g.budget <= 0 {
			break
		}
		switch {
		case len(result) > 0 && g.Pct(3): // the very same node again
			k := result[len(result)-1]
			if g.Pct(40) {
				k = result[g.N(len(result))]
			}
			if k != nil && k.K != "plain" {
				k.Same = true
			}
			result = append(result, k)
		case g.Nil && g.Pct(6):
			result = append(result, nil)
		case g.Pct(g.Attrs):
			a := g.attr()
			if g.Pct(2) {
				a = g.chain(a, "coll")
			}
			result = append(result, a)
		case in == "elem" && g.Pct(15):
			v := g.val(false, 2)
			for v.K == "text" || v.K == "attrv" || v.K == "comv" || v.K == "coll" || v.K == "elemv" { // those are nodes, not plain values
				v = g.val(false, 0)
			}
			result = append(result, &Node{K: "plain", Vals: []*Val{v}})
		default:
			result = append(result, g.node(depth))
		}
	}
	return result
}

// chain puts a node deep into nodes of one kind (or of several kinds)
func (g *Gen) chain(n *Node, kinds ...string) *Node {
	if g.Cond {
		kinds = append(kinds, "cond", "when", "condnil")
	}
	if kinds[0] != "coll" {
		kinds = append(kinds, "coll")
		if g.Collect {
			kinds = append(kinds, "collect")
		}
		if g.User {
			kinds = append(kinds, "user")
		}
		if g.Imper {
			kinds = append(kinds, "imper")
		}
	}
	if !g.Pct(20) {
		kinds = []string{kinds[g.N(len(kinds))]}
	}
	key := fmt.Sprintf("k%d", g.N(6)) // one key: all of them hold, or none
	for i := g.Range(5, 40); i > 0; i-- {
		p := &Node{K: kinds[g.N(len(kinds))], Kids: []*Node{n}}
		switch p.K {
		case "elem":
			p.Name = elemNames[g.N(len(elemNames))]
		case "cond":
			p.ID = g.next()
			g.condIDs = append(g.condIDs, p.ID)
		case "when":
			p.Key = key
		case "collect":
			p.ID = g.next()
			g.colIDs = append(g.colIDs, p.ID)
		case "user":
			p.ID = g.next()
			g.userIDs = append(g.userIDs, p.ID)
		case "imper":
			p.ID, p.Kids = g.next(), nil
			g.impIDs = append(g.impIDs, p.ID)
			p.Ops = []*Op{{K: "start", S: "q"}, {K: "nodes", Nodes: []*Node{n}}, {K: "end"}}
		}
		n = p
		if g.Pct(5) && p.K != "imper" && p.K != "user" {
			p.Kids = append(p.Kids, &Node{K: "comment", Vals: g.vals(false)})
		}
	}
	return n
}

func (g *Gen) node(depth int) *Node {
	if depth > 0 && g.budget > 0 && g.Range(0, 300) == 0 {
		g.budget -= 5
		return g.chain(g.node(depth-1), "elem")
	}
	g.budget--
	if depth <= 0 || g.budget <= 0 {
		switch g.N(6) {
		case 0:
			return &Node{K: "comment", Vals: g.vals(false), Via: g.N(2)}
		case 1:
			return &Node{K: "void", Name: voidElemNames[g.N(len(voidElemNames))], Via: g.N(2)}
		case 2:
			return &Node{K: "frag", Vals: g.vals(false)}
		}
		return &Node{K: "text", Vals: g.vals(false), Via: g.N(2)}
	}
	type alt struct {
		w int
		f func() *Node
	}
	alts := []alt{
		{30, func() *Node {
			name := elemNames[g.N(len(elemNames))]
			n := &Node{K: "elem", Name: name, Via: g.N(2), Ctor: g.named(byElem, name)}
			n.Kids = g.kids(depth-1, "elem")
			return n
		}},
		{6, func() *Node {
			name := voidElemNames[g.N(len(voidElemNames))]
			n := &Node{K: "void", Name: name, Via: g.N(2), Ctor: g.named(byElem, name)}
			n.Kids = g.kids(depth-1, "elem")
			return n
		}},
		{2, func() *Node {
			name := htmlVoids[g.N(len(htmlVoids))]
			n := &Node{K: "elem", Name: name, Via: 0}
			n.Kids = g.kids(depth-1, "elem")
			return n
		}},
		{10, func() *Node { return &Node{K: "text", Vals: g.vals(false), Via: g.N(2)} }},
		{4, func() *Node { return &Node{K: "comment", Vals: g.vals(false), Via: g.N(2)} }},
		{4, func() *Node { return &Node{K: "frag", Vals: g.vals(false)} }},
		{2, func() *Node {
			if g.Pct(50) {
				return &Node{K: "pi", Name: "DOCTYPE", Vals: []*Val{{K: "str", S: "html"}}, Via: 1}
			}
			return &Node{K: "pi", Name: g.Pick("xml", "X", "DOCTYPE"), Vals: g.vals(false)}
		}},
		{10, func() *Node {
			if g.Pct(3) { // without any contents
				return &Node{K: "coll", Via: g.N(3)}
			}
			return &Node{K: "coll", Kids: g.kids(depth-1, "list")}
		}},
	}
	if g.Cond {
		w := 12
		if g.CondHeavy {
			w = 40
		}
		alts = append(alts, alt{w, func() *Node {
			id := g.next()
			g.condIDs = append(g.condIDs, id)
			return &Node{K: "cond", ID: id, Kids: g.kids(depth-1, "list")}
		}}, alt{w, func() *Node {
			return &Node{K: "when", Key: g.Pick("", "", "!") + g.condKey(), Kids: g.kids(depth-1, "list")}
		}}, alt{2, func() *Node { return &Node{K: "condnil", Kids: g.kids(depth-1, "list")} }})
	}
	if g.Iter && g.iters < 3 {
		it := func(f func() *Node) func() *Node {
			return func() *Node {
				g.iters++
				defer func() { g.iters-- }()
				return f()
			}
		}
		alts = append(alts, alt{8, it(func() *Node {
			id := g.next()
			g.iterIDs = append(g.iterIDs, id)
			return &Node{K: g.Pick("iter", "yield"), ID: id, Kids: g.kids(depth-1, "list")}
		})}, alt{8, it(func() *Node {
			key := fmt.Sprintf("l%d", g.N(4))
			if g.Pct(5) {
				key = oddKeys[g.N(len(oddKeys))]
			}
			return &Node{K: "iterkey", Key: key, Kids: g.kids(depth-1, "list")}
		})})
	}
	if g.Set {
		w := 15
		if g.CondHeavy {
			w = 45
		}
		alts = append(alts, alt{w, func() *Node {
			id := g.next()
			return &Node{K: "set", ID: id, Key: g.Pick("k0", "k1", "k0", "k1", "s0", "m1", "k"+fmt.Sprint(g.N(6))), Via: g.N(5)}
		}})
	}
	if g.Collect {
		alts = append(alts, alt{6, func() *Node {
			id := g.next()
			g.colIDs = append(g.colIDs, id)
			return &Node{K: "collect", ID: id, Kids: g.kids(depth-1, "list")}
		}})
	}
	if g.User {
		alts = append(alts, alt{6, func() *Node {
			id := g.next()
			g.userIDs = append(g.userIDs, id)
			n := &Node{K: "user", ID: id, Kids: g.kids(depth-1, "list")}
			if g.Pct(50) { // names that mean something elsewhere
				n.Name = g.Pick("div", "br", "id", "class", "style", "body", "#text", "#collection", "#conditional", "")
			}
			return n
		}})
	}
	if g.Imper {
		alts = append(alts, alt{8, func() *Node { return g.imper(depth) }})
	}
	if g.Doc {
		alts = append(alts, alt{2, func() *Node {
			n := &Node{K: "doc", Kids: g.kids(depth-1, "elem")}
			if g.Pct(50) {
				n.Vals = []*Val{g.val(true, 1)}
			}
			if g.Pct(60) {
				n.Head = g.kids(depth-1, "elem")
			}
			return n
		}})
	}
	total := 0
	for _, a := range alts {
		total += a.w
	}
	x := g.N(total)
	for _, a := range alts {
		if x -= a.w; x < 0 {
			return a.f()
		}
	}
	return nil
}

func (g *Gen) imper(depth int) *Node {
	id := g.next()
	g.impIDs = append(g.impIDs, id)
	n := &Node{K: "imper", ID: id}
	count := g.few(2 + g.Kids*2)
	if g.Range(0, 400) == 0 {
		count = g.Range(50, 400)
	}
	self := false
	for i := 0; i < count; i++ {
		switch g.N(9) {
		case 0, 1, 2:
			op := &Op{K: "start", S: elemNames[g.N(len(elemNames))], Void: g.Pct(25)}
			if g.Pct(15) { // whether it is void is what the caller says
				op.S = voidElemNames[g.N(len(voidElemNames))]
			}
			for j := g.N(4); j > 0; j-- {
				switch {
				case g.Nil && g.Pct(10):
					op.Nodes = append(op.Nodes, nil)
				case g.Pct(10):
					op.Nodes = append(op.Nodes, &Node{K: "text", Vals: []*Val{{K: "str", S: "ignored"}}})
				default:
					op.Nodes = append(op.Nodes, g.attr())
				}
			}
			n.Ops = append(n.Ops, op)
		case 3, 4:
			n.Ops = append(n.Ops, &Op{K: "end"})
		case 5:
			if g.Pct(40) {
				n.Ops = append(n.Ops, &Op{K: "endall"})
			}
		case 6:
			n.Ops = append(n.Ops, &Op{K: "str", S: g.textStr()})
		case 7:
			n.Ops = append(n.Ops, &Op{K: "raw", S: g.Pick("&nbsp;", "<i>raw</i>", "r")})
		case 8:
			op := &Op{K: "nodes"}
			for j := g.N(3); j > 0; j-- {
				if g.Nil && g.Pct(10) {
					op.Nodes = append(op.Nodes, nil)
				} else if g.Pct(15) {
					op.Nodes = append(op.Nodes, g.attr())
				} else {
					op.Nodes = append(op.Nodes, g.node(depth-1))
				}
			}
			if l := len(op.Nodes); l > 0 && g.Pct(8) { // the very same node again
				k := op.Nodes[l-1]
				if k != nil {
					k.Same = true
				}
				op.Nodes = append(op.Nodes, k)
			}
			if !self && g.Pct(12) {
				op, self = &Op{K: "self"}, true
			}
			n.Ops = append(n.Ops, op)
		}
	}
	return n
}

// oddKeys are keys that might be taken for something else ("." last, as it is the cargo for a value)
var oddKeys = []string{"", "a.b", "a", "!k0", "!", "s0.x", " ", "$", "S0", "k0 ", "Data", "Cargo", "a[0]", "é", ". ", " .", "..", "./", "."}

func (g *Gen) condKey() string {
	if g.Pct(8) {
		return oddKeys[g.N(len(oddKeys))]
	}
	if g.Set && g.Pct(70) {
		return fmt.Sprintf("k%d", g.N(2))
	}
	return fmt.Sprintf("k%d", g.N(6))
}

// ---- inputs of a render ---------------------------------------------------------------------------

// oddValues are values that nothing is written for
var oddValues = []any{(*int)(nil), (*unsup)(nil), []any(nil), []string{}, (*map[string]any)(nil), struct{}{}, [0]int{}, (chan int)(nil), new(int), errors.New("an error"), 'x' + 0i}

func (g *Gen) scalar(r *Rand) any {
	switch r.N(14) {
	case 0:
		return r.N(1000)
	case 1:
		return -r.N(1000)
	case 2:
		return spare("raw" + r.Pick("", "&nbsp;"))
	case 3:
		return r.Pct(50)
	case 4:
		return float64(r.N(2000)) / 4
	case 5:
		return strr{"G" + r.str(20)}
	case 6:
		s := r.str(20)
		return func() any { return s }
	case 7:
		return nil
	case 8:
		if r.Pct(50) {
			return oddValues[r.N(len(oddValues))]
		}
		return unsup{r.N(3), 4}
	case 9:
		return uint8(r.N(256))
	case 10:
		return ""
	}
	return r.str(25)
}

func (g *Gen) safe(r *Rand) any {
	switch r.N(5) {
	case 0:
		return r.N(100000)
	case 1:
		return strr{"T" + r.str(20)}
	case 2:
		return spare("B" + r.Pick("", "1"))
	}
	return "d" + r.str(25)
}

func (g *Gen) data(r *Rand, run *Run, depth int) map[string]any {
	d := map[string]any{"$run": run}
	for i := 0; i < 3; i++ {
		d[fmt.Sprintf("s%d", i)] = g.safe(r)
	}
	for i := 0; i < 4; i++ {
		if r.Pct(65) {
			d[fmt.Sprintf("m%d", i)] = g.scalar(r)
		}
	}
	for i := 0; i < 6; i++ {
		switch r.N(6) {
		case 0, 1:
		case 2:
			d[fmt.Sprintf("k%d", i)] = true
		case 3, 4:
			d[fmt.Sprintf("k%d", i)] = false
		default:
			d[fmt.Sprintf("k%d", i)] = []any{nil, 0, "", "x", []any{}, "false", namedBool(false), new(bool), func() any { return false }, 0.0, map[string]any{}, []byte("false"), []bool{false}}[r.N(13)]
		}
	}
	if r.Pct(40) {
		for _, k := range oddKeys {
			if r.Pct(50) {
				d[k] = []any{1, true, false, []any{1, 2}, map[string]any{"b": 2, "": 3}, nil, []int{4}}[r.N(7)]
			}
		}
	}
	for i := 0; i < 4; i++ {
		if !r.Pct(75) {
			continue
		}
		key := fmt.Sprintf("l%d", i)
		n := r.listLen()
		switch r.N(11) {
		case 0, 1, 2:
			d[key] = g.items(r, run, depth)
		case 3:
			s := make([]string, n)
			for j := range s {
				s[j] = r.str(20)
			}
			d[key] = s
		case 4:
			s := make([]int, n)
			for j := range s {
				s[j] = r.N(500) - 250
			}
			d[key] = s
		case 5, 6:
			var s []map[string]any
			if depth > 0 {
				for j := 0; j < n && j < 12; j++ {
					if m, ok := oddItem(r).(map[string]any); ok && r.Pct(50) {
						s = append(s, m)
						continue
					}
					s = append(s, g.data(r, run, depth-1))
				}
			}
			d[key] = s
		case 7:
			d[key] = namedSlice{"n1", "n<2>"}[:r.N(3)]
		case 8:
			d[key] = typedSlice(r)
		default:
			d[key] = []any{"not a slice", 5, [2]int{1, 2}, map[string]any{"a": 1}, nil, unsup{}}[r.N(6)]
		}
	}
	return d
}

type anys []any

// typedSlice is a slice that is not an []any
func typedSlice(r *Rand) any {
	a, b := r.str(12), r.str(12)
	n := r.N(100)
	switch r.N(16) {
	case 0:
		return []float64{1.5, 2.25}
	case 1:
		return []byte{7, 8, 9}
	case 2:
		return []any{}
	case 3:
		return []string(nil)
	case 4:
		return []*string{&a, nil, &b}
	case 5:
		return []*int{&n, nil}
	case 6:
		return []strr{{a}, {b}}
	case 7:
		return []fmt.Stringer{strr{a}, nil, &strr{b}}
	case 8:
		return []func() any{func() any { return a }}
	case 9:
		return [][]byte{[]byte("raw"), nil, {}}
	case 10:
		return []namedMap{{"s0": a}, nil}
	case 11:
		return []*map[string]any{{"s0": a}, nil}
	case 12:
		return anys{a, nil, n, map[string]any{"s0": b}, anys{1}}
	case 13:
		return [][]string{{a, b}, nil}
	case 14:
		return []error{errors.New(a), nil}
	}
	return []*[]any{{a, b}, nil}
}

// listLen is the length of a list
func (r *Rand) listLen() int {
	switch r.N(60) {
	case 0:
		return r.Range(4, 12)
	case 1:
		return []int{8, 9, 16, 17, 32, 33, 64, 65}[r.N(8)]
	}
	return r.N(4)
}

func (g *Gen) items(r *Rand, run *Run, depth int) []any {
	n := r.listLen()
	if n > 12 {
		depth = 0
	}
	items := make([]any, n)
	for i := range items {
		switch r.N(7) {
		case 0, 1, 2:
			if depth > 0 {
				items[i] = g.data(r, run, depth-1)
			} else {
				items[i] = r.str(20)
			}
		case 3:
			items[i] = oddItem(r)
		default:
			items[i] = g.scalar(r)
		}
	}
	return items
}

type namedMap map[string]any

// oddItem is an item that looks like, but is not, a filled map[string]any
func oddItem(r *Rand) any {
	switch r.N(13) {
	case 12:
		var v any = []any{r.str(8), map[string]any{"s0": "pointer to any"}}[r.N(2)]
		return &v
	case 10, 11:
		return oddValues[r.N(len(oddValues))]
	case 0, 1:
		return map[string]any{}
	case 2:
		return map[string]any(nil)
	case 3:
		return map[string]any{"s0": "only s0"}
	case 4:
		return namedMap{"s0": "named", "m1": 1}
	case 5:
		return &map[string]any{"s0": "pointer"}
	case 6:
		return []any{1, "two"}
	case 7:
		return &struct{ S0 string }{"x"}
	case 8:
		return map[string]any{"m1": nil, "": "empty key", "s1": ""}
	}
	return map[string]string{"s0": "not map[string]any"}
}

// newRun generates the inputs of one render of the tree
func (g *Gen) newRun(r *Rand) *Run {
	run := &Run{truth: map[int]bool{}, lists: map[int][]any{}, errs: map[int]error{}}
	if !r.Pct(6) {
		run.data = g.data(r, run, 2)
	}
	switch r.N(5) {
	case 0:
	case 1:
		run.cargo = map[string]any{"s0": "cargo"}
	default:
		run.cargo = g.scalar(r)
	}
	pct := []int{0, 30, 50, 70, 100}[r.N(5)]
	for _, id := range g.condIDs {
		run.truth[id] = r.Pct(pct)
	}
	for _, id := range g.iterIDs {
		run.lists[id] = g.items(r, run, 2)
	}
	return run
}

// needData gives the run data, if it has none
func (r *Run) needData() {
	if r.data == nil {
		r.data = map[string]any{"$run": r}
	}
}

// fresh data maps refer to the run they were generated for; again returns a run with the same inputs
func (r *Run) again() *Run {
	n := r.fresh()
	return n
}

package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"strings"
	"unicode/utf8"

	"github.com/go-andiamo/aitch"
	xhtml "golang.org/x/net/html"
)

// C02: string data never changes the structure.  The model writes every piece of string data as a
// marker (0x01 hex 0x02); matchEscaped then checks that the real output has the literal parts of
// the model's output byte for byte, and in place of each marker an encoding of exactly that string.

func markText(s string) string {
	s = strings.ReplaceAll(s, "\x00", "")
	if s == "" {
		return ""
	}
	return "\x01" + hex.EncodeToString([]byte(s)) + "\x02"
}

func withMarkers(f func()) {
	old := escapeText
	escapeText = markText
	defer func() { escapeText = old }()
	f()
}

func isSpecial(b byte) bool {
	return b == '<' || b == '>' || b == '&' || b == '"' || b == '\''
}

// matchEscaped checks the output against the model's output with markers; returns "" or what is wrong
func matchEscaped(want, got []byte) (string, int) {
	strs := 0
	i, g := 0, 0
	context := func() string {
		lo, hi := max(0, g-50), min(len(got), g+80)
		return fmt.Sprintf("at output byte %d: …%q", g, got[lo:hi])
	}
	for i < len(want) {
		if want[i] != 1 {
			if g >= len(got) || got[g] != want[i] {
				return fmt.Sprintf("expected %.60q %s", want[i:min(len(want), i+60)], context()), strs
			}
			i++
			g++
			continue
		}
		end := bytes.IndexByte(want[i:], 2) + i
		s, _ := hex.DecodeString(string(want[i+1 : end]))
		i = end + 1
		strs++
		for k := 0; k < len(s); {
			b := s[k]
			if g >= len(got) {
				return fmt.Sprintf("string %.200q is cut short after %d bytes", s, k), strs
			}
			if got[g] != b || b == '&' { // it has to be a character reference
				j := bytes.IndexByte(got[g:min(len(got), g+12)], ';')
				if got[g] != '&' || j < 0 {
					return fmt.Sprintf("string %.200q byte %d is not written as itself %s", s, k, context()), strs
				}
				ref := string(got[g : g+j+1])
				dec := xhtml.UnescapeString(ref)
				if dec == ref || dec == "" || !strings.HasPrefix(string(s[k:]), dec) {
					return fmt.Sprintf("string %.200q byte %d is written as %q %s", s, k, ref, context()), strs
				}
				g += j + 1
				k += len(dec)
				continue
			}
			if isSpecial(b) {
				return fmt.Sprintf("string %.200q byte %d is written unescaped %s", s, k, context()), strs
			}
			g++
			k++
		}
	}
	if g != len(got) {
		return "unexpected output " + context(), strs
	}
	return "", strs
}

// fullyEncoded replaces the markers by numeric character references of everything that could matter
func fullyEncoded(want []byte) []byte {
	var out bytes.Buffer
	for i := 0; i < len(want); i++ {
		if want[i] != 1 {
			out.WriteByte(want[i])
			continue
		}
		end := bytes.IndexByte(want[i:], 2) + i
		s, _ := hex.DecodeString(string(want[i+1 : end]))
		i = end
		for len(s) > 0 {
			r, n := utf8.DecodeRune(s)
			if r < 0x80 && (isSpecial(byte(r)) || r == '=' || r == '/' || r == '!' || r == '-' || r == '?' || r == '`' || r == ';' || r == '#') {
				fmt.Fprintf(&out, "&#%d;", r)
			} else {
				out.Write(s[:n])
			}
			s = s[n:]
		}
	}
	return out.Bytes()
}

type tok struct {
	typ  xhtml.TokenType
	data string
	attr string
}

// tokens are the tokens of a document; neighbouring texts are joined
func tokens(doc []byte) (result []tok) {
	z := xhtml.NewTokenizer(bytes.NewReader(doc))
	for {
		tt := z.Next()
		if tt == xhtml.ErrorToken {
			return result
		}
		t := z.Token()
		k := tok{typ: tt, data: t.Data}
		for _, a := range t.Attr {
			k.attr += fmt.Sprintf("%q=%q ", a.Key, a.Val)
		}
		if l := len(result); l > 0 && tt == xhtml.TextToken && result[l-1].typ == tt {
			result[l-1].data += k.data
			continue
		}
		result = append(result, k)
	}
}

func (c *Case) judgeEscaping(want, got []byte, what any) {
	c.Eval()
	wrong, strs := matchEscaped(want, got)
	c.Count("strings_judged", strs)
	c.Count("bytes", len(got))
	if wrong != "" {
		c.Fail("string data is not escaped as it should be: "+wrong, what)
	}
	wt, gt := tokens(fullyEncoded(want)), tokens(got)
	for i := range wt {
		if i >= len(gt) || wt[i] != gt[i] {
			var g any
			if i < len(gt) {
				g = gt[i]
			}
			c.Fail(fmt.Sprintf("parsing the output yields a different structure: token %d: want %v got %v", i, wt[i], g), what)
		}
	}
	if len(gt) != len(wt) {
		c.Fail("parsing the output yields extra tokens", what)
	}
	c.Count("tokens_compared", len(gt))
}

// the ways in which a string can be supplied as a value
var supply = []struct {
	name string
	f    func(s string, run *Run) *Val
}{
	{"static", func(s string, run *Run) *Val { return &Val{K: "str", S: s} }},
	{"stringer", func(s string, run *Run) *Val { return &Val{K: "stringer", S: s} }},
	{"func any", func(s string, run *Run) *Val { return &Val{K: "anyfn", Sub: []*Val{{K: "str", S: s}}} }},
	{"func any stringer", func(s string, run *Run) *Val { return &Val{K: "anyfn", Sub: []*Val{{K: "stringer", S: s}}} }},
	{"key", func(s string, run *Run) *Val { run.data["h"] = s; return &Val{K: "key", S: "h"} }},
	{"key stringer", func(s string, run *Run) *Val { run.data["h"] = strr{s}; return &Val{K: "key", S: "h"} }},
	{"key func any", func(s string, run *Run) *Val {
		run.data["h"] = func() any { return s }
		return &Val{K: "key", S: "h"}
	}},
	{"cargo", func(s string, run *Run) *Val { run.cargo = s; return &Val{K: "dot"} }},
	{"cargo stringer", func(s string, run *Run) *Val { run.cargo = strr{s}; return &Val{K: "dot"} }},
	{"cargo func any", func(s string, run *Run) *Val {
		run.cargo = func() any { return strr{s} }
		return &Val{K: "dot"}
	}},
	{"concat", func(s string, run *Run) *Val {
		return &Val{K: "cv", Sub: []*Val{{K: "bytes", S: "("}, {K: "str", S: s}, {K: "bytes", S: ")"}}}
	}},
	{"NewValue", func(s string, run *Run) *Val { return &Val{K: "nv", Sub: []*Val{{K: "str", S: s}}} }},
	{"text", func(s string, run *Run) *Val {
		return &Val{K: "text", Sub: []*Val{{K: "str", S: s}, {K: "int", N: 1}}}
	}},
	{"unit", func(s string, run *Run) *Val { return &Val{K: "unit", S: "css.Px", Sub: []*Val{{K: "str", S: s}}} }},
	{"Var value", func(s string, run *Run) *Val { return &Val{K: "var", S: "n", Sub: []*Val{{K: "str", S: s}}} }},
	{"Var name", func(s string, run *Run) *Val { return &Val{K: "var", S: s, Sub: []*Val{{K: "int", N: 1}}} }},
}

// the places at which a value can be rendered
var places = []struct {
	name string
	f    func(v *Val) *Node
}{
	{"text", func(v *Val) *Node { return &Node{K: "text", Vals: []*Val{v}} }},
	{"html.Text", func(v *Val) *Node { return &Node{K: "text", Via: 1, Vals: []*Val{v}} }},
	{"fragment", func(v *Val) *Node { return &Node{K: "frag", Vals: []*Val{v}} }},
	{"comment", func(v *Val) *Node { return &Node{K: "comment", Vals: []*Val{v}} }},
	{"html.Comment", func(v *Val) *Node { return &Node{K: "comment", Via: 1, Vals: []*Val{v}} }},
	{"pi", func(v *Val) *Node { return &Node{K: "pi", Name: "X", Vals: []*Val{v}} }},
	{"content", func(v *Val) *Node {
		if v.K == "text" {
			return &Node{K: "elem", Name: "p", Kids: []*Node{{K: "text", Vals: []*Val{v}}}}
		}
		return &Node{K: "elem", Name: "p", Kids: []*Node{{K: "plain", Vals: []*Val{v}}}}
	}},
	{"attribute", func(v *Val) *Node { return elemWith(&Node{K: "attr", Name: "title", Vals: []*Val{v}}) }},
	{"void attribute", func(v *Val) *Node {
		return &Node{K: "void", Name: "img", Kids: []*Node{{K: "attr", Name: "alt", Vals: []*Val{v}}}}
	}},
	{"delimited", func(v *Val) *Node {
		return elemWith(&Node{K: "dattr", Name: "class", Delim: " ", Vals: []*Val{v, {K: "str", S: "z"}}})
	}},
	{"conditional attribute", func(v *Val) *Node {
		return elemWith(&Node{K: "attr", Name: "title", Vals: []*Val{{K: "str", S: "<"}}}, &Node{K: "cond", ID: 1, Kids: []*Node{{K: "attr", Name: "title", Vals: []*Val{v}}}})
	}},
	{"merged conditional attribute", func(v *Val) *Node {
		return elemWith(&Node{K: "dattr", Name: "class", Delim: " ", Vals: []*Val{{K: "str", S: "a"}}}, &Node{K: "cond", ID: 1, Kids: []*Node{{K: "dattr", Name: "class", Delim: " ", Vals: []*Val{v}}}})
	}},
	{"header value", func(v *Val) *Node {
		return elemWith(&Node{K: "attr", Name: "hx-headers", Ctor: "htmx.Headers", Keys: []string{"k"}, Maps: []int{0}, Vals: []*Val{v}})
	}},
	{"header JS value", func(v *Val) *Node {
		return elemWith(&Node{K: "attr", Name: "hx-headers", Ctor: "htmx.HeadersJS", Keys: []string{"k"}, Maps: []int{0}, Vals: []*Val{v}})
	}},
	{"lang", func(v *Val) *Node { return &Node{K: "doc", Vals: []*Val{v}} }},
	{"imperative attribute", func(v *Val) *Node {
		return &Node{K: "imper", ID: 2, Ops: []*Op{{K: "start", S: "i", Nodes: []*Node{{K: "attr", Name: "title", Vals: []*Val{v}}, {K: "dattr", Name: "class", Delim: " ", Vals: []*Val{v}}}}, {K: "end"}}}
	}},
	{"collected", func(v *Val) *Node { return &Node{K: "collect", ID: 3, Kids: []*Node{{K: "text", Vals: []*Val{v}}}} }},
	{"conditional content", func(v *Val) *Node { return &Node{K: "cond", ID: 1, Kids: []*Node{{K: "text", Vals: []*Val{v}}}} }},
}

func elemWith(kids ...*Node) *Node { return &Node{K: "elem", Name: "div", Kids: kids} }

// special places, where the string is not a value
var stringPlaces = []struct {
	name string
	f    func(s string, run *Run) *Node
}{
	{"imperative string", func(s string, run *Run) *Node {
		return &Node{K: "imper", ID: 2, Ops: []*Op{{K: "start", S: "i"}, {K: "str", S: s}, {K: "endall"}}}
	}},
	{"header key", func(s string, run *Run) *Node {
		return elemWith(&Node{K: "attr", Name: "hx-headers", Ctor: "htmx.Headers", Keys: []string{s}, Maps: []int{0}, Vals: []*Val{{K: "int", N: 1}}})
	}},
	{"header JS key", func(s string, run *Run) *Node {
		return elemWith(&Node{K: "attr", Name: "hx-headers", Ctor: "htmx.HeadersJS", Keys: []string{s}, Maps: []int{0}, Vals: []*Val{{K: "int", N: 1}}})
	}},
	{"iterated item", func(s string, run *Run) *Node {
		run.lists[9] = []any{s, strr{s}, func() any { return s }, map[string]any{"h": s}}
		return &Node{K: "iter", ID: 9, Kids: []*Node{elemWith(&Node{K: "attr", Name: "title", Vals: []*Val{{K: "dot"}, {K: "key", S: "h"}}}, &Node{K: "text", Vals: []*Val{{K: "dot"}, {K: "key", S: "h"}}})}}
	}},
	{"yielded item", func(s string, run *Run) *Node {
		run.lists[9] = []any{s, strr{s}, map[string]any{"h": s}}
		return &Node{K: "yield", ID: 9, Kids: []*Node{{K: "text", Vals: []*Val{{K: "dot"}, {K: "key", S: "h"}}}, {K: "comment", Vals: []*Val{{K: "dot"}}}}}
	}},
	{"item of a key", func(s string, run *Run) *Node {
		run.needData()
		run.data["list"] = []string{s, "x", s}
		return &Node{K: "iterkey", Key: "list", Kids: []*Node{{K: "text", Vals: []*Val{{K: "dot"}}}}}
	}},
}

var wholes = []string{"", `"`, `'`, "<", ">", "&", "\x00", "a\x00b", "\x00<\x00", "&amp;", "&lt;script&gt;", "&#60;", "&quot", `" onclick="x`, `' onclick='x`, "</p>", "--><b>", "--!><b>", "-", "--", "->x", ">x", "<!--", "]]>", "<![CDATA[",
	"<?x?>", "</script><script>", "\xff<", "\xc0\xbc", "<\xe2\x80", "＜b＞", "\u2028", "\r\n", "\r", "\\", `\'`, `\"`, "'; alert(1); '", "{{.}}", "${x}", "`", "=", "/>", " ", "\t", "\n<", strings.Repeat("<", 300), strings.Repeat("a", 500) + "<" + strings.Repeat("b", 70) + "\x00&", "&apos;'&apos;", "'\"<>&\x00", "\x00\x00", "\x00'", "é<é>", "日本<語", "🙂&"}

func init() {
	register(&Prop{ID: "C02", Quick: 80000, Thor: 3000000, Run: runC02,
		Rule: "every way of supplying a string x every place x strings (all single bytes, code points, pairs with special characters, attack strings, random bytes), every named constructor, and random trees full of hostile data; outputs are decoded piece by piece against the strings supplied, and tokenised with golang.org/x/net/html; non-trivial: output contains at least one string that needs escaping",
		Min:  map[string]int64{"strings_judged": 250000, "tokens_compared": 250000, "constructors": 600, "places": 300, "trees": 5000}})
}

func escapeStrings(c *Case) (result []string) {
	if c.Pct(25) { // few or many special characters in long strings
		for i := 0; i < 3; i++ {
			s := []byte(strings.Repeat(c.Pick("a long text ", "x", "é日🙂 "), 1+c.N(20)))
			for n := []int{40, 300, 1 << 10, 1 << 12, 1 << 15, 1 << 16, 140000}[c.N(7)]; len(s) < n; {
				s = append(s, s...)
			}
			s = s[:len(s)-c.N(len(s)/3)]
			if c.Pct(15) { // or many
				for k := range s {
					if c.Pct(70) {
						s[k] = "<>&\"'\x00<"[c.N(7)]
					}
				}
			}
			for k := c.Range(1, 4); k > 0; k-- {
				s[c.N(len(s))] = "<>&\"'\x00\x00"[c.N(7)]
			}
			result = append(result, string(s))
		}
		return result
	}
	switch c.N(5) {
	case 0:
		for i := 0; i < 256; i++ {
			result = append(result, string([]byte{byte(i)}))
		}
	case 1:
		result = append(result, wholes...)
	case 2:
		for _, a := range []byte("<>&\"'\x00aX\n\r\xff") {
			for _, b := range []byte("<>&\"'\x00a;#-!/=\\ ") {
				result = append(result, string([]byte{a, b}))
			}
		}
	case 3:
		base := c.N(0x11000) * 16
		for i := 0; i < 128; i++ {
			result = append(result, string(rune(base+i))+c.Pick("", "<", "x", "'"))
		}
	default:
		for i := 0; i < 60; i++ {
			result = append(result, c.str(30))
		}
	}
	return result
}

func runC02(c *Case) {
	hostility = 45
	np := len(places)*len(supply) + len(stringPlaces)
	switch {
	case c.Idx < 4*np:
		i := c.Idx % np
		c.Count("places", 1)
		for _, s := range escapeStrings(c) {
			run := &Run{data: map[string]any{}, truth: map[int]bool{1: true}, lists: map[int][]any{}}
			var n *Node
			var name string
			if i < len(stringPlaces) {
				n, name = stringPlaces[i].f(s, run), stringPlaces[i].name
			} else {
				pl, su := places[(i-len(stringPlaces))/len(supply)], supply[(i-len(stringPlaces))%len(supply)]
				n, name = pl.f(su.f(s, run)), pl.name+" / "+su.name
			}
			run.needData()
			run.data["$run"] = run
			c.renderEscaped(n, run, fmt.Sprintf("%s with %q", name, s))
			if strings.ContainsAny(s, "<>&'\"\x00") {
				c.NonTrivial(name, s)
			}
		}
	case c.Idx < 4*np+len(catalogue):
		e := catalogue[c.Idx-4*np]
		c.Count("constructors", 1)
		for i := 0; i < 20; i++ {
			s := wholes[c.N(len(wholes))] + c.str(40)
			run := &Run{data: map[string]any{}, truth: map[int]bool{1: true}, lists: map[int][]any{}}
			run.needData()
			run.data["$run"] = run
			v := supply[c.N(len(supply))].f(s, run)
			if n := entryNode(e, v); n != nil {
				c.renderEscaped(n, run, fmt.Sprintf("%s with %q", e.Fn, s))
				c.NonTrivial(e.Fn, s)
			}
		}
	default:
		c.Count("trees", 1)
		cfg := Cfg{Depth: 5, Kids: c.Range(1, 5), Budget: c.Range(3, 50), Attrs: 35, Dyn: c.Pct(70), Dup: true, Named: true, Cond: c.Pct(40), Iter: c.Pct(40), Imper: c.Pct(40), Collect: c.Pct(30), Doc: c.Pct(10), Empty: c.Pct(40)}
		g := newGen(c.Rand, cfg)
		tree := &Node{K: "elem", Name: "div", Kids: g.kids(5, "elem")}
		tree.Kids = append(tree.Kids, g.node(4), g.node(3))
		node := (&Builder{}).node(tree)
		for i := c.Range(1, 3); i > 0; i-- {
			run := g.newRun(c.Rand)
			c.judgeRun(tree, node, run, nil)
			c.NonTrivial(run.rec.out)
			if len(run.rec.out) < 600 {
				c.Sample(func() any { return map[string]any{"tree": js(tree), "output": fmt.Sprintf("%q", run.rec.out)} })
			}
		}
	}
}

// entryNode is a node made by a constructor of the catalogue around a value
func entryNode(e catEntry, v *Val) *Node {
	switch e.Kind {
	case "elem":
		if e.Name == "script" || e.Name == "style" || e.Name == "textarea" || e.Name == "title" || e.Name == "iframe" || e.Name == "noscript" || e.Name == "track" {
			// the contents of these are not parsed as contents: only an attribute is judged
			if e.Name == "track" {
				return nil
			}
			return &Node{K: "elem", Name: e.Name, Ctor: e.Fn, Kids: []*Node{{K: "attr", Name: "title", Vals: []*Val{v}}}}
		}
		if v.K == "text" {
			return &Node{K: "elem", Name: e.Name, Ctor: e.Fn, Kids: []*Node{{K: "text", Vals: []*Val{v}}}}
		}
		return &Node{K: "elem", Name: e.Name, Ctor: e.Fn, Kids: []*Node{{K: "plain", Vals: []*Val{v}}, {K: "attr", Name: "title", Vals: []*Val{v}}}}
	case "void":
		return &Node{K: "void", Name: e.Name, Ctor: e.Fn, Kids: []*Node{{K: "attr", Name: "title", Vals: []*Val{v}}}}
	case "attr":
		return elemWith(&Node{K: "attr", Name: e.Name, Ctor: e.Fn, Vals: []*Val{v}})
	case "delim":
		return elemWith(&Node{K: "dattr", Name: e.Name, Delim: e.Extra, Ctor: e.Fn, Vals: []*Val{v, {K: "str", S: "<"}}})
	case "css":
		return elemWith(&Node{K: "dattr", Name: "style", Delim: "; ", Ctor: e.Fn, Vals: []*Val{v, {K: "str", S: "<"}}})
	case "unit":
		return elemWith(&Node{K: "attr", Name: "title", Vals: []*Val{{K: "unit", S: e.Fn, Sub: []*Val{v}}}})
	}
	return nil
}

func (c *Case) renderEscaped(n *Node, run *Run, what string) {
	c.judgeRun(n, (&Builder{}).node(n), run, what)
}

func (c *Case) judgeRun(n *Node, node aitch.Node, run *Run, what any) {
	var m *model
	withMarkers(func() { m = modelRun(n, run) })
	if _, err := render(node, run); err != nil {
		c.Fail("render failed: "+err.Error(), what)
	}
	if what == nil {
		what = map[string]any{"tree": js(n), "data": dump(run.data), "cargo": dump(run.cargo)}
	}
	c.judgeEscaping(m.out, run.rec.out, what)
}

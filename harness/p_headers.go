package main

import (
	"bytes"
	"fmt"
	"strings"
	"unicode/utf8"

	xhtml "golang.org/x/net/html"

	"github.com/go-andiamo/aitch"
	"github.com/go-andiamo/aitch/context"
	"github.com/go-andiamo/aitch/htmx"
)

// C20: header maps.  The attribute is read back the way a browser does: the HTML is tokenised, and
// the decoded value is scanned as an object literal whose keys are JavaScript strings.

func init() {
	register(&Prop{ID: "C20", Quick: 120000, Thor: 12000000, Run: runC20,
		Rule: "random sets of header maps (0-4 maps of 0-40, now and then 400 entries; keys with quotes, ampersands, backslashes, control characters, invalid UTF-8, common prefixes, shared between maps; values of every kind incl. dynamic ones and nodes) for Headers and HeadersJS, several builds and renders of each (other data, caller's maps changed in between), within elements, merged by collections, conditionals and imperative tags; and argument lists that mix maps and other values in every order; non-trivial: at least two entries or a key with a special character",
		Min:  map[string]int64{"attributes": 100000, "entries": 200000, "overridden": 20000, "special_keys": 50000, "dynamic_values": 40000, "mixed": 8000, "unmixed": 2000, "builds": 100000}})
}

// jsUnquote reads a single-quoted JavaScript string at the beginning of s
func jsUnquote(s string) (text, rest string, err string) {
	if s == "" || s[0] != '\'' {
		return "", s, "no quote"
	}
	var sb strings.Builder
	for i := 1; i < len(s); {
		switch ch := s[i]; ch {
		case '\'':
			return sb.String(), s[i+1:], ""
		case '\n', '\r':
			return "", s, "line break in a string"
		case '\\':
			i++
			if i >= len(s) {
				return "", s, "unterminated escape"
			}
			hex := func(n int) (r rune, ok bool) {
				if i+1+n > len(s) {
					return 0, false
				}
				for _, d := range s[i+1 : i+1+n] {
					v := strings.IndexRune("0123456789abcdef", d|0x20)
					if d < '0' || v < 0 {
						return 0, false
					}
					r = r<<4 | rune(v)
				}
				i += n
				return r, true
			}
			switch s[i] {
			case 'n':
				sb.WriteByte('\n')
			case 'r':
				sb.WriteByte('\r')
			case 't':
				sb.WriteByte('\t')
			case 'b':
				sb.WriteByte('\b')
			case 'f':
				sb.WriteByte('\f')
			case 'v':
				sb.WriteByte('\v')
			case '0':
				sb.WriteByte(0)
			case 'x', 'u':
				n := 2
				if s[i] == 'u' {
					n = 4
				}
				r, ok := hex(n)
				if !ok {
					return "", s, "bad escape"
				}
				sb.WriteRune(r)
			default:
				sb.WriteByte(s[i])
			}
			i++
		default:
			sb.WriteByte(ch)
			i++
		}
	}
	return "", s, "unterminated string"
}

// sameKey compares a key that was read back with the original
func sameKey(got, want string) bool {
	return got == strings.ReplaceAll(want, "\x00", "") || got == want
}

func (c *Case) headerKey(g *Gen) string {
	switch c.N(8) {
	case 0:
		return c.Pick("X-Token", "X-A", "X-B", "X-AB", "Accept", "x-a", "a", "b", "A", "")
	case 1:
		return c.Pick("a", "a'", "a''", "a\\", "a\\'", "a\\\\", "a\"", "a&", "a&amp;", "a&apos;", "a&#39;", "a<b", "a>", "a: 'b', 'c", "a'}", "js:", "{", "}", "\\n", "a\nb", "a\rb", "a\r\nb", "a\tb", "\u2028", "a\x00b", "é", "日本", "\xff", "\\u0041", "\\x41", "a', 'b': 'c")
	case 2, 3:
		return "K" + c.str(60)
	case 4: // long and with a common prefix
		return "Header-" + strings.Repeat("x", c.N(40)) + fmt.Sprint(c.N(5))
	}
	return fmt.Sprintf("X-%d", c.N([]int{30, 30, 1000}[c.N(3)]))
}

func runC20(c *Case) {
	g := newGen(c.Rand, Cfg{Dyn: c.Pct(70), Empty: true, Named: true, Cond: true, Depth: 2, Kids: 2, Budget: 6})
	if c.Idx%8 == 7 {
		c.mixedHeaders(g)
		return
	}
	n := &Node{K: "attr", Name: "hx-headers", Ctor: c.Pick("htmx.Headers", "htmx.HeadersJS"), Keys: []string{}}
	maps := c.N(4)
	if c.Pct(4) {
		maps = c.N(12)
	}
	if maps == 0 && c.Pct(70) {
		maps = 1
	}
	for m := 0; m <= maps; m++ {
		used := map[string]bool{}
		entries := c.N(5)
		if c.Pct(4) {
			entries = c.N(40)
			if c.Pct(15) {
				entries = c.N(400)
			}
		}
		for ; entries > 0; entries-- {
			k := c.headerKey(g)
			if c.Pct(30) && len(n.Keys) > 0 {
				k = n.Keys[c.N(len(n.Keys))]
			}
			if used[k] {
				continue
			}
			used[k] = true
			v := g.val(false, 1)
			if c.Pct(50) {
				v = &Val{K: "str", S: "'" + fmt.Sprint(g.next()) + "'"}
			}
			n.Keys, n.Maps, n.Vals = append(n.Keys, k), append(n.Maps, m), append(n.Vals, v)
		}
	}
	// what is to be in there: every key once, its last value
	last := map[string]*Val{}
	for i, k := range n.Keys {
		if last[k] != nil {
			c.Count("overridden", 1)
		}
		last[k] = n.Vals[i]
	}
	keys := sortedKeys(last)
	special := false
	for _, k := range keys {
		if strings.ContainsAny(k, "'\"\\&<>\n\r\x00") || !utf8.ValidString(k) {
			c.Count("special_keys", 1)
			special = true
		}
	}
	c.Count("entries", len(keys))
	c.Max("max_entries", len(keys))
	run := g.newRun(c.Rand)
	var outs [][]byte
	builders := c.Range(1, 3)
	for i := 0; i < builders; i++ {
		b := &Builder{hostile: true}
		att := b.headers(n)
		c.Count("builds", 1)
		if e := b.checkArgs(); e != "" {
			c.Fail("a constructor changed its arguments: "+e, js(n))
		}
		if att == nil || att.Name() != "hx-headers" || att.Type() != aitch.AttributeNode {
			c.Fail("not an hx-headers attribute", js(n))
		}
		el := c.around(att)
		r := run.again()
		out := c.readHeaders(n, el, r, keys, last)
		outs = append(outs, out)
		if c.Pct(50) { // with other data, and after the caller has changed the maps
			other := g.newRun(c.Rand)
			c.readHeaders(n, el, other, keys, last)
			if e := b.checkArgs(); e != "" {
				c.Fail("a render changed the arguments: "+e, js(n))
			}
			b.junkArgs()
			again := c.readHeaders(n, el, run.again(), keys, last)
			if !bytes.Equal(again, out) {
				c.Fail("the output depends on what was rendered before or on the caller's maps", diff(out, again), js(n))
			}
		}
	}
	for _, o := range outs[1:] {
		if !bytes.Equal(o, outs[0]) {
			c.Fail("the same maps give different outputs", diff(outs[0], o), js(n))
		}
	}
	if len(keys) > 1 || special {
		c.NonTrivial(outs[0])
		c.Sample(func() any {
			return map[string]any{"attribute": js(n), "output": fmt.Sprintf("%.400q", outs[0])}
		})
	}
}

// around puts the attribute on an element in one of many ways
func (c *Case) around(att aitch.Node) aitch.Node {
	yes := func(*context.Context) bool { return true }
	switch c.N(8) {
	case 0:
		return aitch.VoidElement("i", att)
	case 1:
		return aitch.Element("i", aitch.Collection(aitch.Collection(att)))
	case 2:
		return aitch.Element("i", aitch.Conditional(yes, att))
	case 3:
		return aitch.Imperative(func(ic aitch.ImperativeContext) error {
			ic.Start([]byte("i"), true, att)
			return nil
		})
	case 4:
		return aitch.Element("i", htmx.Headers("overridden"), att)
	case 5:
		return aitch.Element("i", htmx.HeadersJS(htmx.HeadersMap{"overridden": 1}), att)
	}
	return aitch.Element("i", att)
}

// readHeaders renders the element, reads the attribute back and returns its value as written
func (c *Case) readHeaders(n *Node, el aitch.Node, run *Run, keys []string, last map[string]*Val) []byte {
	_, err := render(el, run)
	c.Eval()
	c.Count("attributes", 1)
	fail := func(what string, more ...any) {
		c.Fail(what, map[string]any{"attribute": js(n), "output": fmt.Sprintf("%.1000q", run.rec.out), "more": fmt.Sprint(more...)})
	}
	if err != nil {
		fail("render failed", err)
	}
	_, attrs, _, e := parseStartTag(run.rec.out)
	if e != "" || len(attrs) != 1 || attrs[0].name != "hx-headers" || !attrs[0].has {
		fail("not a tag with one hx-headers attribute", e)
	}
	// the values by the model: they are needed to know where each ends
	env := &Env{data: run.data, cargo: run.cargo}
	value := func(v *Val) string {
		m := &model{run: run}
		m.atom(flat(atoms(v)), env, 0)
		c.Count("dynamic_values", len(m.ev))
		return decodeAttr(string(m.out))
	}
	s := decodeAttr(attrs[0].value)
	expect := func(text, what string) {
		if !strings.HasPrefix(s, text) {
			fail(fmt.Sprintf("%s: expected %q at %.80q", what, text, s))
		}
		s = s[len(text):]
	}
	if n.Ctor == "htmx.HeadersJS" {
		expect("js:", "prefix")
	}
	expect("{", "opening brace")
	for i, k := range keys {
		if i > 0 {
			expect(",", "comma")
			s = strings.TrimLeft(s, " ")
		}
		key, rest, e := jsUnquote(s)
		if e != "" {
			fail(fmt.Sprintf("key %q: %s at %.80q", k, e, s))
		}
		if !sameKey(key, k) {
			fail(fmt.Sprintf("expected key %q, read %q", k, key))
		}
		s = rest
		expect(":", "colon")
		s = strings.TrimPrefix(s, " ")
		expect(value(last[k]), fmt.Sprintf("value of key %q", k))
	}
	expect("}", "closing brace")
	if s != "" {
		fail("something after the closing brace", s)
	}
	// every dynamic value is called once per render
	m := &model{run: run}
	for _, k := range keys {
		m.atom(flat(atoms(last[k])), env, 0)
	}
	if len(m.ev) != len(run.ev) {
		fail("dynamic values are called a wrong number of times", len(run.ev), len(m.ev))
	}
	for i := range m.ev {
		if m.ev[i].ID != run.ev[i].ID {
			fail("dynamic values are called in the wrong order")
		}
	}
	return []byte(attrs[0].value)
}

// decodeAttr decodes an attribute value the way an HTML parser does
func decodeAttr(s string) string {
	z := xhtml.NewTokenizer(strings.NewReader(`<i a="` + s + `">`))
	z.Next()
	_, v, _ := z.TagAttr()
	if v != nil {
		return string(v)
	}
	t := z.Token()
	for _, a := range t.Attr {
		return a.Val
	}
	return ""
}

// mixedHeaders calls Headers with maps and other values in every order
func (c *Case) mixedHeaders(g *Gen) {
	nMaps, nOthers := c.N(4), c.N(4)
	if c.Pct(60) {
		nMaps, nOthers = max(1, nMaps), max(1, nOthers)
	}
	var args []any
	var maps []htmx.HeadersMap
	for i := 0; i < nMaps; i++ {
		m := htmx.HeadersMap{"k" + fmt.Sprint(i): i}
		if c.Pct(20) {
			m = nil
		}
		if c.Pct(20) {
			m = htmx.HeadersMap{}
		}
		maps = append(maps, m)
		args = append(args, m)
	}
	b := &Builder{}
	var others []*Val
	run := g.newRun(c.Rand)
	for i := 0; i < nOthers; i++ {
		v := g.val(false, 1)
		others = append(others, v)
	}
	odd := false
	for _, v := range others {
		if c.Pct(15) { // not a HeadersMap, though a map
			args, odd = append(args, map[string]any{"a": 1}), true
			continue
		}
		args = append(args, b.val(v))
	}
	perm := c.Perm(len(args))
	shuffled := make([]any, len(args))
	order := ""
	for i, p := range perm {
		shuffled[i] = args[p]
		if p < nMaps {
			order += "M"
		} else {
			order += "v"
		}
	}
	var att aitch.Node
	p := catch(func() { att = htmx.Headers(shuffled...) })
	c.Eval()
	if nMaps > 0 && nOthers > 0 {
		c.Count("mixed", 1)
		if p == nil {
			c.Fail("mixing maps with other values does not panic", order)
		}
		c.NonTrivial("mixed", order)
		return
	}
	c.Count("unmixed", 1)
	if p != nil {
		c.Fail("panics though nothing is mixed", order, fmt.Sprint(p))
	}
	if nMaps > 0 || odd {
		return
	}
	// other values are an ordinary attribute
	r := run.again()
	el := aitch.Element("i", att)
	if _, err := render(el, r); err != nil {
		c.Fail("render failed", err.Error())
	}
	vs := make([]*Val, len(others))
	for i, p := range perm {
		vs[i] = others[p]
	}
	m := &model{run: r}
	m.node(&Node{K: "elem", Name: "i", Kids: []*Node{{K: "attr", Name: "hx-headers", Vals: vs}}}, &Env{data: r.data, cargo: r.cargo})
	if !bytes.Equal(m.out, r.rec.out) {
		c.Fail("Headers without maps is not an ordinary attribute", diff(m.out, r.rec.out))
	}
}

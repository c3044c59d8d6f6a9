package main

import (
	"bytes"
	"errors"
	"fmt"
	"html/template"
	"math"
	"math/big"
	"strconv"
	"strings"
	"time"

	"github.com/go-andiamo/aitch"
	"github.com/go-andiamo/aitch/context"
	"github.com/go-andiamo/aitch/css"
	"github.com/go-andiamo/aitch/html"
	"github.com/go-andiamo/aitch/htmx"
)

// C13: every value type is rendered exactly.  Values are put between sentinels at every place, statically
// and through the data; the rendered text is judged by reading it back.

type namedString string
type namedInt int
type namedBool bool
type namedBytes []byte
type namedFloat float64
type stringerInt int

func (s stringerInt) String() string { return fmt.Sprintf("int<%d>", int(s)) }

type ptrStringer struct{ s string }

func (s *ptrStringer) String() string { return s.s }

// changing is a func() any with another result, often of another type, every time
type changing struct {
	results []any
	calls   int
}

func (f *changing) next() any {
	f.calls++
	return f.results[(f.calls-1)%len(f.results)]
}

// judge says what is wrong with the text rendered for the value ("" if nothing)
func judgeValue(v any, text string) string {
	exact := func(want string) string {
		if text != want {
			return fmt.Sprintf("%T %.200v is rendered as %.200q, expected %.200q", v, v, text, want)
		}
		return ""
	}
	escaped := func(s string) string {
		w, _ := matchEscaped([]byte(markText(s)), []byte(text))
		return w
	}
	integer := func(b *big.Int) string { return exact(b.String()) }
	float := func(f float64, bits int) string {
		p, err := strconv.ParseFloat(text, bits)
		if err != nil {
			return fmt.Sprintf("%T %v is rendered as %q, which is no number", v, v, text)
		}
		if bits == 32 {
			if math.Float32bits(float32(p)) != math.Float32bits(float32(f)) && !(math.IsNaN(f) && math.IsNaN(p)) {
				return fmt.Sprintf("float32 %v is rendered as %q, which is another number", v, text)
			}
		} else if math.Float64bits(p) != math.Float64bits(f) && !(math.IsNaN(f) && math.IsNaN(p)) {
			return fmt.Sprintf("float64 %v is rendered as %q, which is another number", v, text)
		}
		if d := digits(text); d > digits(strconv.FormatFloat(f, 'e', -1, bits)) {
			return fmt.Sprintf("%T %v is rendered as %q, which has more digits than needed", v, v, text)
		}
		return ""
	}
	switch vt := v.(type) {
	case nil:
		return exact("")
	case bool:
		if vt {
			return exact("true")
		}
		return exact("false")
	case int:
		return integer(big.NewInt(int64(vt)))
	case int8:
		return integer(big.NewInt(int64(vt)))
	case int16:
		return integer(big.NewInt(int64(vt)))
	case int32:
		return integer(big.NewInt(int64(vt)))
	case int64:
		return integer(big.NewInt(vt))
	case uint:
		return integer(new(big.Int).SetUint64(uint64(vt)))
	case uint8:
		return integer(new(big.Int).SetUint64(uint64(vt)))
	case uint16:
		return integer(new(big.Int).SetUint64(uint64(vt)))
	case uint32:
		return integer(new(big.Int).SetUint64(uint64(vt)))
	case uint64:
		return integer(new(big.Int).SetUint64(vt))
	case float32:
		return float(float64(vt), 32)
	case float64:
		return float(vt, 64)
	case string:
		return escaped(vt)
	case []byte:
		return exact(string(vt))
	case fmt.Stringer:
		return escaped(vt.String())
	case func() any:
		return judgeValue(vt(), text)
	case *changing:
		if vt.calls != 1 {
			return fmt.Sprintf("a func() any was called %d times for one value", vt.calls)
		}
		return judgeValue(vt.results[0], text)
	}
	return exact("")
}

// digits counts the significant digits of a number
func digits(s string) int {
	if i := strings.IndexAny(s, "eE"); i >= 0 {
		s = s[:i]
	}
	s = strings.Trim(s, "+-")
	s = strings.Replace(s, ".", "", 1)
	if strings.Trim(s, "0123456789") != "" {
		return 0
	}
	s = strings.TrimLeft(s, "0")
	return len(strings.TrimRight(s, "0"))
}

func (c *Case) anyValue(depth int) any {
	edge := func(vs ...int64) int64 {
		if c.Pct(50) {
			return vs[c.N(len(vs))] + int64(c.N(3)) - 1
		}
		return int64(c.U64()) >> c.N(64)
	}
	i := edge(0, 9, 10, 99, 100, 127, 128, -128, 255, 256, 32767, -32768, 65535, math.MaxInt32, math.MinInt32, math.MaxUint32, math.MaxInt64-1, math.MinInt64+1, 1000000, -1)
	switch c.N(26) {
	case 0:
		return c.Pct(50)
	case 1:
		return int(i)
	case 2:
		return int8(i)
	case 3:
		return int16(i)
	case 4:
		return int32(i)
	case 5:
		return i
	case 6:
		return uint(i)
	case 7:
		return uint8(i)
	case 8:
		return uint16(i)
	case 9:
		return uint32(i)
	case 10:
		return uint64(i)
	case 11, 12:
		switch c.N(4) {
		case 0:
			return []float64{0, math.Copysign(0, -1), 1, -1, 0.1, 1e21, 1e20, 1e-7, 123456789, 1.5e300, math.Inf(1), math.Inf(-1), math.NaN(), math.MaxFloat64, math.SmallestNonzeroFloat64, 1 << 53, 1<<53 + 1, 100000, 1000000, 12345678.9, 2.0 / 3}[c.N(21)]
		case 1:
			return float64(i)
		case 2:
			return float64(c.N(100000)) / 100
		}
		return math.Float64frombits(c.U64())
	case 13, 14:
		switch c.N(3) {
		case 0:
			return []float32{0, 1, 0.1, 3.4e38, 1e-45, 16777216, 16777217, float32(math.Inf(1)), float32(math.NaN()), 1e21, 0.3, 2.0 / 3}[c.N(12)]
		case 1:
			return float32(c.N(100000)) / 100
		}
		return math.Float32frombits(uint32(c.U64()))
	case 15, 16:
		if c.Pct(20) {
			return wholes[c.N(len(wholes))]
		}
		return c.str(40)
	case 17:
		b := make([]byte, c.N(20))
		for j := range b {
			b[j] = byte(c.N(256))
		}
		return b
	case 18:
		return []any{strr{c.str(40)}, &ptrStringer{c.str(40)}, stringerInt(c.N(1000)), time.Duration(i), big.NewInt(i), time.Month(1 + c.N(12)), net4(c)}[c.N(7)]
	case 19, 20:
		if depth > 0 {
			v := c.anyValue(depth - 1)
			return func() any { return v }
		}
		return nil
	case 21:
		return nil
	case 22: // types that are not supported
		return []any{unsup{1, 2}, &unsup{}, complex(1, 2), complex64(1), map[string]any{"a": 1}, []string{"a"}, []any{"a"}, []int{1}, [2]byte{1, 2}, make(chan int), func() string { return "no" }, func() {}, uintptr(5), struct{}{}, errors.New("an error"), (*int)(nil), new(string)}[c.N(17)]
	case 23: // named types without a String method
		return []any{namedString("named<"), namedInt(5), namedBool(true), namedBytes("bytes"), namedFloat(1.5), template.HTML("<b>"), template.JS("x")}[c.N(7)]
	case 24:
		return []any{"", []byte{}, []byte(nil), strr{""}, "\x00", func() any { return nil }, func() any { return "" }}[c.N(7)]
	}
	return c.str(20)
}

func net4(c *Case) fmt.Stringer {
	return time.Date(2000+c.N(50), time.Month(1+c.N(12)), 1+c.N(28), 0, 0, 0, 0, time.UTC)
}

// where a value is accepted: each returns a node that writes l, the value and r
var valuePlaces = []struct {
	name string
	node func(v any) aitch.Node
	l, r string
}{
	{"Text", func(v any) aitch.Node { return aitch.Text(v) }, "", ""},
	{"html.Text", func(v any) aitch.Node { return html.Text(v) }, "", ""},
	{"Fragment", func(v any) aitch.Node { return aitch.Fragment(v) }, "", ""},
	{"Comment", func(v any) aitch.Node { return aitch.Comment(v) }, "<!--", "-->"},
	{"PI", func(v any) aitch.Node { return aitch.PI("x", v) }, "<!x ", ">\n"},
	{"contents", func(v any) aitch.Node { return aitch.Element("p", v) }, "<p>", "</p>"},
	{"contents among others", func(v any) aitch.Node { return html.P("a", v, 5, html.Id(1)) }, `<p id="1">a`, "5</p>"},
	{"Attribute", func(v any) aitch.Node { return aitch.Element("p", aitch.Attribute("t", v)) }, `<p t="`, `"></p>`},
	{"Attribute among others", func(v any) aitch.Node { return aitch.Element("p", aitch.Attribute("t", "a", v, 5)) }, `<p t="a`, `5"></p>`},
	{"delimited attribute", func(v any) aitch.Node { return aitch.VoidElement("p", aitch.DelimitedAttribute("t", ",", v)) }, `<p t="`, `">`},
	{"NewValue", func(v any) aitch.Node { return aitch.Text(aitch.NewValue(v)) }, "", ""},
	{"NewConcatValue", func(v any) aitch.Node { return aitch.Text(aitch.NewConcatValue("a", v, 7)) }, "a", "7"},
	{"NewConcatValue alone", func(v any) aitch.Node { return aitch.Text("[", aitch.NewConcatValue(v), "]") }, "[", "]"},
	{"nested NewConcatValue", func(v any) aitch.Node {
		return aitch.Text(aitch.NewConcatValue(aitch.NewConcatValue(aitch.NewValue(v), 1), 2))
	}, "", "12"},
	{"text as value", func(v any) aitch.Node { return aitch.Text(1, aitch.Text(v), 2) }, "1", "2"},
	{"collection as value", func(v any) aitch.Node {
		return aitch.Element("p", aitch.Attribute("t", aitch.Collection(aitch.Text(1), aitch.Text(v))))
	}, `<p t="1`, `"></p>`},
	{"css property", func(v any) aitch.Node { return html.P(css.Color(v)) }, `<p style="color:`, `"></p>`},
	{"css unit", func(v any) aitch.Node { return html.P(css.Width(css.Px(v))) }, `<p style="width:`, `px"></p>`},
	{"htmx.Var", func(v any) aitch.Node { return html.P(htmx.Vars(htmx.Var("n", v))) }, `<p hx-vars="n: `, `"></p>`},
	{"htmx.Headers", func(v any) aitch.Node { return html.P(htmx.Headers(htmx.HeadersMap{"k": v})) }, `<p hx-headers="{'k': `, `}"></p>`},
	{"imperative attribute", func(v any) aitch.Node {
		return aitch.Imperative(func(ctx aitch.ImperativeContext) error {
			ctx.Start([]byte("i"), true, aitch.Attribute("t", v))
			return nil
		})
	}, `<i t="`, `">`},
	{"conditional attribute", func(v any) aitch.Node {
		return aitch.Element("p", aitch.Attribute("t", "other"), aitch.When("!absent", aitch.Attribute("t", v)))
	}, `<p t="`, `"></p>`},
}

func init() {
	register(&Prop{ID: "C13", Quick: 160000, Thor: 6000000, Run: runC13,
		Rule: "values of every supported type (boundaries, random bits, special floats, any bytes and strings), unsupported and named types and nil, at every place that accepts a value, given statically, as func() any (also one with another result every time), by key, by cargo and as an iterated item, between sentinels; numbers are judged by reading them back, strings by decoding; non-trivial: a value and place with non-empty text",
		Min:  map[string]int64{"values": 500000, "floats": 50000, "unsupported": 30000, "dynamic": 200000, "nbsps": 1000, "places": 20}})
}

func runC13(c *Case) {
	hostility = 20
	if c.Idx%40 == 0 {
		c.nbsps()
		return
	}
	if c.Idx == 1 {
		c.Count("places", len(valuePlaces))
	}
	for i := 0; i < 20; i++ {
		v := c.anyValue(3)
		p := valuePlaces[c.N(len(valuePlaces))]
		judged := v
		if c.Pct(8) {
			f := &changing{results: []any{c.anyValue(1), c.anyValue(2), c.anyValue(0)}}
			v, judged = f.next, f
			c.Count("changing_functions", 1)
		}
		arg := v
		data := map[string]any{"k": v, "other": "no"}
		var cargo any = "no"
		mode := c.N(6)
		switch mode {
		case 1:
			arg = aitch.DynamicValueKey("k")
		case 2:
			arg, cargo = aitch.DynamicValueKey("."), v
		case 3:
			arg, cargo = html.DynamicValueKey("."), v
		case 4:
			arg = func() any { return v }
			if f, ok := judged.(*changing); ok {
				arg = func() any { return f.next() }
			}
		}
		switch arg.(type) { // []any, []string... are rendered as nothing; a Node or a context function is not a value here
		case func(*context.Context) []byte:
			continue
		}
		node := p.node(arg)
		l, r := p.l, p.r
		if mode == 3 { // as the item of an iteration
			data["list"], cargo = []any{v}, "no"
			node = aitch.IterateKey("list", node)
			if c.Pct(50) {
				data["list"] = []any{"(", v, ")"}
				node = aitch.IterateKey("list", aitch.Text(arg))
				l, r = "(", ")"
			}
			if m, ok := v.(map[string]any); ok && m != nil {
				continue // its contents become the data
			}
		}
		var w bytes.Buffer
		w.WriteString("<<<")
		ctx := context.New(&w, data, cargo)
		err := aitch.Collection(aitch.Text([]byte("{")), node, aitch.Text([]byte("}"))).Render(ctx)
		c.Eval()
		c.Count("values", 1)
		if mode >= 1 {
			c.Count("dynamic", 1)
		}
		desc := fmt.Sprintf("%s mode %d: %T %.300v", p.name, mode, v, v)
		if err != nil {
			c.Fail("render failed: "+err.Error(), desc)
		}
		out := w.String()
		l, r = "<<<{"+l, r+"}"
		if !strings.HasPrefix(out, l) || !strings.HasSuffix(out, r) || len(out) < len(l)+len(r) {
			c.Fail("a value disturbs what is around it", desc, fmt.Sprintf("%.400q", out))
		}
		text := out[len(l) : len(out)-len(r)]
		if e := judgeValue(judged, text); e != "" {
			c.Fail(e, desc, fmt.Sprintf("%.400q", out))
		}
		switch v.(type) {
		case float32, float64:
			c.Count("floats", 1)
		case unsup, *unsup, complex128, namedString, namedInt, namedBool, namedBytes, namedFloat, template.HTML, template.JS, []string, []any, map[string]any:
			c.Count("unsupported", 1)
		}
		if text != "" {
			c.NonTrivial(p.name, mode, text)
			c.Sample(func() any {
				return map[string]any{"place": p.name, "type": fmt.Sprintf("%T", v), "output": fmt.Sprintf("%.200q", out)}
			})
		}
	}
}

func (c *Case) nbsps() {
	n := []int{-5, -1, 0, 1, 2, 3, 7, 8, 64, 1000, 1 + c.N(5000), 5000 + c.N(70000)}[c.N(12)]
	c.Count("nbsps", 1)
	c.Eval()
	a, b := aitch.Nbsps(n), aitch.Nbsps(n)
	want := strings.Repeat("&nbsp;", max(0, n))
	if string(a) != want {
		c.Fail(fmt.Sprintf("Nbsps(%d) is %.100q", n, a))
	}
	one := aitch.Nbsp()
	if string(one) != "&nbsp;" {
		c.Fail(fmt.Sprintf("Nbsp() is %q", one))
	}
	for i := range a {
		a[i] = 'x'
	}
	for i := range one {
		one[i] = 'x'
	}
	_ = append(a, "yyyyyyyyyyyy"...)
	_ = append(one, "yyyyyyyyyyyy"...)
	_ = append(aitch.Nbsps(n), "zzzzzzz"...)
	if string(b) != want || string(aitch.Nbsps(n)) != want || string(aitch.Nbsp()) != "&nbsp;" || string(aitch.Nbsps(2)) != "&nbsp;&nbsp;" {
		c.Fail(fmt.Sprintf("changing the result of Nbsps(%d) or Nbsp() changes other results", n))
	}
	var w bytes.Buffer
	if err := aitch.Text("a", aitch.Nbsp(), aitch.Nbsps(n), "b").Render(context.New(&w, nil, nil)); err != nil || w.String() != "a&nbsp;"+want+"b" {
		c.Fail("rendered nbsps are wrong", w.String())
	}
	c.NonTrivial("nbsps", n)
}

package main

import (
	"errors"
	"fmt"
	"reflect"
	"time"

	"github.com/go-andiamo/aitch/context"
)

// C15: typed lookups.  A table of cargo shapes, each with a hand-written list of what can be found in
// it, crossed with keys, data and requested types; plus struct types and maps made up at random.

func init() {
	register(&Prop{ID: "C15", Quick: 40000, Thor: 4000000, Run: runC15,
		Rule: "cargo of 64 hand-written shapes (maps with string and named string keys, structs, embedded structs by value and pointer, nil and exported or not, shadowed and ambiguous fields, pointers, nil pointers, pointers to pointers, scalars, slices, functions) and of random struct types and maps, data with and without the key and with right and wrong types, nil contexts and contexts with parents, crossed with 30 requested types; non-trivial: a lookup that finds something or that is one step away from it",
		Min:  map[string]int64{"lookups": 800000, "found_in_data": 30000, "found_in_cargo": 50000, "not_found": 300000, "wrong_type_in_data": 50000, "must_panics": 300000, "random_structs": 3000}})
}

type lkStr string
type lkInner struct{ Deep, Name string }
type lkBase struct {
	ID     int
	Name   string
	hidden string
	Inner  lkInner
}

func (b lkBase) Method() string  { return "m" }
func (b *lkBase) PtrMethod() int { return 1 }
func (b lkBase) String() string  { return "base:" + b.Name }
func (b *lkBase) Error() string  { return "err:" + b.Name }

type lkbase struct {
	Promoted string
	Count    int64
	own      int
}
type lkLeft struct{ Both, OnlyLeft string }
type lkRight struct {
	Both      string
	OnlyRight int
}
type lkAmbiguous struct {
	lkLeft
	lkRight
}
type lkEmbed struct {
	lkBase
	Extra any
}
type lkEmbedPtr struct {
	*lkBase
	Extra string
}
type LkBase struct {
	Pub string
	Any any
}
type lkEmbedPub struct {
	LkBase
	*lkInner
	Name string // shadows lkInner.Name
}
type lkUnexportedEmbed struct {
	lkbase
	X int
}
type lkUnexportedEmbedPtr struct {
	*lkbase
	X int
}
type lkDeep struct {
	lkEmbedPtr
	Level int
}
type lkCycle struct {
	*lkCycle
	X int
}
type LkIface interface{ String() string }
type lkEmbedIface struct {
	LkIface
	fmt.Stringer
	Z int
}
type LkNamedInt int
type lkEmbedScalar struct {
	LkNamedInt
	lkStr
	V string
}
type lkKinds struct {
	S   string
	I   int
	I8  int8
	I64 int64
	U   uint
	F   float64
	F32 float32
	B   bool
	By  []byte
	SS  []string
	M   map[string]any
	A   any
	E   error
	St  fmt.Stringer
	P   *lkInner
	St2 lkInner
	Fn  func() any
	Ch  chan int
	Arr [2]int
	N   lkStr
	T   time.Time
	D   time.Duration
	_   int
	s   string
	Éa  string
	Ünï int
}
type lkEmpty struct{}
type lkGeneric[T any] struct{ Value T }

type lkShape struct {
	what  string
	cargo any
	has   map[string]any // what can be found in it
}

func lookupShapes() []lkShape {
	base := lkBase{ID: 7, Name: "n", hidden: "h", Inner: lkInner{"d", "in"}}
	baseHas := map[string]any{"ID": 7, "Name": "n", "Inner": base.Inner}
	with := func(m map[string]any, kv ...any) map[string]any {
		result := map[string]any{}
		for k, v := range m {
			result[k] = v
		}
		for i := 0; i < len(kv); i += 2 {
			result[kv[i].(string)] = kv[i+1]
		}
		return result
	}
	inner := &lkInner{"dd", "nn"}
	fn := func() any { return 5 }
	ch := make(chan int)
	err := errors.New("e")
	now := time.Unix(1000, 0)
	kinds := lkKinds{S: "s", I: 1, I8: 2, I64: 3, U: 4, F: 1.5, F32: 2.5, B: true, By: []byte("by"), SS: []string{"a"}, M: map[string]any{"x": 1}, A: "any", E: err, St: strr{"st"},
		P: inner, St2: *inner, Fn: fn, Ch: ch, Arr: [2]int{1, 2}, N: "named", T: now, D: time.Second, s: "hidden", Éa: "é", Ünï: 9}
	kindsHas := map[string]any{"S": "s", "I": 1, "I8": int8(2), "I64": int64(3), "U": uint(4), "F": 1.5, "F32": float32(2.5), "B": true, "By": kinds.By, "SS": kinds.SS, "M": kinds.M, "A": "any",
		"E": err, "St": strr{"st"}, "P": inner, "St2": *inner, "Fn": fn, "Ch": ch, "Arr": [2]int{1, 2}, "N": lkStr("named"), "T": now, "D": time.Second, "Éa": "é", "Ünï": 9}
	zeroHas := map[string]any{"S": "", "I": 0, "I8": int8(0), "I64": int64(0), "U": uint(0), "F": 0.0, "F32": float32(0), "B": false, "By": []byte(nil), "SS": []string(nil), "M": map[string]any(nil),
		"P": (*lkInner)(nil), "St2": lkInner{}, "Fn": (func() any)(nil), "Ch": (chan int)(nil), "Arr": [2]int{}, "N": lkStr(""), "T": time.Time{}, "D": time.Duration(0), "Éa": "", "Ünï": 0}
	m := map[string]any{"Name": "mv", "ID": 3, "": "empty", "nil": nil, "S": lkStr("x"), "P": inner, "A": map[string]any{"b": 1}, "ünï": "u", "By": []byte("b"), "F": 2.0, "E": err}
	ms := map[string]string{"Name": "msv", "": "e", "ID": "3"}
	mi := map[lkStr]int{"ID": 4, "Name": 5}
	mn := map[lkStr]any{"Name": "named-key", "I": 6}
	me := map[string]error{"E": err, "nil": nil}
	mp := map[string]*lkInner{"P": inner, "nilp": nil}
	cyc := &lkCycle{X: 1}
	cyc.lkCycle = cyc
	pm, pnil, ppbase := &m, (*lkBase)(nil), &[]*lkBase{&base}[0]
	pmn := (*map[string]any)(nil)
	var iface any = base
	embed := lkEmbed{base, 8}
	embedHas := with(baseHas, "Extra", 8)
	anon := struct {
		A, b string
		C    struct{ D int }
	}{"a", "b", struct{ D int }{1}}
	lr := lkAmbiguous{lkLeft{"l", "ol"}, lkRight{"r", 2}}
	return []lkShape{
		{"nil", nil, nil},
		{"int", 5, nil}, {"string", "Name", nil}, {"bytes", []byte("Name"), nil}, {"slice", []any{"Name"}, nil}, {"array", [1]string{"Name"}, nil},
		{"func", fn, nil}, {"func(string)", func(string) string { return "x" }, nil}, {"chan", ch, nil}, {"float", 1.5, nil}, {"bool", true, nil}, {"complex", complex(1, 2), nil},
		{"pointer to int", new(int), nil}, {"pointer to string", new(string), nil}, {"pointer to slice", &[]int{1}, nil}, {"error", err, nil},
		{"map[string]any", m, m}, {"pointer to map", pm, m}, {"nil map", map[string]any(nil), nil}, {"nil pointer to map", pmn, nil}, {"empty map", map[string]any{}, nil},
		{"map[string]string", ms, map[string]any{"Name": "msv", "": "e", "ID": "3"}}, {"pointer to map[string]string", &ms, map[string]any{"Name": "msv", "": "e", "ID": "3"}},
		{"map[named]int", mi, map[string]any{"ID": 4, "Name": 5}}, {"map[named]any", mn, map[string]any{"Name": "named-key", "I": 6}},
		{"map[string]error", me, map[string]any{"E": err}}, {"map[string]*struct", mp, map[string]any{"P": inner, "nilp": (*lkInner)(nil)}},
		{"map[string]struct", map[string]lkInner{"P": *inner}, map[string]any{"P": *inner}}, {"map[string]struct{}", map[string]struct{}{"Name": {}}, map[string]any{"Name": struct{}{}}},
		{"map[int]any", map[int]any{1: "Name"}, nil}, {"map[bool]string", map[bool]string{true: "Name"}, nil}, {"map[[1]string]", map[[1]string]string{{"Name"}: "x"}, nil}, {"map[struct]", map[lkInner]string{{}: "x"}, nil},
		{"nil map[named]", map[lkStr]string(nil), nil}, {"map[rune]", map[rune]string{'N': "x"}, nil}, {"map[byte]", map[byte]string{0: "x"}, nil},
		{"struct", base, baseHas}, {"pointer to struct", &base, baseHas}, {"nil pointer to struct", pnil, nil},
		{"struct in interface", iface, baseHas}, {"pointer to pointer to struct", ppbase, nil}, {"pointer to interface", &iface, nil},
		{"embedded struct", embed, embedHas}, {"pointer to embedded struct", &embed, embedHas},
		{"embedded pointer", lkEmbedPtr{&base, "x"}, with(baseHas, "Extra", "x")}, {"nil embedded pointer", lkEmbedPtr{nil, "x"}, map[string]any{"Extra": "x"}}, {"pointer with nil embedded pointer", &lkEmbedPtr{}, map[string]any{"Extra": ""}},
		{"exported embedded", lkEmbedPub{LkBase{"p", 5}, inner, "own"}, map[string]any{"LkBase": LkBase{"p", 5}, "Pub": "p", "Any": 5, "Name": "own", "Deep": "dd"}},
		{"exported embedded, nil pointer", lkEmbedPub{Name: "own"}, map[string]any{"LkBase": LkBase{}, "Pub": "", "Name": "own"}},
		{"unexported embedded", lkUnexportedEmbed{lkbase{"pr", 5, 1}, 2}, map[string]any{"Promoted": "pr", "Count": int64(5), "X": 2}},
		{"unexported embedded pointer", lkUnexportedEmbedPtr{&lkbase{"pr", 5, 1}, 2}, map[string]any{"Promoted": "pr", "Count": int64(5), "X": 2}},
		{"nil unexported embedded pointer", &lkUnexportedEmbedPtr{nil, 2}, map[string]any{"X": 2}},
		{"two levels", lkDeep{lkEmbedPtr{&base, "e"}, 3}, with(baseHas, "Extra", "e", "Level", 3)}, {"two levels, nil", &lkDeep{Level: 3}, map[string]any{"Extra": "", "Level": 3}},
		{"cycle", cyc, map[string]any{"X": 1}}, {"nil cycle", lkCycle{X: 2}, map[string]any{"X": 2}},
		{"embedded interfaces", lkEmbedIface{strr{"a"}, strr{"b"}, 1}, map[string]any{"LkIface": strr{"a"}, "Stringer": strr{"b"}, "Z": 1}}, {"nil embedded interfaces", lkEmbedIface{Z: 1}, map[string]any{"Z": 1}},
		{"embedded scalars", lkEmbedScalar{5, "s", "v"}, map[string]any{"LkNamedInt": LkNamedInt(5), "V": "v"}},
		{"ambiguous fields", lr, map[string]any{"OnlyLeft": "ol", "OnlyRight": 2}}, {"pointer to ambiguous fields", &lr, map[string]any{"OnlyLeft": "ol", "OnlyRight": 2}},
		{"kinds", kinds, kindsHas}, {"pointer to kinds", &kinds, kindsHas}, {"zero kinds", lkKinds{}, zeroHas}, {"pointer to zero kinds", &lkKinds{}, zeroHas},
		{"empty struct", lkEmpty{}, nil}, {"pointer to empty struct", &lkEmpty{}, nil}, {"generic", lkGeneric[int]{5}, map[string]any{"Value": 5}}, {"generic pointer", &lkGeneric[any]{"x"}, map[string]any{"Value": "x"}},
		{"type with the name of another", twinA(), map[string]any{"Name": "twin a", "ID": 1, "S": "sa"}}, {"type with the name of another 2", twinB(), map[string]any{"ID": "twin b", "Name": 2, "Extra": 3}},
		{"type with the name of another 3", twinC(), map[string]any{"Pad": 0, "Name": "twin c", "X": "x"}}, {"map type with the name of another", twinD(), map[string]any{"Name": "twin d"}},
		{"anonymous struct", anon, map[string]any{"A": "a", "C": anon.C}}, {"time", now, nil}, {"reflect.Value", reflect.ValueOf(base), nil}, {"typed nil func", (func())(nil), nil}, {"typed nil slice", []string(nil), nil},
	}
}

// types of the same package and name that are not the same
func twinA() any {
	type lkTwin struct {
		Name string
		ID   int
		S    string
	}
	return lkTwin{"twin a", 1, "sa"}
}

func twinB() any {
	type lkTwin struct {
		ID    string
		Name  int
		s     string
		Extra int
	}
	return &lkTwin{"twin b", 2, "", 3}
}

func twinC() any {
	type in struct{ X, Name string }
	type lkTwin struct {
		Pad int
		in
	}
	return lkTwin{in: in{"x", "twin c"}}
}

func twinD() any {
	type lkTwin map[string]string
	return lkTwin{"Name": "twin d"}
}

// lkType is a requested type
type lkType struct {
	name string
	get  func(ctx *context.Context, key string) (any, bool, bool) // value, found, zero
	must func(ctx *context.Context, key string) any
	is   func(v any) bool
}

func lkt[T any]() lkType {
	return lkType{
		name: fmt.Sprintf("%v", reflect.TypeOf((*T)(nil)).Elem()),
		get: func(ctx *context.Context, key string) (any, bool, bool) {
			v, ok := context.Get[T](ctx, key)
			return v, ok, reflect.ValueOf(&v).Elem().IsZero()
		},
		must: func(ctx *context.Context, key string) any { return context.MustGet[T](ctx, key) },
		is:   func(v any) bool { _, ok := v.(T); return ok },
	}
}

var lkTypes = []lkType{lkt[string](), lkt[int](), lkt[int8](), lkt[int64](), lkt[uint](), lkt[float64](), lkt[float32](), lkt[bool](), lkt[[]byte](), lkt[[]string](), lkt[[]any](), lkt[map[string]any](), lkt[map[string]string](),
	lkt[any](), lkt[error](), lkt[fmt.Stringer](), lkt[*lkInner](), lkt[lkInner](), lkt[lkBase](), lkt[*lkBase](), lkt[LkBase](), lkt[func() any](), lkt[chan int](), lkt[[2]int](), lkt[lkStr](), lkt[time.Time](),
	lkt[time.Duration](), lkt[struct{}](), lkt[LkNamedInt](), lkt[interface{ Method() string }](), lkt[rune](), lkt[lkbase](), lkt[*context.Context](), lkt[*any](), lkt[LkIface]()}

var lkKeys = []string{"", "ID", "Name", "name", "hidden", "Inner", "Inner.Deep", "Deep", "Method", "PtrMethod", "String", "Promoted", "Count", "own", "Both", "OnlyLeft", "OnlyRight", "Extra", "lkBase", "LkBase", "Pub", "Any", "lkInner",
	"lkbase", "X", "Level", "lkCycle", "LkIface", "Stringer", "Z", "LkNamedInt", "lkStr", "V", "S", "I", "I8", "I64", "U", "F", "F32", "B", "By", "SS", "M", "A", "E", "St", "P", "St2", "Fn", "Ch", "Arr", "N", "T", "D", "_", "s", "Éa", "Ünï",
	"ünï", "Value", "C", "b", "nil", "nilp", "wall", "ext", "loc", "\x00", "\xff", "0", "-1", "Name ", "a.b", "ptr", "flag", "typ_"}

func (c *Case) lkValue() any {
	vs := []any{"d", 1, int8(2), int64(3), uint(4), 1.5, float32(1), true, []byte("b"), []string{"x"}, []any{1}, map[string]any{"a": 1}, nil, errors.New("e"), strr{"s"}, &lkInner{}, lkInner{}, (*lkInner)(nil), lkBase{}, &lkBase{},
		func() any { return 1 }, [2]int{}, lkStr("l"), time.Second, struct{}{}, (func() any)(nil), error(nil), LkNamedInt(4), 'r', "", 0, false}
	return vs[c.N(len(vs))]
}

func runC15(c *Case) {
	shapes := lookupShapes()
	var sh lkShape
	keys := lkKeys
	switch {
	case c.Idx < 4*len(shapes):
		sh = shapes[c.Idx%len(shapes)]
	case c.Pct(50):
		sh = shapes[c.N(len(shapes))]
		keys = []string{lkKeys[c.N(len(lkKeys))], lkKeys[c.N(len(lkKeys))]}
		if has := sortedKeys(sh.has); len(has) > 0 {
			for i := 0; i < 4; i++ {
				keys = append(keys, has[c.N(len(has))])
			}
		}
	default:
		sh = c.randomShape()
		keys = append(sortedKeys(sh.has), lkKeys[c.N(len(lkKeys))], "missing", "f0")
	}
	// data
	var data map[string]any
	if c.Pct(70) {
		data = map[string]any{}
		for i := c.N(4); i > 0; i-- {
			data[keys[c.N(len(keys))]] = c.lkValue()
		}
		if c.Pct(20) {
			data[""] = c.lkValue()
		}
	}
	ctx := &context.Context{Data: data, Cargo: sh.cargo, Writer: newRec()}
	if c.Pct(30) { // the parent is of no interest
		ctx.Parent = &context.Context{Data: map[string]any{}, Cargo: map[string]any{}}
		for _, k := range keys {
			ctx.Parent.Data[k] = c.lkValue()
			ctx.Parent.Cargo.(map[string]any)[k] = c.lkValue()
		}
	}
	if c.Pct(20) {
		ctx.Error = errors.New("an earlier error")
	}
	isNil := c.Pct(2)
	snap := lkDump(ctx)
	before := *ctx
	used := ctx
	if isNil {
		used = nil
		c.Count("nil_contexts", 1)
	}
	for _, key := range keys {
		dv, inData := data[key]
		cv, inCargo := sh.has[key]
		for _, t := range lkTypes {
			var want any
			found := false
			switch {
			case isNil:
			case inData && t.is(dv):
				want, found = dv, true
				c.w.counters["found_in_data"]++
			case inCargo && t.is(cv):
				want, found = cv, true
				c.w.counters["found_in_cargo"]++
			default:
				c.w.counters["not_found"]++
			}
			if inData && !t.is(dv) {
				c.w.counters["wrong_type_in_data"]++
			}
			c.lookup(used, sh, key, t, data, want, found)
			if found || inData || inCargo {
				c.NonTrivial(sh.what, key, t.name, fmt.Sprintf("%T %v", dv, inData), found)
			}
		}
	}
	c.Eval()
	if ctx.Error != before.Error || ctx.Writer != before.Writer || ctx.Parent != before.Parent || mapPtr(ctx.Data) != mapPtr(before.Data) || lkDump(ctx) != snap {
		c.Fail("a lookup changed its context", sh.what, snap, lkDump(ctx))
	}
	c.Sample(func() any {
		return map[string]any{"cargo": sh.what, "keys": keys, "data": fmt.Sprintf("%v", data), "types": len(lkTypes)}
	})
}

func lkDump(ctx *context.Context) string {
	s := fmt.Sprintf("%v", ctx.Data)
	switch ctx.Cargo.(type) {
	case *lkCycle, reflect.Value:
	default:
		s += fmt.Sprintf("%+v", ctx.Cargo)
	}
	if ctx.Parent != nil {
		s += fmt.Sprintf("%v %v", ctx.Parent.Data, ctx.Parent.Cargo)
	}
	return s
}

func (c *Case) lookup(ctx *context.Context, sh lkShape, key string, t lkType, data map[string]any, want any, found bool) {
	c.w.counters["lookups"]++
	fail := func(what string, got any) {
		c.Fail(what, map[string]any{"cargo": sh.what, "cargo_value": fmt.Sprintf("%T", sh.cargo), "key": key, "type": t.name, "data": fmt.Sprintf("%v", data), "expected": fmt.Sprintf("%T %v", want, want), "found": found, "got": fmt.Sprintf("%T %v", got, got)})
	}
	var got any
	var ok, zero bool
	if p := catch(func() { got, ok, zero = t.get(ctx, key) }); p != nil {
		fail("a typed lookup panics", p)
	}
	switch {
	case ok != found:
		fail(fmt.Sprintf("a typed lookup reports %v", ok), got)
	case found && !sameAny(got, want):
		fail("a typed lookup returns another value", got)
	case !found && !zero:
		fail("a failed lookup does not return the zero value", got)
	}
	var must any
	p := catch(func() { must = t.must(ctx, key) })
	switch {
	case found && p != nil:
		fail("the must variant panics although the lookup succeeds", p)
	case found && !sameAny(must, want):
		fail("the must variant returns another value", must)
	case !found && p == nil:
		fail("the must variant does not panic although the lookup fails", must)
	}
	if p != nil {
		c.w.counters["must_panics"]++
	}
}

// catch returns what the function panics with
func catch(f func()) (p any) {
	defer func() {
		if r := recover(); r != nil {
			p = r
			if v, ok := r.(*violation); ok {
				panic(v)
			}
		}
	}()
	f()
	return nil
}

// randomShape makes up a struct type or a map
func (c *Case) randomShape() lkShape {
	has := map[string]any{}
	if c.Pct(30) {
		m := map[string]any{}
		for i := c.N(6); i > 0; i-- {
			k := c.Pick("f0", "Key", "k"+c.str(20), "", "Name", "ID")
			m[k] = c.lkValue()
			has[k] = m[k]
		}
		c.Count("random_maps", 1)
		if c.Pct(30) {
			return lkShape{"random pointer to map", &m, has}
		}
		if c.Pct(30) {
			n := map[lkStr]any{}
			for k, v := range m {
				n[lkStr(k)] = v
			}
			return lkShape{"random map[named]", n, has}
		}
		return lkShape{"random map", m, has}
	}
	var fields []reflect.StructField
	var vals []any
	for i := c.Range(1, 6); i > 0; i-- {
		v := c.lkValue()
		typ := reflect.TypeOf(v)
		if v == nil || c.Pct(20) {
			typ = reflect.TypeOf((*any)(nil)).Elem()
		}
		f := reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: typ}
		switch c.N(5) {
		case 0:
			f.Name, f.PkgPath = fmt.Sprintf("f%d", i), "verif/harness"
		case 1:
			f.Tag = `json:"Name" aitch:"Name"`
		}
		fields, vals = append(fields, f), append(vals, v)
	}
	st := reflect.New(reflect.StructOf(fields)).Elem()
	for i, f := range fields {
		if f.PkgPath != "" {
			continue
		}
		if vals[i] != nil {
			st.Field(i).Set(reflect.ValueOf(vals[i]))
		}
		has[f.Name] = vals[i]
	}
	c.Count("random_structs", 1)
	if c.Pct(40) {
		return lkShape{"random pointer to " + st.Type().String(), st.Addr().Interface(), has}
	}
	return lkShape{"random " + st.Type().String(), st.Interface(), has}
}

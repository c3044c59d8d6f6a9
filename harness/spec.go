package main

import (
	_ "embed"
	"fmt"
	"io"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/go-andiamo/aitch"
	"github.com/go-andiamo/aitch/context"
	"github.com/go-andiamo/aitch/html"
	"github.com/go-andiamo/aitch/htmx"
)

// ---- the abstract trees that workloads are made of -------------------------------------------

// Val is a value argument
type Val struct {
	K   string  `json:"k"`
	S   string  `json:"s,omitempty"`
	N   int64   `json:"n,omitempty"`
	F   float64 `json:"-"`
	Sub []*Val  `json:"sub,omitempty"`
	ID  int     `json:"id,omitempty"`
	N2  *Node   `json:"node,omitempty"` // a node used as value
}

// Node is a node of an abstract tree
type Node struct {
	K     string  `json:"k"`
	Name  string  `json:"name,omitempty"`
	Delim string  `json:"delim,omitempty"`
	Ctor  string  `json:"ctor,omitempty"` // constructor to use (by catalogue name); "" is the generic one
	Via   int     `json:"via,omitempty"`  // variant of the generic constructor
	Key   string  `json:"key,omitempty"`
	ID    int     `json:"id,omitempty"`
	Vals  []*Val  `json:"vals,omitempty"`
	Kids  []*Node `json:"kids,omitempty"`
	Head  []*Node `json:"head,omitempty"`
	Ops   []*Op   `json:"ops,omitempty"`
	Fail  string  `json:"fail,omitempty"` // how the callback of this node fails
	Same  bool    `json:"same,omitempty"` // built once, although it is used in several places
	W     string  `json:"w,omitempty"`    // what the callback of this node writes itself, whenever it has the chance
	Fgn   int     `json:"fgn,omitempty"`  // id of the foreign node (see p_foreign.go) around this one
	Cap   string  `json:"cap,omitempty"`  // how the callback of this node captures what is rendered within it (see p_capture.go)
	Use   string  `json:"use,omitempty"`  // what it does with it
	Catch bool    `json:"catch,omitempty"`
	CapAt [2]int  `json:"capAt,omitzero"`
	Room  int     `json:"room,omitempty"` // how much its writer takes, if not 0
	// header maps: Keys and Vals are the entries of the maps, Maps says which map each belongs to
	Keys []string `json:"keys,omitempty"`
	Maps []int    `json:"maps,omitempty"`
}

// Op is a call within an imperative block
type Op struct {
	K     string  `json:"k"`
	S     string  `json:"s,omitempty"`
	Void  bool    `json:"void,omitempty"`
	Nodes []*Node `json:"nodes,omitempty"`
}

func (n *Node) isAttr() bool {
	return n != nil && (n.K == "attr" || n.K == "battr" || n.K == "dattr" || n.K == "uattr")
}

type strr struct{ s string }

func (s strr) String() string { return s.s }

type unsup struct{ A, B int }

type namedSlice []string

// ---- catalogue of named constructors ----------------------------------------------------------

//go:embed catalogue.tsv
var catalogueText string

type catEntry struct {
	Fn, Kind, Name, Extra string
}

// parsed while package variables are initialised: the init functions of the monitors use it
var catalogue = parseCatalogue()

var (
	cat      = map[string]catEntry{}
	byElem   = map[string][]string{} // element name -> constructors (elem and void kinds)
	byAttr   = map[string][]string{} // kind:name -> constructors
	cssProps []catEntry
)

var voidNames = map[string]bool{"area": true, "base": true, "br": true, "col": true, "embed": true, "hr": true, "img": true, "input": true,
	"link": true, "meta": true, "param": true, "source": true, "track": true, "wbr": true}

func parseCatalogue() (result []catEntry) {
	for _, l := range strings.Split(strings.TrimSpace(catalogueText), "\n") {
		f := append(strings.Split(l, "\t"), "")
		if f[1] == "unit" {
			f = []string{f[0], f[1], strings.TrimPrefix(f[2], "V"), ""}
		}
		e := catEntry{f[0], f[1], f[2], f[3]}
		if strings.HasPrefix(e.Extra, `"`) && (e.Kind == "delim" || e.Kind == "attr") {
			e.Extra, _ = strconv.Unquote(e.Extra)
		}
		if e.Kind == "css" {
			e.Name = strings.TrimSuffix(strings.TrimPrefix(e.Extra, ` style="`), `V"`)
			cssProps = append(cssProps, e)
		}
		result = append(result, e)
		cat[e.Fn] = e
		switch e.Kind {
		case "elem", "void":
			if e.Name != "track" {
				byElem[e.Name] = append(byElem[e.Name], e.Fn)
			}
		case "attr", "bool", "delim":
			byAttr[e.Kind+":"+e.Name] = append(byAttr[e.Kind+":"+e.Name], e.Fn)
		}
	}
	return result
}

// ---- model of values ---------------------------------------------------------------------------

var modelEscaper = strings.NewReplacer(`"`, "&quot;", `'`, "&apos;", "&", "&amp;", "<", "&lt;", ">", "&gt;", "\x00", "")

// escapeText is how string data appears in the model's output
var escapeText = modelEscaper.Replace

func modelEscape(s string) string { return escapeText(s) }

// valueText is the canonical text of a (data) value
func valueText(v any) string {
	switch vt := v.(type) {
	case nil:
		return ""
	case string:
		return modelEscape(vt)
	case []byte:
		return string(vt)
	case bool:
		if vt {
			return "true"
		}
		return "false"
	case int, int8, int16, int32, int64, uint, uint8, uint16, uint32, uint64:
		return fmt.Sprintf("%d", vt)
	case float64:
		return strconv.FormatFloat(vt, 'g', -1, 64)
	case float32:
		return strconv.FormatFloat(float64(vt), 'g', -1, 32)
	case fmt.Stringer:
		return modelEscape(vt.String())
	case func() any:
		return valueText(vt())
	}
	return ""
}

// static returns the Go value of a static Val
func (v *Val) static() any {
	switch v.K {
	case "str":
		return v.S
	case "bytes":
		return []byte(v.S)
	case "bool":
		return v.N != 0
	case "int":
		switch v.S {
		case "int8":
			return int8(v.N)
		case "int16":
			return int16(v.N)
		case "int32":
			return int32(v.N)
		case "int64":
			return v.N
		case "uint":
			return uint(v.N)
		case "uint8":
			return uint8(v.N)
		case "uint16":
			return uint16(v.N)
		case "uint32":
			return uint32(v.N)
		case "uint64":
			return uint64(v.N)
		}
		return int(v.N)
	case "float":
		return math.Float64frombits(uint64(v.N))
	case "float32":
		return math.Float32frombits(uint32(v.N))
	case "stringer":
		return strr{v.S}
	case "anyfn":
		sub := v.Sub[0]
		return func() any { return sub.static() }
	case "nil":
		return nil
	case "unsup":
		switch v.N {
		case 0:
			return unsup{1, 2}
		case 1:
			return complex(1, 2)
		case 2:
			return map[string]int{"a": 1}
		case 3:
			return []string{"a", "b"}
		case 4:
			return make(chan int)
		}
		return &unsup{}
	}
	return nil
}

// leaf is an indivisible part of a value: static text or something resolved while rendering
type leaf struct {
	text string
	dyn  *Val
}

type atom []leaf // one value of an attribute, text...

func atoms(v *Val) []atom {
	switch v.K {
	case "nil", "elemv":
		return nil
	case "key", "dot", "fn", "rawfn", "wfn":
		return []atom{{{dyn: v}}}
	case "text", "attrv", "comv", "coll":
		return atomsOf(v.Sub)
	case "noderef":
		switch v.N2.K {
		case "attr", "dattr", "text", "comment", "frag", "pi":
			return attrAtoms(v.N2)
		case "coll", "condnil":
			var result []atom
			for _, k := range v.N2.Kids {
				if k != nil {
					result = append(result, atoms(&Val{K: "noderef", N2: k})...)
				}
			}
			return result
		}
		return nil
	case "var":
		return []atom{append(atom{{text: modelEscape(v.S)}, {text: ": "}}, flat(atomsOf(v.Sub))...)}
	case "nv":
		if as := atoms(v.Sub[0]); len(as) == 1 {
			return as
		} else {
			return []atom{flat(as)}
		}
	case "cv":
		return []atom{flat(atomsOf(v.Sub))}
	case "unit":
		return []atom{append(flat(atomsOf(v.Sub)), leaf{text: cat[v.S].Name})}
	}
	return []atom{{{text: valueText(v.static())}}}
}

func atomsOf(vs []*Val) (result []atom) {
	for _, v := range vs {
		result = append(result, atoms(v)...)
	}
	return result
}

func flat(as []atom) (result atom) {
	for _, a := range as {
		result = append(result, a...)
	}
	return result
}

// ---- running and observing ---------------------------------------------------------------------

// Event is a call of a user function, as observed (At) or as expected (between Lo and Hi)
type Event struct {
	Kind   string
	ID     int
	Lo, Hi int
	Data   uintptr
	Depth  int
	Cargo  any
	HasNil bool
}

func (e Event) String() string {
	return fmt.Sprintf("%s#%d@%d..%d data=%x depth=%d cargo=%v", e.Kind, e.ID, e.Lo, e.Hi, e.Data, e.Depth, e.Cargo)
}

// Run is one render: its inputs and what is observed of it
type Run struct {
	data  map[string]any
	cargo any
	truth map[int]bool
	lists map[int][]any
	rec   *Rec
	ev    []Event
	conds []condCall
	hook  func(kind string, id int, ctx *context.Context) // called in every user function
	errs  map[int]error                                   // errors that failing callbacks raise, by id
	// failing calls: id of the callback -> which of its calls fails
	fails     map[int]int
	bare      map[int]error // what some of them raise instead of an error of their own
	nth       map[int]int
	raised    []raisedErr
	undo      []func() // takes back what was changed in the data
	swallowed int
	wrapped   int
	self      map[int]int  // how often each imperative block is being rendered within itself
	capt      *captures    // (see p_capture.go)
	puts      map[int]*put // (see p_puts.go)
}

type raisedErr struct {
	err   error
	kind  string
	at    int // bytes written when it was raised
	depth int
}

func (e raisedErr) String() string { return fmt.Sprintf("%v by %s at byte %d", e.err, e.kind, e.at) }

// wrapErr is what user code returns that reports a failure of its contents in its own words - the
// failure itself was there before
type wrapErr struct{ err error }

func (e *wrapErr) Error() string { return "wrapped: " + e.err.Error() }
func (e *wrapErr) Unwrap() error { return e.err }

// failing returns the error that this call of a callback is to raise (nil if none)
func (r *Run) failing(id int) error {
	if err := r.errs[id]; err != nil {
		return err
	}
	if r.fails == nil {
		return nil
	}
	n := r.nth[id]
	r.nth[id]++
	if at, ok := r.fails[id]; ok && at == n {
		if err := r.bare[id]; err != nil {
			return err
		}
		return &testErr{id, n}
	}
	return nil
}

// raise notes that an error is about to be raised
func (r *Run) raise(err error, kind string, ctx *context.Context) error {
	r.raised = append(r.raised, raisedErr{err, kind, len(r.rec.out), depthOf(ctx)})
	return err
}

// store raises an error by storing it in the context, as callbacks without a result do
func (r *Run) store(id int, kind string, ctx *context.Context) {
	if err := r.failing(id); err != nil && ctx.Error == nil {
		ctx.Error = r.raise(err, kind, ctx)
	}
}

type condCall struct {
	id    int
	truth bool
}

// Rec is the writer under every render: it records what it receives
type Rec struct {
	run    *Run
	out    []byte
	writes int
	yield  func()
	// fault plan
	failAt  int // index of the failing write; <0 is never
	accept  int // bytes accepted by the failing write; <0 is all
	perm    bool
	failErr error
	failed  bool
	late    []byte // data received after the failure
	lateN   int
	limit   int
	rich    *richRec
}

// every third writer is one that can do more than write
var recCount int

func newRec() *Rec {
	r := &Rec{failAt: -1, limit: 256 << 20}
	if recCount++; recCount%3 == 0 {
		r.rich = &richRec{r}
	}
	return r
}

// w is the writer to render to
func (r *Rec) w() io.Writer {
	if r.rich != nil {
		return r.rich
	}
	return r
}

// richRec has the methods that buffers, files and connections offer besides Write
type richRec struct{ *Rec }

func (r *richRec) WriteString(s string) (int, error) { return r.Write([]byte(s)) }

func (r *richRec) WriteByte(b byte) error {
	_, err := r.Write([]byte{b})
	return err
}

func (r *richRec) WriteRune(c rune) (int, error) { return r.Write([]byte(string(c))) }

func (r *richRec) ReadFrom(src io.Reader) (int64, error) {
	data, err := io.ReadAll(src)
	if err != nil {
		return 0, err
	}
	n, err := r.Write(data)
	return int64(n), err
}

func (r *richRec) Flush() error { return nil }
func (r *richRec) Close() error { return nil }

func (r *Rec) Write(p []byte) (int, error) {
	if r.yield != nil {
		r.yield()
	}
	i := r.writes
	r.writes++
	if r.failed {
		r.lateN++
		r.late = append(r.late, p...)
		if r.perm {
			return 0, r.failErr
		}
		return len(p), nil
	}
	if i == r.failAt {
		r.failed = true
		n := r.accept
		if n < 0 || n > len(p) {
			n = len(p)
		}
		r.out = append(r.out, p[:n]...)
		return n, r.failErr
	}
	r.out = append(r.out, p...)
	if len(r.out) > r.limit {
		panic(&violation{What: "output grows without bound", Detail: fmt.Sprintf("%.200q", r.out)})
	}
	return len(p), nil
}

func runOf(ctx *context.Context) *Run {
	if ctx == nil {
		panic(&violation{What: "user function called with a nil context"})
	}
	switch w := ctx.Writer.(type) {
	case *Rec:
		if w.run != nil {
			return w.run
		}
	case *richRec:
		if w.run != nil {
			return w.run
		}
	case *capWriter:
		return w.run
	}
	for c := ctx; c != nil; c = c.Parent {
		if r, ok := c.Data["$run"].(*Run); ok {
			return r
		}
	}
	panic(&violation{What: "user function called with a context that does not belong to the render"})
}

func mapPtr(m map[string]any) uintptr {
	if m == nil {
		return 0
	}
	return reflect.ValueOf(m).Pointer()
}

func depthOf(ctx *context.Context) (d int) {
	for c := ctx.Parent; c != nil; c = c.Parent {
		d++
	}
	return d
}

func (r *Run) event(kind string, id int, ctx *context.Context) {
	if r.capt != nil {
		r.capt.event(r, kind, id, ctx)
		return
	}
	r.ev = append(r.ev, Event{Kind: kind, ID: id, Lo: len(r.rec.out), Hi: len(r.rec.out), Data: mapPtr(ctx.Data), Depth: depthOf(ctx), Cargo: ctx.Cargo})
	if r.hook != nil {
		r.hook(kind, id, ctx)
	}
	if p := r.puts[id]; p != nil && !p.own() && kind != "op" {
		p.into(&ctx.Data, &ctx.Cargo)
	}
}

func sameAny(a, b any) bool {
	ra, rb := reflect.ValueOf(a), reflect.ValueOf(b)
	if !ra.IsValid() || !rb.IsValid() {
		return ra.IsValid() == rb.IsValid()
	}
	if ra.Type() != rb.Type() {
		return false
	}
	switch ra.Kind() {
	case reflect.Map, reflect.Slice, reflect.Func, reflect.Chan, reflect.Pointer:
		return ra.Pointer() == rb.Pointer()
	}
	return reflect.DeepEqual(a, b) || fmt.Sprint(a) == fmt.Sprint(b)
}

// ---- the model ----------------------------------------------------------------------------------

// Env is the model's context
type Env struct {
	data  map[string]any
	cargo any
	depth int
}

type model struct {
	opened    [][]byte // what was written before, where nodes capture what comes after them
	run       *Run
	out       []byte
	ev        []Event
	condAttrs int // active conditional attributes
	self      map[int]int
	steps     int
	set       map[setKey]setVal // what was changed in the data so far
	panicAt   int               // the how manieth event panics (0 is none)
	capt      *captures
}

// modelPanic is the panic of a callback in the model
type modelPanic struct{}

// boundary renders something within user code that recovers from panics
func (m *model) boundary(n *Node, f func()) {
	if n.Fail != "recover" {
		f()
		return
	}
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(modelPanic); !ok {
				panic(r)
			}
			m.w(fmt.Sprintf("{!%d}", n.ID))
		}
	}()
	f()
}

// boundary is the same for the callbacks of a real render
func boundary(n *Node, ctx *context.Context, f func()) {
	if n.Fail != "recover" {
		f()
		return
	}
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case *violation, tooBig:
				panic(r)
			}
			ctx.Write([]byte(fmt.Sprintf("{!%d}", n.ID)))
		}
	}()
	f()
}

type setKey struct {
	data uintptr
	key  string
}

type setVal struct {
	value any
	ok    bool
}

// get looks a key up in the data, as it is by now
func (m *model) get(env *Env, key string) (any, bool) {
	if s, ok := m.set[setKey{mapPtr(env.data), key}]; ok {
		return s.value, s.ok
	}
	v, ok := env.data[key]
	return v, ok
}

// setTo is what a node that changes the data changes it to
func setTo(n *Node) setVal {
	switch n.Via {
	case 0:
		return setVal{true, true}
	case 1:
		return setVal{false, true}
	case 2:
		return setVal{nil, false}
	}
	return setVal{fmt.Sprintf("set by %d", n.ID), true}
}

// selfDepth is how often an imperative block may be rendered within itself
const selfDepth = 2

// tooBig is a case that is not worth its size (nested iterations over long lists)
type tooBig struct{}

func (m *model) w(s string) {
	if m.out = append(m.out, s...); len(m.out) > 8<<20 {
		panic(tooBig{})
	}
}

func (m *model) event(kind string, id int, env *Env, lo int) {
	if len(m.ev) > 60000 {
		panic(tooBig{})
	}
	m.ev = append(m.ev, Event{Kind: kind, ID: id, Lo: lo, Hi: len(m.out), Data: mapPtr(env.data), Depth: env.depth, Cargo: env.cargo})
	if m.capt != nil {
		m.capt.raise(m, lo)
	}
	m.tick()
	if p := m.run.puts[id]; p != nil && !p.own() && kind != "op" {
		p.into(&env.data, &env.cargo)
	}
}

// tick counts a call that may panic
func (m *model) tick() {
	if m.panicAt > 0 {
		if m.panicAt--; m.panicAt == 0 {
			panic(modelPanic{})
		}
	}
}

func (m *model) atom(a atom, env *Env, lo int) {
	for _, l := range a {
		if l.dyn == nil {
			m.w(l.text)
			continue
		}
		switch l.dyn.K {
		case "key":
			if v, ok := m.get(env, l.dyn.S); ok {
				m.w(valueText(v))
			}
		case "dot":
			m.w(valueText(env.cargo))
		default:
			m.event("fn", l.dyn.ID, env, lo)
			if l.dyn.K == "wfn" {
				m.w(l.dyn.Sub[0].S)
			}
			m.w(l.dyn.S)
		}
	}
}

func (m *model) atoms(vs []*Val, env *Env) {
	lo := len(m.out)
	for _, a := range atomsOf(vs) {
		m.atom(a, env, lo)
	}
}

type adecl struct {
	n     *Node
	conds []*Node
}

// attrDecls are the attribute declarations among the contents of an element, with the conditions around each
func attrDecls(kids []*Node, conds []*Node) (result []adecl) {
	for _, k := range kids {
		if k == nil {
			continue
		}
		switch k.K {
		case "attr", "battr", "dattr", "uattr":
			result = append(result, adecl{k, conds})
		case "coll", "condnil":
			result = append(result, attrDecls(k.Kids, conds)...)
		case "cond", "when":
			cs := append(append([]*Node{}, conds...), k)
			result = append(result, attrDecls(k.Kids, cs)...)
		}
	}
	return result
}

func (m *model) holds(n *Node, env *Env) bool {
	if n.K == "cond" {
		return m.run.truth[n.ID]
	}
	key, neg := n.Key, false
	if strings.HasPrefix(key, "!") {
		key, neg = key[1:], true
	}
	v, ok := m.get(env, key)
	if b, isBool := v.(bool); ok && isBool {
		ok = b
	}
	return ok != neg
}

// renderedAttr is an attribute as it is to appear in a start tag
type renderedAttr struct {
	name    string
	delim   string
	isDelim bool
	isBool  bool
	vals    []atom
	user    *Node // an attribute implemented outside the library
	fgn     int
}

// attrsOf computes the attributes of a start tag by the rules of C03 and C04
func (m *model) attrsOf(kids []*Node, env *Env) (result []*renderedAttr) {
	idx := map[string]*renderedAttr{}
	decls := attrDecls(kids, nil)
	mk := func(n *Node) *renderedAttr {
		ra := &renderedAttr{name: n.Name, delim: n.Delim, isDelim: n.K == "dattr", isBool: n.K == "battr", vals: attrAtoms(n), fgn: n.Fgn}
		if n.K == "uattr" {
			ra.user = n
		}
		return ra
	}
	for _, d := range decls {
		if len(d.conds) > 0 {
			continue
		}
		if ex, ok := idx[d.n.Name]; !ok {
			ra := mk(d.n)
			idx[d.n.Name] = ra
			result = append(result, ra)
		} else if ex.isDelim && d.n.K == "dattr" {
			ex.vals = append(ex.vals, attrAtoms(d.n)...)
		} else {
			*ex = *mk(d.n)
		}
	}
	for _, d := range decls {
		active := len(d.conds) > 0
		for _, c := range d.conds {
			if !m.holds(c, env) {
				active = false
				break
			}
		}
		if !active {
			continue
		}
		m.condAttrs++
		if ex, ok := idx[d.n.Name]; !ok {
			ra := mk(d.n)
			idx[d.n.Name] = ra
			result = append(result, ra)
		} else if ex.isDelim && d.n.K == "dattr" {
			ex.vals = append(ex.vals, attrAtoms(d.n)...)
		} else {
			*ex = *mk(d.n)
		}
	}
	return result
}

// attrAtoms are the values of an attribute declaration
func attrAtoms(n *Node) []atom {
	if n.Keys != nil {
		return []atom{headerAtom(n)}
	}
	if e, ok := cat[n.Ctor]; ok && e.Kind == "css" {
		return []atom{append(atom{{text: e.Name}}, flat(atomsOf(n.Vals))...)}
	}
	return atomsOf(n.Vals)
}

var modelKeyEscaper = strings.NewReplacer(`\`, `\\`, `'`, `\'`, "\n", `\n`, "\r", `\r`)

// headerAtom is the value of an attribute made of header maps
func headerAtom(n *Node) (result atom) {
	last := map[string]*Val{}
	for i, k := range n.Keys {
		last[k] = n.Vals[i]
	}
	if n.Ctor == "htmx.HeadersJS" {
		result = append(result, leaf{text: "js:"})
	}
	result = append(result, leaf{text: "{"})
	for i, k := range sortedKeys(last) {
		if i > 0 {
			result = append(result, leaf{text: ", "})
		}
		result = append(result, leaf{text: "'"}, leaf{text: modelEscape(modelKeyEscaper.Replace(k))}, leaf{text: "': "})
		result = append(result, flat(atoms(last[k]))...)
	}
	return append(result, leaf{text: "}"})
}

// headerMaps builds the maps of a header attribute
func (b *Builder) headerMaps(n *Node) (maps []htmx.HeadersMap) {
	for i, k := range n.Keys {
		for len(maps) <= n.Maps[i] {
			maps = append(maps, htmx.HeadersMap{})
		}
		maps[n.Maps[i]][k] = b.val(n.Vals[i])
	}
	if len(maps) == 0 {
		maps = []htmx.HeadersMap{{}}
	}
	if b.hostile {
		for _, m := range maps {
			orig := htmx.HeadersMap{}
			for k, v := range m {
				orig[k] = v
			}
			b.slabs = append(b.slabs, slab{what: "HeadersMap", check: func() string {
				if len(m) != len(orig) {
					return "the number of entries of a HeadersMap was changed"
				}
				for k, v := range orig {
					if w, ok := m[k]; !ok || !sameAny(v, w) {
						return "an entry of a HeadersMap was changed"
					}
				}
				return ""
			}, junk: func() {
				for k := range m {
					m[k] = "JUNK-WRITTEN-AFTER-CONSTRUCTION"
				}
				m["JUNK"] = "JUNK"
			}})
		}
	}
	return maps
}

func (b *Builder) headers(n *Node) aitch.Node {
	maps := b.headerMaps(n)
	if n.Ctor == "htmx.HeadersJS" {
		return htmx.HeadersJS(maps...)
	}
	args := make([]any, len(maps))
	for i, m := range maps {
		args[i] = m
	}
	return htmx.Headers(args...)
}

func (m *model) startTag(name string, kids []*Node, env *Env) {
	lo := len(m.out)
	m.w("<" + name)
	m.writeAttrs(m.attrsOf(kids, env), env, lo)
	m.w(">")
}

func (m *model) writeAttrs(attrs []*renderedAttr, env *Env, lo int) {
	for _, a := range attrs {
		if a.fgn != 0 {
			m.event("foreign", a.fgn, env, lo)
		}
		if a.user != nil {
			m.event("user", a.user.ID, env, lo)
			m.w(fmt.Sprintf(` %s="{%d}"`, a.name, a.user.ID))
			continue
		}
		m.w(" " + a.name)
		if a.isBool {
			continue
		}
		m.w(`="`)
		something := false
		for _, v := range a.vals {
			if a.isDelim && something {
				m.w(a.delim)
			}
			l := len(m.out)
			m.atom(v, env, lo)
			something = len(m.out) > l
		}
		m.w(`"`)
	}
}

func (m *model) nodes(ns []*Node, env *Env) {
	for _, n := range ns {
		m.node(n, env)
	}
}

func (m *model) node(n *Node, env *Env) {
	if m.steps++; m.steps > 300000 {
		panic(tooBig{})
	}
	if n == nil || n.isAttr() {
		return
	}
	if n.Fgn != 0 {
		m.event("foreign", n.Fgn, env, len(m.out))
	}
	switch n.K {
	case "elem":
		if voidNames[n.Name] && n.Via == 0 && n.Ctor == "" { // the generic checked constructor knows the void names
			m.startTag(n.Name, n.Kids, env)
			return
		}
		m.startTag(n.Name, n.Kids, env)
		m.nodes(n.Kids, env)
		m.w("</" + n.Name + ">")
	case "void":
		m.startTag(n.Name, n.Kids, env)
	case "text", "plain", "frag":
		m.atoms(n.Vals, env)
	case "comment":
		lo := len(m.out)
		m.w("<!--")
		for _, a := range atomsOf(n.Vals) {
			m.atom(a, env, lo)
		}
		m.w("-->")
	case "pi":
		lo := len(m.out)
		m.w("<!" + n.Name + " ")
		for _, a := range atomsOf(n.Vals) {
			m.atom(a, env, lo)
		}
		m.w(">\n")
	case "set":
		m.event("set", n.ID, env, len(m.out))
		if env.data != nil {
			if m.set == nil {
				m.set = map[setKey]setVal{}
			}
			m.set[setKey{mapPtr(env.data), n.Key}] = setTo(n)
		}
		m.w("=")
	case "coll", "condnil":
		m.nodes(n.Kids, env)
	case "cond", "when":
		if p := m.run.puts[n.ID]; p != nil && n.K == "cond" {
			p.into(&env.data, &env.cargo)
		}
		if m.holds(n, env) {
			m.nodes(n.Kids, env)
		}
	case "iter", "iterkey", "yield":
		var items []any
		if n.K == "iterkey" {
			items = itemsOf(env.data[n.Key])
		} else {
			m.event(n.K, n.ID, env, len(m.out))
			items = m.run.lists[n.ID]
			m.w(n.W)
		}
		for _, item := range items {
			ienv := &Env{data: env.data, cargo: item, depth: env.depth + 1}
			if d, ok := item.(map[string]any); ok {
				ienv.data = d
			}
			m.nodes(n.Kids, ienv)
			if n.W != "" && n.K == "yield" {
				m.event("yielded", n.ID, env, len(m.out))
				m.w(n.W)
			}
		}
	case "collect":
		m.event("collect", n.ID, env, len(m.out))
		m.w(n.W)
		m.nodes(n.Kids, env)
	case "user":
		if p := m.run.puts[n.ID]; p != nil {
			defer p.back(env, env.data, env.cargo)
		}
		m.event("user", n.ID, env, len(m.out))
		if p := m.run.puts[n.ID]; p != nil {
			env = p.env(env)
		}
		m.w(fmt.Sprintf("{%d}", n.ID))
		switch n.Cap {
		case "":
		case "open":
			m.opened = append(m.opened, m.out)
			m.out = nil
			return
		case "close":
			l := len(m.opened) - 1
			got := m.out
			m.out, m.opened = m.opened[l], m.opened[:l]
			m.w(use(n, got))
			return
		default:
			m.capture(n, env, func(env *Env) { m.nodes(n.Kids, env) })
			return
		}
		m.boundary(n, func() { m.nodes(n.Kids, env) })
	case "imper":
		if p := m.run.puts[n.ID]; p != nil {
			defer p.back(env, env.data, env.cargo)
		}
		m.event("imper", n.ID, env, len(m.out))
		m.imper(n, env)
	case "doc":
		m.w("<!DOCTYPE html>\n<html")
		if len(n.Vals) > 0 {
			m.w(` lang="`)
			lo := len(m.out)
			for _, a := range atomsOf(n.Vals) {
				m.atom(a, env, lo)
			}
			m.w(`"`)
		}
		m.w(">")
		if len(n.Head) > 0 {
			m.startTag("head", n.Head, env)
			m.nodes(n.Head, env)
			m.w("</head>")
		}
		m.startTag("body", n.Kids, env)
		m.nodes(n.Kids, env)
		m.w("</body></html>")
	default:
		panic("harness: unknown node kind " + n.K)
	}
}

func itemsOf(v any) (items []any) {
	switch vt := v.(type) {
	case []any:
		return vt
	case []string:
		for _, x := range vt {
			items = append(items, x)
		}
	case namedSlice:
		for _, x := range vt {
			items = append(items, x)
		}
	case []int:
		for _, x := range vt {
			items = append(items, x)
		}
	case []byte:
		for _, x := range vt {
			items = append(items, x)
		}
	case []float64:
		for _, x := range vt {
			items = append(items, x)
		}
	case []map[string]any:
		for _, x := range vt {
			items = append(items, x)
		}
	case nil:
	default:
		if l := reflect.ValueOf(v); l.Kind() == reflect.Slice {
			for i := 0; i < l.Len(); i++ {
				items = append(items, l.Index(i).Interface())
			}
		}
	}
	return items
}

func (m *model) imper(n *Node, env *Env) {
	var stack []string
	if n.Cap != "" && n.CapAt[1] > n.CapAt[0] {
		m.imperOps(n, n.Ops[:n.CapAt[0]], env, &stack)
		m.capture(n, env, func(env *Env) { m.imperOps(n, n.Ops[n.CapAt[0]:n.CapAt[1]], env, &stack) })
		m.imperOps(n, n.Ops[n.CapAt[1]:], env, &stack)
		return
	}
	m.imperOps(n, n.Ops, env, &stack)
}

func (m *model) imperOps(n *Node, ops []*Op, env *Env, open *[]string) {
	stack := *open
	defer func() { *open = stack }()
	for _, op := range ops {
		switch op.K {
		case "str":
			m.w(modelEscape(op.S))
		case "raw":
			m.w(op.S)
		case "nodes":
			m.boundary(n, func() { m.nodes(op.Nodes, env) })
		case "self":
			if m.self == nil {
				m.self = map[int]int{}
			}
			if m.self[n.ID] < selfDepth {
				m.self[n.ID]++
				m.node(n, env)
				m.self[n.ID]--
			}
		case "start":
			lo := len(m.out)
			m.w("<" + op.S)
			var attrs []*Node
			for _, a := range op.Nodes {
				if a.isAttr() {
					attrs = append(attrs, a)
				}
			}
			m.writeAttrs(m.attrsOf(attrs, env), env, lo)
			m.w(">")
			if !op.Void {
				stack = append(stack, op.S)
			}
		case "end":
			if l := len(stack); l > 0 {
				m.w("</" + stack[l-1] + ">")
				stack = stack[:l-1]
			}
		case "endall":
			for i := len(stack) - 1; i >= 0; i-- {
				m.w("</" + stack[i] + ">")
			}
			stack = nil
		}
		if n.W != "" {
			m.event("op", n.ID, env, len(m.out))
			m.w(n.W)
		}
	}
}

// modelRun is what a render of the tree is to write and call
func modelRun(n *Node, run *Run) *model {
	m := &model{run: run}
	m.node(n, &Env{data: run.data, cargo: run.cargo})
	return m
}

// ---- building the real thing ---------------------------------------------------------------------

// Builder turns abstract trees into aitch nodes
type Builder struct {
	hostile bool // hand over slices with spare capacity, check them, and overwrite them later
	slabs   []slab
	shared  map[*Node]aitch.Node // nodes that are built once and used in several places
	same    map[*Node]aitch.Node // the same for nodes that say so themselves
	share   map[*Node]bool
	nils    func() aitch.Node // where nil nodes come from (nil is just nil)
}

func (b *Builder) nilNode() aitch.Node {
	if b.nils != nil {
		return b.nils()
	}
	return nil
}

type slab struct {
	what  string
	check func() string
	junk  func() // nil if the slice stays the user's own
}

var sentinelNode = aitch.Text("SENTINEL-BEYOND-THE-SLICE")

func (b *Builder) anys(what string, vs []any) []any {
	if !b.hostile {
		return vs
	}
	s := make([]any, len(vs)+3)
	copy(s, vs)
	orig := append([]any{}, vs...)
	for i := len(vs); i < len(s); i++ {
		s[i] = "SENTINEL-BEYOND-THE-SLICE"
	}
	b.slabs = append(b.slabs, slab{what: what, check: func() string {
		for i := range s {
			if i < len(orig) {
				if !sameAny(s[i], orig[i]) {
					return fmt.Sprintf("%s: argument %d was changed", what, i)
				}
			} else if s[i] != any("SENTINEL-BEYOND-THE-SLICE") {
				return fmt.Sprintf("%s: slot %d beyond the %d arguments was overwritten with %v", what, i, len(orig), s[i])
			}
		}
		return ""
	}, junk: func() {
		for i := range s {
			s[i] = "JUNK-WRITTEN-AFTER-CONSTRUCTION"
		}
	}})
	return s[:len(vs)]
}

func (b *Builder) nodeArgs(what string, vs []aitch.Node) []aitch.Node {
	if !b.hostile {
		return vs
	}
	s := make([]aitch.Node, len(vs)+3)
	copy(s, vs)
	orig := append([]aitch.Node{}, vs...)
	for i := len(vs); i < len(s); i++ {
		s[i] = sentinelNode
	}
	b.slabs = append(b.slabs, slab{what: what, check: func() string {
		for i := range s {
			if i < len(orig) {
				if s[i] != orig[i] {
					return fmt.Sprintf("%s: node argument %d was changed", what, i)
				}
			} else if s[i] != sentinelNode {
				return fmt.Sprintf("%s: slot %d beyond the %d nodes was overwritten", what, i, len(orig))
			}
		}
		return ""
	}, junk: func() {
		for i := range s {
			s[i] = aitch.Text("JUNK-WRITTEN-AFTER-CONSTRUCTION")
		}
	}})
	return s[:len(vs)]
}

// checkArgs returns what is wrong with the argument slices handed over so far ("" if nothing)
func (b *Builder) checkArgs() string {
	for _, s := range b.slabs {
		if e := s.check(); e != "" {
			return e
		}
	}
	return ""
}

// junkArgs overwrites all the argument slices handed over so far
func (b *Builder) junkArgs() {
	var keep []slab
	for _, s := range b.slabs {
		if s.junk != nil {
			s.junk()
		} else {
			keep = append(keep, s)
		}
	}
	b.slabs = keep
}

// own builds a slice of nodes that stays the user's (callbacks hand it over in every render)
func (b *Builder) own(what string, kids []*Node) []aitch.Node {
	n := len(b.slabs)
	result := b.nodes(what, kids)
	if b.hostile {
		if len(b.slabs) <= n {
			panic("harness: no slab")
		}
		b.slabs[len(b.slabs)-1].junk = nil
	}
	return result
}

// spare makes a byte slice with room behind it (whoever appends to it writes there)
func spare(s string) []byte {
	b := make([]byte, len(s), len(s)+6)
	copy(b, s)
	for i := len(s); i < cap(b); i++ {
		b[:cap(b)][i] = 0xEE
	}
	return b
}

// spareChanged tells whether a slice made by spare was written to
func spareChanged(b []byte, s string) bool {
	if string(b) != s {
		return true
	}
	for _, x := range b[len(b) : len(s)+6] {
		if x != 0xEE {
			return true
		}
	}
	return false
}

// bytes makes a byte slice to hand over; those are shared with the node, but nobody may write to them
func (b *Builder) bytes(what, s string) []byte {
	result := spare(s)
	if b.hostile {
		b.slabs = append(b.slabs, slab{what: what, check: func() string {
			if spareChanged(result, s) {
				return fmt.Sprintf("%s: the bytes %q (or those behind them) were changed to %q", what, s, result[:len(s)+6])
			}
			return ""
		}})
	}
	return result
}

func (b *Builder) val(v *Val) any {
	switch v.K {
	case "bytes":
		return b.bytes("[]byte value", v.S)
	case "key":
		return aitch.DynamicValueKey(v.S)
	case "dot":
		return aitch.DynamicValueKey(".")
	case "fn", "rawfn":
		data, id := b.bytes("result of a function", v.S), v.ID
		fn := func(ctx *context.Context) []byte {
			run := runOf(ctx)
			run.event("fn", id, ctx)
			run.store(id, "fn", ctx)
			return data
		}
		if v.K == "fn" {
			return aitch.DynamicValueFunc(fn)
		}
		return fn
	case "wfn":
		data, id, w := []byte(v.S), v.ID, v.Sub[0].S
		return aitch.DynamicValueFunc(func(ctx *context.Context) []byte {
			runOf(ctx).event("fn", id, ctx)
			writeItself(ctx, id, w)
			return data
		})
	case "nv":
		return aitch.NewValue(b.val(v.Sub[0]))
	case "cv":
		return aitch.NewConcatValue(b.vals("NewConcatValue", v.Sub)...)
	case "text":
		return aitch.Text(b.vals("Text", v.Sub)...)
	case "attrv":
		return aitch.NewAttribute([]byte("ignored"), b.vals("NewAttribute", v.Sub)...)
	case "comv":
		return aitch.Comment(b.vals("Comment", v.Sub)...)
	case "coll":
		ns := make([]aitch.Node, 0, len(v.Sub))
		for _, s := range v.Sub {
			ns = append(ns, aitch.Text(b.val(s)))
		}
		return aitch.Collection(b.nodeArgs("Collection", ns)...)
	case "elemv":
		return aitch.Element("b", "not a value")
	case "noderef":
		return b.node(v.N2)
	case "var":
		return htmx.Var(v.S, b.val(v.Sub[0]))
	case "unit":
		return reg_unit[v.S](b.vals(v.S, v.Sub)...)
	}
	return v.static()
}

func (b *Builder) vals(what string, vs []*Val) []any {
	result := make([]any, 0, len(vs))
	for _, v := range vs {
		result = append(result, b.val(v))
	}
	return b.anys(what, result)
}

// contents builds the []any contents of an element
func (b *Builder) contents(what string, kids []*Node) []any {
	result := make([]any, 0, len(kids))
	for _, k := range kids {
		switch {
		case k == nil:
			result = append(result, b.nilNode())
		case k.K == "plain":
			result = append(result, b.val(k.Vals[0]))
		default:
			result = append(result, foreign(k, b.node(k)))
		}
	}
	return b.anys(what, result)
}

func (b *Builder) nodes(what string, kids []*Node) []aitch.Node {
	result := make([]aitch.Node, 0, len(kids))
	for _, k := range kids {
		if k == nil {
			result = append(result, b.nilNode())
		} else {
			result = append(result, foreign(k, b.node(k)))
		}
	}
	return b.nodeArgs(what, result)
}

func (b *Builder) node(n *Node) aitch.Node {
	if n.Same && !b.share[n] {
		r, ok := b.same[n]
		if !ok {
			if b.same == nil {
				b.same = map[*Node]aitch.Node{}
			}
			r = b.build(n)
			b.same[n] = r
		}
		return r
	}
	if b.share[n] {
		if r, ok := b.shared[n]; ok {
			return r
		}
		r := b.build(n)
		b.shared[n] = r
		return r
	}
	return b.build(n)
}

func (b *Builder) build(n *Node) aitch.Node {
	switch n.K {
	case "elem", "void":
		cs := b.contents(n.K+" "+n.Name+" "+n.Ctor, n.Kids)
		if n.Ctor != "" {
			return reg_any[n.Ctor](cs...)
		}
		switch {
		case n.K == "elem" && n.Via == 0:
			return aitch.Element(n.Name, cs...)
		case n.K == "elem":
			return aitch.NewElement(b.bytes("name of an element", n.Name), cs...)
		case n.Via == 0:
			return aitch.VoidElement(n.Name, cs...)
		}
		return aitch.NewVoidElement(b.bytes("name of an element", n.Name), cs...)
	case "set":
		return aitch.Text(func(ctx *context.Context) []byte {
			run := runOf(ctx)
			run.event("set", n.ID, ctx)
			if d := ctx.Data; d != nil {
				old, had := d[n.Key]
				run.undo = append(run.undo, func() {
					if delete(d, n.Key); had {
						d[n.Key] = old
					}
				})
				if s := setTo(n); s.ok {
					d[n.Key] = s.value
				} else {
					delete(d, n.Key)
				}
			}
			return []byte("=")
		})
	case "uattr":
		return &userNode{n: n}
	case "attr":
		if n.Keys != nil {
			return b.headers(n)
		}
		vs := b.vals("attribute "+n.Name+" "+n.Ctor, n.Vals)
		for _, s := range suffixCtors {
			if n.Ctor == s[0] {
				return reg_named[s[0]](strings.TrimPrefix(n.Name, s[1]), vs...)
			}
		}
		if n.Ctor != "" {
			return reg_any[n.Ctor](vs...)
		}
		if n.Via == 0 {
			return aitch.Attribute(n.Name, vs...)
		}
		return aitch.NewAttribute(b.bytes("name of an attribute", n.Name), vs...)
	case "battr":
		if n.Ctor != "" {
			return reg_none[n.Ctor]()
		}
		if n.Via == 0 {
			return aitch.BooleanAttribute(n.Name)
		}
		return aitch.NewBooleanAttribute(b.bytes("name of an attribute", n.Name))
	case "dattr":
		vs := b.vals("attribute "+n.Name+" "+n.Ctor, n.Vals)
		if n.Ctor != "" {
			return reg_any[n.Ctor](vs...)
		}
		if n.Via == 0 {
			return aitch.DelimitedAttribute(n.Name, n.Delim, vs...)
		}
		return aitch.NewDelimitedAttribute(b.bytes("name of an attribute", n.Name), b.bytes("delimiter", n.Delim), vs...)
	case "text":
		if n.Via == 1 {
			return html.Text(b.vals("html.Text", n.Vals)...)
		}
		return aitch.Text(b.vals("Text", n.Vals)...)
	case "plain":
		return aitch.Text(b.vals("Text", n.Vals)...)
	case "frag":
		return aitch.Fragment(b.vals("Fragment", n.Vals)...)
	case "comment":
		if n.Via == 1 {
			return html.Comment(b.vals("html.Comment", n.Vals)...)
		}
		return aitch.Comment(b.vals("Comment", n.Vals)...)
	case "pi":
		if n.Name == "DOCTYPE" && len(n.Vals) == 1 && n.Vals[0].K == "str" && n.Vals[0].S == "html" && n.Via == 1 {
			return aitch.DocType()
		}
		return aitch.PI(n.Name, b.vals("PI", n.Vals)...)
	case "coll":
		switch {
		case n.Via == 1 && len(n.Kids) == 0:
			return aitch.ContentCollect(nil)
		case n.Via == 2 && len(n.Kids) == 0:
			return aitch.Imperative(nil)
		}
		return aitch.Collection(b.nodes("Collection", n.Kids)...)
	case "condnil":
		return aitch.Conditional(nil, b.nodes("Conditional", n.Kids)...)
	case "cond":
		id := n.ID
		return aitch.Conditional(func(ctx *context.Context) bool {
			run := runOf(ctx)
			t := run.truth[id]
			run.conds = append(run.conds, condCall{id, t})
			if run.hook != nil {
				run.hook("cond", id, ctx)
			}
			if p := run.puts[id]; p != nil {
				p.into(&ctx.Data, &ctx.Cargo)
			}
			return t
		}, b.nodes("Conditional", n.Kids)...)
	case "when":
		return aitch.When(aitch.DynamicValueKey(n.Key), b.nodes("When", n.Kids)...)
	case "iter":
		id := n.ID
		return aitch.Iterate(func(ctx *context.Context) []any {
			run := runOf(ctx)
			run.event("iter", id, ctx)
			run.store(id, "iter", ctx)
			writeItself(ctx, id, n.W)
			return run.lists[id]
		}, b.nodes("Iterate", n.Kids)...)
	case "iterkey":
		return aitch.IterateKey(n.Key, b.nodes("IterateKey", n.Kids)...)
	case "yield":
		id := n.ID
		return aitch.IterateYield(func(ctx *context.Context, yield func(any)) {
			run := runOf(ctx)
			run.event("yield", id, ctx)
			err := run.failing(id)
			writeItself(ctx, id, n.W)
			for i, item := range run.lists[id] {
				if err != nil && i == id%3 && ctx.Error == nil { // fails between two items
					ctx.Error = run.raise(err, "yield", ctx)
				}
				yield(item)
				if n.W != "" {
					run.event("yielded", id, ctx)
					writeItself(ctx, id+i, n.W)
				}
			}
			if err != nil && ctx.Error == nil {
				ctx.Error = run.raise(err, "yield", ctx)
			}
		}, b.nodes("IterateYield", n.Kids)...)
	case "collect":
		id, kids := n.ID, b.own("result of a collector", n.Kids)
		return aitch.ContentCollect(func(ctx *context.Context) []aitch.Node {
			run := runOf(ctx)
			run.event("collect", id, ctx)
			run.store(id, "collect", ctx)
			writeItself(ctx, id, n.W)
			return kids
		})
	case "user":
		return &userNode{n: n, kids: b.own("user node", n.Kids)}
	case "imper":
		return b.imper(n)
	case "doc":
		var lang any
		if len(n.Vals) > 0 {
			lang = b.val(n.Vals[0])
		}
		return html.Document(lang, b.contents("Document head", n.Head), b.contents("Document body", n.Kids))
	}
	panic("harness: cannot build " + n.K)
}

// userNode is a node implemented outside the library
type userNode struct {
	n    *Node
	kids []aitch.Node
}

func (u *userNode) Render(ctx *context.Context) error {
	run := runOf(ctx)
	if p := run.puts[u.n.ID]; p != nil {
		defer p.restore(ctx)()
	}
	run.event("user", u.n.ID, ctx)
	if err, stop := run.returned(ctx); stop {
		return err
	}
	fail := run.failing(u.n.ID)
	text := fmt.Sprintf("{%d}", u.n.ID)
	if u.n.K == "uattr" {
		text = fmt.Sprintf(` %s="{%d}"`, u.n.Name, u.n.ID)
	}
	if u.n.ID%3 == 1 { // to the writer itself, and the error is returned
		if _, err := ctx.Writer.Write([]byte(text)); err != nil {
			return err
		}
	} else {
		ctx.Write([]byte(text))
	}
	if p := run.puts[u.n.ID]; p != nil {
		ctx = p.context(ctx)
	}
	switch u.n.Cap {
	case "":
	case "open", "close":
		return u.mark(ctx, run)
	default:
		return u.capture(ctx, run)
	}
	if u.n.Fail == "recover" {
		var err error
		boundary(u.n, ctx, func() {
			for _, k := range u.kids {
				if k != nil && k.Type() != aitch.AttributeNode && err == nil && !(ctx.Error != nil && isUser(k)) {
					err = k.Render(ctx)
				}
			}
		})
		return err
	}
	for _, k := range u.kids {
		if k != nil && k.Type() != aitch.AttributeNode && !(ctx.Error != nil && isUser(k)) {
			if err := k.Render(ctx); err != nil {
				if u.n.Fail == "swallow" && ctx.Error != nil { // a node that does not pass on what its contents report
					run.swallowed++
					return nil
				}
				if u.n.Fail == "wrap" && ctx.Error != nil { // one that reports it in its own words
					run.wrapped++
					return &wrapErr{ctx.Error}
				}
				return err
			}
		}
	}
	if fail == nil {
		return ctx.Error
	}
	if u.n.Fail == "ctx" || u.n.Fail == "swallow" {
		if ctx.Error == nil {
			ctx.Error = run.raise(fail, "user", ctx)
		}
		return nil
	}
	if ctx.Error == nil {
		run.raise(fail, "user", ctx)
	}
	return fail // even if something failed before
}

func (u *userNode) Type() aitch.NodeType {
	if u.n.K == "uattr" {
		return aitch.AttributeNode
	}
	if u.n.ID%4 == 0 {
		for _, k := range u.kids { // like a struct that embeds a node
			if k != nil && k.Type() != aitch.AttributeNode {
				return k.Type()
			}
		}
	}
	return userTypes[u.n.ID%len(userTypes)]
}

// userTypes are the types user nodes say they have
var userTypes = []aitch.NodeType{aitch.ElementNode, aitch.TextNode, aitch.CommentNode, aitch.ElementNode, aitch.PINode, aitch.DocumentNode, aitch.FragmentNode, 50, -1}

func (u *userNode) Name() string {
	if u.n.Name != "" {
		return u.n.Name
	}
	return "user"
}

// writeItself is a callback that writes something itself, by one of the ways there are
// isUser tells whether a node is made by the user: a user that renders such a node looks at the
// context first
func isUser(n aitch.Node) bool {
	switch x := n.(type) {
	case *userNode:
		return true
	case *foreignPtr:
		return isUser(x.Node)
	case struct{ *foreignPtr }:
		return isUser(x.Node)
	case foreignVal:
		return isUser(x.node[0])
	case foreignFunc:
		inner, _ := x()
		return isUser(inner)
	case *foreignType:
		return isUser(x.node)
	}
	return false
}

func writeItself(ctx *context.Context, how int, s string) {
	if s == "" {
		return
	}
	switch how % 4 {
	case 0:
		ctx.Write([]byte(s))
	case 1:
		_, _ = ctx.Writer.Write([]byte(s))
	case 2:
		_, _ = io.WriteString(ctx.Writer, s)
	default:
		_, _ = fmt.Fprintf(ctx.Writer, "%s", s)
	}
}

func (b *Builder) imper(n *Node) aitch.Node {
	args := make([][]aitch.Node, len(n.Ops))
	raws := make([][]byte, len(n.Ops))
	for i, op := range n.Ops {
		args[i] = b.own("imperative "+op.K, op.Nodes)
		raws[i] = b.bytes("imperative "+op.K, op.S)
	}
	id := n.ID
	var self aitch.Node
	self = aitch.Imperative(func(ic aitch.ImperativeContext) error {
		ctx := ic.Context()
		run := runOf(ctx)
		if p := run.puts[id]; p != nil {
			defer p.restore(ctx)()
		}
		run.event("imper", id, ctx)
		if err, stop := run.returned(ctx); stop {
			return err
		}
		var done func() error
		fail := run.failing(id)
		at := len(n.Ops)
		if n.Fail == "early" {
			at = id % (len(n.Ops) + 1)
		}
		for i, op := range n.Ops {
			if n.Cap != "" && n.CapAt[1] > n.CapAt[0] {
				if i == n.CapAt[0] {
					if ctx.Error != nil { // failed before
						return ctx.Error
					}
					done = captureFrom(n, ctx, run)
				} else if i == n.CapAt[1] && done != nil {
					if err := done(); err != nil {
						return err
					}
					done = nil
				}
			}
			if fail != nil && i == at && ctx.Error == nil { // stores its error and carries on
				ctx.Error = run.raise(fail, "imper", ctx)
			}
			switch op.K {
			case "str":
				ic.WriteString(op.S)
			case "raw":
				ic.WriteRaw(raws[i])
			case "nodes":
				boundary(n, ctx, func() { ic.WriteNodes(args[i]...) })
			case "self":
				if run.self == nil {
					run.self = map[int]int{}
				}
				if run.self[id] < selfDepth {
					run.self[id]++
					ic.WriteNodes(self)
					run.self[id]--
				}
			case "start":
				ic.Start(raws[i], op.Void, args[i]...)
			case "end":
				ic.End()
			case "endall":
				ic.EndAll()
			}
			if n.W != "" {
				run.event("op", id, ctx)
				writeItself(ctx, id+i, n.W)
			}
		}
		if done != nil {
			if err := done(); err != nil {
				return err
			}
		}
		if n.Fail == "wrap" && ctx.Error != nil {
			run.wrapped++
			return &wrapErr{ctx.Error}
		}
		if fail == nil {
			return nil
		}
		if ctx.Error == nil {
			run.raise(fail, "imper", ctx)
			if n.Fail == "ctx" {
				ctx.Error = fail
				return nil
			}
		}
		return fail // even if something failed before
	})
	return self
}

// render runs the node with the inputs of the run
func render(node aitch.Node, run *Run) (*context.Context, error) {
	if run.rec == nil {
		run.rec = newRec()
	}
	run.rec.run = run
	ctx := context.New(run.rec.w(), run.data, run.cargo)
	err := node.Render(ctx)
	return ctx, err
}

// freshRun copies the inputs of a run
func (r *Run) fresh() *Run {
	return &Run{data: r.data, cargo: r.cargo, truth: r.truth, lists: r.lists, errs: r.errs, puts: r.puts}
}

func sortedKeys[V any](m map[string]V) []string {
	keys := make([]string, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	return keys
}

// diff describes where two outputs part
func diff(want, got []byte) string {
	i := 0
	for i < len(want) && i < len(got) && want[i] == got[i] {
		i++
	}
	lo := max(0, i-60)
	return fmt.Sprintf("differs at byte %d: want …%.160q got …%.160q (lengths %d and %d)", i, want[lo:], got[lo:], len(want), len(got))
}

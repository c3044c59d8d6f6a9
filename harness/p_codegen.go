package main

import (
	"bytes"
	"errors"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/go-andiamo/aitch"
	"github.com/go-andiamo/aitch/html"
	"github.com/go-andiamo/aitch/svg"
	xhtml "golang.org/x/net/html"
)

// C17: code generation ends in valid Go or the first error.  Hostile inputs and failing readers and
// writers; what is written is parsed and type-checked against the packages as they are built.
// C18: the generated code rebuilds the document.  Documents are generated as trees, serialised in
// many ways, generated as code, which is evaluated (by an interpreter over the real constructors,
// and some by the compiler), rendered, tokenised and compared with the tree.

func init() {
	register(&Prop{ID: "C17", Quick: 60000, Thor: 2000000, Run: runC17,
		Rule: "inputs for the HTML and SVG generators: soups of tag fragments, mutated documents, random bytes, hostile names and values, deep nesting, wrongly nested, stray, unclosed and void tags; readers that deliver bytes in pieces, nothing at times, or fail at any offset; writers that fail at any write in every mode; successful output is parsed and type-checked by go/types against the built packages; non-trivial: distinct output with at least one call or a failure that hit",
		Min:  map[string]int64{"inputs": 20000, "type_checked": 15000, "calls_generated": 100000, "reader_failures": 3000, "writer_failures": 20000, "unclosed_or_stray": 3000, "invalid_utf8": 2000}})
	register(&Prop{ID: "C18", Quick: 60000, Thor: 2000000, Run: runC18,
		Rule: "random well-formed HTML and SVG documents (all element and attribute names the packages know and others, boolean and enumerated attributes with all kinds of values, raw text elements, doctypes, comments, mixed case, every way of quoting and encoding, end tags without elements), serialised, generated, evaluated, rendered and tokenised; non-trivial: a document with at least one element and one attribute or text",
		Min:  map[string]int64{"documents": 20000, "svg_documents": 5000, "elements": 100000, "attributes": 100000, "texts": 40000, "boolean_attributes": 8000, "boolean_with_value": 2000, "raw_texts": 1500, "comments": 5000, "doctypes": 5000, "stray_end_tags": 2000, "deep_documents": 100, "very_deep_documents": 40, "large_documents": 100, "documents_with_many_attributes": 100, "compiled": 5}})
}

var genCode = map[string]func(r io.Reader, w io.Writer) error{"html": html.GenerateCode, "svg": svg.GenerateCode}

// ---- type-checking ----------------------------------------------------------------------------------

var fSrc = flagString("src", "/verif/harness", "directory of the harness module (to find export data and to compile generated code)")
var fExports = flagString("exports", "", "file with the export data of the packages")

// exportData asks the go command for the export data of aitch's packages and all they import
func exportData(file string) error {
	cmd := exec.Command("go", "list", "-export", "-deps", "-f", "{{if .Export}}{{.ImportPath}}={{.Export}}{{end}}", "github.com/go-andiamo/aitch", "github.com/go-andiamo/aitch/html", "github.com/go-andiamo/aitch/svg", "github.com/go-andiamo/aitch/css", "github.com/go-andiamo/aitch/htmx")
	cmd.Dir = *fSrc
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	out, err := cmd.Output()
	if err != nil {
		return fmt.Errorf("go list: %w: %s", err, stderr.String())
	}
	return os.WriteFile(file, out, 0o644)
}

var theImporter types.Importer

func typesImporter() types.Importer {
	if theImporter == nil {
		data, err := os.ReadFile(*fExports)
		if err != nil {
			panic("harness: " + err.Error())
		}
		files := map[string]string{}
		for _, l := range strings.Split(string(data), "\n") {
			if p, f, ok := strings.Cut(l, "="); ok {
				files[p] = f
			}
		}
		theImporter = importer.ForCompiler(token.NewFileSet(), "gc", func(path string) (io.ReadCloser, error) {
			if f, ok := files[path]; ok {
				return os.Open(f)
			}
			return nil, fmt.Errorf("no export data for %s", path)
		})
	}
	return theImporter
}

const codeHead = `package p

import (
	"github.com/go-andiamo/aitch"
	"github.com/go-andiamo/aitch/css"
	"github.com/go-andiamo/aitch/html"
	"github.com/go-andiamo/aitch/htmx"
	"github.com/go-andiamo/aitch/svg"
)

var _, _, _, _, _ = aitch.Text, css.Color, html.Div, htmx.Get, svg.G

`

// checkCode returns what is wrong with generated code, and the value of its variable
func checkCode(code []byte) (wrong string, value ast.Expr, calls int) {
	fset := token.NewFileSet()
	file, err := parser.ParseFile(fset, "p.go", append([]byte(codeHead), code...), parser.ParseComments|parser.SkipObjectResolution)
	if err != nil {
		return "does not parse: " + err.Error(), nil, 0
	}
	if len(file.Decls) != 3 {
		return fmt.Sprintf("consists of %d declarations", len(file.Decls)-2), nil, 0
	}
	gd, ok := file.Decls[2].(*ast.GenDecl)
	if !ok || gd.Tok != token.VAR || len(gd.Specs) != 1 {
		return "is not one variable declaration", nil, 0
	}
	vs := gd.Specs[0].(*ast.ValueSpec)
	if len(vs.Names) != 1 || len(vs.Values) != 1 {
		return "is not the declaration of one variable with one value", nil, 0
	}
	cfg := &types.Config{Importer: typesImporter()}
	if _, err = cfg.Check("p", fset, []*ast.File{file}, nil); err != nil {
		return "does not compile: " + err.Error(), nil, 0
	}
	ast.Inspect(vs.Values[0], func(n ast.Node) bool {
		if _, ok := n.(*ast.CallExpr); ok {
			calls++
		}
		return true
	})
	return "", vs.Values[0], calls
}

// ---- hostile inputs ---------------------------------------------------------------------------------

var soupNames = []string{"div", "p", "br", "img", "input", "track", "wbr", "script", "style", "title", "textarea", "svg", "g", "path", "a", "b", "unknown", "x-y", "noscript", "iframe", "xmp", "plaintext", "image", "foreignObject", "linearGradient", "html", "head", "body", "table", "td", "template", "DIV", "Br",
	"a\"b", "a'b", "a\\b", "a\nb", "a`b", "é", "日本", "a\x00b", "a\xffb", "a(b", "a)b", "a,b", "a;b", "1a", "_", "a/*b", "a//b", "\"", "x:y", "t\u2028t", "a{}", "type", "var", "nil"}
var soupAttrs = []string{"id", "class", "style", "href", "hidden", "disabled", "checked", "spellcheck", "translate", "data-x", "data-", "aria-label", "aria-", "hx-get", "viewBox", "viewbox", "fill", "xlink:href", "xmlns", "onclick", "ONCLICK", "@click", ":bind", "#ref", "*x", "a\"b", "a\\b", "a'b", "a`b", "é", "a\xffb", "a\x00b", "1", "=", "a\nb", "(", ")", ",", "nil", "\u2028", "a//b"}

func (r *Rand) hostileText() string {
	switch r.N(6) {
	case 0:
		b := make([]byte, r.N(20))
		for i := range b {
			b[i] = byte(r.N(256))
		}
		return string(b)
	case 1:
		return r.Pick("\\", "\\n", "\\x", "\\\"", "`", "\"", "\"),", "\")", "*/", "//", "/*", "\x00", "\xff", "\xc3", "\u2028", "\r", "\r\n", "\x7f", "\x1b[0m", "%s%d", "${x}", "&quot;", "&#0;", "&#x10ffff;", "&bogus;", "&", "&lt;script&gt;", "\ufffd", "\ufeff", "\\u1234", "\n\n")
	}
	return r.str(50)
}

func (c *Case) soup() []byte {
	var sb bytes.Buffer
	tag := func() {
		sb.WriteString("<")
		name := soupNames[c.N(len(soupNames))]
		if c.Pct(10) {
			name = "e" + c.hostileText()
		}
		sb.WriteString(name)
		for i := c.N(4); i > 0; i-- {
			sb.WriteString(c.Pick(" ", " ", "\n", "", "/", "\t"))
			a := soupAttrs[c.N(len(soupAttrs))]
			if c.Pct(10) {
				a = "a" + c.hostileText()
			}
			sb.WriteString(a)
			q := c.Pick("\"", "\"", "'", "", "")
			if c.Pct(75) {
				sb.WriteString(c.Pick("=", "=", " = ", "=\n") + q + c.hostileText())
				if c.Pct(97) {
					sb.WriteString(q)
				}
			}
		}
		sb.WriteString(c.Pick(">", ">", ">", ">", "/>", " />", "", "<"))
	}
	for i := c.N(14); i > 0; i-- {
		switch c.N(16) {
		case 0, 1, 2, 3, 4, 5:
			tag()
		case 6, 7, 8:
			sb.WriteString("</" + soupNames[c.N(len(soupNames))] + c.Pick(">", ">", " >", " x=y>", "", "/>"))
		case 9, 10, 11:
			sb.WriteString(c.hostileText())
		case 12:
			sb.WriteString(c.Pick("<!--", "<!---", "<!-->", "<!--->", "<!-", "<!", "<?php ", "<![CDATA[") + c.hostileText() + c.Pick("-->", "-->", "--!>", ">", "]]>", ""))
		case 13:
			sb.WriteString(c.Pick("<!DOCTYPE ", "<!doctype", "<!DOCTYPE html PUBLIC \"", "<!DOCTYPE ") + c.hostileText() + c.Pick(">", "\">", ""))
		case 14:
			n := c.Pick("script", "style", "title", "textarea", "noscript", "xmp", "iframe", "plaintext")
			sb.WriteString("<" + n + ">" + c.hostileText() + c.Pick("<!-- <script>", "<b>", "", "</b>", "]]>") + c.Pick("</"+n+">", "</"+n+">", "</"+n, ""))
		case 15:
			sb.WriteString(c.Pick("<", "</", "</>", "<>", "< ", "<1>", "<=", "&", "&#", "\x00", "</ >", "<!>", "<?>", "<a<b>", "<a/ b>", "<br><br/></br>", "</p>", "<p/><p>"))
		}
	}
	return sb.Bytes()
}

// pieceReader delivers its data in pieces, nothing at times, and fails at an offset
type pieceReader struct {
	data   []byte
	at     int
	r      *Rand
	max    int
	zero   int // percent of reads that deliver nothing
	failAt int // -1 is never
	with   bool
	raised bool
	err    error
}

func (p *pieceReader) Read(b []byte) (int, error) {
	if p.r.Pct(p.zero) {
		return 0, nil
	}
	if p.failAt >= 0 && p.at >= p.failAt {
		p.raised = true
		return 0, p.err
	}
	if p.at >= len(p.data) {
		return 0, io.EOF
	}
	n := min(1+p.r.N(p.max), len(b), len(p.data)-p.at)
	if p.failAt >= 0 {
		n = min(n, p.failAt-p.at)
	}
	copy(b, p.data[p.at:p.at+n])
	p.at += n
	if p.with && p.failAt >= 0 && p.at == p.failAt {
		p.raised = true
		return n, p.err
	}
	if p.with && p.at == len(p.data) {
		return n, io.EOF
	}
	return n, nil
}

func runC17(c *Case) {
	kind := c.Pick("html", "html", "svg")
	var in []byte
	switch c.N(10) {
	case 0:
		in = make([]byte, c.N(200))
		for i := range in {
			in[i] = byte(c.N(256))
		}
	case 1, 2, 3: // a document, mutated
		d := c.document(kind)
		in = c.serialise(d, kind)
		for i := c.N(4); i > 0 && len(in) > 0; i-- {
			at := c.N(len(in))
			switch c.N(4) {
			case 0:
				in[at] = byte(c.N(256))
			case 1:
				in = append(in[:at:at], in[min(len(in), at+1+c.N(10)):]...)
			case 2:
				in = append(append(in[:at:at], c.hostileText()...), in[at:]...)
			case 3:
				to := min(len(in), at+c.N(40))
				in = append(append(in[:to:to], in[at:to]...), in[to:]...)
			}
		}
	case 4: // deep
		n := c.Pick("div", "p", "g", "x")
		in = []byte(strings.Repeat("<"+n+" a=1>", c.Range(1, 300)) + c.hostileText() + strings.Repeat("</"+n+">", c.N(300)))
	default:
		in = c.soup()
	}
	if c.Idx%30000 == 11 {
		in = []byte(strings.Repeat("<"+c.Pick("a", "g", "x")+">", c.Range(4000, 6000)))
	}
	c.Count("inputs", 1)
	if !validUTF8(in) {
		c.Count("invalid_utf8", 1)
	}
	if bytes.Count(in, []byte("</")) != bytes.Count(in, []byte("<"))-bytes.Count(in, []byte("</")) {
		c.Count("unclosed_or_stray", 1)
	}
	reader := func() *pieceReader {
		rerr := c.anErr("read")
		for rerr == io.EOF { // which is no failure
			rerr = c.anErr("read")
		}
		return &pieceReader{data: in, r: c.Rand.Fork(), max: []int{1, 3, 50, 5000}[c.N(4)], zero: []int{0, 0, 20}[c.N(3)], failAt: -1, with: c.Pct(50), err: rerr}
	}
	fail := func(what string, detail ...any) {
		c.Fail(what, map[string]any{"kind": kind, "input": strconv.Quote(string(in)), "more": fmt.Sprint(detail...)})
	}
	gen := genCode[kind]
	rec := newRec()
	err := gen(reader(), rec)
	c.Eval()
	if err != nil {
		fail("code generation fails without a failing reader or writer", err)
	}
	want := append([]byte{}, rec.out...)
	wrong, _, calls := checkCode(want)
	if wrong != "" {
		fail("the generated code "+wrong, string(want))
	}
	c.Count("type_checked", 1)
	c.Count("calls_generated", calls)
	if calls > 1 {
		c.NonTrivial(want)
	}
	// failing readers
	if c.Pct(50) && len(in) > 0 {
		r := reader()
		r.failAt = c.N(len(in) + 1)
		rr := newRec()
		err := gen(r, rr)
		c.Eval()
		c.Count("reader_failures", 1)
		if r.raised && !errors.Is(err, r.err) {
			fail("an error of the reader is not returned", r.failAt, err)
		}
		if !r.raised && err != nil {
			fail("code generation fails without a failing reader or writer", err)
		}
	}
	// failing writers
	for i := 0; i < 3; i++ {
		r := newRec()
		r.failAt, r.accept, r.perm, r.failErr = c.N(rec.writes+1), c.N(4)-1, c.Pct(50), c.anErr(fmt.Sprintf("write %d", i))
		switch i {
		case 0:
			if c.Pct(30) {
				r.failAt = 0
			}
		case 1:
			r.failAt = rec.writes - 1 - c.N(3)
		}
		err := gen(reader(), r)
		c.Eval()
		if !r.failed {
			if err != nil {
				fail("code generation fails without a failing reader or writer", err)
			}
			if !bytes.Equal(r.out, want) {
				fail("generated code differs from the one before", diff(want, r.out))
			}
			continue
		}
		c.Count("writer_failures", 1)
		c.NonTrivial(in, r.failAt, r.accept, r.perm)
		if !errors.Is(err, r.failErr) {
			fail("the first error of the writer is not returned", r.failAt, rec.writes, err)
		}
		if !bytes.HasPrefix(want, r.out) {
			fail("a failing generation has written something else", diff(want, r.out))
		}
	}
	// both fail: one of the two errors
	if c.Pct(20) && len(in) > 0 {
		r, w := reader(), newRec()
		r.failAt = c.N(len(in))
		w.failAt, w.perm, w.failErr = c.N(rec.writes), c.Pct(50), c.anErr("write")
		err := gen(r, w)
		c.Eval()
		c.Count("both_failures", 1)
		if (r.raised || w.failed) && !(r.raised && errors.Is(err, r.err) || w.failed && errors.Is(err, w.failErr)) {
			fail("neither the error of the reader nor that of the writer is returned", err)
		}
	}
	c.Sample(func() any { return map[string]any{"kind": kind, "input": string(in), "code": string(want)} })
}

func validUTF8(b []byte) bool { return bytes.Equal(bytes.ToValidUTF8(b, []byte("?!")), b) }

// ---- documents --------------------------------------------------------------------------------------

type dnode struct {
	Kind  string // elem, text, comment, doctype
	Name  string
	Text  string
	Attrs [][2]string
	Kids  []*dnode
	Self  bool // written as an empty element tag
}

var booleanAttrs = map[string]bool{}

func init() {
	for _, n := range strings.Fields("allowfullscreen async autofocus autoplay checked controls default defer disabled formnovalidate hidden inert ismap itemscope loop multiple muted nomodule novalidate open playsinline readonly required reversed selected") {
		booleanAttrs[n] = true
	}
}

var rawNames = map[string]bool{"script": true, "style": true, "iframe": true, "noembed": true, "noframes": true, "noscript": true, "xmp": true}
var rcNames = map[string]bool{"title": true, "textarea": true}

var docNames = map[string]*struct{ elems, attrs []string }{}

func init() {
	for _, kind := range []string{"html", "svg"} {
		d := &struct{ elems, attrs []string }{}
		seen := map[string]bool{}
		for _, e := range catalogue {
			if !strings.HasPrefix(e.Fn, kind+".") || seen[e.Kind+e.Name] {
				continue
			}
			seen[e.Kind+e.Name] = true
			switch e.Kind {
			case "elem", "void":
				d.elems = append(d.elems, e.Name)
			case "attr", "bool", "delim":
				d.attrs = append(d.attrs, e.Name)
			}
		}
		if kind == "html" {
			d.elems = append(d.elems, "track", "x-y", "unknown", "svg", "path", "custom.el", "a1", "noembed", "noframes", "xmp", "h7", "center")
			d.attrs = append(d.attrs, "data-x", "data-foo-bar", "aria-label", "aria-x", "x", "unknown", "hx-get", "xml:lang", "v-on:click.prevent", "data-", "aria-", "kind", "accept-charset", "http-equiv", "srcdoc", "itemprop", "for", "is", "xmlns")
		} else {
			d.elems = append(d.elems, "unknown", "x-y", "div")
			d.attrs = append(d.attrs, "data-x", "unknown", "xmlns", "xmlns:xlink", "xlink:href", "xml:space", "version", "viewBox", "baseProfile", "hidden", "disabled", "aria-label", "requiredExtensions", "data-", "href")
		}
		docNames[kind] = d
	}
}

// docText is any text of a document (no CR and no NUL, which HTML itself replaces)
func (c *Case) docText() string {
	var s string
	switch c.N(4) {
	case 0:
		s = c.hostileText()
	case 1:
		s = c.Pick("\u00a0", "\f", " x ", "\n\tindented\n", "a  b", "&amp;", "&lt;b&gt;", "<b>", "\"),", "\\", "`", "é", "&", "<", "a<b", "&#65;", "&copy", "]]>", "-->", "--", "{{x}}", "\v", "\u2028", "\ufeff", "\u0085", "\u200b", "a\u200bb", "👩\u200d💻", "\u00ad", "e\u0301", "\u202e", "\ue000", "\U0010ffff", "\ufffd", "\x7f", "\x01")
	default:
		s = c.str(30)
	}
	if c.Pct(12) {
		blanks := strings.Repeat(c.Pick(" ", "  ", "\t", "\n", " \n", "\n    ", "\u00a0"), 1+c.few(6))
		switch c.N(3) {
		case 0:
			s = blanks + s
		case 1:
			s += blanks
		case 2:
			s = blanks + s + blanks
		}
	}
	return strings.NewReplacer("\r", "", "\x00", "").Replace(s)
}

func (c *Case) docRaw(name string) string {
	s := c.Pick("var a = 1 < 2 && \"x\" > 'y';", "a > b { c: \"d\"; } /* & */", "if (a && b) { c(\"<p>\") }", "x", "é & ü", "// comment\nalert(`${1}`)", "&amp;&lt;", "a\\nb\\\"", "\n  indented\n", "]]>", "--", "<b>bold</b>", "&nbsp;") + c.docText()
	for _, bad := range []string{"</", "<!", "<s", "<S"} {
		s = strings.ReplaceAll(s, bad, "")
	}
	return s
}

func (c *Case) document(kind string) []*dnode {
	var result []*dnode
	comment := func() *dnode {
		s := strings.NewReplacer("\r", "", "\x00", "", "-", "", ">", "", "<", "").Replace(c.docText())
		return &dnode{Kind: "comment", Text: c.Pick("c", "c", "c", "[if lt IE 9]", " ", "#include virtual", "prettier-ignore ", "[CDATA[", "!") + s + "."}
	}
	if kind == "html" && c.Pct(40) {
		d := c.Pick("html", "html", "html PUBLIC \"-//W3C//DTD HTML 4.01//EN\" \"http://www.w3.org/TR/html4/strict.dtd\"", "html SYSTEM \"about:legacy-compat\"", "HTML", "svg", "html PUBLIC '-//X//a & b' 'x'")
		result = append(result, &dnode{Kind: "doctype", Text: d})
	}
	if c.Pct(20) {
		result = append(result, comment())
	}
	names := docNames[kind]
	budget, deepest, most := c.Range(1, 40), 6, 5
	switch c.N(150) {
	case 0:
		budget, deepest = c.Range(50, 150), 150
		c.Count("deep_documents", 1)
	case 1:
		budget, deepest = c.Range(100, 400), 20
		c.Count("large_documents", 1)
	case 2:
		budget, most = c.Range(1, 5), 150
		c.Count("documents_with_many_attributes", 1)
	}
	var elem func(depth int, in string) *dnode
	elem = func(depth int, in string) *dnode {
		budget--
		n := &dnode{Kind: "elem", Name: names.elems[c.N(len(names.elems))]}
		if c.Pct(4) {
			if n.Name = c.validName(); voidNames[strings.ToLower(n.Name)] || rawNames[strings.ToLower(n.Name)] || rcNames[strings.ToLower(n.Name)] || strings.EqualFold(n.Name, "plaintext") {
				n.Name += "-x"
			}
		}
		if depth == 0 && kind == "svg" && c.Pct(80) {
			n.Name = "svg"
		}
		if depth == 0 && kind == "html" && c.Pct(50) {
			n.Name = c.Pick("html", "body", "div")
		}
		if kind == "html" && in != "" && c.Pct(10) {
			n.Name = c.Pick("script", "style", "title", "textarea")
		}
		if kind == "html" && in == "svg" && c.Pct(70) {
			n.Name = c.Pick("script", "style", "title", "path", "circle", "g", "svg", "a")
		}
		if kind == "html" && n.Name == "a" && c.Pct(10) {
			n.Name = "svg"
		}
		lower := map[string]bool{}
		for i := c.N(most); i > 0; i-- {
			a := names.attrs[c.N(len(names.attrs))]
			if c.Pct(4) || most > 5 && c.Pct(50) {
				a = c.validName()
				if booleanAttrs[strings.ToLower(a)] {
					continue
				}
			}
			if c.Pct(10) {
				a = sortedKeys(booleanAttrs)[c.N(len(booleanAttrs))]
			}
			if lower[strings.ToLower(a)] {
				continue
			}
			lower[strings.ToLower(a)] = true
			v := c.docText()
			if kind == "html" && booleanAttrs[a] && c.Pct(70) {
				v = c.Pick("", "", a)
			} else if c.Pct(10) {
				v = c.Pick("", "true", "false", "no", "yes", "until-found", "auto", "0", " ", a)
			}
			if (a == "spellcheck" || a == "translate") && strings.EqualFold(v, a) {
				v = c.Pick("false", "true", "no", "yes", "")
			}
			n.Attrs = append(n.Attrs, [2]string{a, v})
		}
		lname := strings.ToLower(n.Name)
		switch {
		case voidNames[lname]:
			if kind == "svg" {
				n.Name = "g"
			}
		case rawNames[lname]:
			if c.Pct(70) {
				s := c.docRaw(lname)
				if kind == "svg" {
					s = strings.NewReplacer("&", "", "<", "").Replace(s)
				}
				n.Kids = append(n.Kids, &dnode{Kind: "text", Text: s})
			}
		case rcNames[lname]:
			if c.Pct(70) {
				n.Kids = append(n.Kids, &dnode{Kind: "text", Text: c.docText()})
			}
		default:
			least := 0
			if deepest > 6 {
				least = 1
			}
			for i := least + c.N(5); i > 0; i-- {
				switch {
				case budget > 0 && depth < deepest && (c.Pct(55) || len(n.Kids) == 0 && least > 0):
					n.Kids = append(n.Kids, elem(depth+1, n.Name))
				case c.Pct(15):
					n.Kids = append(n.Kids, comment())
				case len(n.Kids) == 0 || n.Kids[len(n.Kids)-1].Kind != "text":
					n.Kids = append(n.Kids, &dnode{Kind: "text", Text: c.docText()})
				}
			}
		}
		n.Self = kind == "html" && in == "svg" && len(n.Kids) == 0 && c.Pct(60)
		return n
	}
	top := elem(0, "")
	if c.N(200) == 0 {
		for i := c.Range(150, 900); i > 0; i-- {
			top = &dnode{Kind: "elem", Name: map[string]string{"html": c.Pick("div", "span", "section"), "svg": "g"}[kind], Kids: []*dnode{top}}
			if c.Pct(5) {
				top.Kids = append(top.Kids, &dnode{Kind: "text", Text: c.docText()})
			}
			if c.Pct(3) {
				top.Kids = append([]*dnode{{Kind: "elem", Name: "a"}}, top.Kids...)
			}
		}
		c.Count("very_deep_documents", 1)
	}
	result = append(result, top)
	if c.Pct(15) {
		result = append(result, comment())
	}
	if c.Pct(15) {
		result = append(result, &dnode{Kind: "text", Text: c.docText()})
	}
	if c.Pct(15) {
		result = append(result, elem(1, ""))
	}
	return result
}

// validName is a name that the checked constructors accept
func (c *Case) validName() string {
	const first, other = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ", "0123456789._-:"
	b := []byte{first[c.N(len(first))]}
	for n := c.few(12); n > 0; n-- {
		b = append(b, (first + other)[c.N(len(first)+len(other))])
	}
	return c.Pick("", "", "", "on:", "on", "data.", "x_") + string(b)
}

func (c *Case) mixCase(s string) string {
	b := []byte(s)
	for i := range b {
		if c.Pct(30) && b[i] >= 'a' && b[i] <= 'z' {
			b[i] -= 32
		}
	}
	return string(b)
}

// encode writes character data with random references for what needs them, and some for what does not
func (c *Case) encode(s string, quote byte) string {
	var sb strings.Builder
	for i := 0; i < len(s); i++ {
		b := s[i]
		must := b == '&' || b == '<' || (quote != 0 && b == quote)
		if quote == ' ' {
			must = must || strings.IndexByte(" \t\n\f\"'=>`", b) >= 0 || b == '/' && i == len(s)-1 // a slash before > is read as that of an empty element
		}
		if !must && b > ' ' && b < 0x7f && c.Pct(3) {
			must = true
		}
		if !must {
			sb.WriteByte(b)
			continue
		}
		named := map[byte]string{'&': "&amp;", '<': "&lt;", '>': "&gt;", '"': "&quot;", '\'': "&apos;"}[b]
		switch k := c.N(3); {
		case k == 0 && named != "":
			sb.WriteString(named)
		case k == 1:
			fmt.Fprintf(&sb, "&#x%X;", b)
		default:
			fmt.Fprintf(&sb, "&#%d;", b)
		}
	}
	return sb.String()
}

func (c *Case) serialise(doc []*dnode, kind string) []byte {
	var sb bytes.Buffer
	mix := c.Pct(20)
	name := func(s string) string {
		if mix {
			return c.mixCase(s)
		}
		return s
	}
	space := func() string { return c.Pick(" ", " ", " ", "\n", "\t", "  ") }
	pretty := c.Pct(40)
	strays := c.Pct(20)
	var open []string
	stray := func(n, next *dnode) { // an end tag that no element matches
		if !strays || !c.Pct(20) || next != nil && n.Kind == "text" && next.Kind == "text" {
			return
		}
		name := c.Pick("b", "div", "x-y", "g", "span", "section", "unknown", "td", "li", "h1", "path", "svg", "html", "body")
		for _, o := range open {
			if o == name || o == "title" || o == "textarea" { // (no tags in there)
				return
			}
		}
		sb.WriteString("</" + name + ">")
		c.Count("stray_end_tags", 1)
	}
	var one func(n *dnode)
	one = func(n *dnode) {
		switch n.Kind {
		case "doctype":
			sb.WriteString(c.Pick("<!DOCTYPE ", "<!doctype ", "<!DocType ") + n.Text + ">" + c.Pick("", "\n"))
		case "comment":
			sb.WriteString("<!--" + n.Text + "-->")
		case "text":
			sb.WriteString(c.encode(n.Text, 0))
		case "elem":
			sb.WriteString("<" + name(n.Name))
			unquoted := false
			for _, a := range n.Attrs {
				sb.WriteString(space() + name(a[0]))
				unquoted = false
				if a[1] == "" && c.Pct(50) {
					continue
				}
				eq := c.Pick("=", "=", "=", " = ", "=\n")
				switch k := c.N(6); {
				case k == 0 && a[1] != "":
					sb.WriteString(eq + c.encode(a[1], ' '))
					unquoted = true
				case k <= 2:
					sb.WriteString(eq + "'" + c.encode(a[1], '\'') + "'")
				default:
					sb.WriteString(eq + `"` + c.encode(a[1], '"') + `"`)
				}
			}
			lname := strings.ToLower(n.Name)
			if voidNames[lname] && kind == "html" {
				if c.Pct(30) {
					sb.WriteString(" /")
				}
				sb.WriteString(">")
				return
			}
			if len(n.Kids) == 0 && (kind == "svg" && c.Pct(60) || n.Self) {
				if unquoted || c.Pct(50) {
					sb.WriteString(" ")
				}
				sb.WriteString("/>")
				return
			}
			if c.Pct(5) {
				sb.WriteString(space())
			}
			sb.WriteString(">")
			open = append(open, lname)
			defer func() { open = open[:len(open)-1] }()
			for i, k := range n.Kids {
				if rawNames[lname] {
					sb.WriteString(k.Text)
					continue
				}
				if pretty && k.Kind == "elem" && (i == 0 || n.Kids[i-1].Kind != "text") {
					sb.WriteString("\n  ")
				}
				one(k)
				if i+1 < len(n.Kids) {
					stray(k, n.Kids[i+1])
				} else {
					stray(k, nil)
				}
			}
			sb.WriteString("</" + name(n.Name) + c.Pick("", "", "", " ") + ">")
		}
	}
	for i, n := range doc {
		one(n)
		if i+1 < len(doc) {
			stray(n, doc[i+1])
		} else {
			stray(n, nil)
		}
	}
	return sb.Bytes()
}

// dtoken is a token of a document in the form that is compared
type dtoken struct {
	Kind, Name string
	Attrs      string
}

func attrKey(kind string, attrs [][2]string) string {
	var sb strings.Builder
	for _, a := range attrs {
		k, v := strings.ToLower(a[0]), a[1]
		if kind == "html" && booleanAttrs[k] && strings.EqualFold(k, v) {
			v = ""
		}
		fmt.Fprintf(&sb, "%s=%q ", k, v)
	}
	return sb.String()
}

func blank(s string) bool { return strings.Trim(s, " \t\n\f\r") == "" }

func flatten(doc []*dnode, kind string) (result []dtoken) {
	text := func(s string) {
		if l := len(result); l > 0 && result[l-1].Kind == "text" {
			result[l-1].Name += s
		} else {
			result = append(result, dtoken{Kind: "text", Name: s})
		}
	}
	var one func(n *dnode)
	one = func(n *dnode) {
		switch n.Kind {
		case "text":
			text(n.Text)
		case "comment":
			result = append(result, dtoken{Kind: "comment"})
		case "doctype":
			result = append(result, dtoken{Kind: "doctype", Name: n.Text})
		case "elem":
			name := strings.ToLower(n.Name)
			result = append(result, dtoken{Kind: "start", Name: name, Attrs: attrKey(kind, n.Attrs)})
			if voidNames[name] && kind == "html" {
				return
			}
			for _, k := range n.Kids {
				one(k)
			}
			result = append(result, dtoken{Kind: "end", Name: name})
		}
	}
	for _, n := range doc {
		one(n)
	}
	return dropBlank(result)
}

func dropBlank(ts []dtoken) (result []dtoken) {
	for _, t := range ts {
		if t.Kind != "text" || !blank(t.Name) {
			result = append(result, t)
		}
	}
	return result
}

// tokenise reads a document back
func tokenise(data []byte, kind string) (result []dtoken) {
	z := xhtml.NewTokenizer(bytes.NewReader(data))
	for {
		tt := z.Next()
		if tt == xhtml.ErrorToken {
			return dropBlank(result)
		}
		raw := string(z.Raw())
		t := z.Token()
		var attrs [][2]string
		for _, a := range t.Attr {
			attrs = append(attrs, [2]string{a.Key, a.Val})
		}
		switch tt {
		case xhtml.TextToken:
			if l := len(result); l > 0 && result[l-1].Kind == "text" {
				result[l-1].Name += t.Data
			} else {
				result = append(result, dtoken{Kind: "text", Name: t.Data})
			}
		case xhtml.StartTagToken:
			result = append(result, dtoken{Kind: "start", Name: strings.ToLower(t.Data), Attrs: attrKey(kind, attrs)})
		case xhtml.SelfClosingTagToken:
			name := strings.ToLower(t.Data)
			result = append(result, dtoken{Kind: "start", Name: name, Attrs: attrKey(kind, attrs)})
			if !(voidNames[name] && kind == "html") {
				result = append(result, dtoken{Kind: "end", Name: name})
				z.NextIsNotRawText()
			}
		case xhtml.EndTagToken:
			result = append(result, dtoken{Kind: "end", Name: strings.ToLower(t.Data)})
		case xhtml.CommentToken:
			result = append(result, dtoken{Kind: "comment"})
		case xhtml.DoctypeToken:
			// as it is: there are no entities in a doctype
			if _, raw, _ = strings.Cut(raw, " "); strings.HasSuffix(raw, ">") {
				raw = raw[:len(raw)-1]
			}
			result = append(result, dtoken{Kind: "doctype", Name: raw})
		}
	}
}

// matched leaves out the end tags that no element matches
func matched(ts []dtoken, kind string) (result []dtoken) {
	var open []string
	for _, t := range ts {
		switch {
		case t.Kind == "start" && !(voidNames[t.Name] && kind == "html"):
			open = append(open, t.Name)
		case t.Kind == "end":
			i := len(open) - 1
			for i >= 0 && open[i] != t.Name {
				i--
			}
			if i < 0 {
				continue
			}
			open = open[:i]
		}
		result = append(result, t)
	}
	return result
}

func tokenDiff(want, got []dtoken) string {
	for i := 0; i < len(want) || i < len(got); i++ {
		switch {
		case i >= len(want):
			return fmt.Sprintf("token %d: nothing more expected, got %+v", i, got[i])
		case i >= len(got):
			return fmt.Sprintf("token %d: expected %+v, got nothing more", i, want[i])
		case want[i] != got[i]:
			return fmt.Sprintf("token %d: expected %+v, got %+v", i, want[i], got[i])
		}
	}
	return ""
}

// ---- evaluating generated code ------------------------------------------------------------------------

var errEval = errors.New("cannot be interpreted")

func evalCode(e ast.Expr) (result any, err error) {
	defer func() {
		if r := recover(); r != nil {
			if ee, ok := r.(error); ok && errors.Is(ee, errEval) {
				err = ee
				return
			}
			panic(r)
		}
	}()
	return eval(e), nil
}

func cannot(what string, e any) any { panic(fmt.Errorf("%w: %s %T", errEval, what, e)) }

func eval(e ast.Expr) any {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return eval(x.X)
	case *ast.BasicLit:
		switch x.Kind {
		case token.STRING:
			s, err := strconv.Unquote(x.Value)
			if err != nil {
				cannot("literal "+x.Value, x)
			}
			return s
		case token.INT:
			n, err := strconv.Atoi(x.Value)
			if err != nil {
				cannot("literal "+x.Value, x)
			}
			return n
		}
	case *ast.Ident:
		switch x.Name {
		case "nil":
			return nil
		case "true":
			return true
		case "false":
			return false
		}
	case *ast.CallExpr:
		if at, ok := x.Fun.(*ast.ArrayType); ok && at.Len == nil && len(x.Args) == 1 {
			if id, ok := at.Elt.(*ast.Ident); ok && id.Name == "byte" {
				if s, ok := eval(x.Args[0]).(string); ok {
					return []byte(s)
				}
			}
		}
		sel, ok := x.Fun.(*ast.SelectorExpr)
		if !ok || x.Ellipsis.IsValid() {
			cannot("call of", x.Fun)
		}
		pkg, ok := sel.X.(*ast.Ident)
		if !ok {
			cannot("call of", x.Fun)
		}
		name := pkg.Name + "." + sel.Sel.Name
		args := make([]any, len(x.Args))
		for i, a := range x.Args {
			args[i] = eval(a)
		}
		str := func(i int) string {
			if i < len(args) {
				if s, ok := args[i].(string); ok {
					return s
				}
			}
			cannot("argument of "+name, nil)
			return ""
		}
		switch name {
		case "aitch.Collection":
			var nodes []aitch.Node
			for _, a := range args {
				n, _ := a.(aitch.Node)
				nodes = append(nodes, n)
			}
			return aitch.Collection(nodes...)
		case "aitch.Element":
			return aitch.Element(str(0), args[1:]...)
		case "aitch.VoidElement":
			return aitch.VoidElement(str(0), args[1:]...)
		case "aitch.Attribute":
			return aitch.Attribute(str(0), args[1:]...)
		case "aitch.BooleanAttribute":
			return aitch.BooleanAttribute(str(0))
		case "aitch.DelimitedAttribute":
			return aitch.DelimitedAttribute(str(0), str(1), args[2:]...)
		case "aitch.Text":
			return aitch.Text(args...)
		case "aitch.Comment":
			return aitch.Comment(args...)
		case "aitch.Fragment":
			return aitch.Fragment(args...)
		case "aitch.PI":
			return aitch.PI(str(0), args[1:]...)
		case "aitch.DocType":
			if len(args) == 0 {
				return aitch.DocType()
			}
		}
		if f, ok := reg_any[name]; ok {
			return f(args...)
		}
		if f, ok := reg_none[name]; ok && len(args) == 0 {
			return f()
		}
		if f, ok := reg_named[name]; ok {
			return f(str(0), args[1:]...)
		}
		cannot("function "+name, x)
	}
	return cannot("expression", e)
}

// compileAndRender evaluates generated code with the Go compiler
func compileAndRender(code []byte) ([]byte, error) {
	dir, err := os.MkdirTemp(filepath.Dir(*fOut), "compiled")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(dir)
	for _, f := range []string{"go.mod", "go.sum"} {
		data, err := os.ReadFile(filepath.Join(*fSrc, f))
		if err != nil {
			return nil, err
		}
		if err = os.WriteFile(filepath.Join(dir, f), data, 0o644); err != nil {
			return nil, err
		}
	}
	src := strings.Replace(codeHead, "package p\n\nimport (", "package main\n\nimport (\n\t\"os\"\n\t\"github.com/go-andiamo/aitch/context\"", 1) + string(code) + `
func main() {
	if err := template.Render(context.New(os.Stdout, nil, nil)); err != nil {
		panic(err)
	}
}
`
	if err = os.WriteFile(filepath.Join(dir, "main.go"), []byte(src), 0o644); err != nil {
		return nil, err
	}
	cmd := exec.Command("go", "run", ".")
	cmd.Dir = dir
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	out, err := cmd.Output()
	if err != nil {
		return nil, fmt.Errorf("%w: %s", err, stderr.String())
	}
	return out, nil
}

var compiled int

func runC18(c *Case) {
	kind := c.Pick("html", "html", "svg")
	doc := c.document(kind)
	in := c.serialise(doc, kind)
	want := flatten(doc, kind)
	if d := tokenDiff(want, matched(tokenise(in, kind), kind)); d != "" { // the document was not serialised well
		c.Count("skipped", 1)
		c.Sample(func() any { return map[string]any{"skipped": string(in), "why": d} })
		if os.Getenv("HARNESS_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, "SKIPPED", d, strconv.Quote(string(in)))
		}
		return
	}
	for _, t := range want {
		switch t.Kind {
		case "start":
			c.Count("elements", 1)
		case "text":
			c.Count("texts", 1)
		case "comment":
			c.Count("comments", 1)
		case "doctype":
			c.Count("doctypes", 1)
		}
	}
	var count func(n *dnode)
	count = func(n *dnode) {
		c.Count("attributes", len(n.Attrs))
		for _, a := range n.Attrs {
			if booleanAttrs[a[0]] {
				c.Count("boolean_attributes", 1)
				if a[1] != "" && a[1] != a[0] {
					c.Count("boolean_with_value", 1)
				}
			}
		}
		if rawNames[n.Name] && len(n.Kids) > 0 {
			c.Count("raw_texts", 1)
		}
		for _, k := range n.Kids {
			count(k)
		}
	}
	for _, n := range doc {
		count(n)
	}
	fail := func(what string, detail ...any) {
		c.Fail(what, map[string]any{"kind": kind, "document": strconv.Quote(string(in)), "tree": js(doc), "more": fmt.Sprint(detail...)})
	}
	var code bytes.Buffer
	if err := genCode[kind](bytes.NewReader(in), &code); err != nil {
		fail("code generation fails", err)
	}
	c.Count("documents", 1)
	c.Count(kind+"_documents", 1)
	wrong, value, _ := checkCode(code.Bytes())
	if wrong != "" {
		fail("the generated code "+wrong, code.String())
	}
	node, err := evalCode(value)
	var out []byte
	useCompiler := err != nil && compiled < 25
	if err != nil {
		c.Count("not_interpreted", 1)
	} else {
		n, ok := node.(aitch.Node)
		if !ok {
			fail("the generated code does not evaluate to a node", code.String())
		}
		run := &Run{}
		if _, err = render(n, run); err != nil {
			fail("rendering the generated code fails", err)
		}
		out = run.rec.out
	}
	if useCompiler || c.Idx%6000 == 0 {
		compiled++
		cout, err := compileAndRender(code.Bytes())
		if err != nil {
			c.Count("compile_failed", 1)
			c.w.samples = append(c.w.samples, err.Error())
		} else {
			c.Count("compiled", 1)
			if out != nil && !bytes.Equal(out, cout) {
				fail("the harness's interpreter and the compiler disagree", code.String(), diff(cout, out))
			}
			out = cout
		}
	}
	if out == nil {
		return
	}
	c.Eval()
	if d := tokenDiff(want, tokenise(out, kind)); d != "" {
		fail("the generated code does not rebuild the document: "+d, code.String(), string(out))
	}
	if len(want) > 2 {
		c.NonTrivial(in)
	}
	c.Sample(func() any {
		return map[string]any{"document": string(in), "code": code.String(), "rendered": string(out)}
	})
}

package main

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"strings"
	"sync"
	"testing/iotest"
)

// C29: the generated code depends only on the document.  One document is read in many pieces, by
// many kinds of readers, written to many kinds of writers, after other and after failed
// generations, while others are under way, in other spellings, alone and as part of other documents.

func init() {
	register(&Prop{ID: "C29", Quick: 12000, Thor: 400000, Run: runC29,
		Rule: "random documents and tag soup (some large, or with tokens longer than any buffer): code generated from one read compared byte for byte with that from single bytes, random pieces with empty reads, data together with EOF, buffered readers, pipes and files; to writers of many kinds; after failed and panicking generations; nested within the reads and writes of another one; concurrently; from other spellings of the document (quotes, references, case, blanks in tags); failing writers receive a prefix; code of documents put together is the code of the parts put together; non-trivial: a document with at least one element or text",
		Min:  map[string]int64{"documents": 5000, "soups": 1000, "chunkings": 30000, "writers": 10000, "standard_output": 500, "after_failures": 5000, "nested": 2000, "concurrent": 500, "spellings": 8000, "prefixes": 10000, "joined": 3000, "wrapped": 3000, "large": 200, "long_tokens": 200}})
}

func generate(kind string, r io.Reader) ([]byte, error) {
	var w bytes.Buffer
	err := genCode[kind](r, &w)
	return w.Bytes(), err
}

// roomWriter ends the case when the code gets too long (it is indented: deep documents have long code)
type roomWriter struct{ bytes.Buffer }

func (w *roomWriter) Write(b []byte) (int, error) {
	if w.Len()+len(b) > 32<<20 {
		panic(tooBig{})
	}
	return w.Buffer.Write(b)
}

// stepReader delivers given pieces
type stepReader struct {
	data []byte
	step func(left int) int
	eof  bool // EOF together with the last data
	hook func()
}

func (s *stepReader) Read(b []byte) (int, error) {
	if s.hook != nil {
		s.hook()
	}
	if len(s.data) == 0 {
		return 0, io.EOF
	}
	n := min(s.step(len(s.data)), len(b), len(s.data))
	copy(b, s.data[:n])
	for i := n; i < len(b) && i < n+16; i++ { // what is behind is not data
		b[i] = '<'
	}
	s.data = s.data[n:]
	if s.eof && len(s.data) == 0 {
		return n, io.EOF
	}
	return n, nil
}

// chattyWriter has more methods than Write, and overwrites nothing
type chattyWriter struct {
	bytes.Buffer
	hook func()
}

func (w *chattyWriter) Write(b []byte) (int, error) {
	if w.hook != nil {
		w.hook()
	}
	return w.Buffer.Write(b)
}

// cutWriter accepts a number of bytes and then fails
type cutWriter struct {
	bytes.Buffer
	left   int
	err    error
	failed bool
	late   int
	panics bool
}

func (w *cutWriter) Write(b []byte) (int, error) {
	if w.failed {
		w.late++
		return 0, w.err
	}
	if len(b) <= w.left {
		w.left -= len(b)
		return w.Buffer.Write(b)
	}
	w.failed = true
	if w.panics {
		panic(w.err)
	}
	n, _ := w.Buffer.Write(b[:w.left])
	return n, w.err
}

func runC29(c *Case) {
	c.Eval()
	kind := c.Pick("html", "html", "svg")
	var doc []*dnode
	var text []byte
	if c.Pct(75) {
		doc = c.document(kind)
		text = c.serialise(doc, "html")
		c.Count("documents", 1)
	} else {
		text = c.soup()
		c.Count("soups", 1)
	}
	switch {
	case c.Idx%41 == 7: // large
		n := c.Range(1000, 250000)
		for unit := bytes.Clone(text); len(text) < n && len(unit) > 0; {
			text = append(text, unit...)
		}
		doc = nil
		c.Count("large", 1)
	case c.Idx%41 == 8: // long tokens
		long := strings.Repeat(c.Pick("word ", "x", "a &amp; b ", "é", "&lt;", "\n"), c.Range(500, 30000))
		text = append(text, fmt.Sprintf(c.Pick("<p>%s</p>", "<p title='%s'>t</p>", "<!-- %s -->", "<script>%s</script>", "<%s>", "<a %s=1>", "&%s", "<textarea>%s</textarea>"), long)...)
		doc = nil
		c.Count("long_tokens", 1)
	}
	show := func() string { return fmt.Sprintf("%.3000q", text) }
	room := &roomWriter{}
	werr := genCode[kind](bytes.NewReader(text), room)
	want := bytes.Clone(room.Bytes())
	if werr != nil {
		c.Fail("code generation fails: "+werr.Error(), show())
	}
	same := func(how string, got []byte, err error) {
		if err != nil || !bytes.Equal(got, want) {
			c.Fail("other code is generated "+how, map[string]any{"kind": kind, "document": show(), "error": fmt.Sprint(err), "diff": diff(want, got)})
		}
	}
	big := len(text) > 20000
	// pieces
	var steps []func(int) int
	if !big || c.Pct(10) {
		steps = append(steps, func(int) int { return 1 })
	}
	at := c.N(len(text) + 1)
	steps = append(steps, func(int) int { return 4096 }, func(left int) int { return max(left-at, 1) }, func(int) int { return 1 + c.N(16) }, func(int) int { return []int{0, 0, 1, 3, 100, 1000}[c.N(6)] })
	for i, step := range steps {
		got, err := generate(kind, &stepReader{data: text, step: step, eof: c.Pct(50)})
		same(fmt.Sprintf("when the document is read in pieces (%d)", i), got, err)
		c.Count("chunkings", 1)
	}
	// readers
	var r io.Reader
	how := ""
	switch k := c.N(9); k {
	case 0:
		r, how = strings.NewReader(string(text)), "from a strings.Reader"
	case 1:
		r, how = bytes.NewBuffer(bytes.Clone(text)), "from a buffer"
	case 2:
		r, how = bufio.NewReaderSize(bytes.NewReader(text), 16), "from a buffered reader"
	case 3:
		r, how = iotest.DataErrReader(bytes.NewReader(text)), "from a reader that delivers EOF with the data"
	case 4:
		r, how = iotest.HalfReader(bytes.NewReader(text)), "from a reader of half the buffers"
	case 5:
		pr, pw := io.Pipe()
		go func() {
			for i := 0; i < len(text); i += 1000 {
				_, _ = pw.Write(text[i:min(i+1000, len(text))])
			}
			pw.Close()
		}()
		r, how = pr, "from a pipe"
	case 6:
		r, how = io.MultiReader(bytes.NewReader(text[:at]), strings.NewReader(""), bytes.NewReader(text[at:])), "from several readers"
	case 7:
		f, err := os.CreateTemp("", "doc")
		if err == nil {
			defer os.Remove(f.Name())
			defer f.Close()
			if _, err = f.Write(text); err == nil {
				_, err = f.Seek(0, io.SeekStart)
			}
		}
		if err != nil {
			panic("harness: " + err.Error())
		}
		r, how = f, "from a file"
	default:
		r, how = io.LimitReader(io.MultiReader(bytes.NewReader(text), strings.NewReader("<more>")), int64(len(text))), "from a limited reader"
	}
	got, err := generate(kind, r)
	same(how, got, err)
	c.Count("chunkings", 1)
	// writers
	for i := 0; i < 2; i++ {
		switch c.N(4) {
		case 0:
			rec := newRec()
			err := genCode[kind](bytes.NewReader(text), rec.w())
			same("to a recording writer", rec.out, err)
		case 1:
			w := &chattyWriter{}
			err := genCode[kind](bytes.NewReader(text), w)
			same("to a buffer with more methods", w.Bytes(), err)
		case 2:
			var w bytes.Buffer
			b := bufio.NewWriterSize(&w, 1+c.N(300))
			err := genCode[kind](bytes.NewReader(text), b)
			b.Flush()
			same("to a buffered writer", w.Bytes(), err)
		default:
			var w strings.Builder
			err := genCode[kind](bytes.NewReader(text), &w)
			same("to a strings.Builder", []byte(w.String()), err)
		}
		c.Count("writers", 1)
	}
	if c.Pct(10) { // no writer means standard output
		f, err := os.CreateTemp("", "stdout")
		if err != nil {
			panic("harness: " + err.Error())
		}
		defer os.Remove(f.Name())
		defer f.Close()
		out := os.Stdout
		os.Stdout = f
		p := catch(func() { err = genCode[kind](bytes.NewReader(text), nil) })
		os.Stdout = out
		if p != nil {
			c.Fail("code generation without a writer panics", fmt.Sprint(p))
		}
		got, rerr := os.ReadFile(f.Name())
		if rerr != nil {
			panic("harness: " + rerr.Error())
		}
		same("on standard output", got, err)
		c.Count("standard_output", 1)
	}
	// failing writers receive a prefix, and nothing is left behind
	for i := c.Range(1, 3); i > 0; i-- {
		w := &cutWriter{left: c.N(len(want)), err: errors.New("no room"), panics: c.Pct(15)}
		other := kind
		if c.Pct(20) {
			other = c.Pick("html", "svg")
		}
		var err error
		p := catch(func() { err = genCode[other](&stepReader{data: text, step: func(int) int { return 700 }}, w) })
		if w.panics != (p != nil) && (w.failed || p != nil) {
			c.Fail("a panic of the writer is lost, or there is another one", fmt.Sprint(p))
		}
		if w.failed && !w.panics && err != w.err {
			c.Fail("the error of the writer is not returned", fmt.Sprint(err))
		}
		if other == kind && !bytes.HasPrefix(want, w.Bytes()) || w.late > 0 && !w.panics {
			c.Fail("a failing writer does not receive a prefix of the code", map[string]any{"document": show(), "diff": diff(want, w.Bytes())})
		}
		c.Count("prefixes", 1)
	}
	if c.Pct(30) && len(text) > 0 {
		_, err := generate(kind, io.MultiReader(bytes.NewReader(text[:at]), iotest.ErrReader(errors.New("cannot read"))))
		if err == nil {
			c.Fail("the error of the reader is lost", show())
		}
	}
	got, err = generate(kind, bytes.NewReader(text))
	same("after failed generations", got, err)
	c.Count("after_failures", 1)
	// nested and concurrent
	if c.Pct(20) {
		n := 0
		inner := func() {
			if n++; n < 4 {
				k := c.Pick("html", "svg")
				code, err := generate(k, bytes.NewReader(text))
				if k == kind {
					same("within a generation", code, err)
				}
			}
		}
		w := &chattyWriter{}
		err := genCode[kind](&stepReader{data: text, step: func(int) int { return 1 + c.N(1000) }, hook: inner}, w)
		same("with others within its reads", w.Bytes(), err)
		n = 0
		w = &chattyWriter{hook: inner}
		err = genCode[kind](bytes.NewReader(text), w)
		same("with others within its writes", w.Bytes(), err)
		c.Count("nested", 1)
	}
	if c.Pct(8) {
		var wg sync.WaitGroup
		var codes [4][]byte
		var errs [4]error
		for i := range codes {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for j := 0; j < 3; j++ {
					k := kind
					if i == 3 && j < 2 {
						k = "svg"
					}
					codes[i], errs[i] = generate(k, &stepReader{data: text, step: func(int) int { return 100 }})
				}
			}()
		}
		wg.Wait()
		for i := range codes {
			same("concurrently", codes[i], errs[i])
		}
		c.Count("concurrent", 1)
	}
	if doc != nil {
		// other spellings
		for i := 0; i < 2; i++ {
			text2 := c.serialise(doc, "html")
			code, err := generate(kind, bytes.NewReader(text2))
			if err != nil || !bytes.Equal(code, want) {
				c.Fail("other code is generated for another spelling of the same document", map[string]any{"kind": kind, "document": show(), "spelling": string(text2), "diff": diff(want, code)})
			}
			c.Count("spellings", 1)
		}
		c.compose(kind, want, show)
	}
	if len(text) > 3 {
		c.NonTrivial(kind, text)
	}
}

// parts splits code into its first line, its lines and its last ones
func codeParts(code []byte) (head, body, tail string, ok bool) {
	s := string(code)
	i := strings.IndexByte(s, '\n')
	if i < 0 {
		return
	}
	head, s = s[:i+1], s[i+1:]
	tail = ")\n\n"
	if !strings.HasSuffix(s, tail) {
		return
	}
	return head, strings.TrimSuffix(s, tail), tail, true
}

// compose puts documents together
func (c *Case) compose(kind string, want []byte, show func() string) {
	d1, d2 := c.document(kind), c.document(kind)
	t1, t2 := c.serialise(d1, "html"), c.serialise(d2, "html")
	c1, e1 := generate(kind, bytes.NewReader(t1))
	c2, e2 := generate(kind, bytes.NewReader(t2))
	h1, b1, l1, ok1 := codeParts(c1)
	_, b2, _, ok2 := codeParts(c2)
	if e1 != nil || e2 != nil || !ok1 || !ok2 {
		return // not code in lines
	}
	// one after the other; what is between keeps texts apart
	sep := []byte("<hr id=sep>")
	cs, _ := generate(kind, bytes.NewReader([]byte("<hr id=sep></hr>")))
	_, bs, _, oks := codeParts(cs)
	if kind == "svg" {
		sep = []byte("<hr id=sep></hr>")
	}
	if !oks {
		return
	}
	joined, err := generate(kind, bytes.NewReader(bytes.Join([][]byte{t1, t2}, sep)))
	if exp := h1 + b1 + bs + b2 + l1; err != nil || string(joined) != exp {
		c.Fail("the code of two documents put together is not that of the two", map[string]any{"kind": kind, "first": string(t1), "second": string(t2), "diff": diff([]byte(exp), joined)})
	}
	c.Count("joined", 1)
	// one within an element
	cw, _ := generate(kind, bytes.NewReader([]byte("<x-wrap a=b></x-wrap>")))
	hw, bw, lw, okw := codeParts(cw)
	i := strings.IndexByte(bw, '\n')
	if !okw || i < 0 || b1 == "" {
		return
	}
	wrapped, err := generate(kind, bytes.NewReader([]byte("<x-wrap a=b>"+string(t1)+"</x-wrap>")))
	inner := "\t" + strings.ReplaceAll(strings.TrimSuffix(b1, "\n"), "\n", "\n\t") + "\n"
	if exp := hw + bw[:i+1] + inner + bw[i+1:] + lw; err != nil || string(wrapped) != exp {
		c.Fail("the code of a document within an element is not that of the document", map[string]any{"kind": kind, "document": string(t1), "diff": diff([]byte(exp), wrapped)})
	}
	c.Count("wrapped", 1)
}

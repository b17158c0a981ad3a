package main

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"io/ioutil"
	"os"
	"strings"
)

// Documents come from and go to readers and writers of every kind.  What is
// read and written must not depend on the kind, nor on what the reader held
// before or the writer got before.

// onlyReader and onlyWriter hide every other method.
type onlyReader struct{ r io.Reader }

func (o onlyReader) Read(p []byte) (int, error) { return o.r.Read(p) }

type onlyWriter struct{ w io.Writer }

func (o onlyWriter) Write(p []byte) (int, error) { return o.w.Write(p) }

// richWriter offers more than it needs to; nobody but its owner may use that.
type richWriter struct {
	bytes.Buffer
	closed, reset int
}

func (w *richWriter) Close() error                        { w.closed++; return nil }
func (w *richWriter) Reset()                              { w.reset++; w.Buffer.Reset() }
func (w *richWriter) Truncate(n int)                      { w.reset++; w.Buffer.Truncate(n) }
func (w *richWriter) Flush() error                        { return nil }
func (w *richWriter) Sync() error                         { return nil }
func (w *richWriter) Seek(o int64, at int) (int64, error) { return int64(w.Len()), nil }

var readerKinds = []string{"bytes.Reader", "bytes.Buffer", "strings.Reader", "bufio.Reader", "small bufio.Reader", "Read only", "file", "io.LimitedReader", "io.MultiReader", "io.TeeReader", "io.SectionReader", "io.Pipe", "bytes.Reader after a prefix", "bytes.Buffer after a prefix", "strings.Reader after a prefix", "bufio.Reader after a prefix", "file after a prefix"}

const prefixText = "#%RAML 1.0 Library\nusage: another document\n"

// scratchFile makes a file that is gone once it is closed.
func scratchFile() *os.File {
	f, err := ioutil.TempFile("", "mon-io")
	if err != nil {
		mustf("%v", err)
	}
	if err := os.Remove(f.Name()); err != nil {
		mustf("%v", err)
	}
	return f
}

// readerOf gives a reader of a kind that delivers the text.
func readerOf(kind string, text []byte) (r io.Reader, done func()) {
	done = func() {}
	skip := func(r io.Reader) io.Reader {
		if _, err := io.ReadFull(r, make([]byte, len(prefixText))); err != nil {
			mustf("%v", err)
		}
		return r
	}
	whole := text
	if strings.HasSuffix(kind, "after a prefix") {
		whole = append([]byte(prefixText), text...)
	}
	switch kind {
	case "bytes.Reader":
		r = bytes.NewReader(text)
	case "bytes.Reader after a prefix":
		r = skip(bytes.NewReader(whole))
	case "bytes.Buffer":
		r = bytes.NewBuffer(append([]byte{}, text...))
	case "bytes.Buffer after a prefix":
		r = skip(bytes.NewBuffer(whole))
	case "strings.Reader":
		r = strings.NewReader(string(text))
	case "strings.Reader after a prefix":
		r = skip(strings.NewReader(string(whole)))
	case "bufio.Reader":
		r = bufio.NewReader(bytes.NewReader(text))
	case "bufio.Reader after a prefix":
		r = skip(bufio.NewReader(bytes.NewReader(whole)))
	case "small bufio.Reader":
		r = bufio.NewReaderSize(onlyReader{bytes.NewReader(text)}, 16)
	case "Read only":
		r = onlyReader{bytes.NewReader(text)}
	case "file", "file after a prefix":
		f := scratchFile()
		if _, err := f.Write(whole); err != nil {
			mustf("%v", err)
		}
		if _, err := f.Seek(int64(len(whole)-len(text)), io.SeekStart); err != nil {
			mustf("%v", err)
		}
		return f, func() { f.Close() }
	case "io.LimitedReader":
		r = io.LimitReader(io.MultiReader(bytes.NewReader(text), strings.NewReader("\n\t]")), int64(len(text)))
	case "io.MultiReader":
		var rs []io.Reader
		for i := 0; i < len(text); i += 1 + len(text)/5 {
			end := i + 1 + len(text)/5
			if end > len(text) {
				end = len(text)
			}
			rs = append(rs, bytes.NewReader(text[i:end]), strings.NewReader(""))
		}
		r = io.MultiReader(rs...)
	case "io.TeeReader":
		r = io.TeeReader(bytes.NewReader(text), ioutil.Discard)
	case "io.SectionReader":
		all := append(append([]byte(prefixText), text...), "\n\t]"...)
		r = io.NewSectionReader(bytes.NewReader(all), int64(len(prefixText)), int64(len(text)))
	case "io.Pipe":
		pr, pw := io.Pipe()
		end := make(chan struct{})
		go func() { pw.Write(text); pw.Close(); close(end) }()
		return pr, func() { pr.Close(); <-end }
	default:
		mustf("unknown kind of reader %s", kind)
	}
	return r, done
}

var writerKinds = []string{"bytes.Buffer", "bytes.Buffer in use", "strings.Builder", "strings.Builder in use", "bufio.Writer", "bufio.Writer in use", "small bufio.Writer", "Write only", "file", "file in use", "appended file", "overwritten file", "io.MultiWriter", "io.Pipe", "rich writer", "rich writer in use"}

// writeTo writes a document to a writer of a kind and gives what it got.
func writeTo(kind string, x interface{}) (got []byte, err error) {
	used := ""
	if strings.HasSuffix(kind, "in use") || kind == "appended file" {
		used = prefixText
	}
	write := func(w io.Writer) {
		if used != "" {
			io.WriteString(w, used)
		}
		err = x.(ramlWriter).WriteRAML(w)
	}
	rest := func(b []byte) []byte {
		if !bytes.HasPrefix(b, []byte(used)) {
			err = fmt.Errorf("what was written before is gone: %q", clip(b))
			return b
		}
		return b[len(used):]
	}
	switch kind {
	case "bytes.Buffer", "bytes.Buffer in use":
		var b bytes.Buffer
		write(&b)
		return rest(b.Bytes()), err
	case "strings.Builder", "strings.Builder in use":
		var b strings.Builder
		write(&b)
		return rest([]byte(b.String())), err
	case "bufio.Writer", "bufio.Writer in use", "small bufio.Writer":
		var b bytes.Buffer
		n := 4096
		if kind == "small bufio.Writer" {
			n = 16
		}
		w := bufio.NewWriterSize(onlyWriter{&b}, n)
		write(w)
		if e := w.Flush(); e != nil {
			mustf("%v", e)
		}
		return rest(b.Bytes()), err
	case "Write only":
		var b bytes.Buffer
		write(onlyWriter{&b})
		return b.Bytes(), err
	case "file", "file in use", "appended file", "overwritten file":
		f := scratchFile()
		defer f.Close()
		switch kind {
		case "overwritten file":
			// Longer content from before, the writer stands at the start.
			f.Write(bytes.Repeat([]byte("old"), 1000))
			f.Seek(0, io.SeekStart)
		}
		write(f)
		end, e := f.Seek(0, io.SeekCurrent)
		if e != nil {
			return nil, fmt.Errorf("the file cannot be used any more: %v", e)
		}
		f.Seek(0, io.SeekStart)
		b, e := ioutil.ReadAll(f)
		if e != nil {
			mustf("%v", e)
		}
		if kind == "overwritten file" && int64(len(b)) > end {
			b = b[:end]
		}
		return rest(b), err
	case "io.MultiWriter":
		var a, b bytes.Buffer
		write(io.MultiWriter(&a, onlyWriter{&b}))
		if !bytes.Equal(a.Bytes(), b.Bytes()) && err == nil {
			err = fmt.Errorf("two writers got different texts")
		}
		return a.Bytes(), err
	case "io.Pipe":
		pr, pw := io.Pipe()
		out := make(chan []byte)
		go func() {
			b, _ := ioutil.ReadAll(pr)
			out <- b
		}()
		func() {
			defer pw.Close()
			write(pw)
		}()
		return <-out, err
	case "rich writer", "rich writer in use":
		var w richWriter
		write(&w)
		if (w.closed > 0 || w.reset > 0) && err == nil {
			err = fmt.Errorf("the writer was closed %d times and reset %d times", w.closed, w.reset)
		}
		return rest(w.Bytes()), err
	}
	mustf("unknown kind of writer %s", kind)
	return nil, nil
}

// allKinds reads and writes a document in every way.
func readerWriterKinds(c *Case, lib bool, text, full []byte, x interface{}) bool {
	for _, k := range writerKinds {
		out, err := writeTo(k, x)
		if !c.Check(err == nil && bytes.Equal(out, full), "written to a %s the text differs (error %v):\n%s\n---\n%s", k, err, clip(full), clip(out)) {
			return false
		}
		c.See("writer: " + k)
	}
	// Two documents one after the other.
	var b bytes.Buffer
	for i := 0; i < 2; i++ {
		if err := x.(ramlWriter).WriteRAML(&b); !c.Check(err == nil, "writing twice to one buffer: %v", err) {
			return false
		}
	}
	if !c.Check(b.String() == string(full)+string(full), "two documents written to one buffer differ from the same ones written separately:\n%s", clip(b.Bytes())) {
		return false
	}
	for _, k := range readerKinds {
		if !readKind(c, k, lib, text, full) {
			return false
		}
	}
	return true
}

func readKind(c *Case, kind string, lib bool, text, full []byte) bool {
	r, done := readerOf(kind, text)
	defer done()
	x, err := parseDoc(lib, r)
	c.See("reader: " + kind)
	if !c.Check(err == nil && x != nil, "a legal document is refused when it comes from a %s: %v", kind, err) {
		return false
	}
	out, err := writeDoc(x)
	return c.Check(err == nil && bytes.Equal(out, full), "the document differs when it comes from a %s: %v\n%s\n---\n%s", kind, err, clip(full), clip(out))
}

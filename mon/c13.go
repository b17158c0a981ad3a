package main

import (
	"bufio"
	"bytes"
	"crypto/sha256"
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"strconv"

	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
	"gopkg.in/yaml.v3"
)

// C13: determinism and fixpoint.

func (g *Gen) anyDoc(c *Case, lib bool) *yaml.Node {
	switch g.r.Intn(6) {
	case 0:
		return g.typesOnly(c)
	case 1:
		return g.freeform(lib)
	case 2:
		return g.exampleDoc(c)
	}
	if lib {
		return g.lib()
	}
	return g.api()
}

func init() {
	register(&Check{
		id: "C13", quick: 5000, thorough: 250000, assume: []string{yamlTrust},
		rule: "random documents, parsed and assembled; the bytes of repeated writes, of repeated parses of one text and of the same assembly repeated must be equal, the text written must reproduce itself when read and written, and other processes must produce the same digests; distinct by source text",
		fn: func(c *Case) {
			if c.Idx%1000 == 3 {
				acrossProcesses(c)
				return
			}
			lib := c.R.Intn(2) == 0
			d := c.gen(lib, func(g *Gen) *yaml.Node { return g.anyDoc(c, lib) })
			x, ok := c.accepted(d)
			if !ok {
				return
			}
			out, ok := c.written(x)
			if !ok {
				return
			}
			for i := 0; i < 2; i++ {
				again, ok := c.written(x)
				if !ok || !c.Check(bytes.Equal(out, again), "write %d of the same document differs:\n%s\n---\n%s", i+2, out, again) {
					return
				}
				y, ok := c.accepted(d)
				if !ok {
					return
				}
				again, ok = c.written(y)
				if !ok || !c.Check(bytes.Equal(out, again), "the document parsed again from the same text is written differently:\n%s\n---\n%s", out, again) {
					return
				}
			}
			c.Count("writes compared byte for byte", 5)
			z, err := parseText(lib, out)
			if err != nil || z == nil {
				c.Violate("what was written is refused: %v\n%s", err, out)
				return
			}
			if again, ok := c.written(z); ok {
				c.Check(bytes.Equal(out, again), "reading what was written and writing it again gives another text:\n%s\n---\n%s", out, again)
			}
			types(x, func(t interface{}) {
				a, e1 := t.(raml.DataType).ToRAML()
				b, e2 := t.(raml.DataType).ToRAML()
				c.Check(e1 == nil && e2 == nil && a == b, "ToRAML gives %v %v\n%s\n---\n%s", e1, e2, a, b)
			})
			if c.R.Intn(3) == 0 && !sameTwice(c, x) {
				return
			}
			// The same assembly, repeated.
			var first []byte
			seed := c.R.Int63()
			for i := 0; i < 3; i++ {
				b := newBuilder(rand.New(rand.NewSource(seed)))
				b.goMaps = true
				text, ok := c.written(b.document(lib, d.want))
				if !ok {
					return
				}
				if i > 0 && !c.Check(bytes.Equal(first, text), "the same assembly is written differently:\n%s\n---\n%s", first, text) {
					return
				}
				first = text
			}
			b := newBuilder(rand.New(rand.NewSource(seed)))
			b.goMaps = true
			if c.R.Intn(3) == 0 && !sameTwice(c, b.document(lib, d.want)) {
				return
			}
			c.Count("assemblies compared byte for byte", 3)
		},
	})
}

// sameTwice gives the parts of a document to the YAML and JSON libraries.
func sameTwice(c *Case, x interface{}) bool {
	for _, o := range reach(x) {
		switch {
		case !isContainer(o):
			continue
		case has(o, "SerializeOrdered") && c.R.Intn(6) == 0:
			call(o, "SerializeOrdered", true)
		}
		a, e1 := yaml.Marshal(o)
		for i := 0; i < 2; i++ {
			b, e2 := yaml.Marshal(o)
			if !c.Check((e1 == nil) == (e2 == nil) && bytes.Equal(a, b), "yaml.Marshal of one %T gives %v %v\n%s\n---\n%s", o, e1, e2, a, b) {
				return false
			}
		}
		a, e1 = json.Marshal(o)
		b, e2 := json.Marshal(o)
		if !c.Check((e1 == nil) == (e2 == nil) && bytes.Equal(a, b), "json.Marshal of one %T gives %v %v\n%s\n---\n%s", o, e1, e2, a, b) {
			return false
		}
		c.Count("containers compared byte for byte", 1)
	}
	return true
}

// types visits the root types of a document.
func types(x interface{}, f func(t interface{})) {
	m := call(x, "Types")
	for i, n := 0, call(m, "Len").(int); i < n; i++ {
		f(field(call(m, "At", i), "Val"))
	}
}

const digestDocs = 120

func acrossProcesses(c *Case) {
	seed := c.R.Int63()
	var want bytes.Buffer
	writeDigests(&want, seed, digestDocs)
	for i := 0; i < 2; i++ {
		got, err := exec.Command(os.Args[0], "digest", "-seed", strconv.FormatInt(seed, 10), "-n", strconv.Itoa(digestDocs)).Output()
		if err != nil {
			mustf("digest process: %v", err)
		}
		c.Check(bytes.Equal(want.Bytes(), got), "another process gets other results, seed %d: %s", seed, firstDiff(want.Bytes(), got))
		c.Count("documents compared between processes", digestDocs)
	}
	c.Distinct(fmt.Sprint("process ", seed))
}

func firstDiff(a, b []byte) string {
	x, y := bytes.Split(a, []byte("\n")), bytes.Split(b, []byte("\n"))
	for i := 0; i < len(x) && i < len(y); i++ {
		if !bytes.Equal(x[i], y[i]) {
			return fmt.Sprintf("document %d: %s / %s", i, x[i], y[i])
		}
	}
	return fmt.Sprintf("%d and %d documents", len(x), len(y))
}

// digestDoc generates a document, one in five with a wrong value.
func digestDoc(c *Case, lib bool, i int) *Doc {
	d := c.gen(lib, func(g *Gen) *yaml.Node { return g.anyDoc(c, lib) })
	if i%5 == 4 {
		// A text that is likely to be refused.
		ss := sites(lib, d.node)
		if len(ss) > 0 {
			s := ss[c.R.Intn(len(ss))]
			s.parent.Content[s.idx] = newGen(c.R).free(2)
			if t, err := encode(d.node, 2); err == nil {
				d.text = append([]byte(apiHead+"\n"), t...)
			}
		}
	}
	return d
}

func digestOf(seed int64, i int) (out string) {
	defer func() {
		if e := recover(); e != nil {
			out = "panic"
		}
	}()
	c := &Case{R: rand.New(rand.NewSource(caseSeed("digest", seed, i))), Idx: i, rep: newReport()}
	lib := i%2 == 0
	d := digestDoc(c, lib, i)
	x, err := parseText(lib, d.text)
	if err != nil {
		return fmt.Sprintf("refused, document %v", x != nil)
	}
	text, err := writeDoc(x)
	res := fmt.Sprintf("obs %s write %s %v", sum([]byte(obsDocument(x).String())), sum(text), err == nil)
	if i%5 != 4 {
		b := newBuilder(rand.New(rand.NewSource(c.R.Int63())))
		b.goMaps = true
		y := b.document(lib, d.want)
		text, err = writeDoc(y)
		res += fmt.Sprintf(" built %s %v", sum(text), err == nil)
	}
	return res
}

func sum(b []byte) string { return fmt.Sprintf("%x", sha256.Sum256(b))[:24] }

// digest prints the digests of generated documents.
func digest() {
	fs := flag.NewFlagSet("digest", flag.ExitOnError)
	seed := fs.Int64("seed", 1, "")
	n := fs.Int("n", 100, "")
	fs.Parse(os.Args[2:])
	w := bufio.NewWriter(os.Stdout)
	defer w.Flush()
	var b bytes.Buffer
	writeDigests(&b, *seed, *n)
	w.Write(b.Bytes())
}

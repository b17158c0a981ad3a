package main

import (
	"bytes"
	"fmt"
	"strings"
)

// Documents of many megabytes.  They are written as text and compared by the
// same independent reader as all others.

// A hugeDoc is large in length or in entries, with something small at the end.
func hugeDoc(c *Case, lib bool) *Doc {
	var b bytes.Buffer
	head := apiHead + "\ntitle: huge\n"
	if lib {
		head = libHead + "\nusage: huge\n"
	}
	b.WriteString(head)
	mb := []int{3, 5, 9, 17, 18, 33}[c.R.Intn(6)]
	if c.Tier == "thorough" {
		mb = []int{3, 5, 9, 17, 33, 35, 65, 68}[c.R.Intn(8)]
	}
	what := []string{"one text", "texts", "entries", "types"}[c.R.Intn(4)]
	words := func(i, n int) string {
		var t strings.Builder
		for j := 0; t.Len() < n; j++ {
			fmt.Fprintf(&t, "w%d.%d ", i, j)
		}
		return strings.TrimSpace(t.String())
	}
	switch what {
	case "one text":
		fmt.Fprintf(&b, "x-text: \"%s\"\n", words(0, mb<<20))
	case "texts":
		b.WriteString("types:\n")
		n := 4 + c.R.Intn(60)
		for i := 0; i < n; i++ {
			fmt.Fprintf(&b, "  T%d:\n    type: string\n    description: \"%s\"\n", i, words(i, (mb<<20)/n))
		}
	case "entries":
		if mb > 9 {
			mb = 9 // the YAML library takes long for many nodes
		}
		b.WriteString("traits:\n")
		for i := 0; b.Len() < mb<<20; i++ {
			fmt.Fprintf(&b, "  entry number %d of a very long list of traits: value %d of the list\n", i, i)
		}
	case "types":
		if mb > 5 {
			mb = 5
		}
		b.WriteString("types:\n")
		for i := 0; b.Len() < mb<<20; i++ {
			fmt.Fprintf(&b, "  T%d: {type: string, minLength: %d, description: \"text %d\"}\n", i, i+1, i)
		}
	}
	b.WriteString("annotationTypes:\n  last: string\nuses:\n  end: of document\nzz: {a: [1, 2], b: end}\n")
	want, err := canonText(lib, b.Bytes())
	if err != nil {
		mustf("%v", err)
	}
	c.Input(b.Bytes()[:len(head)])
	c.See("huge document: " + what)
	c.Count("bytes of RAML", b.Len())
	c.Count("huge documents", 1)
	c.Distinct(fmt.Sprintf("huge %d %d", c.Idx, b.Len()))
	return &Doc{lib: lib, text: b.Bytes(), want: want}
}

// isHuge tells whether a case is one of the huge ones.
func (c *Case) isHuge() bool {
	every := 4000
	if c.Tier == "thorough" {
		every = 14000
	}
	return c.Idx%every == every/2
}

func huge(c *Case, lib bool) {
	d := hugeDoc(c, lib)
	x, err := parseText(lib, d.text)
	if err != nil || x == nil {
		c.Violate("a legal document of %d bytes is refused: %v", len(d.text), err)
		return
	}
	out, err := writeDoc(x)
	if err != nil {
		c.Violate("writing a document of %d bytes fails: %v", len(d.text), err)
		return
	}
	got, err := canonText(lib, out)
	if err != nil {
		c.Violate("a written document of %d bytes is no YAML: %v", len(out), err)
		return
	}
	if c.Same(fmt.Sprintf("written document (source of %d bytes)", len(d.text)), d.want, got) {
		if s := added("", d.want, got); s != "" {
			c.Check(false, "written document: %s", s)
		}
	}
}

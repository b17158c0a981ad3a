package main

import (
	"bytes"
	"fmt"
	"io"
	"math/rand"

	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rparse"
	"gopkg.in/yaml.v3"
)

// parseDoc calls the parser under test.
func parseDoc(lib bool, r io.Reader) (interface{}, error) {
	if lib {
		l, err := rparse.ParseLibrary(r)
		if isNilAny(l) {
			return nil, err
		}
		return l, err
	}
	a, err := rparse.ParseApiDoc(r)
	if isNilAny(a) {
		return nil, err
	}
	return a, err
}

func parseText(lib bool, text []byte) (interface{}, error) {
	return parseDoc(lib, bytes.NewReader(text))
}

type ramlWriter interface{ WriteRAML(io.Writer) error }

func writeDoc(x interface{}) ([]byte, error) {
	var b bytes.Buffer
	err := x.(ramlWriter).WriteRAML(&b)
	return b.Bytes(), err
}

func obsDocument(x interface{}) *V {
	switch d := x.(type) {
	case raml.APISpec:
		return obsAPI(d)
	case raml.Library:
		return obsLib(d)
	}
	return badV("%T", x)
}

// canonText reads written RAML without the library.
func canonText(lib bool, text []byte) (*V, error) {
	n, err := docNode(text)
	if err != nil {
		return nil, err
	}
	return canonRoot(lib, n), nil
}

// accepted parses a legal document, reporting a violation if the parser
// refuses it.
func (c *Case) accepted(d *Doc) (interface{}, bool) {
	kind := ""
	x, err := interface{}(nil), error(nil)
	if c.R.Intn(12) == 0 {
		kind = readerKinds[c.R.Intn(len(readerKinds))]
		c.See("reader: " + kind)
		r, done := readerOf(kind, d.text)
		x, err = parseDoc(d.lib, r)
		done()
	} else {
		x, err = parseText(d.lib, d.text)
	}
	if err != nil || x == nil {
		c.Violate("a legal document is refused: document %T, error %v, reader %q", x, err, kind)
		return nil, false
	}
	return x, true
}

// written writes a document that has to be writable.
func (c *Case) written(x interface{}) ([]byte, bool) {
	if c.R.Intn(12) == 0 {
		kind := writerKinds[c.R.Intn(len(writerKinds))]
		c.See("writer: " + kind)
		out, err := writeTo(kind, x)
		return out, c.Check(err == nil, "writing to a %s fails: %v", kind, err)
	}
	out, err := writeDoc(x)
	if err != nil {
		c.Violate("writing fails: %v", err)
		return nil, false
	}
	return out, true
}

// sameText reports a violation unless the text has the given meaning.
func (c *Case) sameText(what string, lib bool, want *V, text []byte) bool {
	got, err := canonText(lib, text)
	if err != nil {
		c.Violate("%s: the text is no YAML: %v\n%s", what, err, clip(text))
		return false
	}
	ok := c.Same(what, want, got)
	if ok {
		if d := added("", want, got); d != "" {
			ok = c.Check(false, "%s: %s", what, d)
		}
	}
	if !ok {
		c.in = append(append(append([]byte{}, c.in...), "\n--- written\n"...), text...)
		return false
	}
	return true
}

func clip(b []byte) string {
	if len(b) > 2000 {
		return string(b[:2000]) + "..."
	}
	return string(b)
}

// gen generates the document of a case and accounts for it.
func (c *Case) gen(lib bool, f func(g *Gen) *yaml.Node) *Doc {
	dropped := 0
	d := genDoc(c.R, lib, f, &dropped)
	c.Count("generated documents the YAML library cannot carry (discarded)", dropped)
	c.Input(d.text)
	c.Seen(d.seen)
	c.Distinct(string(d.text))
	c.Count("bytes of RAML", len(d.text))
	return d
}

// A site is a node of a document with the meaning it has there.
type site struct {
	parent *yaml.Node
	idx    int    // of the node in parent.Content
	class  string // value class, or a structural class
	kind   string // kind of the enclosing declaration
	name   string // name of the facet
	depth  int    // declarations around the node
}

func (s site) node() *yaml.Node { return s.parent.Content[s.idx] }

// walker visits the modelled nodes of a document.
type walker struct {
	visit func(s site)
}

func (w walker) pairs(n *yaml.Node, f func(k *yaml.Node, i int)) {
	if n.Kind != yaml.MappingNode {
		return
	}
	for i := 0; i+1 < len(n.Content); i += 2 {
		f(n.Content[i], i+1)
	}
}

func (w walker) root(lib bool, root *yaml.Node) {
	w.pairs(root, func(k *yaml.Node, i int) {
		at := func(class string) { w.visit(site{root, i, class, "", k.Value, 0}) }
		v := root.Content[i]
		switch {
		case !isStr(k):
			return
		case isAnn(k):
			at("annotation")
			return
		}
		switch k.Value {
		case "usage":
			if lib {
				at("str")
			}
		case "title", "version", "baseUri", "description":
			if !lib {
				at("str")
			}
		case "protocols", "securedBy":
			if !lib {
				at("strs")
			}
		case "mediaType":
			if !lib {
				at("mediaType")
			}
		case "documentation":
			if lib {
				return
			}
			at("documentation")
			for j, e := range v.Content {
				w.visit(site{v, j, "docentry", "", k.Value, 0})
				w.pairs(e, func(k *yaml.Node, m int) {
					if k.Value == "title" || k.Value == "content" {
						w.visit(site{e, m, "str", "", "documentation." + k.Value, 0})
					}
				})
			}
		case "baseUriParameters":
			if !lib {
				at("section")
			}
		case "securitySchemes", "traits", "annotationTypes", "resourceTypes":
			at("section")
		case "uses":
			at("uses")
			w.pairs(v, func(k *yaml.Node, j int) { w.visit(site{v, j, "str", "", "uses.entry", 0}) })
		case "types", "schemas":
			at("types")
			w.decls(v, 1)
		}
	})
}

func (w walker) decls(n *yaml.Node, depth int) {
	w.pairs(n, func(k *yaml.Node, j int) { w.decl(n, j, depth) })
}

func (w walker) decl(parent *yaml.Node, idx, depth int) {
	n := parent.Content[idx]
	kind, _ := classify(n)
	w.visit(site{parent, idx, "decl", kind, "", depth})
	if n.Kind != yaml.MappingNode {
		return
	}
	w.pairs(n, func(k *yaml.Node, i int) {
		v := n.Content[i]
		at := func(class string) { w.visit(site{n, i, class, kind, k.Value, depth}) }
		switch k.Value {
		case "type", "schema":
			at("typename")
			return
		case "required":
			at("bool")
			return
		}
		if kind == "nil" || kind == "include" {
			return
		}
		if f, ok := facetOf(kind, k.Value); ok {
			switch f.class {
			case "type":
				w.decl(n, i, depth+1)
			case "props":
				at("props")
				w.decls(v, depth+1)
			default:
				at(f.class)
			}
			return
		}
		switch k.Value {
		case "displayName", "description":
			at("str")
		case "default":
			at(valueClass[kind])
		case "enum":
			at("enum")
			for j := range v.Content {
				w.visit(site{v, j, enumClass(kind), kind, "enum.value", depth})
			}
		case "example":
			w.example(n, i, kind, depth)
		case "examples":
			at("examples")
			w.pairs(v, func(k *yaml.Node, j int) { w.example(v, j, kind, depth) })
		case "facets":
			at("facets")
			w.pairs(v, func(k *yaml.Node, j int) {
				w.visit(site{v, j, "facetdef", kind, k.Value, depth})
				w.decls(v.Content[j], depth+1)
			})
		case "xml":
			at("xml")
			w.pairs(v, func(k *yaml.Node, j int) {
				switch k.Value {
				case "attribute", "wrapped":
					w.visit(site{v, j, "bool", kind, "xml." + k.Value, depth})
				case "name", "namespace", "prefix":
					w.visit(site{v, j, "str", kind, "xml." + k.Value, depth})
				}
			})
		default:
			if isAnn(k) {
				at("annotation")
			}
		}
	})
}

func (w walker) example(parent *yaml.Node, idx int, kind string, depth int) {
	n := parent.Content[idx]
	cl := valueClass[kind]
	w.visit(site{parent, idx, "example", kind, "", depth})
	if !expanded(cl, n) {
		w.visit(site{parent, idx, cl, kind, "example.plain", depth})
		return
	}
	w.pairs(n, func(k *yaml.Node, j int) {
		at := func(class string) { w.visit(site{n, j, class, kind, "example." + k.Value, depth}) }
		if !isStr(k) {
			return
		}
		switch k.Value {
		case "value":
			at(cl)
		case "displayName", "description":
			at("str")
		case "strict":
			at("bool")
		default:
			if isAnn(k) {
				at("annotation")
			}
		}
	})
}

func sites(lib bool, root *yaml.Node) []site {
	var out []site
	walker{func(s site) { out = append(out, s) }}.root(lib, root)
	return out
}

// copyNode copies a tree of nodes.
func copyNode(n *yaml.Node) *yaml.Node {
	if n == nil {
		return nil
	}
	out := *n
	out.Content = nil
	for _, c := range n.Content {
		out.Content = append(out.Content, copyNode(c))
	}
	return &out
}

// sub derives an independent source of random numbers.
func sub(r *rand.Rand) *rand.Rand { return rand.New(rand.NewSource(r.Int63())) }

func mustf(format string, a ...interface{}) { panic("harness: " + fmt.Sprintf(format, a...)) }

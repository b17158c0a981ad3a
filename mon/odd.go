package main

import (
	"strings"

	"gopkg.in/yaml.v3"
)

// A place is any node of a document, modelled or not.
type place struct {
	parent *yaml.Node
	idx    int
	key    bool
	path   string // the keys above it, names apart
}

func places(root *yaml.Node) []place {
	var out []place
	var walk func(n *yaml.Node, path string)
	walk = func(n *yaml.Node, path string) {
		for i, k := range n.Content {
			p := place{n, i, n.Kind == yaml.MappingNode && i%2 == 0, path}
			sub := path
			if n.Kind == yaml.MappingNode {
				name := n.Content[i&^1].Value
				switch {
				case isAnn(n.Content[i&^1]):
					name = "(annotation)"
				case strings.HasPrefix(name, "/"):
					name = "/resource"
				case !knownWords[name]:
					name = "*"
				}
				p.path = lastTwo(path) + "/" + name
				sub = p.path
			}
			out = append(out, p)
			walk(k, sub)
		}
	}
	walk(root, "")
	return out
}

func lastTwo(path string) string {
	l := strings.Split(path, "/")
	if len(l) > 3 {
		return "/..." + "/" + strings.Join(l[len(l)-2:], "/")
	}
	return path
}

var knownWords = func() map[string]bool {
	out := map[string]bool{}
	for _, l := range [][]string{apiKnown, libKnown, {"title", "content", "value", "strict", "attribute", "wrapped", "name", "namespace", "prefix"}} {
		for _, w := range l {
			out[w] = true
		}
	}
	for _, k := range allKinds {
		for _, f := range kindFacets[k] {
			out[f.name] = true
		}
	}
	for _, w := range []string{"type", "schema", "required", "displayName", "description", "default", "enum", "example", "examples", "facets", "xml"} {
		out[w] = true
	}
	return out
}()

// oddValue is a value that may or may not fit.
func (g *Gen) oddValue() *yaml.Node {
	switch g.r.Intn(12) {
	case 0, 1:
		return g.badInt()
	case 2:
		return g.badFloat()
	case 3:
		return g.badBool()
	case 4:
		return g.badTime()
	case 5:
		return g.badNull()
	case 6:
		return g.badStr()
	case 7, 8:
		return g.badList()
	case 9, 10:
		return g.badMap()
	}
	n := g.seq()
	n.Content = append(n.Content, g.badMap(), g.badList())
	return n
}

// oddNode replaces any node of the document, modelled or not: the text must
// be refused, or all of it kept.
func oddNode(c *Case, lib bool, root *yaml.Node, g *Gen) {
	// Rare paths get their share.
	by := map[string][]place{}
	var paths []string
	for _, p := range places(root) {
		k := p.path
		if p.key {
			k += " key"
		}
		if by[k] == nil {
			paths = append(paths, k)
		}
		by[k] = append(by[k], p)
	}
	if len(paths) == 0 {
		return
	}
	path := paths[c.R.Intn(len(paths))]
	p := by[path][c.R.Intn(len(by[path]))]
	old := p.parent.Content[p.idx]
	odd := g.oddValue()
	alt := odd
	if p.key {
		alt = odd
		if odd.Kind == yaml.ScalarNode {
			for i := 0; i < len(p.parent.Content); i += 2 {
				if p.parent.Content[i].Value == odd.Value {
					return
				}
			}
			alt = sc("!!str", odd.Value, yaml.DoubleQuotedStyle)
		}
	}
	var texts [2][]byte
	for i, n := range []*yaml.Node{odd, alt} {
		p.parent.Content[p.idx] = n
		raw, err := encode(copyNode(root), 2)
		p.parent.Content[p.idx] = old
		if err != nil {
			return
		}
		head := apiHead
		if lib {
			head = libHead
		}
		texts[i] = append([]byte(head+"\n"), raw...)
	}
	as, err1 := canonText(lib, texts[0])
	asStr, err2 := canonText(lib, texts[1])
	if err1 != nil || err2 != nil {
		return
	}
	c.Input(texts[0])
	c.Distinct(string(texts[0]))
	x, err := parseText(lib, texts[0])
	if err != nil {
		c.Check(x == nil, "a document comes with the error %v", err)
		c.Count("odd nodes refused", 1)
		return
	}
	c.Count("odd nodes accepted", 1)
	c.See("odd node accepted at " + path)
	out, ok := c.written(x)
	if !ok {
		return
	}
	got, err := canonText(lib, out)
	if err != nil {
		c.Violate("the text is no YAML: %v", err)
		return
	}
	d := diff("", as, got)
	c.Check(d == "" || diff("", asStr, got) == "", "%s given as %s is accepted but not kept: %s", path, short(free(odd)), d)
}

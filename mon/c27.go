package main

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rbuild"
	"gopkg.in/yaml.v3"
)

// C27: nodes read by themselves.

// indexPath finds the way from a root down to a node.
func indexPath(root, n *yaml.Node) ([]int, bool) {
	if root == n {
		return nil, true
	}
	for i, c := range root.Content {
		if p, ok := indexPath(c, n); ok {
			return append([]int{i}, p...), true
		}
	}
	return nil, false
}

func follow(root *yaml.Node, path []int) *yaml.Node {
	for _, i := range path {
		if i >= len(root.Content) {
			return nil
		}
		root = root.Content[i]
	}
	return root
}

// dump renders a node completely.
func dump(n *yaml.Node) string {
	var s strings.Builder
	var walk func(n *yaml.Node)
	walk = func(n *yaml.Node) {
		fmt.Fprintf(&s, "(%d %d %q %q %q %q %q %q %d %d", n.Kind, n.Style, n.Tag, n.Value, n.Anchor, n.HeadComment, n.LineComment, n.FootComment, n.Line, n.Column)
		for _, c := range n.Content {
			walk(c)
		}
		s.WriteByte(')')
	}
	walk(n)
	return s.String()
}

// reader gives a new object that reads what stands at a site, what it then
// has to report, and how to see what it reports.
func (b *builder) reader(s site, n *yaml.Node) (x interface{}, want *V, obs func() *V, ok bool) {
	switch s.class {
	case "decl":
		if n.Kind != yaml.MappingNode && !isStr(n) && n.Tag != "!include" {
			return nil, nil, nil, false
		}
		kind, _ := classify(n)
		if kind == "!BAD" {
			return nil, nil, nil, false
		}
		x = b.newType(kind)
		return x, noXMLExtra(canonType(n)), func() *V { return obsType(x) }, true
	case "example":
		x = newExample(s.kind)
		return x, canonExample(valueClass[s.kind], n), func() *V { return obsExample(s.kind, x) }, true
	case "docentry":
		x = b.doc(rec().set("title", str("")).set("content", str("")))
		return x, canonDoc(n), func() *V { return obsDoc(x.(raml.Documentation)) }, true
	}
	return nil, nil, nil, false
}

func readAlone(c *Case) {
	lib := c.R.Intn(2) == 0
	d := c.gen(lib, func(g *Gen) *yaml.Node {
		if g.p(1, 4) {
			return g.exampleDoc(c)
		}
		return g.anyDoc(c, lib)
	})
	doc, ok := c.accepted(d)
	if !ok {
		return
	}
	wholeAlone(c, d, doc)
	var own []site
	all := sites(lib, d.node)
	for _, s := range all {
		switch s.class {
		case "decl", "example", "docentry":
			own = append(own, s)
		}
	}
	if len(own) == 0 {
		return
	}
	head := apiHead + "\n"
	if lib {
		head = libHead + "\n"
	}
	root, err := docNode(d.text)
	if err != nil {
		return
	}
	b := newBuilder(sub(c.R))
	g := newGen(sub(c.R))
	for i := 0; i < 6 && !c.fail; i++ {
		// Rare kinds get their share.
		by := map[string][]site{}
		var classes []string
		for _, s := range own {
			k := s.class + " " + s.kind
			if by[k] == nil {
				classes = append(classes, k)
			}
			by[k] = append(by[k], s)
		}
		class := classes[c.R.Intn(len(classes))]
		s := by[class][c.R.Intn(len(by[class]))]
		path, ok := indexPath(d.node, s.node())
		if !ok {
			mustf("a site is not in its document")
		}
		n := follow(root, path)
		x, want, obs, ok := b.reader(s, n)
		if !ok {
			continue
		}
		before := dump(n)
		text, _ := encode(copyNode(n), 2)
		c.Input(append([]byte(class+"\n"), text...))
		c.Distinct(class + string(text))
		c.See("read alone: " + class)
		if err := x.(raml.Unmarshaler).UnmarshalRAML(n); err != nil {
			c.Violate("a %s that is accepted inside a document is refused by itself: %v", class, err)
			continue
		}
		c.Count("nodes read by themselves", 1)
		c.Same("a "+class+" read by itself", want, obs())
		c.Check(dump(n) == before, "reading a %s by itself changes the node it is read from", class)
		if kind, ok := want.get("kind"), s.class == "decl"; ok && kind != nil {
			out, err := x.(raml.DataType).ToRAML()
			if !c.Check(err == nil, "a %s read by itself cannot be written: %v", class, err) {
				continue
			}
			back, err := docNode([]byte(out))
			if c.Check(err == nil, "a %s read by itself is written as no YAML: %v", class, err) {
				c.Same("a "+class+" read and written by itself", want, noXMLExtra(canonTypeAs(back, kind.S, want.get("type").S)))
			}
			c.Check(dump(n) == before, "writing a %s read by itself changes the node it was read from", class)
		}
		wrongAlone(c, g, b, d, s, class, path, all, head)
	}
}

// wrongAlone damages a node: reading it by itself must fail exactly if reading
// the document does.
func wrongAlone(c *Case, g *Gen, b *builder, d *Doc, s site, class string, path []int, all []site, head string) {
	var inner []site
	for _, t := range all {
		if p, ok := indexPath(s.node(), t.node()); ok && (len(p) > 0 || t.class == s.class) {
			inner = append(inner, t)
		}
	}
	if len(inner) == 0 {
		return
	}
	t := inner[c.R.Intn(len(inner))]
	if g.p(1, 4) {
		t = s
	}
	bad, what := g.wrong(t)
	if bad == nil {
		return
	}
	if g.p(1, 6) {
		bad, what = g.oddValue(), "odd value"
	}
	old := t.parent.Content[t.idx]
	t.parent.Content[t.idx] = bad
	text, err := encode(copyNode(d.node), 2)
	t.parent.Content[t.idx] = old
	if err != nil {
		return
	}
	text = append([]byte(head), text...)
	root, err := docNode(text)
	if err != nil {
		return
	}
	n := follow(root, path)
	if n == nil {
		return
	}
	_, inDoc := parseText(d.lib, text)
	var x interface{}
	switch s.class {
	case "decl":
		kind, _ := classify(n)
		if kind == "!BAD" {
			kind = s.kind
			if kind == "" {
				kind = "string"
			}
		} else if n.Kind != yaml.MappingNode && !isStr(n) && n.Tag != "!include" {
			return // null stands for a type only inside a document
		}
		x = b.newType(kind)
	case "example":
		x = newExample(s.kind)
	default:
		x = b.doc(rec().set("title", str("")).set("content", str("")))
	}
	small, _ := encode(copyNode(n), 2)
	c.Input(append([]byte(class+" (damaged)\n"), small...))
	before := dump(n)
	alone := x.(raml.Unmarshaler).UnmarshalRAML(n)
	c.Count("damaged nodes read by themselves", 1)
	if alone != nil {
		c.Count("damaged nodes refused", 1)
	}
	c.See("damaged: " + class + " with a " + t.class + " as " + what)
	c.Check((alone != nil) == (inDoc != nil), "a %s with %s %s as %s: by itself %v, in its document %v", class, t.class, t.name, what, alone, inDoc)
	c.Check(dump(n) == before, "reading a damaged %s by itself changes the node it is read from", class)
}

// wholeAlone reads a whole document through the YAML library.
func wholeAlone(c *Case, d *Doc, doc interface{}) {
	mk := func() interface{} {
		if d.lib {
			return rbuild.NewLibrary()
		}
		return rbuild.NewAPISpec()
	}
	want := obsDocument(doc)
	routes := []struct {
		name string
		f    func(x interface{}) error
	}{
		{"yaml.Unmarshal", func(x interface{}) error { return yaml.Unmarshal(d.text, x) }},
		{"yaml.Decoder", func(x interface{}) error { return yaml.NewDecoder(bytes.NewReader(d.text)).Decode(x) }},
		{"UnmarshalYAML", func(x interface{}) error {
			n, err := docNode(d.text)
			if err != nil {
				return err
			}
			before := dump(n)
			err = x.(yaml.Unmarshaler).UnmarshalYAML(n)
			c.Check(dump(n) == before, "UnmarshalYAML changes the node it is given")
			return err
		}},
		{"Node.Decode", func(x interface{}) error {
			n, err := docNode(d.text)
			if err != nil {
				return err
			}
			return n.Decode(x)
		}},
	}
	r := routes[c.R.Intn(len(routes))]
	x := mk()
	c.Input(d.text)
	if !c.Check(r.f(x) == nil, "%s refuses a document that is accepted as a whole", r.name) {
		return
	}
	c.See("whole document: " + r.name)
	c.Count("whole documents read through the YAML library", 1)
	if !c.Same("a document read by "+r.name, want, obsDocument(x)) {
		return
	}
	out, ok := c.written(x)
	if ok {
		c.sameText("a document read by "+r.name+" and written", d.lib, d.want, out)
	}
}

func init() {
	register(&Check{
		id: "C27", quick: 5000, thorough: 250000, assume: []string{yamlTrust},
		rule: "types, examples and documentation entries of random documents, sound and damaged, read by themselves through UnmarshalRAML, and whole documents read through the YAML library; what they report and whether they are refused is compared with the independent reading of the node and with the document; distinct by node text",
		fn:   readAlone,
	})
}

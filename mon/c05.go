package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
	"gopkg.in/yaml.v3"
)

// C05: examples.  C07: kinds.

func init() {
	register(&Check{
		id: "C05", quick: 12000, thorough: 600000, assume: []string{yamlTrust},
		rule: "declarations of the 14 kinds that have examples, with plain and expanded, single and named examples; value, metadata, strictness, annotations and unknown facets are compared by accessor and in the written text, where a bare example must be the plain value and one with metadata a map; distinct by source text",
		fn: func(c *Case) {
			lib := c.R.Intn(2) == 0
			d := c.gen(lib, func(g *Gen) *yaml.Node { return g.exampleDoc(c) })
			x, ok := c.accepted(d)
			if !ok {
				return
			}
			c.Same("accessors", noXMLExtra(d.want), obsDocument(x))
			out, ok := c.written(x)
			if !ok || !c.sameText("written document", lib, d.want, out) {
				return
			}
			n, _ := docNode(out)
			checkForms(c, lib, n)
		},
	})
	register(&Check{
		id: "C07", quick: 9000, thorough: 400000, assume: []string{yamlTrust},
		rule: "type declarations over built-in names, expressions, includes, near misses of both and random names, in short, expanded and implicit form with shuffled facets, at the root and in properties, items and facet definitions; the kind, the type text and the one concrete interface are compared with an independent classifier; distinct by source text",
		fn: func(c *Case) {
			lib := c.R.Intn(2) == 0
			d := c.gen(lib, func(g *Gen) *yaml.Node { return g.kindDoc(c) })
			x, ok := c.accepted(d)
			if !ok {
				return
			}
			want, got := kindsOf(d.want), omap()
			obsKinds(c, call(x, "Types"), "", got)
			c.Same("kinds", want, got)
		},
	})
}

// exampleDoc generates declarations with examples.
func (g *Gen) exampleDoc(c *Case) *yaml.Node {
	if g.isBig() {
		return g.big(true, g.pick(bigExamples))
	}
	m := g.mapping()
	n := g.mapping()
	used := map[string]bool{}
	for i := 1 + g.r.Intn(3); i > 0; i-- {
		kind := extKinds[(c.Idx+i)%len(extKinds)]
		cl := valueClass[kind]
		d := g.mapping()
		g.add(d, "type", g.typeName(kind))
		if g.p(3, 4) {
			g.add(d, "example", g.example(cl))
			g.use("example of " + kind)
		}
		if g.p(2, 3) {
			e := g.mapping()
			u2 := map[string]bool{}
			for j := g.r.Intn(6); j > 0; j-- {
				g.add(e, g.name(u2), g.example(cl))
			}
			g.add(d, "examples", e)
			g.use("examples of " + kind)
		}
		g.shuffle(d)
		var node *yaml.Node = d
		switch g.r.Intn(4) {
		case 0:
			p := g.mapping()
			g.add(p, "p", d)
			node = g.mapping()
			g.add(node, "properties", p)
			g.add(node, "example", g.example("any"))
		case 1:
			node = g.mapping()
			g.add(node, "items", d)
			g.add(node, "example", g.example("anylist"))
		}
		g.add(n, g.name(used), node)
	}
	g.add(m, "types", n)
	return m
}

// checkForms checks the form of all examples of a written document.
func checkForms(c *Case, lib bool, root *yaml.Node) {
	for _, s := range sites(lib, root) {
		if s.class != "example" {
			continue
		}
		n := s.node()
		ex := canonExample(valueClass[s.kind], n)
		bare := len(ex.K) == 1 && ex.K[0] == "value"
		v := ex.get("value")
		// An untyped map with a value key can only be written expanded.
		looks := valueClass[s.kind] == "any" && v != nil && v.Kind == 'm' && v.get("value") != nil
		switch {
		case bare && !looks && expanded(valueClass[s.kind], n):
			c.Violate("an example of a %s type without metadata is written in expanded form: %s", s.kind, ex)
		case !bare && !expanded(valueClass[s.kind], n) && !(len(ex.K) == 0):
			c.Violate("an example of a %s type with metadata is written in plain form: %s", s.kind, ex)
		}
		form := "plain"
		if expanded(valueClass[s.kind], n) {
			form = "expanded"
		}
		c.Count("examples written "+form, 1)
	}
}

// kindsOf lists the kinds of all declarations of a canonical document.
func kindsOf(root *V) *V {
	out := omap()
	var walk func(path string, m *V)
	decl := func(path string, d *V) {}
	decl = func(path string, d *V) {
		out.set(path, list(d.get("kind"), d.get("type")))
		walk(path+".properties", d.get("properties"))
		if i := d.get("items"); i != nil {
			decl(path+".items", i)
		}
		if f := d.get("facets"); f != nil {
			for i, k := range f.K {
				walk(path+".facets."+k, f.M[i])
			}
		}
	}
	walk = func(path string, m *V) {
		if m == nil {
			return
		}
		for i, k := range m.K {
			decl(path+"/"+k, m.M[i])
		}
	}
	walk("", root.get("types"))
	sortMap(out)
	return out
}

// sortMap sorts the entries of a map whose order does not matter.
func sortMap(m *V) {
	idx := make([]int, len(m.K))
	for i := range idx {
		idx[i] = i
	}
	sort.SliceStable(idx, func(a, b int) bool { return m.K[idx[a]] < m.K[idx[b]] })
	k, v := m.K, m.M
	m.K, m.M = nil, nil
	for _, i := range idx {
		m.K, m.M = append(m.K, k[i]), append(m.M, v[i])
	}
}

func obsKinds(c *Case, types interface{}, path string, out *V) {
	var walk func(m interface{}, path string)
	var decl func(x interface{}, path string)
	decl = func(x interface{}, path string) {
		c.Count("declarations checked", 1)
		d, ok := x.(raml.DataType)
		if !ok || isNilAny(x) {
			out.set(path, badV("%T", x))
			return
		}
		out.set(path, list(str(string(d.Kind())), str(d.Type())))
		c.See("kind " + string(d.Kind()))
		if d.Schema() != d.Type() {
			c.Violate("%s: Schema() %q and Type() %q differ", path, d.Schema(), d.Type())
		}
		var impl []string
		for _, k := range extKinds {
			if t := typeOf(x); t.Implements(kindIfc[k]) {
				impl = append(impl, k)
			}
		}
		want := string(d.Kind())
		if want == "nil" || want == "include" {
			want = ""
		}
		if got := strings.Join(impl, ","); got != want {
			c.Violate("%s: a declaration of kind %s implements the interfaces of [%s]", path, d.Kind(), got)
			return
		}
		if t := typeOf(x); !t.Implements(kindIfc[string(d.Kind())]) {
			c.Violate("%s: a declaration of kind %s does not implement its interface", path, d.Kind())
			return
		}
		if want == "" {
			return
		}
		if want == "object" {
			walk(call(x, "Properties"), path+".properties")
		}
		if want == "array" {
			if i := call(x, "Items"); !isNilAny(i) {
				decl(i, path+".items")
			}
		}
		f := call(x, "FacetDefinitions").(raml.FacetMap)
		f.ForEach(func(k string, v raml.Facet) { walk(v, path+".facets."+k) })
	}
	walk = func(m interface{}, path string) {
		n := call(m, "Len").(int)
		for i := 0; i < n; i++ {
			e := call(m, "At", i)
			decl(field(e, "Val"), path+"/"+field(e, "Key").(string))
		}
	}
	walk(types, path)
	sortMap(out)
}

// nearKinds are names close to the built-in ones.
func (g *Gen) anyTypeName() *yaml.Node {
	names := []string{}
	for k := range builtin {
		names = append(names, k)
	}
	sort.Strings(names)
	b := g.pick(names)
	switch g.r.Intn(12) {
	case 0, 1, 2, 3:
		return g.strNode(b)
	case 4:
		return g.strNode(g.pick([]string{" ", "", "x", "my-", "lib."}) + b + g.pick([]string{" ", "[]", "s", "?", "-", ".x"}))
	case 5:
		return g.strNode(strings.ToUpper(b[:1]) + b[1:])
	case 6:
		return g.strNode(b + g.pick([]string{"|", " | "}) + g.pick(names))
	case 7:
		return g.strNode(g.pick([]string{"(" + b + " | nil)[]", b + "|", "| " + b, "a|b|" + b, "!includex | " + b, "include | " + b}))
	case 8:
		return sc("!include", g.pick([]string{b, b + ".raml", "dir/" + b, "a|b.raml", "a b.raml"}), yaml.TaggedStyle)
	case 9:
		return sc("!!str", "!include "+g.pick([]string{b, b + ".raml", "a | b.raml"}), []yaml.Style{yaml.SingleQuotedStyle, yaml.DoubleQuotedStyle}[g.r.Intn(2)])
	case 10:
		return g.strNode(g.pick([]string{"!include", "!includes x", "! include x", "include x", "!Include x", "date", "time", "int", "bool", "float", "null", "Nil", "dateonly", "date_only", "datetimeonly", "multi", "unknown", "schema", "custom", "union", "include"}))
	}
	return g.strNode(g.text())
}

func (g *Gen) kindDecl(depth int) *yaml.Node {
	form := g.r.Intn(4)
	if form == 0 {
		return g.anyTypeName()
	}
	m := g.mapping()
	var tn *yaml.Node
	if form < 3 {
		tn = g.anyTypeName()
		g.add(m, g.pick([]string{"type", "type", "schema"}), tn)
	}
	kind, _ := classify(m)
	opaque := kind == "nil" || kind == "include"
	// Facets that would decide the kind if there were no type.
	for _, f := range []string{"properties", "items"} {
		if !g.p(1, 3) || m.Content != nil && hasKey(m, f) {
			continue
		}
		switch {
		case tn == nil && f == "items" && hasKey(m, "properties"):
			g.add(m, f, g.free(1)) // an unknown facet of an object
		case f == "properties" && (tn == nil || kind == "object"):
			n := g.mapping()
			used := map[string]bool{}
			for i := g.r.Intn(3); i > 0; i-- {
				if depth > 0 {
					g.add(n, g.name(used), g.kindDecl(depth-1))
				}
			}
			g.add(m, f, n)
		case f == "items" && (tn == nil || kind == "array"):
			if depth > 0 {
				g.add(m, f, g.kindDecl(depth-1))
			} else {
				g.add(m, f, g.anyTypeName())
			}
		default:
			g.add(m, f, g.free(1))
		}
	}
	kind, _ = classify(m)
	if g.p(1, 3) {
		g.add(m, "required", g.boolNode())
	}
	if !opaque {
		if g.p(1, 3) {
			g.add(m, "description", g.strNode(g.text()))
		}
		if g.p(1, 4) && depth > 0 {
			fs, f := g.mapping(), g.mapping()
			g.add(f, g.pick([]string{"type", "x"}), g.kindDecl(depth-1))
			g.add(fs, "f", f)
			g.add(m, "facets", fs)
		}
	}
	if g.p(1, 4) {
		g.add(m, "x-"+g.pick(tameWords), g.free(1))
	}
	g.shuffle(m)
	return m
}

func hasKey(m *yaml.Node, k string) bool {
	for i := 0; i+1 < len(m.Content); i += 2 {
		if m.Content[i].Value == k {
			return true
		}
	}
	return false
}

// kindDoc generates declarations that differ in how their kind is given.
func (g *Gen) kindDoc(c *Case) *yaml.Node {
	m, n := g.mapping(), g.mapping()
	used := map[string]bool{}
	for i := 1 + g.r.Intn(6); i > 0; i-- {
		d := g.kindDecl(3)
		k, _ := classify(d)
		form := "short"
		if d.Kind == yaml.MappingNode {
			form = "expanded"
			if typeNode(d) == nil {
				form = "implicit"
			}
		}
		g.use(fmt.Sprintf("root %s:%s", form, k))
		g.add(n, g.name(used), d)
	}
	g.add(m, g.pick([]string{"types", "schemas"}), n)
	return m
}

package main

import (
	"bytes"
	"fmt"
	"reflect"
	"strconv"
	"strings"

	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rbuild"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmod"
	"gopkg.in/yaml.v3"
)

// C17: wrong types.  C18: the form of the output.  C19: defaults.

func (g *Gen) badList() *yaml.Node {
	n := g.seq()
	for i := g.r.Intn(3); i > 0; i-- {
		n.Content = append(n.Content, g.strNode(g.pick(tameWords)))
	}
	return n
}

func (g *Gen) badMap() *yaml.Node {
	n := g.mapping()
	used := map[string]bool{}
	for i := g.r.Intn(3); i > 0; i-- {
		g.add(n, g.name(used), g.strNode(g.pick(tameWords)))
	}
	return n
}

func (g *Gen) badInt() *yaml.Node { return plain(strconv.Itoa(g.r.Intn(2000) - 500)) }
func (g *Gen) badFloat() *yaml.Node {
	return plain(g.pick([]string{"1.5", "-0.25", "3.0", "1e3", "2.5e-3", ".5"}))
}
func (g *Gen) badBool() *yaml.Node { return plain(g.pick([]string{"true", "false"})) }
func (g *Gen) badTime() *yaml.Node { return plain("2020-01-0" + strconv.Itoa(1+g.r.Intn(9))) }

func (g *Gen) badNull() *yaml.Node {
	return sc("!!null", g.pick([]string{"~", "null", ""}), 0)
}

// badStr is a string that looks like a value of another type at times.
func (g *Gen) badStr() *yaml.Node {
	return sc("!!str", g.pick([]string{"5", "true", "1.5", "foo", "", "null", "-3", "[]", "{}", "0"}), []yaml.Style{yaml.SingleQuotedStyle, yaml.DoubleQuotedStyle}[g.r.Intn(2)])
}

// wrong gives a node of a wrong type for a site, and what is wrong about it.
func (g *Gen) wrong(s site) (*yaml.Node, string) {
	type alt struct {
		name string
		f    func() *yaml.Node
	}
	var (
		aInt  = alt{"int", g.badInt}
		aFlt  = alt{"float", g.badFloat}
		aBool = alt{"bool", g.badBool}
		aStr  = alt{"string", g.badStr}
		aList = alt{"list", g.badList}
		aMap  = alt{"map", g.badMap}
		aTime = alt{"timestamp", g.badTime}
		aNull = alt{"null", g.badNull}
	)
	of := func(vals ...string) func() *yaml.Node {
		return func() *yaml.Node { return plain(g.pick(vals)) }
	}
	elem := func(bad ...alt) func() *yaml.Node {
		return func() *yaml.Node {
			n := g.badList()
			at := g.r.Intn(len(n.Content) + 1)
			n.Content = append(n.Content, nil)
			copy(n.Content[at+1:], n.Content[at:])
			n.Content[at] = bad[g.r.Intn(len(bad))].f()
			return n
		}
	}
	var as []alt
	switch s.class {
	case "str":
		as = []alt{aInt, aFlt, aBool, aList, aMap, aNull}
	case "bool":
		as = []alt{aInt, aFlt, aStr, aList, aMap, aNull, aTime, {"yes", func() *yaml.Node {
			return sc("!!str", g.pick([]string{"yes", "no", "on", "off", "y"}), yaml.DoubleQuotedStyle)
		}}}
	case "int":
		as = []alt{aFlt, aBool, aStr, aList, aMap, aNull, aTime, {"too large", of("9223372036854775808", "18446744073709551615")}, {"too small", of("-9223372036854775809")}, {"infinite", of(".inf", "-.inf", ".nan")}}
	case "uint":
		as = []alt{aFlt, aBool, aStr, aList, aMap, aNull, aTime, {"negative", of("-1", "-2147483648", "-9223372036854775808")}, {"too large", of("18446744073709551616", "99999999999999999999")}, {"infinite", of(".inf", ".nan")}}
	case "num":
		as = []alt{aBool, aStr, aList, aMap, aNull, aTime}
	case "time":
		as = []alt{aInt, aFlt, aBool, aList, aMap, aNull}
	case "strs":
		as = []alt{aInt, aBool, aMap, aNull, {"list of other", elem(aInt, aFlt, aBool, aList, aMap, aNull)}}
	case "anylist":
		as = []alt{aInt, aFlt, aBool, aStr, aMap, aNull}
	case "mediaType":
		as = []alt{aInt, aFlt, aBool, aMap, aNull, {"list of other", elem(aInt, aFlt, aBool, aList, aMap, aNull)}}
	case "documentation":
		as = []alt{aInt, aBool, aStr, aMap, aNull, {"list of other", elem(aStr, aInt, aList, aBool)}}
	case "docentry":
		as = []alt{aInt, aBool, aStr, aList, aNull}
	case "section", "uses", "types", "props", "examples", "facets", "xml":
		as = []alt{aInt, aFlt, aBool, aStr, aList, aNull}
	case "decl":
		as = []alt{aInt, aFlt, aBool, aList}
	case "typename":
		as = []alt{aInt, aFlt, aBool}
	case "enum":
		as = []alt{aInt, aFlt, aBool, aStr, aMap, aNull}
	case "example":
		switch valueClass[s.kind] {
		case "any":
			return nil, ""
		}
		return g.wrong(site{class: valueClass[s.kind], kind: s.kind, parent: s.parent, idx: s.idx, name: "example"})
	default:
		return nil, ""
	}
	a := as[g.r.Intn(len(as))]
	if s.name == "example" && a.name == "map" {
		return nil, "" // a map is the expanded form
	}
	return a.f(), a.name
}

func init() {
	register(&Check{
		id: "C17", quick: 24000, thorough: 1000000, assume: []string{yamlTrust},
		rule: "random documents in which one modelled node, at any depth, is replaced by a value of another YAML type or out of range; the document must be accepted before and rejected after; distinct by source text of the broken document",
		fn: func(c *Case) {
			lib := c.R.Intn(2) == 0
			d := c.gen(lib, func(g *Gen) *yaml.Node {
				g.left = 80
				if g.p(1, 8) {
					return g.exampleDoc(c)
				}
				return g.anyDoc(c, lib)
			})
			ss := sites(lib, d.node)
			if len(ss) == 0 {
				return
			}
			if _, ok := c.accepted(d); !ok {
				return
			}
			g := newGen(sub(c.R))
			oddName(c, lib, d.node, ss, g)
			for i := 0; i < 3; i++ {
				oddNode(c, lib, d.node, g)
			}
			for i := 0; i < 4; i++ {
				// Rare classes get their share.
				by := map[string][]site{}
				var classes []string
				for _, s := range ss {
					k := s.class + " " + s.name
					if by[k] == nil {
						classes = append(classes, k)
					}
					by[k] = append(by[k], s)
				}
				l := by[classes[c.R.Intn(len(classes))]]
				s := l[c.R.Intn(len(l))]
				bad, what := g.wrong(s)
				if bad == nil {
					continue
				}
				old := s.parent.Content[s.idx]
				root := d.node
				s.parent.Content[s.idx] = bad
				text, err := encode(copyNode(root), 2)
				s.parent.Content[s.idx] = old
				if err != nil {
					continue
				}
				head := apiHead
				if lib {
					head = libHead
				}
				text = append([]byte(head+"\n"), text...)
				// Make sure that the text says what is meant.
				back, err := docNode(text)
				if err != nil || !strings.Contains(canonRoot(lib, back).String(), "!BAD") {
					c.Count("replacements that are not wrong (discarded)", 1)
					continue
				}
				c.Input(text)
				x, err := parseText(lib, text)
				where := strings.TrimSpace(fmt.Sprintf("%s %s", s.kind, s.name))
				if where == "" {
					where = s.class
				}
				c.Check(err != nil && x == nil, "%s given as %s (%s) is accepted", where, what, short(free(bad)))
				c.See(where + " as " + what)
				c.See(fmt.Sprintf("depth %d", s.depth))
				c.Count("wrong values injected", 1)
				c.Distinct(string(text))
			}
		},
	})
	register(&Check{
		id: "C18", quick: 9000, thorough: 450000, assume: []string{yamlTrust, "maps handed to setters are in the plain (unordered) serialization mode, as the library's own are"},
		rule: "what is written for random parsed and assembled documents must start with the header line, hold one YAML document whose root is a mapping, and use no explicit tag the source does not use; the module type headers are compared with the header constants; distinct by written text",
		fn: func(c *Case) {
			headers(c)
			lib := c.R.Intn(2) == 0
			d := c.gen(lib, func(g *Gen) *yaml.Node {
				switch g.r.Intn(40) {
				case 0:
					return &yaml.Node{Kind: yaml.MappingNode, Tag: "!!map", Style: yaml.FlowStyle}
				case 1:
					g.tame = true
				}
				return g.anyDoc(c, lib)
			})
			x, ok := c.accepted(d)
			if !ok {
				return
			}
			if out, ok := c.written(x); ok {
				form(c, lib, out, tagsOf(d.node))
				if c.Idx%20 == 3 {
					for _, k := range writerKinds {
						got, err := writeTo(k, x)
						if !c.Check(err == nil && bytes.Equal(got, out), "written to a %s the text differs (error %v):\n%s\n---\n%s", k, err, clip(out), clip(got)) {
							return
						}
					}
				}
			}
			b := newBuilder(sub(c.R))
			y := b.document(lib, d.want)
			if out, ok := c.written(y); ok {
				form(c, lib, out, tagsOf(d.node))
			}
			if c.Idx%50 == 0 {
				var z interface{} = rbuild.NewAPISpec()
				if lib {
					z = rbuild.NewLibrary()
				}
				if out, ok := c.written(z); ok {
					form(c, lib, out, nil)
				}
			}
		},
	})
	register(&Check{
		id: "C19", quick: 12000, thorough: 600000, assume: []string{yamlTrust},
		rule: "every facet with a default, on every kind that has it and in every position, absent or with values at and around the default, read from text, set, unset and set again; what is reported and what is written is compared with the RAML defaults; distinct by facet, position, route and value",
		fn:   defaults,
	})
}

// oddName gives an entry of a map of named things a name that is no string:
// the text must be refused, or the entry kept under that name.
func oddName(c *Case, lib bool, root *yaml.Node, ss []site, g *Gen) {
	by := map[string][]*yaml.Node{}
	var classes []string
	for _, s := range ss {
		m := s.parent.Content[s.idx]
		switch s.class {
		case "section", "uses", "types", "props", "examples", "facets":
		default:
			continue
		}
		if m.Kind != yaml.MappingNode || len(m.Content) == 0 {
			continue
		}
		k := s.class + " " + s.name
		if s.class == "examples" {
			k += " of " + s.kind
		}
		if by[k] == nil {
			classes = append(classes, k)
		}
		by[k] = append(by[k], m)
	}
	if len(classes) == 0 {
		return
	}
	class := classes[c.R.Intn(len(classes))]
	m := by[class][c.R.Intn(len(by[class]))]
	at := 2 * c.R.Intn(len(m.Content)/2)
	old := m.Content[at]
	odd := []func() *yaml.Node{g.badInt, g.badFloat, g.badBool, g.badTime, g.badNull}[c.R.Intn(5)]()
	for i := 0; i < len(m.Content); i += 2 {
		if m.Content[i].Value == odd.Value {
			return
		}
	}
	texts := make([][]byte, 2)
	for i, k := range []*yaml.Node{odd, sc("!!str", odd.Value, yaml.DoubleQuotedStyle)} {
		m.Content[at] = k
		raw, err := encode(copyNode(root), 2)
		m.Content[at] = old
		if err != nil {
			return
		}
		head := apiHead
		if lib {
			head = libHead
		}
		texts[i] = append([]byte(head+"\n"), raw...)
	}
	c.Input(texts[0])
	c.See("odd name in " + class)
	c.Distinct(string(texts[0]))
	x, err := parseText(lib, texts[0])
	if err != nil {
		c.Check(x == nil, "a document comes with the error %v", err)
		c.Count("odd names refused", 1)
		return
	}
	c.Count("odd names accepted", 1)
	out, ok := c.written(x)
	if !ok {
		return
	}
	got, err := canonText(lib, out)
	if err != nil {
		c.Violate("the text is no YAML: %v", err)
		return
	}
	as, err1 := canonText(lib, texts[0])
	str, err2 := canonText(lib, texts[1])
	if err1 != nil || err2 != nil {
		return
	}
	c.Check(diff("", as, got) == "" || diff("", str, got) == "", "an entry of %s named %s is accepted but not kept: %s", class, short(free(odd)), diff("", str, got))
}

// tagsOf lists the explicit tags of a text.
func tagsOf(n *yaml.Node) map[string]bool {
	out := map[string]bool{}
	var walk func(n *yaml.Node)
	walk = func(n *yaml.Node) {
		if n.Style&yaml.TaggedStyle != 0 {
			out[n.ShortTag()] = true
		}
		for _, c := range n.Content {
			walk(c)
		}
	}
	walk(n)
	return out
}

func form(c *Case, lib bool, out []byte, allowed map[string]bool) {
	head := apiHead
	if lib {
		head = libHead
	}
	in := c.in
	c.Input(append(append(append([]byte{}, in...), "\n--- written\n"...), out...))
	defer c.Input(in)
	first := out
	if i := bytes.IndexByte(out, '\n'); i >= 0 {
		first = out[:i]
	}
	c.Check(string(first) == head, "the first line is %q, expected %q", clip(first), head)
	if n, err := docCount(out); !c.Check(err == nil && n == 1, "the text holds %d YAML documents, error %v", n, err) {
		return
	}
	root, err := docNode(out)
	if err != nil {
		return
	}
	c.Check(root.Kind == yaml.MappingNode && root.ShortTag() == "!!map", "the root is no mapping but %s", root.ShortTag())
	for t := range tagsOf(root) {
		c.Check(allowed[t] || t == "!include", "the text uses the tag %s, which the source does not use", t)
		c.See("tag " + t)
	}
	if n := bytes.Count(out, []byte("#%RAML")); n > 1 && !bytes.Contains(in, []byte("#%RAML 1.0'")) {
		// The header may occur in strings, but not as a second header line.
		for i, l := range bytes.Split(out, []byte("\n")) {
			c.Check(i == 0 || !bytes.HasPrefix(l, []byte("#%RAML")), "line %d is a second header", i+1)
		}
	}
	c.Distinct(string(out))
	c.Count("texts checked", 1)
}

func headers(c *Case) {
	for _, w := range []struct {
		m            rmod.ModuleType
		head, header string
	}{
		{rmod.TypeRoot, "#%RAML 1.0", rmeta.HeaderRoot},
		{rmod.TypeDataType, "#%RAML 1.0 DataType", rmeta.HeaderDataType},
		{rmod.TypeExtension, "#%RAML 1.0 Extension", rmeta.HeaderExtension},
		{rmod.TypeLibrary, "#%RAML 1.0 Library", rmeta.HeaderLibrary},
		{rmod.TypeResourceType, "#%RAML 1.0 ResourceType", ""},
		{rmod.TypeTrait, "#%RAML 1.0 Trait", rmeta.HeaderTrait},
	} {
		c.Check(w.m.ToHeader() == w.head, "the header of %s is %q, expected %q", w.m, w.m.ToHeader(), w.head)
		if w.header != "" {
			c.Check(w.header == w.head+"\n---\n", "the header constant of %s is %q", w.m, w.header)
		}
	}
	c.Check(rmeta.HeaderOverlay == "#%RAML 1.0 Overlay\n---\n", "the overlay header is %q", rmeta.HeaderOverlay)
}

// A defFacet is a facet with a default.
type defFacet struct {
	kind, name, getter string
	def                string
	class              string
}

var defFacets = func() []defFacet {
	var out []defFacet
	for _, k := range allKinds {
		out = append(out, defFacet{k, "required", "Required", "true", "bool"})
	}
	for _, k := range extKinds {
		for _, f := range kindFacets[k] {
			if f.def != "" {
				out = append(out, defFacet{k, f.name, cap1(f.name), f.def, f.class})
			}
		}
		out = append(out, defFacet{k, "example.strict", "Strict", "true", "bool"}, defFacet{k, "examples.strict", "Strict", "true", "bool"})
	}
	return out
}()

func (f defFacet) values(c *Case) []string {
	if f.class == "bool" {
		return []string{"true", "false"}
	}
	out := []string{"0", "1", "2", "2147483646", "2147483647", "2147483648", "4294967295", "4294967296", "9223372036854775807"}
	return append(out, strconv.Itoa(c.R.Intn(1<<30)), strconv.Itoa(c.R.Intn(100)))
}

// typeNodeFor gives a declaration node of a kind.
func kindNode(kind string, kv ...interface{}) *yaml.Node {
	name := kind
	if n, ok := nameOfKind[kind]; ok {
		name = n
	}
	t := sc("!!str", name, 0)
	if kind == "include" {
		t = sc("!include", "x.raml", yaml.TaggedStyle)
	}
	n := mapNode("type", t)
	n.Content = append(n.Content, mapNode(kv...).Content...)
	return n
}

func valueNode(class string) *yaml.Node {
	switch class {
	case "bool":
		return plain("false")
	case "int", "num":
		return plain("7")
	case "anylist":
		return &yaml.Node{Kind: yaml.SequenceNode, Tag: "!!seq", Content: []*yaml.Node{plain("1")}}
	}
	return sc("!!str", "x", 0)
}

// company gives other facets that stand beside the one under observation.
func (f defFacet) company(c *Case) []interface{} {
	type kv struct {
		k string
		v *yaml.Node
	}
	str := func() *yaml.Node { return sc("!!str", "x", 0) }
	all := []kv{{"(a)", mapNode("b", str())}, {"unheardOf", str()}}
	if f.kind != "nil" && f.kind != "include" {
		all = append(all, kv{"displayName", str()}, kv{"description", str()})
	}
	if !strings.Contains(f.name, ".") && f.kind != "nil" && f.kind != "include" {
		all = append(all, kv{"xml", mapNode("name", str())})
		for _, o := range kindFacets[f.kind] {
			v := valueNode(o.class)
			switch o.class {
			case "uint":
				v = plain(o.def)
				if o.def == "" || c.R.Intn(2) == 0 {
					v = plain([]string{"0", "1", "5", "2147483647"}[c.R.Intn(4)])
				}
			case "bool":
				v = plain([]string{"true", "false"}[c.R.Intn(2)])
			case "strs":
				v = mapNode("x", str())
				v = &yaml.Node{Kind: yaml.SequenceNode, Tag: "!!seq", Content: v.Content}
			case "type":
				v = sc("!!str", "integer", 0)
			case "props":
				v = mapNode("q", sc("!!str", "string", 0))
			}
			all = append(all, kv{o.name, v})
		}
		if f.name != "required" {
			all = append(all, kv{"required", plain([]string{"true", "false"}[c.R.Intn(2)])})
		}
		all = append(all, kv{"example", valueNode(valueClass[f.kind])}, kv{"default", valueNode(valueClass[f.kind])})
	}
	var out []interface{}
	p := c.R.Intn(4)
	for _, i := range c.R.Perm(len(all)) {
		if all[i].k != f.name && c.R.Intn(4) < p {
			out = append(out, all[i].k, all[i].v)
			c.See("beside " + all[i].k)
		}
	}
	return out
}

func defaults(c *Case) {
	f := defFacets[c.Idx%len(defFacets)]
	vals := f.values(c)
	ex := strings.Contains(f.name, ".")
	absent := c.Idx/len(defFacets)%4 == 0
	v := vals[c.R.Intn(len(vals))]
	// The declaration, with and without the facet.
	var decl *yaml.Node
	switch {
	case ex:
		e := mapNode("value", valueNode(valueClass[f.kind]))
		if !absent {
			e.Content = append(e.Content, sc("!!str", "strict", 0), plain(v))
		}
		e.Content = append(e.Content, mapNode(f.company(c)...).Content...)
		if f.name == "examples.strict" {
			e = mapNode("e1", mapNode("value", valueNode(valueClass[f.kind])), "e2", e)
		}
		decl = kindNode(f.kind, strings.Split(f.name, ".")[0], e)
	case absent:
		decl = kindNode(f.kind, f.company(c)...)
	default:
		kv := append([]interface{}{f.name, plain(v)}, f.company(c)...)
		if c.R.Intn(2) == 0 {
			kv = append(f.company(c), f.name, plain(v))
		}
		decl = kindNode(f.kind, kv...)
	}
	pos := []string{"root", "property", "item", "facet definition", "deep"}[c.R.Intn(5)]
	root := decl
	switch pos {
	case "property":
		root = kindNode("object", "properties", mapNode("p", decl))
	case "item":
		root = kindNode("array", "items", decl)
	case "facet definition":
		root = kindNode("string", "facets", mapNode("f", mapNode("t", decl)))
	case "deep":
		root = mapNode("items", mapNode("properties", mapNode("p", mapNode("items", decl))))
	}
	get := func(x interface{}) interface{} {
		x = mustGet(call(x, "Types"), "x")
		switch pos {
		case "property":
			x = mustGet(call(x, "Properties"), "p")
		case "item":
			x = call(x, "Items")
		case "facet definition":
			x = mustGet(mustGet(call(x, "FacetDefinitions"), "f"), "t")
		case "deep":
			x = call(mustGet(call(call(x, "Items"), "Properties"), "p"), "Items")
		}
		switch f.name {
		case "example.strict":
			x = call(x, "Example")
		case "examples.strict":
			x = mustGet(call(x, "Examples"), "e2")
		}
		return x
	}
	lib := c.R.Intn(2) == 0
	doc := mapNode("types", mapNode("x", root))
	text, err := encode(copyNode(doc), 2)
	if err != nil {
		mustf("%v", err)
	}
	head := apiHead
	if lib {
		head = libHead
	}
	text = append([]byte(head+"\n"), text...)
	c.Input(text)
	c.Distinct(string(text))
	x, err := parseText(lib, text)
	if err != nil || x == nil {
		c.Violate("a legal document is refused: %v", err)
		return
	}
	want := v
	if absent {
		want = f.def
	}
	c.See(fmt.Sprintf("%s.%s %s", f.kind, f.name, pos))
	reported := func(what, want string) bool {
		got := typedAny(f.class, call(get(x), f.getter)).S
		c.Count("values reported", 1)
		return c.Check(got == want, "%s: %s of %s reports %s, expected %s", what, f.name, f.kind, got, want)
	}
	if !reported("read", want) || !writtenFacet(c, f, x, want, "read") {
		return
	}
	// The same through setters.
	setter := "Set" + f.getter
	unsetter := "Unset" + f.getter
	if !has(get(x), setter) {
		return
	}
	for i := 0; i < 6; i++ {
		o := get(x)
		switch {
		case has(o, unsetter) && c.R.Intn(3) == 0:
			call(o, unsetter)
			want = f.def
		case c.R.Intn(3) == 0:
			call(o, setter, goValue(f.class, f.def))
			want = f.def
		default:
			want = vals[c.R.Intn(len(vals))]
			call(o, setter, goValue(f.class, want))
		}
		if !reported("set", want) || !writtenFacet(c, f, x, want, "set") {
			return
		}
	}
	// A new object reports the default as well.
	b := newBuilder(c.R)
	var o interface{}
	if ex {
		o = newExample(f.kind)
	} else {
		o = b.newType(f.kind)
	}
	if got := typedAny(f.class, call(o, f.getter)).S; got != f.def {
		c.Violate("%s of a new %s is %s, expected %s", f.name, f.kind, got, f.def)
	}
}

func goValue(class, v string) interface{} {
	if class == "bool" {
		return v == "true"
	}
	u, err := strconv.ParseUint(v, 10, 64)
	if err != nil {
		mustf("%v", err)
	}
	return uint(u)
}

func mustGet(m interface{}, k string) interface{} {
	out := reflect.ValueOf(m).MethodByName("Get").Call([]reflect.Value{reflect.ValueOf(k)})
	if !out[1].Bool() {
		mustf("no entry %s", k)
	}
	return out[0].Interface()
}

// writtenFacet checks that a facet is written unless it is at its default.
func writtenFacet(c *Case, f defFacet, x interface{}, want, what string) bool {
	out, ok := c.written(x)
	if !ok {
		return false
	}
	root, err := docNode(out)
	if err != nil {
		c.Violate("the text is no YAML: %v", err)
		return false
	}
	name := f.name
	if i := strings.IndexByte(name, '.'); i >= 0 {
		name = name[i+1:]
	}
	var found []*yaml.Node
	var walk func(n *yaml.Node)
	walk = func(n *yaml.Node) {
		for i, k := range n.Content {
			if n.Kind == yaml.MappingNode && i%2 == 0 && k.Value == name {
				found = append(found, n.Content[i+1])
			}
			walk(k)
		}
	}
	walk(root)
	c.Count("texts inspected", 1)
	switch {
	case want == f.def:
		return c.Check(len(found) == 0, "%s: %s of %s is at its default %s but written:\n%s", what, f.name, f.kind, f.def, out)
	case len(found) != 1:
		return c.Check(false, "%s: %s of %s is %s and written %d times:\n%s", what, f.name, f.kind, want, len(found), out)
	}
	got := typed(f.class, found[0])
	return c.Check(got.S == want, "%s: %s of %s is %s but written as %s:\n%s", what, f.name, f.kind, want, got, out)
}

var _ = raml.NewAnyMap

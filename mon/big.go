package main

import (
	"fmt"
	"strings"

	"gopkg.in/yaml.v3"
)

// Documents that are large in one respect: many entries, deep nesting or long
// texts.  What works for a handful of entries need not work for hundreds.

var bigSizes = []int{9, 16, 17, 24, 32, 33, 50, 64, 65, 100, 101, 128, 129, 200, 255, 256, 257, 300, 513, 1000, 1025}
var deepSizes = []int{9, 10, 11, 12, 16, 17, 20, 21, 32, 33, 50, 51, 64, 65, 100, 101, 128, 130}
var longSizes = []int{255, 256, 257, 1000, 1023, 1025, 2048, 4095, 4096, 4097, 8193, 16385, 32769, 65535, 65536, 65537, 70000}

var bigTypes = []string{"types", "properties", "facets", "items-enum", "examples", "enum", "type-annotations", "type-extras", "xml-extras", "example-extras", "example-annotations", "fileTypes", "union", "deep-properties", "deep-items", "deep-facets", "deep-mixed", "long-type-text"}
var bigExamples = []string{"examples", "example-extras", "example-annotations", "big-value", "big-list-value", "deep-value", "long-value"}
var bigFree = []string{"section", "section-map", "section-list", "root-annotations", "root-extras", "annotation-map", "deep-section", "deep-extra", "long-section"}
var bigRoot = []string{"uses", "long-root-text"}
var bigAPI = []string{"resources", "documentation", "protocols", "mediaType", "securedBy", "documentation-extras", "long-content", "deep-resource"}

func (g *Gen) bigAny(lib bool) *yaml.Node {
	all := [][]string{bigTypes, bigExamples, bigFree, bigRoot, bigAPI}
	if lib {
		all = all[:4]
	}
	return g.big(lib, g.pick(all[g.r.Intn(len(all))]))
}

// isBig decides rarely for a large document, where there is room for it.
func (g *Gen) isBig() bool { return g.left >= 400 && g.p(1, 50) }

// longText is a text in which every place is recognizable.
func (g *Gen) longText() string {
	n := longSizes[g.r.Intn(len(longSizes))] + g.r.Intn(3) - 1
	sep := g.pick([]string{" ", "_", "\n", " "})
	var b strings.Builder
	for i := 0; b.Len() < n; i++ {
		fmt.Fprintf(&b, "w%d%s", i, sep)
	}
	return b.String()[:n-1] + "z"
}

// many gives a number of entries, and their order.
func (g *Gen) many() []int {
	n := bigSizes[g.r.Intn(len(bigSizes))]
	if n > 300 && !g.p(1, 4) {
		n = 300
	}
	switch g.r.Intn(3) {
	case 0:
		return g.r.Perm(n)
	case 1:
		out := make([]int, n)
		for i := range out {
			out[i] = n - i
		}
		return out
	}
	out := make([]int, n)
	for i := range out {
		out[i] = i
	}
	return out
}

// each adds many entries to a mapping.
func (g *Gen) each(m *yaml.Node, key string, val func(i int) *yaml.Node) *yaml.Node {
	letters := g.p(1, 3)
	for _, i := range g.many() {
		k := fmt.Sprintf(key, i)
		if letters {
			// Names from one letter on.
			pre, post := "", ""
			switch key[0] {
			case '(':
				pre, post = "(", ")"
			case '/':
				pre = "/"
			}
			k = pre + lettersOf(i) + post
		}
		g.add(m, k, val(i))
	}
	return m
}

func lettersOf(i int) string {
	s := string(rune('a' + i%26))
	if i >= 26 {
		s = lettersOf(i/26-1) + s
	}
	return s
}

// small gives short values that differ.
func (g *Gen) small(i int) *yaml.Node {
	switch g.r.Intn(5) {
	case 0:
		return plain(fmt.Sprint(i))
	case 1:
		return sc("!!str", fmt.Sprint(i), yaml.DoubleQuotedStyle)
	case 2:
		return mapNode("a", plain(fmt.Sprint(i)), "b", sc("!!str", "x", 0))
	}
	return sc("!!str", fmt.Sprintf("v%d", i), 0)
}

func (g *Gen) word(i int) *yaml.Node { return sc("!!str", fmt.Sprintf("v%d", i), 0) }

func (g *Gen) seqOf(val func(i int) *yaml.Node) *yaml.Node {
	n := &yaml.Node{Kind: yaml.SequenceNode, Tag: "!!seq"}
	for _, i := range g.many() {
		n.Content = append(n.Content, val(i))
	}
	return n
}

// simpleDecl gives a short declaration, distinguishable by i.
func (g *Gen) simpleDecl(i int) *yaml.Node {
	switch g.r.Intn(6) {
	case 0:
		return mapNode("type", sc("!!str", g.pick([]string{"string", "integer", "number", "object", "array", "file", "Foo", "A | B"}), 0), "description", g.word(i))
	case 1:
		return mapNode("minLength", plain(fmt.Sprint(i)))
	case 2:
		return mapNode("required", plain("false"), "displayName", g.word(i))
	case 3:
		return sc("!!str", g.pick([]string{"string", "integer", "nil", "any", "boolean"}), 0)
	}
	return sc("!!str", fmt.Sprintf("T%d", i), 0)
}

// nest wraps a node many times.
func (g *Gen) nest(n *yaml.Node, wrap func(i int, n *yaml.Node) *yaml.Node) *yaml.Node {
	for i := deepSizes[g.r.Intn(len(deepSizes))]; i > 0; i-- {
		n = wrap(i, n)
	}
	return n
}

func (g *Gen) wrapFree(i int, n *yaml.Node) *yaml.Node {
	switch {
	case g.p(1, 2):
		m := mapNode(fmt.Sprintf("k%d", i), n)
		if g.p(1, 3) {
			m.Content = append(m.Content, plain("s"), g.small(i))
		}
		return m
	case g.p(1, 3):
		return &yaml.Node{Kind: yaml.SequenceNode, Tag: "!!seq", Content: []*yaml.Node{g.small(i), n, g.small(i)}}
	}
	return &yaml.Node{Kind: yaml.SequenceNode, Tag: "!!seq", Content: []*yaml.Node{n}}
}

func mp() *yaml.Node { return &yaml.Node{Kind: yaml.MappingNode, Tag: "!!map"} }

// big generates a document that is large in the given respect.
func (g *Gen) big(lib bool, what string) *yaml.Node {
	g.use("big:" + what)
	m := mp()
	secs := apiSections
	if lib {
		secs = libSections
	}
	if !lib {
		g.add(m, "title", g.word(0))
	}
	inType := func(kv ...interface{}) *yaml.Node {
		d := mapNode(kv...)
		t := mapNode("Before", sc("!!str", "string", 0), "Big", d, "After", mapNode("type", sc("!!str", "integer", 0), "minimum", plain("3")))
		g.add(m, "types", t)
		return d
	}
	exKind := func() string { return extKinds[g.r.Intn(len(extKinds))] }
	name := func(kind string) *yaml.Node { return g.typeName(kind) }
	free := func(n *yaml.Node) {
		switch {
		case g.p(1, 3):
			g.add(m, secs[g.r.Intn(len(secs))], mapNode("x", n, "y", g.word(1)))
		case g.p(1, 2):
			g.add(m, "(ann)", mapNode("x", n))
		default:
			g.add(m, "extra", n)
		}
	}
	wrapDecl := map[string]func(i int, n *yaml.Node) *yaml.Node{
		"deep-properties": func(i int, n *yaml.Node) *yaml.Node {
			return mapNode("type", sc("!!str", "object", 0), "properties", mapNode(fmt.Sprintf("p%d", i), n), "minProperties", plain(fmt.Sprint(i)))
		},
		"deep-items": func(i int, n *yaml.Node) *yaml.Node {
			return mapNode("type", sc("!!str", "array", 0), "items", n, "minItems", plain(fmt.Sprint(i)))
		},
		"deep-facets": func(i int, n *yaml.Node) *yaml.Node {
			return mapNode("type", sc("!!str", "string", 0), "facets", mapNode("f", n), "minLength", plain(fmt.Sprint(i)))
		},
	}
	wrapDecl["deep-mixed"] = func(i int, n *yaml.Node) *yaml.Node {
		return wrapDecl[g.pick([]string{"deep-properties", "deep-items", "deep-facets"})](i, n)
	}
	switch what {
	case "types":
		g.add(m, g.pick([]string{"types", "schemas"}), g.each(mp(), "T%d", g.simpleDecl))
	case "properties":
		inType("type", sc("!!str", "object", 0), "properties", g.each(mp(), "p%d", g.simpleDecl))
	case "facets":
		inType("type", name(exKind()), "facets", g.each(mp(), "f%d", g.simpleDecl))
	case "items-enum":
		inType("items", mapNode("type", sc("!!str", "string", 0), "enum", g.seqOf(g.word)))
	case "examples":
		k := exKind()
		inType("type", name(k), "examples", g.each(mp(), "e%d", func(i int) *yaml.Node {
			var v *yaml.Node
			switch valueClass[k] {
			case "str":
				v = g.word(i)
			case "int", "uint", "num":
				v = plain(fmt.Sprint(i))
			case "any":
				v = g.small(i)
			default:
				v = g.value(valueClass[k], 1)
			}
			if g.p(1, 4) {
				return mapNode("value", v, "displayName", g.word(i))
			}
			return v
		}))
	case "enum":
		k := g.pick([]string{"string", "integer", "number"})
		inType("type", sc("!!str", k, 0), "enum", g.seqOf(func(i int) *yaml.Node {
			if k == "string" {
				return g.word(i)
			}
			return plain(fmt.Sprint(i))
		}))
	case "type-annotations":
		g.each(inType("type", name(exKind())), "(a%d)", func(i int) *yaml.Node { return mapNode("x", g.small(i)) })
	case "type-extras":
		g.each(inType("type", name(g.kind())), "x%d", g.small)
	case "xml-extras":
		inType("type", name("string"), "xml", mapNode("name", g.word(1), "prefix", g.word(2), "attribute", plain("true")), "description", g.word(3))
	case "example-extras", "example-annotations":
		k := exKind()
		for valueClass[k] == "anylist" {
			k = exKind()
		}
		e := mapNode("value", g.value(valueClass[k], 1))
		if what == "example-extras" {
			g.each(e, "x%d", g.small)
		} else {
			g.each(e, "(a%d)", func(i int) *yaml.Node { return mapNode("x", g.small(i)) })
		}
		inType("type", name(k), "example", e)
	case "fileTypes":
		inType("type", name("file"), "fileTypes", g.seqOf(g.word))
	case "union":
		var s []string
		for _, i := range g.many() {
			s = append(s, fmt.Sprintf("T%d", i))
		}
		inType("type", sc("!!str", strings.Join(s, g.pick([]string{"|", " | "})), 0), "displayName", g.word(1))
	case "deep-properties", "deep-items", "deep-facets", "deep-mixed":
		g.add(m, "types", mapNode("Before", sc("!!str", "string", 0), "Deep", g.nest(g.simpleDecl(0), wrapDecl[what]), "After", sc("!!str", "nil", 0)))
	case "long-type-text":
		s := sc("!!str", g.longText(), 0)
		switch g.r.Intn(5) {
		case 0:
			inType("type", name("string"), "pattern", s, "minLength", plain("1"))
		case 1:
			inType("type", name("string"), "default", s, "minLength", plain("1"))
		case 2:
			inType("type", name("string"), "enum", &yaml.Node{Kind: yaml.SequenceNode, Tag: "!!seq", Content: []*yaml.Node{g.word(1), s, g.word(2)}})
		default:
			inType("type", name(exKind()), g.pick([]string{"description", "displayName"}), s, "required", plain("false"))
		}
	case "big-value", "big-list-value", "deep-value", "long-value":
		k := g.pick([]string{"any", "object", "union", "custom", "file"})
		var v *yaml.Node
		switch what {
		case "big-value":
			v = g.each(mp(), "k%d", g.small)
		case "big-list-value":
			if g.p(1, 2) {
				k = "array"
			}
			v = g.seqOf(g.small)
		case "deep-value":
			v = g.nest(g.small(0), g.wrapFree)
		case "long-value":
			k = g.pick([]string{"any", "object", "union", "custom", "file", "string"})
			v = sc("!!str", g.longText(), 0)
		}
		switch g.r.Intn(4) {
		case 0:
			inType("type", name(k), "default", v)
		case 1:
			inType("type", name(k), "examples", mapNode("a", g.word(1), "b", mapNode("value", v, "strict", plain("false"))))
			if k == "array" {
				t := m.Content[len(m.Content)-1].Content[3]
				t.Content[3].Content[1] = &yaml.Node{Kind: yaml.SequenceNode, Tag: "!!seq"}
			}
		case 2:
			inType("type", name(k), "example", mapNode("displayName", g.word(1), "value", v))
		default:
			inType("type", name(k), "example", v)
		}
	case "section":
		g.add(m, secs[g.r.Intn(len(secs))], g.each(mp(), "s%d", g.small))
	case "section-map":
		free(g.each(mp(), "s%d", g.small))
	case "section-list":
		free(g.seqOf(g.small))
	case "root-annotations":
		g.each(m, "(a%d)", func(i int) *yaml.Node { return mapNode("x", g.small(i)) })
	case "root-extras":
		g.each(m, "x%d", g.small)
	case "annotation-map":
		g.add(m, "(ann)", g.each(mp(), "s%d", g.small))
	case "deep-section", "deep-extra":
		free(g.nest(g.small(0), g.wrapFree))
	case "long-section":
		free(sc("!!str", g.longText(), 0))
	case "uses":
		g.add(m, "uses", g.each(mp(), "u%d", g.word))
	case "long-root-text":
		s := sc("!!str", g.longText(), 0)
		switch {
		case lib:
			g.add(m, "usage", s)
		default:
			g.add(m, g.pick([]string{"description", "version", "baseUri"}), s)
		}
		g.add(m, "extra", g.word(1))
	case "resources":
		g.each(m, "/r%d", g.small)
	case "documentation":
		g.add(m, "documentation", g.seqOf(func(i int) *yaml.Node { return mapNode("title", g.word(i), "content", g.word(i+1)) }))
	case "protocols", "mediaType", "securedBy":
		g.add(m, what, g.seqOf(g.word))
	case "documentation-extras":
		d := mapNode("title", g.word(0), "content", g.word(1))
		g.each(d, "x%d", g.small)
		g.add(m, "documentation", &yaml.Node{Kind: yaml.SequenceNode, Tag: "!!seq", Content: []*yaml.Node{d, mapNode("title", g.word(0), "content", g.word(1))}})
	case "long-content":
		d := mapNode("title", g.word(0), "content", sc("!!str", g.longText(), 0))
		g.add(m, "documentation", &yaml.Node{Kind: yaml.SequenceNode, Tag: "!!seq", Content: []*yaml.Node{d, mapNode("title", g.word(0), "content", g.word(1))}})
	case "deep-resource":
		g.add(m, "/r", g.nest(g.word(0), func(i int, n *yaml.Node) *yaml.Node {
			return mapNode("displayName", g.word(i), fmt.Sprintf("/r%d", i), n)
		}))
	default:
		mustf("unknown large document %s", what)
	}
	return m
}

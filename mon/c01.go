package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"runtime/debug"
	"strings"

	"gopkg.in/yaml.v3"
)

// C01: no input makes the library panic, hang or half-succeed.

var words = []string{"title", "type", "types", "schema", "schemas", "properties", "items", "example", "examples", "value", "strict", "enum", "default", "facets", "xml",
	"required", "uses", "traits", "resourceTypes", "annotationTypes", "securitySchemes", "securedBy", "documentation", "content", "protocols", "mediaType", "baseUri", "baseUriParameters",
	"version", "description", "displayName", "usage", "minLength", "maxLength", "minItems", "maxItems", "minimum", "maximum", "multipleOf", "format", "fileTypes", "pattern", "uniqueItems",
	"additionalProperties", "minProperties", "maxProperties", "discriminator", "discriminatorValue", "(ann)", "/res", "string", "number", "integer", "boolean", "object", "array", "any", "nil", "file",
	"date-only", "datetime", "datetime-only", "time-only", "Foo", "A | B", "!include x.raml", "attribute", "wrapped", "name", "namespace", "prefix", "rfc3339", "int64"}

var tokens = []string{": ", ":\n  ", ":\n    ", "\n", "\n  ", "\n    ", "- ", "\n- ", "\n  - ", "{", "}", "[", "]", ", ", "!include ", "!", "!!str ", "!!int ", "!!map ", "!!binary ", "!<tag:yaml.org,2002:str> ", "&a ", "*a", "&b ", "*b", "<<: ", "<<: *a",
	"? ", "|\n", ">-\n", "\"", "'", "#", " # c\n", "---\n", "...\n", "%YAML 1.1\n", "%TAG ! x\n", "null", "~", "true", "5", "-1", "1e309", ".nan", "0x", "2020-01-01", "\t", "\r\n", "\x00", "\ufeff", "\xff", "\u2028", "[]", "{}", "\"\\x\"", "\"\\u12\"", "@", "`", "%"}

// soup mixes RAML words with pieces of YAML syntax.
func soup(r *rand.Rand) []byte {
	var b bytes.Buffer
	for i := 1 + r.Intn(40); i > 0; i-- {
		if r.Intn(2) == 0 {
			b.WriteString(words[r.Intn(len(words))])
		} else {
			b.WriteString(tokens[r.Intn(len(tokens))])
		}
	}
	return b.Bytes()
}

// damage changes a text at random places.
func damage(r *rand.Rand, text []byte, n int) []byte {
	out := append([]byte{}, text...)
	for ; n > 0; n-- {
		if len(out) == 0 {
			return soup(r)
		}
		i := r.Intn(len(out))
		j := i + r.Intn(minInt(len(out)-i, 30)+1)
		switch r.Intn(8) {
		case 0:
			out[i] ^= 1 << uint(r.Intn(8))
		case 1:
			out = append(out[:i:i], out[j:]...)
		case 2:
			out = append(out[:j:j], out[i:]...) // repeats a piece
		case 3:
			out = append(out[:i:i], append([]byte(tokens[r.Intn(len(tokens))]), out[i:]...)...)
		case 4:
			out = append(out[:i:i], append([]byte(words[r.Intn(len(words))]), out[j:]...)...)
		case 5:
			out = out[:i]
		case 6:
			// Changes how far a line is indented.
			if k := bytes.IndexByte(out[i:], '\n'); k >= 0 {
				k += i + 1
				if r.Intn(2) == 0 && k < len(out) && out[k] == ' ' {
					out = append(out[:k:k], out[k+1:]...)
				} else {
					out = append(out[:k:k], append([]byte("  "), out[k:]...)...)
				}
			}
		case 7:
			k := r.Intn(len(out))
			out[i], out[k] = out[k], out[i]
		}
	}
	return out
}

// allNodes lists the places of a tree.
func allNodes(n *yaml.Node, f func(parent *yaml.Node, i int)) {
	for i := range n.Content {
		f(n, i)
		allNodes(n.Content[i], f)
	}
}

// odd replaces nodes, keys included, by nodes no RAML has.
func (g *Gen) odd(root *yaml.Node, n int) {
	anchors := 0
	for ; n > 0; n-- {
		type place struct {
			p *yaml.Node
			i int
		}
		var all []place
		allNodes(root, func(p *yaml.Node, i int) { all = append(all, place{p, i}) })
		if len(all) == 0 {
			return
		}
		at := all[g.r.Intn(len(all))]
		old := at.p.Content[at.i]
		var x *yaml.Node
		switch g.r.Intn(12) {
		case 0:
			x = g.free(2)
		case 1:
			x = &yaml.Node{Kind: yaml.SequenceNode, Tag: "!!seq", Content: []*yaml.Node{old, copyNode(old)}}
		case 2:
			x = &yaml.Node{Kind: yaml.MappingNode, Tag: "!!map", Content: []*yaml.Node{plain("x"), old}}
		case 3:
			x = plain("null")
		case 4:
			x = sc("!!binary", []string{"aGVsbG8=", "not base64", ""}[g.r.Intn(3)], yaml.TaggedStyle)
		case 5:
			x = sc([]string{"!include", "!foo", "!!str", "!!int", "!!float", "!!bool", "!!null", "!!timestamp", "!!merge", "!!map", "!!seq", "!!set", "tag:x,1:y", "!"}[g.r.Intn(14)], g.pick(nastyStrs), yaml.TaggedStyle)
		case 6:
			x = old
			x.Tag = []string{"!!map", "!!seq", "!!str", "!!omap", "!!set", "!include", "!x", "!!null", "!!int", "!!binary"}[g.r.Intn(10)]
			x.Style |= yaml.TaggedStyle
		case 7:
			// An alias to another node, possibly one it lies in.
			t := all[g.r.Intn(len(all))]
			target := t.p.Content[t.i]
			if target.Kind == yaml.AliasNode || target == old {
				continue
			}
			if target.Anchor == "" {
				anchors++
				target.Anchor = fmt.Sprintf("a%d", anchors)
			}
			x = &yaml.Node{Kind: yaml.AliasNode, Value: target.Anchor}
		case 8:
			if at.p.Kind == yaml.MappingNode {
				k := plain("<<")
				k.Tag = "!!merge"
				at.p.Content = append(at.p.Content, k, &yaml.Node{Kind: yaml.MappingNode, Tag: "!!map", Content: []*yaml.Node{plain(g.pick(words)), g.free(2)}})
			}
			continue
		case 9:
			x = &yaml.Node{Kind: yaml.MappingNode, Tag: "!!map", Content: []*yaml.Node{g.free(2), g.free(2)}}
		case 10:
			x = plain(g.pick(words))
		case 11:
			// Repeats an entry of a mapping.
			if at.p.Kind == yaml.MappingNode {
				i := at.i &^ 1
				at.p.Content = append(at.p.Content, copyNode(at.p.Content[i]), g.free(2))
			}
			continue
		}
		at.p.Content[at.i] = x
	}
}

// oddities are texts that are hard for YAML or RAML readers.
func oddities() []string {
	deep := func(open, shut string, n int) string { return strings.Repeat(open, n) + strings.Repeat(shut, n) }
	var nest, props strings.Builder
	for i := 0; i < 400; i++ {
		fmt.Fprintf(&nest, "%sitems:\n", strings.Repeat(" ", 6+i))
		if i%2 == 0 {
			fmt.Fprintf(&props, "%sproperties:\n", strings.Repeat(" ", 6+i))
		} else {
			fmt.Fprintf(&props, "%sp%d:\n", strings.Repeat(" ", 6+i), i)
		}
	}
	chain := "z:\n"
	for i := 0; i < 30; i++ {
		// Deep through aliases alone.
		x := "x"
		if i > 0 {
			x = fmt.Sprintf("*c%d", i-1)
		}
		chain += fmt.Sprintf("  c%d: &c%d %s%s%s\n", i, i, strings.Repeat("[", 900), x, strings.Repeat("]", 900))
	}
	bomb := "a0: &a0 [x, y]\n"
	for i := 1; i < 30; i++ {
		bomb += fmt.Sprintf("a%d: &a%d [*a%d, *a%d]\n", i, i, i-1, i-1)
	}
	typeBomb := "types:\n  t0: &t0 {properties: {a: string, b: string}}\n"
	for i := 1; i < 30; i++ {
		typeBomb += fmt.Sprintf("  t%d: &t%d {properties: {a: *t%d, b: *t%d}}\n", i, i, i-1, i-1)
	}
	out := []string{
		"", "\n", " ", "\t", "---", "---\n", "...", "--- ---", "#", "#%RAML 1.0", "#%RAML 1.0\n", "#%RAML 1.0 Library", "\ufeff", "\xff\xfe", "\xfe\xff", "\xff\xfe\x00\x00", "\x00", "\x00\x00\x00",
		"a", "5", "null", "~", "true", "[]", "{}", "[a]", "- a", "*a", "&a", "&a a", "!", "!!", "!!map", "!!map {}", "!!str {}", "!include a", "? a", "? {}", "? [a]\n: b", "{[a]: b}", "{{a: b}: c}", ": a", "{: a}", "{a}", "{? a}",
		"|", ">", "'", "\"", "@", "`", "%", "%YAML", "%YAML 1.1\n---\ntitle: a", "%YAML 9.9\n---\ntitle: a", "%TAG ! tag:x,1:\n---\ntitle: !y a",
		"title: a\n---\ntitle: b\n", "title: a\n---\n[\n", "title: a\n...\ngarbage [", "title: a\ntitle: b", "title: &t a\nversion: *t\n", "title: *t", "<<: {title: a}", "<<: [ {title: a}, {version: b} ]", "<<: a", "<<: &x {<<: *x}", "title: a\n<<: &m\n  types: {a: string}\n",
		"&x a: *x", "types: &x\n  a: *x\n", "types:\n  a: &x\n    properties:\n      b: *x\n", "types:\n  a: &x\n    items: *x\n", "types:\n  a:\n    enum: &x [*x]\n", "types:\n  a:\n    example: &x {value: *x}\n", "(a): &x {b: *x}\n", "traits: &x {a: *x}\n", "foo: &x [*x]\n", "/r: &x {/s: *x}\n",
		"types:\n  a: &x {facets: {f: *x}}\n", "types:\n  a: {type: object, default: &x {a: *x}}\n", "types:\n  ? a\n  : string\n", "types:\n  ? [a]\n  : string\n", "types:\n  ? {a: b}\n  : string\n", "types:\n  ? !!binary aGk=\n  : string\n", "types:\n  !!binary aGk=: string\n", "!<tag:yaml.org,2002:binary> aGk=: x\n", "foo:\n  !!binary aGk=: x\n",
		"!!binary aGk=: x", "!!binary '***': x", "1: x", "1.5: x", "null: x", "~: x", "true: x", "2020-01-01: x", ".nan: x", ".NaN: 1\n.nan: 2", "? null\n: x", "? !!set {a}\n: x", "!!timestamp x: y", "!!int a: b", "!!float q: b", "!!bool q: b", "!!null q: b",
		"types:\n  a:\n    ? [b]\n    : c\n", "types:\n  a:\n    1: c\n", "types:\n  a:\n    !!binary aGk=: c\n", "types:\n  a:\n    '': c\n", "types:\n  '': string\n", "'': x", "'(': {}", "'(': x", "/: x", "(): {}", "'(a': {}", "types: {a: {'': 1, '(': {}, '()': {}}}", "types: {a: {type: nil, '': 1}}", "types: {a: {example: {'': 1, value: x}}}", "documentation: [{'': 1, title: a, content: b}]", "types: {a: {xml: {'': 1}}}",
		"types:\n  a:\n    example:\n      ? [b]\n      : c\n", "types:\n  a:\n    example:\n      value: x\n      ? [b]\n      : c\n", "types:\n  a:\n    xml:\n      ? [b]\n      : c\n", "documentation:\n  - ? [b]\n    : c\n", "uses:\n  ? [b]\n  : c\n", "uses:\n  1: c\n", "(a):\n  ? [b]\n  : c\n", "traits:\n  ? [b]\n  : c\n",
		"types: {a: !!str }", "types: {a: !!map }", "types: {a: !!seq []}", "types: {a: [b, c]}", "types: {a: {type: [b, c]}}", "types: {a: {type: {}}}", "types: {a: {type: {type: object}}}", "types: {a: {type: null}}", "types: {a: {type: 5}}", "types: {a: {type: '', schema: b}}", "types: {a: ''}", "types: {a: !include }", "types: {a: '!include'}", "types: {a: '!include '}", "types: {a: {type: !include }}", "types: {a: |-\n  !include x\n}",
		"title: " + strings.Repeat("x", 200000), strings.Repeat("k", 2000) + ": v", deep("[", "]", 3000), "foo: " + deep("[", "]", 3000), "foo: " + deep("{a: ", "}", 3000), deep("[", "]", 12000), deep("{a: ", "}", 12000), strings.Repeat("- ", 3000), strings.Repeat("? ", 3000), strings.Repeat("a:\n ", 2), "types: {a: " + deep("{items: ", "}", 2000) + "}", "types: {a: " + deep("{properties: {b: ", "}}", 1500) + "}", "types: {a: " + deep("{facets: {f: {g: ", "}}}", 1000) + "}",
		"types:\n  a:\n    type: array\n" + strings.Replace(nest.String(), "      items", "    items", 1), "types:\n  a:\n" + props.String(),
		bomb, chain, "traits: {a: &a [x]}\nfoo: *a\n", bomb + "traits: {x: *a29}\n", typeBomb, "types:\n  a: {type: integer, minimum: 99999999999999999999}", "types:\n  a: {type: string, minLength: 1e2}", "types: {a: {type: number, minimum: 1e400}}", "types: {a: {type: number, minimum: .nan, enum: [.inf, -.inf]}}",
		"mediaType: &m [*m]", "protocols: &m [*m]", "documentation: &m [*m]", "documentation: [null]", "documentation: [a]", "documentation: null", "types: null", "types: []", "types: a", "uses: null", "uses: {a: null}", "securedBy: null", "securedBy: [null]", "(a): null", "/a: null", "/a:",
		"types: {a: {enum: null}}", "types: {a: {examples: null}}", "types: {a: {examples: []}}", "types: {a: {examples: {b: null}}}", "types: {a: {example: null}}", "types: {a: {type: any, example: null}}", "types: {a: {facets: null}}", "types: {a: {facets: {b: null}}}", "types: {a: {xml: null}}", "types: {a: {type: object, properties: null}}", "types: {a: {type: array, items: null}}", "types: {a: {default: null}}",
		"a: b: c", "a:\n\tb: c", "a: [b", "a: {b", "a: \"b", "a: 'b", "a: |2\n b", "a: |0\n b", "a: |99\n b", "a: >+-\n b", "\"\\uD800\": a", "a: \"\\xZZ\"", "a: !<", "a: !<>", "a: !!<x> y", "a: !e!x y", "a: &", "a: *", "a: & b", "a: * b", "- a\nb: c", "a: b\n- c", "a\nb: c", "a: b\n c: d", "[a, b]: c", "!a !b c: d", "&a &b c: d", "a: !x &y !z w",
	}
	return out
}

// hostile gives the input of a case.
func hostile(c *Case) (text []byte, kind string) {
	r := c.R
	odd := oddities()
	if c.Idx < 2*len(odd) {
		return []byte(odd[c.Idx/2]), "oddity"
	}
	lib := r.Intn(2) == 0
	switch r.Intn(8) {
	case 0:
		b := make([]byte, r.Intn(200))
		r.Read(b)
		return b, "random bytes"
	case 1:
		return soup(r), "token soup"
	case 2:
		return damage(r, []byte(odd[r.Intn(len(odd)-30)]), 1+r.Intn(3)), "damaged oddity"
	}
	dropped := 0
	d := genDoc(sub(r), lib, func(g *Gen) *yaml.Node { return g.anyDoc(c, lib) }, &dropped)
	switch r.Intn(6) {
	case 0, 1:
		return damage(r, d.text, 1+r.Intn(4)), "damaged document"
	case 2:
		return d.text[:r.Intn(len(d.text)+1)], "truncated document"
	}
	g := newGen(r)
	g.odd(d.node, 1+r.Intn(5))
	t, err := encode(d.node, 2)
	if err != nil {
		return damage(r, d.text, 1), "damaged document"
	}
	return append([]byte(apiHead+"\n"), t...), "odd nodes"
}

func init() {
	register(&Check{
		id: "C01", quick: 16000, thorough: 1200000, assume: []string{"the memory and time a document needs are bounded by its size as a YAML tree"},
		rule: "random bytes, mixed RAML and YAML tokens, some 250 odd texts, and generated documents damaged in their text or given odd nodes (aliases, cycles, merge keys, foreign tags, complex and repeated keys); each is parsed as an API and as a library under a panic, stack, memory and time monitor, and everything reachable in an accepted document is read and written; distinct by input",
		hang: 60,
		fn: func(c *Case) {
			text, kind := hostile(c)
			c.Input(text)
			c.Distinct(string(text))
			c.See("input:" + kind)
			c.Count("bytes of input", len(text))
			for _, lib := range []bool{false, true} {
				survive(c, lib, text)
			}
		},
	})
}

func survive(c *Case, lib bool, text []byte) {
	stage := "parsing"
	defer func() {
		if e := recover(); e != nil {
			c.Violate("%s (library: %v) panics: %v\n%s", stage, lib, e, trimStack(debug.Stack()))
		}
	}()
	x, err := parseText(lib, text)
	if !c.Check((x == nil) != (err == nil), "parsing (library: %v) gives document %v and error %v", lib, x != nil, err) {
		return
	}
	if err != nil {
		c.Check(err.Error() != "", "the error says nothing")
		c.Count("refused", 1)
		return
	}
	c.Count("accepted", 1)
	stage = "inspecting"
	objs := reach(x)
	c.Count("objects inspected", len(objs))
	// Every object writes all that it holds, so a deep document is sampled.
	most := 300
	if len(text) > 6000 {
		most = 10
	}
	for i := 0; i < len(objs); i += 1 + len(objs)/most {
		o := objs[i]
		n, _ := readMost(o, bytes.IndexByte(text, '*') < 0)
		c.Count("accessors and serializers called", n)
	}
	stage = "writing"
	out, err := writeDoc(x)
	if err != nil {
		c.Count("refused to write", 1)
		return
	}
	stage = "reading back"
	y, err := parseText(lib, out)
	c.Check((y == nil) != (err == nil), "parsing what was written gives document %v and error %v", y != nil, err)
}

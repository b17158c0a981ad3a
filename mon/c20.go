package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"strconv"
	"strings"
	"unicode/utf16"

	"gopkg.in/yaml.v3"
)

// C20: equivalent spellings give equal documents.

// A rewrite changes the spelling of a tree in place and tells how often.
type rewrite struct {
	name string
	fn   func(g *Gen, lib bool, root *yaml.Node) int
}

// some visits the sites in a random half of the tree, innermost first, so that
// a change does not hide the sites inside.
func (g *Gen) some(lib bool, root *yaml.Node, f func(s site) bool) int {
	n, all := 0, sites(lib, root)
	for i := len(all) - 1; i >= 0; i-- {
		if g.p(2, 3) && f(all[i]) {
			n++
		}
	}
	return n
}

func renameKey(m *yaml.Node, from, to string) bool {
	for i := 0; i+1 < len(m.Content); i += 2 {
		if isStr(m.Content[i]) && m.Content[i].Value == from {
			m.Content[i].Value = to
			return true
		}
	}
	return false
}

func (g *Gen) insert(m *yaml.Node, k string, v *yaml.Node) {
	at := 2 * g.r.Intn(len(m.Content)/2+1)
	c := append([]*yaml.Node{}, m.Content[:at]...)
	c = append(c, g.keyNode(k), v)
	m.Content = append(c, m.Content[at:]...)
}

func dropKey(m *yaml.Node, k string) {
	for i := 0; i+1 < len(m.Content); i += 2 {
		if m.Content[i].Value == k {
			m.Content = append(m.Content[:i:i], m.Content[i+2:]...)
			return
		}
	}
}

// restyle gives a string scalar another style.
func (g *Gen) restyle(n *yaml.Node) bool {
	if !isStr(n) || n.Tag != "!!str" && n.Tag != "" {
		return false
	}
	n.Tag = "!!str"
	if strings.Contains(n.Value, "\n") && g.p(1, 2) {
		n.Style = []yaml.Style{yaml.LiteralStyle, yaml.FoldedStyle}[g.r.Intn(2)]
		return true
	}
	n.Style = []yaml.Style{0, yaml.SingleQuotedStyle, yaml.DoubleQuotedStyle, yaml.LiteralStyle, yaml.FoldedStyle, yaml.TaggedStyle | yaml.DoubleQuotedStyle}[g.r.Intn(6)]
	return true
}

func isDefaultFacet(kind string) []facet {
	var out []facet
	for _, f := range kindFacets[kind] {
		if f.def != "" {
			out = append(out, f)
		}
	}
	return out
}

var rewrites = []rewrite{
	{"types/schemas", func(g *Gen, lib bool, root *yaml.Node) int {
		if renameKey(root, "types", "schemas") || renameKey(root, "schemas", "types") {
			return 1
		}
		return 0
	}},
	{"type/schema", func(g *Gen, lib bool, root *yaml.Node) int {
		return g.some(lib, root, func(s site) bool {
			m := s.node()
			return s.class == "decl" && m.Kind == yaml.MappingNode && (renameKey(m, "type", "schema") || renameKey(m, "schema", "type"))
		})
	}},
	{"short/expanded declaration", func(g *Gen, lib bool, root *yaml.Node) int {
		return g.some(lib, root, func(s site) bool {
			if s.class != "decl" {
				return false
			}
			m := s.node()
			switch {
			case m.Kind == yaml.ScalarNode:
				x := g.mapping()
				if m.ShortTag() != "!!null" {
					g.add(x, g.pick([]string{"type", "schema"}), m)
				}
				s.parent.Content[s.idx] = x
			case m.Kind == yaml.MappingNode && len(m.Content) == 2 && typeNode(m) != nil:
				s.parent.Content[s.idx] = m.Content[1]
			case m.Kind == yaml.MappingNode && len(m.Content) == 0:
				s.parent.Content[s.idx] = plain(g.pick([]string{"string", "null", "~"}))
			default:
				return false
			}
			return true
		})
	}},
	{"implicit type", func(g *Gen, lib bool, root *yaml.Node) int {
		return g.some(lib, root, func(s site) bool {
			m := s.node()
			if s.class != "decl" || m.Kind != yaml.MappingNode {
				return false
			}
			if t := typeNode(m); t != nil {
				k, _ := classify(m)
				y := copyNode(m)
				dropKey(y, "type")
				dropKey(y, "schema")
				if k2, _ := classify(y); k2 != k || !isIn(k, []string{"string", "object", "array"}) {
					return false
				}
				s.parent.Content[s.idx] = y
				return true
			}
			k, _ := classify(m)
			g.insert(m, g.pick([]string{"type", "schema"}), g.strNode(k))
			return true
		})
	}},
	{"example form", func(g *Gen, lib bool, root *yaml.Node) int {
		return g.some(lib, root, func(s site) bool {
			if s.class != "example" {
				return false
			}
			n := s.node()
			if expanded(valueClass[s.kind], n) {
				if len(n.Content) != 2 || n.Content[0].Value != "value" || !isStr(n.Content[0]) || expanded(valueClass[s.kind], n.Content[1]) {
					return false
				}
				s.parent.Content[s.idx] = n.Content[1]
				return true
			}
			m := g.mapping()
			g.add(m, "value", n)
			s.parent.Content[s.idx] = m
			return true
		})
	}},
	{"media type form", func(g *Gen, lib bool, root *yaml.Node) int {
		return g.some(lib, root, func(s site) bool {
			if s.class != "mediaType" {
				return false
			}
			n := s.node()
			switch {
			case n.Kind == yaml.ScalarNode:
				l := g.seq()
				l.Content = []*yaml.Node{n}
				s.parent.Content[s.idx] = l
			case len(n.Content) == 1:
				s.parent.Content[s.idx] = n.Content[0]
			default:
				return false
			}
			return true
		})
	}},
	{"explicit default", func(g *Gen, lib bool, root *yaml.Node) int {
		return g.some(lib, root, func(s site) bool {
			m := s.node()
			if m.Kind != yaml.MappingNode {
				return false
			}
			switch {
			case s.class == "example" && expanded(valueClass[s.kind], m):
				if hasKey(m, "strict") {
					for i := 0; i < len(m.Content); i += 2 {
						if m.Content[i].Value == "strict" && typed("bool", m.Content[i+1]).S == "true" {
							dropKey(m, "strict")
							return true
						}
					}
					return false
				}
				g.insert(m, "strict", g.boolOf(true))
				return true
			case s.class == "decl":
				var fs []facet
				if s.kind != "nil" && s.kind != "include" {
					fs = isDefaultFacet(s.kind)
				}
				fs = append(fs, facet{"required", "bool", "true"})
				f := fs[g.r.Intn(len(fs))]
				for i := 0; i < len(m.Content); i += 2 {
					if m.Content[i].Value == f.name {
						if typed(f.class, m.Content[i+1]).S != f.def {
							return false
						}
						dropKey(m, f.name)
						return true
					}
				}
				if f.class == "bool" {
					g.insert(m, f.name, g.boolOf(f.def == "true"))
				} else {
					g.insert(m, f.name, plain(f.def))
				}
				return true
			}
			return false
		})
	}},
	{"facet order", func(g *Gen, lib bool, root *yaml.Node) int {
		n := g.some(lib, root, func(s site) bool {
			m := s.node()
			if m.Kind != yaml.MappingNode || len(m.Content) < 4 {
				return false
			}
			switch s.class {
			case "decl", "xml", "docentry":
			case "example":
				if !expanded(valueClass[s.kind], m) {
					return false
				}
			default:
				return false
			}
			g.reorder(m, s.class, s.kind, lib)
			return true
		})
		g.reorder(root, "root", "", lib)
		return n + 1
	}},
	{"quoting", func(g *Gen, lib bool, root *yaml.Node) int {
		return g.some(lib, root, func(s site) bool {
			switch s.class {
			case "str", "typename", "mediaType":
				return g.restyle(s.node())
			case "decl":
				return s.node().Kind == yaml.ScalarNode && g.restyle(s.node())
			case "strs":
				for _, x := range s.node().Content {
					g.restyle(x)
				}
				return true
			case "time":
				n := s.node()
				if n.ShortTag() == "!!timestamp" {
					n.Tag = "!!str"
				}
				return g.restyle(n)
			}
			return false
		})
	}},
	{"quoted keys", func(g *Gen, lib bool, root *yaml.Node) int {
		n := 0
		key := func(k *yaml.Node) {
			if isStr(k) && k.Style&(yaml.LiteralStyle|yaml.FoldedStyle) == 0 {
				k.Style = []yaml.Style{0, yaml.SingleQuotedStyle, yaml.DoubleQuotedStyle}[g.r.Intn(3)]
				n++
			}
		}
		for i := 0; i < len(root.Content); i += 2 {
			key(root.Content[i])
		}
		return n + g.some(lib, root, func(s site) bool {
			switch s.class {
			case "decl", "types", "props", "uses", "xml", "examples", "facets", "facetdef", "docentry", "section", "annotation":
				m := s.node()
				if m.Kind == yaml.MappingNode {
					for i := 0; i < len(m.Content); i += 2 {
						key(m.Content[i])
					}
				}
			}
			return false
		})
	}},
	{"scalar spelling", func(g *Gen, lib bool, root *yaml.Node) int {
		return g.some(lib, root, func(s site) bool {
			n := s.node()
			if n.Kind != yaml.ScalarNode {
				return false
			}
			switch s.class {
			case "bool":
				v := typed("bool", n)
				*n = *g.boolOf(v.S == "true")
			case "num":
				return g.respell(n)
			case "int", "uint":
				if n.Value[0] >= '0' && n.Value[0] <= '9' {
					n.Value = "+" + n.Value
				} else if n.Value[0] == '+' {
					n.Value = n.Value[1:]
				} else {
					return false
				}
			default:
				return false
			}
			return true
		})
	}},
	{"flow/block", func(g *Gen, lib bool, root *yaml.Node) int {
		return g.some(lib, root, func(s site) bool {
			n := s.node()
			switch s.class {
			case "decl", "types", "props", "uses", "xml", "examples", "facets", "facetdef", "docentry", "documentation", "strs", "mediaType", "enum":
				if n.Kind == yaml.MappingNode || n.Kind == yaml.SequenceNode {
					n.Style ^= yaml.FlowStyle
					return true
				}
			}
			return false
		})
	}},
	{"tags", func(g *Gen, lib bool, root *yaml.Node) int {
		return g.some(lib, root, func(s site) bool {
			n := s.node()
			switch s.class {
			case "decl", "types", "props", "uses", "xml", "examples", "facets", "facetdef", "docentry", "documentation", "strs", "mediaType", "enum":
				if n.Kind == yaml.MappingNode && n.ShortTag() == "!!map" || n.Kind == yaml.SequenceNode && n.ShortTag() == "!!seq" {
					n.Style |= yaml.TaggedStyle
					return true
				}
			case "bool", "int", "uint":
				n.Tag = "!!" + strings.TrimPrefix(s.class, "u")
				n.Style |= yaml.TaggedStyle
				return true
			}
			return false
		})
	}},
}

// respell writes a number in another way.
func (g *Gen) respell(n *yaml.Node) bool {
	v := typed("num", n)
	f, err := strconv.ParseFloat(v.S, 64)
	if err != nil || !finite(f) {
		return false
	}
	s := strconv.FormatFloat(f, "efgE"[g.r.Intn(4)], -1, 64)
	if g.p(1, 3) && !strings.ContainsAny(s, ".eE") {
		s += ".0"
	}
	if x := plain(s); x.ShortTag() == "!!float" || x.ShortTag() == "!!int" && len(s) < 16 {
		*n = *x
		return true
	}
	return false
}

// reorder shuffles the entries of a mapping, but keeps the order among
// annotations, among resources and among unknown entries, which is part of the
// meaning.
func (g *Gen) reorder(m *yaml.Node, class, kind string, lib bool) {
	group := func(k *yaml.Node) string {
		switch {
		case !isStr(k):
			return "extra"
		case isAnn(k) && class != "xml" && class != "docentry" && kind != "nil" && kind != "include":
			return "annotation"
		}
		known := false
		switch class {
		case "decl":
			known = knownFacet(kind)(k.Value)
		case "xml":
			known = isIn(k.Value, []string{"attribute", "wrapped", "name", "namespace", "prefix"})
		case "docentry":
			known = k.Value == "title" || k.Value == "content"
		case "example":
			known = isIn(k.Value, []string{"value", "displayName", "description", "strict"})
		case "root":
			if !lib && strings.HasPrefix(k.Value, "/") {
				return "resource"
			}
			if lib {
				known = isIn(k.Value, libKnown)
			} else {
				known = isIn(k.Value, apiKnown)
			}
		}
		if known {
			return ""
		}
		return "extra"
	}
	old := append([]*yaml.Node{}, m.Content...)
	g.shuffle(m)
	next := map[string]int{}
	for i := 0; i < len(m.Content); i += 2 {
		grp := group(m.Content[i])
		if grp == "" {
			continue
		}
		j := next[grp]
		for group(old[j]) != grp {
			j += 2
		}
		next[grp] = j + 2
		// Filled in below, so that no entry is moved twice.
		m.Content[i], m.Content[i+1] = &yaml.Node{Alias: old[j]}, old[j+1]
	}
	for i := 0; i < len(m.Content); i += 2 {
		if k := m.Content[i]; k.Kind == 0 {
			m.Content[i] = k.Alias
		}
	}
}

// alias replaces repeated nodes, keys and values alike, by aliases.
func (g *Gen) alias(root *yaml.Node) int {
	type slot struct {
		parent *yaml.Node
		idx    int
	}
	var raw func(n *yaml.Node) string
	raw = func(n *yaml.Node) string {
		if n.Kind == yaml.AliasNode {
			return raw(n.Alias)
		}
		s := fmt.Sprintf("%d %q %q", n.Kind, n.ShortTag(), n.Value)
		for _, c := range n.Content {
			s += "(" + raw(c) + ")"
		}
		return s
	}
	first := map[string]*yaml.Node{}
	n := 0
	var anchored func(n *yaml.Node) bool
	anchored = func(n *yaml.Node) bool {
		if n.Anchor != "" {
			return true
		}
		for _, c := range n.Content {
			if anchored(c) {
				return true
			}
		}
		return false
	}
	var walk func(n *yaml.Node)
	rate := 1 + g.r.Intn(4)
	keys := g.p(1, 2)
	walk = func(p *yaml.Node) {
		for i, c := range p.Content {
			k := raw(c)
			isKey := p.Kind == yaml.MappingNode && i%2 == 0
			if a := first[k]; a != nil && (keys || !isKey) && g.p(rate, 4) && !anchored(c) {
				if a.Anchor == "" {
					n++
					a.Anchor = g.pick([]string{"a", "x-", "ref_", "A1"}) + strconv.Itoa(n)
				}
				p.Content[i] = &yaml.Node{Kind: yaml.AliasNode, Value: a.Anchor, Alias: a}
				continue
			}
			first[k] = c
			walk(c)
		}
	}
	walk(root)
	return n
}

// flat gives a tree with every alias replaced by what it refers to.
func flat(n *yaml.Node) *yaml.Node {
	if n.Kind == yaml.AliasNode {
		return flat(n.Alias)
	}
	out := *n
	out.Anchor = ""
	out.Content = nil
	for _, c := range n.Content {
		out.Content = append(out.Content, flat(c))
	}
	return &out
}

// jsonText writes a tree as JSON, if JSON can express it.
func jsonText(b *bytes.Buffer, n *yaml.Node) bool {
	switch n.Kind {
	case yaml.MappingNode:
		if n.ShortTag() != "!!map" {
			return false
		}
		b.WriteByte('{')
		for i := 0; i+1 < len(n.Content); i += 2 {
			if i > 0 {
				b.WriteString(", ")
			}
			if !isStr(n.Content[i]) || !jsonText(b, n.Content[i]) {
				return false
			}
			b.WriteString(": ")
			if !jsonText(b, n.Content[i+1]) {
				return false
			}
		}
		b.WriteByte('}')
		return true
	case yaml.SequenceNode:
		if n.ShortTag() != "!!seq" {
			return false
		}
		b.WriteByte('[')
		for i, x := range n.Content {
			if i > 0 {
				b.WriteString(",\n")
			}
			if !jsonText(b, x) {
				return false
			}
		}
		b.WriteByte(']')
		return true
	case yaml.ScalarNode:
		switch n.ShortTag() {
		case "!!str":
			var x bytes.Buffer
			enc := json.NewEncoder(&x)
			enc.SetEscapeHTML(false)
			if enc.Encode(n.Value) != nil {
				return false
			}
			b.Write(bytes.TrimRight(x.Bytes(), "\n"))
			return true
		case "!!null":
			b.WriteString("null")
			return true
		case "!!bool":
			b.WriteString(strings.ToLower(n.Value))
			return true
		case "!!int", "!!float":
			if n.Style&yaml.TaggedStyle != 0 || strings.ContainsAny(n.Value, "_xob~") {
				return false
			}
			b.WriteString(n.Value)
			return true
		}
	}
	return false
}

// comment adds comments to the modelled nodes.
func (g *Gen) comment(lib bool, root *yaml.Node) int {
	put := func(n *yaml.Node) {
		text := "# " + g.pick([]string{"note", "a: b", "- x", "\"q", "#%RAML 1.0", "type: object", "}"})
		switch g.r.Intn(3) {
		case 0:
			n.HeadComment = text
		case 1:
			n.LineComment = text
		case 2:
			n.HeadComment = text + "\n# second"
		}
	}
	for i := 0; i < len(root.Content); i += 2 {
		if g.p(1, 3) {
			put(root.Content[i])
		}
	}
	return 1 + g.some(lib, root, func(s site) bool {
		m := s.node()
		switch s.class {
		case "str", "bool", "num", "int", "uint", "time", "typename":
			if m.Style&(yaml.LiteralStyle|yaml.FoldedStyle) == 0 {
				put(m)
			}
			return true
		}
		if m.Kind == yaml.MappingNode && s.class != "any" && s.class != "annotation" && s.class != "section" {
			for i := 0; i < len(m.Content); i += 2 {
				if g.p(1, 3) {
					put(m.Content[i])
				}
			}
			return true
		}
		return false
	})
}

// commentAnything adds comments to any node, modelled or not.
func (g *Gen) commentAnything(root *yaml.Node) {
	for _, n := range root.Content {
		if g.p(1, 10) {
			text := "# " + g.pick([]string{"note", "a: b", "- x", "\"q", "#%RAML 1.0", "type: object", "}"})
			switch g.r.Intn(4) {
			case 0:
				n.HeadComment = text
			case 1:
				n.LineComment = text
			case 2:
				n.HeadComment = text + "\n# second"
			case 3:
				n.FootComment = text
			}
		}
		g.commentAnything(n)
	}
}

// A textRewrite changes the text without changing the tree.
type textRewrite struct {
	name string
	fn   func(r *rand.Rand, head, body string) string
}

var textRewrites = []textRewrite{
	{"CRLF", func(r *rand.Rand, head, body string) string { return strings.Replace(head+body, "\n", "\r\n", -1) }},
	{"byte order mark", func(r *rand.Rand, head, body string) string { return "\ufeff" + head + body }},
	{"document end", func(r *rand.Rand, head, body string) string { return head + body + "...\n" }},
	{"no final newline", func(r *rand.Rand, head, body string) string { return head + strings.TrimRight(body, "\n") }},
	{"explicit document", func(r *rand.Rand, head, body string) string { return head + "\n---\n" + body }},
	{"YAML directive", func(r *rand.Rand, head, body string) string { return "%YAML 1.1\n" + head + "---\n" + body }},
	{"trailing comments", func(r *rand.Rand, head, body string) string { return head + body + "\n# the end\n\n  \n# more\n" }},
	{"blank head", func(r *rand.Rand, head, body string) string { return head + "\n\n# a comment\n\n" + body }},
	{"UTF-16", func(r *rand.Rand, head, body string) string {
		u := utf16.Encode([]rune("\ufeff" + head + body))
		b := make([]byte, 0, 2*len(u))
		for _, x := range u {
			b = append(b, byte(x), byte(x>>8))
		}
		return string(b)
	}},
}

// freeFormFree tells whether a document has no content that is kept as written.
func freeFormFree(v *V) bool {
	if v == nil {
		return true
	}
	if v.Kind == 'r' {
		for _, k := range v.K {
			if k == "extra" || k == "annotations" || k == "resources" || isIn(k, apiSections) || k == "discriminatorValue" {
				return false
			}
		}
		if k := v.get("kind"); k != nil {
			cl := valueClass[k.S]
			if (cl == "any" || cl == "anylist") && (v.get("default") != nil || v.get("enum") != nil || v.get("example") != nil || v.get("examples") != nil) {
				return false
			}
		}
	}
	for _, x := range v.M {
		if !freeFormFree(x) {
			return false
		}
	}
	for _, x := range v.L {
		if !freeFormFree(x) {
			return false
		}
	}
	return true
}

func init() {
	register(&Check{
		id: "C20", quick: 4000, thorough: 400000, assume: []string{yamlTrust},
		rule: "a random document and up to four respellings of it, of which an independent reader says that they mean the same; both texts must be accepted, report the same values through every accessor, and be written as the same bytes wherever no free-form content was respelled; distinct by the pair of texts",
		fn: func(c *Case) {
			lib := c.R.Intn(2) == 0
			d := c.gen(lib, func(g *Gen) *yaml.Node { return g.anyDoc(c, lib) })
			x, ok := c.accepted(d)
			if !ok {
				return
			}
			want := obsDocument(x)
			out, ok := c.written(x)
			if !ok {
				return
			}
			for round := 0; round < 3; round++ {
				respelled(c, d, want, out)
				if c.fail {
					return
				}
			}
		},
	})
}

func respelled(c *Case, d *Doc, want *V, out []byte) {
	g := newGen(sub(c.R))
	root := copyNode(d.node)
	stripComments(root)
	var names []string
	for i := 1 + g.r.Intn(4); i > 0; i-- {
		rw := rewrites[g.r.Intn(len(rewrites))]
		if rw.fn(g, d.lib, root) > 0 {
			names = append(names, rw.name)
		}
	}
	exact := freeFormFree(d.want)
	head := apiHead + "\n"
	if d.lib {
		head = libHead + "\n"
	}
	var text []byte
	switch g.r.Intn(6) {
	case 0:
		var b bytes.Buffer
		if !jsonText(&b, root) {
			c.Count("rewritten texts discarded (JSON cannot express them)", 1)
			return
		}
		text = []byte(head + b.String() + "\n")
		names = append(names, "JSON")
	case 1:
		if g.p(1, 2) {
			g.comment(d.lib, root)
			names = append(names, "comments")
		} else {
			g.commentAnything(root)
			names = append(names, "comments anywhere")
		}
		fallthrough
	default:
		if g.p(1, 3) && g.alias(root) > 0 {
			names = append(names, "aliases")
		}
		indent := 1 + g.r.Intn(8)
		if indent < 2 {
			indent = 2
		}
		quoteAwkward(root)
		body, err := encode(root, indent)
		if err != nil {
			c.Count("rewritten texts discarded (the YAML library cannot write them)", 1)
			return
		}
		text = []byte(head + string(body))
		if indent != 4 {
			names = append(names, "indentation")
		}
		if g.p(1, 3) {
			tr := textRewrites[g.r.Intn(len(textRewrites))]
			text = []byte(tr.fn(g.r, head, string(body)))
			names = append(names, tr.name)
		}
	}
	if len(names) == 0 {
		return
	}
	commented := false
	for _, k := range names {
		commented = commented || strings.HasPrefix(k, "comments")
	}
	n, err := docNode(text)
	if err != nil {
		c.Count("rewritten texts discarded (no YAML)", 1)
		return
	}
	n = flat(n)
	if diff("", d.want, canonRoot(d.lib, n)) != "" {
		c.Count("rewritten texts discarded (they mean something else)", 1)
		return
	}
	c.Distinct(string(d.text) + "\x00" + string(text))
	for _, k := range names {
		c.See("rewrite:" + k)
	}
	c.Count("respellings compared", 1)
	c.Input([]byte(string(d.text) + "\n--- respelled (" + strings.Join(names, ", ") + ")\n" + string(text)))
	y, err := parseText(d.lib, text)
	if err != nil || y == nil {
		c.Violate("respelling (%s) makes the document unreadable: %T, %v", strings.Join(names, ", "), y, err)
		return
	}
	if !c.Same("respelling ("+strings.Join(names, ", ")+") changes what the accessors report", want, obsDocument(y)) {
		return
	}
	again, ok := c.written(y)
	if !ok {
		return
	}
	if commented && commentsBreak(d, y, again) {
		c.Count("outputs not compared (the YAML library puts a comment where it breaks the text)", 1)
		return
	}
	if exact {
		c.Count("outputs compared byte for byte", 1)
		c.Check(bytes.Equal(out, again), "respelling (%s) changes what is written: %s", strings.Join(names, ", "), firstDiff(out, again))
		return
	}
	a, err1 := bare(out)
	b, err2 := bare(again)
	if err1 == nil && err2 == nil {
		c.Count("outputs compared byte for byte, but for the style of free-form content", 1)
		if !c.Check(bytes.Equal(a, b), "respelling (%s) changes what is written: %s", strings.Join(names, ", "), firstDiff(a, b)) {
			return
		}
	}
	c.sameText("respelling ("+strings.Join(names, ", ")+") changes the meaning of what is written", d.lib, d.want, again)
}

// commentsBreak tells whether the text written lost its meaning only because of
// the comments in it: the tree behind it is right without its comments, and the
// YAML library alone writes it wrongly with them.
func commentsBreak(d *Doc, y interface{}, text []byte) bool {
	means := func(text []byte, err error) bool {
		if err != nil {
			return false
		}
		got, err := canonText(d.lib, text)
		return err == nil && diff("", d.want, got) == "" && added("", d.want, got) == ""
	}
	if means(text, nil) {
		return false
	}
	var err error
	for m, ok := y.(yaml.Marshaler); ok && err == nil; m, ok = y.(yaml.Marshaler) {
		y, err = m.MarshalYAML()
	}
	tree, ok := y.(*yaml.Node)
	if err != nil || !ok || means(encode(tree, 2)) {
		return false
	}
	tree = copyNode(tree)
	stripComments(tree)
	return means(encode(tree, 2))
}

// bare writes a text without styles and comments.
func bare(text []byte) ([]byte, error) {
	n, err := docNode(text)
	if err != nil {
		return nil, err
	}
	stripComments(n)
	stripStyles(n)
	return encode(n, 2)
}

func stripStyles(n *yaml.Node) {
	n.Tag = n.ShortTag()
	n.Style = 0
	switch n.Tag {
	case "!!null":
		n.Value = "null"
	case "!!bool":
		n.Value = strings.ToLower(n.Value)
	}
	for _, c := range n.Content {
		stripStyles(c)
	}
}

func stripComments(n *yaml.Node) {
	n.HeadComment, n.LineComment, n.FootComment = "", "", ""
	for _, c := range n.Content {
		stripComments(c)
	}
}

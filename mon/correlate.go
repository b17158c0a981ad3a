package main

import (
	"gopkg.in/yaml.v3"
)

// Values that agree by chance in real documents: a display name that is the
// name of the type, a description that repeats the example, bounds that are
// equal, an example that is the default.  Values drawn independently hardly
// ever agree.

// correlate copies values of a document to other places that take them.
func (g *Gen) correlate(lib bool, root *yaml.Node) {
	keyOf := map[*yaml.Node]string{}
	var mark func(n *yaml.Node)
	mark = func(n *yaml.Node) {
		for i, x := range n.Content {
			if n.Kind == yaml.MappingNode && i%2 == 1 {
				keyOf[x] = n.Content[i-1].Value
			}
			mark(x)
		}
	}
	mark(root)
	all := sites(lib, root)
	if len(all) == 0 || len(all) > 1500 {
		return
	}
	text := func(n *yaml.Node) bool {
		return n.Kind == yaml.ScalarNode && n.Tag == "!!str" && n.Anchor == ""
	}
	// A declaration that is replaced takes its nodes out of the document.
	nodes := make([]*yaml.Node, len(all))
	for i, s := range all {
		nodes[i] = s.node()
	}
	used := false
	for i, s := range all {
		n := nodes[i]
		if n.Anchor != "" || g.p(7, 8) {
			continue
		}
		if text(n) && (s.class == "str" || s.class == "any") {
			var from []string
			add := func(x string) { from = append(from, x) }
			for i, x := range s.parent.Content {
				// Siblings, their names and what is inside them.
				if x == n {
					continue
				}
				if text(x) || x.Kind == yaml.ScalarNode && g.p(1, 3) {
					add(x.Value)
					if i%2 == 1 || s.parent.Kind == yaml.SequenceNode {
						add(x.Value)
					}
				}
				for _, y := range x.Content {
					if text(y) && g.p(1, 3) {
						add(y.Value)
					}
				}
			}
			if k, ok := keyOf[n]; ok {
				add(k)
			}
			if k, ok := keyOf[s.parent]; ok {
				add(k)
				add(k)
			}
			if o := nodes[g.r.Intn(len(nodes))]; text(o) {
				add(o.Value)
			}
			if len(from) > 0 {
				n.Value, n.Style = from[g.r.Intn(len(from))], 0
				*n = *g.strNode(n.Value)
				used = true
			}
			continue
		}
		// Values of the same class in the same declaration, or anywhere, whole
		// declarations included.
		near := g.p(1, 2)
		var like []*yaml.Node
		for j, o := range all {
			if o.class != s.class || o.kind != s.kind && s.class != "decl" || o.parent == s.parent && o.idx == s.idx {
				continue
			}
			if s.class == "typename" && o.name != s.name || near && o.parent != s.parent {
				continue
			}
			like = append(like, nodes[j])
		}
		if len(like) > 0 {
			o := like[g.r.Intn(len(like))]
			if o.Anchor == "" && o.Kind != yaml.AliasNode && !within(o, n) && !within(n, o) && size(o) < 80 {
				*n = *copyNode(o)
				used = true
				g.use("agree: " + s.class)
			}
		}
	}
	if used {
		g.use("values that agree")
	}
}

// within tells whether a node is part of another.
func within(n, tree *yaml.Node) bool {
	for _, x := range tree.Content {
		if x == n || within(n, x) {
			return true
		}
	}
	return false
}

func size(n *yaml.Node) int {
	s := 1
	for _, x := range n.Content {
		s += size(x)
	}
	return s
}

// repeats generates a document in which the same few declarations, examples
// and names come again and again.
func (g *Gen) repeats() *yaml.Node {
	g.use("repeated declarations")
	m := mp()
	var some []*yaml.Node
	for i := 1 + g.r.Intn(3); i > 0; i-- {
		kind := g.kind()
		if g.p(1, 3) {
			kind = "custom"
		}
		switch g.r.Intn(4) {
		case 0:
			some = append(some, g.expandedDecl(kind, 1, 3))
		case 1:
			some = append(some, mapNode("type", g.typeName(kind)))
		default:
			some = append(some, g.typeName(kind))
		}
	}
	one := func() *yaml.Node { return copyNode(some[g.r.Intn(len(some))]) }
	few := func(depth int) *yaml.Node {
		t := g.mapping()
		used := map[string]bool{}
		for i := 2 + g.r.Intn(4); i > 0; i-- {
			g.add(t, g.name(used), one())
		}
		return t
	}
	t := few(0)
	used := map[string]bool{}
	for i := 0; i+1 < len(t.Content); i += 2 {
		used[t.Content[i].Value] = true
	}
	if g.p(1, 2) {
		g.add(t, g.name(used), mapNode("properties", few(1)))
	}
	if g.p(1, 2) {
		g.add(t, g.name(used), mapNode("items", one()))
		g.add(t, g.name(used), mapNode("items", one()))
	}
	if g.p(1, 2) {
		g.add(t, g.name(used), mapNode("type", g.typeName(extKinds[g.r.Intn(len(extKinds))]), "facets", mapNode("a", few(2), "b", few(2))))
	}
	g.shuffle(t)
	g.add(m, g.pick([]string{"types", "types", "schemas"}), t)
	return m
}

package main

import "gopkg.in/yaml.v3"

// C02, C03, C04, C05, C12, C23: what is read comes out again.

const yamlTrust = "gopkg.in/yaml.v3 reads YAML correctly; documents it cannot write at all are not generated"

func roundTrip(c *Case, d *Doc) ([]byte, bool) {
	x, ok := c.accepted(d)
	if !ok {
		return nil, false
	}
	out, ok := c.written(x)
	if !ok {
		return nil, false
	}
	c.Count("documents read and written", 1)
	return out, c.sameText("written document", d.lib, d.want, out)
}

func init() {
	register(&Check{
		id: "C02", quick: 14000, thorough: 700000, assume: []string{yamlTrust},
		rule: "random API documents over the whole modelled grammar in random spellings, some of many megabytes; the written text, read by an independent RAML reader, must equal what the independent reader sees in the source; distinct by source text",
		fn: func(c *Case) {
			if c.isHuge() {
				huge(c, false)
				return
			}
			roundTrip(c, c.gen(false, func(g *Gen) *yaml.Node { return g.api() }))
		},
	})
	register(&Check{
		id: "C03", quick: 14000, thorough: 700000, assume: []string{yamlTrust},
		rule: "random libraries over the whole modelled grammar in random spellings, some of many megabytes; the written text, read by an independent RAML reader, must equal what the independent reader sees in the source; distinct by source text",
		fn: func(c *Case) {
			if c.isHuge() {
				huge(c, true)
				return
			}
			roundTrip(c, c.gen(true, func(g *Gen) *yaml.Node { return g.lib() }))
		},
	})
	register(&Check{
		id: "C04", quick: 12000, thorough: 600000, assume: []string{yamlTrust},
		rule: "libraries and API documents holding type declarations of all 16 kinds nested up to 8 deep in properties, items and facet definitions; every facet of every written declaration is compared with the source by an independent reader; distinct by source text",
		fn: func(c *Case) {
			lib := c.R.Intn(2) == 0
			d := c.gen(lib, func(g *Gen) *yaml.Node { return g.typesOnly(c) })
			if _, ok := roundTrip(c, d); ok {
				countDecls(c, d)
			}
		},
	})
	register(&Check{
		id: "C12", quick: 1200, thorough: 50000, assume: []string{yamlTrust},
		rule: "documents whose ordered sections hold up to 40 entries in random order; accessors and written text must list them in source order; distinct by source text",
		fn: func(c *Case) {
			lib := c.R.Intn(2) == 0
			d := c.gen(lib, func(g *Gen) *yaml.Node { return g.wide(lib) })
			x, ok := c.accepted(d)
			if !ok {
				return
			}
			c.Same("accessors", noXMLExtra(d.want), obsDocument(x))
			if out, ok := c.written(x); ok {
				c.sameText("written document", lib, d.want, out)
			}
			orderedBuild(c, d)
		},
	})
	register(&Check{
		id: "C23", quick: 8000, thorough: 400000, assume: []string{yamlTrust},
		rule: "documents full of nested free-form content (tags, odd keys, nulls, odd numbers, timestamps) wherever the library does not interpret it; exposed and written content must equal the source node by node, with scalar types, tags and order; distinct by source text",
		fn: func(c *Case) {
			lib := c.R.Intn(2) == 0
			d := c.gen(lib, func(g *Gen) *yaml.Node { return g.freeform(lib) })
			x, ok := c.accepted(d)
			if !ok {
				return
			}
			c.Same("accessors", noXMLExtra(d.want), obsDocument(x))
			if out, ok := c.written(x); ok {
				c.sameText("written document", lib, d.want, out)
			}
		},
	})
	register(&Check{
		id: "C06", quick: 12000, thorough: 600000, assume: []string{yamlTrust},
		rule: "random documents; what all public accessors report is compared with what an independent RAML reader finds in the source; distinct by source text",
		fn: func(c *Case) {
			lib := c.R.Intn(2) == 0
			d := c.gen(lib, func(g *Gen) *yaml.Node {
				switch {
				case g.p(1, 3):
					return g.typesOnly(c)
				case lib:
					return g.lib()
				}
				return g.api()
			})
			if x, ok := c.accepted(d); ok {
				c.Same("accessors", noXMLExtra(d.want), obsDocument(x))
			}
		},
	})
}

// countDecls counts the declarations of a document by kind and depth.
func countDecls(c *Case, d *Doc) {
	deep := 0
	for _, s := range sites(d.lib, d.node) {
		if s.class == "decl" {
			c.Count("declarations checked", 1)
			if s.depth > deep {
				deep = s.depth
			}
		}
	}
	c.See("nesting depth " + string(rune('0'+deep%10)))
}

// typesOnly generates a document that is all type declarations.
func (g *Gen) typesOnly(c *Case) *yaml.Node {
	if g.isBig() {
		return g.big(true, g.pick(bigTypes))
	}
	if g.p(1, 15) {
		return g.repeats()
	}
	m := &yaml.Node{Kind: yaml.MappingNode, Tag: "!!map"}
	n := g.mapping()
	used := map[string]bool{}
	switch c.Idx % 4 {
	case 0: // one declaration of each kind, in full
		kind := allKinds[(c.Idx/4)%len(allKinds)]
		g.add(n, g.name(used), g.expandedDecl(kind, 2, 1))
		g.use("full:" + kind)
	case 1: // a deep chain
		kind := allKinds[(c.Idx/4)%len(allKinds)]
		d := g.expandedDecl(kind, 1, 2)
		for i := g.r.Intn(7); i > 0; i-- {
			p := g.mapping()
			u2 := map[string]bool{}
			switch g.r.Intn(3) {
			case 0:
				if g.p(1, 2) {
					g.add(p, "type", g.typeName("array"))
				}
				g.add(p, "items", d)
			case 1:
				if g.p(1, 2) {
					g.add(p, "type", g.typeName("object"))
				}
				ps := g.mapping()
				for j := g.r.Intn(3); j > 0; j-- {
					g.add(ps, g.name(u2), g.decl(0))
				}
				g.add(ps, g.name(u2), d)
				g.add(p, "properties", ps)
			default:
				g.add(p, "type", g.typeName(extKinds[g.r.Intn(len(extKinds))]))
				fd := g.mapping()
				g.add(fd, "type", d)
				fs := g.mapping()
				g.add(fs, g.name(u2), fd)
				g.add(p, "facets", fs)
			}
			g.shuffle(p)
			d = p
		}
		g.add(n, g.name(used), d)
		g.use("chain:" + kind)
	default:
		n = g.types(4, 4)
	}
	g.add(m, g.pick([]string{"types", "types", "schemas"}), n)
	return m
}

// wide generates a document with many entries everywhere.
func (g *Gen) wide(lib bool) *yaml.Node {
	if g.p(1, 10) {
		return g.bigAny(lib)
	}
	g.left = 2000
	m := &yaml.Node{Kind: yaml.MappingNode, Tag: "!!map"}
	many := func() int { return 2 + g.r.Intn(40) }
	fill := func(f func() *yaml.Node) *yaml.Node {
		n := g.mapping()
		used := map[string]bool{}
		for i := many(); i > 0; i-- {
			g.add(n, g.name(used), f())
		}
		return n
	}
	secs := apiSections
	if lib {
		secs = libSections
	}
	for _, k := range secs {
		if g.p(1, 3) {
			g.add(m, k, fill(func() *yaml.Node { return g.free(1) }))
			g.use("wide:" + k)
		}
	}
	if g.p(1, 3) {
		g.add(m, "uses", fill(func() *yaml.Node { return g.strNode(g.text()) }))
		g.use("wide:uses")
	}
	g.add(m, "types", fill(func() *yaml.Node {
		if !g.p(1, 12) {
			return g.decl(0)
		}
		cl := g.kind()
		for cl == "nil" || cl == "include" {
			cl = g.kind()
		}
		d := g.mapping()
		g.add(d, "type", g.typeName(cl))
		switch g.r.Intn(5) {
		case 0:
			g.add(d, "examples", fill(func() *yaml.Node { return g.example(valueClass[cl]) }))
			g.use("wide:examples")
		case 1:
			e := g.seq()
			for i := many(); i > 0; i-- {
				e.Content = append(e.Content, g.value(enumClass(cl), 1))
			}
			g.add(d, "enum", e)
			g.use("wide:enum")
		case 2:
			g.add(d, "facets", fill(func() *yaml.Node { return g.types(3, 0) }))
			g.use("wide:facets")
		case 3:
			for i := many(); i > 0; i-- {
				g.add(d, "("+g.name(map[string]bool{})+g.pick(tameWords)+string(rune('A'+i%26))+string(rune('a'+i/26))+")", g.section(1))
			}
			g.use("wide:annotations")
		default:
			g.add(d, "extra1", g.free(1))
			for i := many(); i > 0; i-- {
				g.add(d, "x"+string(rune('A'+(i*7)%26))+string(rune('a'+i/26)), g.free(1))
			}
			g.use("wide:extras")
		}
		return d
	}))
	if g.p(1, 2) {
		g.add(m, "x-types-list", g.freeMapping(2, false))
		o := g.mapping()
		g.add(o, "type", g.typeName("object"))
		g.add(o, "properties", fill(func() *yaml.Node { return g.decl(0) }))
		t := m.Content[1]
		for i := 0; i < len(m.Content); i += 2 {
			if m.Content[i].Value == "types" {
				t = m.Content[i+1]
			}
		}
		g.add(t, "zz wide object", o)
		g.use("wide:properties")
	}
	for i := many(); i > 0 && g.p(19, 20); i-- {
		g.add(m, "("+string(rune('a'+(i*11)%26))+string(rune('a'+i/26))+")", g.section(1))
		g.use("wide:root annotations")
	}
	if g.p(1, 2) {
		for i := many(); i > 0; i-- {
			g.add(m, "e"+string(rune('a'+(i*5)%26))+string(rune('a'+i/26)), g.free(1))
		}
		g.use("wide:root extras")
	}
	if !lib {
		for i := many(); i > 0; i-- {
			g.add(m, "/r"+string(rune('a'+(i*3)%26))+string(rune('a'+i/26)), g.free(1))
		}
		g.use("wide:resources")
		for _, k := range []string{"protocols", "securedBy", "mediaType"} {
			if g.p(1, 2) {
				e := g.seq()
				for i := many(); i > 0; i-- {
					e.Content = append(e.Content, g.strNode(g.text()))
				}
				g.add(m, k, e)
				g.use("wide:" + k)
			}
		}
		if g.p(1, 2) {
			e := g.seq()
			for i := many(); i > 0; i-- {
				x := g.mapping()
				g.add(x, "title", g.strNode(g.text()))
				g.add(x, "content", g.strNode(g.text()))
				e.Content = append(e.Content, x)
			}
			g.add(m, "documentation", e)
			g.use("wide:documentation")
		}
	}
	g.shuffle(m)
	return m
}

// freeform generates a document of uninterpreted content.
func (g *Gen) freeform(lib bool) *yaml.Node {
	if g.isBig() {
		return g.big(lib, g.pick(bigFree))
	}
	g.left = 800
	m := &yaml.Node{Kind: yaml.MappingNode, Tag: "!!map"}
	secs := apiSections
	known := apiKnown
	if lib {
		secs, known = libSections, libKnown
	}
	for _, k := range secs {
		if g.p(1, 2) {
			g.add(m, k, g.section(5))
		}
	}
	g.anns(m, 3)
	g.extras(m, 4, func(s string) bool { return isIn(s, known) || !lib && len(s) > 0 && s[0] == '/' })
	if !lib && g.p(2, 3) {
		used := map[string]bool{}
		for i := g.r.Intn(4); i > 0; i-- {
			g.add(m, "/"+g.name(used), g.free(4))
		}
		if g.p(1, 2) {
			e := g.seq()
			for i := g.r.Intn(3); i > 0; i-- {
				x := g.mapping()
				g.add(x, "title", g.strNode(g.text()))
				g.add(x, "content", g.strNode(g.text()))
				g.extras(x, 3, func(s string) bool { return s == "title" || s == "content" })
				e.Content = append(e.Content, x)
			}
			g.add(m, "documentation", e)
		}
	}
	n := g.mapping()
	used := map[string]bool{}
	for i := 1 + g.r.Intn(4); i > 0; i-- {
		kind := g.kind()
		if g.p(1, 2) {
			kind = g.pick([]string{"any", "custom", "file", "object", "union", "array"})
		}
		d := g.mapping()
		g.add(d, "type", g.typeName(kind))
		g.extras(d, 4, knownFacet(kind))
		if kind != "nil" && kind != "include" {
			g.anns(d, 2)
			cl := valueClass[kind]
			if g.p(1, 2) && (cl == "any" || cl == "anylist") {
				g.add(d, "example", g.example(cl))
				if g.p(1, 2) {
					g.add(d, "default", g.value(cl, 3))
				}
			}
		}
		g.shuffle(d)
		g.use("freeform:" + kind)
		g.add(n, g.name(used), d)
	}
	if g.p(3, 4) {
		g.add(m, "types", n)
	}
	g.shuffle(m)
	if len(m.Content) == 0 {
		g.add(m, "x", g.free(3))
	}
	return m
}

package main

import (
	"embed"
	"fmt"
	"io/ioutil"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"gopkg.in/yaml.v3"
)

// C24: legal RAML is accepted.

//go:embed spec/*.raml
var specFiles embed.FS

type specDoc struct {
	name string
	lib  bool
	text []byte
}

// specDocs are documents in the manner of the RAML 1.0 specification.
func specDocs() []specDoc {
	ents, err := specFiles.ReadDir("spec")
	if err != nil {
		mustf("%v", err)
	}
	var out []specDoc
	for _, e := range ents {
		raw, err := specFiles.ReadFile("spec/" + e.Name())
		if err != nil {
			mustf("%v", err)
		}
		out = append(out, specDoc{e.Name(), strings.HasPrefix(e.Name(), "lib"), raw})
	}
	sort.Slice(out, func(i, j int) bool { return out[i].name < out[j].name })
	return out
}

var specs = specDocs()

// specDecls are the type declarations of these documents.
func specDecls() []*yaml.Node {
	var out []*yaml.Node
	for _, s := range specs {
		root, err := docNode(s.text)
		if err != nil {
			mustf("%s: %v", s.name, err)
		}
		stripComments(root)
		for _, x := range sites(s.lib, root) {
			if x.class == "decl" && x.node().Kind == yaml.MappingNode {
				out = append(out, x.node())
			}
		}
	}
	return out
}

var declPool = specDecls()

// woven nests declarations of the specification in each other.
func (g *Gen) woven(depth int) *yaml.Node {
	n := copyNode(declPool[g.r.Intn(len(declPool))])
	if n.Kind != yaml.MappingNode || depth <= 0 {
		return n
	}
	kind, _ := classify(n)
	switch kind {
	case "object":
		var props *yaml.Node
		for i := 0; i < len(n.Content); i += 2 {
			if n.Content[i].Value == "properties" {
				props = n.Content[i+1]
			}
		}
		if props == nil {
			props = g.mapping()
			g.insert(n, "properties", props)
		}
		if props.Kind == yaml.MappingNode {
			used := map[string]bool{}
			for i := 0; i < len(props.Content); i += 2 {
				used[props.Content[i].Value] = true
			}
			for i := 1 + g.r.Intn(2); i > 0; i-- {
				g.insert(props, g.name(used), g.woven(depth-1))
			}
		}
	case "array":
		for i := 0; i < len(n.Content); i += 2 {
			if n.Content[i].Value == "items" {
				n.Content[i+1] = g.woven(depth - 1)
				return n
			}
		}
		g.insert(n, "items", g.woven(depth-1))
	}
	return n
}

func init() {
	register(&Check{
		id: "C24", quick: 9000, thorough: 500000, assume: []string{yamlTrust, "what is legal is judged by hand-written documents in the manner of the specification and by a generator that follows its grammar; the known findings list the legal constructs the library is known to refuse"},
		rule: "documents in the manner of the RAML 1.0 specification, verbatim, in equivalent spellings and orders, with their declarations nested in each other up to five deep, and generated documents; each must be accepted, reported as an independent reader reads it, written, and accepted again; distinct by text",
		fn:   legal,
		known: func(rep *Report) {
			for _, f := range findings("C24") {
				f.replay(rep)
			}
		},
	})
}

func legal(c *Case) {
	var d *Doc
	switch {
	case c.Idx < len(specs):
		s := specs[c.Idx]
		root, err := docNode(s.text)
		if err != nil {
			mustf("%s: %v", s.name, err)
		}
		d = &Doc{lib: s.lib, text: s.text, want: canonRoot(s.lib, root)}
		c.See("spec:" + s.name)
	default:
		lib := c.R.Intn(2) == 0
		d = c.gen(lib, func(g *Gen) *yaml.Node {
			switch g.r.Intn(4) {
			case 0:
				return g.anyDoc(c, lib)
			case 1:
				// Nested declarations.
				m := &yaml.Node{Kind: yaml.MappingNode, Tag: "!!map"}
				if !lib {
					g.add(m, "title", g.value("str", 0))
				}
				ts := g.mapping()
				used := map[string]bool{}
				for i := 1 + g.r.Intn(4); i > 0; i-- {
					g.add(ts, g.name(used), g.woven(5))
				}
				g.add(m, g.pick([]string{"types", "schemas"}), ts)
				g.shuffle(m)
				c.See("woven")
				return m
			}
			// A document of the specification in another spelling.
			for {
				s := specs[g.r.Intn(len(specs))]
				if s.lib != lib {
					continue
				}
				root, err := docNode(s.text)
				if err != nil {
					mustf("%v", err)
				}
				stripComments(root)
				for i := 1 + g.r.Intn(5); i > 0; i-- {
					rw := rewrites[g.r.Intn(len(rewrites))]
					before := copyNode(root)
					if rw.fn(g, lib, root) > 0 && strings.Contains(canonRoot(lib, root).String(), "!BAD") {
						root = before
						continue
					}
					c.See("rewrite:" + rw.name)
				}
				c.See("spec:" + s.name)
				return root
			}
		})
	}
	c.Input(d.text)
	if strings.Contains(d.want.String(), "!BAD") {
		mustf("the document is not legal: %s", d.want)
	}
	x, ok := c.accepted(d)
	if !ok || !c.Same("accepted document", noXMLExtra(d.want), obsDocument(x)) {
		return
	}
	out, ok := c.written(x)
	if !ok || !c.sameText("written document", d.lib, d.want, out) {
		return
	}
	y, err := parseText(d.lib, out)
	c.Check(err == nil && y != nil, "what was written is refused: %v\n%s", err, clip(out))
}

// A finding is a known failure on one input.
type finding struct {
	prop, what string
	lib        bool
	text       string
}

// findings reads the known findings of a property.  A line is
//
//	known: property=C24 api "text" what fails
func findings(prop string) []finding {
	raw, err := ioutil.ReadFile(filepath.Join(envOr("VERIF_HOME", "/verif"), "known-findings.txt"))
	if err != nil {
		mustf("%v", err)
	}
	var out []finding
	for _, l := range strings.Split(string(raw), "\n") {
		head := "known: property=" + prop + " "
		if !strings.HasPrefix(l, head) {
			continue
		}
		rest := strings.SplitN(l[len(head):], " ", 2)
		if len(rest) != 2 {
			mustf("known finding: %s", l)
		}
		end := strings.LastIndex(rest[1], "\" ")
		text, err := strconv.Unquote(rest[1][:end+1])
		if err != nil {
			mustf("known finding: %s: %v", l, err)
		}
		out = append(out, finding{prop, rest[1][end+2:], rest[0] == "library", text})
	}
	return out
}

// replay runs the input of a finding and reports whether it still fails.
func (f finding) replay(rep *Report) {
	rep.count("known findings executed", 1)
	x, err := parseText(f.lib, []byte(f.text))
	switch {
	case err != nil && x == nil:
		rep.Known = append(rep.Known, fmt.Sprintf("KNOWN-FINDING: property=%s %s: %q", f.prop, f.what, f.text))
	case err == nil && x != nil:
		rep.count("known findings that no longer fail", 1)
	default:
		rep.violation(-1, fmt.Sprintf("document %v and error %v for %q", x != nil, err, f.text), []byte(f.text))
	}
}

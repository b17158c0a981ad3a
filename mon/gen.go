package main

import (
	"bytes"
	"fmt"
	"math"
	"math/rand"
	"regexp"
	"strconv"
	"strings"

	"gopkg.in/yaml.v3"
)

// Gen generates RAML documents as YAML nodes in random spellings.
type Gen struct {
	r     *rand.Rand
	tame  bool            // ordinary names and values only
	block bool            // block style only
	seen  map[string]bool // constructs used
	left  int             // remaining budget of nodes
	fav   string          // a type used more often than others
}

func newGen(r *rand.Rand) *Gen {
	return &Gen{r: r, seen: map[string]bool{}, left: 400, tame: r.Intn(5) == 0, fav: customNames[r.Intn(len(customNames))]}
}

func (g *Gen) use(what string)        { g.seen[what] = true }
func (g *Gen) p(n, of int) bool       { return g.r.Intn(of) < n }
func (g *Gen) pick(s []string) string { return s[g.r.Intn(len(s))] }

var tameWords = []string{"Foo", "bar", "Song", "user", "id", "name", "created", "a", "b", "c", "x1", "lib.Song", "org", "title1", "size", "with-dash", "snake_case"}

var nastyStrs = []string{
	"", " ", "5", "-1", "0x1F", "0o17", "1e3", "1.0", ".5", "true", "True", "false", "null", "~", "yes", "no", "on", "off", "y", "n",
	"2020-01-01", "2016-02-28T16:41:41.090Z", "12:30:00", ".inf", ".nan", "- a", "a: b", "a:b", ": a", "#c", "a #b", "? q", "?", "-", ":",
	"multi\nline", "three\nlines\nhere", "trail\n", "trail2\n\n", "\nlead", "  indented", "trailing  ", "tab\there", "é ü ñ", "日本語", "😀",
	"quote\"double", "quote'single", "back\\slash", "{a}", "{a: b}", "[b]", "[b, c]", "!tag", "&anc", "*ali", "%dir", "@at", "`bt`", "|", ">", "=",
	"---", "...", "key: |", "!include a.raml", "(paren", "/slash", "type", "value", "string", "object", "properties", "strict", "displayName",
	"items", "a, b", "x: [y", "'", "\"", "{{tpl}}", "<<param>>", "<<", "<<resourcePathName | !singularize>>", "null ", "0", "00", "1_000", "+5",
	"#%RAML 1.0", "a\tb: c", "\u00a0nbsp", "\u2028ls", "long " + "word " + strings.Repeat("lorem ipsum dolor ", 12),
	strings.Repeat("x", 130), strings.Repeat("y z ", 80), "a\n  b\n c", "\\n", "$ref", "50%", "http://x/y?z=1#f", "^[a-z]+\\d{2}(a|b)$", "\x01", "\u0085", "\ufeff", "del\x7f",
}

// text generates a string.
func (g *Gen) text() string {
	switch {
	case g.tame || g.p(1, 3):
		return g.pick(tameWords) + strconv.Itoa(g.r.Intn(30))
	case g.p(1, 16):
		return ""
	case g.p(1, 6):
		n := g.r.Intn(12)
		var b strings.Builder
		const abc = "abcXYZ019 _-:#,.'\"\\{}[]()<>|&*!%@?=/\n\tü"
		rs := []rune(abc)
		for i := 0; i < n; i++ {
			b.WriteRune(rs[g.r.Intn(len(rs))])
		}
		return b.String()
	case g.p(1, 10):
		// Blanks or line ends at the ends, often more than one.
		s := g.pick(tameWords)
		if g.p(1, 8) {
			s = ""
		}
		if g.p(1, 2) {
			s = strings.Repeat(g.pick(blanks), 1+g.r.Intn(4)) + s
		}
		if g.p(1, 2) {
			s += strings.Repeat(g.pick(blanks), 1+g.r.Intn(4))
		}
		return s
	case g.p(1, 8):
		// Lines of words, as block scalars have them.
		s := ""
		for i := g.r.Intn(4); i >= 0; i-- {
			for j := g.r.Intn(4); j >= 0; j-- {
				s += g.pick(tameWords) + " "
			}
			s = s[:len(s)-1] + "\n"
		}
		switch g.r.Intn(4) {
		case 0:
			s += "\n"
		case 1:
			s = strings.TrimRight(s, "\n")
		}
		return s
	case g.p(1, 6):
		// Two of them joined, or one wrapped into blanks or line ends.
		if g.p(1, 2) {
			return g.pick(nastyStrs) + g.pick(joints) + g.pick(nastyStrs)
		}
		return g.pick(joints) + g.pick(joints) + g.pick(nastyStrs) + g.pick(joints) + g.pick(joints)
	default:
		return g.pick(nastyStrs)
	}
}

var blanks = []string{" ", "\n", "\n", "\t", "\r\n", "\n ", " \n"}

var joints = []string{"", "", " ", "\n", "\n\n", "\t", ":", ",", "#", " #", ": ", "\"", "'", "\\", "|", "/", "-", "!", "&", "*", ".", "\r\n", "\r"}

// name generates a key that is not in used and adds it.
func (g *Gen) name(used map[string]bool) string {
	for i := 0; ; i++ {
		s := ""
		switch {
		case g.tame || g.p(3, 4):
			s = g.pick(tameWords)
			if i > 0 || g.p(1, 2) {
				s += strconv.Itoa(g.r.Intn(50 + i))
			}
		default:
			s = g.text()
			if len(s) > 100 && !g.p(1, 10) {
				s = s[:20]
			}
		}
		if used[s] {
			continue
		}
		used[s] = true
		return s
	}
}

func sc(tag, val string, st yaml.Style) *yaml.Node {
	return &yaml.Node{Kind: yaml.ScalarNode, Tag: tag, Value: val, Style: st}
}

// plain returns a node whose type is given by the text alone.
func plain(val string) *yaml.Node {
	n := &yaml.Node{Kind: yaml.ScalarNode, Value: val}
	n.Tag = n.ShortTag()
	return n
}

// strNode writes a string in a random style.
func (g *Gen) strNode(s string) *yaml.Node {
	n := sc("!!str", s, 0)
	switch g.r.Intn(8) {
	case 0:
		n.Style = yaml.SingleQuotedStyle
	case 1:
		n.Style = yaml.DoubleQuotedStyle
	case 2:
		if !g.block && strings.Contains(s, "\n") || g.p(1, 8) {
			n.Style = yaml.LiteralStyle
		}
	case 3:
		if g.p(1, 4) || strings.HasSuffix(s, "\n") && !g.block {
			n.Style = yaml.FoldedStyle
		}
	case 4:
		if g.p(1, 6) && !g.tame {
			n.Style = yaml.TaggedStyle
			g.use("style:!!str")
		}
	}
	return n
}

func (g *Gen) keyNode(s string) *yaml.Node {
	n := sc("!!str", s, 0)
	switch g.r.Intn(10) {
	case 0:
		n.Style = yaml.SingleQuotedStyle
	case 1:
		n.Style = yaml.DoubleQuotedStyle
	}
	return n
}

func (g *Gen) style(n *yaml.Node) *yaml.Node {
	if !g.block && g.p(1, 8) {
		n.Style |= yaml.FlowStyle
	}
	return n
}

func (g *Gen) seq() *yaml.Node {
	return g.style(&yaml.Node{Kind: yaml.SequenceNode, Tag: "!!seq"})
}
func (g *Gen) mapping() *yaml.Node {
	return g.style(&yaml.Node{Kind: yaml.MappingNode, Tag: "!!map"})
}

func (g *Gen) add(m *yaml.Node, k string, v *yaml.Node) {
	m.Content = append(m.Content, g.keyNode(k), v)
}

// shuffle permutes the entries of a mapping.
func (g *Gen) shuffle(m *yaml.Node) {
	n := len(m.Content) / 2
	g.r.Shuffle(n, func(i, j int) {
		c := m.Content
		c[2*i], c[2*j] = c[2*j], c[2*i]
		c[2*i+1], c[2*j+1] = c[2*j+1], c[2*i+1]
	})
}

func (g *Gen) boolNode() *yaml.Node {
	return g.boolOf(g.p(1, 2))
}

func (g *Gen) boolOf(b bool) *yaml.Node {
	if b {
		return plain(g.pick([]string{"true", "true", "True", "TRUE"}))
	}
	return plain(g.pick([]string{"false", "false", "False", "FALSE"}))
}

var intPool = []int64{0, 1, -1, 2, 7, 10, 255, -128, 65536, 2147483646, 2147483647, 2147483648, -2147483648, -2147483649, 4294967295, 4294967296,
	9007199254740991, 9007199254740993, math.MaxInt64, math.MinInt64, math.MaxInt64 - 1, 1000000, 123456789012345678}

func (g *Gen) intVal() int64 {
	switch g.r.Intn(3) {
	case 0:
		return int64(g.r.Intn(1000)) - 300
	case 1:
		return intPool[g.r.Intn(len(intPool))]
	}
	return int64(g.r.Uint64())
}

var uintPool = []uint64{0, 1, 2, 3, 10, 255, 256, 2147483645, 2147483646, 2147483647, 2147483648, 4294967295, 4294967296, math.MaxInt64}

func (g *Gen) uintVal() uint64 {
	if g.p(1, 2) {
		return uintPool[g.r.Intn(len(uintPool))]
	}
	return uint64(g.r.Int63n(100000))
}

var numPool = []float64{0, 1, -1, 0.1, 0.30000000000000004, 1.5, -2.25, 3, 100, 1e21, 1e-7, 123456789.123456789, 9007199254740993, 1e6, 12345678, 0.001,
	math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, math.Pi, 1.0 / 3, 4.9e-324, 1e300, 65504.5, 16777217, 5e-5}

func (g *Gen) numVal() float64 {
	switch g.r.Intn(4) {
	case 0:
		return float64(g.r.Intn(2000)-500) / 8
	case 1:
		return numPool[g.r.Intn(len(numPool))]
	case 2:
		return g.r.NormFloat64() * math.Pow(10, float64(g.r.Intn(40)-20))
	}
	for {
		if f := math.Float64frombits(g.r.Uint64()); finite(f) {
			return f
		}
	}
}

func (g *Gen) numNode() *yaml.Node {
	if g.p(1, 4) {
		return plain(strconv.FormatInt(g.intVal(), 10))
	}
	f := g.numVal()
	s := strconv.FormatFloat(f, "gge"[g.r.Intn(3)], -1, 64)
	if math.Abs(f) < 1e15 && g.p(1, 2) {
		s = strconv.FormatFloat(f, 'f', -1, 64)
	}
	if g.p(1, 6) && !strings.ContainsAny(s, ".e") {
		s += ".0"
	}
	n := plain(s)
	if n.ShortTag() != "!!int" && n.ShortTag() != "!!float" {
		return plain("1.25")
	}
	return n
}

var timePool = []string{"2020-01-01", "2016-02-28T16:41:41.090Z", "2016-02-28T16:41:41Z", "12:30:00", "2015-07-04T21:00:00", "Sun, 28 Feb 2016 16:41:41 GMT", "2001-12-14t21:59:43.10-05:00", "2001-12-14 21:59:43.10 -5", "1999-12-31", "23:59:59.999"}

func (g *Gen) timeNode() *yaml.Node {
	s := g.pick(timePool)
	if g.p(1, 5) {
		s = g.text()
	} else if g.p(1, 3) {
		s = fmt.Sprintf("%04d-%02d-%02d", 1900+g.r.Intn(200), 1+g.r.Intn(12), 1+g.r.Intn(28))
	}
	if g.p(1, 2) {
		if n := plain(s); n.ShortTag() == "!!timestamp" {
			g.use("date:unquoted")
			return n
		}
	}
	return g.strNode(s)
}

// value generates a node of the given class.
func (g *Gen) value(class string, depth int) *yaml.Node {
	g.left--
	switch class {
	case "str":
		return g.strNode(g.text())
	case "bool":
		return g.boolNode()
	case "int":
		s := strconv.FormatInt(g.intVal(), 10)
		if g.p(1, 20) && s[0] != '-' {
			s = "+" + s
		}
		return plain(s)
	case "uint":
		return plain(strconv.FormatUint(g.uintVal(), 10))
	case "num":
		return g.numNode()
	case "time":
		return g.timeNode()
	case "strs":
		n := g.seq()
		for i := g.r.Intn(4); i > 0; i-- {
			n.Content = append(n.Content, g.strNode(g.text()))
		}
		return n
	case "anylist":
		n := g.seq()
		for i := g.r.Intn(4); i > 0; i-- {
			n.Content = append(n.Content, g.free(depth-1))
		}
		return n
	case "any":
		return g.free(depth)
	}
	panic("class " + class)
}

var oddScalars = []string{"0x1F", "0o17", "017", "1_000", "0b101", ".inf", "-.inf", ".NaN", "~", "null", "Null", "1e3", "-0.5", "+12", "12e03", "0.", "2020-01-01", "2001-12-14t21:59:43.10-05:00",
	"18446744073709551615", "9223372036854775808", "123456789012345678901234567890", "1.7976931348623157e+308", "true", "FALSE", "yes", "No", "on"}

// free generates free-form content.
func (g *Gen) free(depth int) *yaml.Node {
	g.left--
	k := g.r.Intn(20)
	if depth <= 0 || g.left <= 0 {
		k = g.r.Intn(12)
	}
	switch {
	case k < 5:
		return g.strNode(g.text())
	case k < 6:
		return g.boolNode()
	case k < 7:
		return plain(strconv.FormatInt(g.intVal(), 10))
	case k < 8:
		return g.numNode()
	case k < 9:
		if g.tame {
			return plain("12")
		}
		return plain(g.pick(oddScalars))
	case k < 10:
		g.use("free:null")
		return plain(g.pick([]string{"null", "~", "null"}))
	case k < 11 && !g.tame:
		g.use("free:tag")
		switch g.r.Intn(5) {
		case 0:
			return sc("!foo", g.text(), yaml.TaggedStyle|yaml.DoubleQuotedStyle)
		case 1:
			return sc("!!binary", "aGVsbG8=", yaml.TaggedStyle)
		case 2:
			return sc("!!int", "42", yaml.TaggedStyle|yaml.DoubleQuotedStyle)
		case 3:
			return sc("!bar", "plain", yaml.TaggedStyle)
		}
		return sc("!include", "dir/"+g.pick(tameWords)+".raml", yaml.TaggedStyle)
	case k < 12:
		return sc("!include", g.pick(tameWords)+".raml", yaml.TaggedStyle)
	case k < 15:
		n := g.seq()
		for i := g.r.Intn(4); i > 0; i-- {
			n.Content = append(n.Content, g.free(depth-1))
		}
		if !g.tame && g.p(1, 20) {
			n.Tag, n.Style = "!list", n.Style|yaml.TaggedStyle
		}
		return n
	default:
		return g.freeMapping(depth-1, !g.tame)
	}
}

func (g *Gen) freeMapping(depth int, anyKeys bool) *yaml.Node {
	n := g.mapping()
	used := map[string]bool{}
	for i := g.r.Intn(5); i > 0; i-- {
		if anyKeys && g.p(1, 12) {
			g.use("free:odd key")
			var k *yaml.Node
			switch g.r.Intn(4) {
			case 0:
				k = plain(strconv.Itoa(g.r.Intn(1000)))
			case 1:
				k = g.boolNode()
				k.Value = strings.ToLower(k.Value)
			case 2:
				k = plain("1.5")
			default:
				k = plain("null")
			}
			if !used[k.Value] {
				used[k.Value] = true
				n.Content = append(n.Content, k, g.free(depth))
			}
			continue
		}
		key := ""
		if g.p(1, 6) {
			key = g.pick([]string{"value", "displayName", "description", "strict", "type", "properties", "items", "title", "example", "required", "(ann)", "/res", "get", "responses"})
			if used[key] {
				continue
			}
			used[key] = true
		} else {
			key = g.name(used)
		}
		n.Content = append(n.Content, g.keyNode(key), g.free(depth))
	}
	if !g.tame && g.p(1, 25) {
		n.Tag, n.Style = "!map", n.Style|yaml.TaggedStyle
	}
	return n
}

// section generates a map with string keys and free-form values.
func (g *Gen) section(depth int) *yaml.Node {
	n := g.mapping()
	used := map[string]bool{}
	for i := 1 + g.r.Intn(4); i > 0; i-- {
		g.add(n, g.name(used), g.free(depth))
	}
	return n
}

func (g *Gen) annName(used map[string]bool) string {
	for {
		s := "(" + g.pick(tameWords)
		if g.p(1, 2) {
			s += strconv.Itoa(g.r.Intn(9))
		}
		if !g.p(1, 12) || g.tame {
			s += ")"
		}
		if !used[s] {
			used[s] = true
			return s
		}
	}
}

// anns adds annotations to a mapping.
func (g *Gen) anns(m *yaml.Node, max int) {
	used := map[string]bool{}
	for i := g.r.Intn(max + 1); i > 0; i-- {
		v := g.mapping()
		if !g.p(1, 8) {
			v = g.section(1)
		}
		g.add(m, g.annName(used), v)
		g.use("annotation")
	}
}

// extras adds unknown facets to a mapping.
func (g *Gen) extras(m *yaml.Node, max int, known func(string) bool) {
	used := map[string]bool{}
	for i := g.r.Intn(max + 1); i > 0; i-- {
		g.use("extra")
		if !g.tame && g.p(1, 10) {
			k := plain(g.pick([]string{"12", "1.5", "true", "null", "2020-01-01", "-3"}))
			if !used[k.Value] {
				used[k.Value] = true
				m.Content = append(m.Content, k, g.free(2))
				g.use("extra:odd key")
			}
			continue
		}
		s := g.name(used)
		if g.p(1, 5) {
			f := g.pick([]string{"items", "properties", "minLength", "maxLength", "pattern", "uniqueItems", "minItems", "maxItems", "minimum", "maximum", "format", "multipleOf", "fileTypes", "discriminator", "discriminatorValue", "minProperties", "additionalProperties", "title", "value", "strict", "name", "wrapped", "types", "usage", "uses", "content", "allowedTargets", "repeat", "default", "enum", "example", "required", "xml", "facets"})
			if used[f] {
				continue
			}
			used[f] = true
			s = f
		}
		if known(s) || strings.HasPrefix(s, "(") {
			continue
		}
		g.add(m, s, g.free(2))
	}
}

func knownFacet(kind string) func(string) bool {
	return func(s string) bool {
		if s == "type" || s == "schema" || s == "required" {
			return true
		}
		if kind == "nil" || kind == "include" {
			return false
		}
		if _, ok := facetOf(kind, s); ok {
			return true
		}
		switch s {
		case "displayName", "description", "default", "enum", "example", "examples", "facets", "xml":
			return true
		case "properties", "items":
			return false
		}
		return false
	}
}

var customNames = []string{"Foo", "Song", "lib.Song", "Foo[]", "string[]", "multi", "custom", "include", "union", "bool", "int", "float", "date", "Object", "STRING", " string", "string ", "null", "array[]", "date-time", "schema", "application/json", "{\"type\": \"object\"}", "<xs:schema/>", "file-only", "anyOf", "", "lib.user", "org.Foo", "a.b.c", "lib.Song[]", "song", "Song[][]"}
var unionNames = []string{"Foo | Bar", "string|nil", "(A | B)[]", "any | any", "object | array", "|", "nil | integer", "string | !include x"}

// target generates what an include refers to.
func (g *Gen) target() string {
	s := g.pick(tameWords)
	switch {
	case g.tame || g.p(1, 2):
		return g.pick([]string{"types/", "", "../"}) + s + ".raml"
	case g.p(1, 4):
		g.use("include:odd target")
		return s + g.pick(nastyStrs)
	}
	return g.pick([]string{"types/", "", "../", "./", "/abs/", "http://x.org/a?b=c&d=", "a b/", "C:\\x\\", "!include ", "x|y/", "string", "[]"}) + s +
		g.pick([]string{".raml", ".json", ".xsd", "", ".raml#Foo", ".json#/definitions/A", ".xsd#", "?x#y#z", "[]", " | Foo", ".raml ", ".RAML", ":", "!"})
}

// typeName generates the name of a type of the given kind.
func (g *Gen) typeName(kind string) *yaml.Node {
	switch kind {
	case "include":
		if g.p(1, 4) {
			g.use("include:quoted")
			return sc("!!str", "!include "+g.target(), yaml.DoubleQuotedStyle)
		}
		return sc("!include", g.target(), yaml.TaggedStyle)
	case "union":
		return g.strNode(g.pick(unionNames))
	case "custom":
		// The same types are used again and again.
		if g.p(1, 3) {
			return g.strNode(g.fav)
		}
		if !g.tame && g.p(1, 5) {
			s := g.text()
			if k, _ := kindOf(s); k == "custom" {
				return g.strNode(s)
			}
		}
		return g.strNode(g.pick(customNames))
	}
	return g.strNode(kind)
}

func (g *Gen) kind() string { return allKinds[g.r.Intn(len(allKinds))] }

// decl generates a type declaration.
func (g *Gen) decl(depth int) *yaml.Node {
	kind := g.kind()
	if depth > 0 && g.p(1, 4) {
		kind = g.pick([]string{"object", "array", "object"})
	}
	return g.declOf(kind, depth)
}

func (g *Gen) declOf(kind string, depth int) *yaml.Node {
	g.left--
	g.use("kind:" + kind)
	if g.p(1, 5) || g.left <= 0 {
		g.use("short:" + kind)
		if kind == "string" && g.p(1, 4) {
			g.use("decl:empty")
			return plain(g.pick([]string{"null", "~"}))
		}
		return g.typeName(kind)
	}
	return g.expandedDecl(kind, depth, 3)
}

// expandedDecl generates an expanded declaration.  Of n facets about one is
// left out if rate is n.
func (g *Gen) expandedDecl(kind string, depth, rate int) *yaml.Node {
	m := g.mapping()
	implicit := false
	if g.p(1, 4) {
		switch kind {
		case "string", "object", "array":
			implicit = true
		}
	}
	if !implicit {
		key := "type"
		if g.p(1, 6) {
			key = "schema"
			g.use("schema")
		}
		g.add(m, key, g.typeName(kind))
	} else {
		g.use("implicit:" + kind)
	}
	if g.p(1, 3) {
		g.add(m, "required", g.boolNode())
		g.use("required:" + kind)
	}
	if kind == "nil" || kind == "include" {
		g.extras(m, 3, knownFacet(kind))
		if g.p(1, 3) {
			g.anns(m, 2)
		}
		g.shuffle(m)
		return m
	}
	want := func() bool { return g.p(1, rate) }
	for _, f := range kindFacets[kind] {
		must := implicit && (f.name == "properties" || f.name == "items")
		if !must && !want() {
			continue
		}
		if f.class == "type" || f.class == "props" {
			if (depth <= 0 || g.left <= 0) && !must {
				continue
			}
		}
		g.use(kind + "." + f.name)
		switch f.class {
		case "type":
			g.add(m, f.name, g.decl(depth-1))
		case "props":
			n := g.mapping()
			used := map[string]bool{}
			decl := g.decls()
			for i := g.upTo(3); i > 0; i-- {
				g.add(n, g.name(used), decl(depth-1))
			}
			g.add(m, f.name, n)
		case "any":
			g.add(m, f.name, g.free(2))
		default:
			if f.name == "format" {
				g.add(m, f.name, g.strNode(g.pick([]string{"int", "int8", "int16", "int32", "int64", "long", "float", "double", "rfc3339", "rfc2616", "other", "INT", "5"})))
			} else {
				g.add(m, f.name, g.value(f.class, 2))
			}
		}
	}
	cl := valueClass[kind]
	if want() {
		g.add(m, "displayName", g.value("str", 0))
		g.use(kind + ".displayName")
	}
	if want() {
		g.add(m, "description", g.value("str", 0))
		g.use(kind + ".description")
	}
	if want() {
		g.add(m, "default", g.value(cl, 2))
		g.use(kind + ".default")
	}
	if want() {
		n := g.seq()
		for i := g.upTo(3); i > 0; i-- {
			n.Content = append(n.Content, g.value(enumClass(kind), 2))
		}
		g.add(m, "enum", n)
		g.use(kind + ".enum")
	}
	switch g.r.Intn(4) {
	case 0:
		g.add(m, "example", g.example(cl))
		g.use(kind + ".example")
	case 1:
		n := g.mapping()
		used := map[string]bool{}
		for i := g.upTo(3); i > 0; i-- {
			g.add(n, g.name(used), g.example(cl))
		}
		g.add(m, "examples", n)
		g.use(kind + ".examples")
	}
	if g.p(1, 5) {
		n := g.mapping()
		used := map[string]bool{}
		for i := g.upTo(2); i > 0; i-- {
			f := g.mapping()
			u2 := map[string]bool{}
			for j := g.upTo(2); j > 0; j-- {
				k := "type"
				if u2[k] || g.p(1, 2) {
					k = g.name(u2)
				}
				u2[k] = true
				g.add(f, k, g.decl(minInt(depth-1, 1)))
			}
			g.add(n, g.name(used), f)
		}
		g.add(m, "facets", n)
		g.use(kind + ".facets")
	}
	if g.p(1, 5) {
		g.add(m, "xml", g.xml())
		g.use(kind + ".xml")
	}
	if g.p(1, 3) {
		g.anns(m, 2)
	}
	if g.p(1, 3) {
		g.extras(m, 2, func(s string) bool {
			return knownFacet(kind)(s) || implicit && (s == "properties" || s == "items")
		})
	}
	g.shuffle(m)
	return m
}

func (g *Gen) xml() *yaml.Node {
	x := g.mapping()
	for _, k := range []string{"attribute", "wrapped"} {
		if g.p(1, 2) {
			g.add(x, k, g.boolNode())
		}
	}
	for _, k := range []string{"name", "namespace", "prefix"} {
		if g.p(1, 2) {
			g.add(x, k, g.value("str", 0))
		}
	}
	if g.p(1, 4) {
		g.extras(x, 2, func(s string) bool {
			return isIn(s, []string{"attribute", "wrapped", "name", "namespace", "prefix"})
		})
	}
	g.shuffle(x)
	return x
}

// example generates an example of the given value class.
func (g *Gen) example(class string) *yaml.Node {
	if g.p(1, 2) {
		g.use("example:plain:" + class)
		if class != "any" {
			return g.value(class, 2)
		}
		for {
			// A map with a value key would be the expanded form.
			if n := g.free(2); !expanded(class, n) {
				return n
			}
		}
	}
	g.use("example:expanded:" + class)
	m := g.mapping()
	if class == "any" || !g.p(1, 10) {
		g.add(m, "value", g.value(class, 2))
	}
	if g.p(1, 3) {
		g.add(m, "displayName", g.value("str", 0))
	}
	if g.p(1, 3) {
		g.add(m, "description", g.value("str", 0))
	}
	if g.p(1, 3) {
		g.add(m, "strict", g.boolNode())
	}
	if g.p(1, 3) {
		g.anns(m, 2)
	}
	if g.p(1, 4) {
		g.extras(m, 2, func(s string) bool {
			return isIn(s, []string{"value", "displayName", "description", "strict"})
		})
	}
	g.shuffle(m)
	return m
}

// types generates a types section.
func (g *Gen) types(max, depth int) *yaml.Node {
	n := g.mapping()
	used := map[string]bool{}
	decl := g.decls()
	for i := g.r.Intn(max + 1); i > 0; i-- {
		g.add(n, g.name(used), decl(depth))
	}
	return n
}

// upTo gives a number of entries, which is seldom a larger one.
func (g *Gen) upTo(max int) int {
	if g.left > 60 && g.p(1, 60) {
		n := 6 + g.r.Intn(40)
		g.left -= n
		g.use("map or list of medium size")
		return n
	}
	return g.r.Intn(max + 1)
}

// decls gives a generator of the declarations of one map.  They are of any
// kind, or all of one or two kinds.
func (g *Gen) decls() func(depth int) *yaml.Node {
	if g.p(2, 3) {
		return g.decl
	}
	g.use("map of alike types")
	kinds := []string{g.kind()}
	if g.p(1, 3) {
		kinds = append(kinds, g.kind())
	}
	return func(depth int) *yaml.Node { return g.declOf(g.pick(kinds), depth) }
}

func (g *Gen) resource(depth int) *yaml.Node {
	if g.p(1, 3) {
		return g.free(2)
	}
	m := g.mapping()
	if g.p(1, 2) {
		g.add(m, "displayName", g.value("str", 0))
	}
	for _, method := range []string{"get", "post", "delete"} {
		if g.p(1, 3) {
			x := g.mapping()
			g.add(x, "description", g.value("str", 0))
			resp := g.mapping()
			resp.Content = append(resp.Content, plain(g.pick([]string{"200", "404", "201"})), g.free(2))
			g.add(x, "responses", resp)
			if g.p(1, 2) {
				g.add(x, "queryParameters", g.types(2, 1))
			}
			if g.p(1, 2) {
				g.add(x, "body", g.decl(1))
			}
			g.add(m, method, x)
		}
	}
	if depth > 0 && g.p(1, 2) {
		g.add(m, "/"+g.pick(tameWords), g.resource(depth-1))
	}
	return m
}

var apiKnown = append([]string{"title", "version", "baseUri", "description", "protocols", "mediaType", "documentation", "securedBy", "uses", "types", "schemas"}, apiSections...)
var libKnown = append([]string{"usage", "uses", "types", "schemas"}, libSections...)

// api generates an API document.
func (g *Gen) api() *yaml.Node {
	if g.isBig() {
		return g.bigAny(false)
	}
	m := &yaml.Node{Kind: yaml.MappingNode, Tag: "!!map"}
	rate := 2 + g.r.Intn(3)
	want := func() bool { return g.p(1, rate) }
	if !g.p(1, 10) {
		g.add(m, "title", g.value("str", 0))
	}
	for _, k := range []string{"version", "baseUri", "description"} {
		if want() {
			g.add(m, k, g.value("str", 0))
			g.use("api." + k)
		}
	}
	for _, k := range []string{"protocols", "securedBy"} {
		if want() {
			g.add(m, k, g.value("strs", 0))
			g.use("api." + k)
		}
	}
	if want() {
		g.use("api.mediaType")
		if g.p(1, 2) {
			g.add(m, "mediaType", g.value("str", 0))
		} else {
			g.add(m, "mediaType", g.value("strs", 0))
		}
	}
	if want() {
		g.use("api.documentation")
		d := g.seq()
		for i := g.r.Intn(4); i > 0; i-- {
			x := g.mapping()
			g.add(x, "title", g.value("str", 0))
			g.add(x, "content", g.value("str", 0))
			if g.p(1, 3) {
				g.extras(x, 2, func(s string) bool { return s == "title" || s == "content" })
			}
			g.shuffle(x)
			d.Content = append(d.Content, x)
		}
		g.add(m, "documentation", d)
	}
	for _, k := range apiSections {
		if want() {
			g.add(m, k, g.section(3))
			g.use("api." + k)
		}
	}
	if want() {
		g.add(m, "uses", g.uses())
		g.use("api.uses")
	}
	if !g.p(1, 4) {
		k := "types"
		if g.p(1, 5) {
			k = "schemas"
			g.use("schemas")
		}
		g.add(m, k, g.types(5, 3))
	}
	if want() {
		g.anns(m, 3)
	}
	if want() {
		g.extras(m, 3, func(s string) bool { return isIn(s, apiKnown) || strings.HasPrefix(s, "/") })
	}
	if want() {
		used := map[string]bool{}
		for i := 1 + g.r.Intn(3); i > 0; i-- {
			if k := "/" + g.pick([]string{"", "a", "b/{id}", "songs", "x y", "{ext}"}); !used[k] {
				used[k] = true
				g.add(m, k, g.resource(2))
				g.use("api.resource")
			}
		}
	}
	g.shuffle(m)
	if len(m.Content) == 0 {
		g.add(m, "title", g.value("str", 0))
	}
	return m
}

func (g *Gen) uses() *yaml.Node {
	n := g.mapping()
	used := map[string]bool{}
	for i := g.r.Intn(4); i > 0; i-- {
		g.add(n, g.name(used), g.value("str", 0))
	}
	return n
}

// lib generates a library.
func (g *Gen) lib() *yaml.Node {
	if g.isBig() {
		return g.bigAny(true)
	}
	m := &yaml.Node{Kind: yaml.MappingNode, Tag: "!!map"}
	rate := 2 + g.r.Intn(3)
	want := func() bool { return g.p(1, rate) }
	if want() {
		g.add(m, "usage", g.value("str", 0))
		g.use("lib.usage")
	}
	if want() {
		g.add(m, "uses", g.uses())
		g.use("lib.uses")
	}
	for _, k := range libSections {
		if want() {
			g.add(m, k, g.section(3))
			g.use("lib." + k)
		}
	}
	if !g.p(1, 4) {
		k := "types"
		if g.p(1, 5) {
			k = "schemas"
			g.use("schemas")
		}
		g.add(m, k, g.types(5, 3))
	}
	if want() {
		g.anns(m, 3)
	}
	if want() {
		g.extras(m, 3, func(s string) bool { return isIn(s, libKnown) })
	}
	g.shuffle(m)
	return m
}

func minInt(a, b int) int {
	if a < b {
		return a
	}
	return b
}

const (
	apiHead = "#%RAML 1.0"
	libHead = "#%RAML 1.0 Library"
)

func encode(n *yaml.Node, indent int) (out []byte, err error) {
	defer func() {
		// The emitter panics on nodes it cannot write.
		if e := recover(); e != nil {
			err = fmt.Errorf("emitter: %v", e)
		}
	}()
	var b bytes.Buffer
	enc := yaml.NewEncoder(&b)
	enc.SetIndent(indent)
	if err := enc.Encode(n); err != nil {
		return nil, err
	}
	if err := enc.Close(); err != nil {
		return nil, err
	}
	return b.Bytes(), nil
}

// Doc is a generated document.
type Doc struct {
	lib  bool
	text []byte
	node *yaml.Node // as a YAML parser reads the text
	want *V
	seen map[string]bool
}

// render writes a document, unless the YAML library itself cannot carry it.
func render(r *rand.Rand, lib bool, n *yaml.Node) (*Doc, bool) {
	want := canonRoot(lib, n)
	quoteAwkward(n)
	body, err := encode(n, 2+2*r.Intn(2))
	if err != nil {
		return nil, false
	}
	head := apiHead
	if lib {
		head = libHead
	}
	text := []byte(head + []string{"\n", "\n---\n", "\n\n"}[r.Intn(3)] + string(body))
	back, err := docNode(text)
	if err != nil || free(back).String() != free(n).String() {
		return nil, false
	}
	spelled := emptyNulls(r, text, free(n).String())
	spelled = blockStyles(r, spelled, free(n).String())
	node, err := docNode(spelled) // fresh nodes: encoding may touch them
	if err != nil {
		return nil, false
	}
	if string(spelled) != string(text) {
		// The keys of facets are texts.
		if want2 := canonRoot(lib, node); !strings.Contains(want2.String(), " (again)") && !headMoved(node) {
			want, text = want2, spelled
		} else if node, err = docNode(text); err != nil {
			return nil, false
		}
	}
	return &Doc{lib: lib, text: text, node: node, want: want}, true
}

var (
	nullVal     = regexp.MustCompile(`(?m)([:-]) (?:null|~)( *[,}]|$)`)
	nullKey     = regexp.MustCompile(`(?m)^( *(?:- +)*)(?:null|~):`)
	taggedTime  = regexp.MustCompile(`!!timestamp '([^']*)'`)
	nullKeyFlow = regexp.MustCompile(`([{,] ?)(?:null|~): `)
)

// emptyNulls leaves out the text of some nulls of a document, and the quotes of
// times, as long as a YAML parser still reads the same.  The YAML library cannot write these itself.
func emptyNulls(r *rand.Rand, text []byte, want string) []byte {
	if r.Intn(3) == 0 {
		return text
	}
	for _, f := range []func(s string) string{
		func(s string) string { return taggedTime.ReplaceAllString(s, "$1") },
		func(s string) string { return nullVal.ReplaceAllString(s, "$1$2") },
		func(s string) string { return nullKeyFlow.ReplaceAllString(s, "$1? : ") },
		func(s string) string {
			return nullKey.ReplaceAllStringFunc(s, func(k string) string {
				at := strings.LastIndex(k, " ") + 1
				return k[:at] + "?\n" + strings.Repeat(" ", at) + ":"
			})
		},
	} {
		// Line by line if not all can be changed at once.
		out := f(string(text))
		if out == string(text) {
			continue
		}
		if back, err := docNode([]byte(out)); err == nil && free(back).String() == want {
			text = []byte(out)
			continue
		}
		if len(text) > 20000 {
			continue
		}
		lines := strings.Split(string(text), "\n")
		for i, l := range lines {
			if n := f(l); n != l {
				lines[i] = n
				if back, err := docNode([]byte(strings.Join(lines, "\n"))); err != nil || free(back).String() != want {
					lines[i] = l
				}
			}
		}
		text = []byte(strings.Join(lines, "\n"))
	}
	return text
}

var (
	literalHead = regexp.MustCompile(`^( *)((?:- +)*)([^|]*[:-] )\|([-+]?)$`)
	blankQuoted = regexp.MustCompile(`^( *)((?:- +)*)([\w-]+: )"((?:\\t|\\n| )(?:[^"\\]|\\n|\\t)*)"$`)
)

// blockStyles turns some literal texts into folded ones and some quoted texts
// that start with a blank into literal ones, as long as a YAML parser still reads
// the same.  The YAML library gets some of these wrong when it writes them.
func blockStyles(r *rand.Rand, text []byte, want string) []byte {
	if r.Intn(2) == 0 || len(text) > 50000 {
		return text
	}
	lines := strings.Split(string(text), "\n")
	for i := 0; i < len(lines); i++ {
		var repl []string
		end := i + 1
		if m := literalHead.FindStringSubmatch(lines[i]); m != nil {
			indent := 0
			for end < len(lines) && (strings.TrimSpace(lines[end]) == "" || indent == 0 || indentOf(lines[end]) >= indent) {
				if indent == 0 {
					indent = indentOf(lines[end])
				}
				end++
			}
			if indent <= len(m[1]) || r.Intn(2) == 0 {
				continue
			}
			repl = []string{m[1] + m[2] + m[3] + ">" + m[4]}
			last, empty := "", 0
			for _, l := range lines[i+1 : end] {
				if len(l) <= indent {
					empty++
					continue
				}
				// Breaks between lines that can be folded are doubled.
				if l = l[indent:]; last != "" && !isBlank(last[0]) && !isBlank(l[0]) {
					empty++
				}
				for ; empty > 0; empty-- {
					repl = append(repl, "")
				}
				repl = append(repl, strings.Repeat(" ", indent)+l)
				last = l
			}
			for ; empty > 0; empty-- {
				repl = append(repl, "")
			}
		} else if m := blankQuoted.FindStringSubmatch(lines[i]); m != nil && r.Intn(2) == 0 {
			body := strings.NewReplacer(`\n`, "\n", `\t`, "\t").Replace(m[4])
			kept := strings.TrimRight(body, "\n")
			chomp := "-"
			switch n := len(body) - len(kept); {
			case n == 1:
				chomp = ""
			case n > 1:
				chomp = "+"
			}
			pad := strings.Repeat(" ", len(m[1])+len(m[2])+2)
			repl = []string{m[1] + m[2] + m[3] + "|2" + chomp}
			for _, l := range strings.Split(strings.TrimSuffix(body, "\n"), "\n") {
				if l != "" {
					l = pad + l
				}
				repl = append(repl, l)
			}
		} else {
			continue
		}
		out := append(append(append([]string{}, lines[:i]...), repl...), lines[end:]...)
		if back, err := docNode([]byte(strings.Join(out, "\n"))); err == nil && free(back).String() == want {
			lines = out
			i += len(repl) - 1
		}
	}
	return []byte(strings.Join(lines, "\n"))
}

func isBlank(c byte) bool { return c == ' ' || c == '\t' }

func indentOf(l string) int { return len(l) - len(strings.TrimLeft(l, " ")) }

// quoteAwkward quotes the texts that the YAML library would spell wrongly, and
// tags the times.
func quoteAwkward(n *yaml.Node) { quoteAwkwardIn(n, false) }

func quoteAwkwardIn(n *yaml.Node, flow bool) {
	block := yaml.LiteralStyle | yaml.FoldedStyle
	if n.Kind == yaml.ScalarNode && flow && n.Style == 0 && n.Tag == "!!timestamp" {
		n.Style = yaml.TaggedStyle | yaml.SingleQuotedStyle
	}
	if n.Style&yaml.FoldedStyle != 0 && strings.HasSuffix(n.Value, "\n\n") {
		n.Style = n.Style&^block | yaml.DoubleQuotedStyle
	}
	if s := n.Value; n.Kind == yaml.ScalarNode && (n.Tag == "!!str" && s == "<<" ||
		s != "" && strings.ContainsRune(" \t\n\r\u0085\u2028\u2029", firstRune(s)) && (n.Style&block != 0 || strings.Contains(s, "\n"))) {
		n.Style = n.Style&^block | yaml.DoubleQuotedStyle
	}
	for _, c := range n.Content {
		quoteAwkwardIn(c, flow || n.Style&yaml.FlowStyle != 0)
	}
}

func firstRune(s string) rune {
	for _, c := range s {
		return c
	}
	return 0
}

// headMoved tells whether the YAML library takes the header for a comment of a
// value, which it does if the first key has no text.
func headMoved(n *yaml.Node) bool {
	if n.Kind == yaml.DocumentNode {
		n = n.Content[0]
	}
	return len(n.Content) > 1 && n.Content[1].HeadComment != ""
}

func canonRoot(lib bool, n *yaml.Node) *V {
	if lib {
		return canonLib(n)
	}
	return canonAPI(n)
}

// doc generates a document that a YAML library can carry.
func genDoc(r *rand.Rand, lib bool, f func(g *Gen) *yaml.Node, dropped *int) *Doc {
	for {
		g := newGen(r)
		n := f(g)
		if r.Intn(3) == 0 {
			g.correlate(lib, n)
		}
		d, ok := render(r, lib, n)
		if ok && !strings.Contains(d.want.String(), "!BAD") {
			d.seen = g.seen
			return d
		}
		*dropped++
	}
}

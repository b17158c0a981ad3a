package main

import (
	"fmt"
	"math/rand"
	"reflect"
	"strconv"
	"strings"

	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rbuild"
	"gopkg.in/yaml.v3"
)

// This file assembles documents through the public builder functions, setters
// and maps, so that they mean a given canonical value.

type builder struct {
	nest     int
	r        *rand.Rand
	seen     map[string]bool
	plains   int // free-form values made so far
	poisonAt int // the one to replace, 0 for none
	poison   func() interface{}
	goMaps   bool // use Go maps of any size, the order of which is not defined
}

func newBuilder(r *rand.Rand) *builder { return &builder{r: r, seen: map[string]bool{}} }

func newRand(seed int64) *rand.Rand { return rand.New(rand.NewSource(seed)) }

func (b *builder) p(n, of int) bool { return b.r.Intn(of) < n }
func (b *builder) use(s string)     { b.seen[s] = true }

// parseNode parses a document made of nodes.
func parseNode(lib bool, n *yaml.Node) interface{} {
	quoteAwkward(n)
	text, err := encode(n, 2)
	if err != nil {
		mustf("%v", err)
	}
	head := apiHead
	if lib {
		head = libHead
	}
	x, err := parseText(lib, []byte(head+"\n"+string(text)))
	if err != nil || x == nil {
		mustf("template refused: %v\n%s", err, text)
	}
	return x
}

func mapNode(kv ...interface{}) *yaml.Node {
	n := &yaml.Node{Kind: yaml.MappingNode, Tag: "!!map"}
	for i := 0; i+1 < len(kv); i += 2 {
		n.Content = append(n.Content, sc("!!str", kv[i].(string), 0), kv[i+1].(*yaml.Node))
	}
	return n
}

// nodeOf writes a free-form canonical value as a node.
func nodeOf(v *V) *yaml.Node {
	switch v.Kind {
	case 'l':
		n := &yaml.Node{Kind: yaml.SequenceNode, Tag: "!!seq"}
		if v.T != "" {
			n.Tag, n.Style = v.T, yaml.TaggedStyle
		}
		for _, x := range v.L {
			n.Content = append(n.Content, nodeOf(x))
		}
		return n
	case 'm':
		n := &yaml.Node{Kind: yaml.MappingNode, Tag: "!!map"}
		if v.T != "" {
			n.Tag, n.Style = v.T, yaml.TaggedStyle
		}
		for i := range v.M {
			k := sc("!!str", v.K[i], 0)
			if v.KV != nil {
				k = nodeOf(v.KV[i])
			}
			n.Content = append(n.Content, k, nodeOf(v.M[i]))
		}
		return n
	}
	switch v.T {
	case "str":
		return sc("!!str", v.S, 0)
	case "bool":
		return sc("!!bool", v.S, 0)
	case "null":
		return sc("!!null", "null", 0)
	case "int":
		return sc("!!int", v.S, 0)
	case "float", "num":
		s := v.S
		switch s {
		case "+inf":
			s = ".inf"
		case "-inf":
			s = "-.inf"
		case "nan":
			s = ".nan"
		}
		if strings.Trim(s, "-0123456789") == "" {
			s += ".0"
		}
		return sc("!!float", s, 0)
	case "time":
		return sc("!!timestamp", v.S, 0)
	}
	return sc(v.T, v.S, yaml.TaggedStyle)
}

// plainOf turns a free-form value into plain Go data where possible, and into
// a YAML node otherwise.
func (b *builder) plainOf(v *V) interface{} {
	b.plains++
	if b.plains == b.poisonAt {
		return b.poison()
	}
	if b.p(1, 8) {
		b.use("value:yaml node")
		return nodeOf(v)
	}
	if b.p(1, 4) {
		if x, ok := b.wildOf(v); ok {
			return x
		}
	}
	switch v.Kind {
	case 'l':
		if v.T != "" {
			break
		}
		out := []interface{}{}
		for _, x := range v.L {
			out = append(out, b.plainOf(x))
		}
		b.use("value:slice")
		return out
	case 'm':
		if v.T != "" {
			break
		}
		for i := range v.KV {
			if v.KV[i].Kind != 's' || v.KV[i].T != "str" {
				m := raml.NewAnyMap(b.r.Intn(4)).SerializeOrdered(false)
				for i := range v.M {
					if v.KV[i].Kind != 's' || !isIn(v.KV[i].T, []string{"str", "bool", "int", "float", "null"}) {
						return nodeOf(v)
					}
					key := b.scalarOf(v.KV[i])
					if t, ok := b.wildType([]*V{v.KV[i]}); ok && b.p(1, 3) {
						x, _ := as(v.KV[i], t)
						key = x.Interface()
					}
					m.Put(key, b.plainOf(v.M[i]))
				}
				b.use("value:AnyMap")
				return m
			}
		}
		if (v.len() < 2 || b.goMaps) && b.p(1, 2) {
			m := map[string]interface{}{}
			for i := range v.M {
				m[v.K[i]] = b.plainOf(v.M[i])
			}
			b.use("value:Go map")
			return m
		}
		m := raml.NewUntypedMap(b.r.Intn(4)).SerializeOrdered(false)
		for i := range v.M {
			m.Put(v.K[i], b.plainOf(v.M[i]))
		}
		b.use("value:UntypedMap")
		return m
	case 's':
		if x := b.scalarOf(v); x != nil {
			return x
		}
		if v.T == "null" && b.p(1, 2) {
			b.use("value:nil")
			return nil
		}
	}
	return nodeOf(v)
}

func (b *builder) scalarOf(v *V) interface{} {
	switch v.T {
	case "str":
		b.use("value:string")
		return v.S
	case "bool":
		b.use("value:bool")
		return v.S == "true"
	case "int":
		if i, err := strconv.ParseInt(v.S, 10, 64); err == nil {
			b.use("value:int")
			switch {
			case int64(int32(i)) == i && b.p(1, 3):
				return int32(i)
			case b.p(1, 3):
				return int(i)
			case i >= 0 && b.p(1, 3):
				return uint64(i)
			}
			return i
		}
		if u, err := strconv.ParseUint(v.S, 10, 64); err == nil {
			b.use("value:uint64")
			return u
		}
	case "float":
		b.use("value:float64")
		return parseF(v.S)
	}
	return nil
}

func parseF(s string) float64 {
	f, err := strconv.ParseFloat(s, 64)
	if err != nil {
		mustf("%v", err)
	}
	return f
}

// typedOf gives the Go value of a facet of the given class.
func (b *builder) typedOf(class string, v *V) interface{} {
	switch class {
	case "str", "time":
		return v.S
	case "bool":
		return v.S == "true"
	case "int":
		i, err := strconv.ParseInt(v.S, 10, 64)
		if err != nil {
			mustf("%v", err)
		}
		return i
	case "uint":
		i, err := strconv.ParseUint(v.S, 10, 64)
		if err != nil {
			mustf("%v", err)
		}
		return uint(i)
	case "num":
		return parseF(v.S)
	case "any":
		return b.plainOf(v)
	case "anylist":
		out := []interface{}{}
		for _, x := range v.L {
			out = append(out, b.plainOf(x))
		}
		return out
	case "strs":
		out := []string{}
		for _, x := range v.L {
			out = append(out, x.S)
		}
		return out
	}
	panic("class " + class)
}

// sliceOf gives a slice with elements of the class.
func (b *builder) sliceOf(class string, v *V) interface{} {
	switch class {
	case "bool":
		out := []bool{}
		for _, x := range v.L {
			out = append(out, b.typedOf(class, x).(bool))
		}
		return out
	case "int":
		out := []int64{}
		for _, x := range v.L {
			out = append(out, b.typedOf(class, x).(int64))
		}
		return out
	case "num":
		out := []float64{}
		for _, x := range v.L {
			out = append(out, b.typedOf(class, x).(float64))
		}
		return out
	case "str", "time":
		return b.typedOf("strs", v)
	}
	return b.typedOf("anylist", v)
}

// typeNames gives one name for each kind.
var nameOfKind = map[string]string{"custom": "Custom", "union": "A | B", "include": "!include x.raml"}

// newType gives an empty declaration of a kind.
func (b *builder) newType(kind string) interface{} {
	if b.p(2, 3) {
		switch kind {
		case "any":
			return rbuild.NewAnyDataType()
		case "array":
			return rbuild.NewArrayDataType()
		case "boolean":
			return rbuild.NewBoolDataType()
		case "integer":
			return rbuild.NewIntegerDataType()
		case "number":
			return rbuild.NewNumberDataType()
		case "string":
			return rbuild.NewStringDataType()
		}
	}
	name := kind
	if n, ok := nameOfKind[kind]; ok {
		name = n
	}
	return parsedType(mapNode("type", sc("!!str", name, 0)))
}

// parsedType gives the declaration that a node parses to.
func parsedType(n *yaml.Node) interface{} {
	l := parseNode(true, mapNode("types", mapNode("x", n))).(raml.Library)
	x, ok := l.Types().Get("x")
	if !ok {
		mustf("no type")
	}
	return x
}

func (b *builder) annotations(v *V) raml.AnnotationMap {
	m := raml.NewAnnotationMap(b.r.Intn(3))
	b.order(m)
	for i := range v.M {
		m.Put(v.K[i], b.annotation(v.M[i]))
	}
	return m
}

func (b *builder) annotation(v *V) raml.Annotation {
	m := raml.NewUntypedMap(b.r.Intn(3)).SerializeOrdered(false)
	for i := range v.M {
		m.Put(v.K[i], b.plainOf(v.M[i]))
	}
	return m
}

// order leaves some of the maps whose mode does not matter in ordered mode.
func (b *builder) order(m interface{}) {
	if b.p(1, 2) {
		call(m, "SerializeOrdered", b.p(1, 2))
	}
}

// fill puts the entries of a canonical map into a map of plain values.  Keys
// come in by every route the map interface offers.
func (b *builder) fill(m interface{}, v *V, f func(*V) interface{}) {
	b.nest++
	defer func() { b.nest-- }()
	for i := range v.M {
		x := f(v.M[i])
		way := b.r.Intn(5)
		if way == 1 && b.nest > 6 {
			way = 0 // building twice doubles the work at every level
		}
		switch way {
		case 0:
			call(m, "ReplaceOrPut", v.K[i], x)
		case 1:
			call(m, "Put", v.K[i], f(v.M[i]))
			call(m, "ReplaceIfExists", v.K[i], x)
		case 2:
			call(m, "Put", v.K[i]+"\x02tmp", x)
			call(m, "Put", v.K[i], x)
			call(m, "Delete", v.K[i]+"\x02tmp")
		case 3:
			if !isNilAny(x) && reflect.ValueOf(m).MethodByName("PutIfNotNil").Type().In(1).NumMethod() == 0 && reflect.ValueOf(m).MethodByName("PutIfNotNil").Type().In(1).Kind() == reflect.Interface {
				call(m, "PutIfNotNil", v.K[i], x)
				break
			}
			call(m, "Put", v.K[i], x)
		default:
			call(m, "Put", v.K[i], x)
		}
	}
}

func (b *builder) free(v *V) interface{}  { return b.plainOf(v) }
func (b *builder) text(v *V) interface{}  { return v.S }
func (b *builder) anyOf(v *V) interface{} { return b.declOf(v) }

// declOf builds a type declaration.
func (b *builder) declOf(v *V) interface{} {
	kind, name := v.get("kind").S, v.get("type").S
	x := b.newType(kind)
	b.use("built:" + kind)
	if name != call(x, "Type").(string) || b.p(1, 4) {
		if kind == "include" {
			if call(x, "Type").(string) != name {
				x = parsedType(mapNode("type", sc("!include", name, yaml.TaggedStyle)))
			}
		} else if b.p(1, 2) || !has(x, "SetType") {
			call(x, "OverrideType", name)
		} else {
			call(x, "SetType", name)
		}
	}
	if e := v.get("extra"); e != nil {
		if has(x, "SetExtraFacets") && b.p(1, 2) {
			m := raml.NewAnyMap(b.r.Intn(3))
			b.order(m)
			b.fill(m, e, b.free)
			call(x, "SetExtraFacets", m)
		} else {
			b.fill(call(x, "ExtraFacets"), e, b.free)
		}
	}
	if q := v.get("required"); q != nil {
		if has(x, "SetRequired") {
			call(x, "SetRequired", q.S == "true")
		} else {
			n := mapNode("type", sc("!!str", name, 0), "required", plain(q.S))
			if kind == "include" {
				n.Content[1] = sc("!include", name, yaml.TaggedStyle)
			}
			y := parsedType(n)
			call(x, "ExtraFacets").(raml.AnyMap).ForEach(func(k, v interface{}) { call(y, "ExtraFacets").(raml.AnyMap).Put(k, v) })
			x = y
		}
	}
	if kind == "nil" || kind == "include" {
		return x
	}
	cl := valueClass[kind]
	order := b.r.Perm(len(v.K))
	for _, i := range order {
		k, f := v.K[i], v.M[i]
		switch k {
		case "kind", "type", "extra", "required":
		case "displayName", "description":
			call(x, "Set"+cap1(k), f.S)
		case "default":
			call(x, "SetDefault", b.typedOf(cl, f))
		case "enum":
			call(x, "SetEnum", b.sliceOf(enumClass(kind), f))
		case "annotations":
			if b.p(1, 2) {
				call(x, "SetAnnotations", b.annotations(f))
			} else {
				b.fill(call(x, "Annotations"), f, func(v *V) interface{} { return b.annotation(v) })
			}
		case "facets":
			m := call(x, "FacetDefinitions")
			if b.p(1, 2) {
				m = raml.NewFacetMap(1).SerializeOrdered(false)
				call(x, "SetFacetDefinitions", m)
			}
			b.fill(m, f, func(v *V) interface{} {
				d := raml.NewDataTypeMap(1).SerializeOrdered(false)
				b.fill(d, v, b.anyOf)
				return d
			})
		case "xml":
			call(x, "SetXML", b.xml(f))
		case "example":
			call(x, "SetExample", b.example(kind, f))
		case "examples":
			m := call(x, "Examples")
			if b.p(1, 2) {
				call(x, "SetExamples", newMapLike(m))
				m = call(x, "Examples")
				call(m, "SerializeOrdered", false)
			}
			b.fill(m, f, func(v *V) interface{} { return b.example(kind, v) })
		default:
			fa, ok := facetOf(kind, k)
			if !ok {
				mustf("facet %s of %s", k, kind)
			}
			b.use("built:" + kind + "." + k)
			switch {
			case fa.class == "props":
				m := call(x, "Properties")
				if b.p(1, 2) {
					m = raml.NewPropertyMap(1).SerializeOrdered(false)
					call(x, "SetProperties", m)
				}
				b.fill(m, f, b.anyOf)
			case fa.class == "type":
				call(x, "SetItems", b.declOf(f))
			case k == "format":
				y := parsedType(mapNode("type", sc("!!str", kind, 0), "format", sc("!!str", f.S, 0)))
				call(x, "SetFormat", call(y, "Format"))
			default:
				call(x, "Set"+cap1(k), b.typedOf(fa.class, f))
			}
		}
	}
	return x
}

// newMapLike gives a new map of the same type.
func newMapLike(m interface{}) interface{} {
	for _, f := range mapCtors {
		n := reflect.ValueOf(f).Call([]reflect.Value{reflect.ValueOf(1)})[0].Interface()
		if reflect.TypeOf(n) == reflect.TypeOf(m) {
			return n
		}
	}
	mustf("no constructor for %T", m)
	return nil
}

var mapCtors = []interface{}{
	raml.NewAnnotationMap, raml.NewAnyExampleMap, raml.NewAnyMap, raml.NewArrayExampleMap, raml.NewBoolExampleMap, raml.NewCustomExampleMap,
	raml.NewDataTypeMap, raml.NewDateOnlyExampleMap, raml.NewDatetimeExampleMap, raml.NewDatetimeOnlyExampleMap, raml.NewFacetMap, raml.NewFileExampleMap,
	raml.NewIntegerExampleMap, raml.NewNumberExampleMap, raml.NewObjectExampleMap, raml.NewPropertyMap, raml.NewStringExampleMap, raml.NewStringMap,
	raml.NewTimeOnlyExampleMap, raml.NewUnionExampleMap, raml.NewUntypedMap,
}

// newExample gives an empty example of a kind.
func newExample(kind string) interface{} {
	name := kind
	if n, ok := nameOfKind[kind]; ok {
		name = n
	}
	var val *yaml.Node
	switch valueClass[kind] {
	case "bool":
		val = plain("true")
	case "int", "num":
		val = plain("1")
	case "anylist":
		val = &yaml.Node{Kind: yaml.SequenceNode, Tag: "!!seq"}
	default:
		val = sc("!!str", "x", 0)
	}
	x := parsedType(mapNode("type", sc("!!str", name, 0), "example", mapNode("value", val)))
	e := call(x, "Example")
	call(e, "UnsetValue")
	return e
}

func (b *builder) example(kind string, v *V) interface{} {
	x := newExample(kind)
	b.use("built example:" + kind)
	for _, i := range b.r.Perm(len(v.K)) {
		k, f := v.K[i], v.M[i]
		switch k {
		case "value":
			call(x, "SetValue", b.typedOf(valueClass[kind], f))
		case "displayName", "description":
			call(x, "Set"+cap1(k), f.S)
		case "strict":
			call(x, "SetStrict", f.S == "true")
		case "annotations":
			if b.p(1, 2) {
				call(x, "SetAnnotations", b.annotations(f))
			} else {
				b.fill(call(x, "Annotations"), f, func(v *V) interface{} { return b.annotation(v) })
			}
		case "extra":
			b.fill(call(x, "ExtraFacets"), f, b.free)
		}
	}
	return x
}

func (b *builder) xml(v *V) raml.XML {
	n := mapNode()
	if e := v.get("extra"); e != nil {
		// Unknown facets of an xml node can only be read from a text.
		n = nodeOf(e)
	}
	x := parsedType(mapNode("type", sc("!!str", "string", 0), "xml", n)).(raml.StringType).XML()
	for i, k := range v.K {
		f := v.M[i]
		switch k {
		case "attribute":
			x.SetIsAttribute(f.S == "true")
		case "wrapped":
			x.SetIsWrapped(f.S == "true")
		case "name":
			x.SetName(f.S)
		case "namespace":
			x.SetNamespace(f.S)
		case "prefix":
			x.SetPrefix(f.S)
		}
	}
	return x
}

func (b *builder) doc(v *V) raml.Documentation {
	a := parseNode(false, mapNode("title", sc("!!str", "t", 0), "documentation", &yaml.Node{Kind: yaml.SequenceNode, Tag: "!!seq",
		Content: []*yaml.Node{mapNode("title", sc("!!str", "x", 0), "content", sc("!!str", "y", 0))}})).(raml.APISpec)
	d := a.Documentation()[0]
	d.SetTitle(v.get("title").S).SetContent(v.get("content").S)
	if e := v.get("extra"); e != nil {
		b.fill(d.ExtraFacets(), e, b.free)
	}
	return d
}

// section fills a section, either through the getter or with a new map.
func (b *builder) section(x interface{}, name string, v *V, ctor func() interface{}, f func(*V) interface{}) {
	m := call(x, name)
	if has(x, "Set"+name) && b.p(1, 2) {
		m = ctor()
		call(m, "SerializeOrdered", false)
		if b.p(1, 2) { // filled after it was set
			call(x, "Set"+name, m)
			b.fill(m, v, f)
			return
		}
		b.fill(m, v, f)
		call(x, "Set"+name, m)
		return
	}
	b.fill(m, v, f)
}

func (b *builder) document(lib bool, v *V) interface{} {
	var x interface{} = rbuild.NewAPISpec()
	if lib {
		x = rbuild.NewLibrary()
	}
	untyped := func() interface{} { return raml.NewUntypedMap(b.r.Intn(3)) }
	for _, i := range b.r.Perm(len(v.K)) {
		k, f := v.K[i], v.M[i]
		b.use("built section:" + k)
		switch k {
		case "title", "version", "baseUri", "description", "usage":
			call(x, "Set"+cap1(k), f.S)
		case "protocols", "securedBy", "mediaType":
			call(x, "Set"+cap1(k), b.typedOf("strs", f))
		case "documentation":
			var ds []raml.Documentation
			for _, e := range f.L {
				ds = append(ds, b.doc(e))
			}
			call(x, "SetDocumentation", ds)
		case "uses":
			b.section(x, "Uses", f, func() interface{} { return raml.NewStringMap(1) }, b.text)
		case "types":
			name := "Types"
			if b.p(1, 3) {
				name = "Schemas"
			}
			b.section(x, name, f, func() interface{} { return raml.NewDataTypeMap(1) }, b.anyOf)
		case "annotations":
			b.section(x, "Annotations", f, func() interface{} { return raml.NewAnnotationMap(1) }, func(v *V) interface{} { return b.annotation(v) })
		case "extra":
			b.section(x, "ExtraFacets", f, func() interface{} { return raml.NewAnyMap(1) }, b.free)
		default:
			b.section(x, cap1(k), f, untyped, b.free)
		}
	}
	return x
}

func init() {
	register(&Check{
		id: "C09", quick: 5000, thorough: 250000, assume: []string{yamlTrust, "maps handed to setters are in the plain (unordered) serialization mode, as the library's own are"},
		rule: "random documents assembled through the builder functions, setters and map operations in random order, from plain Go values and YAML nodes; the written text must mean exactly what was set, and parsing it must report it; distinct by the assembled value",
		fn: func(c *Case) {
			lib := c.R.Intn(2) == 0
			d := c.gen(lib, func(g *Gen) *yaml.Node {
				switch {
				case g.p(1, 3):
					return g.typesOnly(c)
				case lib:
					return g.lib()
				}
				return g.api()
			})
			b := newBuilder(sub(c.R))
			x := b.document(lib, d.want)
			c.Seen(b.seen)
			c.Input([]byte("assembled: " + fmt.Sprint(d.want)))
			c.Count("documents assembled", 1)
			if !c.Same("accessors of the assembled document", looseExtras(d.want), looseExtras(obsDocument(x))) {
				return
			}
			out, ok := c.written(x)
			if !ok || !c.sameText("written document", lib, d.want, out) {
				return
			}
			y, err := parseText(lib, out)
			if err != nil || y == nil {
				c.Violate("what was written is refused: %v\n%s", err, clip(out))
				return
			}
			c.Same("accessors of the document read back", noXMLExtra(d.want), obsDocument(y))
		},
	})
}

// looseExtras drops what plain Go values do not carry: the difference between
// a value and the node that spells it is not visible in canonical form, so
// only the unknown xml facets are dropped.
func looseExtras(v *V) *V { return noXMLExtra(v) }

// orderedBuild checks that an assembled document keeps the order as well.
func orderedBuild(c *Case, d *Doc) {
	b := newBuilder(sub(c.R))
	x := b.document(d.lib, d.want)
	if out, ok := c.written(x); ok {
		c.sameText("document assembled in the same order", d.lib, d.want, out)
	}
}

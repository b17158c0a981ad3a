package main

import (
	"fmt"
	"math/rand"
	"reflect"
	"runtime"
	"sort"
	"strings"

	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rbuild"
	"gopkg.in/yaml.v3"
)

// C08: histories of setter, unsetter and getter calls against a model.

// A subject is an object whose interface consists of facets.
type subject struct {
	name string
	ifc  reflect.Type
	make func(b *builder) interface{}
	// written compares what is written with what the accessors report.
	written func(c *Case, x interface{})
}

var subjects []subject

// isContainer tells whether x is one of the ordered maps.
func isContainer(x interface{}) bool {
	return has(x, "Len") && has(x, "At") && has(x, "SerializeOrdered")
}

// show renders what a getter returns: its identity and its content.
func show(x interface{}) string {
	if isNilAny(x) {
		return "empty"
	}
	switch {
	case has(x, "IsPresent"):
		v, ok := opt(x)
		if !ok {
			return "empty"
		}
		return "present " + showVal(v)
	case isContainer(x):
		var s strings.Builder
		fmt.Fprintf(&s, "map %p", x)
		for i, n := 0, call(x, "Len").(int); i < n; i++ {
			e := call(x, "At", i)
			fmt.Fprintf(&s, " %q=%s", field(e, "Key"), showVal(field(e, "Val")))
		}
		return s.String()
	}
	r := reflect.ValueOf(x)
	if r.Kind() == reflect.Slice {
		if r.Len() == 0 {
			return "empty"
		}
		var s []string
		for i := 0; i < r.Len(); i++ {
			s = append(s, showVal(r.Index(i).Interface()))
		}
		return "[" + strings.Join(s, " ") + "]"
	}
	return showVal(x)
}

func showVal(v interface{}) string {
	if v == nil {
		return "null"
	}
	r := reflect.ValueOf(v)
	if r.Kind() == reflect.Ptr {
		if _, ok := v.(fmt.Stringer); !ok || r.Elem().Kind() == reflect.Struct {
			return fmt.Sprintf("%p", v)
		}
	}
	return fmt.Sprintf("%T %#v", v, v)
}

// emptyShow tells whether a rendering is that of an empty facet.
func emptyShow(s string) bool {
	return s == "empty" || strings.HasPrefix(s, "map ") && strings.Count(s, " ") == 1
}

// getters lists the accessors of an interface.
func getters(t reflect.Type) []string {
	var out []string
	for i := 0; i < t.NumMethod(); i++ {
		m := t.Method(i)
		if m.Type.NumIn() == 0 && m.Type.NumOut() == 1 && !strings.HasPrefix(m.Name, "Unset") && !strings.HasPrefix(m.Name, "Marshal") {
			out = append(out, m.Name)
		}
	}
	sort.Strings(out)
	return out
}

// targets lists the getters a setter changes.
func targets(t reflect.Type, facet string) []string {
	switch facet {
	case "Type":
		return []string{"Type", "Schema"}
	case "Types", "Schemas":
		return []string{"Types", "Schemas"}
	}
	if _, ok := t.MethodByName(facet); !ok && facet != "Required" {
		mustf("%s has no getter for %s", t, facet)
	}
	return []string{facet}
}

// str gives a text.
func (b *builder) str() string {
	g := newGen(b.r)
	return g.text()
}

// freeV gives a random free-form value.
func (b *builder) freeV(depth int) *V {
	g := newGen(b.r)
	for {
		v := free(g.free(depth))
		if !strings.Contains(v.String(), "!BAD") {
			return v
		}
	}
}

// typeV gives a random declaration.
func (b *builder) typeV(depth int) *V {
	for {
		g := newGen(b.r)
		g.left = 40
		d, ok := render(b.r, true, mapNode("types", mapNode("x", g.decl(depth))))
		if ok && !strings.Contains(d.want.String(), "!BAD") {
			return d.want.get("types").get("x")
		}
	}
}

func (b *builder) key() string {
	g := newGen(b.r)
	return g.name(map[string]bool{})
}

// arg generates an argument of a setter of the given parameter type; kind is
// the kind of the declaration the setter belongs to.
func (b *builder) arg(t reflect.Type, kind string) interface{} {
	if t.Kind() == reflect.Interface && t.NumMethod() > 0 && b.p(1, 6) && t != ifc((*raml.DataType)(nil)) {
		return nil
	}
	switch t {
	case reflect.TypeOf(""):
		return b.str()
	case reflect.TypeOf(true):
		return b.p(1, 2)
	case reflect.TypeOf(uint(0)):
		return uint(newGen(b.r).uintVal())
	case reflect.TypeOf(int64(0)):
		return newGen(b.r).intVal()
	case reflect.TypeOf(0.0):
		return newGen(b.r).numVal()
	case reflect.TypeOf((*interface{})(nil)).Elem():
		for {
			// A nil value might mean absence here.
			if x := b.typedOf("any", b.freeV(2)); !isNilAny(x) {
				return x
			}
		}
	case ifc((*raml.XML)(nil)):
		x := b.xml(rec())
		if b.p(1, 2) {
			x.SetName(b.str())
		}
		return x
	case ifc((*raml.DataType)(nil)):
		if b.p(1, 8) {
			return nil
		}
		return b.declOf(b.typeV(1))
	case reflect.TypeOf([]raml.Documentation{}):
		var out []raml.Documentation
		for i := b.r.Intn(3); i > 0; i-- {
			out = append(out, b.doc(rec().set("title", str(b.str())).set("content", str(b.str()))))
		}
		return out
	case ifc((*raml.DateFormat)(nil)), ifc((*raml.NumberFormat)(nil)), ifc((*raml.IntegerFormat)(nil)):
		y := parsedType(mapNode("type", sc("!!str", kind, 0), "format", sc("!!str", newGen(b.r).pick([]string{"int8", "int64", "float", "rfc2616", "odd"}), 0)))
		return call(y, "Format")
	}
	for k, e := range exIfc {
		if e == t {
			return b.randomExample(k)
		}
	}
	if t.Kind() == reflect.Slice {
		n := b.r.Intn(4)
		if n == 3 && b.p(1, 2) {
			return reflect.Zero(t).Interface()
		}
		out := reflect.MakeSlice(t, 0, n)
		for ; n > 0; n-- {
			e := reflect.ValueOf(b.arg(t.Elem(), kind))
			out = reflect.Append(out, e)
		}
		return out.Interface()
	}
	if m := b.newMapOf(t); m != nil {
		call(m, "SerializeOrdered", false)
		for i := b.r.Intn(4); i > 0; i-- {
			b.putRandom(m)
		}
		return m
	}
	mustf("no argument of type %s", t)
	return nil
}

// newMapOf gives a new map that implements a map interface.
func (b *builder) newMapOf(t reflect.Type) interface{} {
	for _, f := range mapCtors {
		if reflect.TypeOf(f).Out(0) == t {
			return reflect.ValueOf(f).Call([]reflect.Value{reflect.ValueOf(b.r.Intn(5))})[0].Interface()
		}
	}
	return nil
}

// elem gives a value that fits into a map.
func (b *builder) elem(m interface{}) interface{} {
	t := reflect.ValueOf(m).MethodByName("Put").Type().In(1)
	if strings.Contains(reflect.TypeOf(m).String(), "AnyExampleMap") {
		return b.example("any", rec().set("value", b.freeV(1)))
	}
	switch t {
	case reflect.TypeOf(""):
		return b.str()
	case reflect.TypeOf((*interface{})(nil)).Elem():
		return b.typedOf("any", b.freeV(2))
	case ifc((*raml.DataType)(nil)):
		return b.declOf(b.typeV(1))
	case ifc((*raml.Property)(nil)):
		return b.declOf(b.typeV(1))
	case ifc((*raml.Annotation)(nil)):
		return b.annotation(omap().set(b.key(), b.freeV(1)))
	case ifc((*raml.Facet)(nil)):
		d := raml.NewDataTypeMap(1).SerializeOrdered(false)
		d.Put(b.key(), b.declOf(b.typeV(0)).(raml.DataType))
		return d
	}
	for k, e := range exIfc {
		if e == t {
			return b.randomExample(k)
		}
	}
	mustf("no element for %T", m)
	return nil
}

func (b *builder) randomExample(kind string) interface{} {
	for {
		g := newGen(b.r)
		n := g.example(valueClass[kind])
		v := canonExample(valueClass[kind], n)
		if !strings.Contains(v.String(), "!BAD") {
			return b.example(kind, v)
		}
	}
}

func (b *builder) putRandom(m interface{}) { call(m, "Put", b.key(), b.elem(m)) }

// annotationKeys: keys of annotations have to look like annotations, and keys
// of unknown facets must not look like known ones.
func (b *builder) keyFor(getter, kind string) string {
	for {
		k := b.key()
		switch getter {
		case "Annotations":
			return "(" + strings.NewReplacer("\n", "", "(", "").Replace(k) + ")"
		case "Resources":
			return "/" + k
		case "ExtraFacets":
			if strings.HasPrefix(k, "(") || strings.HasPrefix(k, "/") || knownAnywhere(k) {
				continue
			}
		}
		return k
	}
}

var knownKeys = map[string]bool{}

func knownAnywhere(k string) bool {
	if len(knownKeys) == 0 {
		mustf("known keys are not initialised")
	}
	return knownKeys[k]
}

func init() {
	for _, fs := range kindFacets {
		for _, f := range fs {
			knownKeys[f.name] = true
		}
	}
	for _, s := range append(append([]string{"type", "schema", "required", "displayName", "description", "default", "enum", "example", "examples", "facets", "xml",
		"value", "strict", "content", "attribute", "wrapped", "name", "namespace", "prefix"}, apiKnown...), libKnown...) {
		knownKeys[s] = true
	}
}

// contentOf gives new content for the container behind a getter.
func (b *builder) putFor(x interface{}, getter, kind string) {
	m := call(x, getter)
	call(m, "Put", b.keyFor(getter, kind), b.elem(m))
}

// mapArg generates a map argument whose keys suit the facet.
func (b *builder) mapArg(t reflect.Type, getter, kind string) interface{} {
	m := b.newMapOf(t)
	if m == nil {
		return nil
	}
	call(m, "SerializeOrdered", false)
	for i := b.r.Intn(4); i > 0; i-- {
		call(m, "Put", b.keyFor(getter, kind), b.elem(m))
	}
	return m
}

type opDesc struct {
	name   string
	in     reflect.Type // nil for unsetters
	facet  string
	fluent bool
}

func ops(t reflect.Type) []opDesc {
	var out []opDesc
	for i := 0; i < t.NumMethod(); i++ {
		m := t.Method(i)
		switch {
		case strings.HasPrefix(m.Name, "Set") && m.Type.NumIn() == 1:
			out = append(out, opDesc{m.Name, m.Type.In(0), m.Name[3:], m.Type.NumOut() == 1})
		case strings.HasPrefix(m.Name, "Unset") && m.Type.NumIn() == 0:
			out = append(out, opDesc{m.Name, nil, m.Name[5:], m.Type.NumOut() == 1})
		case m.Name == "OverrideType":
			out = append(out, opDesc{m.Name, m.Type.In(0), "Type", false})
		}
	}
	return out
}

// observeAll renders all getters of an object.
func observeAll(x interface{}, gs []string) map[string]string {
	out := make(map[string]string, len(gs))
	for _, g := range gs {
		out[g] = show(call(x, g))
	}
	return out
}

func subjectKind(name string) string {
	if i := strings.IndexByte(name, ':'); i >= 0 {
		return name[i+1:]
	}
	return ""
}

func init() {
	for _, k := range extKinds {
		k := k
		subjects = append(subjects, subject{"type:" + k, kindIfc[k], func(b *builder) interface{} { return b.newType(k) }, writtenType})
	}
	for _, k := range []string{"nil", "include"} {
		k := k
		subjects = append(subjects, subject{"type:" + k, kindIfc[k], func(b *builder) interface{} { return b.newType(k) }, writtenType})
	}
	for _, k := range extKinds {
		k := k
		subjects = append(subjects, subject{"example:" + k, exIfc[k], func(b *builder) interface{} { return newExample(k) }, func(c *Case, x interface{}) {
			if valueClass[k] == "any" && !call(call(x, "Value"), "IsPresent").(bool) {
				return // RAML requires a value, without it the text is ambiguous
			}
			h := newBuilder(rand.New(rand.NewSource(1))).newType(k)
			call(h, "SetExample", x)
			writtenType(c, h)
		}})
	}
	subjects = append(subjects,
		subject{"api", ifc((*raml.APISpec)(nil)), func(b *builder) interface{} { return rbuild.NewAPISpec() }, writtenDoc},
		subject{"library", ifc((*raml.Library)(nil)), func(b *builder) interface{} { return rbuild.NewLibrary() }, writtenDoc},
		subject{"xml", ifc((*raml.XML)(nil)), func(b *builder) interface{} { return b.xml(rec()) }, func(c *Case, x interface{}) {
			h := rbuild.NewStringDataType().SetXML(x.(raml.XML))
			writtenType(c, h)
		}},
		subject{"documentation", ifc((*raml.Documentation)(nil)), func(b *builder) interface{} { return b.doc(rec().set("title", str("")).set("content", str(""))) }, func(c *Case, x interface{}) {
			h := rbuild.NewAPISpec().SetDocumentation([]raml.Documentation{x.(raml.Documentation)})
			writtenDoc(c, h)
		}},
	)
	register(&Check{
		id: "C08", quick: 4000, thorough: 150000, assume: []string{yamlTrust},
		rule: "histories of 25 random set, unset, set-nil and container operations on each of the 34 interfaces, with every getter compared with a model after every call, identities included, and the written text compared with the getters; distinct by history",
		fn:   setterHistory,
	})
}

func writtenType(c *Case, x interface{}) {
	want := obsType(x)
	text, err := x.(raml.DataType).ToRAML()
	if err != nil {
		c.Violate("writing the declaration fails: %v", err)
		return
	}
	n, err := docNode([]byte(text))
	if err != nil {
		c.Violate("the declaration is no YAML: %v\n%s", err, text)
		return
	}
	d := x.(raml.DataType)
	got := canonTypeAs(n, string(d.Kind()), d.Type())
	// The name of the type must be written as it is set.
	name := n
	if n.Kind == yaml.MappingNode {
		name = typeNode(n)
	}
	if name == nil || name.Kind != yaml.ScalarNode || name.Value != d.Type() && name.Value != "!include "+d.Type() {
		c.Violate("the type is %q, written is\n%s", d.Type(), text)
	}
	c.Same("written declaration", want, noXMLExtra(got))
	// The same declaration inside a document.
	l := rbuild.NewLibrary()
	l.Types().Put("x", d)
	out, ok := c.written(l)
	if !ok {
		return
	}
	root, err := docNode(out)
	if err != nil || len(root.Content) != 2 || len(root.Content[1].Content) != 2 {
		c.Violate("the library is written wrongly: %v\n%s", err, out)
		return
	}
	c.Same("declaration written in a library", want, noXMLExtra(canonTypeAs(root.Content[1].Content[1], string(d.Kind()), d.Type())))
}

func writtenDoc(c *Case, x interface{}) {
	_, lib := x.(raml.Library)
	want := obsDocument(x)
	if out, ok := c.written(x); ok {
		got, err := canonText(lib, out)
		if err != nil {
			c.Violate("the text is no YAML: %v\n%s", err, clip(out))
			return
		}
		c.Same("written document", want, noXMLExtra(got))
	}
}

// heldLists remembers lists by content: what a caller holds must not be
// overwritten by later calls on the object.
type heldLists []heldList

type heldList struct {
	what, text string
	list       interface{}
}

func (h *heldLists) add(what string, x interface{}) {
	if x == nil || reflect.TypeOf(x).Kind() != reflect.Slice || reflect.ValueOf(x).Len() == 0 {
		return
	}
	for _, e := range *h {
		a, b := reflect.ValueOf(e.list), reflect.ValueOf(x)
		if a.Pointer() == b.Pointer() && a.Len() == b.Len() && a.Type() == b.Type() {
			return
		}
	}
	*h = append(*h, heldList{what, show(x), x})
}

func (h heldLists) check() string {
	for _, e := range h {
		if now := show(e.list); now != e.text {
			return fmt.Sprintf("the list held from %s: %s became %s", e.what, e.text, now)
		}
	}
	return ""
}

func setterHistory(c *Case) {
	s := subjects[c.Idx%len(subjects)]
	kind := subjectKind(s.name)
	b := newBuilder(c.R)
	x := s.make(b)
	gs := getters(s.ifc)
	if has(x, "Required") {
		gs = append(gs, "Required")
	}
	all := ops(s.ifc)
	cur := observeAll(x, gs)
	initial := map[string]string{}
	for g, v := range cur {
		initial[g] = v
	}
	var log []string
	c.See("subject " + s.name)
	if kind != "" && strings.HasPrefix(s.name, "type:") {
		// A new declaration reports nothing but its kind and defaults.
		if o := obsType(x); len(o.K) != 2 {
			c.Violate("a new %s is not empty: %s", s.name, o)
		}
	}
	var alive []interface{}     // keeps containers, so that addresses stay unique
	past := map[string]string{} // identity of every container ever seen -> getter
	var lists heldLists         // every list given to or obtained from the object
	for step := 0; step < 25; step++ {
		for _, g := range gs {
			y := call(x, g)
			alive = append(alive, y)
			lists.add(g+"()", y)
		}
		expect := map[string]string{}
		var name, what string
		fresh := ""
		if b.p(1, 5) {
			// Change a container through its getter.
			var cs []string
			for _, g := range gs {
				if !isNilAny(call(x, g)) && isContainer(call(x, g)) {
					cs = append(cs, g)
				}
			}
			if len(cs) == 0 {
				continue
			}
			g := cs[b.r.Intn(len(cs))]
			m := call(x, g)
			n := call(m, "Len").(int)
			if g == "Schemas" {
				g = "Types"
			}
			if n > 0 && b.p(1, 3) {
				what = g + "().Delete"
				call(m, "Delete", field(call(m, "At", b.r.Intn(n)), "Key"))
			} else {
				what = g + "().Put"
				b.putFor(x, g, kind)
			}
			if g == "Types" || g == "Schemas" {
				expect["Types"], expect["Schemas"] = show(m), show(m)
			} else {
				expect[g] = show(m)
			}
		} else {
			if len(all) == 0 {
				break
			}
			op := all[b.r.Intn(len(all))]
			name = op.name
			ts := targets(s.ifc, op.facet)
			var ret interface{}
			if op.in == nil {
				what = op.name
				ret = call(x, op.name)
				for _, t := range ts {
					expect[t] = "empty"
				}
				fresh = ts[0]
			} else {
				var a interface{}
				switch {
				case op.facet == "Type":
					a = b.typeNameFor(kind)
				case b.newMapOf(op.in) != nil:
					if !b.p(1, 4) {
						a = b.mapArg(op.in, op.facet, kind)
					}
				default:
					a = b.arg(op.in, kind)
				}
				what = fmt.Sprintf("%s(%s)", op.name, show(a))
				lists.add("the argument of "+op.name, a)
				ret = call(x, op.name, a)
				for _, t := range ts {
					switch {
					case isNilAny(a):
						expect[t] = "empty"
						fresh = t
					case has(call(x, t), "IsPresent"):
						expect[t] = "present " + showVal(a)
					default:
						expect[t] = show(a)
					}
				}
			}
			if op.fluent && ret != x {
				c.Violate("%s of %s does not return the object it was called on", op.name, s.name)
			}
			c.See(s.name + "." + name)
		}
		log = append(log, what)
		c.Count("calls", 1)
		for g, v := range cur {
			if p := strings.SplitN(v, " ", 3); p[0] == "map" {
				past[p[1]] = g
			}
		}
		now := observeAll(x, gs)
		for _, g := range gs {
			want, changed := expect[g]
			if !changed {
				want = cur[g]
			}
			got := now[g]
			c.Count("getter observations", 1)
			ok := want == got
			if changed && want == "empty" {
				ok = emptyShow(got)
				if strings.HasPrefix(initial[g], "map ") && got == "empty" {
					ok = false // no container at all: the caller cannot fill it
				}
				// What replaces a container must be a new one.
				if p := strings.SplitN(got, " ", 3); ok && p[0] == "map" && fresh != "" {
					if owner, used := past[p[1]]; used && p[1] != strings.SplitN(cur[g], " ", 3)[1] {
						c.Violate("after %s %s() is a container that %s() returned before", what, g, owner)
					}
					if !emptyShow(cur[g]) && cur[g] != initial[g] && p[1] == strings.SplitN(cur[g], " ", 3)[1] {
						c.Violate("after %s %s() is the old container, emptied", what, g)
					}
				}
			}
			if !ok {
				c.Input([]byte(s.name + ": " + strings.Join(log, "; ")))
				c.Violate("%s: after %s the getter %s() gives %s, expected %s", s.name, what, g, got, want)
				return
			}
		}
		if msg := lists.check(); msg != "" {
			c.Input([]byte(s.name + ": " + strings.Join(log, "; ")))
			c.Violate("%s: %s changes %s", s.name, what, msg)
			return
		}
		cur = now
		if b.p(1, 12) {
			s.written(c, x)
		}
	}
	c.Input([]byte(s.name + ": " + strings.Join(log, "; ")))
	c.Distinct(s.name + strings.Join(log, ";"))
	s.written(c, x)
	c.Check(true, "")
	runtime.KeepAlive(alive)
}

// typeNameFor gives a type name under which a declaration stays writable.
func (b *builder) typeNameFor(kind string) string {
	switch kind {
	case "include":
		return b.key() + ".raml"
	}
	return newGen(b.r).pick([]string{kind, "Custom", "A | B", "Other[]", "lib.Type", b.key()})
}

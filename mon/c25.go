package main

import (
	"errors"
	"fmt"
	"reflect"
	"strings"
	"unicode/utf8"
	"unsafe"

	"encoding/json"

	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
	"gopkg.in/yaml.v3"
)

// C25: values that have no YAML form are reported.

type failing struct{}

func (failing) ToYAML() (*yaml.Node, error) { return nil, errors.New("this value fails") }

type structure struct{ A, B string }

type namedChan chan string

// A poison is a value that cannot be written.
type poison struct {
	name string
	f    func() interface{}
	node bool // only found when the node is encoded
	json bool // no JSON form either
}

var poisons = []poison{
	{"channel", func() interface{} { return make(chan int) }, false, true},
	{"named channel", func() interface{} { return make(namedChan) }, false, true},
	{"function", func() interface{} { return func() {} }, false, true},
	{"complex number", func() interface{} { return complex(1, 2) }, false, true},
	{"complex64", func() interface{} { return complex64(complex(1, 2)) }, false, true},
	{"structure", func() interface{} { return structure{"a", "b"} }, false, false},
	{"pointer to a structure", func() interface{} { return &structure{"a", "b"} }, false, false},
	{"uintptr", func() interface{} { return uintptr(5) }, false, false},
	{"unsafe pointer", func() interface{} { x := 1; return unsafe.Pointer(&x) }, false, true},
	{"list with a channel", func() interface{} { return []interface{}{1, make(chan int), 2} }, false, true},
	{"list of structures", func() interface{} { return []structure{{}} }, false, false},
	{"array of functions", func() interface{} { return [1]func(){func() {}} }, false, true},
	{"map with a channel", func() interface{} { return map[string]interface{}{"a": 1, "b": make(chan int)} }, false, true},
	{"map of channels", func() interface{} { return map[string]chan int{"a": make(chan int)} }, false, true},
	{"map keyed by a structure", func() interface{} { return map[structure]int{{"a", "b"}: 1} }, false, true},
	{"map keyed by a channel", func() interface{} { return map[chan int]int{make(chan int): 1} }, false, true},
	{"UntypedMap with a function", func() interface{} { return raml.NewUntypedMap(1).Put("a", 1).Put("b", func() {}) }, false, true},
	{"AnyMap with a structure", func() interface{} { return raml.NewAnyMap(1).Put("a", structure{}).Put(1, 2) }, false, false},
	{"AnyMap keyed by a structure", func() interface{} { return raml.NewAnyMap(1).Put(structure{}, 1).SerializeOrdered(false) }, false, false},
	{"failing marshaler", func() interface{} { return failing{} }, false, false},
	{"pointer to a failing marshaler", func() interface{} { return &failing{} }, false, false},
	{"node of no kind", func() interface{} { return &yaml.Node{Kind: 77, Value: "x"} }, true, false},
	{"text that is not UTF-8", func() interface{} { return "a\xffb" }, true, false},
	{"named text that is not UTF-8", func() interface{} { return namedString("\xc3\x28") }, true, false},
	{"list with a text that is not UTF-8", func() interface{} { return []string{"a", "\xfe"} }, true, false},
	{"map keyed by a text that is not UTF-8", func() interface{} { return map[string]int{"\xfe": 1} }, true, false},
	{"node with a text that is not UTF-8", func() interface{} { return sc("!!str", "\xff", 0) }, true, false},
}

// unwritable tells whether a canonical value shows something that has no form
// in YAML.
func unwritable(v *V) bool {
	if v == nil {
		return false
	}
	if v.T == "!BAD" || !utf8.ValidString(v.S) {
		return true
	}
	for _, k := range v.K {
		if v.KV == nil && !utf8.ValidString(k) || v.Kind == 'r' && strings.HasPrefix(k, "!BAD") {
			return true
		}
	}
	for _, l := range [][]*V{v.L, v.KV, v.M} {
		for _, x := range l {
			if unwritable(x) {
				return true
			}
		}
	}
	return false
}

// meaning observes any object.
func meaning(x interface{}) *V {
	switch d := x.(type) {
	case raml.APISpec, raml.Library:
		return obsDocument(d)
	case raml.DataType:
		return obsType(d)
	case raml.XML:
		return obsXML(d)
	case raml.Documentation:
		return obsDoc(d)
	case raml.Example:
		for _, k := range extKinds {
			if isExampleOf(d, k) {
				return obsExample(k, d)
			}
		}
	}
	if isContainer(x) {
		return obsMap(x, func(v interface{}) *V {
			if isObject(v) {
				return meaning(v)
			}
			return freeAny(v)
		})
	}
	return nil
}

// texts lists the plain texts of a canonical document that setters take.
func texts(v *V, f func(what string, set func())) {
	const bad = "b\xffd"
	switch v.Kind {
	case 'r':
		for i, k := range v.K {
			x := v.M[i]
			switch {
			case isIn(k, []string{"title", "version", "baseUri", "description", "usage", "displayName", "content", "pattern", "discriminator", "name", "namespace", "prefix"}) && x.Kind == 's' && x.T == "str":
				f(k, func() { x.S = bad })
			case isIn(k, []string{"protocols", "securedBy", "mediaType", "fileTypes"}):
				for _, e := range x.L {
					e := e
					f(k, func() { e.S = bad })
				}
			case k == "uses":
				for j, e := range x.M {
					e, j := e, j
					f("uses target", func() { e.S = bad })
					f("uses name", func() { x.K[j] = bad })
				}
			case k == "documentation":
				for _, e := range x.L {
					texts(e, f)
				}
			case isIn(k, []string{"types", "properties", "examples"}):
				for j, e := range x.M {
					j := j
					f(k+" name", func() { x.K[j] = bad })
					texts(e, f)
				}
			case k == "facets":
				for j, e := range x.M {
					j := j
					f(k+" name", func() { x.K[j] = bad })
					for _, t := range e.M {
						texts(t, f)
					}
				}
			case k == "annotations" || isIn(k, apiSections):
				for j := range x.M {
					j := j
					f(k+" name", func() { x.K[j] = strings.Replace("("+bad+")", "(", map[bool]string{true: "("}[k == "annotations"], 1) })
				}
			case isIn(k, []string{"example", "xml", "items"}):
				texts(x, f)
			}
		}
	}
}

// yamlErr encodes a value with the YAML library, which panics on values it
// cannot write itself.
func yamlErr(x interface{}) (err error) {
	defer func() {
		if e := recover(); e != nil {
			err = fmt.Errorf("%v", e)
		}
	}()
	_, err = yaml.Marshal(x)
	return err
}

func init() {
	register(&Check{
		id: "C25", quick: 4000, thorough: 200000, assume: []string{yamlTrust},
		rule: "random documents assembled through the API in which one value, at any depth and place, has no YAML form (channels, functions, structures, failing marshalers, texts that are not UTF-8, alone or inside lists and maps); every serializer of every object that contains it must report an error and every other object must still be written; distinct by kind of value and assembled document",
		fn: func(c *Case) {
			lib := c.R.Intn(2) == 0
			d := c.gen(lib, func(g *Gen) *yaml.Node {
				g.left = 60
				if g.p(1, 4) {
					return g.freeform(lib)
				}
				return g.anyDoc(c, lib)
			})
			b := newBuilder(sub(c.R))
			p := poisons[c.Idx%len(poisons)]
			want := d.want
			if c.R.Intn(4) == 0 {
				// A text in a place that only takes texts.
				want = want.clone()
				var whats []string
				var sets []func()
				texts(want, func(what string, set func()) { whats, sets = append(whats, what), append(sets, set) })
				if len(sets) == 0 {
					return
				}
				by := map[string][]int{}
				var names []string
				for i, w := range whats {
					if by[w] == nil {
						names = append(names, w)
					}
					by[w] = append(by[w], i)
				}
				w := names[c.R.Intn(len(names))]
				sets[by[w][c.R.Intn(len(by[w]))]]()
				p = poison{"text that is not UTF-8 as " + w, nil, true, false}
			} else {
				// Count the values, then poison one of them.
				seed := c.R.Int63()
				b = newBuilder(newRand(seed))
				b.document(lib, want)
				if b.plains == 0 {
					return
				}
				at := 1 + c.R.Intn(b.plains)
				b = newBuilder(newRand(seed))
				b.poisonAt, b.poison = at, p.f
			}
			x := b.document(lib, want)
			c.Input([]byte(fmt.Sprintf("assembled, with a %s: %s", p.name, d.want)))
			if !unwritable(meaning(x)) {
				c.Count("values replaced while assembling (discarded)", 1)
				return
			}
			c.See(p.name)
			c.Distinct(p.name + d.want.String())
			text, err := writeDoc(x)
			if !c.Check(err != nil, "a document with a %s is written without an error:\n%s", p.name, text) {
				return
			}
			for _, o := range reach(x) {
				m := meaning(o)
				if m == nil {
					continue
				}
				inside := unwritable(m)
				if inside {
					c.See(fmt.Sprintf("%s in %T", map[bool]string{true: "unencodable", false: "unwritable"}[p.node], o))
				}
				for _, name := range []string{"ToRAML", "ToYAML"} {
					f := reflect.ValueOf(o).MethodByName(name)
					if !f.IsValid() {
						continue
					}
					out := f.Call(nil)
					fails := !out[len(out)-1].IsNil()
					if name == "ToRAML" || !p.node || !inside {
						c.Check(fails == inside, "%s of a %T with a %s inside (%v): error %v", name, o, p.name, inside, out[len(out)-1].Interface())
						c.Count("serializers called", 1)
					}
				}
				if _, ok := o.(yaml.Marshaler); ok {
					err := yamlErr(o)
					c.Check((err != nil) == inside, "a %T with a %s inside (%v) is encoded with error %v", o, p.name, inside, err)
					c.Count("serializers called", 1)
				}
				switch o.(type) {
				case raml.UntypedMap, raml.AnyMap:
					if !inside || !p.json {
						continue
					}
					_, err := json.Marshal(o)
					c.Check(err != nil, "a %T with a %s is written as JSON without an error", o, p.name)
					c.Count("serializers called", 1)
				}
			}
		},
	})
}

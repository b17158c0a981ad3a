package main

import (
	"bytes"
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"strings"

	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
	"gopkg.in/yaml.v3"
)

// C26: all ways to serialize an object say the same.

func mapOf(n *yaml.Node, f func(*yaml.Node) *V) *V {
	out := omap()
	if !each(n, func(k, v *yaml.Node) { out.set(k.Value, f(v)) }) {
		return badV("not a map")
	}
	return out
}

// canonOf reads what an object was serialized to.
func canonOf(o interface{}, n *yaml.Node) *V {
	if n.Kind == yaml.DocumentNode && len(n.Content) == 1 {
		n = n.Content[0]
	}
	switch d := o.(type) {
	case raml.APISpec:
		return canonAPI(n)
	case raml.Library:
		return canonLib(n)
	case raml.DataType:
		return canonType(n)
	case raml.XML:
		return canonXML(n)
	case raml.Documentation:
		return canonDoc(n)
	case raml.Example:
		for _, k := range extKinds {
			if isExampleOf(d, k) {
				return canonExample(valueClass[k], n)
			}
		}
	case raml.UntypedMap, raml.AnyMap:
		return free(n)
	case raml.StringMap:
		return strMap(n)
	case raml.AnnotationMap:
		return mapOf(n, free)
	case raml.DataTypeMap, raml.PropertyMap:
		return typeMap(n)
	case raml.FacetMap:
		return mapOf(n, typeMap)
	}
	for _, k := range extKinds {
		if isExampleMapOf(o, k) {
			return mapOf(n, func(n *yaml.Node) *V { return canonExample(valueClass[k], n) })
		}
	}
	return nil
}

func isExampleMapOf(o interface{}, kind string) bool {
	m := reflect.ValueOf(o).MethodByName("Get")
	return m.IsValid() && m.Type().NumOut() == 2 && m.Type().Out(0) == exIfc[kind]
}

// forms serializes an object in every way it offers.
func forms(c *Case, o interface{}) (names []string, vals []*V) {
	add := func(name string, n *yaml.Node, err error) {
		if !c.Check(err == nil && n != nil, "%s of a %T fails: %v", name, o, err) {
			return
		}
		if v := canonOf(o, n); v != nil {
			names, vals = append(names, name), append(vals, v)
		}
	}
	text := func(name string, b []byte, err error) {
		var n *yaml.Node
		if err == nil {
			n, err = docNode(b)
		}
		add(name, n, err)
	}
	if x, ok := o.(interface{ ToYAML() (*yaml.Node, error) }); ok {
		n, err := x.ToYAML()
		add("ToYAML", n, err)
	}
	if x, ok := o.(interface{ ToRAML() (string, error) }); ok {
		s, err := x.ToRAML()
		text("ToRAML", []byte(s), err)
	}
	if x, ok := o.(ramlWriter); ok {
		var b bytes.Buffer
		err := x.WriteRAML(&b)
		text("WriteRAML", b.Bytes(), err)
	}
	if x, ok := o.(yaml.Marshaler); ok {
		var b bytes.Buffer
		enc := yaml.NewEncoder(&b)
		enc.SetIndent([]int{2, 4, 3, 8, 1}[c.Idx%5])
		err := enc.Encode(x)
		enc.Close()
		text("yaml.Encode", b.Bytes(), err)
		// Inside of other values.
		raw, err := yaml.Marshal(map[string]interface{}{"a": []interface{}{x, "b"}})
		var n *yaml.Node
		if err == nil {
			if n, err = docNode(raw); err == nil {
				n = n.Content[1].Content[0]
			}
		}
		add("yaml.Marshal", n, err)
		v, err := x.MarshalYAML()
		if n, ok := v.(*yaml.Node); ok {
			add("MarshalYAML", n, err)
		}
	}
	if x, ok := o.(raml.Marshaler); ok {
		m := raml.NewAnyMap(2).SerializeOrdered(false)
		simple, err := x.MarshalRAML(m)
		var n *yaml.Node
		if err == nil {
			n, err = m.ToYAML()
			if simple && c.Check(m.Len() == 1, "MarshalRAML of a %T calls %d entries simple", o, m.Len()) {
				n = n.Content[1] // what is simple stands for itself
			}
		}
		add("MarshalRAML", n, err)
	}
	return
}

// agreeForms compares all ways to serialize an object.
func agreeForms(c *Case, o interface{}) bool {
	names, vals := forms(c, o)
	if len(vals) == 0 {
		return true
	}
	m := meaning(o)
	if m == nil {
		return true
	}
	kind := strings.TrimPrefix(fmt.Sprintf("%T", o), "*")
	for i, v := range vals {
		c.See(names[i] + " of " + kind)
		c.Count("serializations read", 1)
		if d := diff("", vals[0], v); !c.Check(d == "", "%s and %s of a %s differ: %s", names[0], names[i], kind, d) {
			return false
		}
	}
	got := vals[0]
	switch o.(type) {
	case raml.XML:
		got = got.clone()
		got.del("extra")
	}
	if d := diff("", noXMLExtra(m), noXMLExtra(got)); !c.Check(d == "", "%s of a %s differs from what it reports: %s", names[0], kind, d) {
		return false
	}
	return true
}

func init() {
	register(&Check{
		id: "C26", quick: 3000, thorough: 150000, assume: []string{yamlTrust},
		rule: "random parsed and assembled documents and examples of every kind with edge values; every reachable object is serialized in every way it offers (WriteRAML, ToRAML, ToYAML, MarshalYAML, MarshalRAML), each result is read by an independent reader and compared with the others and with what the accessors report; distinct by document",
		fn: func(c *Case) {
			x := c.someDoc(c.R.Intn(2) == 0, true)()
			if isNilAny(x) {
				return
			}
			objs := reach(x)
			for _, o := range objs {
				if isContainer(o) {
					call(o, "SerializeOrdered", false)
				}
			}
			for _, o := range objs {
				if !agreeForms(c, o) {
					return
				}
			}
			// Examples of every kind, by themselves.
			b := newBuilder(sub(c.R))
			for i := 0; i < 6; i++ {
				kind := extKinds[(c.Idx*6+i)%len(extKinds)]
				e := b.randomExample(kind)
				if c.R.Intn(2) == 0 {
					// Just a value, an unusual one.
					e = newExample(kind)
					call(e, "SetValue", b.typedOf(valueClass[kind], edgeValue(c.R, valueClass[kind])))
				}
				if !agreeForms(c, e) {
					return
				}
			}
		},
	})
}

// edgeValue is an unusual value of a class.
func edgeValue(r *rand.Rand, class string) *V {
	texts := []string{"", "", " ", "null", "~", "true", "1", "0", "{}", "[]", "=", "\n", "2020-01-01", "value", "!x", "#", "a: b"}
	ints := []int64{0, 0, 1, -1, math.MaxInt64, math.MinInt64, math.MaxInt32, math.MaxUint32}
	nums := []float64{0, 0, 1, -1, .1, 1e21, 1e-7, math.MaxFloat64, math.SmallestNonzeroFloat64, math.Inf(1), math.Inf(-1), 1 << 53}
	switch class {
	case "str", "time":
		return str(texts[r.Intn(len(texts))])
	case "bool":
		return boolV(r.Intn(2) == 0)
	case "int":
		return intV(ints[r.Intn(len(ints))])
	case "num":
		return numV(nums[r.Intn(len(nums))])
	case "anylist":
		out := list()
		for i := r.Intn(3); i > 0; i-- {
			out.L = append(out.L, edgeValue(r, "any"))
		}
		return out
	}
	switch r.Intn(7) {
	case 0:
		return omap()
	case 1:
		m := omap()
		m.set([]string{"value", "", "strict", "x"}[r.Intn(4)], edgeValue(r, "str"))
		return m
	case 2:
		return edgeValue(r, "anylist")
	case 3:
		return intV(ints[r.Intn(len(ints))])
	case 4:
		return boolV(false)
	case 5:
		return floatV(nums[r.Intn(len(nums))])
	}
	return edgeValue(r, "str")
}

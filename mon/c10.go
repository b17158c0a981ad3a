package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"reflect"
	"strconv"
	"strings"

	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
	"gopkg.in/yaml.v3"
)

// C10: the ordered maps against a model.  C11: what they are serialized to.

type entry struct {
	key, val interface{}
}

// mapModel is an abstract insertion-ordered map.
type mapModel struct {
	es []entry
}

func (m *mapModel) find(k interface{}) int {
	for i := range m.es {
		if m.es[i].key == k {
			return i
		}
	}
	return -1
}
func (m *mapModel) del(k interface{}) {
	if i := m.find(k); i >= 0 {
		m.es = append(append([]entry{}, m.es[:i]...), m.es[i+1:]...)
	}
}
func (m *mapModel) put(k, v interface{}) { m.del(k); m.es = append(m.es, entry{k, v}) }
func (m *mapModel) rep(k, v interface{}) {
	if i := m.find(k); i >= 0 {
		m.es[i].val = v
	}
}

// ident renders the identity of a value.
func ident(v interface{}) string {
	if v == nil {
		return "nil"
	}
	r := reflect.ValueOf(v)
	switch r.Kind() {
	case reflect.Ptr, reflect.Map, reflect.Func:
		return fmt.Sprintf("%T %x", v, r.Pointer())
	case reflect.Slice:
		return fmt.Sprintf("%T %x %d", v, r.Pointer(), r.Len())
	}
	return fmt.Sprintf("%T %#v", v, v)
}

// mapHistory drives one map type through a history of operations.
type mapHistory struct {
	c    *Case
	b    *builder
	m    interface{}
	name string
	mod  *mapModel
	kt   reflect.Type // key type of Put
	vt   reflect.Type
	keys []interface{}
	vals []interface{}
	log  []string
	all  bool // also visit nil and odd plain values
}

func ctorName(f interface{}) string {
	return strings.TrimPrefix(reflect.TypeOf(f).Out(0).String(), "raml.")
}

func newHistory(c *Case, ctor interface{}, nkeys, nvals int) *mapHistory {
	h := &mapHistory{c: c, b: newBuilder(c.R), mod: &mapModel{}, name: ctorName(ctor)}
	h.m = reflect.ValueOf(ctor).Call([]reflect.Value{reflect.ValueOf(c.R.Intn(6))})[0].Interface()
	put := reflect.ValueOf(h.m).MethodByName("Put").Type()
	h.kt, h.vt = put.In(0), put.In(1)
	used := map[string]bool{}
	for len(h.keys) < nkeys {
		var k interface{} = h.b.key()
		if c.R.Intn(10) == 0 {
			k = ""
		}
		if len(h.keys) >= 40 {
			k = "key" + strconv.Itoa(len(h.keys))
		}
		if h.kt.Kind() == reflect.Interface && c.R.Intn(2) == 0 {
			k = []interface{}{len(h.keys), int64(len(h.keys) + 1000), len(h.keys) + 2000, true, false, 1.5 + float64(len(h.keys))}[c.R.Intn(6)]
		}
		if h.kt.Kind() == reflect.Interface && c.R.Intn(5) == 0 && len(h.keys) > 0 {
			// A key that prints like another one.
			switch d := h.keys[c.R.Intn(len(h.keys))].(type) {
			case string:
				if i, err := strconv.Atoi(d); err == nil {
					k = i
				}
			default:
				k = fmt.Sprint(d)
			}
		}
		if id := fmt.Sprintf("%T %v", k, k); !used[id] {
			used[id] = true
			h.keys = append(h.keys, k)
		}
	}
	for len(h.vals) < nvals {
		h.vals = append(h.vals, h.newVal())
	}
	return h
}

func (h *mapHistory) untyped() bool { return h.vt.Kind() == reflect.Interface && h.vt.NumMethod() == 0 }

func (h *mapHistory) newVal() interface{} {
	if h.untyped() && !strings.HasPrefix(h.name, "AnyExample") {
		if h.c.R.Intn(8) == 0 {
			return nil
		}
		return h.b.typedOf("any", h.b.freeV(2))
	}
	if h.untyped() && h.c.R.Intn(2) == 0 {
		return h.b.typedOf("any", h.b.freeV(1))
	}
	return h.b.elem(h.m)
}

func (h *mapHistory) key() interface{} { return h.keys[h.c.R.Intn(len(h.keys))] }
func (h *mapHistory) val() interface{} { return h.vals[h.c.R.Intn(len(h.vals))] }

// step performs one random operation on the map and on the model.
func (h *mapHistory) step() {
	k, v := h.key(), h.val()
	op := []string{"Put", "Put", "PutIfNotNil", "PutIfNotNil", "ReplaceOrPut", "ReplaceOrPut", "ReplaceIfExists", "Delete", "Delete"}[h.c.R.Intn(9)]
	args := []interface{}{k, v}
	switch op {
	case "Put":
		h.mod.put(k, v)
	case "PutIfNotNil":
		pt := reflect.ValueOf(h.m).MethodByName(op).Type().In(1)
		null := h.c.R.Intn(3) == 0
		switch {
		case null && pt.Kind() == reflect.Ptr:
			args[1] = reflect.Zero(pt).Interface()
		case null:
			args[1] = []interface{}{nil, (*string)(nil), (*int)(nil), []string(nil), map[string]string(nil)}[h.c.R.Intn(5)]
		case pt.Kind() == reflect.Ptr:
			p := reflect.New(pt.Elem())
			p.Elem().Set(reflect.ValueOf(v))
			args[1] = p.Interface()
			h.mod.put(k, v)
		case h.c.R.Intn(3) == 0:
			s := h.b.str()
			args[1] = &s
			h.mod.put(k, s)
		case h.c.R.Intn(3) == 0:
			// Arrays are never nil; nodes and objects are kept as they are.
			switch h.c.R.Intn(3) {
			case 0:
				args[1] = [2]int{h.c.R.Intn(9), 0}
			case 1:
				args[1] = sc("!!str", h.b.str(), 0)
			default:
				args[1] = h.b.elem(raml.NewDataTypeMap(0))
			}
			h.mod.put(k, args[1])
		default:
			s := interface{}(h.c.R.Intn(100))
			if h.c.R.Intn(2) == 0 {
				s = h.b.str()
			}
			args[1] = s
			h.mod.put(k, s)
		}
	case "ReplaceOrPut":
		if h.mod.find(k) >= 0 {
			h.mod.rep(k, v)
		} else {
			h.mod.put(k, v)
		}
	case "ReplaceIfExists":
		h.mod.rep(k, v)
	case "Delete":
		h.mod.del(k)
		args = args[:1]
	}
	h.log = append(h.log, fmt.Sprintf("%s(%#v)", op, k))
	ret := call(h.m, op, args...)
	h.c.Count("map operations", 1)
	h.c.See(h.name + "." + op)
	if ret != h.m {
		h.c.Violate("%s.%s does not return the map it was called on", h.name, op)
	}
}

// fill puts all keys into the map.
func (h *mapHistory) fill() {
	for _, i := range h.c.R.Perm(len(h.keys)) {
		v := h.val()
		h.mod.put(h.keys[i], v)
		call(h.m, "Put", h.keys[i], v)
	}
	h.log = append(h.log, fmt.Sprintf("Put of %d keys", len(h.keys)))
}

// drain deletes most entries of the map, in random order.
func (h *mapHistory) drain() bool {
	var keys []interface{}
	for _, e := range h.mod.es {
		keys = append(keys, e.key)
	}
	h.c.R.Shuffle(len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
	keep, n := h.c.R.Intn(5), len(keys)
	for i, k := range keys {
		if n-i <= keep {
			break
		}
		h.mod.del(k)
		call(h.m, "Delete", k)
		h.c.Count("map operations", 1)
		if (n < 20 || i%(n/12) == 0 || n-i < keep+4) && !h.agree(fmt.Sprintf("deleting %d of %d entries", i+1, n)) {
			return false
		}
	}
	h.log = append(h.log, fmt.Sprintf("Delete of %d random keys", n-len(h.mod.es)))
	h.c.Count("maps drained", 1)
	return true
}

// agree compares all queries with the model.
func (h *mapHistory) agree(what string) bool {
	bad := func(format string, a ...interface{}) bool {
		h.c.Input([]byte(h.name + ": " + strings.Join(h.log, "; ")))
		h.c.Violate("%s after %s: %s", h.name, what, fmt.Sprintf(format, a...))
		return false
	}
	es := h.mod.es
	if n := call(h.m, "Len").(int); n != len(es) {
		return bad("Len() is %d, expected %d", n, len(es))
	}
	i := 0
	var werr string
	visit := reflect.ValueOf(h.m).MethodByName("ForEach")
	ft := visit.Type().In(0)
	ret := visit.Call([]reflect.Value{reflect.MakeFunc(ft, func(in []reflect.Value) []reflect.Value {
		k, v := in[0].Interface(), in[1].Interface()
		if i >= len(es) {
			werr = fmt.Sprintf("ForEach visits an extra entry %#v", k)
		} else if k != es[i].key || ident(v) != ident(es[i].val) {
			werr = fmt.Sprintf("ForEach visits %#v=%s at %d, expected %#v=%s", k, ident(v), i, es[i].key, ident(es[i].val))
		}
		i++
		return nil
	})})[0].Interface()
	if werr != "" {
		return bad("%s", werr)
	}
	if i != len(es) {
		return bad("ForEach visits %d entries of %d", i, len(es))
	}
	if ret != h.m {
		return bad("ForEach does not return the map")
	}
	for j, e := range es {
		at := call(h.m, "At", j)
		if k, v := field(at, "Key"), field(at, "Val"); k != e.key || ident(v) != ident(e.val) {
			return bad("At(%d) is %#v=%s, expected %#v=%s", j, k, ident(v), e.key, ident(e.val))
		}
	}
	keys := h.keys
	if len(keys) > 12 {
		keys = nil
		for j := 0; j < 12; j++ {
			keys = append(keys, h.key())
		}
	}
	for _, k := range append([]interface{}{}, keys...) {
		pos := h.mod.find(k)
		if has := call(h.m, "Has", k).(bool); has != (pos >= 0) {
			return bad("Has(%#v) is %v", k, has)
		}
		if at := call(h.m, "IndexOf", k).(int); at != pos {
			return bad("IndexOf(%#v) is %d, expected %d", k, at, pos)
		}
		out := reflect.ValueOf(h.m).MethodByName("Get").Call([]reflect.Value{argOf(k, h.kt)})
		v, found := out[0].Interface(), out[1].Bool()
		if found != (pos >= 0) {
			return bad("Get(%#v) finds %v", k, found)
		}
		if pos >= 0 && ident(v) != ident(es[pos].val) {
			return bad("Get(%#v) is %s, expected %s", k, ident(v), ident(es[pos].val))
		}
		if pos < 0 && !out[0].IsZero() {
			return bad("Get(%#v) gives %s for a key that does not exist", k, ident(v))
		}
		if has(h.m, "GetOpt") {
			o := call(h.m, "GetOpt", k)
			p := call(o, "IsPresent").(bool)
			switch {
			case pos < 0 || p == false:
				// A nil value is an empty option.
				if p != (pos >= 0) && !(pos >= 0 && isNilAny(es[pos].val)) {
					return bad("GetOpt(%#v) is present: %v", k, p)
				}
			case ident(call(o, "Get")) != ident(es[pos].val):
				return bad("GetOpt(%#v) is %s, expected %s", k, ident(call(o, "Get")), ident(es[pos].val))
			}
		}
	}
	h.c.Count("map states compared", 1)
	return true
}

func argOf(k interface{}, t reflect.Type) reflect.Value {
	v := reflect.New(t).Elem()
	v.Set(reflect.ValueOf(k))
	return v
}

func init() {
	register(&Check{
		id: "C10", quick: 6300, thorough: 400000, assume: []string{"keys are comparable and equal to themselves"},
		rule: "histories of 40 (long ones: 400) random operations on each of the 21 map types, some filled and drained (up to 1100 entries), with Len, At, ForEach, Get, GetOpt, Has and IndexOf compared with a list model after every operation, values by identity; distinct by history",
		fn: func(c *Case) {
			ctor := mapCtors[c.Idx%len(mapCtors)]
			nk, nv, steps := 2+c.R.Intn(8), 4, 40
			if c.Idx/len(mapCtors)%20 == 7 {
				nk, nv, steps = 150, 6, 400
			}
			large := c.Idx/len(mapCtors)%40 == 11
			if large {
				nk, nv, steps = []int{300, 600, 1100}[c.R.Intn(3)], 6, 120
			}
			h := newHistory(c, ctor, nk, nv)
			if !h.agree("creation") {
				return
			}
			if nk >= 150 && (large || c.R.Intn(2) == 0) {
				// Start from a map that is full.
				h.fill()
				if !h.agree("filling") {
					return
				}
			}
			// Empty the map and fill it again now and then.
			drain := -1
			if c.R.Intn(3) == 0 || large {
				drain = c.R.Intn(steps)
			}
			for i := 0; i < steps; i++ {
				h.step()
				if i == drain && !h.drain() {
					return
				}
				if large && i%10 != 9 {
					continue
				}
				if !h.agree(h.log[len(h.log)-1]) {
					return
				}
			}
			c.Input([]byte(h.name + ": " + strings.Join(h.log, "; ")))
			c.Distinct(h.name + strings.Join(h.log, ";"))
			c.Check(true, "")
		},
	})
	register(&Check{
		id: "C11", quick: 4200, thorough: 250000, assume: []string{yamlTrust},
		rule: "maps of each of the 21 types after random histories, in ordered, unordered and default mode, serialized by ToYAML, MarshalYAML, yaml.Marshal, MarshalJSON and json.Marshal; every entry and its value, the order and the form are compared with the model, and the map with its state before; distinct by output",
		fn:   serializeMap,
	})
}

// entryV gives the canonical form of a value that a map of a type holds.
func (h *mapHistory) entryV(v interface{}) *V {
	if _, ok := v.(raml.Facet); ok && !h.untyped() {
		return obsTypes(v)
	}
	switch x := v.(type) {
	case raml.DataType:
		return obsType(x)
	case raml.Example:
		return obsExample(h.exKind(v), x)
	}
	return freeAny(v)
}

// exKind gives the kind of an example.
func (h *mapHistory) exKind(v interface{}) string {
	for _, k := range extKinds {
		if typeOf(v).Implements(exIfc[k]) && isExampleOf(v, k) {
			return k
		}
	}
	return ""
}

// nodeV reads the node of a value that a map of a type holds.
func (h *mapHistory) nodeV(v interface{}, n *yaml.Node) *V {
	if _, ok := v.(raml.Facet); ok && !h.untyped() {
		return noXMLExtra(typeMap(n))
	}
	switch x := v.(type) {
	case raml.DataType:
		return noXMLExtra(canonTypeAs(n, string(x.Kind()), x.Type()))
	case raml.Example:
		return canonExample(valueClass[h.exKind(v)], n)
	}
	return free(n)
}

// isExampleOf tells whether an example is of a kind: the untyped kinds have
// identical interfaces up to their setters.
func isExampleOf(v interface{}, kind string) bool {
	m, ok := typeOf(v).MethodByName("SetDisplayName")
	return ok && m.Type.NumOut() == 1 && m.Type.Out(0) == exIfc[kind]
}

func serializeMap(c *Case) {
	nk := 1 + c.R.Intn(8)
	if c.R.Intn(40) == 0 {
		nk = []int{20, 40, 70, 130, 300}[c.R.Intn(5)]
	}
	h := newHistory(c, mapCtors[c.Idx%len(mapCtors)], nk, 5)
	n := c.R.Intn(14)
	if nk > 10 {
		h.fill()
	}
	if c.R.Intn(40) == 0 {
		n = 200
	}
	for i := 0; i < n; i++ {
		h.step()
	}
	ordered := true
	switch c.R.Intn(3) {
	case 0:
		if ret := call(h.m, "SerializeOrdered", true); ret != h.m {
			c.Violate("%s.SerializeOrdered does not return the map", h.name)
		}
	case 1:
		call(h.m, "SerializeOrdered", false)
		ordered = false
	case 2:
		if c.R.Intn(2) == 0 {
			call(h.m, "SerializeOrdered", false)
			call(h.m, "SerializeOrdered", true)
		}
	}
	mode := "unordered"
	if ordered {
		mode = "ordered"
	}
	c.See(h.name + " " + mode)
	c.Input([]byte(h.name + " " + mode + ": " + strings.Join(h.log, "; ")))
	before := valuesOf(h)
	h.yaml(ordered)
	h.json(ordered)
	h.agree("serialization")
	if after := valuesOf(h); after != before {
		c.Violate("serializing changes the values of the map: %s\n%s", before, after)
	}
}

// valuesOf renders the content of all values of a map.
func valuesOf(h *mapHistory) string {
	var b strings.Builder
	for _, e := range h.mod.es {
		b.WriteString(h.entryV(e.val).String())
		b.WriteString("\n")
	}
	return b.String()
}

func (h *mapHistory) yaml(ordered bool) {
	c := h.c
	out := reflect.ValueOf(h.m).MethodByName("ToYAML").Call(nil)
	if !out[1].IsNil() {
		c.Violate("ToYAML fails: %v", out[1].Interface())
		return
	}
	h.yamlNode("ToYAML", ordered, out[0].Interface().(*yaml.Node))
	my, err := h.m.(yaml.Marshaler).MarshalYAML()
	if err != nil {
		c.Violate("MarshalYAML fails: %v", err)
		return
	}
	var text []byte
	for i, v := range []interface{}{my, h.m} {
		t, err := yaml.Marshal(v)
		if err != nil {
			c.Violate("yaml.Marshal fails: %v", err)
			return
		}
		if i > 0 && !bytes.Equal(t, text) {
			c.Violate("MarshalYAML and yaml.Marshal differ:\n%s\n%s", text, t)
		}
		text = t
	}
	n, err := docNode(text)
	if err != nil {
		c.Violate("yaml.Marshal gives no YAML: %v\n%s", err, text)
		return
	}
	h.yamlNode("yaml.Marshal", ordered, n)
	c.Distinct(h.name + string(text))
	c.Count("bytes of YAML", len(text))
}

func (h *mapHistory) yamlNode(what string, ordered bool, n *yaml.Node) {
	c := h.c
	var keys, vals []*yaml.Node
	if ordered {
		if n.Kind != yaml.SequenceNode || n.ShortTag() != "!!omap" {
			c.Violate("%s in ordered mode gives %s of kind %d", what, n.ShortTag(), n.Kind)
			return
		}
		for _, e := range n.Content {
			if e.Kind != yaml.MappingNode || len(e.Content) != 2 {
				c.Violate("%s: an entry of an ordered map has kind %d and %d nodes", what, e.Kind, len(e.Content))
				return
			}
			keys, vals = append(keys, e.Content[0]), append(vals, e.Content[1])
		}
	} else {
		if n.Kind != yaml.MappingNode || n.ShortTag() != "!!map" {
			c.Violate("%s in unordered mode gives %s of kind %d", what, n.ShortTag(), n.Kind)
			return
		}
		for i := 0; i+1 < len(n.Content); i += 2 {
			keys, vals = append(keys, n.Content[i]), append(vals, n.Content[i+1])
		}
	}
	if len(keys) != len(h.mod.es) {
		c.Violate("%s: %d entries of %d", what, len(keys), len(h.mod.es))
		return
	}
	for i, e := range h.mod.es {
		if !c.Same(fmt.Sprintf("%s: key %d", what, i), freeAny(e.key), free(keys[i])) {
			return
		}
		if !c.Same(fmt.Sprintf("%s: value of %#v", what, e.key), h.entryV(e.val), h.nodeV(e.val, vals[i])) {
			return
		}
	}
	c.Count("serialized entries compared", len(keys))
}

func (h *mapHistory) json(ordered bool) {
	c := h.c
	direct, err := h.m.(json.Marshaler).MarshalJSON()
	text, err2 := json.Marshal(h.m)
	if (err == nil) != (err2 == nil) {
		c.Violate("MarshalJSON: %v, json.Marshal: %v", err, err2)
		return
	}
	// What each value is by itself decides whether the map can be JSON.
	var want []interface{}
	possible := true
	for _, e := range h.mod.es {
		t, e := json.Marshal(e.val)
		if e != nil {
			possible = false
			break
		}
		want = append(want, jsonValue(t))
	}
	if !ordered {
		// Keys that print alike cannot both be in a JSON object.
		used := map[string]bool{}
		for _, e := range h.mod.es {
			k := fmt.Sprint(e.key)
			if used[k] {
				possible = false
				c.Count("maps with keys that print alike", 1)
			}
			used[k] = true
		}
	}
	if !possible {
		if err == nil {
			c.Violate("MarshalJSON succeeds for a value that is no JSON: %s", text)
		}
		c.Count("maps that are no JSON", 1)
		return
	}
	if err != nil {
		c.Violate("MarshalJSON fails: %v", err)
		return
	}
	got := jsonValue(text)
	if !reflect.DeepEqual(got, jsonValue(direct)) {
		c.Violate("MarshalJSON and json.Marshal differ:\n%s\n%s", direct, text)
	}
	c.Count("oracle verdicts", 1)
	if ordered {
		l, ok := got.([]interface{})
		if !ok || len(l) != len(want) {
			c.Violate("JSON in ordered mode is not a list of %d entries: %s", len(want), text)
			return
		}
		for i, x := range l {
			m, ok := x.(map[string]interface{})
			k, _ := json.Marshal(h.mod.es[i].key)
			if !ok || len(m) != 2 || !reflect.DeepEqual(m["key"], jsonValue(k)) || !reflect.DeepEqual(m["value"], want[i]) {
				c.Violate("JSON entry %d is %v, expected %s=%v", i, x, k, want[i])
				return
			}
			c.Count("JSON entries compared", 1)
		}
		return
	}
	m, ok := got.(map[string]interface{})
	if !ok || len(m) != len(want) {
		c.Violate("JSON in unordered mode is not an object of %d entries: %s", len(want), text)
		return
	}
	for i, e := range h.mod.es {
		v, ok := m[fmt.Sprint(e.key)]
		if !ok || !reflect.DeepEqual(v, want[i]) {
			c.Violate("JSON member %v is %v, expected %v", e.key, v, want[i])
			return
		}
		c.Count("JSON entries compared", 1)
	}
}

func jsonValue(text []byte) interface{} {
	d := json.NewDecoder(bytes.NewReader(text))
	d.UseNumber()
	var v interface{}
	if err := d.Decode(&v); err != nil {
		return fmt.Sprintf("no JSON: %v: %s", err, text)
	}
	return v
}

var _ = rand.Int

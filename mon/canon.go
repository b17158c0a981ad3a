package main

import (
	"bytes"
	"fmt"
	"io"
	"math"
	"strings"

	"gopkg.in/yaml.v3"
)

// This file reads RAML without the library: it turns YAML nodes into canonical
// values, following the RAML 1.0 specification and the documented limits of
// the library.

const maxLen = 2147483647

type facet struct {
	name  string
	class string // str bool int uint num strs any type props anylist
	def   string // canonical default, "" if the facet has none
}

// Kinds whose declarations are modelled in full.
var extKinds = []string{"any", "array", "boolean", "custom", "date-only", "datetime", "datetime-only",
	"file", "integer", "number", "object", "string", "time-only", "union"}

var allKinds = append(append([]string{}, extKinds...), "nil", "include")

// valueClass is the class of default, enum and example values of a kind.
var valueClass = map[string]string{
	"any": "any", "custom": "any", "file": "any", "object": "any", "union": "any",
	"array": "anylist", "boolean": "bool", "integer": "int", "number": "num",
	"string": "str", "date-only": "time", "datetime": "time", "datetime-only": "time", "time-only": "time",
}

// enumClass is the class of one enum value.
func enumClass(kind string) string {
	if kind == "array" {
		return "any"
	}
	return valueClass[kind]
}

var kindFacets = map[string][]facet{
	"string":   {{"pattern", "str", ""}, {"minLength", "uint", "0"}, {"maxLength", "uint", ""}},
	"number":   {{"minimum", "num", ""}, {"maximum", "num", ""}, {"format", "str", ""}, {"multipleOf", "num", ""}},
	"integer":  {{"minimum", "int", ""}, {"maximum", "int", ""}, {"format", "str", ""}, {"multipleOf", "num", ""}},
	"array":    {{"uniqueItems", "bool", "false"}, {"minItems", "uint", "0"}, {"maxItems", "uint", "2147483647"}, {"items", "type", ""}},
	"object":   {{"properties", "props", ""}, {"minProperties", "uint", ""}, {"maxProperties", "uint", ""}, {"additionalProperties", "bool", "true"}, {"discriminator", "str", ""}, {"discriminatorValue", "any", ""}},
	"file":     {{"fileTypes", "strs", ""}, {"minLength", "uint", "0"}, {"maxLength", "uint", "2147483647"}},
	"datetime": {{"format", "str", ""}},
}

func facetOf(kind, name string) (facet, bool) {
	for _, f := range kindFacets[kind] {
		if f.name == name {
			return f, true
		}
	}
	return facet{}, false
}

var builtin = map[string]bool{"any": true, "array": true, "boolean": true, "date-only": true, "datetime": true,
	"datetime-only": true, "file": true, "integer": true, "nil": true, "number": true, "object": true, "string": true, "time-only": true}

// kindOf classifies a type name.
func kindOf(name string) (kind, schema string) {
	switch {
	case builtin[name]:
		return name, name
	case strings.HasPrefix(name, "!include "):
		return "include", strings.TrimPrefix(name, "!include ")
	case strings.Contains(name, "|"):
		return "union", name
	}
	return "custom", name
}

// docNode parses text into its single document's root node.
func docNode(text []byte) (n *yaml.Node, err error) {
	// The YAML library panics on some texts, its own output among them.
	defer func() {
		if e := recover(); e != nil {
			n, err = nil, fmt.Errorf("the YAML library panics: %v", e)
		}
	}()
	dec := yaml.NewDecoder(bytes.NewReader(text))
	var doc yaml.Node
	if err := dec.Decode(&doc); err != nil {
		return nil, err
	}
	if len(doc.Content) == 0 {
		return &yaml.Node{Kind: yaml.MappingNode, Tag: "!!map"}, nil
	}
	return doc.Content[0], nil
}

// docCount returns how many YAML documents the text holds.
func docCount(text []byte) (n int, err error) {
	defer func() {
		if e := recover(); e != nil {
			err = fmt.Errorf("the YAML library panics: %v", e)
		}
	}()
	dec := yaml.NewDecoder(bytes.NewReader(text))
	for ; ; n++ {
		var doc yaml.Node
		if err := dec.Decode(&doc); err == io.EOF {
			return n, nil
		} else if err != nil {
			return n, err
		}
	}
}

func isStr(n *yaml.Node) bool { return n.Kind == yaml.ScalarNode && n.ShortTag() == "!!str" }

// free canonicalises free-form content.
func free(n *yaml.Node) *V {
	if n == nil {
		return nullV()
	}
	switch n.Kind {
	case yaml.DocumentNode:
		if len(n.Content) == 1 {
			return free(n.Content[0])
		}
		return nullV()
	case yaml.AliasNode:
		if n.Alias == nil {
			return badV("dangling alias")
		}
		return free(n.Alias)
	case yaml.SequenceNode:
		out := list()
		if t := n.ShortTag(); t != "!!seq" {
			out.T = t
		}
		for _, c := range n.Content {
			out.L = append(out.L, free(c))
		}
		return out
	case yaml.MappingNode:
		out := omap()
		if t := n.ShortTag(); t != "!!map" {
			out.T = t
		}
		for i := 0; i+1 < len(n.Content); i += 2 {
			k := free(n.Content[i])
			out.K = append(out.K, freeKey(k))
			out.KV = append(out.KV, k)
			out.M = append(out.M, free(n.Content[i+1]))
		}
		return out
	case yaml.ScalarNode:
		return scalar(n)
	}
	return badV("node of kind %d", n.Kind)
}

func freeKey(k *V) string {
	if k.Kind == 's' && k.T == "str" {
		return k.S
	}
	return "\x01" + k.String()
}

func scalar(n *yaml.Node) *V {
	switch t := n.ShortTag(); t {
	case "!!str":
		return str(n.Value)
	case "!!null":
		return nullV()
	case "!!bool":
		var b bool
		if err := n.Decode(&b); err != nil {
			return badV("%s: %v", n.Value, err)
		}
		return boolV(b)
	case "!!int":
		var i int64
		if err := n.Decode(&i); err == nil {
			return intV(i)
		}
		var u uint64
		if err := n.Decode(&u); err == nil {
			return uintV(u)
		}
		return &V{Kind: 's', T: "int", S: n.Value}
	case "!!float":
		var f float64
		if err := n.Decode(&f); err != nil {
			return badV("%s: %v", n.Value, err)
		}
		return floatV(f)
	case "!!timestamp":
		return &V{Kind: 's', T: "time", S: n.Value}
	default:
		return &V{Kind: 's', T: t, S: n.Value}
	}
}

// typed canonicalises the value of a facet of the given class.
func typed(class string, n *yaml.Node) *V {
	switch class {
	case "any":
		return free(n)
	case "anylist":
		if n.Kind != yaml.SequenceNode {
			return badV("not a list")
		}
		out := list()
		for _, c := range n.Content {
			out.L = append(out.L, free(c))
		}
		return out
	case "strs":
		if n.Kind != yaml.SequenceNode {
			return badV("not a list")
		}
		out := list()
		for _, c := range n.Content {
			out.L = append(out.L, typed("str", c))
		}
		return out
	case "time":
		if v := scalarOrBad(n); v.T == "time" || v.T == "str" {
			return str(v.S)
		} else {
			return badV("not a date: %s", v)
		}
	case "num":
		v := scalarOrBad(n)
		if v.T == "float" {
			return &V{Kind: 's', T: "num", S: v.S}
		}
		if v.T == "int" {
			var f float64
			if err := n.Decode(&f); err != nil {
				return badV("%v", err)
			}
			return numV(f)
		}
		return badV("not a number: %s", v)
	case "int", "uint":
		if v := scalarOrBad(n); v.T == "int" && (class == "int" || !strings.HasPrefix(v.S, "-")) {
			return v
		} else {
			return badV("not a %s: %s", class, v)
		}
	case "str", "bool":
		if v := scalarOrBad(n); v.T == class {
			return v
		} else {
			return badV("not a %s: %s", class, v)
		}
	}
	return badV("class %s", class)
}

func scalarOrBad(n *yaml.Node) *V {
	if n.Kind == yaml.AliasNode && n.Alias != nil {
		n = n.Alias
	}
	if n.Kind != yaml.ScalarNode {
		return badV("not a scalar")
	}
	return scalar(n)
}

// each calls f for each entry of a mapping.
func each(n *yaml.Node, f func(k, v *yaml.Node)) bool {
	if n.Kind == yaml.AliasNode && n.Alias != nil {
		n = n.Alias
	}
	if n.Kind != yaml.MappingNode {
		return false
	}
	for i := 0; i+1 < len(n.Content); i += 2 {
		k := n.Content[i]
		if k.Kind != yaml.ScalarNode {
			// A name no string can be taken for.
			k = &yaml.Node{Kind: yaml.ScalarNode, Tag: "!complex", Value: "\x01" + free(k).String()}
		}
		f(k, n.Content[i+1])
	}
	return true
}

// freeMap is a map with string keys and free-form values.
func freeMap(n *yaml.Node) *V {
	out := omap()
	if !each(n, func(k, v *yaml.Node) { out.set(k.Value, free(v)) }) {
		return badV("not a map")
	}
	return out
}

func strMap(n *yaml.Node) *V {
	out := omap()
	if !each(n, func(k, v *yaml.Node) { out.set(k.Value, typed("str", v)) }) {
		return badV("not a map")
	}
	return out
}

func typeMap(n *yaml.Node) *V {
	out := omap()
	if !each(n, func(k, v *yaml.Node) { out.set(k.Value, canonType(v)) }) {
		return badV("not a map")
	}
	return out
}

func isAnn(k *yaml.Node) bool { return isStr(k) && strings.HasPrefix(k.Value, "(") }

// typeNode finds the node that names the type of a declaration.
func typeNode(n *yaml.Node) *yaml.Node {
	for i := 0; i+1 < len(n.Content); i += 2 {
		if k := n.Content[i].Value; k == "type" || k == "schema" {
			return n.Content[i+1]
		}
	}
	return nil
}

// classify gives the kind and the type name of a declaration.
func classify(n *yaml.Node) (kind, schema string) {
	switch {
	case n.Kind == yaml.ScalarNode && n.Tag == "!include":
		return "include", n.Value
	case isStr(n):
		return kindOf(n.Value)
	case n.Kind == yaml.ScalarNode && n.ShortTag() == "!!null":
		return "string", "string"
	case n.Kind == yaml.MappingNode:
		if t := typeNode(n); t != nil {
			if t.Kind == yaml.ScalarNode && t.Tag == "!include" {
				return "include", t.Value
			}
			if isStr(t) {
				return kindOf(t.Value)
			}
			return "!BAD", ""
		}
		props, items := false, false
		each(n, func(k, v *yaml.Node) {
			props = props || k.Value == "properties"
			items = items || k.Value == "items"
		})
		switch {
		case props:
			return "object", "object"
		case items:
			return "array", "array"
		}
		return "string", "string"
	}
	return "!BAD", ""
}

// canonType canonicalises a type declaration.
func canonType(n *yaml.Node) *V {
	if n.Kind == yaml.AliasNode && n.Alias != nil {
		n = n.Alias
	}
	kind, schema := classify(n)
	if kind == "!BAD" {
		return badV("not a type declaration")
	}
	return canonTypeAs(n, kind, schema)
}

// canonTypeAs canonicalises a declaration that is known to be of a kind.
func canonTypeAs(n *yaml.Node, kind, schema string) *V {
	out := rec().set("kind", str(kind)).set("type", str(schema))
	if n.Kind != yaml.MappingNode {
		return out
	}
	extra, anns := omap(), omap()
	each(n, func(k, v *yaml.Node) {
		switch k.Value {
		case "type", "schema":
			return
		case "required":
			if b := typed("bool", v); b.S != "true" {
				out.set("required", b)
			}
			return
		}
		if kind == "nil" || kind == "include" {
			extra.set(k.Value, free(v))
			return
		}
		if f, ok := facetOf(kind, k.Value); ok {
			var x *V
			switch f.class {
			case "type":
				x = canonType(v)
			case "props":
				x = typeMap(v)
				if x.Kind == 'm' && x.len() == 0 {
					out.E = append(out.E, f.name)
					return
				}
			default:
				x = typed(f.class, v)
			}
			if f.def == "" || x.S != f.def {
				out.set(f.name, x)
			}
			return
		}
		switch k.Value {
		case "displayName", "description":
			out.set(k.Value, typed("str", v))
		case "default":
			out.set("default", typed(valueClass[kind], v))
		case "enum":
			e := list()
			if v.Kind != yaml.SequenceNode {
				out.set("enum", badV("not a list"))
				return
			}
			for _, c := range v.Content {
				e.L = append(e.L, typed(enumClass(kind), c))
			}
			out.put("enum", e)
		case "example":
			out.set("example", canonExample(valueClass[kind], v))
		case "examples":
			e := omap()
			if !each(v, func(k, v *yaml.Node) { e.set(k.Value, canonExample(valueClass[kind], v)) }) {
				out.set("examples", badV("not a map"))
				return
			}
			out.put("examples", e)
		case "facets":
			e := omap()
			if !each(v, func(k, v *yaml.Node) { e.set(k.Value, typeMap(v)) }) {
				out.set("facets", badV("not a map"))
				return
			}
			out.put("facets", e)
		case "xml":
			out.set("xml", canonXML(v))
		default:
			if isAnn(k) {
				anns.set(k.Value, freeMap(v))
			} else {
				extra.set(k.Value, free(v))
			}
		}
	})
	return out.put("annotations", anns).put("extra", extra)
}

// expanded tells whether an example is in its expanded form.
func expanded(class string, n *yaml.Node) bool {
	if n.Kind != yaml.MappingNode {
		return false
	}
	if class != "any" {
		return true
	}
	for i := 0; i+1 < len(n.Content); i += 2 {
		if isStr(n.Content[i]) && n.Content[i].Value == "value" {
			return true
		}
	}
	return false
}

func canonExample(class string, n *yaml.Node) *V {
	out := rec()
	if !expanded(class, n) {
		return out.set("value", typed(class, n))
	}
	extra, anns := omap(), omap()
	each(n, func(k, v *yaml.Node) {
		if !isStr(k) {
			extra.set(k.Value, free(v))
			return
		}
		switch k.Value {
		case "value":
			out.set("value", typed(class, v))
		case "displayName", "description":
			out.set(k.Value, typed("str", v))
		case "strict":
			if b := typed("bool", v); b.S != "true" {
				out.set("strict", b)
			}
		default:
			if isAnn(k) {
				anns.set(k.Value, freeMap(v))
			} else {
				extra.set(k.Value, free(v))
			}
		}
	})
	return out.put("annotations", anns).put("extra", extra)
}

func canonXML(n *yaml.Node) *V {
	out, extra := rec(), omap()
	if !each(n, func(k, v *yaml.Node) {
		switch k.Value {
		case "attribute", "wrapped":
			out.set(k.Value, typed("bool", v))
		case "name", "namespace", "prefix":
			out.set(k.Value, typed("str", v))
		default:
			extra.set(k.Value, free(v))
		}
	}) {
		return badV("not a map")
	}
	return out.put("extra", extra)
}

func canonDoc(n *yaml.Node) *V {
	out, extra := rec().set("title", str("")).set("content", str("")), omap()
	if !each(n, func(k, v *yaml.Node) {
		switch k.Value {
		case "title", "content":
			out.set(k.Value, typed("str", v))
		default:
			extra.set(k.Value, free(v))
		}
	}) {
		return badV("not a map")
	}
	return out.put("extra", extra)
}

var apiSections = []string{"securitySchemes", "baseUriParameters", "traits", "annotationTypes", "resourceTypes"}
var libSections = []string{"securitySchemes", "traits", "annotationTypes", "resourceTypes"}

func isIn(s string, l []string) bool {
	for _, x := range l {
		if s == x {
			return true
		}
	}
	return false
}

// canonAPI canonicalises an API document.
func canonAPI(n *yaml.Node) *V {
	out := rec().set("title", str(""))
	anns, extra, res := omap(), omap(), omap()
	if !each(n, func(k, v *yaml.Node) {
		switch {
		case !isStr(k):
			extra.set(k.Value, free(v))
		case strings.HasPrefix(k.Value, "("):
			anns.set(k.Value, freeMap(v))
		case strings.HasPrefix(k.Value, "/"):
			res.set(k.Value, free(v))
		case isIn(k.Value, apiSections):
			out.put(k.Value, freeMap(v))
		default:
			switch k.Value {
			case "title", "version", "baseUri", "description":
				out.set(k.Value, typed("str", v))
			case "protocols", "securedBy":
				out.set(k.Value, typed("strs", v))
			case "mediaType":
				if isStr(v) {
					out.set(k.Value, list(str(v.Value)))
				} else {
					out.set(k.Value, typed("strs", v))
				}
			case "documentation":
				d := list()
				for _, c := range v.Content {
					d.L = append(d.L, canonDoc(c))
				}
				out.put(k.Value, d)
			case "uses":
				out.put(k.Value, strMap(v))
			case "types", "schemas":
				out.put("types", typeMap(v))
			default:
				extra.set(k.Value, free(v))
			}
		}
	}) {
		return badV("not a map")
	}
	return out.put("annotations", anns).put("resources", res).put("extra", extra)
}

// canonLib canonicalises a library.
func canonLib(n *yaml.Node) *V {
	out := rec()
	anns, extra := omap(), omap()
	if !each(n, func(k, v *yaml.Node) {
		switch {
		case isAnn(k):
			anns.set(k.Value, freeMap(v))
		case isIn(k.Value, libSections):
			out.put(k.Value, freeMap(v))
		default:
			switch k.Value {
			case "usage":
				out.set(k.Value, typed("str", v))
			case "uses":
				out.put(k.Value, strMap(v))
			case "types", "schemas":
				out.put("types", typeMap(v))
			default:
				extra.set(k.Value, free(v))
			}
		}
	}) {
		return badV("not a map")
	}
	return out.put("annotations", anns).put("extra", extra)
}

// finite tells whether f can be written as a JSON number.
func finite(f float64) bool { return !math.IsNaN(f) && !math.IsInf(f, 0) }

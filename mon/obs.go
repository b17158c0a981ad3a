package main

import (
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
	"gopkg.in/yaml.v3"
)

// This file observes documents through their public accessors only and turns
// what the accessors report into canonical values.

func ifc(p interface{}) reflect.Type { return reflect.TypeOf(p).Elem() }

var kindIfc = map[string]reflect.Type{
	"any": ifc((*raml.AnyType)(nil)), "array": ifc((*raml.ArrayType)(nil)), "boolean": ifc((*raml.BoolType)(nil)),
	"custom": ifc((*raml.CustomType)(nil)), "date-only": ifc((*raml.DateOnlyType)(nil)), "datetime": ifc((*raml.DatetimeType)(nil)),
	"datetime-only": ifc((*raml.DatetimeOnlyType)(nil)), "file": ifc((*raml.FileType)(nil)), "integer": ifc((*raml.IntegerType)(nil)),
	"number": ifc((*raml.NumberType)(nil)), "object": ifc((*raml.ObjectType)(nil)), "string": ifc((*raml.StringType)(nil)),
	"time-only": ifc((*raml.TimeOnlyType)(nil)), "union": ifc((*raml.UnionType)(nil)),
	"nil": ifc((*raml.NilType)(nil)), "include": ifc((*raml.IncludeType)(nil)),
}

var exIfc = map[string]reflect.Type{
	"any": ifc((*raml.AnyExample)(nil)), "array": ifc((*raml.ArrayExample)(nil)), "boolean": ifc((*raml.BoolExample)(nil)),
	"custom": ifc((*raml.CustomExample)(nil)), "date-only": ifc((*raml.DateOnlyExample)(nil)), "datetime": ifc((*raml.DatetimeExample)(nil)),
	"datetime-only": ifc((*raml.DatetimeOnlyExample)(nil)), "file": ifc((*raml.FileExample)(nil)), "integer": ifc((*raml.IntegerExample)(nil)),
	"number": ifc((*raml.NumberExample)(nil)), "object": ifc((*raml.ObjectExample)(nil)), "string": ifc((*raml.StringExample)(nil)),
	"time-only": ifc((*raml.TimeOnlyExample)(nil)), "union": ifc((*raml.UnionExample)(nil)),
}

// call calls a method by name and returns its only result.
func call(x interface{}, name string, args ...interface{}) interface{} {
	m := reflect.ValueOf(x).MethodByName(name)
	if !m.IsValid() {
		panic(fmt.Sprintf("%T has no method %s", x, name))
	}
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		t := m.Type().In(i)
		if a == nil {
			in[i] = reflect.Zero(t)
		} else if v := reflect.ValueOf(a); v.Type().AssignableTo(t) {
			in[i] = v
		} else {
			in[i] = v.Convert(t)
		}
	}
	out := m.Call(in)
	if len(out) == 0 {
		return nil
	}
	return out[0].Interface()
}

func has(x interface{}, name string) bool {
	if x == nil {
		return false
	}
	return reflect.ValueOf(x).MethodByName(name).IsValid()
}

func isNilAny(x interface{}) bool {
	if x == nil {
		return true
	}
	v := reflect.ValueOf(x)
	switch v.Kind() {
	case reflect.Ptr, reflect.Map, reflect.Slice, reflect.Interface, reflect.Func:
		return v.IsNil()
	}
	return false
}

func cap1(s string) string {
	switch s {
	case "baseUri":
		return "BaseURI"
	case "baseUriParameters":
		return "BaseURIParameters"
	case "mediaType":
		return "MediaTypes"
	case "xml":
		return "XML"
	}
	return strings.ToUpper(s[:1]) + s[1:]
}

// opt unwraps an option, checking that its queries agree.
func opt(o interface{}) (val interface{}, ok bool) {
	p := call(o, "IsPresent").(bool)
	if p == call(o, "IsNil").(bool) {
		panic("option is both present and nil")
	}
	if !p {
		return nil, false
	}
	return call(o, "Get"), true
}

// freeAny canonicalises a free-form value: a YAML node or plain Go data.
func freeAny(x interface{}) *V {
	switch v := x.(type) {
	case nil:
		return nullV()
	case *yaml.Node:
		if v == nil {
			return nullV()
		}
		return free(v)
	case yaml.Node:
		return free(&v)
	case string:
		return str(v)
	case bool:
		return boolV(v)
	}
	r := reflect.ValueOf(x)
	switch r.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return intV(r.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return uintV(r.Uint())
	case reflect.Float64:
		return floatV(r.Float())
	case reflect.String:
		return str(r.String())
	case reflect.Bool:
		return boolV(r.Bool())
	case reflect.Slice, reflect.Array:
		out := list()
		for i := 0; i < r.Len(); i++ {
			out.L = append(out.L, freeAny(r.Index(i).Interface()))
		}
		return out
	case reflect.Map:
		out := omap()
		keys := r.MapKeys()
		sort.Slice(keys, func(a, b int) bool { return fmt.Sprint(keys[a]) < fmt.Sprint(keys[b]) })
		for _, k := range keys {
			key := freeAny(k.Interface())
			out.K = append(out.K, freeKey(key))
			out.KV = append(out.KV, key)
			out.M = append(out.M, freeAny(r.MapIndex(k).Interface()))
		}
		return out
	case reflect.Float32:
		f, _ := strconv.ParseFloat(strconv.FormatFloat(r.Float(), 'g', -1, 32), 64)
		return floatV(f)
	case reflect.Ptr:
		if r.IsNil() {
			return nullV()
		}
		if has(x, "Len") && has(x, "At") {
			return obsMap(x, freeAny)
		}
		if !r.IsNil() && !has(x, "Len") {
			return freeAny(r.Elem().Interface())
		}
	}
	return badV("%T %v", x, x)
}

// typedAny canonicalises the Go value of a facet of the given class.
func typedAny(class string, x interface{}) *V {
	r := reflect.ValueOf(x)
	switch class {
	case "str", "time":
		if s, ok := x.(fmt.Stringer); ok {
			return str(s.String())
		}
		if r.Kind() == reflect.String {
			return str(r.String())
		}
	case "bool":
		if r.Kind() == reflect.Bool {
			return boolV(r.Bool())
		}
	case "int":
		if r.Kind() == reflect.Int64 {
			return intV(r.Int())
		}
	case "uint":
		if r.Kind() == reflect.Uint {
			return uintV(r.Uint())
		}
	case "num":
		if r.Kind() == reflect.Float64 {
			return numV(r.Float())
		}
	case "any":
		return freeAny(x)
	case "anylist", "strs":
		if r.Kind() == reflect.Slice {
			out := list()
			for i := 0; i < r.Len(); i++ {
				out.L = append(out.L, freeAny(r.Index(i).Interface()))
			}
			return out
		}
	}
	return badV("%s: %T %v", class, x, x)
}

// obsMap canonicalises one of the ordered maps.  It visits the map in every
// way the interface offers and reports any disagreement.
func obsMap(m interface{}, f func(interface{}) *V) *V {
	out := omap()
	if isNilAny(m) {
		return badV("nil map")
	}
	n := call(m, "Len").(int)
	for i := 0; i < n; i++ {
		e := reflect.ValueOf(call(m, "At", i))
		k, v := e.FieldByName("Key").Interface(), e.FieldByName("Val").Interface()
		ks, ok := k.(string)
		kv := str(ks)
		if !ok {
			kv = freeAny(k)
			ks = freeKey(kv)
		}
		out.set(ks, f(v))
		out.KV = append(out.KV, kv)
		if k == k { // not NaN
			if call(m, "Has", k) != true || call(m, "IndexOf", k) != i {
				out.set("!BAD lookup of "+ks, intV(int64(i)))
				out.KV = append(out.KV, badV("lookup"))
			}
		}
	}
	return out
}

func obsTypes(m interface{}) *V {
	return obsMap(m, func(v interface{}) *V { return obsType(v) })
}
func obsAnns(m interface{}) *V {
	return obsMap(m, func(v interface{}) *V { return obsMap(v, freeAny) })
}
func obsFree(m interface{}) *V { return obsMap(m, freeAny) }

// obsType observes a type declaration.
func obsType(x interface{}) *V {
	if isNilAny(x) {
		return badV("nil type")
	}
	d, ok := x.(raml.DataType)
	if !ok {
		return badV("%T is not a data type", x)
	}
	kind := string(d.Kind())
	out := rec().set("kind", str(kind)).set("type", str(d.Type()))
	if d.Schema() != d.Type() {
		out.set("!BAD schema", str(d.Schema()))
	}
	it := kindIfc[kind]
	if it == nil || !reflect.TypeOf(x).Implements(it) {
		return out.set("!BAD interface", str(fmt.Sprintf("%T", x)))
	}
	if p, ok := x.(raml.Property); !ok {
		out.set("!BAD not a property", str(fmt.Sprintf("%T", x)))
	} else if !p.Required() {
		out.set("required", boolV(false))
	}
	out.put("extra", obsFree(d.ExtraFacets()))
	if kind == "nil" || kind == "include" {
		return out
	}
	obsOpt(out, x, "displayName", "str")
	obsOpt(out, x, "description", "str")
	out.put("annotations", obsAnns(call(x, "Annotations")))
	out.put("facets", obsMap(call(x, "FacetDefinitions"), obsTypes))
	if xml := call(x, "XML"); !isNilAny(xml) {
		out.set("xml", obsXML(xml))
	}
	if cl := valueClass[kind]; cl == "anylist" {
		if v := call(x, "Default"); !isNilAny(v) {
			out.set("default", typedAny(cl, v))
		}
	} else {
		obsOpt(out, x, "default", cl)
	}
	en := list()
	e := reflect.ValueOf(call(x, "Enum"))
	for i := 0; i < e.Len(); i++ {
		en.L = append(en.L, typedAny(enumClass(kind), e.Index(i).Interface()))
	}
	out.put("enum", en)
	if ex := call(x, "Example"); !isNilAny(ex) {
		out.set("example", obsExample(kind, ex))
	}
	out.put("examples", obsMap(call(x, "Examples"), func(v interface{}) *V { return obsExample(kind, v) }))
	for _, f := range kindFacets[kind] {
		g := call(x, cap1(f.name))
		switch {
		case f.class == "props":
			out.put(f.name, obsTypes(g))
		case f.class == "type":
			if !isNilAny(g) {
				out.set(f.name, obsType(g))
			}
		case f.class == "strs" || f.name == "format":
			if !isNilAny(g) {
				out.set(f.name, typedAny(f.class, g))
			}
		case f.def != "":
			if v := typedAny(f.class, g); v.S != f.def {
				out.set(f.name, v)
			}
		default:
			obsOpt(out, x, f.name, f.class)
		}
	}
	return out
}

func obsOpt(out *V, x interface{}, name, class string) {
	if v, ok := opt(call(x, cap1(name))); ok {
		out.set(name, typedAny(class, v))
	}
}

func obsExample(kind string, x interface{}) *V {
	if isNilAny(x) {
		return badV("nil example")
	}
	out := rec()
	if it := exIfc[kind]; it == nil || !reflect.TypeOf(x).Implements(it) {
		return out.set("!BAD interface", str(fmt.Sprintf("%T", x)))
	}
	ex, ok := x.(raml.Example)
	if !ok {
		return badV("%T is not an example", x)
	}
	obsOpt(out, x, "displayName", "str")
	obsOpt(out, x, "description", "str")
	if !ex.Strict() {
		out.set("strict", boolV(false))
	}
	if cl := valueClass[kind]; cl == "anylist" {
		if v := call(x, "Value"); !isNilAny(v) {
			out.set("value", typedAny(cl, v))
		}
	} else {
		obsOpt(out, x, "value", cl)
	}
	return out.put("annotations", obsAnns(ex.Annotations())).put("extra", obsFree(ex.ExtraFacets()))
}

// obsXML observes an xml facet.  Its unknown facets have no accessor.
func obsXML(x interface{}) *V {
	out := rec()
	for name, get := range map[string]string{"attribute": "IsAttribute", "wrapped": "IsWrapped", "name": "Name", "namespace": "Namespace", "prefix": "Prefix"} {
		if v, ok := opt(call(x, get)); ok {
			out.set(name, freeAny(v))
		}
	}
	return out
}

func obsDoc(d raml.Documentation) *V {
	if isNilAny(d) {
		return badV("nil documentation entry")
	}
	return rec().set("title", str(d.Title())).set("content", str(d.Content())).put("extra", obsFree(d.ExtraFacets()))
}

func obsStrs(out *V, name string, s []string) {
	if s != nil {
		out.set(name, strs(s))
	}
}

func obsAPI(a raml.APISpec) *V {
	out := rec().set("title", str(a.Title()))
	for _, k := range []string{"version", "baseUri", "description"} {
		obsOpt(out, a, k, "str")
	}
	obsStrs(out, "protocols", a.Protocols())
	obsStrs(out, "mediaType", a.MediaTypes())
	obsStrs(out, "securedBy", a.SecuredBy())
	d := list()
	for _, x := range a.Documentation() {
		d.L = append(d.L, obsDoc(x))
	}
	out.put("documentation", d)
	out.put("uses", obsFree(a.Uses()))
	out.put("baseUriParameters", obsFree(a.BaseURIParameters()))
	out.put("securitySchemes", obsFree(a.SecuritySchemes()))
	out.put("traits", obsFree(a.Traits()))
	out.put("annotationTypes", obsFree(a.AnnotationTypes()))
	out.put("resourceTypes", obsFree(a.ResourceTypes()))
	out.put("types", obsTypes(a.Types()))
	if s := obsTypes(a.Schemas()); s.String() != obsTypes(a.Types()).String() {
		out.set("!BAD schemas", s)
	}
	out.put("annotations", obsAnns(a.Annotations()))
	out.put("resources", obsFree(a.Resources()))
	return out.put("extra", obsFree(a.ExtraFacets()))
}

func obsLib(l raml.Library) *V {
	out := rec()
	obsOpt(out, l, "usage", "str")
	out.put("uses", obsFree(l.Uses()))
	out.put("securitySchemes", obsFree(l.SecuritySchemes()))
	out.put("traits", obsFree(l.Traits()))
	out.put("annotationTypes", obsFree(l.AnnotationTypes()))
	out.put("resourceTypes", obsFree(l.ResourceTypes()))
	out.put("types", obsTypes(l.Types()))
	if s := obsTypes(l.Schemas()); s.String() != obsTypes(l.Types()).String() {
		out.set("!BAD schemas", s)
	}
	out.put("annotations", obsAnns(l.Annotations()))
	return out.put("extra", obsFree(l.ExtraFacets()))
}

// obsText observes a document through the canonical form of what it writes.
func noXMLExtra(v *V) *V {
	out := v.clone()
	var walk func(v *V)
	walk = func(v *V) {
		if v == nil {
			return
		}
		if v.Kind == 'r' && v.get("kind") != nil && v.get("xml") != nil {
			v.get("xml").del("extra")
		}
		for _, x := range v.M {
			walk(x)
		}
		for _, x := range v.L {
			walk(x)
		}
	}
	walk(out)
	return out
}

func typeOf(x interface{}) reflect.Type { return reflect.TypeOf(x) }

func field(x interface{}, name string) interface{} {
	return reflect.ValueOf(x).FieldByName(name).Interface()
}

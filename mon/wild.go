package main

import (
	"math"
	"reflect"
	"strconv"
	"time"

	"gopkg.in/yaml.v3"
)

// Go values come in many types that mean the same in YAML.

type (
	namedString string
	namedBool   bool
	namedInt    int
	namedInt8   int8
	namedInt64  int64
	namedUint16 uint16
	namedUint64 uint64
	namedFloat  float64
	namedF32    float32
	namedList   []interface{}
	namedMap    map[string]interface{}
)

var wildTypes = map[string][]reflect.Type{
	"str":  {typeOf(""), typeOf(namedString(""))},
	"bool": {typeOf(false), typeOf(namedBool(false))},
	"int": {typeOf(int(0)), typeOf(int8(0)), typeOf(int16(0)), typeOf(int32(0)), typeOf(int64(0)), typeOf(uint(0)), typeOf(uint8(0)), typeOf(uint16(0)), typeOf(uint32(0)), typeOf(uint64(0)),
		typeOf(namedInt(0)), typeOf(namedInt8(0)), typeOf(namedInt64(0)), typeOf(namedUint16(0)), typeOf(namedUint64(0)), typeOf(time.Duration(0))},
	"float": {typeOf(float64(0)), typeOf(float32(0)), typeOf(namedFloat(0)), typeOf(namedF32(0))},
}

// as gives a scalar as a value of the Go type, if it holds it.
func as(v *V, t reflect.Type) (reflect.Value, bool) {
	x := reflect.New(t).Elem()
	switch t.Kind() {
	case reflect.String:
		if v.T != "str" {
			return x, false
		}
		x.SetString(v.S)
	case reflect.Bool:
		if v.T != "bool" {
			return x, false
		}
		x.SetBool(v.S == "true")
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		i, err := strconv.ParseInt(v.S, 10, 64)
		if v.T != "int" || err != nil || x.OverflowInt(i) {
			return x, false
		}
		x.SetInt(i)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		u, err := strconv.ParseUint(v.S, 10, 64)
		if v.T != "int" || err != nil || x.OverflowUint(u) {
			return x, false
		}
		x.SetUint(u)
	case reflect.Float32, reflect.Float64:
		if v.T != "float" {
			return x, false
		}
		f := parseF(v.S)
		if t.Kind() == reflect.Float32 && !math.IsNaN(f) {
			g, err := strconv.ParseFloat(strconv.FormatFloat(f, 'g', -1, 32), 64)
			if err != nil || g != f || float64(float32(f)) != f {
				return x, false
			}
		}
		x.SetFloat(f)
	default:
		return x, false
	}
	return x, true
}

func (b *builder) wildType(l []*V) (reflect.Type, bool) {
	if len(l) == 0 || l[0].Kind != 's' {
		return nil, false
	}
	ts := wildTypes[l[0].T]
	if len(ts) == 0 {
		return nil, false
	}
	t := ts[b.r.Intn(len(ts))]
	for _, x := range l {
		if x.Kind != 's' {
			return nil, false
		}
		if _, ok := as(x, t); !ok {
			return nil, false
		}
	}
	return t, true
}

// wildOf gives a value as Go data of an unusual type.
func (b *builder) wildOf(v *V) (interface{}, bool) {
	if v.Kind != 's' && v.T != "" {
		return nil, false
	}
	switch v.Kind {
	case 's':
		if v.T == "null" {
			switch b.r.Intn(3) {
			case 0:
				return (*int)(nil), true
			case 1:
				return (*yaml.Node)(nil), true
			}
			return (*namedString)(nil), true
		}
		t, ok := b.wildType([]*V{v})
		if !ok {
			return nil, false
		}
		x, _ := as(v, t)
		for i := 0; i < 2 && b.p(1, 3); i++ {
			p := reflect.New(x.Type())
			p.Elem().Set(x)
			x = p
			b.use("value:pointer")
		}
		b.use("value:" + t.String())
		return x.Interface(), true
	case 'l':
		if t, ok := b.wildType(v.L); ok {
			var out reflect.Value
			if b.p(1, 3) {
				out = reflect.New(reflect.ArrayOf(len(v.L), t)).Elem()
			} else {
				out = reflect.MakeSlice(reflect.SliceOf(t), len(v.L), len(v.L))
			}
			for i := range v.L {
				x, _ := as(v.L[i], t)
				out.Index(i).Set(x)
			}
			b.use("value:list of " + t.String())
			if b.p(1, 4) {
				p := reflect.New(out.Type())
				p.Elem().Set(out)
				return p.Interface(), true
			}
			return out.Interface(), true
		}
		out := namedList{}
		for _, x := range v.L {
			out = append(out, b.plainOf(x))
		}
		b.use("value:named list")
		return out, true
	case 'm':
		if v.len() == 0 {
			b.use("value:empty Go map")
			return namedMap{}, true
		}
		if v.len() > 1 && !b.goMaps {
			return nil, false
		}
		keys := v.KV
		if keys == nil {
			for _, k := range v.K {
				keys = append(keys, str(k))
			}
		}
		for _, k := range keys {
			if k.T == "float" && k.S == "nan" {
				return nil, false // it cannot be looked up
			}
		}
		kt, ok := b.wildType(keys)
		if !ok {
			kt = reflect.TypeOf((*interface{})(nil)).Elem()
		}
		et, same := b.wildType(v.M)
		if !same || b.p(1, 2) {
			same = false
			et = reflect.TypeOf((*interface{})(nil)).Elem()
		}
		out := reflect.MakeMap(reflect.MapOf(kt, et))
		for i := range v.M {
			var k, x reflect.Value
			if ok {
				k, _ = as(keys[i], kt)
			} else {
				k = reflect.New(kt).Elem()
				if keys[i].Kind != 's' {
					return nil, false
				}
				if keys[i].T != "null" {
					t, ok := b.wildType([]*V{keys[i]})
					if !ok {
						return nil, false
					}
					y, _ := as(keys[i], t)
					k.Set(y)
				}
			}
			if same {
				x, _ = as(v.M[i], et)
			} else {
				x = reflect.New(et).Elem()
				if y := b.plainOf(v.M[i]); y != nil {
					x.Set(reflect.ValueOf(y))
				}
			}
			out.SetMapIndex(k, x)
		}
		b.use("value:map of " + kt.String())
		return out.Interface(), true
	}
	return nil, false
}

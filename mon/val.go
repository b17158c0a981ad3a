package main

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
)

// V is a canonical value: the meaning of a piece of RAML, freed from its
// spelling.  It is the only form in which the monitors compare things.
//
//	's' scalar: T is the type (str, int, num, float, bool, null, time or a tag)
//	'l' list
//	'm' ordered map: the order of the entries is part of the value
//	'r' record: named facets, the order of which carries no meaning
type V struct {
	Kind byte
	T    string // scalar type, or the local tag of a list or a map
	S    string // canonical text of a scalar
	L    []*V   // list items
	K    []string
	KV   []*V // keys of free-form maps, nil if the keys are plain strings
	M    []*V
	E    []string // facets of a record that are present but empty, which means nothing

	at map[string]int // positions of the keys of a large map
}

func str(s string) *V   { return &V{Kind: 's', T: "str", S: s} }
func boolV(b bool) *V   { return &V{Kind: 's', T: "bool", S: strconv.FormatBool(b)} }
func intV(i int64) *V   { return &V{Kind: 's', T: "int", S: strconv.FormatInt(i, 10)} }
func uintV(i uint64) *V { return &V{Kind: 's', T: "int", S: strconv.FormatUint(i, 10)} }
func nullV() *V         { return &V{Kind: 's', T: "null"} }
func numV(f float64) *V { return &V{Kind: 's', T: "num", S: fnum(f)} }
func floatV(f float64) *V {
	return &V{Kind: 's', T: "float", S: fnum(f)}
}
func badV(format string, a ...interface{}) *V {
	return &V{Kind: 's', T: "!BAD", S: fmt.Sprintf(format, a...)}
}

func fnum(f float64) string {
	switch {
	case math.IsNaN(f):
		return "nan"
	case math.IsInf(f, 1):
		return "+inf"
	case math.IsInf(f, -1):
		return "-inf"
	case f == 0:
		return "0"
	}
	return strconv.FormatFloat(f, 'g', -1, 64)
}

func list(vs ...*V) *V { return &V{Kind: 'l', L: vs} }
func omap() *V         { return &V{Kind: 'm'} }
func rec() *V          { return &V{Kind: 'r'} }

func strs(s []string) *V {
	out := list()
	for _, x := range s {
		out.L = append(out.L, str(x))
	}
	return out
}

// set stores a facet of a record, or the entry of an ordered map.
func (v *V) set(k string, x *V) *V {
	if i := v.find(k); i >= 0 {
		if v.Kind == 'm' {
			// A key declared twice is outside the domain, show it.
			v.K = append(v.K, k+" (again)")
			v.M = append(v.M, x)
			return v
		}
		v.M[i] = x
		return v
	}
	v.K = append(v.K, k)
	v.M = append(v.M, x)
	return v
}

// find gives the position of a key, or -1.
func (v *V) find(k string) int {
	if len(v.K) < 100 {
		for i := range v.K {
			if v.K[i] == k {
				return i
			}
		}
		return -1
	}
	if v.at == nil {
		v.at = map[string]int{}
	}
	for i := len(v.at); i < len(v.K); i++ {
		if _, ok := v.at[v.K[i]]; ok {
			// Counted although it is there twice.
			v.at["\x01again"+strconv.Itoa(i)] = -1
			continue
		}
		v.at[v.K[i]] = i
	}
	if i, ok := v.at[k]; ok {
		return i
	}
	return -1
}

// put sets the facet unless it is an empty container.
func (v *V) put(k string, x *V) *V {
	if x == nil || ((x.Kind == 'm' || x.Kind == 'l') && x.len() == 0) {
		if x != nil {
			v.E = append(v.E, k)
		}
		return v
	}
	return v.set(k, x)
}

func (v *V) del(k string) {
	for i := range v.K {
		if v.K[i] == k {
			v.K = append(v.K[:i:i], v.K[i+1:]...)
			v.M = append(v.M[:i:i], v.M[i+1:]...)
			return
		}
	}
}

func (v *V) get(k string) *V {
	if v == nil {
		return nil
	}
	for i := range v.K {
		if v.K[i] == k {
			return v.M[i]
		}
	}
	return nil
}

func (v *V) len() int {
	if v == nil {
		return 0
	}
	return len(v.L) + len(v.M)
}

// size counts the scalars, lists and maps of a value.
func (v *V) size() int {
	if v == nil {
		return 0
	}
	n := 1
	for _, x := range v.L {
		n += x.size()
	}
	for _, x := range v.M {
		n += x.size()
	}
	return n
}

func (v *V) clone() *V {
	if v == nil {
		return nil
	}
	out := *v
	out.L, out.M, out.KV = nil, nil, nil
	out.K = append([]string(nil), v.K...)
	out.E = append([]string(nil), v.E...)
	for _, x := range v.L {
		out.L = append(out.L, x.clone())
	}
	for _, x := range v.M {
		out.M = append(out.M, x.clone())
	}
	for _, x := range v.KV {
		out.KV = append(out.KV, x.clone())
	}
	return &out
}

// String renders the value unambiguously.
func (v *V) String() string {
	var b strings.Builder
	v.render(&b)
	return b.String()
}

func (v *V) render(b *strings.Builder) {
	if v == nil {
		b.WriteString("ABSENT")
		return
	}
	switch v.Kind {
	case 's':
		b.WriteString(v.T)
		b.WriteString(":")
		b.WriteString(strconv.Quote(v.S))
	case 'l':
		b.WriteString(v.T)
		b.WriteString("[")
		for i, x := range v.L {
			if i > 0 {
				b.WriteString(",")
			}
			x.render(b)
		}
		b.WriteString("]")
	case 'm':
		b.WriteString(v.T)
		b.WriteString("{")
		for i, x := range v.M {
			if i > 0 {
				b.WriteString(",")
			}
			b.WriteString(strconv.Quote(v.K[i]))
			b.WriteString("=>")
			x.render(b)
		}
		b.WriteString("}")
	case 'r':
		idx := make([]int, len(v.K))
		for i := range idx {
			idx[i] = i
		}
		sort.Slice(idx, func(a, c int) bool { return v.K[idx[a]] < v.K[idx[c]] })
		b.WriteString("<")
		for n, i := range idx {
			if n > 0 {
				b.WriteString(";")
			}
			b.WriteString(v.K[i])
			b.WriteString("=")
			v.M[i].render(b)
		}
		b.WriteString(">")
	default:
		b.WriteString("??")
	}
}

func same(a, b *V) bool { return a.String() == b.String() }

func short(v *V) string {
	s := v.String()
	if len(s) > 300 {
		s = s[:300] + fmt.Sprintf("... (%d bytes)", len(s))
	}
	return s
}

// diff describes the first difference between what was expected and what was
// observed, or returns "" if there is none.
func diff(path string, want, got *V) string {
	if want == nil || got == nil || want.Kind != got.Kind || want.T != got.T || want.S != got.S {
		if want.String() == got.String() {
			return ""
		}
		return fmt.Sprintf("at %s: expected %s, observed %s", path, short(want), short(got))
	}
	switch want.Kind {
	case 'l':
		for i := 0; i < len(want.L) && i < len(got.L); i++ {
			if d := diff(fmt.Sprintf("%s[%d]", path, i), want.L[i], got.L[i]); d != "" {
				return d
			}
		}
		if len(want.L) != len(got.L) {
			return fmt.Sprintf("at %s: expected %d items, observed %d: %s vs %s", path, len(want.L), len(got.L), short(want), short(got))
		}
	case 'm':
		if strings.Join(quoteAll(want.K), ",") != strings.Join(quoteAll(got.K), ",") {
			return fmt.Sprintf("at %s: expected entries %q, observed %q", path, want.K, got.K)
		}
		for i := range want.M {
			if d := diff(path+"/"+want.K[i], want.M[i], got.M[i]); d != "" {
				return d
			}
		}
	case 'r':
		for i, k := range want.K {
			g := got.get(k)
			if g == nil {
				return fmt.Sprintf("at %s: %s is missing, expected %s", path, k, short(want.M[i]))
			}
			if d := diff(path+"."+k, want.M[i], g); d != "" {
				return d
			}
		}
		for i, k := range got.K {
			if want.get(k) == nil {
				return fmt.Sprintf("at %s: unexpected %s = %s", path, k, short(got.M[i]))
			}
		}
	}
	if want.String() != got.String() {
		return fmt.Sprintf("at %s: expected %s, observed %s", path, short(want), short(got))
	}
	return ""
}

func quoteAll(s []string) []string {
	out := make([]string, len(s))
	for i := range s {
		out[i] = strconv.Quote(s[i])
	}
	return out
}

// added describes the first empty section of got that want lacks, or returns
// "" if there is none.  Both have the same meaning.
func added(path string, want, got *V) string {
	if want == nil || got == nil {
		return ""
	}
	switch want.Kind {
	case 'l':
		for i := range want.L {
			if d := added(fmt.Sprintf("%s[%d]", path, i), want.L[i], got.L[i]); d != "" {
				return d
			}
		}
	case 'm':
		for i := range want.M {
			if d := added(path+"/"+want.K[i], want.M[i], got.M[i]); d != "" {
				return d
			}
		}
	case 'r':
		for _, k := range got.E {
			if want.get(k) == nil && !isIn(k, want.E) {
				return fmt.Sprintf("at %s: an empty %s is added", path, k)
			}
		}
		for i, k := range want.K {
			if d := added(path+"."+k, want.M[i], got.get(k)); d != "" {
				return d
			}
		}
	}
	return ""
}

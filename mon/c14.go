package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io/ioutil"
	"math/rand"
	"reflect"
	"strings"

	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rbuild"
	"gopkg.in/yaml.v3"
)

// C14: reading does not change anything.  C21: objects are independent.

// reader visits everything that can be read without changing it.
type reader struct {
	seen  map[uintptr]bool
	calls int
	objs  []interface{} // in order of discovery
	max   int
}

// isObject tells whether x belongs to the library.
func isObject(x interface{}) bool {
	if isNilAny(x) {
		return false
	}
	t := reflect.TypeOf(x)
	return t.Kind() == reflect.Ptr && strings.Contains(t.Elem().PkgPath(), "lib-go-raml")
}

func readOnly(m reflect.Method) bool {
	return m.Type.NumIn() == 1 && m.Type.NumOut() > 0 && !strings.HasPrefix(m.Name, "Unset")
}

// reach lists the library's objects that can be reached from x.
func reach(x interface{}) []interface{} {
	r := &reader{seen: map[uintptr]bool{}}
	r.walk(x, 0)
	return r.objs
}

func (r *reader) walk(x interface{}, depth int) {
	if isNilAny(x) || depth > 400 {
		return
	}
	switch x.(type) {
	case *yaml.Node, yaml.Node, string, []byte:
		return
	}
	v := reflect.ValueOf(x)
	switch v.Kind() {
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			r.walk(v.Index(i).Interface(), depth+1)
		}
		return
	case reflect.Ptr:
		if has(x, "IsPresent") {
			if o, ok := opt(x); ok {
				r.walk(o, depth+1)
			}
			return
		}
	}
	if !isObject(x) {
		return
	}
	if r.seen[v.Pointer()] {
		return
	}
	r.seen[v.Pointer()] = true
	r.objs = append(r.objs, x)
	if isContainer(x) {
		for i, n := 0, call(x, "Len").(int); i < n; i++ {
			r.walk(field(call(x, "At", i), "Val"), depth+1)
		}
		return
	}
	t := v.Type()
	for i := 0; i < t.NumMethod(); i++ {
		m := t.Method(i)
		if readOnly(m) && m.Type.NumOut() == 1 {
			r.walk(v.Method(i).Call(nil)[0].Interface(), depth+1)
		}
	}
}

// readAll calls everything that only reads an object and reports how often.
func readAll(x interface{}) (calls int, names []string) { return readMost(x, true) }

// readMost leaves out JSON on request: it repeats what aliases refer to.
func readMost(x interface{}, inJSON bool) (calls int, names []string) {
	v := reflect.ValueOf(x)
	t := v.Type()
	for i := 0; i < t.NumMethod(); i++ {
		m := t.Method(i)
		switch {
		case !inJSON && strings.Contains(m.Name, "JSON"):
			continue
		case readOnly(m):
			v.Method(i).Call(nil)
		case m.Name == "WriteRAML":
			x.(ramlWriter).WriteRAML(ioutil.Discard)
			x.(ramlWriter).WriteRAML(&faultWriter{limit: 3})
		case m.Name == "MarshalRAML":
			x.(raml.Marshaler).MarshalRAML(raml.NewAnyMap(1))
		default:
			continue
		}
		calls++
		names = append(names, m.Name)
	}
	if isContainer(x) {
		for i, n := 0, call(x, "Len").(int); i < n; i++ {
			k := field(call(x, "At", i), "Key")
			call(x, "Has", k)
			call(x, "IndexOf", k)
			call(x, "Get", k)
			if has(x, "GetOpt") {
				call(x, "GetOpt", k)
			}
			calls += 4
		}
		f := v.MethodByName("ForEach")
		f.Call([]reflect.Value{reflect.MakeFunc(f.Type().In(0), func([]reflect.Value) []reflect.Value { return nil })})
		zero := reflect.Zero(v.MethodByName("Has").Type().In(0)).Interface()
		if zero == nil {
			zero = "missing"
		}
		call(x, "Has", zero)
		call(x, "Get", zero)
		call(x, "IndexOf", zero)
		call(x, "ReplaceIfExists", "\x03missing", nil)
		call(x, "Delete", "\x03missing")
		names = append(names, "queries")
	}
	if inJSON {
		json.Marshal(x)
	}
	if _, ok := x.(yaml.Marshaler); ok {
		// The YAML library panics on values it cannot write itself.
		func() {
			defer func() { recover() }()
			yaml.Marshal(x)
		}()
	}
	return calls + 2, names
}

var errFault = errors.New("injected fault")

// faultWriter accepts limit bytes and then fails, once or for good.
type faultWriter struct {
	limit int
	once  bool
	whole bool // reject the failing write as a whole
	full  bool // accept all of the failing write
	err   error
	got   bytes.Buffer
	hit   int
	later int // bytes that arrived after the fault
}

func (w *faultWriter) Write(p []byte) (int, error) {
	if w.hit > 0 && w.once {
		w.later += len(p)
		return len(p), nil
	}
	if room := w.limit - w.got.Len(); len(p) > room || w.hit > 0 {
		if w.hit > 0 || w.whole {
			room = 0
		}
		if w.hit == 0 && w.full {
			room = len(p)
		}
		w.hit++
		w.got.Write(p[:room])
		if w.err != nil {
			return room, w.err
		}
		return room, errFault
	}
	return w.got.Write(p)
}

// snapshot renders all that can be observed about an object.
func snapshot(x interface{}) string {
	var b strings.Builder
	var w func(x interface{})
	w = func(x interface{}) {
		switch d := x.(type) {
		case raml.APISpec, raml.Library:
			b.WriteString(obsDocument(d).String())
			text, err := writeDoc(d)
			fmt.Fprintf(&b, "\n%s %v", text, err)
		case raml.DataType:
			b.WriteString(obsType(d).String())
			text, err := d.ToRAML()
			fmt.Fprintf(&b, "\n%s %v", text, err)
		case raml.XML:
			b.WriteString(obsXML(d).String())
		case raml.Documentation:
			b.WriteString(obsDoc(d).String())
		case raml.Example:
			for _, k := range extKinds {
				if isExampleOf(d, k) {
					b.WriteString(obsExample(k, d).String())
				}
			}
		default:
			if isContainer(x) {
				for i, n := 0, call(x, "Len").(int); i < n; i++ {
					e := call(x, "At", i)
					fmt.Fprintf(&b, "%#v=", field(e, "Key"))
					v := field(e, "Val")
					if isObject(v) {
						w(v)
					} else {
						b.WriteString(freeAny(v).String())
					}
				}
				n, err := reflect.ValueOf(x).MethodByName("ToYAML").Call(nil), error(nil)
				if !n[1].IsNil() {
					err = n[1].Interface().(error)
				} else {
					node := n[0].Interface().(*yaml.Node)
					fmt.Fprintf(&b, " as %s %s", node.ShortTag(), free(node))
				}
				fmt.Fprint(&b, err)
			}
		}
	}
	w(x)
	return b.String()
}

// someDoc gives a function that makes the same document again and again.
func (c *Case) someDoc(lib bool, small bool) func() interface{} {
	d := c.gen(lib, func(g *Gen) *yaml.Node {
		if small {
			g.left = 60
		}
		if c.R.Intn(40) == 0 {
			return g.bigAny(lib)
		}
		return g.anyDoc(c, lib)
	})
	if c.R.Intn(2) == 0 {
		c.See("parsed document")
		return func() interface{} {
			x, ok := c.accepted(d)
			if !ok {
				return nil
			}
			return x
		}
	}
	c.See("assembled document")
	seed := c.R.Int63()
	return func() interface{} {
		b := newBuilder(rand.New(rand.NewSource(seed)))
		x := b.document(lib, d.want)
		if b.p(2, 3) {
			// Leave some maps in ordered mode: their mode is state as well.
			for _, o := range reach(x) {
				if isContainer(o) && b.p(1, 4) {
					call(o, "SerializeOrdered", true)
				}
			}
		}
		return x
	}
}

// accessors renders what the accessors of a document report, and writes
// nothing.
func accessors(x interface{}) string {
	var b strings.Builder
	b.WriteString(obsDocument(x).String())
	for _, o := range reach(x) {
		switch d := o.(type) {
		case raml.DataType:
			b.WriteString("\n" + obsType(d).String())
		case raml.XML:
			b.WriteString("\n" + obsXML(d).String())
		case raml.Documentation:
			b.WriteString("\n" + obsDoc(d).String())
		}
	}
	return b.String() + "\n"
}

// modes renders the serialization mode of every map that can be reached.  It
// comes before any writing.
func modes(x interface{}) string {
	var b strings.Builder
	for _, o := range reach(x) {
		if isContainer(o) {
			out := reflect.ValueOf(o).MethodByName("ToYAML").Call(nil)
			tag := "error"
			if out[1].IsNil() {
				tag = out[0].Interface().(*yaml.Node).ShortTag()
			}
			fmt.Fprintf(&b, "%T of %d in mode %s\n", o, call(o, "Len"), tag)
		}
	}
	return b.String()
}

func init() {
	register(&Check{
		id: "C14", quick: 1500, thorough: 60000, assume: []string{yamlTrust},
		rule: "random parsed and assembled documents; every accessor, query, serializer and writer, failing writers included, is called on every reachable object in random order, and everything observable about the document (accessors, texts, serialization modes) is compared with its state before; distinct by document",
		fn: func(c *Case) {
			if c.Idx%12 == 7 {
				readMap(c)
				return
			}
			mk := c.someDoc(c.R.Intn(2) == 0, true)
			x, twin := mk(), mk()
			if isNilAny(x) || isNilAny(twin) {
				return
			}
			// The twin is not read before it shows what is expected.
			full, _ := writeDoc(mk())
			// Its accessors are read first: writing might change what they report.
			seen := accessors(twin)
			before := seen + modes(twin) + snapshot(twin)
			objs := reach(x)
			c.R.Shuffle(len(objs), func(i, j int) { objs[i], objs[j] = objs[j], objs[i] })
			check := func(what string) bool {
				after := accessors(x)
				if after == seen || !c.Check(false, "%s changes what the accessors report: %s", what, textDiff(seen, after)) {
					after += modes(x) + snapshot(x)
				}
				return c.Check(before == after, "%s changes the document: %s", what, textDiff(before, after))
			}
			if c.R.Intn(2) == 0 {
				// Writing is the first thing that happens to the document.
				x.(ramlWriter).WriteRAML(ioutil.Discard)
				if !check("writing") {
					return
				}
			}
			every := 1 + len(objs)/12
			var todo []string
			for i, o := range objs {
				n, names := readAll(o)
				c.Count("read-only calls", n)
				c.See(fmt.Sprintf("%T", o))
				todo = append(todo, fmt.Sprintf("reading a %T (%s)", o, strings.Join(names, ", ")))
				if i%every == 0 || i == len(objs)-1 {
					if !check(strings.Join(todo, "; ")) {
						return
					}
					todo = nil
				}
			}
			for i := 0; i < 6; i++ {
				w := &faultWriter{limit: c.R.Intn(len(full) + 1), once: i%2 == 0, whole: i%3 == 0}
				x.(ramlWriter).WriteRAML(w)
				c.Count("writes, most of them failing", 1)
				if !check(fmt.Sprintf("a write that fails after %d bytes", w.limit)) {
					return
				}
			}
			c.Count("objects read", len(objs))
		},
	})
	register(&Check{
		id: "C21", quick: 3000, thorough: 120000, assume: []string{yamlTrust},
		rule: "pairs of documents or single objects of every public type, parsed from one buffer or built alike; one is changed through every setter and container reachable from it, and everything observable about the other one, and about objects created afterwards, must stay as it was; no object is reached in two places of one document or of two; distinct by document or object history",
		fn: func(c *Case) {
			if c.Idx%3 == 0 {
				twoDocs(c)
			} else {
				twoObjects(c)
			}
		},
	})
}

// readMap reads a large map in every way.
func readMap(c *Case) {
	b := newBuilder(c.R)
	ctor := mapCtors[c.Idx/12%len(mapCtors)]
	m := reflect.ValueOf(ctor).Call([]reflect.Value{reflect.ValueOf(b.r.Intn(100))})[0].Interface()
	if b.p(1, 2) {
		call(m, "SerializeOrdered", false)
	}
	var vals []interface{}
	for i := 0; i < 6; i++ {
		vals = append(vals, b.elem(m))
	}
	g := newGen(b.r)
	letters := b.p(1, 2)
	used := map[string]bool{}
	for _, i := range g.many() {
		k := lettersOf(i)
		if !letters {
			k = g.name(used)
		}
		call(m, "Put", k, vals[b.r.Intn(len(vals))])
	}
	n := call(m, "Len").(int)
	look := func() string {
		var s strings.Builder
		for i := 0; i < n; i++ {
			e := call(m, "At", i)
			fmt.Fprintf(&s, "%v=%p\n", field(e, "Key"), field(e, "Val"))
		}
		node, err := m.(interface{ ToYAML() (*yaml.Node, error) }).ToYAML()
		if err == nil {
			text, _ := encode(node, 2)
			s.Write(text)
		}
		return fmt.Sprint(s.String(), err)
	}
	before := look()
	for i := 0; i < 3; i++ {
		calls, names := readAll(m)
		after := look()
		if !c.Check(before == after, "%s of %d entries: %s change it: %s", ctorName(ctor), n, strings.Join(names, ", "), textDiff(before, after)) {
			return
		}
		c.Count("read-only calls", calls)
	}
	c.See(fmt.Sprintf("%s of %d entries", ctorName(ctor), n/50*50))
	c.Distinct(fmt.Sprint("map ", c.Idx))
}

func textDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	cut := func(s string) string {
		from, to := i-80, i+160
		if from < 0 {
			from = 0
		}
		if to > len(s) {
			to = len(s)
		}
		return s[from:to]
	}
	return fmt.Sprintf("at byte %d:\n before ...%q\n after  ...%q", i, cut(a), cut(b))
}

// ifcOf gives the interface whose setters change an object.
func ifcOf(x interface{}) (reflect.Type, string) {
	switch d := x.(type) {
	case raml.APISpec:
		return ifc((*raml.APISpec)(nil)), ""
	case raml.Library:
		return ifc((*raml.Library)(nil)), ""
	case raml.DataType:
		return kindIfc[string(d.Kind())], string(d.Kind())
	case raml.XML:
		return ifc((*raml.XML)(nil)), ""
	case raml.Documentation:
		return ifc((*raml.Documentation)(nil)), ""
	case raml.Example:
		for _, k := range extKinds {
			if isExampleOf(d, k) {
				return exIfc[k], k
			}
		}
	}
	return nil, ""
}

// upset changes an object in every way its interface offers.
func (b *builder) upset(c *Case, x interface{}) {
	if isContainer(x) {
		n := call(x, "Len").(int)
		for i := b.r.Intn(4); i > 0; i-- {
			switch {
			case n > 0 && b.p(1, 3):
				call(x, "Delete", field(call(x, "At", b.r.Intn(n)), "Key"))
				n--
			case n > 0 && b.p(1, 2):
				call(x, "ReplaceIfExists", field(call(x, "At", b.r.Intn(n)), "Key"), b.elem(x))
			default:
				call(x, "Put", b.key(), b.elem(x))
				n = call(x, "Len").(int)
			}
			c.Count("changes", 1)
		}
		if b.p(1, 3) {
			call(x, "SerializeOrdered", b.p(1, 2))
		}
		return
	}
	t, kind := ifcOf(x)
	if t == nil {
		return
	}
	for _, g := range getters(t) {
		v := call(x, g)
		switch r := reflect.ValueOf(v); {
		case isNilAny(v):
		case r.Kind() == reflect.Slice && r.Len() > 0 && b.p(1, 2):
			// The caller owns or shares the slice, another object does not.
			r.Index(b.r.Intn(r.Len())).Set(reflect.Zero(r.Type().Elem()))
			c.Count("changes", 1)
		}
	}
	for _, op := range ops(t) {
		if b.p(1, 2) {
			continue
		}
		if op.in == nil {
			call(x, op.name)
		} else if op.facet == "Type" {
			call(x, op.name, b.typeNameFor(kind))
		} else if m := b.mapArg(op.in, op.facet, kind); m != nil {
			call(x, op.name, m)
		} else {
			call(x, op.name, b.arg(op.in, kind))
		}
		c.See(typeName(t) + "." + op.name)
		c.Count("changes", 1)
	}
}

func typeName(t reflect.Type) string { return t.Name() }

func (b *builder) upsetAll(c *Case, x interface{}, max int) {
	objs := reach(x)
	b.r.Shuffle(len(objs), func(i, j int) { objs[i], objs[j] = objs[j], objs[i] })
	for i, o := range objs {
		if i >= max {
			break
		}
		b.upset(c, o)
	}
	b.upset(c, x)
}

func twoDocs(c *Case) {
	lib := c.R.Intn(2) == 0
	d := c.gen(lib, func(g *Gen) *yaml.Node {
		g.left = 80
		if g.p(1, 3) {
			return g.repeats()
		}
		return g.anyDoc(c, lib)
	})
	b := newBuilder(sub(c.R))
	seed := c.R.Int63()
	buf := append([]byte{}, d.text...)
	make := func() interface{} {
		x, err := parseText(lib, buf)
		if err != nil {
			c.Violate("a legal document is refused: %v", err)
		}
		return x
	}
	if c.R.Intn(3) == 0 {
		make = func() interface{} {
			return newBuilder(rand.New(rand.NewSource(seed))).document(lib, d.want)
		}
		c.See("assembled document")
	}
	a, o := make(), make()
	if c.fail {
		return
	}
	if !apart(c, a, o) {
		return
	}
	before := snapshot(o)
	b.upsetAll(c, a, 25)
	for i := range buf {
		buf[i] = 'x' // the documents do not keep the caller's buffer
	}
	after := snapshot(o)
	if !c.Check(before == after, "changing one document changes another: %s", textDiff(before, after)) {
		return
	}
	copy(buf, d.text)
	if n := make(); n != nil {
		after = snapshot(n)
		c.Check(before == after, "changing one document changes later ones: %s", textDiff(before, after))
	}
	c.Count("pairs of documents", 1)
}

// apart reports a violation if one object stands in two places of the
// documents, where changing it in one place would change the other.
func apart(c *Case, docs ...interface{}) bool {
	place := map[uintptr]string{}
	n := 0
	var walk func(x interface{}, path string, depth int) bool
	walk = func(x interface{}, path string, depth int) bool {
		if isNilAny(x) || depth > 400 {
			return true
		}
		switch x.(type) {
		case *yaml.Node, yaml.Node, string, []byte:
			return true
		}
		v := reflect.ValueOf(x)
		switch v.Kind() {
		case reflect.Slice:
			for i := 0; i < v.Len(); i++ {
				if !walk(v.Index(i).Interface(), fmt.Sprintf("%s[%d]", path, i), depth+1) {
					return false
				}
			}
			return true
		case reflect.Ptr:
			if has(x, "IsPresent") {
				o, ok := opt(x)
				return !ok || walk(o, path, depth+1)
			}
		}
		if !isObject(x) || v.Elem().Type().Size() == 0 {
			return true
		}
		if at, ok := place[v.Pointer()]; ok {
			return c.Check(false, "one %T stands in two places: %s and %s", x, at, path)
		}
		place[v.Pointer()] = path
		n++
		if isContainer(x) {
			for i, n := 0, call(x, "Len").(int); i < n; i++ {
				e := call(x, "At", i)
				if !walk(field(e, "Val"), fmt.Sprintf("%s.%v", path, field(e, "Key")), depth+1) {
					return false
				}
			}
			return true
		}
		t := v.Type()
		for i := 0; i < t.NumMethod(); i++ {
			m := t.Method(i)
			// Schemas and types are two names of one section.
			if readOnly(m) && m.Type.NumOut() == 1 && m.Name != "Schemas" {
				if !walk(v.Method(i).Call(nil)[0].Interface(), path+"."+m.Name, depth+1) {
					return false
				}
			}
		}
		return true
	}
	for i, d := range docs {
		if !walk(d, fmt.Sprintf("document %d ", i), 0) {
			return false
		}
	}
	c.Count("objects in one place only", n)
	return true
}

func twoObjects(c *Case) {
	b := newBuilder(sub(c.R))
	n := len(subjects)
	i := (c.Idx / 3 * 2) + c.Idx%3 - 1
	c.Distinct(fmt.Sprint("objects ", c.Idx))
	if i%(n+len(mapCtors)) >= n {
		ctor := mapCtors[i%(n+len(mapCtors))-n]
		mk := func() interface{} {
			return reflect.ValueOf(ctor).Call([]reflect.Value{reflect.ValueOf(3)})[0].Interface()
		}
		x, y := mk(), mk()
		k, v := b.key(), b.elem(x)
		call(x, "Put", k, v)
		call(y, "Put", k, b.clone(c, v))
		before := snapshot(y)
		b.upsetAll(c, x, 10)
		after := snapshot(y)
		c.See(ctorName(ctor))
		c.Check(before == after, "changing one %s changes another: %s", ctorName(ctor), textDiff(before, after))
		if l := call(mk(), "Len").(int); l != 0 {
			c.Violate("a new %s has %d entries", ctorName(ctor), l)
		}
		return
	}
	s := subjects[i%(n+len(mapCtors))]
	c.See("subject " + s.name)
	x, y := s.make(b), s.make(b)
	if isNilAny(x) || isNilAny(y) || x == y {
		c.Violate("%s: two objects are one", s.name)
		return
	}
	empty := snapshot(s.make(b))
	before := snapshot(y)
	b.upsetAll(c, x, 10)
	after := snapshot(y)
	if !c.Check(before == after, "changing one %s changes another: %s", s.name, textDiff(before, after)) {
		return
	}
	// Containers of different facets and of the two objects are different.
	owner := map[uintptr]string{}
	for j, o := range []interface{}{x, y, s.make(b)} {
		for _, g := range getters(s.ifc) {
			m := call(o, g)
			if isNilAny(m) || !isContainer(m) || g == "Schemas" {
				continue
			}
			p := reflect.ValueOf(m).Pointer()
			name := fmt.Sprintf("%s() of object %d", g, j)
			if prev, used := owner[p]; used {
				c.Violate("%s: %s is the container of %s", s.name, name, prev)
			}
			owner[p] = name
		}
	}
	// A container that was replaced has no influence any more.
	for _, op := range ops(s.ifc) {
		if op.in != nil || op.facet == "Schemas" || op.facet == "Type" {
			continue
		}
		g := targets(s.ifc, op.facet)[0]
		m := call(x, g)
		if isNilAny(m) || !isContainer(m) {
			continue
		}
		b.putFor(x, g, subjectKind(s.name))
		call(x, op.name)
		call(m, "Put", b.keyFor(g, subjectKind(s.name)), b.elem(m))
		if l := call(call(x, g), "Len").(int); !c.Check(l == 0, "%s: %s() has %d entries after %s and a change of the old container", s.name, g, l, op.name) {
			return
		}
		// The same with another container in between.
		if t := op.inOr(s.ifc); t != nil {
			n := b.mapArg(t, g, subjectKind(s.name))
			call(x, "Set"+op.facet, n)
			l := call(n, "Len").(int)
			call(m, "Put", b.keyFor(g, subjectKind(s.name)), b.elem(m))
			c.Check(call(call(x, g), "Len").(int) == l, "%s: changing the container before the last one changes %s()", s.name, g)
		}
	}
	if !oneList(c, b, s) {
		return
	}
	after = snapshot(s.make(b))
	c.Check(empty == after, "changing one %s changes new ones: %s", s.name, textDiff(empty, after))
	c.Count("pairs of objects", 1)
}

// oneList sets one list on two objects and then others on one of them.
func oneList(c *Case, b *builder, s subject) bool {
	for _, op := range ops(s.ifc) {
		if op.in == nil || op.in.Kind() != reflect.Slice {
			continue
		}
		list := func(n int) reflect.Value {
			for i := 0; ; i++ {
				l := reflect.ValueOf(b.arg(op.in, subjectKind(s.name)))
				if l.Len() == n {
					return l
				}
				if i > 60 {
					return reflect.Zero(op.in)
				}
			}
		}
		x, y := s.make(b), s.make(b)
		l := list(2 + b.r.Intn(2))
		call(x, op.name, l.Interface())
		call(y, op.name, l.Interface())
		before := snapshot(y)
		for i := 0; i < 3; i++ {
			call(x, op.name, list(b.r.Intn(4)).Interface())
			after := snapshot(y)
			if !c.Check(before == after, "%s: one list is set on two objects; %s on one of them changes the other: %s", s.name, op.name, textDiff(before, after)) {
				return false
			}
			c.Count("lists set on two objects", 1)
		}
	}
	return true
}

// inOr gives the argument type of the setter that belongs to an unsetter.
func (o opDesc) inOr(t reflect.Type) reflect.Type {
	if m, ok := t.MethodByName("Set" + o.facet); ok && m.Type.NumIn() == 1 {
		return m.Type.In(0)
	}
	return nil
}

// clone makes an equal but independent value for a map.
func (b *builder) clone(c *Case, v interface{}) interface{} {
	switch x := v.(type) {
	case raml.DataType:
		return b.declOf(obsType(x))
	case raml.Example:
		_, k := ifcOf(x)
		return b.example(k, obsExample(k, x))
	case string:
		return x
	}
	if isContainer(v) {
		m := newMapLike(v)
		call(m, "SerializeOrdered", false)
		for i, n := 0, call(v, "Len").(int); i < n; i++ {
			e := call(v, "At", i)
			call(m, "Put", field(e, "Key"), b.clone(c, field(e, "Val")))
		}
		return m
	}
	return b.plainOf(freeAny(v))
}

var _ = rbuild.NewLibrary

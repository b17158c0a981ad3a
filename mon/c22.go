package main

import (
	"bytes"
	"fmt"
	"hash/fnv"
	"io/ioutil"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
)

// C22: regenerating the library from its templates reproduces it.

func envOr(k, def string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return def
}

// regenerated is the monitor built against the regenerated library.
var regenerated string

// run executes a command and returns what it printed if it fails.
func runIn(dir, name string, args ...string) (string, bool) {
	cmd := exec.Command(name, args...)
	cmd.Dir = dir
	out, err := cmd.CombinedOutput()
	if err != nil {
		s := string(out)
		if len(s) > 4000 {
			s = s[:4000]
		}
		return fmt.Sprintf("%s %s: %v\n%s", name, strings.Join(args, " "), err, s), false
	}
	return "", true
}

// regenerate copies the library, runs its generators on the copy and builds
// the monitor against the result.
func regenerate(rep *Report) func() {
	repo, home := envOr("VERIF_REPO", "/repo"), envOr("VERIF_HOME", "/verif")
	dir, err := ioutil.TempDir("", "regen")
	if err != nil {
		mustf("%v", err)
	}
	clean := func() { os.RemoveAll(dir) }
	lib, mon := filepath.Join(dir, "lib"), filepath.Join(dir, "mon")
	if msg, ok := runIn("/", "cp", "-a", repo, lib); !ok {
		mustf("%s", msg)
	}
	if msg, ok := runIn("/", "cp", "-a", filepath.Join(home, "mon"), mon); !ok {
		mustf("%s", msg)
	}
	raw, err := ioutil.ReadFile(filepath.Join(mon, "go.mod"))
	if err != nil {
		mustf("%v", err)
	}
	raw = bytes.Replace(raw, []byte("=> /repo"), []byte("=> "+lib), 1)
	if err := ioutil.WriteFile(filepath.Join(mon, "go.mod"), raw, 0o644); err != nil {
		mustf("%v", err)
	}
	// The generated files must come from the templates.
	gen := 0
	for _, glob := range []string{"v0/pkg/raml/x-gen-*.go", "v0/internal/raml/x-gen-*.go"} {
		files, _ := filepath.Glob(filepath.Join(lib, glob))
		for _, f := range files {
			os.Remove(f)
			gen++
		}
	}
	rep.count("generated files removed before regeneration", gen)
	tools, _ := filepath.Glob(filepath.Join(lib, "v0/tools/gen/*/main.go"))
	sort.Strings(tools)
	if len(tools) == 0 {
		rep.violation(-1, "there is no generator", nil)
		return clean
	}
	for _, t := range tools {
		rel, _ := filepath.Rel(lib, t)
		if msg, ok := runIn(lib, "go", "run", rel); !ok {
			rep.violation(-1, "a generator fails: "+msg, nil)
			return clean
		}
		rep.count("generators run", 1)
	}
	files, _ := filepath.Glob(filepath.Join(lib, "v0/internal/raml/x-gen-*.go"))
	rep.count("generated implementation files", len(files))
	if msg, ok := runIn(lib, "go", "build", "./v0/pkg/...", "./v0/internal/..."); !ok {
		rep.violation(-1, "the regenerated library does not compile: "+msg, nil)
		return clean
	}
	bin := filepath.Join(dir, "run")
	if msg, ok := runIn(mon, "go", "build", "-o", bin, "."); !ok {
		rep.violation(-1, "the monitor does not compile against the regenerated library: "+msg, nil)
		return clean
	}
	regenerated = bin
	return clean
}

// otherWorkloads are the checks whose cases are traced.
var otherWorkloads = []string{"C08", "C21", "C05", "C06", "C08", "C21", "C09", "C17", "C19", "C08", "C25", "C25", "C14", "C26", "C27"}

// writeDigests writes a line for every method of the public interfaces, for n
// documents and for cases of other checks.
func writeDigests(w *bytes.Buffer, seed int64, n int) {
	for i := 0; i < n; i++ {
		fmt.Fprintf(w, "doc %d: %s\n", i, digestOf(seed, i))
	}
	for i := 0; i < 2*n; i++ {
		id := otherWorkloads[i%len(otherWorkloads)]
		fmt.Fprintf(w, "workload %s %d: %s\n", id, i, workloadDigest(checks[id], seed, i))
	}
	if n > 0 {
		for _, l := range surface() {
			fmt.Fprintln(w, l)
		}
	}
}

// surface lists the methods of the public interfaces.
func surface() []string {
	all := []reflect.Type{ifc((*raml.APISpec)(nil)), ifc((*raml.Library)(nil)), ifc((*raml.Documentation)(nil)), ifc((*raml.XML)(nil)),
		ifc((*raml.DataType)(nil)), ifc((*raml.Example)(nil)), ifc((*raml.Method)(nil)), ifc((*raml.Response)(nil)), ifc((*raml.Overlay)(nil))}
	for _, t := range kindIfc {
		all = append(all, t)
	}
	for _, t := range exIfc {
		all = append(all, t)
	}
	var out []string
	for _, t := range all {
		for i := 0; i < t.NumMethod(); i++ {
			out = append(out, "method "+t.Name()+"."+t.Method(i).Name+" "+t.Method(i).Type.String())
		}
	}
	sort.Strings(out)
	return out
}

// workloadDigest runs a case of another check and digests what its monitor
// observes.
func workloadDigest(ck *Check, seed int64, i int) string {
	rep := newReport()
	runCase(ck, rep, seed, "quick", ck.quick, i)
	h := fnv.New64a()
	for _, m := range []map[string]int{rep.Counts, rep.Constructs} {
		var ks []string
		for k := range m {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Fprintf(h, "%s=%d\n", k, m[k])
		}
	}
	return fmt.Sprintf("verdicts %d refuted %d trace %x", rep.Counts["oracle verdicts"], rep.NViol, h.Sum64())
}

func init() {
	register(&Check{
		id: "C22", quick: 64, thorough: 1600, assume: []string{yamlTrust, "the map types come from an external generator (gomp) that is not part of the repository"},
		rule:    "the generators are run on a copy of the repository with its generated files removed; the result must compile, and the monitor built against it must see the same public methods, accept and refuse the same documents, report the same values, write the same bytes and give the same verdicts on setter, default, rejection and isolation workloads; distinct by digest line",
		prepare: regenerate, hang: 600,
		fn: func(c *Case) {
			if regenerated == "" {
				c.Distinct("x") // the failure is reported already
				c.Distinct("y")
				return
			}
			seed := c.R.Int63n(1 << 40)
			n := 140
			var mine bytes.Buffer
			writeDigests(&mine, seed, n)
			out, err := exec.Command(regenerated, "digest", "-seed", strconv.FormatInt(seed, 10), "-n", strconv.Itoa(n)).Output()
			if err != nil {
				c.Violate("the regenerated library crashes: %v", err)
				return
			}
			a, b := strings.Split(mine.String(), "\n"), strings.Split(string(out), "\n")
			c.Check(len(a) == len(b), "the regenerated library has %d observations instead of %d", len(b), len(a))
			for i := 0; i < len(a) && i < len(b); i++ {
				c.Count("observations compared", 1)
				c.Distinct(a[i])
				if !c.Check(a[i] == b[i], "the regenerated library behaves differently (seed %d):\n committed   %s\n regenerated %s", seed, a[i], b[i]) {
					if strings.HasPrefix(a[i], "doc ") {
						c.Input(digestInput(seed, i))
					}
					c.fail = true
					return
				}
			}
			if c.Idx < 3 {
				c.Input([]byte(strings.Join(a[:20], "\n")))
			}
		},
	})
}

// digestInput gives the text a document digest is about.
func digestInput(seed int64, i int) []byte {
	c := &Case{R: rand.New(rand.NewSource(caseSeed("digest", seed, i))), Idx: i, rep: newReport()}
	lib := i%2 == 0
	return digestDoc(c, lib, i).text
}

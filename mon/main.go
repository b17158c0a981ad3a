package main

import (
	"flag"
	"fmt"
	"io/ioutil"
	"os"
	"sort"

	"github.com/sirupsen/logrus"
)

func main() {
	logrus.SetOutput(ioutil.Discard)
	if len(os.Args) < 2 {
		usage()
	}
	switch os.Args[1] {
	case "list":
		var ids []string
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Println(id)
		}
	case "run", "worker":
		if len(os.Args) < 3 || checks[os.Args[2]] == nil {
			usage()
		}
		ck := checks[os.Args[2]]
		fs := flag.NewFlagSet("mon", flag.ExitOnError)
		tier := fs.String("tier", "quick", "")
		seed := fs.Int64("seed", 1, "")
		only := fs.Int("only", -1, "")
		shard := fs.Int("shard", 0, "")
		journal := fs.String("journal", "", "")
		result := fs.String("result", "", "")
		fs.BoolVar(&stopFirst, "first", false, "stop at the first violation")
		fs.IntVar(&part, "part", 1, "run one of so many cases only")
		evid := fs.String("evidence", "evidence", "")
		fs.Parse(os.Args[3:])
		if os.Args[1] == "worker" {
			worker(ck, *tier, *seed, *only, *shard, *journal, *result)
			return
		}
		if *only >= 0 {
			os.Exit(single(ck, *tier, *seed, *only))
		}
		os.Exit(parent(ck, *tier, *seed, *evid))
	case "digest":
		digest()
	default:
		usage()
	}
}

// single replays one case in this process and prints what it finds.
func single(ck *Check, tier string, seed int64, idx int) int {
	rep := newReport()
	n := ck.quick
	if tier == "thorough" {
		n = ck.thorough
	}
	if ck.prepare != nil {
		defer ck.prepare(rep)()
	}
	runCase(ck, rep, seed, tier, n, idx)
	for _, v := range rep.Violations {
		fmt.Printf("case %d: %s\n--- input\n%s\n", v.Idx, v.Msg, v.Input)
	}
	if rep.NViol > 0 {
		return 1
	}
	fmt.Println("no violation in case", idx)
	return 0
}

func usage() {
	fmt.Fprintln(os.Stderr, "usage: mon list | run PROPERTY [-tier quick|thorough] [-seed N] [-evidence DIR] [-only CASE]")
	os.Exit(2)
}

package main

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"time"
)

type check struct {
	level string
	net   bool
	race  bool
	f     func(*Ctx)
}

var checks = map[string]check{}

func main() {
	id := flag.String("prop", "", "property")
	bin := flag.String("bin", "", "the built detector")
	race := flag.String("racebin", "", "the detector built with -race")
	lib := flag.String("libbin", "", "the concurrent user of the public packages, built with -race")
	repo := flag.String("repo", "/repo", "")
	verif := flag.String("verif", "/verif", "")
	need := flag.Bool("needs-race", false, "exit 0 if the check needs a -race build")
	list := flag.Bool("list", false, "")
	flag.Parse()
	if *list {
		var l []string
		for k := range checks {
			l = append(l, k)
		}
		sort.Strings(l)
		for _, k := range l {
			fmt.Println(k)
		}
		return
	}
	ck, ok := checks[*id]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown property", *id)
		os.Exit(2)
	}
	if *need {
		if ck.race {
			os.Exit(0)
		}
		os.Exit(1)
	}
	seed, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		seed = 1
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	work, err := os.MkdirTemp("", "osvd-verif-")
	must(err)
	work, err = filepath.EvalSymlinks(work)
	must(err)
	c := &Ctx{
		ID: *id, Tier: tier, Seed: seed, Bin: *bin, RaceBin: *race, LibBin: *lib, Repo: *repo, Verif: *verif, Work: work,
		Level: ck.level, start: time.Now(), distinct: map[uint64]struct{}{}, counters: map[string]int64{}, sets: map[string]map[string]struct{}{},
	}
	if ck.net {
		c.startNet()
	}
	code := 2
	func() {
		defer os.RemoveAll(work)
		ck.f(c)
		code = c.Finish()
	}()
	os.Exit(code)
}

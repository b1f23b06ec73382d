// Command verifrace uses the public packages from many goroutines at once, and compares what
// they give with what a sequential use of them gives. It is built with -race and laid into the
// module of the detector by an overlay, so that it can be compiled against it.
package main

import (
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"sync"
	"sync/atomic"

	"github.com/g-rath/osv-detector/pkg/database"
	"github.com/g-rath/osv-detector/pkg/lockfile"
)

type job struct {
	name string
	f    func() string
}

func js(v any, err error) string {
	b, e2 := json.Marshal(v)
	return fmt.Sprint(string(b), "|", err, "|", e2)
}

func main() {
	dir := os.Args[1]
	seed, _ := strconv.ParseUint(os.Args[2], 10, 64)
	workers, _ := strconv.Atoi(os.Args[3])
	apiURL, zipURL := os.Args[4], os.Args[5]
	rnd := rand.New(rand.NewPCG(seed, 7))

	var locks []string
	_ = filepath.Walk(filepath.Join(dir, "locks"), func(p string, i os.FileInfo, err error) error {
		if err == nil && !i.IsDir() {
			locks = append(locks, p)
		}
		return nil
	})
	sort.Strings(locks)
	parse := func(p string) (lockfile.Lockfile, error) {
		if filepath.Ext(p) == ".csv" {
			return lockfile.FromCSVFile(p, "csv-file")
		}
		return lockfile.Parse(p, "")
	}
	confs := []database.Config{
		{Name: "dir", Type: "dir", URL: "file:/db"},
		{Name: "zip", Type: "zip", URL: zipURL},
		{Name: "api", Type: "api", URL: apiURL},
	}
	load := func(c database.Config) (database.DB, error) { return database.Load(c, false, 3, nil) }

	// what is set up on first use has to be set up by many at once, too
	type first struct{ name, got string }
	var firsts []first
	var mu sync.Mutex
	cold := func(j job) {
		got := j.f()
		mu.Lock()
		firsts = append(firsts, first{j.name, got})
		mu.Unlock()
	}
	if seed%2 == 0 {
		var coldJobs []job
		for range 2 {
			for _, p := range locks {
				coldJobs = append(coldJobs, job{"parse " + p, func() string { l, err := parse(p); return js(l, err) }})
			}
			for _, c := range confs[:2] {
				coldJobs = append(coldJobs, job{"first " + c.Name, func() string {
					l, _ := parse(locks[0])
					db, err := load(c)
					if err != nil {
						return js(nil, err)
					}
					return js(db.Check(l.Packages))
				}})
			}
		}
		rnd.Shuffle(len(coldJobs), func(i, j int) { coldJobs[i], coldJobs[j] = coldJobs[j], coldJobs[i] })
		var wg sync.WaitGroup
		start := make(chan struct{})
		for w := range max(workers, 8) {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for i := w; i < len(coldJobs); i += max(workers, 8) {
					cold(coldJobs[i])
				}
			}()
		}
		close(start)
		wg.Wait()
	}

	var all []lockfile.Lockfile
	for _, p := range locks {
		if l, err := parse(p); err == nil {
			all = append(all, l)
		}
	}
	mk := func(dbs []database.DB) []job {
		var jobs []job
		for _, p := range locks {
			jobs = append(jobs, job{"parse " + p, func() string { l, err := parse(p); return js(l, err) }})
		}
		for _, c := range confs {
			jobs = append(jobs, job{"load " + c.Name, func() string {
				db, err := load(c)
				if err != nil {
					return js(nil, err)
				}
				if len(all) == 0 {
					return ""
				}
				return js(db.Check(all[0].Packages))
			}})
		}
		for _, db := range dbs {
			for i, l := range all {
				jobs = append(jobs, job{fmt.Sprintf("check %d with %s", i, db.Name()), func() string { return js(db.Check(l.Packages)) }})
				jobs = append(jobs, job{fmt.Sprintf("ecosystems %d", i), func() string { return js(l.Packages.Ecosystems(), nil) }})
			}
			switch t := db.(type) {
			case *database.DirDB:
				jobs = append(jobs, more(t.Vulnerabilities, all)...)
			case *database.ZipDB:
				jobs = append(jobs, more(t.Vulnerabilities, all)...)
			case *database.APIDB:
				jobs = append(jobs, job{"fetch", func() string { return js(t.FetchAll([]string{"A-1", "A-2", "A-3", "NOPE"}), nil) }})
			}
		}
		jobs = append(jobs,
			job{"parsers", func() string { return js(lockfile.ListParsers(), nil) }},
			job{"known", func() string { return js(lockfile.KnownEcosystems(), nil) }},
			job{"rows", func() string {
				l, err := lockfile.FromCSVRows("-", "csv-row", []string{"npm,,alpha,1.0.0", "PyPI,,a.b_c,1.0"})
				return js(l, err)
			}},
		)
		return jobs
	}
	loadAll := func() []database.DB {
		var dbs []database.DB
		for _, c := range confs {
			db, err := load(c)
			if err != nil {
				fmt.Println("cannot load", c.Name, err)
				os.Exit(4)
			}
			dbs = append(dbs, db)
		}
		return dbs
	}
	want := map[string]string{}
	for _, j := range mk(loadAll()) {
		want[j.name] = j.f()
	}
	for _, c := range confs[:2] {
		l, _ := parse(locks[0])
		db, err := load(c)
		if err != nil {
			want["first "+c.Name] = js(nil, err)
			continue
		}
		want["first "+c.Name] = js(db.Check(l.Packages))
	}
	for _, f := range firsts {
		if f.got != want[f.name] {
			fmt.Printf("MISMATCH on first use: %s\nsequential: %.1500s\nconcurrent: %.1500s\n", f.name, want[f.name], f.got)
			os.Exit(5)
		}
	}
	jobs := mk(loadAll()) // these databases have not been used by anything yet
	var order []int
	for range 4 {
		order = append(order, rnd.Perm(len(jobs))...)
	}
	var next, done, bad atomic.Int64
	var wg sync.WaitGroup
	start := make(chan struct{})
	for w := range workers {
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := rand.New(rand.NewPCG(seed, uint64(w)))
			<-start
			for {
				i := int(next.Add(1)) - 1
				if i >= len(order) {
					return
				}
				if r.IntN(3) == 0 {
					runtime.Gosched()
				}
				j := jobs[order[i]]
				got := j.f()
				done.Add(1)
				if got != want[j.name] && bad.Add(1) <= 3 {
					fmt.Printf("MISMATCH %s\nsequential: %.1500s\nconcurrent: %.1500s\n", j.name, want[j.name], got)
				}
			}
		}()
	}
	close(start)
	wg.Wait()
	fmt.Printf("done %d jobs, %d mismatches\n", done.Load(), bad.Load())
	if bad.Load() > 0 {
		os.Exit(5)
	}
}

func more(vulns func(bool) []database.OSV, all []lockfile.Lockfile) []job {
	list := vulns(true)
	sort.Slice(list, func(i, j int) bool { return list[i].ID < list[j].ID })
	jobs := []job{{"all", func() string {
		l := vulns(false)
		var s []string
		for i := range l {
			s = append(s, l[i].ID)
		}
		sort.Strings(s)
		return js(s, nil)
	}}}
	for i := range list {
		o := &list[i]
		jobs = append(jobs, job{"affected " + o.ID + o.Summary, func() string {
			var s []bool
			for _, l := range all {
				for _, p := range l.Packages {
					s = append(s, o.IsAffected(p))
				}
			}
			return js(s, nil) + o.Describe() + o.Link()
		}})
	}
	return jobs
}

package main

import (
	"bytes"
	"fmt"
	"io/fs"
	"net/http"
	"net/url"
	"os"
	"path"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

func init() { checks["C19"] = check{level: "exploration", net: true, f: checkC19} }

type treeEntry struct {
	rel, data, link string
	dir             bool
}

// tree remembers a directory so that it can be built again, in any order.
func readTree(dir string) []treeEntry {
	var l []treeEntry
	_ = filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		must(err)
		rel, _ := filepath.Rel(dir, p)
		if rel == "." {
			return nil
		}
		switch {
		case d.IsDir():
			l = append(l, treeEntry{rel: rel, dir: true})
		case d.Type()&fs.ModeSymlink != 0:
			t, _ := os.Readlink(p)
			l = append(l, treeEntry{rel: rel, link: t})
		default:
			b, _ := os.ReadFile(p)
			l = append(l, treeEntry{rel: rel, data: string(b)})
		}
		return nil
	})
	return l
}

func buildTree(r *R, dir string, t []treeEntry) {
	must(os.RemoveAll(dir))
	must(os.MkdirAll(dir, 0o755))
	l := append([]treeEntry{}, t...)
	shuffle(r, l)
	for _, e := range l {
		p := filepath.Join(dir, e.rel)
		must(os.MkdirAll(filepath.Dir(p), 0o755))
		switch {
		case e.dir:
			must(os.MkdirAll(p, 0o755))
		case e.link != "":
			must(os.Symlink(e.link, p))
		default:
			must(os.WriteFile(p, []byte(e.data), 0o644))
		}
	}
}

// dirOrder is the order in which the system lists all directories.
func dirOrder(dir string) string {
	var b strings.Builder
	_ = filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		if err == nil && d.IsDir() {
			f, err := os.Open(p)
			if err != nil {
				return nil
			}
			names, _ := f.Readdirnames(-1)
			f.Close()
			b.WriteString(strings.Join(names, "|") + ";")
		}
		return nil
	})
	return b.String()
}

// repeat runs the same thing several times under different conditions and compares all the bytes.
func repeat(c *Ctx, k *Case, r *R, n int, cmd []string, between func(j int)) bool {
	return repeatX(c, k, r, n, Run{Args: cmd}, false, between)
}

func repeatX(c *Ctx, k *Case, r *R, n int, run Run, keepCache bool, between func(j int)) bool {
	root := k.Path("")
	t := readTree(root)
	var first Res
	orders := map[string]bool{}
	for j := range n {
		if j > 0 {
			if r.P(.6) {
				buildTree(r, root, t)
			} else {
				buildTree(&R{Rand: rnd(uint64(j))}, root, t)
			}
			if r.P(.4) && !keepCache {
				must(os.RemoveAll(filepath.Join(k.Dir, "tmp")))
				must(os.MkdirAll(filepath.Join(k.Dir, "tmp"), 0o755))
			}
		}
		orders[dirOrder(root)] = true
		if between != nil {
			between(j)
		}
		procs := []string{"1", "8", "2", "3"}[j%4]
		env := []string{"GOMAXPROCS=" + procs}
		if r.P(.3) {
			env = append(env, "GOGC=5")
		}
		run.Env = env
		res := k.RunX(run)
		if j == 0 {
			first = res
			continue
		}
		if res.Exit != first.Exit || !bytes.Equal(res.Out, first.Out) || !bytes.Equal(res.Err, first.Err) {
			k.Violate("run %d of the same inputs is different: exit code %d instead of %d; stdout %s; stderr %s", j+1, res.Exit, first.Exit, firstDiff(first.Out, res.Out), firstDiff(first.Err, res.Err))
			return false
		}
		c.Count("runs_compared", 1)
	}
	c.Count("directory_orders_seen", len(orders))
	return true
}

func firstDiff(a, b []byte) string {
	if bytes.Equal(a, b) {
		return "is the same"
	}
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	from := max(0, i-60)
	return fmt.Sprintf("differs at byte %d: %q became %q", i, a[from:min(len(a), i+80)], b[from:min(len(b), i+80)])
}

func checkC19(c *Ctx) {
	c.Rule = "the same inputs scanned several times with different processor counts, garbage collection rates, directory enumeration orders (the tree is built again in another order), cache states and API answer orders and delays; stdout, stderr and exit code are compared byte for byte; non-trivial when there is some output to compare; distinct by inputs and flags"
	c.Assume = []string{"the server of a remote database sends the same Date for the same archive", "errors of the operating system's network stack, whose text has port numbers, are left out"}
	// the order in which a tmpfs lists files depends on the order in which they were created
	if d, err := os.MkdirTemp("/dev/shm", "osvd-verif-"); err == nil {
		c.CaseBase = d
		defer os.RemoveAll(d)
	}
	c.Each("world", c.N(500, 9000), func(i int, r *R) {
		w := newWorld(c, r, worldOpts{zips: true, apis: true, aliases: .12 * float64(r.IntN(2)), minDBs: 1, dirs: 4, many: .015, broken: .06, invalid: .04, badDB: .06})
		k := w.k
		defer w.Done()
		cmd := []string{"--use-dbs=false", fmt.Sprintf("--json=%v", r.P(.5))}
		if r.P(.2) {
			cmd = append(cmd, "--update-config-ignores")
		}
		if r.P(.1) {
			cmd = append(cmd, "--list-packages")
		}
		for _, d := range w.Dirs {
			if r.P(.3) {
				cmd = append(cmd, d)
			}
		}
		for _, f := range w.Files {
			cmd = append(cmd, f.arg)
		}
		if r.P(.2) {
			cmd = append(cmd, "missing", "nowhere/go.mod")
		}
		if repeat(c, k, r, 5, cmd, nil) {
			c.Seen(true, fmt.Sprint(cmd, i))
		}
		if i == 0 {
			c.Sample(map[string]any{"args": cmd})
		}
	})
	c.Each("ecosystems", c.N(300, 5000), func(i int, r *R) {
		w := newWorld(c, r, worldOpts{zips: true, minDBs: 0, dirs: 3, broken: .04})
		k := w.k
		defer w.Done()
		w.addFile(w.Dirs[0], "csv-file", "", worldOpts{})
		advs := map[string][]OSV{}
		zips := map[string][]byte{}
		for _, e := range sortedKeys(worldVersions) {
			advs[e] = worldAdvs(r, "osv.dev", w.IDs, .02)
			if r.P(.9) { // or it is not there
				zips[e] = zipOf(r, advFiles(r, advs[e]))
			}
		}
		osv := c.Scenario(osvHost(advs, zips))
		defer c.EndScenario(osv)
		var big []refPkg
		for _, e := range sortedKeys(worldVersions) {
			for range r.IntN(3) {
				big = append(big, refPkg{Eco: e, Name: worldName(e, pick(r, worldNames)), Ver: pick(r, worldVersions[e])})
			}
		}
		shuffle(r, big)
		k.Write("all.csv", mkLock("csv-file", big))
		cmd := []string{fmt.Sprintf("--json=%v", r.P(.5))}
		if r.P(.3) {
			cmd = append(cmd, "--use-api")
		}
		if r.P(.2) {
			cmd = append(cmd, "--use-dbs=false", "--use-api")
		}
		offline := r.P(.4)
		cmd = append(cmd, "csv-file:all.csv")
		for _, f := range w.Files {
			if f.path != "all.csv" {
				cmd = append(cmd, f.arg)
			}
		}
		if offline {
			if r.P(.7) {
				k.RunX(Run{Args: cmd, Token: osv.Token})
			}
			cmd = append([]string{"--offline"}, cmd...)
		}
		if repeatX(c, k, r, 4, Run{Args: cmd, Token: osv.Token}, offline, nil) {
			c.Seen(true, fmt.Sprint(cmd, i))
		}
	})
	gens := sortedKeys(allGens)
	c.Each("lockfiles", c.N(600, 10000), func(i int, r *R) {
		k := c.NewCase()
		defer k.Done()
		k.Mkdir("db")
		cmd := []string{"--use-dbs=false", fmt.Sprintf("--json=%v", r.P(.5))}
		if r.P(.5) {
			cmd = append(cmd, "--list-packages")
		}
		var advs []OSV
		for j := range 3 {
			d := allGens[gens[(i*3+j)%len(gens)]](r)
			dir := fmt.Sprintf("p%d", j)
			for f, s := range d.Files {
				k.Write(path.Join(dir, f), s)
			}
			k.Write(path.Join(dir, ".osv-detector.yml"), configYAML(nil, []dbEntry{{URL: "file:/db"}}))
			cmd = append(cmd, r.Pick(dir, path.Join(dir, d.Format)))
			for n, key := range d.keys() {
				p := strings.Split(key, "|")
				if n < 6 {
					advs = append(advs, allVersions(fmt.Sprintf("A-%d-%d", j, n), p[0], p[1]), allVersions(fmt.Sprintf("B-%d-%d", j, n), p[0], p[1]))
				}
			}
		}
		k.WriteAll("db", advFiles(r, advs))
		if repeat(c, k, r, 6, cmd, nil) {
			c.Seen(true, fmt.Sprint(cmd, i))
		}
	})
	c.Each("api", c.N(500, 9000), func(i int, r *R) {
		k := c.NewCase()
		defer k.Done()
		var pkgs []refPkg
		for j := range r.Range(2, 30) {
			pkgs = append(pkgs, refPkg{Eco: r.Pick("npm", "PyPI"), Name: fmt.Sprintf("%s%d", r.Word(), j), Ver: fmt.Sprintf("1.%d.0", j)})
		}
		var idl []string
		var advs []OSV
		for j := range r.Range(2, 25) {
			idl = append(idl, fmt.Sprintf("%s-%d", r.Pick("GHSA", "CVE"), j))
		}
		by := map[string]OSV{}
		for _, id := range idl {
			a := OSV{ID: id, Summary: "about " + id}
			for _, x := range idl {
				if r.P(.03) && x != id {
					a.Aliases = append(a.Aliases, x)
				}
			}
			advs = append(advs, a)
			by[id] = a
		}
		seed := fmt.Sprint(c.Seed, i)
		match := func(q apiQ) []string {
			var l []string
			for j, id := range idl {
				if hash64(seed, q.key(), id)%uint64(5) == 0 || j == 0 && hash64(q.key())%2 == 0 {
					l = append(l, id)
				}
			}
			return l
		}
		faults := r.P(.35)
		var run atomic.Int64
		var mu sync.Mutex
		var order []string
		s := c.Scenario(func(w http.ResponseWriter, q *Req) {
			time.Sleep(time.Duration(hash64(seed, fmt.Sprint(run.Load()), q.Path, string(q.Body))%7) * time.Millisecond)
			mu.Lock()
			order = append(order, fmt.Sprintf("%x", hash64(q.Path, string(q.Body))))
			mu.Unlock()
			w.Header().Set("Date", "Mon, 02 Jan 2023 03:04:05 GMT")
			if strings.HasSuffix(q.Path, "/querybatch") {
				qs, err := parseBatch(q.Body)
				if err != nil {
					w.WriteHeader(400)
					return
				}
				if faults {
					switch hash64(seed, string(q.Body)) % 7 {
					case 0:
						w.WriteHeader(500)
						return
					case 1:
						w.WriteHeader(429)
						return
					case 2:
						_, _ = w.Write([]byte(`{"results": [` + strings.TrimSuffix(strings.Repeat("{},", len(qs)+1), ",") + "]}"))
						return
					case 3:
						_, _ = w.Write([]byte("<html>"))
						return
					}
				}
				_, _ = w.Write([]byte(batchAnswer(qs, match)))
				return
			}
			id, _ := url.PathUnescape(path.Base(q.Path))
			if faults && hash64(seed, id)%5 == 0 {
				w.WriteHeader(404)
				return
			}
			_, _ = w.Write([]byte(by[id].JSON()))
		})
		defer c.EndScenario(s)
		k.Write("p/x.csv", mkLock("csv-file", pkgs))
		k.Write("p/.osv-detector.yml", configYAML(nil, []dbEntry{{URL: c.URL(s, "/v1")}}))
		cmd := []string{"--use-dbs=false", fmt.Sprintf("--json=%v", r.P(.5)), fmt.Sprintf("--batch-size=%d", r.Pick2(1, 2, 3, 7, 1000)), "csv-file:p/x.csv"}
		seen := map[string]bool{}
		ok := repeat(c, k, r, 6, cmd, func(j int) {
			run.Store(int64(j))
			mu.Lock()
			if j > 0 {
				seen[strings.Join(order, ",")] = true
			}
			order = nil
			mu.Unlock()
		})
		c.Count("answer_orders_seen", len(seen))
		if ok {
			c.Seen(true, fmt.Sprint(cmd, seed, pkgs))
		}
	})
}

func (r *R) Pick2(l ...int) int { return l[r.IntN(len(l))] }

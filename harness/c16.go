package main

import (
	"bytes"
	"fmt"
	"net/http"
	"path"
	"regexp"
	"strings"
	"time"
)

func init() { checks["C16"] = check{level: "exploration", net: true, race: true, f: checkC16} }

var raceRe = regexp.MustCompile(`(?s)WARNING: DATA RACE.*?={10,}`)

func raced(res Res) string {
	if res.Exit == 66 || bytes.Contains(res.Err, []byte("DATA RACE")) || bytes.Contains(res.Err, []byte("concurrent map")) {
		if m := raceRe.Find(res.Err); m != nil {
			return string(m)
		}
		return clip(res.Err)
	}
	return ""
}

func checkC16(c *Ctx) {
	c.Rule = "the detector built with the Go race detector, scanning lockfiles against APIs with many small batches whose answers and details come back permuted, late and failing, on 1 to 8 processors; and a program (also built with the race detector) that parses lockfiles, loads databases and checks packages against shared databases from 2 to 32 goroutines, comparing every result with the sequential one; no race report and no difference may occur; non-trivial when several requests or goroutines were active; distinct by workload"
	c.Assume = []string{"the race detector reports the races of the interleavings that occurred (and those that happened-before analysis derives from them), not of all"}
	c.Each("cli", c.N(260, 4000), func(i int, r *R) {
		k := c.NewCase()
		defer k.Done()
		a := genAPIWorld(c, r, k)
		b := genAPIWorld(c, r, c.NewCase())
		b.base, b.files = a.base, a.files
		for _, x := range []*apiWorld{a, b} {
			for _, id := range x.ids {
				if r.P(.1) {
					x.detail[id] = r.Pick("404", "notjson", "halfjson", "cut")
				}
			}
		}
		// failures make goroutines end early
		for _, f := range a.files {
			if len(f.pkgs) > 0 && r.P(.15) {
				f.fail, f.failKey = r.Pick("500", "503", "429", "short", "notjson", "drop"), wantQuery(pick(r, f.pkgs))
			}
		}
		s, t := c.Scenario(a.handle), c.Scenario(b.handle)
		defer c.EndScenario(s)
		defer c.EndScenario(t)
		k.Write("p/conf.yml", configYAML(nil, []dbEntry{{URL: c.URL(s, strings.ReplaceAll(a.base, " ", "%20"))}, {URL: c.URL(t, strings.ReplaceAll(b.base, " ", "%20"))}}))
		args := []string{"--json", "--use-dbs=false", "--config", "p/conf.yml", "--batch-size", fmt.Sprint(r.Range(1, 6))}
		for _, f := range a.files {
			if f.parser == "csv-file" {
				args = append(args, "csv-file:"+f.path)
			} else {
				args = append(args, f.path)
			}
		}
		procs := pick(r, []int{1, 2, 4, 8})
		res := k.RunX(Run{Args: args, Race: true, Env: []string{fmt.Sprintf("GOMAXPROCS=%d", procs)}})
		if d := raced(res); d != "" {
			k.Violate("data race:\n%s", d)
			return
		}
		seq := k.RunX(Run{Args: args, Env: []string{"GOMAXPROCS=1"}})
		if !bytes.Equal(seq.Out, res.Out) || seq.Exit != res.Exit {
			k.Violate("the results are different: %s\n%s", res, seq)
			return
		}
		n := 0
		for _, x := range []*apiWorld{a, b} {
			x.mu.Lock()
			n += len(x.batches)
			c.Count("batches", len(x.batches))
			c.Count("detail_requests", len(x.details))
			c.Mark("max_requests_in_flight", fmt.Sprint(x.maxFl))
			c.Mark("answer_orders", strings.Join(x.orders, ","))
			x.mu.Unlock()
		}
		c.Mark("processors", fmt.Sprint(procs))
		c.Seen(n > 3, fmt.Sprint("cli", a.seed))
	})
	if c.LibBin == "" {
		c.Assume = append(c.Assume, "the public packages could not be used as before, so that only the program was watched")
		return
	}
	c.EachW("lib", c.N(60, 900), 4, func(i int, r *R) {
		k := c.NewCase()
		defer k.Done()
		gens := sortedKeys(allGens)
		for j := range r.Range(6, 14) {
			d := allGens[gens[(i*7+j*5)%len(gens)]](r)
			for f, s := range d.Files {
				k.Write(path.Join("locks", fmt.Sprint(j), f), s)
			}
			c.Mark("formats", d.Format)
		}
		var pkgs []refPkg
		for _, e := range sortedKeys(worldVersions) {
			for _, n := range worldNames {
				pkgs = append(pkgs, refPkg{Eco: e, Name: worldName(e, n), Ver: pick(r, worldVersions[e])})
			}
		}
		shuffle(r, pkgs)
		k.Write("locks/a.csv", mkLock("csv-file", pkgs))
		k.Write("locks/b.csv", mkLock("csv-file", append(pkgs[:10:10], rp("npm", "", "alpha", "not a version"), rp("", "", "x", "c0ffee"))))
		var idl []string
		for j := range 25 {
			idl = append(idl, fmt.Sprintf("A-%d", j))
		}
		var advs []OSV
		for len(advs) < 15 {
			for _, a := range worldAdvs(r, "x", idl, .05) {
				// many events in any order
				for x := range a.Affected {
					if l := ladders[a.Affected[x].Package.Ecosystem]; r.P(.5) {
						a.Affected[x].Ranges = append(a.Affected[x].Ranges, Rng{"ECOSYSTEM", genEvents(r, l)})
					}
				}
				a.ID += fmt.Sprintf("-%d", len(advs))
				advs = append(advs, a)
			}
		}
		k.WriteAll("db", advFiles(r, advs))
		body := zipOf(r, advFiles(r, advs))
		zs := c.Scenario(func(w http.ResponseWriter, q *Req) {
			time.Sleep(time.Duration(hash64(fmt.Sprint(q.Seq))%3) * time.Millisecond)
			_, _ = w.Write(body)
		})
		defer c.EndScenario(zs)
		a := &apiWorld{c: c, base: "/v1", ids: idl, details: map[string]int{}, detail: map[string]string{"A-5": "404"}, seed: fmt.Sprint(i), delay: 4}
		as := c.Scenario(a.handle)
		defer c.EndScenario(as)
		workers := pick(r, []int{2, 4, 8, 32})
		res := k.RunX(Run{Lib: true, Args: []string{k.Path(""), fmt.Sprint(c.Seed*1000 + int64(i)), fmt.Sprint(workers), c.URL(as, "/v1"), c.URL(zs, "/all.zip")}, Env: []string{fmt.Sprintf("GOMAXPROCS=%d", pick(r, []int{2, 4, 8}))}, Limit: 120 * time.Second})
		if d := raced(res); d != "" {
			k.Violate("data race in concurrent use of the public packages:\n%s", d)
			return
		}
		if res.Exit == 5 || res.Exit == 2 || res.Hang {
			k.Violate("concurrent use gave a different result than sequential use: %s", res)
			return
		}
		if res.Exit != 0 { // not even sequentially
			c.Count("not_usable", 1)
			return
		}
		n := 0
		_, _ = fmt.Sscanf(string(res.Out), "done %d jobs", &n)
		c.Count("concurrent_calls", n)
		c.Mark("goroutines", fmt.Sprint(workers))
		c.Seen(n > 10, fmt.Sprint("lib", i))
		if i == 0 {
			c.Sample(map[string]any{"goroutines": workers, "outcome": strings.TrimSpace(string(res.Out))})
		}
	})
}

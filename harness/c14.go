package main

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"slices"
	"strings"
)

func init() { checks["C14"] = check{level: "exploration", net: true, f: checkC14} }

// netCalls are system calls of a trace that have to do with the network.
var netCalls = regexp.MustCompile(`\b(socket|connect|sendto|sendmsg|sendmmsg|bind|listen|getaddrinfo)\(([^\n]*)`)

const traceSet = "trace=socket,connect,sendto,sendmsg,sendmmsg,bind,listen,accept,accept4"

// osvHost serves the databases of osv.dev for each ecosystem, and its API.
func osvHost(advs map[string][]OSV, zips map[string][]byte) func(http.ResponseWriter, *Req) {
	var all []OSV
	for _, e := range sortedKeys(advs) {
		all = append(all, advs[e]...)
	}
	api := apiHandler(all, func(q apiQ) []string {
		var l []string
		for _, a := range all {
			if refAffected(a, rp(q.Package.Ecosystem, "", q.Package.Name, q.Version)) {
				l = append(l, a.ID)
			}
		}
		return l
	})
	return func(w http.ResponseWriter, q *Req) {
		switch q.Host {
		case "osv-vulnerabilities.storage.googleapis.com":
			e := strings.TrimSuffix(strings.TrimPrefix(q.Path, "/"), "/all.zip")
			if b, ok := zips[e]; ok {
				serveBytes(b)(w, q)
				return
			}
			http.Error(w, "no such object", http.StatusNotFound)
		case "api.osv.dev":
			api(w, q)
		default:
			http.Error(w, "unknown host", http.StatusBadGateway)
		}
	}
}

func checkC14(c *Ctx) {
	c.Rule = "offline scans, listings and scans without remote databases over random worlds (lockfiles, configs with dir, zip and API databases, the databases of osv.dev, partly filled caches, broken lockfiles and configs, random other flags), while a recording proxy and server stand for the whole network and, for a part of the runs, strace records every network system call; none may be seen, and the findings have to be those of the local and cached databases; non-trivial when the same scan would have used the network; distinct by world and flags"
	straceOK := exec.Command("strace", "-f", "-o", "/dev/null", "-e", traceSet, "/bin/true").Run() == nil
	if !straceOK {
		c.Assume = append(c.Assume, "strace does not work here: only the proxy and server were watched")
	}
	traced := func(k *Case, r *R, p float64, run Run) (Res, []string) {
		if !straceOK || !r.P(p) {
			return k.RunX(run), nil
		}
		f := filepath.Join(k.Dir, fmt.Sprintf("trace-%d", c.seq.Add(1)))
		run.Wrap = []string{"strace", "-f", "-qq", "-o", f, "-e", traceSet}
		res := k.RunX(run)
		b, _ := os.ReadFile(f)
		var l []string
		for _, m := range netCalls.FindAllString(string(b), -1) {
			l = append(l, m)
		}
		c.Count("runs_under_strace", 1)
		return res, l
	}
	c.Each("offline", c.N(1100, 20000), func(i int, r *R) {
		w := newWorld(c, r, worldOpts{zips: true, apis: true, dirs: 3, broken: .05, invalid: .04})
		k := w.k
		defer w.Done()
		// the databases of osv.dev
		eco := map[string][]OSV{}
		zips := map[string][]byte{}
		for _, e := range sortedKeys(worldVersions) {
			eco[e] = worldAdvs(r, "osv.dev", w.IDs, 0)
			zips[e] = zipOf(r, advFiles(r, eco[e]))
		}
		osv := c.Scenario(osvHost(eco, zips))
		defer c.EndScenario(osv)
		useDBs := r.P(.6)
		var args []string
		if !useDBs {
			args = append(args, "--use-dbs=false")
		}
		var env []string
		useAPI := false
		switch r.IntN(8) {
		case 0:
			args = append(args, "--use-api")
			useAPI = true
		case 1:
			env = append(env, "OSV_DETECTOR_PREFER_API=true")
			useAPI = true
			if useDBs {
				if r.P(.5) {
					args = append(args, "--use-dbs")
				} else {
					useDBs = false
				}
			}
		}
		noDBs := r.P(.1)
		if noDBs {
			args = append(args, "--no-config-databases")
		}
		var paths []string
		for _, f := range w.Files {
			paths = append(paths, f.arg)
		}
		// fill a part of the caches by an online run over some of the files
		cachedEco := map[string]bool{}
		cachedDB := map[int]bool{}
		dbsOf := func(f *wFile) []int {
			if noDBs {
				return nil
			}
			return w.Conf[f.dir].dbs
		}
		if r.P(.7) {
			var some []*wFile
			for _, f := range w.Files {
				if r.P(.6) {
					some = append(some, f)
				}
			}
			if len(some) > 0 {
				a := append([]string{"--json"}, args...)
				for _, f := range some {
					a = append(a, f.arg)
				}
				res := k.RunX(Run{Args: a, Env: env, Token: osv.Token})
				if res.Crashed() {
					k.Violate("crashed: %s", res)
					return
				}
				for _, f := range some {
					if f.broken != "" || w.Conf[f.dir].invalid != "" {
						continue
					}
					for _, d := range dbsOf(f) {
						if w.DBs[d].kind == "zip" {
							cachedDB[d] = true
						}
					}
					if useDBs {
						for _, p := range f.pkgs {
							cachedEco[p.Eco] = true
						}
					}
				}
				if len(osv.Activity()) > 0 {
					c.Count("online_runs_seen_by_the_monitor", 1)
				}
			}
		}
		// some of the caches are damaged, which is no reason to use the network
		damage := func(u string) bool {
			p := filepath.Join(k.Dir, "tmp", cacheName(u))
			b, err := os.ReadFile(p)
			if err != nil || !r.P(.2) {
				return false
			}
			var x map[string]any
			must(json.Unmarshal(b, &x))
			kind := r.Pick("no body", "null body", "empty body", "not an archive", "half an archive", "half a file", "empty file", "deleted", "no validators and no body")
			switch kind {
			case "no body":
				delete(x, "body")
			case "null body":
				x["body"] = nil
			case "empty body":
				x["body"] = ""
			case "not an archive":
				x["body"] = base64.StdEncoding.EncodeToString([]byte(r.Pick("<html>", " ", "PK", "null")))
			case "half an archive":
				raw, _ := base64.StdEncoding.DecodeString(fmt.Sprint(x["body"]))
				x["body"] = base64.StdEncoding.EncodeToString(raw[:len(raw)/2])
			case "no validators and no body":
				x["etag"], x["date"], x["body"] = "", "", ""
			}
			b = []byte(toJSON(x))
			switch kind {
			case "half a file":
				b = b[:len(b)/2]
			case "empty file":
				b = nil
			}
			must(os.WriteFile(p, b, 0o644))
			if kind == "deleted" {
				must(os.Remove(p))
			}
			c.Mark("cache_faults", kind)
			return true
		}
		for _, e := range sortedKeys(cachedEco) {
			if damage("https://osv-vulnerabilities.storage.googleapis.com/" + e + "/all.zip") {
				delete(cachedEco, e)
			}
		}
		for d := range w.DBs {
			if cachedDB[d] && damage(w.DBs[d].entry.URL) {
				delete(cachedDB, d)
			}
		}
		// the runtime dials more connections than it needs, which can still be on their way when a
		// run ends: the offline run gets a name of its own
		off := c.Scenario(osv.Handle)
		defer c.EndScenario(off)
		reset := func() {
			for _, d := range w.DBs {
				if d.scen != nil {
					d.scen.Reset()
				}
			}
		}
		activity := func() []string {
			l := off.Activity()
			for _, d := range w.DBs {
				if d.scen != nil {
					l = append(l, d.scen.Activity()...)
				}
			}
			return l
		}
		reset()
		cmd := append(append([]string{"--json", "--offline"}, args...), paths...)
		if r.P(.2) {
			cmd = append([]string{"--update-config-ignores"}, cmd...)
		}
		res, calls := traced(k, r, .2, Run{Args: cmd, Env: env, Token: off.Token})
		if a := activity(); len(a) > 0 {
			k.Violate("the network was used although --offline was given: %v", a)
			return
		}
		if len(calls) > 0 {
			k.Violate("network system calls were made although --offline was given: %v", calls)
			return
		}
		out, err := parseOut(res.Out)
		if err != nil || res.Crashed() {
			k.Violate("unexpected outcome: %v %s", err, res)
			return
		}
		// what has to be found
		needs := map[string]bool{} // databases that are needed but not there
		remote := false
		at := 0
		vulns := 0
		failed := false
		for _, f := range w.Files {
			if f.broken != "" || w.Conf[f.dir].invalid != "" {
				failed = true
				continue
			}
			var local []int
			for _, d := range dbsOf(f) {
				switch {
				case w.DBs[d].kind == "dir", cachedDB[d]:
					local = append(local, d)
				default:
					needs[fmt.Sprint("db", d)] = true
				}
				remote = remote || w.DBs[d].kind != "dir"
			}
			if useAPI {
				needs["api"] = true
				remote = true
			}
			if at >= len(out.Results) {
				k.Violate("%d results, but there are more lockfiles", len(out.Results))
				return
			}
			o := out.Results[at]
			at++
			var ecoOf []string
			for _, p := range f.pkgs {
				if useDBs && !slices.Contains(ecoOf, p.Eco) {
					ecoOf = append(ecoOf, p.Eco)
					remote = true
					if !cachedEco[p.Eco] {
						needs["eco "+p.Eco] = true
					}
				}
			}
			by := map[string]refPkg{}
			for _, p := range f.pkgs {
				by[p.key()] = p
			}
			if len(o.Packages) != len(f.pkgs) {
				k.Violate("%s: %d packages instead of %d", f.path, len(o.Packages), len(f.pkgs))
				return
			}
			for _, p := range o.Packages {
				q := by[p.Key()]
				want, _ := w.expect(q, local, nil)
				for _, e := range ecoOf {
					if !cachedEco[e] {
						continue
					}
					for _, a := range eco[e] {
						if refAffected(a, q) && !slices.Contains(want, a.ID) {
							want = append(want, a.ID)
						}
					}
				}
				if s := diff(want, append(ids(p.Vulns), ids(p.Ignored)...)); s != "" {
					k.Violate("%s: %s: %s", f.path, p.Key(), s)
					return
				}
				vulns += len(p.Vulns)
			}
		}
		if at != len(out.Results) {
			k.Violate("%d results instead of %d", len(out.Results), at)
			return
		}
		if len(needs) > 0 || failed {
			if res.Exit != 127 {
				k.Violate("exit code %d although %v are not available offline", res.Exit, sortedKeys(needs))
				return
			}
		} else if (res.Exit == 1) != (vulns > 0) || res.Exit == 127 {
			k.Violate("exit code %d with %d vulnerabilities and every database available", res.Exit, vulns)
			return
		}
		if n := strings.Count(string(res.Err), "failed: "); n != len(needs) {
			k.Violate("%d databases are reported as not available, expected %v:\n%s", n, sortedKeys(needs), res)
			return
		}
		c.Count("unavailable_databases_reported", len(needs))
		c.Count("cached_databases_used", len(cachedDB)+len(cachedEco))
		c.Seen(remote, fmt.Sprint(i, args))
		if i == 0 {
			c.Sample(map[string]any{"args": cmd, "unavailable": sortedKeys(needs)})
		}
	})
	c.Each("quiet", c.N(900, 15000), func(i int, r *R) {
		w := newWorld(c, r, worldOpts{zips: true, apis: true, dirs: 3, broken: .08, invalid: .08, badDB: .1, minDBs: 1})
		k := w.k
		defer w.Done()
		osv := c.Scenario(osvHost(nil, nil))
		defer c.EndScenario(osv)
		mode := r.Pick("list", "list", "version", "ecosystems", "none", "none", "parse-as")
		var args, env []string
		if r.P(.2) {
			env = append(env, "OSV_DETECTOR_PREFER_API=true")
		}
		more := []string{}
		for _, f := range []string{"--json", "--use-api", "--use-dbs", "--no-config", "--no-config-ignores", "--batch-size=2", "--ignore=CVE-1"} {
			if r.P(.3) {
				more = append(more, f)
			}
		}
		shuffle(r, more)
		switch mode {
		case "list":
			args = append(more, "--list-packages")
			if r.P(.3) {
				args = append(args, "--update-config-ignores")
			}
		case "version":
			args = append(more, "--version")
		case "ecosystems":
			args = append(more, "--list-ecosystems")
		case "parse-as":
			args = append(more, "--parse-as=nonsense")
		case "none":
			args = []string{"--use-dbs=false", "--use-api=false", "--no-config-databases"}
			if r.P(.3) {
				args = append(args, "--json")
			}
			if r.P(.3) {
				args = append(args, "--config", w.Dirs[0]+"/.osv-detector.yml")
			}
		}
		ok := true
		for _, f := range w.Files {
			args = append(args, f.arg)
			ok = ok && f.broken == ""
		}
		res, calls := traced(k, r, .25, Run{Args: args, Env: env, Token: osv.Token})
		a := osv.Activity()
		for _, d := range w.DBs {
			if d.scen != nil {
				a = append(a, d.scen.Activity()...)
			}
		}
		if len(a) > 0 || len(calls) > 0 {
			k.Violate("the network was used: %v %v", a, calls)
			return
		}
		if res.Crashed() || res.Exit == 1 || (mode == "list" && (res.Exit == 0) != ok) || (mode == "version" || mode == "ecosystems") && res.Exit != 0 {
			k.Violate("unexpected outcome (%s): %s", mode, res)
			return
		}
		c.Mark("modes", mode)
		c.Seen(true, fmt.Sprint(mode, i))
	})
	// the monitors do see what an online run does
	c.Each("control", 6, func(i int, r *R) {
		k := c.NewCase()
		defer k.Done()
		osv := c.Scenario(osvHost(map[string][]OSV{"npm": {allVersions("X", "npm", "alpha")}}, map[string][]byte{"npm": zipOf(r, map[string]string{"a.json": allVersions("X", "npm", "alpha").JSON()})}))
		defer c.EndScenario(osv)
		k.Write("p.csv", csvRow("npm", "", "alpha", "1.0.0"))
		_, calls := traced(k, r, 1, Run{Args: []string{"--json", "csv-file:p.csv"}, Token: osv.Token})
		c.Count("control_requests_seen", len(osv.Activity()))
		c.Count("control_calls_seen", len(calls))
	})
}

package main

import (
	"fmt"
	"net/http"
	"net/url"
	"slices"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

func init() { checks["C15"] = check{level: "exploration", net: true, f: checkC15} }

func (q apiQ) key() string {
	return q.Package.Ecosystem + "|" + q.Package.Name + "|" + q.Version + "|" + q.Commit
}

type apiFile struct {
	parser, path string
	pkgs         []refPkg
	fail         string // how a batch of this lockfile fails
	failKey      string // the batch with this query fails
	once         bool   // only the first time
	failed       int
}

// wantQuery is what has to be asked for a package.
func wantQuery(p refPkg) string {
	switch {
	case p.Eco == "":
		return "|||" + p.Ver
	case p.Ver == "":
		return "|||" // nothing that could be asked for
	}
	return p.Eco + "|" + p.Name + "|" + p.Ver + "|"
}

type apiWorld struct {
	c       *Ctx
	base    string
	ids     []string
	detail  map[string]string // how fetching the details of an ID fails
	files   []*apiFile
	mu      sync.Mutex
	batches [][]apiQ
	details map[string]int
	orders  []string
	bad     []string
	inFl    atomic.Int64
	maxFl   int64
	delay   int // ms
	trail   string
	slow    time.Duration // for whatever has a hash of 0 modulo 2
	seed    string
}

func (a *apiWorld) match(q apiQ) []string {
	if q.key() == "|||" {
		return nil
	}
	h := hash64(a.seed, q.key())
	var l []string
	if h%3 == 0 {
		return nil
	}
	for j := range int(h>>8) % 4 {
		id := a.ids[int(h>>(16+8*j))%len(a.ids)]
		if !slices.Contains(l, id) {
			l = append(l, id)
		}
	}
	return l
}

// odd says what is special about the details of an ID.
func (a *apiWorld) odd(id string) string {
	return []string{"", "", "", "withdrawn", "other-id", "empty-id", "alias", "nothing-affected", "other-ecosystem", "alias-of-other"}[hash64(a.seed, "odd", id)%10]
}

// aliases are the other advisories of the API that the details of an ID name.
func (a *apiWorld) aliases(id string) []string {
	if a.odd(id) != "alias-of-other" || a.detail[id] != "" {
		return nil
	}
	x := a.ids[hash64(a.seed, "alias", id)%uint64(len(a.ids))]
	if x == id {
		return nil
	}
	return []string{x}
}

func (a *apiWorld) handle(w http.ResponseWriter, q *Req) {
	n := a.inFl.Add(1)
	defer a.inFl.Add(-1)
	wait := func(s string) {
		if a.slow > 0 && hash64(a.seed, "slow", s)%2 == 0 {
			time.Sleep(a.slow)
		}
		if a.delay > 0 {
			time.Sleep(time.Duration(hash64(a.seed, "delay", s)%uint64(a.delay)) * time.Millisecond)
		}
	}
	path, _ := url.PathUnescape(q.Path)
	rest, ok := strings.CutPrefix(path, a.base)
	a.mu.Lock()
	a.maxFl = max(a.maxFl, n)
	a.mu.Unlock()
	switch {
	case ok && rest == "/querybatch" && q.Method == "POST":
		qs, err := parseBatch(q.Body)
		a.mu.Lock()
		if err != nil {
			a.bad = append(a.bad, fmt.Sprintf("unreadable batch: %v: %s", err, q.Body))
		}
		at := len(a.batches)
		a.batches = append(a.batches, qs)
		a.mu.Unlock()
		wait(string(q.Body))
		a.mu.Lock()
		a.orders = append(a.orders, fmt.Sprint(at))
		a.mu.Unlock()
		fail := ""
		for _, f := range a.files {
			if f.fail != "" && slices.ContainsFunc(qs, func(x apiQ) bool { return x.key() == f.failKey }) {
				a.mu.Lock()
				if f.failed++; !f.once || f.failed == 1 || f.fail == "drop" {
					fail = f.fail
				}
				a.mu.Unlock()
			}
		}
		good := batchAnswer(qs, a.match)
		switch fail {
		case "":
			_, _ = w.Write([]byte(good))
		case "notjson":
			_, _ = w.Write([]byte("<html>busy</html>"))
		case "short":
			_, _ = w.Write([]byte(batchAnswer(qs[:len(qs)-1], a.match)))
		case "long":
			_, _ = w.Write([]byte(batchAnswer(append(slices.Clone(qs), qs[0]), a.match)))
		case "trailing":
			_, _ = w.Write([]byte(good + a.trail))
		case "null":
			_, _ = w.Write([]byte("null"))
		case "object":
			_, _ = w.Write([]byte(`{}`))
		case "types":
			_, _ = w.Write([]byte(`{"results": [{"vulns": "none"}]}`))
		case "cut":
			abort(w, fmt.Sprintf("HTTP/1.1 200 OK\r\nContent-Length: %d\r\n\r\n%s", len(good)+5, good))
		case "halfjson":
			_, _ = w.Write([]byte(good[:len(good)/2]))
		case "drop":
			abort(w, "")
		default:
			code := 0
			if n, _ := fmt.Sscan(fail, &code); n != 1 {
				panic(fail)
			}
			w.WriteHeader(code)
			_, _ = w.Write([]byte(good)) // even with a good answer
		}
	case ok && strings.HasPrefix(rest, "/vulns/") && q.Method == "GET":
		id := strings.TrimPrefix(rest, "/vulns/")
		a.mu.Lock()
		a.details[id]++
		a.mu.Unlock()
		wait(id)
		x := OSV{ID: id, Summary: "details of " + id, Affected: []Affected{{Package: Pkg{"x", "npm"}}}}
		// the API has decided that these affect the package, whatever else the details say
		switch a.odd(id) {
		case "withdrawn":
			x.Withdrawn = "2021-03-04T05:06:07Z"
		case "other-id":
			x.ID = "X-" + id
		case "empty-id":
			x.ID = ""
		case "alias":
			x.Aliases = []string{"ALIAS-" + id}
		case "alias-of-other":
			x.Aliases = a.aliases(id)
		case "nothing-affected":
			x.Affected = nil
		case "other-ecosystem":
			x.Affected = []Affected{{Package: Pkg{"x", "Maven"}, Versions: []string{"0.0.1"}}}
		}
		good := x.JSON()
		switch m := a.detail[id]; m {
		case "":
			_, _ = w.Write([]byte(good))
		case "notjson":
			_, _ = w.Write([]byte("<html>"))
		case "cut":
			abort(w, fmt.Sprintf("HTTP/1.1 200 OK\r\nContent-Length: %d\r\n\r\n%s", len(good)+5, good))
		case "halfjson":
			_, _ = w.Write([]byte(good[:len(good)/2]))
		case "drop":
			abort(w, "")
		default:
			code := 0
			if n, _ := fmt.Sscan(m, &code); n != 1 {
				panic(m)
			}
			w.WriteHeader(code)
			_, _ = w.Write([]byte(good))
		}
	default:
		a.mu.Lock()
		a.bad = append(a.bad, q.Method+" "+q.Path)
		a.mu.Unlock()
		http.Error(w, "?", http.StatusNotFound)
	}
}

func genAPIWorld(c *Ctx, r *R, k *Case) *apiWorld {
	a := &apiWorld{c: c, details: map[string]int{}, detail: map[string]string{}, seed: fmt.Sprint(c.Seed, r.Uint64())}
	a.base = r.Pick("/v1", "/v1", "/v1experimental", "", "/a/b c/v1", "/v1")
	nIDs := r.Range(1, 40)
	many := r.P(.03)
	if many {
		nIDs = r.Range(120, 500)
	}
	for j := range nIDs {
		a.ids = append(a.ids, fmt.Sprintf("%s-%d", r.Pick("GHSA", "GHSA-j8xg-fqg3", "CVE-2021", "OSV a"), j))
	}
	if r.P(.6) {
		a.delay = r.Range(1, 8)
	}
	for fi := range r.Range(1, 3) {
		f := &apiFile{parser: r.Pick("csv-file", "csv-file", "package-lock.json", "Cargo.lock", "requirements.txt", "Gemfile.lock", "composer.lock")}
		n := r.Range(0, 25)
		switch {
		case many || r.P(.04):
			n = r.Range(150, 400)
		case r.P(.02):
			n = r.Range(990, 1100)
		}
		eco := map[string]string{"package-lock.json": "npm", "Cargo.lock": "crates.io", "requirements.txt": "PyPI", "Gemfile.lock": "RubyGems", "composer.lock": "Packagist"}[f.parser]
		for j := range n {
			e := eco
			p := refPkg{Name: fmt.Sprintf("f%d-%s-%d", fi, r.Word(), j), Ver: fmt.Sprintf("%d.%d.%d", r.IntN(3), r.IntN(12), r.IntN(5))}
			if e == "" {
				e = r.Pick("npm", "PyPI", "Debian:10", "Go", "made-up")
				if r.P(.2) { // names are not touched on the way
					p.Name = fmt.Sprintf(r.Pick("My_Pkg.Name--%d", "@scope/pkg-%d", "github.com/A/b_c/v%d", "ü.%d", "a%%20b<%d>&", "  x %d", "org.x:Y_%d"), fi*10000+j)
					p.Name = strings.TrimSpace(p.Name)
				}
			}
			p.Eco = e
			if len(f.pkgs) > 0 && r.P(.15) && (f.parser == "csv-file" || f.parser == "Cargo.lock") {
				p.Name = pick(r, f.pkgs).Name
				p.Ver = fmt.Sprintf("3.%d.0", j)
			}
			if f.parser == "composer.lock" {
				p.Name = "v/" + p.Name
			}
			if f.parser == "composer.lock" || f.parser == "package-lock.json" {
				if r.P(.3) { // the version is what is asked for
					p.Commit = r.Sha()
				}
			}
			if f.parser == "csv-file" {
				switch r.IntN(8) {
				case 0:
					p.Eco, p.Ver = "", r.Sha()
				case 1:
					p.As = "npm"
				case 2:
					if r.P(.4) {
						p.Ver = ""
					}
				}
			}
			f.pkgs = append(f.pkgs, p)
		}
		name := f.parser
		if name == "csv-file" {
			name = "pkgs.csv"
		}
		f.path = fmt.Sprintf("p/d%d/%s", fi, name)
		k.Write(f.path, mkLock(f.parser, f.pkgs))
		a.files = append(a.files, f)
	}
	return a
}

func checkC15(c *Ctx) {
	c.Rule = "lockfiles with up to 1100 packages (with versions, commits, neither; the same name at several versions) checked against a recording API with random batch sizes, delays that permute the answers, failing batches (statuses, truncated, unreadable, mis-sized, dropped) and failing details, with and without another database; every query, detail request and reported finding is compared with the reference; non-trivial when more than one batch or detail request was in play; distinct by queries and faults"
	c.Each("api", c.N(1300, 22000), func(i int, r *R) {
		k := c.NewCase()
		defer k.Done()
		a := genAPIWorld(c, r, k)
		s := c.Scenario(a.handle)
		defer c.EndScenario(s)
		size := pick(r, []int{1, 2, 3, 7, 10, 100, 1000})
		if n := len(a.files[0].pkgs); n > 0 && r.P(.2) { // around the number of packages
			size = max(1, n+r.Range(-1, 1))
		}
		// faults
		a.trail = r.Pick("oops", "{}", `{"results": []}`, "]", "\x00", "\n<!-- served by cache -->")
		anyFail := false
		for _, f := range a.files {
			if len(f.pkgs) == 0 || !r.P(.2) {
				continue
			}
			q := wantQuery(pick(r, f.pkgs))
			if q == "|||" {
				continue
			}
			f.failKey = q
			f.fail = r.Pick("notjson", "short", "long", "null", "object", "types", "cut", "halfjson", "trailing", "drop")
			if r.P(.5) {
				f.fail = fmt.Sprint(r.BadCode())
			}
			f.once = r.P(.5)
			anyFail = true
			c.Mark("batch_faults", f.fail)
		}
		if r.P(.4) {
			for _, id := range a.ids {
				if r.P(.25) {
					a.detail[id] = r.Pick("notjson", "cut", "halfjson", "drop")
					if r.P(.5) {
						a.detail[id] = fmt.Sprint(r.BadCode())
					}
					c.Mark("detail_faults", a.detail[id])
				}
			}
		}
		// another database
		var other []OSV
		e := dbEntry{URL: c.URL(s, strings.ReplaceAll(a.base, " ", "%20")) + r.Pick("", "", "/")}
		if r.P(.2) {
			e.Type = "api"
		}
		es := []dbEntry{e}
		if r.P(.5) {
			for j := range r.Range(1, 4) {
				f := pick(r, a.files)
				if len(f.pkgs) == 0 {
					continue
				}
				p := pick(r, f.pkgs)
				if p.Eco == "" || p.Eco == "made-up" {
					continue
				}
				other = append(other, OSV{ID: fmt.Sprintf("OTHER-%d", j), Affected: []Affected{{Package: Pkg{p.Name, p.Eco}, Versions: []string{p.Ver}}}})
			}
			od, _ := k.extraDB(r, "other", other, false)
			es = append(es, od)
			shuffle(r, es)
		}
		args := []string{"--json", "--use-dbs=false", "--config", "p/conf.yml"}
		k.Write("p/conf.yml", configYAML(nil, es))
		if size != 1000 || r.P(.5) {
			args = append(args, "--batch-size", fmt.Sprint(size))
		}
		for _, f := range a.files {
			if f.parser == "csv-file" {
				args = append(args, "csv-file:"+f.path)
			} else {
				args = append(args, f.path)
			}
		}
		if anyFail && r.P(.5) {
			// as text, where stderr has nothing but what went wrong
			res := k.Run(args[1:]...)
			a.mu.Lock()
			for _, f := range a.files {
				if f.fail != "" && (res.Exit == 0 || !strings.Contains(string(res.Err), f.path)) {
					k.Violate("a batch of %s failed (%s), which is not reported on stderr: %s", f.path, f.fail, res)
					a.mu.Unlock()
					return
				}
				f.failed = 0
			}
			a.batches, a.details, a.orders, a.bad, a.maxFl = nil, map[string]int{}, nil, nil, 0
			a.mu.Unlock()
			c.Count("failures_judged_as_text", 1)
		}
		res := k.Run(args...)
		out, err := parseOut(res.Out)
		if err != nil || res.Crashed() || res.Hang || len(out.Results) != len(a.files) {
			k.Violate("unexpected outcome: %v %s", err, res)
			return
		}
		a.mu.Lock()
		defer a.mu.Unlock()
		if len(a.bad) > 0 {
			k.Violate("unexpected requests: %v", a.bad)
			return
		}
		// the queries
		asked := map[string]int{}
		total := 0
		for _, b := range a.batches {
			if len(b) > size || len(b) == 0 {
				k.Violate("a batch has %d queries, but the batch size is %d", len(b), size)
				return
			}
			for _, q := range b {
				asked[q.key()]++
				total++
			}
		}
		want := map[string]int{}
		for _, f := range a.files {
			for _, p := range f.pkgs {
				want[wantQuery(p)]++
			}
		}
		for q, n := range asked {
			if want[q] == 0 {
				k.Violate("a query for %s was sent, but there is no such package", q)
				return
			}
			if n > want[q] {
				k.Violate("%s was queried %d times instead of %d", q, n, want[q])
				return
			}
		}
		for _, f := range a.files {
			for _, p := range f.pkgs {
				q := wantQuery(p)
				if f.fail == "" && q != "|||" && asked[q] != want[q] {
					k.Violate("%s was queried %d times instead of %d", q, asked[q], want[q])
					return
				}
			}
			if f.fail == "drop" && asked[f.failKey] == 0 || f.fail != "" && f.fail != "drop" && asked[f.failKey] != 1 {
				k.Violate("%s was queried %d times instead of once", f.failKey, asked[f.failKey])
				return
			}
		}
		if !anyFail && asked["|||"] != want["|||"] {
			k.Violate("%d packages without a version or commit were queried instead of %d", asked["|||"], want["|||"])
			return
		}
		// the findings
		needDetail := map[string]int{}
		vulns := 0
		for fi, o := range out.Results {
			f := a.files[fi]
			if o.FilePath != f.path || len(o.Packages) != len(f.pkgs) {
				k.Violate("%s has %d packages, expected %s with %d", o.FilePath, len(o.Packages), f.path, len(f.pkgs))
				return
			}
			by := map[string]refPkg{}
			for _, p := range f.pkgs {
				by[p.key()] = p
			}
			inFile := map[string]bool{}
			for _, p := range o.Packages {
				q, ok := by[p.Key()]
				if !ok {
					k.Violate("%s: unexpected package %s", f.path, p.Key())
					return
				}
				var x apiQ
				if q.Eco == "" {
					x.Commit = q.Ver
				} else if q.Ver != "" {
					x.Package.Ecosystem, x.Package.Name, x.Version = q.Eco, q.Name, q.Ver
				}
				fromAPI := a.match(x)
				var fromOther []string
				for _, adv := range other {
					if refAffected(adv, q) {
						fromOther = append(fromOther, adv.ID)
					}
				}
				vulns += len(p.Vulns)
				got := ids(p.Vulns)
				if f.fail == "" {
					for _, id := range fromAPI {
						inFile[id] = true
					}
					want := append(slices.Clone(fromAPI), fromOther...)
					// advisories that the API itself gives as aliases are reported once
					want = slices.DeleteFunc(want, func(id string) bool {
						return !slices.Contains(got, id) && slices.ContainsFunc(p.Vulns, func(v OutVuln) bool {
							return linked(v.ID, a.aliases(v.ID), id, a.aliases(id))
						})
					})
					if s := diff(want, got); s != "" {
						k.Violate("%s: %s: %s", f.path, p.Key(), s)
						return
					}
				} else {
					for _, id := range fromOther {
						if !slices.Contains(got, id) {
							k.Violate("%s: %s: %s from the other database is missing (the API failed: %s)", f.path, p.Key(), id, f.fail)
							return
						}
					}
					for _, id := range got {
						if !slices.Contains(fromAPI, id) && !slices.Contains(fromOther, id) {
							k.Violate("%s: %s: unexpected %s (the API failed: %s)", f.path, p.Key(), id, f.fail)
							return
						}
					}
				}
				for _, v := range p.Vulns {
					if odd := a.odd(v.ID); odd == "other-id" || odd == "empty-id" {
						continue
					}
					if slices.Contains(fromAPI, v.ID) && a.detail[v.ID] == "" && v.Summary != "details of "+v.ID {
						k.Violate("%s: %s: %s is reported with the summary %q", f.path, p.Key(), v.ID, v.Summary)
						return
					}
				}
				c.Count("packages_judged", 1)
			}
			for id := range inFile {
				needDetail[id]++
			}
		}
		for id, n := range a.details {
			if a.detail[id] == "drop" || a.detail[id] == "cut" {
				continue
			}
			if !anyFail && n != needDetail[id] || n > len(a.files) {
				k.Violate("the details of %s were requested %d times, but it is in %d lockfiles", id, n, needDetail[id])
				return
			}
		}
		for id, n := range needDetail {
			if !anyFail && a.details[id] < n && a.detail[id] == "" {
				k.Violate("the details of %s were requested %d times, but it is in %d lockfiles", id, a.details[id], n)
				return
			}
		}
		switch {
		case anyFail && (res.Exit == 0 || !strings.Contains(strings.ToLower(string(res.Err)), "api")):
			k.Violate("a batch failed, which is not reported: %s", res)
			return
		case !anyFail && (res.Exit == 1) != (vulns > 0) || !anyFail && res.Exit > 1:
			k.Violate("exit code %d with %d vulnerabilities", res.Exit, vulns)
			return
		}
		if anyFail {
			for _, f := range a.files {
				if f.fail != "" && !strings.Contains(string(res.Err), f.path) {
					k.Violate("a batch of %s failed, but stderr does not mention it: %s", f.path, res)
					return
				}
			}
			c.Count("failed_batches_reported", 1)
		}
		c.Count("queries", total)
		c.Count("batches", len(a.batches))
		c.Count("detail_requests", len(a.details))
		if len(a.orders) > 1 {
			c.Mark("answer_orders", strings.Join(a.orders, ","))
		}
		c.Mark("max_requests_in_flight", fmt.Sprint(a.maxFl))
		c.Seen(len(a.batches) > 1 || len(a.details) > 1, fmt.Sprint(a.seed, size))
		if i == 0 {
			c.Sample(map[string]any{"args": args, "queries": total, "batches": len(a.batches), "order_of_answers": a.orders})
		}
	})
	c.Each("size", c.N(30, 200), func(i int, r *R) {
		k := c.NewCase()
		defer k.Done()
		a := &apiWorld{c: c, base: "/v1", ids: []string{"A"}, details: map[string]int{}, seed: "x"}
		s := c.Scenario(a.handle)
		defer c.EndScenario(s)
		k.Write(".osv-detector.yml", configYAML(nil, []dbEntry{{URL: c.URL(s, "/v1")}}))
		n := pick(r, []int{0, -1, -1000, -9223372036854775808})
		res := k.Run("--json", "--use-dbs=false", "--batch-size", fmt.Sprint(n), "--parse-as", "csv-row", "npm,,x,1.0.0", "npm,,y,1.0.0")
		if res.Exit != 127 || len(a.batches) > 0 || len(res.Err) == 0 {
			k.Violate("a batch size of %d gave %s", n, res)
		}
		c.Seen(true, fmt.Sprint("size", n))
	})
	// one package with very many advisories
	c.EachW("many", c.N(2, 10), 2, func(i int, r *R) {
		k := c.NewCase()
		defer k.Done()
		var advs []OSV
		var want []string
		n := pick(r, []int{1100, 1500, 2100})
		for j := range n {
			advs = append(advs, allVersions(fmt.Sprintf("MANY-%d", j), "npm", "p1"))
			want = append(want, advs[j].ID)
		}
		s := c.Scenario(apiHandler(advs, func(q apiQ) []string {
			if q.Package.Name == "p1" {
				return want
			}
			return []string{"MANY-0"}
		}))
		defer c.EndScenario(s)
		k.Write("pkgs.csv", "npm,,p0,1.0.0\nnpm,,p1,1.0.0\nnpm,,p2,1.0.0\n")
		k.Write(".osv-detector.yml", configYAML(nil, []dbEntry{{URL: c.URL(s, "/v1")}}))
		res := k.RunX(Run{Args: []string{"--json", "--use-dbs=false", "csv-file:pkgs.csv"}, Limit: 300 * time.Second})
		out, err := parseOut(res.Out)
		if err != nil || len(out.Results) != 1 || len(out.Results[0].Packages) != 3 || res.Exit != 1 {
			k.Violate("%d advisories for a package gave %v %.500s", n, err, res.String())
			return
		}
		for _, p := range out.Results[0].Packages {
			w := []string{"MANY-0"}
			if p.Name == "p1" {
				w = want
			}
			if s := diff(w, ids(p.Vulns)); s != "" {
				k.Violate("%d advisories for a package: %s: %.300s", n, p.Name, s)
				return
			}
		}
		c.Count("advisories_of_a_large_answer", n)
		c.Seen(true, fmt.Sprint("many", n, i))
	})
	// large answers, advisories and numbers of advisories in a lockfile
	c.EachW("large", c.N(3, 12), 3, func(i int, r *R) {
		k := c.NewCase()
		defer k.Done()
		var advs []OSV
		n := r.Range(501, 900)
		for j := range n {
			a := allVersions(fmt.Sprintf("BIG-%d", j), "npm", "p")
			a.Details = "details of " + a.ID
			if j == n/2 || j == n-1 {
				a.Details += strings.Repeat(r.Pick("x", "é "), r.Range(1, 3)<<20)
			}
			advs = append(advs, a)
		}
		h := apiHandler(advs, func(q apiQ) []string { return []string{"BIG-" + strings.TrimPrefix(q.Package.Name, "p")} })
		gap := strings.Repeat(" ", 2<<20)
		s := c.Scenario(func(w http.ResponseWriter, q *Req) {
			if strings.HasSuffix(q.Path, "/querybatch") {
				_, _ = w.Write([]byte(gap))
			}
			h(w, q)
		})
		defer c.EndScenario(s)
		var rows []string
		for j := range n {
			rows = append(rows, csvRow("npm", "", fmt.Sprintf("p%d", j), "1.0.0"))
		}
		k.Write("pkgs.csv", strings.Join(rows, "\n"))
		k.Write(".osv-detector.yml", configYAML(nil, []dbEntry{{URL: c.URL(s, "/v1")}}))
		res := k.RunX(Run{Args: []string{"--json", "--use-dbs=false", "csv-file:pkgs.csv"}, Limit: 300 * time.Second})
		out, err := parseOut(res.Out)
		if err != nil || len(out.Results) != 1 || len(out.Results[0].Packages) != n || res.Exit != 1 {
			k.Violate("%d packages with an advisory each, and large answers, gave %v %.500s", n, err, res.Err)
			return
		}
		for _, p := range out.Results[0].Packages {
			var j int
			_, err := fmt.Sscanf(p.Name, "p%d", &j)
			if err != nil || len(p.Vulns) != 1 || p.Vulns[0].ID != advs[j].ID || p.Vulns[0].Details != advs[j].Details {
				k.Violate("%d packages with an advisory each: %s has %.300s", n, p.Name, toJSON(p.Vulns))
				return
			}
		}
		c.Count("advisories_of_a_large_lockfile", n)
		c.Seen(true, fmt.Sprint("large", n, i))
	})
	// an answer that takes its time is an answer
	c.EachW("slow", 8, 8, func(i int, r *R) {
		k := c.NewCase()
		defer k.Done()
		a := &apiWorld{c: c, base: "/v1", ids: []string{"GHSA-1", "CVE-2", "OSV-3", "GHSA-4"}, details: map[string]int{}, detail: map[string]string{}, seed: fmt.Sprint(c.Seed, r.Uint64())}
		a.slow = time.Duration(c.N(11, 40)) * time.Second
		s := c.Scenario(a.handle)
		defer c.EndScenario(s)
		var pkgs []refPkg
		for j := range 6 {
			pkgs = append(pkgs, refPkg{Eco: "npm", Name: fmt.Sprintf("p%d", j), Ver: "1.0.0"})
		}
		k.Write("pkgs.csv", mkLock("csv-file", pkgs))
		k.Write(".osv-detector.yml", configYAML(nil, []dbEntry{{URL: c.URL(s, "/v1")}}))
		res := k.RunX(Run{Args: []string{"--json", "--use-dbs=false", "--batch-size", "2", "csv-file:pkgs.csv"}, Limit: 300 * time.Second})
		out, err := parseOut(res.Out)
		if err != nil || len(out.Results) != 1 || len(out.Results[0].Packages) != len(pkgs) || res.Exit > 1 {
			k.Violate("answers that take %s gave %s", a.slow, res)
			return
		}
		for _, p := range out.Results[0].Packages {
			var x apiQ
			x.Package.Ecosystem, x.Package.Name, x.Version = "npm", p.Name, p.Version
			got := ids(p.Vulns)
			want := slices.DeleteFunc(a.match(x), func(id string) bool {
				return !slices.Contains(got, id) && slices.ContainsFunc(p.Vulns, func(v OutVuln) bool {
					return linked(v.ID, a.aliases(v.ID), id, a.aliases(id))
				})
			})
			if s := diff(want, got); s != "" {
				k.Violate("answers that take %s: %s: %s", a.slow, p.Name, s)
				return
			}
			for _, v := range p.Vulns {
				if odd := a.odd(v.ID); odd != "other-id" && odd != "empty-id" && v.Summary != "details of "+v.ID {
					k.Violate("details that take %s: %s is reported with the summary %q", a.slow, v.ID, v.Summary)
					return
				}
			}
		}
		c.Count("slow_answers", 1)
		c.Seen(true, "slow"+a.seed)
	})
}

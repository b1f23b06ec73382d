package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"slices"
	"strings"
	"sync"
	"time"
)

func init() { checks["C13"] = check{level: "exploration", net: true, f: checkC13} }

// srvURL is what the server knows about one archive.
type srvURL struct {
	name    string // path below the scenario
	ver     int
	body    []byte
	ids     map[string][]string // by working directory
	etag    string
	lastMod int // logical time
	noDate  bool
	garbage bool // what is served is not an archive
	was     map[string][]string
	store   bool
	mode    string
	extra   map[string]string
}

// cacheM is what the cache has to hold for one URL.
type cacheM struct {
	etag, date string
	ids        map[string][]string // nil if the stored archive is unusable
}

var c13Epoch = time.Date(2024, 1, 1, 0, 0, 0, 0, time.UTC)

func logical(t int) string {
	return c13Epoch.Add(time.Duration(t) * time.Hour).Format(http.TimeFormat)
}

func checkC13(c *Ctx) {
	c.Rule = "histories of runs (online, offline, concurrent) against a server with several archives under similar URLs, whose content, validators (ETag, Date, both, none) and behaviour (200, 304, other statuses, truncated transfers, redirects, garbage) change between runs, with cache files being deleted, truncated, overwritten, or having a damaged body in between; findings, request headers and exit code of each run are compared with a model of the cache; non-trivial when at least one conditional request was answered with 304 or an offline run used the cache; distinct by history"
	c.Assume = []string{"two different archives never have the same ETag", "cache files are not moved between URLs"}
	straceOK := exec.Command("strace", "-f", "-o", "/dev/null", "-e", "trace=openat", "-e", "inject=openat:signal=KILL:when=60000", "/bin/true").Run() == nil
	if !straceOK {
		c.Assume = append(c.Assume, "strace does not work here: no runs were killed half way")
	}
	c.Each("history", c.N(1800, 30000), func(i int, r *R) {
		// a request of a killed run can arrive late: what fails after one has to fail once more
		if c13History(c, i, r, straceOK, false) {
			for range 3 {
				if c13History(c, i, c.Rand("history", i), straceOK, true) {
					return
				}
			}
			c.Count("not_seen_again", 1)
		}
	})
	// an archive that takes its time, or is large, is an archive; and it is what the next run offline uses
	c.EachW("slow", 8, 8, func(i int, r *R) {
		k := c.NewCase()
		defer k.Done()
		pause := time.Duration(c.N(11, 40)) * time.Second
		files := map[string]string{"a/V1.json": allVersions("V1", "npm", "alpha").JSON()}
		how := []string{"head", "body", "both", "large"}[i%4]
		want := []string{"V1"}
		if how == "large" { // does not compress
			pause = time.Second
			for j := range 40 {
				id := fmt.Sprintf("L%02d", j)
				x := allVersions(id, "npm", "alpha")
				x.Details = r.Hex(1 << 20)
				files["big/"+id+".json"] = x.JSON()
				want = append(want, id)
			}
		}
		order := sortedKeys(files)
		shuffle(r, order)
		body := zipBytes(files, order, false)
		s := c.Scenario(func(w http.ResponseWriter, q *Req) {
			if how != "body" {
				time.Sleep(pause)
			}
			w.Header().Set("ETag", `"x"`)
			w.Header().Set("Content-Length", fmt.Sprint(len(body)))
			n := len(body) / 2
			_, _ = w.Write(body[:n])
			if f, ok := w.(http.Flusher); ok {
				f.Flush()
			}
			if how != "head" {
				time.Sleep(pause)
			}
			_, _ = w.Write(body[n:])
		})
		defer c.EndScenario(s)
		k.Write("conf.yml", configYAML(nil, []dbEntry{{URL: c.URL(s, "/all.zip")}}))
		for _, args := range [][]string{{"--json"}, {"--json", "--offline"}} {
			args = append(args, "--use-dbs=false", "--config", "conf.yml", "--parse-as", "csv-row", "npm,,alpha,1.0.0")
			res := k.RunX(Run{Args: args, Limit: 300 * time.Second})
			out, err := parseOut(res.Out)
			if err != nil || len(out.Results) != 1 || len(out.Results[0].Packages) != 1 || res.Exit != 1 {
				k.Violate("an archive of %d bytes (%s, taking %s) gave %.2000s", len(body), how, pause, res)
				return
			}
			if s := diff(want, ids(out.Results[0].Packages[0].Vulns)); s != "" {
				k.Violate("an archive of %d bytes (%s, taking %s) gave %s", len(body), how, pause, s)
				return
			}
		}
		c.Mark("slow_archives", how)
		c.Seen(true, fmt.Sprint("slow", i))
	})
}

func c13History(c *Ctx, i int, r *R, straceOK, sure bool) (failed bool) {
	k := c.NewCase()
	defer k.Done()
	clock := 10
	var mu sync.Mutex
	names := []string{"/all.zip", "/All.zip", "/all.zip?x=1.zip", "/npm/all.zip", "/all.zip?x=2.zip", "/all.zip/", "/all.zip.zip", "//all.zip"}
	shuffle(r, names)
	nURL := r.Range(1, 3)
	var urls []*srvURL
	verSeq := 0
	change := func(u *srvURL) {
		verSeq++
		// an archive of the same size, in the same second, is another one all the same
		same := u.etag != "" && !u.noDate && r.P(.4)
		if !same {
			clock++
		}
		u.ver = verSeq
		u.lastMod = clock
		u.garbage = false
		files := map[string]string{}
		u.ids = map[string][]string{}
		for _, wd := range []string{"a", "b"} {
			n := r.Range(0, 2)
			if same {
				n = len(u.was[wd])
			}
			for j := range n {
				id := fmt.Sprintf("V%03d-%s-%d", u.ver, wd, j)
				files[wd+"/"+id+".json"] = allVersions(id, "npm", "alpha").JSON()
				u.ids[wd] = append(u.ids[wd], id)
				u.ids[""] = append(u.ids[""], id)
			}
		}
		id := fmt.Sprintf("V%03d", u.ver)
		files[id+".json"] = allVersions(id, "npm", "alpha").JSON()
		u.ids[""] = append(u.ids[""], id)
		order := sortedKeys(files)
		shuffle(r, order)
		u.body = zipBytes(files, order, u.store)
		u.was = u.ids
		if r.P(.06) {
			u.garbage = true
			u.body = []byte(r.Pick("", "<html>", "PK garbage"))
			u.ids = nil
		}
		if same || r.P(.75) {
			u.etag = fmt.Sprintf(`%s"%sv%d%s"`, r.Pick("", "W/"), r.Pick("", "", "", "sha1:", "a,b "), u.ver, r.Pick("", "", "-gzip", ";br", "--", "=="))
		} else {
			u.etag = ""
		}
		u.noDate = !same && r.P(.25)
		// headers that play no role
		u.extra = map[string]string{}
		if r.P(.4) {
			u.extra["Last-Modified"] = logical(u.lastMod - 5)
		}
		if r.P(.3) {
			u.extra["Cache-Control"] = r.Pick("max-age=1000000", "public, max-age=86400, immutable", "no-store", "no-cache", "private", "must-revalidate")
		}
		if r.P(.15) {
			u.extra["Expires"] = r.Pick("Fri, 01 Jan 2100 00:00:00 GMT", "0")
		}
		if r.P(.15) {
			u.extra["Age"] = "3600"
			u.extra["Vary"] = r.Pick("*", "Accept-Encoding")
		}
	}
	for j := range nURL {
		u := &srvURL{name: names[j], mode: "ok", store: r.P(.8)}
		change(u)
		urls = append(urls, u)
	}
	find := func(p string) *srvURL {
		for _, u := range urls {
			if p == u.name || p == "/moved"+u.name {
				return u
			}
		}
		return nil
	}
	served := map[string][]map[string][]string{} // everything given with status 200, by URL
	type rec struct {
		u        *srvURL
		inm, ims string
		status   int // 0 = broken transfer
	}
	var recs []rec
	type seenHdr struct{ ETag, Date string }
	lastHdr := map[*srvURL]seenHdr{}
	s := c.Scenario(func(w http.ResponseWriter, q *Req) {
		mu.Lock()
		defer mu.Unlock()
		u := find(q.Path)
		if u == nil {
			http.Error(w, "?", http.StatusNotFound)
			return
		}
		re := rec{u: u, inm: q.Header.Get("If-None-Match"), ims: q.Header.Get("If-Modified-Since"), status: 200}
		date := logical(clock)
		setHead := func() {
			for n, v := range u.extra {
				w.Header().Set(n, v)
			}
			if u.etag != "" {
				w.Header().Set("ETag", u.etag)
			}
			if u.noDate {
				w.Header()["Date"] = nil
			} else {
				w.Header().Set("Date", date)
			}
		}
		add := func() { recs = append(recs, re) }
		mode := u.mode
		if mode == "redirect" {
			if !strings.HasPrefix(q.Path, "/moved") {
				w.Header().Set("Location", c.URL(&Scenario{Token: strings.Split(strings.TrimPrefix(q.URL, "http://"+c.net.Addr+"/r/"), "/")[0]}, "/moved"+u.name))
				w.WriteHeader(http.StatusFound)
				return
			}
			mode = "ok"
		}
		switch mode {
		case "ok":
			if re.inm != "" && re.inm == u.etag || re.inm == "" && re.ims != "" && u.etag == "" && re.ims >= "" && imsOK(re.ims, u.lastMod) {
				re.status = 304
			}
		case "ignore": // does not do conditional requests
		case "always304":
			re.status = 304
		case "cut", "cutchunk":
			re.status = 0
			add()
			if mode == "cut" {
				n := r.IntN(len(u.body) + 1)
				if n == len(u.body) && n > 0 {
					n--
				}
				abort(w, fmt.Sprintf("HTTP/1.1 200 OK\r\nETag: \"cut\"\r\nDate: %s\r\nContent-Length: %d\r\n\r\n%s", date, len(u.body)+1, u.body[:n]))
				return
			}
			abort(w, fmt.Sprintf("HTTP/1.1 200 OK\r\nETag: \"cut\"\r\nTransfer-Encoding: chunked\r\n\r\n%x\r\n%s\r\n", len(u.body)+1, u.body))
			return
		case "drop":
			re.status = 0
			add()
			abort(w, "")
			return
		default:
			fmt.Sscan(mode, &re.status)
		}
		add()
		switch re.status {
		case 304:
			setHead()
			w.WriteHeader(304)
		case 200:
			setHead()
			lastHdr[u] = seenHdr{u.etag, map[bool]string{true: "", false: date}[u.noDate]}
			served[u.name] = append(served[u.name], u.ids)
			_, _ = w.Write(u.body)
		default:
			setHead()
			w.WriteHeader(re.status)
			_, _ = w.Write(u.body) // even with a good archive, this is not an answer to use
		}
	})
	defer c.EndScenario(s)
	// which databases are configured
	type use struct {
		u  *srvURL
		wd string
	}
	var uses []use
	var es []dbEntry
	for _, u := range urls {
		wd := r.Pick("", "", "a", "b")
		uses = append(uses, use{u, wd})
		if r.P(.2) {
			uses = append(uses, use{u, map[string]string{"": "a", "a": "b", "b": ""}[wd]})
		}
	}
	shuffle(r, uses)
	for _, x := range uses {
		es = append(es, dbEntry{URL: c.URL(s, x.u.name), Type: "zip", WD: x.wd})
	}
	k.Write("p/.osv-detector.yml", configYAML(nil, es))
	k.Write("p/p.csv", csvRow("npm", "", "alpha", "1.0.0"))
	tmp := filepath.Join(k.Dir, "tmp")
	cacheFile := func(u *srvURL) string {
		l, _ := os.ReadDir(tmp)
		for _, f := range l {
			b, err := os.ReadFile(filepath.Join(tmp, f.Name()))
			var x struct {
				URL string `json:"url"`
			}
			if err == nil && json.Unmarshal(b, &x) == nil && x.URL == c.URL(s, u.name) {
				return filepath.Join(tmp, f.Name())
			}
		}
		return ""
	}
	model := map[*srvURL]*cacheM{}
	crashed := map[*srvURL]bool{} // unknown, but only since runs were killed
	damaged := map[*srvURL]bool{} // the stored body was damaged behind a valid envelope
	unknown := map[*srvURL]bool{} // concurrent runs may have left anything that they downloaded
	blocked := map[*srvURL]string{}
	args := []string{"--json", "--use-dbs=false", "csv-file:p/p.csv"}
	interesting := false
	var hist []string
	killed := false
	fail := func(res Res, f string, a ...any) {
		failed = killed
		if killed && !sure {
			return
		}
		k.Note("history: %s", strings.Join(hist, "; "))
		k.Violate("step %d (%s): %s\n%s", len(hist), hist[len(hist)-1], fmt.Sprintf(f, a...), res)
	}
	got := func(res Res) ([]string, bool) {
		out, err := parseOut(res.Out)
		if err != nil || res.Crashed() || res.Hang || len(out.Results) != 1 || len(out.Results[0].Packages) != 1 {
			fail(res, "unexpected outcome: %v", err)
			return nil, false
		}
		return ids(out.Results[0].Packages[0].Vulns), true
	}
	judge := func(res Res, want []string, errs int) bool {
		g, ok := got(res)
		if !ok {
			return false
		}
		if d := diff(want, g); d != "" {
			fail(res, "findings: %s", d)
			return false
		}
		exp := 0
		switch {
		case errs > 0:
			exp = 127
		case len(want) > 0:
			exp = 1
		}
		if res.Exit != exp {
			fail(res, "exit code %d instead of %d", res.Exit, exp)
			return false
		}
		if n := strings.Count(string(res.Err), "failed: "); n != errs {
			fail(res, "%d databases are reported as failed instead of %d", n, errs)
			return false
		}
		return true
	}
	uniq := func(l []string) []string { slices.Sort(l); return slices.Compact(l) }
	for range r.Range(5, 14) {
		switch op := r.IntN(100); {
		case op < 18: // the server changes
			u := pick(r, urls)
			change(u)
			hist = append(hist, fmt.Sprintf("%s is now version %d etag=%s nodate=%v garbage=%v", u.name, u.ver, u.etag, u.noDate, u.garbage))
		case op < 34:
			u := pick(r, urls)
			u.mode = pick(r, []string{"ok", "ok", "ok", "ignore", "always304", "cut", "cutchunk", "drop", "redirect", "STATUS", "STATUS", "STATUS", "STATUS"})
			if u.mode == "STATUS" {
				u.mode = fmt.Sprint(r.BadCode())
				if u.mode == "304" {
					u.mode = "always304"
				}
			}
			hist = append(hist, u.name+" behaves as "+u.mode)
			c.Mark("server_modes", u.mode)
		case op < 50: // something happens to a cache file
			u := pick(r, urls)
			f := cacheFile(u)
			if f == "" || blocked[u] != "" || unknown[u] {
				continue
			}
			b, err := os.ReadFile(f)
			must(err)
			kind := r.Pick("delete", "truncate", "empty", "garbage", "null", "types", "base64", "body", "dir")
			m := (*cacheM)(nil)
			nb := b
			switch kind {
			case "delete":
				must(os.Remove(f))
				nb = nil
			case "truncate":
				nb = b[:r.IntN(len(b)-1)]
			case "empty":
				nb = []byte{}
			case "garbage":
				nb = []byte(r.Str("{}[]\":,x\x00\xff", 1, 40) + "}")
			case "null":
				nb = []byte("null")
			case "types":
				var x map[string]any
				must(json.Unmarshal(b, &x))
				x[r.Pick("etag", "date", "url", "body")] = pick(r, []any{5, true, map[string]any{}})
				nb = []byte(toJSON(x))
			case "base64":
				at := bytes.Index(b, []byte(`"body":"`)) + len(`"body":"`)
				nb = slices.Concat(b[:at], []byte("!"), b[at:])
			case "body":
				var x map[string]any
				must(json.Unmarshal(b, &x))
				raw, _ := base64.StdEncoding.DecodeString(fmt.Sprint(x["body"]))
				if len(raw) > 0 {
					raw = raw[:r.IntN(len(raw))]
				}
				x["body"] = base64.StdEncoding.EncodeToString(raw)
				nb = []byte(toJSON(x))
				if model[u] != nil {
					m = &cacheM{model[u].etag, model[u].date, nil}
				}
				damaged[u] = true
			case "dir":
				must(os.Remove(f))
				must(os.Mkdir(f, 0o755))
				blocked[u] = f
				nb = nil
			}
			if nb != nil {
				must(os.WriteFile(f, nb, 0o644))
			}
			if kind != "body" {
				damaged[u] = false
			}
			model[u] = m
			hist = append(hist, fmt.Sprintf("cache of %s: %s", u.name, kind))
			c.Mark("cache_faults", kind)
		case op < 54: // concurrent runs, while the server is changing
			if len(blocked) > 0 {
				continue
			}
			for _, u := range urls {
				u.mode = r.Pick("ok", "ignore")
			}
			hist = append(hist, "three concurrent runs")
			var wg sync.WaitGroup
			rs := make([]Res, 3)
			for j := range rs {
				wg.Add(1)
				go func() { defer wg.Done(); rs[j] = c.exec(Run{Dir: k.Dir, Args: args}) }()
			}
			if r.P(.5) {
				mu.Lock()
				change(urls[0])
				mu.Unlock()
			}
			wg.Wait()
			for _, res := range rs {
				if _, ok := got(res); !ok {
					return
				}
				if res.Crashed() {
					fail(res, "crashed")
					return
				}
			}
			for _, u := range urls {
				unknown[u] = true
				crashed[u] = false
				model[u] = nil
				damaged[u] = false
			}
			recs = nil
			c.Count("concurrent_steps", 1)
		case op < 58 && straceOK: // a run is killed at some system call
			clock++
			set := r.Pick("openat", "openat", "write", "write", "rename,renameat,renameat2,unlink,unlinkat,link,linkat,ftruncate,fsync,chmod,fchmod,fchmodat", "close", "openat,write,close")
			when := r.Range(1, 8)
			var only string
			if f := cacheFile(pick(r, urls)); f != "" && r.P(.6) { // at some system call on one of the caches
				only = "-P " + f
				set = "openat,read,write,close,fstat,newfstatat,rename,renameat,renameat2,unlinkat,ftruncate"
			}
			hist = append(hist, fmt.Sprintf("a run that is killed at the %d. %s %s", when, set, only))
			recs = nil
			killed = true
			res := k.RunX(Run{Args: args, Wrap: []string{"/bin/bash", "-c", fmt.Sprintf(`strace -f -qq -o "$TMPDIR/../strace.out" %s -e trace=%s -e inject=%s:signal=KILL:when=%d "$0" "$@"; [ $? = 137 ] && echo KILLED; exit 0`, only, set, set, when)}})
			c.Count("killed_runs", 1)
			if strings.HasSuffix(string(res.Out), "KILLED\n") {
				c.Count("killed_runs_that_died", 1)
				if q, err := http.Get(c.URL(s, "/ping")); err == nil { // what was sent before has been accepted now
					_ = q.Body.Close()
				}
				time.Sleep(30 * time.Millisecond)
				mu.Lock()
				if len(recs) > 0 {
					c.Count("killed_runs_that_died_after_requests", 1)
				}
				mu.Unlock()
				if l, _ := os.ReadDir(tmp); slices.ContainsFunc(l, func(e os.DirEntry) bool {
					i, err := e.Info()
					return err == nil && i.Mode().IsRegular() && i.Size() == 0
				}) {
					c.Count("killed_runs_leaving_empty_files", 1)
				}
			}
			for _, u := range urls {
				if !unknown[u] && !damaged[u] {
					crashed[u] = true
				}
				unknown[u] = true
				model[u] = nil
				damaged[u] = false
			}
		case op < 74: // offline
			hist = append(hist, "offline run")
			s.Reset()
			res := k.Run(append([]string{"--offline"}, args...)...)
			if a := s.Activity(); len(a) > 0 {
				fail(res, "requests were made: %v", a)
				return
			}
			var want []string
			errs := 0
			anyUnknown := false
			for _, x := range uses {
				m := model[x.u]
				anyUnknown = anyUnknown || unknown[x.u]
				if m == nil || m.ids == nil {
					errs++
					continue
				}
				interesting = true
				want = append(want, m.ids[x.wd]...)
			}
			if anyUnknown {
				g, ok := got(res)
				if !ok {
					return
				}
				// of each archive that is not known, either nothing or exactly one version that was downloaded
				left := map[string]bool{}
				for _, id := range g {
					left[id] = true
				}
				for _, id := range want {
					if !slices.Contains(g, id) {
						fail(res, "%s of a known archive is missing", id)
						return
					}
					delete(left, id)
				}
				for _, u := range urls {
					if !unknown[u] {
						continue
					}
					whole, part := false, ""
					for _, v := range served[u.name] {
						var all, there []string
						for _, x := range uses {
							if x.u == u {
								all = append(all, v[x.wd]...)
							}
						}
						all = uniq(all)
						for _, id := range all {
							if left[id] {
								there = append(there, id)
								delete(left, id)
							}
						}
						if len(there) == len(all) {
							whole = true
						} else if len(there) > 0 {
							part = diff(all, there)
						}
					}
					if part != "" {
						fail(res, "a part of a version of %s: %s", u.name, part)
						return
					}
					if !whole && res.Exit != 127 {
						fail(res, "no version of %s is in the findings, yet nothing is reported", u.name)
						return
					}
				}
				for id := range left {
					fail(res, "%s was never downloaded", id)
					return
				}
				c.Count("offline_runs_unknown", 1)
				continue
			}
			if !judge(res, uniq(want), errs) {
				return
			}
			c.Count("offline_runs", 1)
		default:
			hist = append(hist, "online run")
			clock++
			recs = nil
			env := []string(nil)
			lost := r.P(.04)
			if lost { // no place for caches
				env = []string{"TMPDIR=" + filepath.Join(k.Dir, "nowhere")}
				hist[len(hist)-1] += " without a temporary directory"
			}
			var wrap []string
			full := !lost && r.P(.05)
			if full { // no room for caches
				wrap = fullDisk(0)
				hist[len(hist)-1] += " with a full disk"
				c.Count("full_disk_runs", 1)
			}
			res := k.RunX(Run{Args: args, Env: env, Wrap: wrap})
			var want []string
			errs := 0
			fuzzy := false
			for _, u := range urls {
				var wds []string
				for _, x := range uses {
					if x.u == u {
						wds = append(wds, x.wd)
					}
				}
				x := struct {
					u *srvURL
				}{u}
				take := func(ids map[string][]string) {
					for _, wd := range wds {
						want = append(want, ids[wd]...)
					}
				}
				m := model[u]
				if lost {
					m = nil
				}
				at := slices.IndexFunc(recs, func(q rec) bool { return q.u == u })
				if at < 0 {
					fail(res, "no request was made for %s", u.name)
					return
				}
				q := recs[at]
				switch {
				case crashed[x.u] && unknown[x.u] && !lost: // whatever there is, the result is that of the server
				case unknown[x.u] && !lost, damaged[x.u] && !lost:
					fuzzy = true
				case m == nil:
					if q.inm != "" || q.ims != "" {
						fail(res, "%s was requested with If-None-Match %q and If-Modified-Since %q, but there is no usable cache", x.u.name, q.inm, q.ims)
						return
					}
				case q.inm != m.etag || q.ims != m.date:
					fail(res, "%s was requested with If-None-Match %q and If-Modified-Since %q, but the cache has %q and %q", x.u.name, q.inm, q.ims, m.etag, m.date)
					return
				}
				c.Count(fmt.Sprintf("answers_%d", q.status), 1)
				switch q.status {
				case 200:
					h := lastHdr[x.u]
					if !lost && blocked[x.u] == "" {
						if h.ETag != "" || h.Date != "" {
							model[x.u] = &cacheM{h.ETag, h.Date, x.u.ids}
							damaged[x.u], unknown[x.u], crashed[x.u] = false, false, false
						}
						if full { // the former one may be kept or be gone, even when there is no validator for the new one
							model[x.u], unknown[x.u], crashed[x.u] = nil, true, false
						}
					}
					if x.u.ids == nil {
						errs += len(wds)
					} else {
						take(x.u.ids)
					}
				case 304:
					switch {
					case unknown[x.u] && !lost:
						// it has a validator that matches, so it is the current archive (or what is there is unusable)
						if x.u.mode == "always304" {
							hist = append(hist, "unknown cache with always304")
							return
						}
						if x.u.ids != nil {
							take(x.u.ids)
						} else {
							errs += len(wds)
						}
					case damaged[x.u] && !lost:
						errs += len(wds)
					case m == nil || m.ids == nil:
						errs += len(wds)
					default:
						interesting = true
						take(m.ids)
					}
				default:
					errs += len(wds)
				}
			}
			if fuzzy {
				g, ok := got(res)
				if !ok {
					return
				}
				if d := diff(uniq(want), g); d != "" && res.Exit != 127 {
					fail(res, "findings: %s", d)
					return
				}
				for _, id := range g {
					if !slices.Contains(want, id) {
						fail(res, "%s is not part of what the server has", id)
						return
					}
				}
				c.Count("online_runs_after_damage", 1)
				continue
			}
			if !judge(res, uniq(want), errs) {
				return
			}
			c.Count("online_runs", 1)
		}
	}
	c.Count("steps", len(hist))
	c.Seen(interesting, fmt.Sprint(hist))
	if i == 0 {
		c.Sample(map[string]any{"history": hist})
	}
	return failed
}

func imsOK(ims string, lastMod int) bool {
	t, err := http.ParseTime(ims)
	return err == nil && !t.Before(c13Epoch.Add(time.Duration(lastMod)*time.Hour))
}

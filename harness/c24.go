package main

import (
	"fmt"
	"net/http"
	"net/url"
	"path"
	"regexp"
	"slices"
	"strings"
)

func init() {
	checks["C24"] = check{level: "exploration", net: true, f: checkC24}
	checks["C25"] = check{level: "exploration", net: true, f: checkC25}
}

// the ecosystems of the world and some that the detector does not know
var osvEcos = append(sortedKeys(worldVersions), "Rocky Linux", "made-up", "Debian:11", "Debian")

func checkC24(c *Ctx) {
	c.Rule = "worlds of lockfiles and CSV files with many ecosystems (with suffixes, spaces, unknown ones), broken lockfiles, configs that name databases of osv.dev themselves, and every combination of --use-dbs, --use-api, OSV_DETECTOR_PREFER_API and the config flags; a fake osv.dev records all requests and answers with different advisories per ecosystem and from the API; the downloads have to be exactly one per ecosystem in use, the API queries exactly the packages of each lockfile, and the findings of each lockfile those of its own ecosystems' databases; non-trivial when osv.dev is used or switched off explicitly; distinct by world and flags"
	c.Each("defaults", c.N(1800, 30000), func(i int, r *R) {
		w := newWorld(c, r, worldOpts{zips: true, dirs: 4, many: .015, broken: .08, invalid: .04})
		k := w.k
		defer w.Done()
		// CSV files with more ecosystems, and packages that only have a commit
		commits := map[string]bool{}
		for j := range r.IntN(3) {
			var pk []refPkg
			for range r.Range(1, 7) {
				e := pick(r, osvEcos)
				p := refPkg{Eco: e, Name: worldName(e, pick(r, worldNames)), Ver: r.Pick("1.0.0", "1.2.0", "0.9.0")}
				if worldVersions[e] != nil {
					p.Ver = pick(r, worldVersions[e])
				} else {
					p.As = r.Pick("npm", "crates.io")
				}
				if r.P(.12) {
					p.Ver = ""
				}
				if !slices.ContainsFunc(pk, func(q refPkg) bool { return q.key() == p.key() }) {
					pk = append(pk, p)
				}
			}
			f := &wFile{dir: "csv" + fmt.Sprint(j), parser: "csv-file", pkgs: pk}
			f.path = f.dir + "/p.csv"
			f.arg = "csv-file:" + f.path
			s := mkLock("csv-file", pk)
			if r.P(.3) {
				sha := r.Sha()
				commits[sha] = true
				s += csvRow("", "", "by-commit", sha) + "\n"
			}
			k.Write(f.path, s)
			w.Conf[f.dir] = &wConfig{}
			w.Files = append(w.Files, f)
		}
		shuffle(r, w.Files)
		adv := map[string][]OSV{}
		zips := map[string][]byte{}
		for _, e := range osvEcos {
			adv[e] = worldAdvs(r, "osv-"+e, w.IDs, 0)
			for _, n := range worldNames { // one that only this database has
				adv[e] = append(adv[e], OSV{ID: "ONLY-" + strings.ReplaceAll(e, " ", "-") + "-" + n, Affected: []Affected{{Package: Pkg{worldName(e, n), e}, Ranges: []Rng{{"ECOSYSTEM", []Event{{"introduced": "0"}}}}}}})
			}
			if r.P(.93) {
				zips[e] = zipOf(r, advFiles(r, adv[e]))
			}
		}
		apiAdvs := []OSV{}
		for _, e := range osvEcos {
			for _, n := range worldNames {
				if r.P(.4) {
					apiAdvs = append(apiAdvs, allVersions("API-"+strings.ReplaceAll(e, " ", "-")+"-"+n, e, worldName(e, n)))
				}
			}
		}
		apiAdvs = append(apiAdvs, OSV{ID: "API-COMMIT"})
		api := apiHandler(apiAdvs, func(q apiQ) []string {
			if q.Commit != "" {
				return []string{"API-COMMIT"}
			}
			var l []string
			for _, a := range apiAdvs {
				for _, f := range a.Affected {
					if f.Package.Ecosystem == q.Package.Ecosystem && f.Package.Name == q.Package.Name {
						l = append(l, a.ID)
					}
				}
			}
			return l
		})
		zipHost := osvHost(nil, zips)
		osv := c.Scenario(func(w http.ResponseWriter, q *Req) {
			if q.Host == "api.osv.dev" {
				api(w, q)
				return
			}
			if u, err := url.PathUnescape(q.Path); err == nil {
				q2 := *q
				q2.Path = u
				zipHost(w, &q2)
				return
			}
			http.Error(w, "bad", 400)
		})
		defer c.EndScenario(osv)
		const base = "https://osv-vulnerabilities.storage.googleapis.com/"
		// configs that name a database of osv.dev, too
		own := map[string][]string{}
		for _, d := range sortedKeys(w.Conf) {
			cf := w.Conf[d]
			if cf.invalid != "" || !r.P(.25) || slices.Contains([]string{"csv0", "csv1", "csv2"}, d) {
				continue
			}
			e := pick(r, sortedKeys(worldVersions))
			own[d] = []string{e}
			var es []dbEntry
			for _, x := range cf.dbs {
				es = append(es, w.DBs[x].entry)
			}
			x := dbEntry{URL: base + e + "/all.zip"}
			if r.P(.5) {
				x.Name = "mine"
			}
			at := r.IntN(len(es) + 1)
			es = append(es[:at:at], append([]dbEntry{x}, es[at:]...)...)
			cf.path = path.Join(d, ".osv-detector.yml")
			k.Write(cf.path, configYAML(cf.ignores, es))
			c.Mark("modes", "config names osv.dev")
		}
		// flags
		var args, env []string
		prefer := false
		switch r.IntN(6) {
		case 0, 1:
			env = append(env, "OSV_DETECTOR_PREFER_API=true")
			prefer = true
		case 2:
			v := r.Pick("", "false", "1", "TRUE", "yes", "True", " true")
			env = append(env, "OSV_DETECTOR_PREFER_API="+v)
		}
		useDBs, useAPI := !prefer, prefer
		mode := fmt.Sprint(env)
		if r.P(.45) {
			useDBs = r.P(.5)
			args = append(args, pick(r, map[bool][]string{true: {"--use-dbs", "-use-dbs=true", "--use-dbs=1"}, false: {"--use-dbs=false", "-use-dbs=0"}}[useDBs]))
			mode += fmt.Sprint(" dbs=", useDBs)
		}
		if r.P(.45) {
			useAPI = r.P(.6)
			args = append(args, pick(r, map[bool][]string{true: {"--use-api", "-use-api=true"}, false: {"--use-api=false", "-use-api=F"}}[useAPI]))
			mode += fmt.Sprint(" api=", useAPI)
		}
		c.Mark("modes", mode)
		global := r.P(.2)
		var gdbs []int
		if global {
			gc := &wConfig{}
			k.Write("global.yml", w.genConfigContent(gc, worldOpts{}))
			gdbs = gc.dbs
			args = append(args, "--config=global.yml")
			c.Mark("modes", "--config")
		}
		noDBs, noConf := r.P(.15), r.P(.1)
		if noDBs {
			args = append(args, "--no-config-databases")
		}
		if noConf {
			args = append(args, "--no-config")
		}
		shuffle(r, args)
		cmd := append([]string{"--json", "--no-config-ignores"}, args...)
		for _, f := range w.Files {
			cmd = append(cmd, f.arg)
		}
		res := k.RunX(Run{Args: cmd, Env: env, Token: osv.Token})
		out, err := parseOut(res.Out)
		if err != nil || res.Crashed() {
			k.Violate("%v: %s", err, res)
			return
		}
		at, vulns, failed := 0, 0, false
		used := map[string]bool{}
		var queries []string
		for _, f := range w.Files {
			if f.broken != "" || w.Conf[f.dir].invalid != "" && !noConf && !global {
				failed = true
				continue
			}
			if at >= len(out.Results) {
				k.Violate("there is no result for %s", f.path)
				return
			}
			o := out.Results[at]
			at++
			if o.FilePath != f.path {
				k.Violate("result for %s, expected one for %s", o.FilePath, f.path)
				return
			}
			var dbs []int
			var ecos []string
			if !noDBs && !noConf {
				dbs = w.Conf[f.dir].dbs
				if global {
					dbs = gdbs
				} else {
					ecos = append(ecos, own[f.dir]...)
				}
			}
			if useDBs {
				for _, p := range f.pkgs {
					ecos = append(ecos, p.Eco)
				}
			}
			for _, e := range ecos {
				used[e] = true
				failed = failed || zips[e] == nil
			}
			by := map[string]refPkg{}
			for _, p := range f.pkgs {
				by[p.key()] = p
			}
			for _, p := range o.Packages {
				if useAPI {
					q := p.Ecosystem + "|" + p.Name + "|" + p.Version + "|" + p.Commit
					if p.Version == "" && p.Commit == "" {
						q = "|||" // nothing that could be asked for
					}
					queries = append(queries, q)
				}
				if commits[p.Commit] {
					want := []string{}
					if useAPI {
						want = append(want, "API-COMMIT")
					}
					if s := diff(want, ids(p.Vulns)); s != "" {
						k.Violate("%s: a package with a commit: %s", f.path, s)
						return
					}
					vulns += len(want)
					continue
				}
				q, ok := by[p.Key()]
				if !ok {
					k.Violate("%s: unexpected package %s", f.path, p.Key())
					return
				}
				want, _ := w.expect(q, dbs, nil)
				for j, e := range ecos {
					if zips[e] == nil || slices.Contains(ecos[:j], e) {
						continue
					}
					for _, a := range adv[e] {
						if refAffected(a, q) && !slices.Contains(want, a.ID) {
							want = append(want, a.ID)
						}
					}
				}
				if useAPI && q.Ver != "" {
					for _, a := range apiAdvs {
						for _, x := range a.Affected {
							if x.Package.Ecosystem == q.Eco && x.Package.Name == q.Name {
								want = append(want, a.ID)
							}
						}
					}
				}
				if s := diff(want, ids(p.Vulns)); s != "" {
					k.Violate("%s: %s with the databases of %q (API: %v): %s", f.path, p.Key(), ecos, useAPI, s)
					return
				}
				vulns += len(want)
				c.Count("packages_judged", 1)
			}
			if n := len(o.Packages); n != len(f.pkgs) && n != len(f.pkgs)+1 {
				k.Violate("%s: %d packages", f.path, n)
				return
			}
			c.Count("files_judged", 1)
		}
		if at != len(out.Results) {
			k.Violate("%d results instead of %d", len(out.Results), at)
			return
		}
		want := 0
		if vulns > 0 {
			want = 1
		}
		if failed {
			want = 127
		}
		if res.Exit != want {
			k.Violate("exit code %d, expected %d (%d vulnerabilities, failures: %v)", res.Exit, want, vulns, failed)
			return
		}
		var got, asked, wantURLs []string
		for _, q := range osv.Requests() {
			switch {
			case q.Host == "api.osv.dev" && q.Path == "/v1/querybatch":
				qs, _ := parseBatch(q.Body)
				for _, x := range qs {
					asked = append(asked, x.Package.Ecosystem+"|"+x.Package.Name+"|"+x.Version+"|"+x.Commit)
				}
			case q.Host == "api.osv.dev" && strings.HasPrefix(q.Path, "/v1/vulns/"):
			default:
				u, _ := url.PathUnescape(q.URL)
				got = append(got, u)
			}
		}
		for _, e := range sortedKeys(used) {
			wantURLs = append(wantURLs, base+e+"/all.zip")
		}
		if s := diff(wantURLs, got); s != "" {
			k.Violate("downloads: %s", s)
			return
		}
		// a name of a package with a commit is sent or not
		strip := func(l []string) []string {
			var t []string
			for _, x := range l {
				if p := strings.Split(x, "|"); p[3] != "" {
					x = "||| " + p[3]
				}
				t = append(t, x)
			}
			return t
		}
		if s := diff(strip(queries), strip(asked)); s != "" {
			k.Violate("queries to the API: %s", s)
			return
		}
		c.Count("downloads_seen", len(got))
		c.Count("queries_seen", len(asked))
		c.Seen(true, fmt.Sprint(mode, args, i))
		if i == 0 {
			c.Sample(map[string]any{"args": cmd, "env": env, "downloads": got})
		}
	})
}

func checkC25(c *Ctx) {
	c.Rule = "configs with database entries that name directories (relative, parent and absolute file URLs with escapes), remote archives (with and without .zip, with and without a type) and APIs, with working directories, names, repeated entries and entries of the wrong type, written in different YAML styles; each source has advisories that nothing else has, so the findings show what was read; the requests, the findings, the databases named in the text output and the exit code are compared with a reference; non-trivial when an entry is usable; distinct by config"
	c.Assume = []string{"relative file URLs are relative to the current directory, as the documentation's examples and the code have it"}
	c.Each("entries", c.N(2500, 40000), func(i int, r *R) {
		k := c.NewCase()
		defer k.Done()
		const lock = "npm,,alpha,1.0.0\n"
		sub := r.Pick("proj", "a/b", "proj x", "a/b/c/d/e", "$HOME/x")
		k.Write(path.Join(sub, "p.csv"), lock)
		type src struct {
			url     string
			escaped bool
			kind    string // what it is
			files   map[string]string
			scen    *Scenario
		}
		n := 0
		files := func(tag string) map[string]string {
			m := map[string]string{}
			for _, d := range []string{"", "in", "in/deep", "inner", "other", `in\deep`, "$X"} {
				if r.P(.7) {
					n++
					m[path.Join(d, fmt.Sprintf("%d.json", n))] = allVersions(strings.ReplaceAll(fmt.Sprintf("%s-%s-%d", tag, strings.NewReplacer("/", "_", `\`, "+").Replace(d), n), "--", "-"), "npm", "alpha").JSON()
				}
			}
			return m
		}
		var srcs []*src
		for j := range r.Range(1, 4) {
			tag := fmt.Sprintf("S%d", j)
			s := &src{}
			if r.P(.06) { // without a slash this is not a directory but, without a type, an API
				s.kind = "nothing"
				k.Write(fmt.Sprintf("o%d/1.json", j), allVersions(tag+"-none", "npm", "alpha").JSON())
				k.Write(fmt.Sprintf("o%d/in/1.json", j), allVersions(tag+"-none", "npm", "alpha").JSON())
				k.Write("in/1.json", allVersions("none", "npm", "alpha").JSON())
				s.url = r.Pick("file:", "FILE:/", "files:/", "file+zip:/", "dir:") + fmt.Sprintf("o%d", j)
				srcs = append(srcs, s)
				continue
			}
			switch r.IntN(4) {
			case 0, 1:
				s.kind = "dir"
				s.files = files(tag)
				dir := r.Pick("dbs", "d b", "é", "x.zip", "a%b", "q", "v1", "$HOME", "${X}", "~", `w\in`) + fmt.Sprint(j) + r.Pick("", "", ".zip")
				form := r.IntN(4)
				esc := (&url.URL{Path: dir}).EscapedPath()
				switch form {
				case 0, 1:
					k.Mkdir(dir)
					k.WriteAll(dir, s.files)
					s.url = "file:/" + r.Pick("", "./", sub2(sub)) + esc
					if form == 1 {
						s.url = "file:///" + esc
					}
				case 2: // beside the current directory
					k.Mkdir("../" + dir)
					k.WriteAll("../"+dir, s.files)
					s.url = "file:/../" + esc
				case 3:
					k.Mkdir(dir)
					k.WriteAll(dir, s.files)
					s.url = "file:///" + (&url.URL{Path: k.Path(dir)}).EscapedPath()
				}
				c.Mark("url_forms", fmt.Sprint("file", form))
			case 2:
				s.kind = "zip"
				s.files = files(tag)
				s.scen = c.Scenario(serveBytes(zipOf(r, s.files)))
				s.url = c.URL(s.scen, r.Pick("/all.zip", "/x/y.zip", "/archive", "/a.zip/get", "/get?file=all.zip", "/get.zip?v=1", "/ALL.ZIP", "/file:/all.zip", "/get?from=file:/x"))
			case 3:
				s.kind = "api"
				a := allVersions(tag+"-api", "npm", "alpha")
				s.files = map[string]string{"": a.JSON()}
				h := apiHandler([]OSV{a}, func(q apiQ) []string { return []string{a.ID} })
				key := ""
				if r.P(.2) { // with a key, say, which each request needs
					key = r.Pick("?key=a%20b", "?v=1&x=%2F", "?x.zip=1")
					c.Mark("url_forms", "api with query")
				}
				s.scen = c.Scenario(func(w http.ResponseWriter, q *Req) {
					p, query, _ := strings.Cut(q.Path, "?")
					if query != strings.TrimPrefix(key, "?") {
						http.Error(w, "no such key", http.StatusForbidden)
						return
					}
					q2 := *q
					q2.Path = p
					h(w, &q2)
				})
				s.url = c.URL(s.scen, r.Pick("/v1", "", "/v1/", "/osv.zip/v1", "/api.zip", "/v1.ZIP", "/v1/x.Zip", "/v1zip", "/file:/v1", "/x/file:///v1")) + key
			}
			if s.scen != nil {
				defer c.EndScenario(s.scen)
			}
			srcs = append(srcs, s)
		}
		infer := func(u string) string {
			switch {
			case strings.HasPrefix(u, "file:/"):
				return "dir"
			case strings.HasSuffix(u, ".zip"):
				return "zip"
			}
			return "api"
		}
		// the entries
		var es []dbEntry
		type use struct {
			s    *src
			typ  string
			wd   string
			name string
		}
		var uses []use
		seen := map[string]bool{}
		failed, asked, usable := false, false, 0
		unknown := ""
		var want []string
		haveID := map[string]bool{}
		var requests = map[*src]int{}
		for range r.Range(1, 5) {
			s := pick(r, srcs)
			e := dbEntry{URL: s.url}
			if s.kind == "nothing" {
				if r.P(.3) {
					e.Type = "api"
				}
			} else {
				if infer(s.url) != s.kind || r.P(.3) {
					e.Type = s.kind
				}
				if r.P(.06) {
					e.Type = r.Pick("zip", "dir", "api", "")
				}
			}
			typ := orDefault(e.Type, infer(e.URL))
			if s.kind == "api" && typ == "zip" || s.kind == "zip" && typ == "api" {
				// what a server says to the wrong kind of request is not of interest here
				e.Type, typ = s.kind, s.kind
			}
			if s.kind != "api" && r.P(.4) {
				e.WD = r.Pick("in", "in/deep", "inner", "in/", "other", "./in", "in/./deep", "in//", "/in", "/in/deep", "//in", "other/../in", `in\deep`, "$X", "$X/")
			}
			if r.P(.4) {
				e.Name = r.Pick("mine", "a name", "npm", "x: y", "#1", "'q'", "100%d") + fmt.Sprint(r.IntN(3))
			}
			if r.P(.04) { // no such type
				e.Type = r.Pick(strings.ToUpper(typ), strings.ToUpper(typ[:1])+typ[1:], typ+" ", " "+typ, "git", "directory", "archive", "osv", "true", "0", "zip,dir")
				es = append(es, e)
				asked, unknown = true, e.Type
				c.Mark("entries", "unknown-type")
				continue
			}
			es = append(es, e)
			id := typ + "#" + e.URL
			if e.WD != "" {
				id += "#" + e.WD
			}
			if seen[id] {
				c.Mark("entries", "repeated")
				continue
			}
			seen[id] = true
			if typ != s.kind {
				c.Mark("entries", s.kind+" as "+typ)
				if typ == "api" { // only noticed when it is asked
					asked = true
					uses = append(uses, use{s, typ, e.WD, orDefault(e.Name, id)})
				} else {
					failed = true
				}
				continue
			}
			// what it holds
			in := 0
			for _, f := range sortedKeys(s.files) {
				if e.WD == "" || strings.HasPrefix(f, path.Clean("/" + e.WD)[1:]+"/") {
					a := regexp.MustCompile(`"id":\s*"([^"]*)"`).FindStringSubmatch(s.files[f])[1]
					if !haveID[a] {
						haveID[a] = true
						want = append(want, a)
					}
					in++
				}
			}
			if s.kind == "dir" && e.WD != "" && in == 0 {
				exists := false
				for f := range s.files {
					exists = exists || strings.HasPrefix(f, path.Clean("/" + e.WD)[1:]+"/")
				}
				if !exists {
					failed = true
					continue
				}
			}
			if s.scen != nil {
				requests[s]++
			}
			usable++
			uses = append(uses, use{s, typ, e.WD, orDefault(e.Name, id)})
			c.Mark("entries", fmt.Sprintf("%s type=%v wd=%v", s.kind, e.Type != "", e.WD != ""))
		}
		k.Write(path.Join(sub, r.Pick(".osv-detector.yml", ".osv-detector.yaml")), styledConfig(c, r, nil, es))
		arg := "csv-file:" + path.Join(sub, "p.csv")
		jres := k.Run("--json", "--use-dbs=false", arg)
		reqs := map[*src]int{}
		for _, s := range srcs {
			if s.scen != nil {
				for _, q := range s.scen.Requests() {
					p, _, _ := strings.Cut(q.Path, "?")
					if s.kind == "zip" || strings.HasSuffix(p, "/querybatch") {
						reqs[s]++
					}
				}
			}
		}
		tres := k.Run("--use-dbs=false", arg)
		out, err := parseOut(jres.Out)
		if err != nil || len(out.Results) != 1 || len(out.Results[0].Packages) != 1 {
			k.Violate("expected one result with one package: %v %s", err, jres)
			return
		}
		if s := diff(want, ids(out.Results[0].Packages[0].Vulns)); s != "" {
			k.Violate("findings of the databases %s: %s", toJSON(es), s)
			return
		}
		exit := 0
		if len(want) > 0 {
			exit = 1
		}
		if failed || asked && exit == 0 {
			exit = 127
		}
		if jres.Exit != exit || tres.Exit != exit {
			k.Violate("exit codes %d and %d, expected %d: %s", jres.Exit, tres.Exit, exit, jres)
			return
		}
		if unknown != "" && !strings.Contains(string(jres.Err), unknown) {
			k.Violate("the type %q is unknown, which is not reported: %s", unknown, jres)
			return
		}
		for _, s := range srcs {
			if s.scen != nil && reqs[s] != requests[s] {
				k.Violate("%s was requested %d times, expected %d", s.url, reqs[s], requests[s])
				return
			}
		}
		var names []string
		for _, u := range uses {
			names = append(names, u.name)
		}
		var got []string
		for _, l := range strings.Split(string(tres.Out), "\n") {
			if rest, ok := strings.CutPrefix(l, "  Using db "); ok {
				j := strings.LastIndex(rest, " (")
				got = append(got, rest[:max(j, 0)])
			}
		}
		if !eqStr(names, got) {
			k.Violate("the databases in use are %q, but the output names %q", names, got)
			return
		}
		c.Count("databases_used", len(uses))
		c.Count("findings_compared", len(want))
		c.Seen(usable > 0, toJSON(es)+fmt.Sprint(i))
		if i == 0 {
			c.Sample(map[string]any{"entries": es, "findings": want})
		}
	})
	c.Each("styles", c.N(1200, 20000), func(i int, r *R) {
		// the same settings in any YAML style mean the same
		k := c.NewCase()
		defer k.Done()
		k.Write("db/1.json", allVersions("A-1", "npm", "alpha").JSON())
		k.Write("db/x/2.json", allVersions("B: 2", "npm", "alpha").JSON())
		k.Write("db/x/3.json", allVersions("123", "npm", "alpha").JSON())
		k.Write("db/x/4.json", allVersions("#4", "npm", "alpha").JSON())
		k.Write("db/x/5.json", allVersions("yes", "npm", "alpha").JSON())
		k.Write("db2/6.json", allVersions("C-6", "npm", "alpha").JSON())
		all := []string{"A-1", "B: 2", "123", "#4", "yes", "C-6"}
		var ign []string
		for _, a := range append(all, "not-there", "A-1 ", "a-1") {
			if r.P(.4) {
				ign = append(ign, a)
			}
		}
		shuffle(r, ign)
		es := []dbEntry{{URL: "file:/db"}, {URL: "file:/db2", Name: "second"}}
		shuffle(r, es)
		k.Write("p/.osv-detector.yml", styledConfig(c, r, ign, es))
		k.Write("p/p.csv", "npm,,alpha,1.0.0\n")
		res := k.Run("--json", "--use-dbs=false", "csv-file:p/p.csv")
		out, err := parseOut(res.Out)
		if err != nil || len(out.Results) != 1 || len(out.Results[0].Packages) != 1 {
			k.Violate("expected one result with one package: %v %s", err, res)
			return
		}
		var wv, wi []string
		for _, a := range all {
			if slices.Contains(ign, a) {
				wi = append(wi, a)
			} else {
				wv = append(wv, a)
			}
		}
		p := out.Results[0].Packages[0]
		if s := diff(wv, ids(p.Vulns)) + diff(wi, ids(p.Ignored)); s != "" {
			k.Violate("ignoring %q: %s", ign, s)
			return
		}
		c.Seen(true, k.Files["p/.osv-detector.yml"])
	})
}

// sub2 is a detour through the project's directory.
func sub2(sub string) string {
	return (&url.URL{Path: sub}).EscapedPath() + "/" + strings.Repeat("../", strings.Count(sub, "/")+1)
}

// styledConfig writes the same config in one of many YAML styles.
func styledConfig(c *Ctx, r *R, ignores []string, dbs []dbEntry) string {
	str := func(s string) string {
		switch {
		case r.P(.3) && !strings.ContainsAny(s, "'\n"):
			return "'" + s + "'"
		case r.P(.5) && regexp.MustCompile(`^[A-Za-z][A-Za-z0-9_./-]*$`).MatchString(s) && !slices.Contains([]string{"yes", "no", "true", "false", "null", "on", "off"}, strings.ToLower(s)):
			return s
		}
		return toJSON(s)
	}
	fields := func(d dbEntry) [][2]string {
		l := [][2]string{{"url", d.URL}}
		if d.Type != "" {
			l = append(l, [2]string{"type", d.Type})
		}
		if d.Name != "" {
			l = append(l, [2]string{"name", d.Name})
		}
		if d.WD != "" {
			l = append(l, [2]string{"working-directory", d.WD})
		}
		shuffle(r, l)
		return l
	}
	style := r.Pick("block", "block", "flow", "json", "mixed")
	c.Mark("yaml_styles", style)
	var parts []string
	com := func() string { return r.Pick("", "", "", " # a comment", "  # extra-databases: []") }
	if len(ignores) > 0 {
		switch style {
		case "block":
			s := "ignore:" + com() + "\n"
			ind := r.Pick("", "  ", "    ")
			for _, x := range ignores {
				s += ind + "- " + str(x) + com() + "\n"
			}
			parts = append(parts, s)
		case "json":
			parts = append(parts, `"ignore": `+toJSON(ignores))
		default:
			var l []string
			for _, x := range ignores {
				l = append(l, toJSON(x))
			}
			parts = append(parts, "ignore: ["+strings.Join(l, r.Pick(",", ", ", ",\n  "))+"]\n")
		}
	}
	if len(dbs) > 0 {
		switch style {
		case "block", "mixed":
			s := "extra-databases:" + com() + "\n"
			ind := r.Pick("", "  ", "      ")
			for _, d := range dbs {
				for j, f := range fields(d) {
					if j == 0 {
						s += ind + "- "
					} else {
						s += ind + "  "
					}
					s += f[0] + ": " + str(f[1]) + com() + "\n"
				}
				if r.P(.1) {
					s += "\n"
				}
				if r.P(.1) {
					s += ind + "  unknown-key: 1\n"
				}
			}
			parts = append(parts, s)
		default:
			var l []string
			for _, d := range dbs {
				var m []string
				for _, f := range fields(d) {
					key := f[0]
					if style == "json" {
						key = toJSON(key)
					}
					m = append(m, key+": "+toJSON(f[1]))
				}
				l = append(l, "{"+strings.Join(m, ", ")+"}")
			}
			if style == "json" {
				parts = append(parts, `"extra-databases": [`+strings.Join(l, ",\n ")+"]")
			} else {
				parts = append(parts, "extra-databases: ["+strings.Join(l, ",\n  ")+"]\n")
			}
		}
	}
	shuffle(r, parts)
	if style == "json" {
		return "{" + strings.Join(parts, ",\n") + "}" + r.Pick("", "\n")
	}
	s := strings.Join(parts, r.Pick("", "\n", "# between\n"))
	if r.P(.15) {
		s = "---\n" + s
	}
	if r.P(.1) {
		s = "# about this file\n" + s
	}
	if r.P(.1) {
		s = crlf(s)
	}
	if s == "" {
		s = "{}\n"
	}
	return s
}

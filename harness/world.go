package main

// A world: directories with lockfiles and configs, and databases, with a reference of what a
// scan of it has to find.

import (
	"fmt"
	"net/http"
	"os"
	"path"
	"slices"
	"sort"
	"strings"
)

type wDB struct {
	entry dbEntry
	advs  []OSV
	scen  *Scenario
	kind  string
	fail  string // "load" or "query", if it cannot be used
}

type wConfig struct {
	path    string // "" when there is none
	ignores []string
	dbs     []int  // indexes into World.DBs
	extra   []int  // how many invalid entries there are (positions do not matter)
	invalid string // the config cannot be used at all
}

type wFile struct {
	arg    string // as given on the command line
	path   string // as it has to be labelled
	dir    string
	parser string
	pkgs   []refPkg
	broken string // why it cannot be parsed
}

type World struct {
	c     *Ctx
	k     *Case
	r     *R
	DBs   []*wDB
	Dirs  []string
	Conf  map[string]*wConfig // by directory
	Files []*wFile
	IDs   []string
}

var worldFormats = []struct{ parser, eco string }{
	{"package-lock.json", "npm"}, {"requirements.txt", "PyPI"}, {"Cargo.lock", "crates.io"}, {"gradle.lockfile", "Maven"},
	{"composer.lock", "Packagist"}, {"Gemfile.lock", "RubyGems"}, {"pubspec.lock", "Pub"}, {"csv-file", ""}, {"yarn.lock", "npm"}, {"go.mod", "Go"},
}

var worldNames = []string{"alpha", "beta", "gamma", "alpha-beta", "zeta"}

func worldName(eco, n string) string {
	switch eco {
	case "Maven":
		return "org." + strings.ReplaceAll(n, "-", "") + ":" + n
	case "Packagist":
		return n + "/" + n
	case "Go":
		return n + ".test/x"
	case "Pub":
		return strings.ReplaceAll(n, "-", "_")
	}
	return n
}

// worldVersions are the versions (of the ladder of each ecosystem) that lockfiles use
var worldVersions = map[string][]string{
	"npm": {"0.9.0", "1.0.0", "1.2.0", "1.10.0"}, "PyPI": {"0.9", "1.0", "1.2", "1.10"}, "crates.io": {"0.9.0", "1.0.0", "1.2.0", "1.10.0"},
	"Maven": {"0.9", "1.0", "1.2", "1.10"}, "Packagist": {"0.9.0", "1.0.0", "1.2.0", "1.10.0"}, "RubyGems": {"0.9", "1.0", "1.2", "1.10"},
	"Pub": {"0.9.0", "1.0.0", "1.2.0", "1.10.0"}, "Go": {"0.9.0", "1.0.0", "1.2.0", "1.10.0"}, "NuGet": {"0.9.0", "1.0.0", "1.2.0", "1.10.0"},
}

func mkLock(parser string, pkgs []refPkg) string {
	var b strings.Builder
	switch parser {
	case "package-lock.json":
		b.WriteString(`{"name":"me","version":"9.9.9","lockfileVersion":3,"packages":{"":{"name":"me","version":"9.9.9"}`)
		for _, p := range pkgs {
			b.WriteString(`,"node_modules/` + p.Name + `":{"version":"` + p.Ver + `"`)
			if p.Commit != "" {
				b.WriteString(`,"resolved":"git+ssh://git@github.com/o/r.git#` + p.Commit + `"`)
			}
			b.WriteString("}")
		}
		b.WriteString("}}\n")
	case "yarn.lock":
		b.WriteString("# yarn lockfile v1\n\n")
		for _, p := range pkgs {
			b.WriteString("\n" + p.Name + "@^" + p.Ver + ":\n  version \"" + p.Ver + "\"\n  resolved \"https://registry.yarnpkg.com/x.tgz\"\n")
		}
	case "requirements.txt":
		for _, p := range pkgs {
			b.WriteString(p.Name + "==" + p.Ver + "\n")
		}
	case "Cargo.lock":
		for _, p := range pkgs {
			b.WriteString("[[package]]\nname = \"" + p.Name + "\"\nversion = \"" + p.Ver + "\"\n")
			if p.Commit != "" {
				b.WriteString("source = \"git+https://github.com/o/r#" + p.Commit + "\"\n")
			}
			b.WriteString("\n")
		}
	case "gradle.lockfile":
		for _, p := range pkgs {
			b.WriteString(p.Name + ":" + p.Ver + "=compileClasspath\n")
		}
		b.WriteString("empty=\n")
	case "composer.lock":
		var l []string
		for _, p := range pkgs {
			x := ""
			if p.Commit != "" {
				x = `,"dist":{"reference":"` + p.Commit + `"}`
			}
			l = append(l, `{"name":"`+p.Name+`","version":"`+p.Ver+`"`+x+`}`)
		}
		b.WriteString(`{"packages":[` + strings.Join(l, ",") + "]}\n")
	case "Gemfile.lock":
		b.WriteString("GEM\n  remote: https://rubygems.org/\n  specs:\n")
		for _, p := range pkgs {
			b.WriteString("    " + p.Name + " (" + p.Ver + ")\n")
		}
	case "pubspec.lock":
		b.WriteString("packages:\n")
		for _, p := range pkgs {
			b.WriteString("  " + p.Name + ":\n    version: \"" + p.Ver + "\"\n    source: hosted\n")
		}
	case "go.mod":
		b.WriteString("module x\n\n")
		for _, p := range pkgs {
			b.WriteString("require " + p.Name + " v" + p.Ver + "\n")
		}
	case "csv-file":
		for _, p := range pkgs {
			b.WriteString(p.row() + "\n")
		}
	default:
		panic(parser)
	}
	return b.String()
}

func worldPkgs(r *R, parser, eco string) []refPkg {
	var l []refPkg
	seen := map[string]bool{}
	for range r.Range(0, 5) {
		e := eco
		if e == "" {
			e = pick(r, sortedKeys(worldVersions))
			if r.P(.4) {
				e = r.Pick("npm", "PyPI")
			}
		}
		p := refPkg{Eco: e, Name: worldName(e, pick(r, worldNames)), Ver: pick(r, worldVersions[e])}
		id := p.Eco + p.Name
		if parser == "Cargo.lock" || parser == "csv-file" {
			id += p.Ver
		}
		if seen[id] {
			continue
		}
		seen[id] = true
		l = append(l, p)
	}
	return l
}

func worldAdvs(r *R, tag string, ids []string, aliases float64) []OSV {
	var l []OSV
	for j := range r.Range(1, 9) {
		a := OSV{ID: pick(r, ids), Summary: fmt.Sprintf("%s advisory %d", tag, j)}
		if slices.ContainsFunc(l, func(x OSV) bool { return x.ID == a.ID }) {
			continue
		}
		for _, x := range ids {
			if r.P(aliases) {
				a.Aliases = append(a.Aliases, x)
			}
		}
		for range r.Range(1, 5) {
			eco := pick(r, sortedKeys(worldVersions))
			if r.P(.4) {
				eco = r.Pick("npm", "PyPI")
			}
			vs := worldVersions[eco]
			f := Affected{Package: Pkg{worldName(eco, pick(r, worldNames)), eco}}
			if eco == "PyPI" && r.P(.3) {
				f.Package.Name = otherSpelling(r, f.Package.Name)
			}
			switch r.IntN(4) {
			case 0:
				f.Versions = []string{pick(r, vs)}
			case 1:
				f.Ranges = []Rng{{"ECOSYSTEM", []Event{{"introduced": "0"}, {"fixed": pick(r, vs)}}}}
			case 2:
				f.Ranges = []Rng{{"ECOSYSTEM", []Event{{"introduced": pick(r, vs)}}}}
			default:
				f.Ranges = []Rng{{"ECOSYSTEM", []Event{{"introduced": "0"}}}}
			}
			a.Affected = append(a.Affected, f)
		}
		l = append(l, a)
	}
	return l
}

type worldOpts struct {
	zips    bool
	apis    bool
	aliases float64
	broken  float64 // chance of a lockfile that cannot be parsed
	invalid float64 // chance of a config that cannot be used
	badDB   float64 // chance of an invalid database entry in a config
	minDBs  int
	dirs    int     // at most
	many    float64 // chance of many more lockfiles
	faults  float64 // chance of a database that cannot be loaded or queried
}

func newWorld(c *Ctx, r *R, o worldOpts) *World {
	k := c.NewCase()
	w := &World{c: c, k: k, r: r, Conf: map[string]*wConfig{}}
	for j := range 14 {
		w.IDs = append(w.IDs, fmt.Sprintf("%s-%d", []string{"GHSA", "CVE", "cve", "OSV"}[j%4], j/2))
	}
	for d := range r.Range(o.minDBs, 3) {
		db := &wDB{advs: worldAdvs(r, fmt.Sprintf("db%d", d), w.IDs, o.aliases), kind: "dir"}
		switch {
		case o.apis && r.P(.25):
			db.kind = "api"
			mine := db.advs
			db.scen = c.Scenario(apiHandler(mine, func(q apiQ) []string {
				var l []string
				for _, a := range mine {
					if refAffected(a, rp(q.Package.Ecosystem, "", q.Package.Name, q.Version)) {
						l = append(l, a.ID)
					}
				}
				return l
			}))
			db.entry = dbEntry{URL: c.URL(db.scen, "/v1")}
		default:
			asZip := o.zips && r.P(.3)
			if asZip {
				db.kind = "zip"
			}
			db.entry, db.scen = k.extraDB(r, fmt.Sprintf("dbs/db%d", d), db.advs, asZip)
			if !asZip && r.P(.25) {
				db.entry.URL, db.entry.WD = "file:/dbs", fmt.Sprintf("db%d", d)
			}
		}
		if r.P(.3) {
			db.entry.Name = fmt.Sprintf("named %d", d)
		}
		w.DBs = append(w.DBs, db)
	}
	for d := range 2 {
		if r.P(o.faults) {
			w.DBs = append(w.DBs, faultyDB(c, k, r, d))
		}
	}
	maxDirs := o.dirs
	if maxDirs == 0 {
		maxDirs = 4
	}
	for d := range r.Range(1, maxDirs) {
		dir := fmt.Sprintf("p%d%s", d, r.Pick("", "-x", " y", "/nested"))
		if r.P(.15) && d == 0 {
			dir = "."
		}
		w.Dirs = append(w.Dirs, dir)
		w.Conf[dir] = w.genConfig(dir, o)
		used := map[string]bool{}
		for range r.Range(1, 3) {
			f := pick(r, worldFormats)
			if used[f.parser] {
				continue
			}
			used[f.parser] = true
			w.addFile(dir, f.parser, f.eco, o)
		}
	}
	shuffle(r, w.Files)
	if r.P(o.many) { // a large repository
		w.grow(r.Range(16, 40), o)
		c.Count("large_repositories", 1)
	}
	return w
}

// grow adds lockfiles, most of which are of one format.
func (w *World) grow(n int, o worldOpts) {
	f := pick(w.r, worldFormats)
	for d := range n {
		dir := fmt.Sprintf("many%d", d)
		w.Dirs = append(w.Dirs, dir)
		w.Conf[dir] = &wConfig{}
		if w.r.P(.3) {
			w.Conf[dir] = w.genConfig(dir, o)
		}
		x := w.addFile(dir, f.parser, f.eco, o)
		if x.broken == "" && w.r.P(.85) { // what most of them have is of no interest
			for j := range x.pkgs {
				x.pkgs[j].Name = fmt.Sprintf("%s%d", worldName(x.pkgs[j].Eco, "filler"), j)
			}
			w.k.Write(x.path, mkLock(f.parser, x.pkgs))
		}
	}
	shuffle(w.r, w.Files)
}

func (w *World) addFile(dir, parser, eco string, o worldOpts) *wFile {
	r := w.r
	name := parser
	if parser == "csv-file" {
		name = "pkgs.csv"
	}
	x := &wFile{dir: dir, parser: parser, pkgs: worldPkgs(r, parser, eco), path: path.Join(dir, name)}
	x.arg = x.path
	if parser == "csv-file" {
		x.arg = "csv-file:" + x.path
	} else if r.P(.1) {
		x.arg = parser + ":" + x.path
	}
	if r.P(o.broken) {
		switch parser {
		case "package-lock.json", "composer.lock":
			x.broken = "{"
		case "Cargo.lock":
			x.broken = "[[package"
		case "csv-file":
			x.broken = "npm,,x\n"
		case "pubspec.lock":
			x.broken = "packages: [\n"
		case "go.mod":
			x.broken = "require (\n"
		case "requirements.txt":
			x.broken = "-r missing.txt\n"
		}
	}
	if x.broken != "" {
		w.k.Write(x.path, x.broken)
	} else {
		w.k.Write(x.path, mkLock(parser, x.pkgs))
	}
	w.Files = append(w.Files, x)
	return x
}

// linkSome replaces some lockfiles by symbolic links to files that lie next to another config,
// which has nothing to do with them.
func (w *World) linkSome(p float64) {
	for j, f := range w.Files {
		if !w.r.P(p) {
			continue
		}
		dir := fmt.Sprintf("linked/%d", j)
		b, err := os.ReadFile(w.k.Path(f.path))
		must(err)
		w.k.Write(dir+"/"+path.Base(f.path), string(b))
		if w.r.P(.8) {
			var es []dbEntry
			for _, d := range w.DBs {
				if w.r.P(.5) {
					es = append(es, d.entry)
				}
			}
			w.k.Write(dir+"/"+w.r.Pick(".osv-detector.yml", ".osv-detector.yaml"), configYAML(w.IDs[:w.r.IntN(len(w.IDs))], es))
		}
		must(os.Remove(w.k.Path(f.path)))
		must(os.Symlink(w.k.Path(dir+"/"+path.Base(f.path)), w.k.Path(f.path)))
		w.k.Note("%s is a symbolic link to %s/%s", f.path, dir, path.Base(f.path))
		w.c.Count("symbolic_links", 1)
	}
}

func (w *World) genConfigContent(cf *wConfig, o worldOpts) string {
	r := w.r
	for range r.IntN(6) {
		id := pick(r, w.IDs)
		if r.P(.15) {
			id += r.Pick("0", " ", "x")
		}
		cf.ignores = append(cf.ignores, id)
	}
	for d := range w.DBs {
		if r.P(.6) {
			cf.dbs = append(cf.dbs, d)
		}
	}
	shuffle(r, cf.dbs)
	var es []dbEntry
	for _, d := range cf.dbs {
		e := w.DBs[d].entry
		if r.P(.15) { // each config can call a database what it likes
			e.Name = r.Pick("", fmt.Sprintf("called %d", r.IntN(4)))
			w.c.Mark("config_layouts", "renamed-db")
		}
		es = append(es, e)
	}
	if len(es) > 0 && r.P(.08) { // listed again
		at := r.IntN(len(es))
		to := r.Range(at+1, len(es))
		es = append(es[:to:to], append([]dbEntry{es[at]}, es[to:]...)...)
		w.c.Mark("config_layouts", "repeated-db")
	}
	if r.P(o.badDB) {
		bad := pick(r, []dbEntry{{URL: "not a url"}, {URL: "https://x.test/y", Type: "nope"}, {URL: ""}, {URL: "file:/x", Type: "ZIP"}})
		at := r.IntN(len(es) + 1)
		es = append(es[:at:at], append([]dbEntry{bad}, es[at:]...)...)
		cf.extra = append(cf.extra, at)
	}
	return configYAML(cf.ignores, es)
}

func (w *World) genConfig(dir string, o worldOpts) *wConfig {
	r := w.r
	cf := &wConfig{}
	yml, yaml := path.Join(dir, ".osv-detector.yml"), path.Join(dir, ".osv-detector.yaml")
	switch r.IntN(8) {
	case 0:
		return cf
	case 1, 2:
		cf.path = yaml
	default:
		cf.path = yml
		if r.P(.2) { // never used, as there is a .yml
			var es []dbEntry
			for _, d := range w.DBs {
				if r.P(.6) {
					es = append(es, d.entry)
				}
			}
			w.k.Write(yaml, configYAML([]string{pick(r, w.IDs), pick(r, w.IDs)}, es))
			w.c.Mark("config_layouts", "both")
		}
	}
	w.c.Mark("config_layouts", path.Ext(cf.path))
	if r.P(o.invalid) {
		cf.invalid = r.Pick("yaml", "dir", "type")
		switch cf.invalid {
		case "yaml":
			w.k.Write(cf.path, "ignore: [\n")
		case "dir":
			w.k.Mkdir(cf.path)
		case "type":
			w.k.Write(cf.path, r.Pick("ignore: yes-please: no", "ignore:\n  a: b\n", "extra-databases: 1\n", "- x\n"))
		}
		w.c.Mark("config_layouts", "invalid-"+cf.invalid)
		return cf
	}
	if r.P(.12) { // no settings, which are settings too
		w.k.Write(cf.path, r.Pick("ignore: []\n", "{}\n", "ignore:\nextra-databases:\n", "extra-databases: []\n", "# nothing\n---\n{}\n"))
		w.c.Mark("config_layouts", "no-settings")
		return cf
	}
	w.k.Write(cf.path, w.genConfigContent(cf, o))
	return cf
}

func (w *World) Done() {
	for _, d := range w.DBs {
		if d.scen != nil {
			w.c.EndScenario(d.scen)
		}
	}
	w.k.Done()
}

// expect is what has to be found for a package with the given databases (no aliases).
func (w *World) expect(p refPkg, dbs []int, ignores []string) (vulns, ignored []string) {
	seen := map[string]bool{}
	for _, d := range dbs {
		for _, a := range w.DBs[d].advs {
			if seen[a.ID] || !refAffected(a, p) {
				continue
			}
			seen[a.ID] = true
			if slices.Contains(ignores, a.ID) {
				ignored = append(ignored, a.ID)
			} else {
				vulns = append(vulns, a.ID)
			}
		}
	}
	sort.Strings(vulns)
	sort.Strings(ignored)
	return
}

// judge compares the result for one lockfile with the reference.
func (w *World) judge(o OutFile, f *wFile, dbs []int, ignores []string) (nVulns, nIgnored int, problem string) {
	if o.FilePath != f.path || o.ParsedAs != f.parser {
		return 0, 0, fmt.Sprintf("result for %s (%s), expected one for %s (%s)", o.FilePath, o.ParsedAs, f.path, f.parser)
	}
	if len(o.Packages) != len(f.pkgs) {
		return 0, 0, fmt.Sprintf("%s: %d packages instead of %d", f.path, len(o.Packages), len(f.pkgs))
	}
	by := map[string]refPkg{}
	for _, p := range f.pkgs {
		by[p.key()] = p
	}
	for _, p := range o.Packages {
		q, ok := by[p.Key()]
		if !ok {
			return 0, 0, fmt.Sprintf("%s: unexpected package %s", f.path, p.Key())
		}
		v, ig := w.expect(q, dbs, ignores)
		if s := diff(v, ids(p.Vulns)); s != "" {
			return 0, 0, fmt.Sprintf("%s: vulnerabilities of %s: %s", f.path, p.Key(), s)
		}
		if s := diff(ig, ids(p.Ignored)); s != "" {
			return 0, 0, fmt.Sprintf("%s: ignored for %s: %s", f.path, p.Key(), s)
		}
		nVulns += len(v)
		nIgnored += len(ig)
	}
	return nVulns, nIgnored, ""
}

var faultKinds = []string{"missing-dir", "zip-status", "zip-status", "api-status", "zip-garbage", "zip-aborted", "zip-short", "api-aborted", "api-garbage", "api-missized", "zip-refused", "api-refused"}

func faultyDB(c *Ctx, k *Case, r *R, n int) *wDB {
	kind := pick(r, faultKinds)
	if c.net == nil {
		kind = "missing-dir"
	}
	c.Mark("database_faults", kind)
	db := &wDB{kind: "bad-" + kind, fail: "load"}
	if strings.HasPrefix(kind, "api") {
		db.fail = "query"
	}
	good := zipOf(r, advFiles(r, []OSV{allVersions("BAD-1", "npm", "alpha"), allVersions("BAD-2", "PyPI", "alpha")}))
	code := r.BadCode()
	switch kind {
	case "missing-dir":
		db.entry = dbEntry{URL: fmt.Sprintf("file:/nowhere/%d", n)}
		return db
	case "zip-refused":
		db.entry = dbEntry{URL: fmt.Sprintf("http://127.0.0.1:9/%d/x.zip", n)}
		return db
	case "api-refused":
		db.entry = dbEntry{URL: fmt.Sprintf("http://127.0.0.1:9/%d/v1", n)}
		return db
	}
	db.scen = c.Scenario(func(w http.ResponseWriter, q *Req) {
		switch kind {
		case "zip-status":
			w.WriteHeader(code)
			_, _ = w.Write(good)
		case "api-status":
			w.WriteHeader(code)
			qs, _ := parseBatch(q.Body)
			_, _ = w.Write([]byte(batchAnswer(qs, func(apiQ) []string { return []string{"BAD-1"} })))
		case "zip-garbage", "api-garbage":
			_, _ = w.Write([]byte("<html>not what you want</html>"))
		case "zip-aborted", "api-aborted":
			abort(w, "HTTP/1.1 200 OK\r\nContent-Length: 50\r\nETag: \"x\"\r\n\r\n{\"re")
		case "zip-short":
			_, _ = w.Write(good[:len(good)-7])
		case "api-missized":
			qs, _ := parseBatch(q.Body)
			_, _ = w.Write([]byte(`{"results":[` + strings.TrimSuffix(strings.Repeat("{},", len(qs)+1), ",") + "]}"))
		}
	})
	if db.fail == "query" {
		db.entry = dbEntry{URL: c.URL(db.scen, "/v1")}
	} else {
		db.entry = dbEntry{URL: c.URL(db.scen, "/x/all.zip")}
	}
	return db
}

// otherSpelling is another name of the same PyPI project.
func otherSpelling(r *R, s string) string {
	s = strings.ReplaceAll(s, "-", r.Pick("-", "_", ".", "__", "-."))
	switch r.IntN(3) {
	case 0:
		return strings.ToUpper(s)
	case 1:
		return strings.ToUpper(s[:1]) + s[1:]
	}
	return s
}

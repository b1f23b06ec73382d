package main

import (
	"encoding/json"
	"fmt"
	"path"
	"slices"
	"sort"
	"strings"
	"time"
)

func init() { checks["C26"] = check{level: "exploration", net: true, f: checkC26} }

type libPkg struct {
	Name      string `json:"name"`
	Version   string `json:"version"`
	Commit    string `json:"commit,omitempty"`
	Ecosystem string `json:"ecosystem,omitempty"`
	CompareAs string `json:"compareAs,omitempty"`
}

type libOp struct {
	Op     string
	Path   string     `json:",omitempty"`
	As     string     `json:",omitempty"`
	Rows   []string   `json:",omitempty"`
	Config libConf    `json:",omitzero"`
	Off    bool       `json:",omitempty"`
	Batch  int        `json:",omitempty"`
	Names  []string   `json:",omitempty"`
	Checks [][]libPkg `json:",omitempty"`
	IDs    []string   `json:",omitempty"`
	OSVs   []OSV      `json:",omitempty"`
}

type libConf struct{ Name, Type, URL, WorkingDirectory string }

type libRes struct {
	Err, Kind  string
	Lock       OutFile
	Text       string
	Ecosystems []string
	Found      [][]string
	Lens       []int
	CheckErrs  []string
	All        []string
	Current    []string
	Affected   map[string][]bool
	Name       string
	Identifier string
	Strings    []string
	OSVs       []OutVuln
	Bools      []bool
}

// libDo has a program that uses the public packages do the operations.
func (k *Case) libDo(ops []libOp) []libRes {
	k.Write("job.json", toJSON(ops))
	res := k.RunX(Run{Lib: true, Args: []string{"job.json"}, Limit: 120 * time.Second})
	var out []libRes
	if res.Exit != 0 {
		k.Violate("a program that uses the public packages ended with %s", res)
		return nil
	}
	if err := json.Unmarshal(res.Out, &out); err != nil || len(out) != len(ops) {
		k.Violate("no answer to %d operations: %v\n%s", len(ops), err, res)
		return nil
	}
	return out
}

func (p refPkg) lib() libPkg {
	l := libPkg{Name: p.Name, Version: p.Ver, Commit: p.Commit, Ecosystem: p.Eco, CompareAs: orDefault(p.As, p.Eco)}
	if p.Eco == "" {
		l.Version, l.Commit = "", p.Ver
	}
	return l
}

func lockText(ps []OutPkg) string {
	var l []string
	for _, p := range ps {
		s := "  " + orDefault(p.Ecosystem, "<unknown>") + ": " + p.Name
		if p.Version != "" {
			s += "@" + p.Version
		}
		if p.Commit != "" {
			s += " (" + p.Commit + ")"
		}
		l = append(l, s)
	}
	return strings.Join(l, "\n")
}

func ecosOf(ps []OutPkg) []string {
	l := []string{}
	for _, p := range ps {
		if p.Ecosystem != "" && !slices.Contains(l, p.Ecosystem) {
			l = append(l, p.Ecosystem)
		}
	}
	sort.Strings(l)
	return l
}

func outKeys(ps []OutPkg) []string {
	l := []string{}
	for _, p := range ps {
		l = append(l, p.Key())
	}
	return l
}

func checkC26(c *Ctx) {
	c.Rule = "a program using the public packages parses generated lockfiles, CSV files and rows (and missing files and unknown names), loads dir, zip and API databases (with and without package names, online, offline and cached), checks packages against them in several groupings and orders and twice, and lists and fetches their advisories; each answer is compared with the reference and with what the command line reports for the same; non-trivial when packages were parsed or advisories found; distinct by input"
	c.Assume = []string{"package names given when loading are in normal form, as the command line gives them", "advisories of one database have different IDs when all of them are listed"}
	if c.LibBin == "" {
		c.Assume = append(c.Assume, "the public packages could not be used as before, so that nothing was watched")
		return
	}
	c.Each("lock", c.N(1500, 20000), func(i int, r *R) { c26lock(c, i, r) })
	c.Each("db", c.N(2000, 30000), func(i int, r *R) { c26db(c, i, r) })
	c.Each("api", c.N(500, 8000), func(i int, r *R) { c26api(c, i, r) })
	c.Each("unique", c.N(400, 5000), func(i int, r *R) { c26unique(c, i, r) })
}

func c26lock(c *Ctx, i int, r *R) {
	k := c.NewCase()
	defer k.Done()
	gens := sortedKeys(allGens)
	var ops []libOp
	var docs []*Doc
	var cli []string
	for j := range r.Range(1, 6) {
		d := allGens[gens[(i*5+j*7)%len(gens)]](r)
		docs = append(docs, d)
		dir := fmt.Sprintf("p%d%s", j, r.Pick("", " x", "é"))
		for f, s := range d.Files {
			k.Write(path.Join(dir, f), s)
		}
		p := path.Join(dir, d.Format)
		as := ""
		if r.P(.25) {
			as = d.Format
		}
		if r.P(.25) { // under a name that says nothing, or something else
			q := path.Join(dir, r.Pick("locked", "old.lock", "go.mod.bak", "yarn.lock.json", "Cargo.lock2", "poms.xml"))
			k.Write(q, d.Files[d.Format])
			p, as = q, d.Format
		}
		ops = append(ops, libOp{Op: "parse", Path: p, As: as})
		cli = append(cli, d.Format+":"+p)
	}
	nDocs := len(docs)
	// CSV
	pkgs := genCSVPkgs(r, r.Range(1, 6))
	var rows, want []string
	for _, p := range pkgs {
		rows = append(rows, csvRow(p.eco, p.as, p.name, p.ver))
		want = append(want, p.key())
	}
	k.Write("rows.csv", strings.Join(rows, "\n")+r.Pick("", "\n"))
	label := r.Pick("-", "rows", "a/b/c.csv", "")
	ops = append(ops, libOp{Op: "csvrows", Path: label, As: "csv-row", Rows: rows}, libOp{Op: "csvfile", Path: "rows.csv", As: "csv-file"})
	cli = append(cli, "csv-file:rows.csv")
	// what cannot be done
	badRows := slices.Clone(rows)
	at := r.IntN(len(badRows))
	badRows[at] = r.Pick("npm,,alpha", "npm,,,1.0.0", ",,alpha,", "npm")
	k.Write("bad.csv", strings.Join(badRows, "\n"))
	unknown := "p0/" + r.Pick("lock", "yarn.lock2", "Yarn.lock", "package.json", "csv-file", "csv-row", "")
	miss := gens[r.IntN(len(gens))]
	missing := "nowhere/" + allGens[miss](r).Format
	ops = append(ops,
		libOp{Op: "csvrows", Path: label, As: "csv-row", Rows: badRows},
		libOp{Op: "csvfile", Path: "bad.csv", As: "csv-file"},
		libOp{Op: "csvfile", Path: "none.csv", As: "csv-file"},
		libOp{Op: "parse", Path: unknown},
		libOp{Op: "find", Path: unknown},
		libOp{Op: "find", Path: missing},
		libOp{Op: "find", Path: unknown, As: path.Base(missing)},
		libOp{Op: "parse", Path: missing},
		libOp{Op: "lists"},
	)
	out := k.libDo(ops)
	if out == nil {
		return
	}
	res := k.Run(append([]string{"--json", "--list-packages"}, cli...)...)
	o, err := parseOut(res.Out)
	if err != nil || res.Exit != 0 || len(o.Results) != len(cli) {
		k.Violate("the same on the command line: %v %s", err, res)
		return
	}
	n := 0
	for j := range ops[:nDocs+2] {
		g := out[j]
		op := ops[j]
		if g.Err != "" {
			k.Violate("%s %s (as %q) gave the error %s", op.Op, op.Path, op.As, g.Err)
			return
		}
		as := op.As
		if as == "" {
			as = path.Base(op.Path)
		}
		if g.Lock.FilePath != op.Path || g.Lock.ParsedAs != as {
			k.Violate("%s %s (as %q) is labelled %s, parsed as %s", op.Op, op.Path, op.As, g.Lock.FilePath, g.Lock.ParsedAs)
			return
		}
		if j < nDocs {
			if s := docs[j].compare(g.Lock.Packages); s != "" {
				k.Violate("packages of %s:\n%s", op.Path, s)
				return
			}
		} else if !eqStr(sorted(outKeys(g.Lock.Packages)), sorted(want)) {
			k.Violate("packages of %s:\n%s", op.Op, diff(sorted(want), sorted(outKeys(g.Lock.Packages))))
			return
		}
		same := j
		if j > nDocs {
			same = nDocs
		}
		if !eqStr(outKeys(g.Lock.Packages), outKeys(o.Results[same].Packages)) {
			k.Violate("packages of %s %s are others than on the command line: %q instead of %q", op.Op, op.Path, outKeys(g.Lock.Packages), outKeys(o.Results[same].Packages))
			return
		}
		if g.Text != lockText(g.Lock.Packages) {
			k.Violate("text of %s %s is\n%s\ninstead of\n%s", op.Op, op.Path, g.Text, lockText(g.Lock.Packages))
			return
		}
		if !eqStr(g.Ecosystems, ecosOf(g.Lock.Packages)) {
			k.Violate("ecosystems of %s %s are %q instead of %q", op.Op, op.Path, g.Ecosystems, ecosOf(g.Lock.Packages))
			return
		}
		n += len(g.Lock.Packages)
	}
	rest := out[nDocs+2:]
	for j, kind := range []string{"", "", "missing", "parser", "", "", "", "missing"} {
		g, op := rest[j], ops[nDocs+2+j]
		if op.Op == "find" {
			continue
		}
		if g.Err == "" || (kind != "" && g.Kind != kind) {
			k.Violate("%s %s (as %q, rows %q) has to be an error (%s) but gave %q", op.Op, op.Path, op.As, op.Rows, kind, g.Err)
			return
		}
		c.Mark("errors", op.Op+" "+g.Kind)
	}
	for j, f := range []struct {
		as  string
		has bool
	}{{path.Base(unknown), false}, {path.Base(missing), true}, {path.Base(missing), true}} {
		if g := rest[4+j]; g.Text != f.as || !eqBool(g.Bools, []bool{f.has}) {
			k.Violate("the parser for %q is %q (found: %v) instead of %q (%v)", ops[nDocs+2+4+j].Path, g.Text, g.Bools, f.as, f.has)
			return
		}
	}
	lists := rest[8]
	for _, d := range docs {
		if !slices.Contains(lists.Strings, d.Format) {
			k.Violate("%s is not listed as a parser: %q", d.Format, lists.Strings)
			return
		}
	}
	low := make([]string, len(lists.Strings))
	for j, s := range lists.Strings {
		low[j] = strings.ToLower(s)
	}
	if !sort.StringsAreSorted(low) {
		k.Violate("the parsers are not sorted: %q", lists.Strings)
		return
	}
	for j := range nDocs {
		for _, e := range out[j].Ecosystems {
			if !slices.Contains(lists.Ecosystems, e) {
				k.Violate("%s has packages of %s, which is not a known ecosystem: %q", ops[j].Path, e, lists.Ecosystems)
				return
			}
		}
	}
	c.Count("packages_compared", n)
	c.Count("operations", len(ops))
	c.Seen(n > 0, fmt.Sprint("lock", i))
	if i == 0 {
		c.Sample(map[string]any{"operations": ops[:2], "packages": outKeys(out[0].Lock.Packages)})
	}
}

func eqBool(a, b []bool) bool { return slices.Equal(a, b) }

func c26pkgs(r *R) []refPkg {
	var l []refPkg
	for range r.Many(12) {
		e := r.Pick("npm", "PyPI")
		if r.P(.5) {
			e = pick(r, sortedKeys(worldVersions))
		}
		p := refPkg{Eco: e, Name: worldName(e, pick(r, worldNames)), Ver: pick(r, worldVersions[e])}
		if e == "PyPI" && r.P(.3) {
			p.Name = otherSpelling(r, p.Name)
		}
		if r.P(.08) {
			p.Ver = ""
		}
		if r.P(.1) {
			p.Name = r.Word()
		}
		if r.P(.06) {
			p = refPkg{Name: r.Word(), Ver: r.Sha()}
		}
		l = append(l, p)
		if r.P(.08) {
			l = append(l, p)
		}
	}
	return l
}

func c26db(c *Ctx, i int, r *R) {
	k := c.NewCase()
	defer k.Done()
	idl := []string{}
	for j := range r.Range(3, 25) {
		idl = append(idl, fmt.Sprintf("%s-%d", r.Pick("A", "GHSA", "CVE"), j))
	}
	aliases := 0.
	if r.P(.5) {
		aliases = .15 * r.Float64()
	}
	var advs []OSV
	for range r.Range(1, 4) {
		for _, a := range worldAdvs(r, "x", idl, aliases) {
			if slices.ContainsFunc(advs, func(b OSV) bool { return a.ID == b.ID }) {
				continue
			}
			if r.P(.2) {
				a.Withdrawn = timeStr(r)
			}
			advs = append(advs, a)
		}
	}
	pkgs := c26pkgs(r)
	var all []libPkg
	for _, p := range pkgs {
		all = append(all, p.lib())
	}
	perm := r.Perm(len(pkgs))
	var mixed []libPkg
	checks := [][]libPkg{all}
	order := [][]int{nil}
	for j := range all {
		order[0] = append(order[0], j)
		mixed = append(mixed, all[perm[j]])
	}
	checks, order = append(checks, mixed), append(order, perm)
	for j := range all {
		if r.P(.4) {
			checks, order = append(checks, all[j:j+1]), append(order, []int{j})
		}
	}
	checks, order = append(checks, nil, all), append(order, nil, order[0])
	if r.P(.5) { // an order of checks in which the whole is not the first
		x := r.IntN(len(checks)-1) + 1
		checks = append(append([][]libPkg{checks[0]}, checks[x:]...), checks[1:x]...)
		order = append(append([][]int{order[0]}, order[x:]...), order[1:x]...)
	}
	conf := libConf{Name: r.Word(), Type: "dir", URL: "file:/db"}
	zip := r.P(.5)
	wd := ""
	if r.P(.25) {
		wd = r.Pick("sub", "a/b")
	}
	conf.WorkingDirectory = wd
	files := map[string]string{}
	for f, s := range advFiles(r, advs) {
		files[path.Join(wd, f)] = s
	}
	if wd != "" {
		files["outside.json"] = allVersions("OUTSIDE-1", "npm", "alpha").JSON()
	}
	var names []string
	for _, p := range pkgs {
		names = append(names, refName(p.Eco, p.Name))
	}
	more := append(slices.Clone(names), "alpha", "something")
	shuffle(r, more)
	var ops []libOp
	kind := "dir"
	if zip {
		kind = "zip"
		s := c.Scenario(serveBytes(zipOf(r, files)))
		defer c.EndScenario(s)
		conf.Type, conf.URL = "zip", c.URL(s, "/all.zip")
		ops = append(ops, libOp{Op: "load", Config: conf, Off: true})
	} else {
		k.WriteAll("db", files)
	}
	load := libOp{Op: "load", Config: conf, Batch: 1000, Checks: checks}
	ops = append(ops, load)
	first := len(ops) - 1
	for _, n := range [][]string{names, more} {
		if len(n) > 0 {
			l := load
			l.Names = n
			l.Off = r.P(.3) // from the cache
			ops = append(ops, l)
		}
	}
	nLoads := len(ops) - first
	ops = append(ops, libOp{Op: "load", Config: libConf{Type: r.Pick("", "ZIP", "git", "file", "dirs"), URL: conf.URL}},
		libOp{Op: "load", Config: libConf{Type: "dir", URL: "file:/nowhere"}},
		libOp{Op: "load", Config: libConf{Type: "dir", URL: r.Pick("db", "http://127.0.0.1/db", "/db", "files:/db")}})
	out := k.libDo(ops)
	if out == nil {
		return
	}
	if zip && (out[0].Kind != "offline" || out[0].Err == "") {
		k.Violate("loading offline what was never downloaded gave %q", out[0].Err)
		return
	}
	for j, kind := range []string{"type", "missing", "protocol"} {
		if g := out[first+nLoads+j]; g.Err == "" || g.Kind != kind {
			k.Violate("loading %v has to fail (%s), but gave %q", ops[first+nLoads+j].Config, kind, g.Err)
			return
		}
	}
	var wantAll, wantCur []string
	for _, a := range advs {
		wantAll = append(wantAll, a.ID)
		if a.Withdrawn == "" {
			wantCur = append(wantCur, a.ID)
		}
	}
	found := 0
	var ref [][]string
	for j := first; j < first+nLoads; j++ {
		g := out[j]
		what := fmt.Sprintf("%s database loaded with names %q (offline: %v)", kind, ops[j].Names, ops[j].Off)
		if g.Err != "" || len(g.CheckErrs) > 0 {
			k.Violate("%s: %s %q", what, g.Err, g.CheckErrs)
			return
		}
		if g.Name != conf.Name || g.Identifier != out[first].Identifier {
			k.Violate("%s is named %q (%q), expected %q (%q)", what, g.Name, g.Identifier, conf.Name, out[first].Identifier)
			return
		}
		x := 0
		for n, ps := range checks {
			if n >= len(g.Lens) || g.Lens[n] != len(ps) || x+len(ps) > len(g.Found) {
				k.Violate("%s: checks of %d lists of packages gave results of the lengths %v", what, len(checks), g.Lens)
				return
			}
			for y := range ps {
				got := sorted(g.Found[x])
				x++
				at := order[n][y]
				if n == 0 && j == first {
					if s := c26ref(advs, pkgs[at], got); s != "" {
						k.Violate("%s: %v: %s", what, pkgs[at], s)
						return
					}
					ref = append(ref, got)
					found += len(got)
				} else if !eqStr(got, ref[at]) {
					k.Violate("%s: check %d gives %q for %v, where the first check gave %q", what, n, got, pkgs[at], ref[at])
					return
				}
			}
		}
		if len(ops[j].Names) == 0 {
			if !eqStr(sorted(g.All), sorted(wantAll)) || !eqStr(sorted(g.Current), sorted(wantCur)) {
				k.Violate("%s: all of its advisories are %q (%q not withdrawn), expected %q (%q)", what, sorted(g.All), sorted(g.Current), sorted(wantAll), sorted(wantCur))
				return
			}
		}
		for _, a := range advs {
			w := a
			w.Withdrawn = ""
			flags, ok := g.Affected[a.ID]
			if !ok {
				continue
			}
			for y, p := range pkgs {
				if y >= len(flags) || flags[y] != refAffected(w, p) {
					k.Violate("%s: %s says about %v: affected=%v", what, a.JSON(), p, flags)
					return
				}
			}
		}
	}
	// the command line
	k.Write("p/pkgs.csv", mkLock("csv-file", pkgs))
	k.Write("conf.yml", configYAML(nil, []dbEntry{{Type: conf.Type, URL: conf.URL, WD: wd}}))
	if len(pkgs) > 0 && r.P(.5) {
		res := k.Run("--json", "--use-dbs=false", "--config", "conf.yml", "csv-file:p/pkgs.csv")
		o, err := parseOut(res.Out)
		if err != nil || len(o.Results) != 1 || res.Exit > 1 {
			k.Violate("on the command line: %v %s", err, res)
			return
		}
		cli := map[string][]string{}
		for _, p := range o.Results[0].Packages {
			cli[p.Key()] = sorted(ids(p.Vulns))
		}
		for at, p := range pkgs {
			if !eqStr(cli[p.key()], ref[at]) {
				k.Violate("%v: the command line reports %q, the library %q", p, cli[p.key()], ref[at])
				return
			}
		}
		c.Count("compared_with_cli", 1)
	}
	c.Mark("databases", kind)
	c.Count("advisories_found", found)
	c.Count("advisories_listed", len(wantAll))
	c.Seen(found > 0, fmt.Sprint("db", i))
	if i == 0 {
		c.Sample(map[string]any{"packages": all, "found": ref})
	}
}

// c26ref judges what was found for a package by the advisories of one database.
func c26ref(advs []OSV, p refPkg, got []string) string {
	var aff []OSV
	for _, a := range advs {
		if p.Eco != "" && refAffected(a, p) {
			aff = append(aff, a)
		}
	}
	by := func(id string) *OSV {
		for x := range aff {
			if aff[x].ID == id {
				return &aff[x]
			}
		}
		return nil
	}
	for x, id := range got {
		a := by(id)
		if a == nil {
			return id + " does not affect it"
		}
		for _, o := range got[:x] {
			if b := by(o); linked(a.ID, a.Aliases, b.ID, b.Aliases) {
				return id + " and " + o + " are the same"
			}
		}
	}
	for _, a := range aff {
		if !slices.ContainsFunc(got, func(id string) bool { b := by(id); return linked(a.ID, a.Aliases, b.ID, b.Aliases) }) {
			return a.ID + " is missing"
		}
	}
	return ""
}

func c26api(c *Ctx, i int, r *R) {
	k := c.NewCase()
	defer k.Done()
	var idl []string
	var advs []OSV
	for j := range r.Range(2, 30) {
		id := fmt.Sprintf("%s-%d", r.Pick("A", "GHSA", "CVE"), j)
		idl = append(idl, id)
		advs = append(advs, OSV{ID: id, Summary: "about " + id, Details: r.Word()})
	}
	for j := range advs {
		if r.P(.15) {
			advs[j].Aliases = []string{pick(r, idl)}
		}
		if r.P(.1) {
			advs[j].Withdrawn = timeStr(r)
		}
	}
	pkgs := c26pkgs(r)
	seed := fmt.Sprint(r.Uint64())
	match := func(q apiQ) []string {
		var l []string
		for _, id := range idl {
			if hash64(seed, id, q.Commit, q.Package.Name, q.Package.Ecosystem, q.Version)%4 == 0 {
				l = append(l, id)
			}
		}
		return l
	}
	s := c.Scenario(apiHandler(advs, match))
	defer c.EndScenario(s)
	var all []libPkg
	for _, p := range pkgs {
		all = append(all, p.lib())
	}
	fetch := slices.Clone(idl)
	shuffle(r, fetch)
	fetch = fetch[:r.Range(1, len(fetch))]
	if r.P(.3) { // asked for more than once
		fetch = append(fetch, pick(r, fetch))
		if r.P(.5) {
			fetch = append(fetch, fetch[len(fetch)-1], pick(r, fetch))
		}
		c.Mark("databases", "an advisory fetched twice")
	}
	gone := r.P(.4)
	if gone {
		fetch = append(fetch, "NOPE-1")
	}
	conf := libConf{Name: "api", Type: "api", URL: c.URL(s, r.Pick("/v1", "", "/a/b/"))}
	ops := []libOp{
		{Op: "load", Config: conf, Batch: r.Range(1, 7), Checks: [][]libPkg{all, nil, all}, IDs: fetch},
		{Op: "load", Config: conf, Batch: 5, Off: true},
		{Op: "load", Config: conf, Batch: -r.IntN(2)},
		{Op: "load", Config: libConf{Type: "api", URL: r.Pick("", "nonsense", "::")}, Batch: 5},
	}
	out := k.libDo(ops)
	if out == nil {
		return
	}
	for j, kind := range []string{"offline", "", ""} {
		if g := out[j+1]; g.Err == "" || (kind != "" && g.Kind != kind) {
			k.Violate("loading %v (batch size %d, offline %v) has to fail, but gave %q", ops[j+1].Config, ops[j+1].Batch, ops[j+1].Off, g.Err)
			return
		}
	}
	g := out[0]
	if g.Err != "" || len(g.CheckErrs) > 0 || fmt.Sprint(g.Lens) != fmt.Sprint([]int{len(all), 0, len(all)}) || len(g.Found) != 2*len(all) {
		k.Violate("checks of %d packages: %s %q %v", len(all), g.Err, g.CheckErrs, g.Lens)
		return
	}
	found := 0
	for x, got := range g.Found {
		p := pkgs[x%len(pkgs)]
		want := match(wantQ(p))
		if !eqStr(sorted(got), sorted(want)) {
			k.Violate("%v: the API answered %q but %q is reported", p, want, got)
			return
		}
		found += len(got)
	}
	var want, have []string
	for x, id := range fetch {
		w := "ok " + id
		if id == "NOPE-1" {
			w = "error status"
		} else {
			want = append(want, id)
		}
		if x >= len(g.Strings) || g.Strings[x] != w {
			k.Violate("fetching %q one by one gave %q", fetch, g.Strings)
			return
		}
	}
	for _, v := range g.OSVs {
		if v.Summary == "about "+v.ID {
			have = append(have, v.ID)
		}
	}
	sort.Strings(want)
	if !eqStr(have, want) || len(g.OSVs) != len(fetch) {
		k.Violate("fetching %q at once gave %q, expected %q in this order (and %d advisories in all)", fetch, have, want, len(fetch))
		return
	}
	c.Mark("databases", "api")
	c.Count("advisories_found", found)
	c.Count("advisories_fetched", len(fetch))
	c.Seen(found > 0, fmt.Sprint("api", i))
}

// wantQ is the query that a package has to be asked about with
func wantQ(p refPkg) apiQ {
	var q apiQ
	l := p.lib()
	if l.Name != "" && l.Ecosystem != "" && l.Version != "" {
		q.Package.Name, q.Package.Ecosystem, q.Version = l.Name, l.Ecosystem, l.Version
	} else {
		q.Commit = l.Commit
	}
	return q
}

func c26unique(c *Ctx, i int, r *R) {
	k := c.NewCase()
	defer k.Done()
	var ops []libOp
	for range 10 {
		var pool []string
		for j := range r.Range(2, 10) {
			pool = append(pool, fmt.Sprintf("%s-%d", r.Pick("A", "a", "GHSA"), j))
		}
		p := r.Float64() * .2
		var l []OSV
		for j := range r.IntN(9) {
			a := OSV{ID: pick(r, pool), Summary: fmt.Sprint(j)}
			for _, x := range append([]string{"F-1"}, pool...) {
				if r.P(p) {
					a.Aliases = append(a.Aliases, x)
				}
			}
			shuffle(r, a.Aliases)
			l = append(l, a)
		}
		ops = append(ops, libOp{Op: "unique", OSVs: l})
	}
	out := k.libDo(ops)
	if out == nil {
		return
	}
	for j, op := range ops {
		l, g := op.OSVs, out[j]
		var kept []OSV
		for x, a := range l {
			is := func(b OSV) bool { return linked(a.ID, a.Aliases, b.ID, b.Aliases) }
			if !slices.ContainsFunc(kept, is) {
				kept = append(kept, a)
			}
			if x >= len(g.Bools) || g.Bools[x] != slices.ContainsFunc(l[:x], is) {
				k.Violate("is %s included in what is before it in %s? %v", a.ID, toJSON(l), g.Bools)
				return
			}
		}
		var want []string
		for _, a := range kept {
			want = append(want, a.ID)
		}
		if !eqStr(g.Strings, want) {
			k.Violate("%s without aliases is %q, expected %q", toJSON(l), g.Strings, want)
			return
		}
		var back []OutVuln
		if err := json.Unmarshal([]byte(g.Text), &back); err != nil || back == nil || len(back) != len(l) {
			k.Violate("%s as JSON is %s", toJSON(l), g.Text)
			return
		}
		for x, a := range l {
			if b := back[x]; a.ID != b.ID || a.Summary != b.Summary || !eqStr(a.Aliases, b.Aliases) {
				k.Violate("%s as JSON is %s", toJSON(l), g.Text)
				return
			}
		}
		c.Count("lists_made_unique", 1)
		c.Seen(len(want) < len(l), toJSON(l))
	}
}

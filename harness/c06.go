package main

import (
	"fmt"
	"path"
	"slices"
	"strings"
)

func init() {
	checks["C06"] = check{level: "exploration", net: true, f: checkC06}
	checks["C07"] = check{level: "exploration", net: true, f: checkC07}
}

// nameVariants are names that are equal or almost equal
var nameVariants = []string{"foo-bar", "foo_bar", "Foo.Bar", "foo--bar", "foobar", "foo-bar2", "foo", "FOO-BAR", "@foo/bar", "github.com/foo/bar", "org.foo:bar", "foo-ba", "foo-bar ", "bar"}

// judgeFindings compares reported advisories with the expected ones, per package.
func judgeFindings(c *Ctx, k *Case, out OutFile, pkgs []refPkg, want func(p refPkg) []string) bool {
	if len(out.Packages) != len(pkgs) {
		k.Violate("%d packages were given but %d are reported", len(pkgs), len(out.Packages))
		return false
	}
	exp := map[string][]string{}
	for _, p := range pkgs {
		exp[p.key()] = want(p)
	}
	for _, p := range out.Packages {
		w, ok := exp[p.Key()]
		if !ok {
			k.Violate("unexpected package %s", p.Key())
			return false
		}
		got := append(ids(p.Vulns), ids(p.Ignored)...)
		if s := diff(w, got); s != "" {
			k.Violate("advisories reported for %s: %s", p.Key(), s)
			return false
		}
		c.Count("verdicts_affected", len(w))
		c.Count("verdicts", 1)
	}
	return true
}

func checkC06(c *Ctx) {
	c.Rule = "databases (dir and zip) of advisories whose affected entries vary ecosystem, suffix, name spelling, exact versions, several ranges of all types and shuffled events, checked against packages of which many almost match; every package x advisory verdict is compared with a reference of the OSV evaluation rules over ladders of versions with a known order; non-trivial when at least one verdict is 'affected' and one is not; distinct by database and packages"
	c.Assume = []string{"events of one range have distinct versions: the OSV schema does not define ties", "advisories have no aliases here (see C08)"}
	ecos := []string{"npm", "PyPI", "Debian", "Debian:10", "Debian:11", "Debian:1", "Maven", "pypi", "Alpine:v3.14", "Alpine", "Alpine:v3.1", "Packagist", "PyPI:x", "PyPI:y"}
	c.Each("match", c.N(7000, 120000), func(i int, r *R) {
		k := c.NewCase()
		defer k.Done()
		ladderOf := func(eco string) ladder {
			if l, ok := ladders[ecoBase(eco)]; ok {
				return l
			}
			return semverLadder
		}
		// a few ecosystems and names, so that most things nearly match
		my := []string{pick(r, ecos), pick(r, ecos), pick(r, ecos)}
		names := []string{pick(r, nameVariants), pick(r, nameVariants), pick(r, nameVariants)}
		if r.P(.4) {
			names = []string{"foo-bar", "foo_bar", "Foo.Bar", "foo--bar"}
		}
		var pkgs []refPkg
		seen := map[string]bool{}
		for range r.Range(2, 14) {
			p := refPkg{Eco: pick(r, my), Name: pick(r, names)}
			if ecoBase(p.Eco) == "pypi" {
				p.As = "npm" // not an ecosystem that versions can be compared for
			}
			l := ladderOf(orDefault(p.As, p.Eco))
			if r.P(.93) {
				p.Ver = pick(r, l)[0]
				if r.P(.3) {
					p.Ver = pick(r, pick(r, l))
				}
			}
			if !seen[p.key()] {
				seen[p.key()] = true
				pkgs = append(pkgs, p)
			}
		}
		if i%90 == 31 { // real projects have hundreds of packages
			for n := range r.Range(300, 1500) {
				pkgs = append(pkgs, refPkg{Eco: my[0], As: "npm", Name: fmt.Sprintf("%s%d", r.Pick("aa", "filler", "zz"), n), Ver: "1.0.0"})
			}
			shuffle(r, pkgs)
			c.Mark("sizes", "many packages")
		}
		var advs []OSV
		for j := range r.Range(1, 12) {
			a := OSV{ID: fmt.Sprintf("%s-%d", r.Pick("GHSA", "CVE", "X"), j)}
			if r.P(.08) {
				a.Withdrawn = timeStr(r)
				if r.P(.3) { // whenever that is
					a.Withdrawn = r.Pick("2999-01-01T00:00:00Z", "0001-01-01T00:00:00Z", "1970-01-01T00:00:00Z", "2021-05-06T07:08:09.123456789+12:00")
				}
			}
			if r.P(.3) {
				a.Published, a.Modified = timeStr(r), timeStr(r)
			}
			for range r.Range(0, 3) {
				f := Affected{Package: Pkg{Ecosystem: pick(r, my), Name: pick(r, names)}}
				l := ladderOf(f.Package.Ecosystem)
				if r.P(.35) {
					for range r.Range(1, 5) {
						v := pick(r, l)[0]
						if r.P(.15) {
							v = r.Pick("v"+v, v+".0", v+" ", "1", "", "="+v, strings.ToUpper(v), strings.ToUpper(v), strings.ReplaceAll(v, ".", "-"), "0"+v, v+"+build")
							if v == "" {
								continue
							}
						}
						f.Versions = append(f.Versions, v)
					}
				}
				for range r.IntN(4) {
					typ := r.Pick("SEMVER", "ECOSYSTEM", "ECOSYSTEM", "GIT")
					g := Rng{Type: typ}
					if typ == "GIT" {
						g.Events = []Event{{"introduced": "0"}, {"fixed": r.Sha()}}
						if r.P(.5) {
							g.Events = g.Events[:1]
						}
					} else {
						g.Events = genEvents(r, l)
						if r.P(.03) {
							g.Events = []Event{}
						}
					}
					f.Ranges = append(f.Ranges, g)
				}
				a.Affected = append(a.Affected, f)
			}
			if i%70 == 11 && len(a.Affected) > 0 { // some advisories are long
				f := &a.Affected[len(a.Affected)-1]
				switch r.IntN(3) {
				case 0:
					for n := range r.Range(60, 1200) {
						f.Versions = append(f.Versions, fmt.Sprintf("9.%d.%d", n%7, n))
					}
					f.Versions = append(f.Versions, pick(r, ladderOf(f.Package.Ecosystem))[0])
					shuffle(r, f.Versions)
				case 1:
					var l []Affected
					for n := range r.Range(90, 400) {
						l = append(l, Affected{Package: Pkg{Ecosystem: pick(r, my), Name: fmt.Sprintf("filler-%d", n)}, Versions: []string{"1.0.0"}})
					}
					a.Affected = append(l, a.Affected...)
				case 2: // only the last range matters
					var l []Rng
					for range r.Range(30, 150) {
						l = append(l, Rng{Type: "GIT", Events: []Event{{"introduced": r.Sha()}, {"fixed": r.Sha()}}})
					}
					f.Ranges = append(l, f.Ranges...)
				}
				c.Count("long_advisories", 1)
			}
			advs = append(advs, a)
		}
		// ladders of the same base ecosystem are shared, so that a version always has a place in the
		// ladder of the advisory; leave out what cannot be compared
		for ai := range advs {
			for fi := range advs[ai].Affected {
				f := &advs[ai].Affected[fi]
				if ecoBase(f.Package.Ecosystem) == "pypi" {
					for gi := range f.Ranges {
						if f.Ranges[gi].Type != "GIT" {
							f.Ranges[gi].Events = genEvents(r, semverLadder)
						}
					}
				}
			}
		}
		asZip := r.P(.3)
		e, s := k.extraDB(r, "db", advs, asZip)
		if s != nil {
			defer c.EndScenario(s)
		}
		var rows []string
		for _, p := range pkgs {
			rows = append(rows, p.row())
		}
		shuffle(r, rows)
		k.Write("in/.osv-detector.yml", configYAML(nil, []dbEntry{e}))
		k.Write("in/p.csv", strings.Join(rows, "\n"))
		res := k.Run("--json", "--use-dbs=false", "csv-file:in/p.csv")
		out, err := parseOut(res.Out)
		if err != nil || len(out.Results) != 1 || (res.Exit != 0 && res.Exit != 1) {
			k.Violate("unexpected outcome: %v %s", err, res)
			return
		}
		hit, miss := 0, 0
		ok := judgeFindings(c, k, out.Results[0], pkgs, func(p refPkg) []string {
			var w []string
			for _, a := range advs {
				if refAffected(a, p) {
					w = append(w, a.ID)
					hit++
				} else {
					miss++
				}
			}
			return w
		})
		if !ok {
			return
		}
		if (hit > 0) != (res.Exit == 1) {
			k.Violate("%d affected but exit code %d", hit, res.Exit)
		}
		c.Mark("database_kinds", e.Type+map[bool]string{true: "zip", false: "dir"}[asZip])
		c.Seen(hit > 0 && miss > 0, toJSON(advs)+strings.Join(rows, "\n"))
		if i == 0 {
			c.Sample(map[string]any{"advisories": advs, "rows": rows})
		}
	})
	// the ecosystem whose versions a package is compared by says nothing else about it
	plain := ladder{{"0.9.0"}, {"0.10.0"}, {"1.0.0"}, {"1.0.1"}, {"1.2.0"}, {"1.10.0"}, {"2.0.0"}, {"10.0.0"}}
	c.Each("crossed", c.N(700, 12000), func(i int, r *R) {
		k := c.NewCase()
		defer k.Done()
		my := []string{"npm", "PyPI", "Maven", "crates.io", "Packagist"}
		names := []string{"foo-bar", "foo_bar", "Foo.Bar", "foo--bar", "foo"}
		var pkgs []refPkg
		seen := map[string]bool{}
		for range r.Range(2, 12) {
			p := refPkg{Eco: r.Pick("npm", "PyPI", pick(r, my)), As: r.Pick("npm", "PyPI", pick(r, my)), Name: pick(r, names), Ver: pick(r, plain)[0]}
			if !seen[p.Eco+p.Name+p.Ver] {
				seen[p.Eco+p.Name+p.Ver] = true
				pkgs = append(pkgs, p)
			}
		}
		var advs []OSV
		for j := range r.Range(1, 8) {
			a := OSV{ID: fmt.Sprintf("%s-%d", r.Pick("GHSA", "CVE", "X"), j)}
			for range r.Range(1, 2) {
				f := Affected{Package: Pkg{Ecosystem: r.Pick("npm", "PyPI", pick(r, my)), Name: pick(r, names)}}
				switch r.IntN(3) {
				case 0:
					f.Versions = []string{pick(r, plain)[0], pick(r, plain)[0]}
				case 1:
					f.Ranges = []Rng{{Type: "ECOSYSTEM", Events: []Event{{"introduced": "0"}}}}
				default:
					f.Ranges = []Rng{{Type: r.Pick("ECOSYSTEM", "SEMVER"), Events: genEvents(r, plain)}}
				}
				a.Affected = append(a.Affected, f)
			}
			advs = append(advs, a)
		}
		e, s := k.extraDB(r, "db", advs, r.P(.2))
		if s != nil {
			defer c.EndScenario(s)
		}
		var rows []string
		for _, p := range pkgs {
			rows = append(rows, p.row())
		}
		k.Write("in/.osv-detector.yml", configYAML(nil, []dbEntry{e}))
		k.Write("in/p.csv", strings.Join(rows, "\n"))
		args := []string{"--json", "--use-dbs=false", "csv-file:in/p.csv"}
		if r.P(.3) {
			k.Write(".osv-detector.yml", configYAML(nil, []dbEntry{e}))
			args = append([]string{"--json", "--use-dbs=false", "--config", "in/.osv-detector.yml", "--parse-as", "csv-row"}, rows...)
		}
		res := k.Run(args...)
		out, err := parseOut(res.Out)
		if err != nil || len(out.Results) != 1 || (res.Exit != 0 && res.Exit != 1) {
			k.Violate("unexpected outcome: %v %s", err, res)
			return
		}
		hit, miss := 0, 0
		if !judgeFindings(c, k, out.Results[0], pkgs, func(p refPkg) []string {
			var w []string
			for _, a := range advs {
				if refAffectedIn(a, p, plain) {
					w = append(w, a.ID)
					hit++
				} else {
					miss++
				}
			}
			return w
		}) {
			return
		}
		if (hit > 0) != (res.Exit == 1) {
			k.Violate("%d affected but exit code %d", hit, res.Exit)
		}
		c.Mark("database_kinds", "compared as another ecosystem")
		c.Seen(hit > 0 && miss > 0, toJSON(advs)+strings.Join(rows, "\n"))
	})
	endToEnd(c)
}

// endToEnd: what any lockfile records is what the databases are asked for.
func endToEnd(c *Ctx) {
	var gens []string
	for g := range allGens {
		gens = append(gens, g)
	}
	slices.Sort(gens)
	c.Each("lockfile", c.N(1600, 30000), func(i int, r *R) {
		k := c.NewCase()
		defer k.Done()
		type pkg struct{ eco, name, ver, key string }
		var docs []*Doc
		var pkgs []pkg
		for j := range r.Range(1, 2) {
			d := allGens[gens[(i+j*7)%len(gens)]](r)
			docs = append(docs, d)
			for f, s := range d.Files {
				k.Write(path.Join(fmt.Sprintf("in%d", j), f), s)
			}
			for _, key := range d.keys() {
				f := strings.Split(key, "|")
				pkgs = append(pkgs, pkg{f[0], f[1], f[2], key})
			}
		}
		if len(pkgs) == 0 {
			return
		}
		norm := func(eco, name string) string {
			if eco == "PyPI" {
				return pyNorm(name)
			}
			return name
		}
		var advs []OSV
		want := map[string][]string{}
		for n := range r.Range(1, 6) {
			q := pick(r, pkgs)
			a := OSV{ID: fmt.Sprintf("OSV-%d", n)}
			f := Affected{Package: Pkg{Name: q.name, Ecosystem: q.eco}}
			all := true
			switch r.IntN(4) {
			case 0, 1:
				f.Ranges = []Rng{{"ECOSYSTEM", []Event{{"introduced": "0"}}}}
			case 2:
				f.Versions, all = []string{"99999.0.0-none", orDefault(q.ver, "1.0.0")}, false
			case 3: // close, but not it
				f.Package.Name = r.Pick(q.name+"x", "x"+q.name, q.name+"/"+q.name)
				f.Ranges = []Rng{{"ECOSYSTEM", []Event{{"introduced": "0"}}}}
			}
			a.Affected = []Affected{f}
			advs = append(advs, a)
			for _, p := range pkgs {
				if p.eco == q.eco && norm(p.eco, p.name) == norm(p.eco, f.Package.Name) && (all || p.ver == "" || slices.Contains(f.Versions, p.ver)) {
					want[p.key] = append(want[p.key], a.ID)
				}
			}
		}
		e, s := k.extraDB(r, "db", advs, r.P(.15))
		if s != nil {
			defer c.EndScenario(s)
		}
		k.Write("c.yml", configYAML(nil, []dbEntry{e}))
		args := []string{"--json", "--use-dbs=false", "--config=c.yml"}
		for j, d := range docs {
			args = append(args, fmt.Sprintf("in%d/%s", j, d.Format))
		}
		res := k.Run(args...)
		out, err := parseOut(res.Out)
		if err != nil || len(out.Results) != len(docs) || (res.Exit != 0 && res.Exit != 1) {
			k.Violate("unexpected outcome: %v %s", err, res)
			return
		}
		hit := 0
		for j, o := range out.Results {
			seen := map[string]bool{}
			for _, p := range o.Packages {
				seen[p.Key()] = true
				w := slices.Compact(slices.Sorted(slices.Values(want[p.Key()])))
				if s := diff(w, ids(p.Vulns)); s != "" {
					k.Violate("advisories reported for %s of %s: %s", p.Key(), o.FilePath, s)
					return
				}
				hit += len(w)
				c.Count("verdicts_from_lockfiles", 1)
			}
			for key := range docs[j].Want {
				if len(want[key]) > 0 && !seen[key] {
					k.Violate("%s of %s is affected but not reported", key, o.FilePath)
					return
				}
			}
		}
		if (hit > 0) != (res.Exit == 1) {
			k.Violate("%d affected but exit code %d", hit, res.Exit)
		}
		c.Mark("lockfile_formats", docs[0].Format)
		c.Seen(hit > 0, toJSON(advs)+docs[0].Files[docs[0].Format])
	})
}

func checkC07(c *Ctx) {
	c.Rule = "for each of the comparable ecosystems, ranges with random introduced/fixed/last_affected events spelt in any equal way, checked against every version of a ladder whose order (and equalities) is known, under the ecosystem itself, with a release suffix and as compare-as of another ecosystem; plus versions that cannot be compared, which must be reported; non-trivial when the ladder is split into affected and unaffected; distinct by ranges and ecosystem"
	c.Assume = []string{"the order of the versions in the ladders is as documented for each ecosystem", "events of one range that have the same version are only given in their natural order"}
	c.Each("ladder", c.N(4000, 60000), func(i int, r *R) {
		k := c.NewCase()
		defer k.Done()
		eco := ladderNames[i%len(ladderNames)]
		l := ladders[eco]
		pe, as := eco, ""
		switch r.IntN(4) {
		case 0:
			pe, as = pick(r, ladderNames), eco
			c.Mark("modes", "compare-as")
		case 1:
			pe = eco + ":" + r.Pick("10", "v3.14", "8", "Pro:20.04")
			c.Mark("modes", "suffix")
		case 2:
			pe, as = "my-own-ecosystem", eco+r.Pick("", ":11")
			c.Mark("modes", "compare-as-unknown")
		default:
			c.Mark("modes", "own")
		}
		var pkgs []refPkg
		for _, sp := range l {
			for _, v := range sp {
				pkgs = append(pkgs, rp(pe, as, "pkg", v))
			}
		}
		var advs []OSV
		for j := range r.Range(4, 10) {
			a := OSV{ID: fmt.Sprintf("OSV-%d", j)}
			es := genEvents(r, l)
			if r.P(.35) { // a plain boundary
				p := r.IntN(len(l))
				es = []Event{{"introduced": "0"}, {r.Pick("fixed", "last_affected"): pick(r, l[p])}}
				if r.P(.5) {
					es[0], es[1] = es[1], es[0]
				}
				switch r.IntN(6) {
				case 0, 1:
					es = []Event{{"introduced": pick(r, l[p])}}
				case 2: // exactly one version
					es = []Event{{"introduced": pick(r, l[p])}, {"last_affected": pick(r, l[p])}}
					c.Mark("modes", "single-version-range")
				case 3: // fixed and broken again in the same version
					if p+1 < len(l) {
						es = []Event{{"introduced": "0"}, {"fixed": pick(r, l[p])}, {"introduced": pick(r, l[p])}, {"fixed": pick(r, l[r.Range(p+1, len(l)-1)])}}
						c.Mark("modes", "adjacent-ranges")
					}
				}
			}
			a.Affected = []Affected{{Package: Pkg{"pkg", r.Pick(pe, ecoBase(pe))}, Ranges: []Rng{{r.Pick("ECOSYSTEM", "SEMVER"), es}}}}
			advs = append(advs, a)
		}
		e, s := k.extraDB(r, "db", advs, r.P(.1))
		if s != nil {
			defer c.EndScenario(s)
		}
		var rows []string
		for _, p := range pkgs {
			rows = append(rows, p.row())
		}
		k.Write("in/.osv-detector.yml", configYAML(nil, []dbEntry{e}))
		k.Write("in/p.csv", strings.Join(rows, "\n"))
		res := k.Run("--json", "--use-dbs=false", "csv-file:in/p.csv")
		out, err := parseOut(res.Out)
		if err != nil || len(out.Results) != 1 || (res.Exit != 0 && res.Exit != 1) {
			k.Violate("unexpected outcome: %v %s", err, res)
			return
		}
		hit, miss := 0, 0
		if !judgeFindings(c, k, out.Results[0], pkgs, func(p refPkg) []string {
			var w []string
			for _, a := range advs {
				if refAffected(a, p) {
					w = append(w, a.ID)
					hit++
				} else {
					miss++
				}
			}
			return w
		}) {
			return
		}
		c.Mark("ecosystems", eco)
		c.Seen(hit > 0 && miss > 0, pe+as+toJSON(advs))
		if i == 0 {
			c.Sample(map[string]any{"ecosystem": pe, "compare_as": as, "advisories": advs})
		}
	})
	// lockfiles are compared as the ecosystem of their packages
	c.Each("lockfile", c.N(1000, 10000), func(i int, r *R) {
		k := c.NewCase()
		defer k.Done()
		type fm struct {
			eco, file string
			make      func(n, v string) string
		}
		fms := []fm{
			{"npm", "package-lock.json", func(n, v string) string {
				return `{"lockfileVersion":3,"packages":{"node_modules/` + n + `":{"version":"` + v + `"}}}`
			}},
			{"PyPI", "requirements.txt", func(n, v string) string { return n + "==" + v + "\n" }},
			{"RubyGems", "Gemfile.lock", func(n, v string) string { return "GEM\n  specs:\n    " + n + " (" + v + ")\n" }},
			{"Packagist", "composer.lock", func(n, v string) string {
				return `{"packages":[{"name":"` + n + `","version":"` + v + `"}]}`
			}},
			{"Maven", "gradle.lockfile", func(n, v string) string { return n + ":" + n + ":" + v + "=x\n" }},
			{"crates.io", "Cargo.lock", func(n, v string) string { return "[[package]]\nname = \"" + n + "\"\nversion = \"" + v + "\"\n" }},
			{"NuGet", "packages.lock.json", func(n, v string) string {
				return `{"version":1,"dependencies":{"net6.0":{"` + n + `":{"resolved":"` + v + `"}}}}`
			}},
			{"Pub", "pubspec.lock", func(n, v string) string { return "packages:\n  " + n + ":\n    version: \"" + v + "\"\n" }},
			{"Hex", "mix.lock", func(n, v string) string {
				return "%{\n  \"" + n + "\": {:hex, :" + n + ", \"" + v + "\", \"abc\", [:mix]},\n}\n"
			}},
			{"CRAN", "renv.lock", func(n, v string) string {
				return `{"Packages":{"` + n + `":{"Package":"` + n + `","Version":"` + v + `"}}}`
			}},
			{"Go", "go.mod", func(n, v string) string { return "module x\n\nrequire " + n + ".test/x v" + v + "\n" }},
		}
		f := fms[i%len(fms)]
		l := ladders[f.eco]
		v := pick(r, l)[0]
		if f.eco == "Go" {
			for strings.Contains(v, "+") || !strings.HasPrefix(v, "0.") && !strings.HasPrefix(v, "1.") {
				v = pick(r, l)[0]
			}
		}
		name := "thing"
		switch f.eco {
		case "Maven":
			name = "thing:thing"
		case "Go":
			name = "thing.test/x"
		}
		var advs []OSV
		for j := range 12 {
			advs = append(advs, inRange(fmt.Sprintf("OSV-%d", j), f.eco, name, r.Pick("ECOSYSTEM", "SEMVER"), genEvents(r, l)...))
		}
		e, _ := k.extraDB(r, "db", advs, false)
		k.Write("in/.osv-detector.yml", configYAML(nil, []dbEntry{e}))
		k.Write("in/"+f.file, f.make("thing", v))
		res := k.Run("--json", "--use-dbs=false", "in/"+f.file)
		out, err := parseOut(res.Out)
		if err != nil || len(out.Results) != 1 || len(out.Results[0].Packages) != 1 {
			k.Violate("unexpected outcome: %v %s", err, res)
			return
		}
		var want []string
		for _, a := range advs {
			if refAffected(a, rp(f.eco, "", name, v)) {
				want = append(want, a.ID)
			}
		}
		if s := diff(want, ids(out.Results[0].Packages[0].Vulns)); s != "" {
			k.Violate("%s@%s from %s: %s", name, v, f.file, s)
			return
		}
		c.Mark("lockfiles", f.file)
		c.Seen(len(want) > 0 && len(want) < len(advs), f.file+v+toJSON(advs))
	})
	c.Each("incomparable", c.N(600, 6000), func(i int, r *R) {
		k := c.NewCase()
		defer k.Done()
		p := rp("my-own-ecosystem", "", "pkg", "1.0.0")
		es := []Event{{"introduced": "0"}, {"fixed": "2.0.0"}}
		bad := ""
		switch i % 4 {
		case 0: // nothing knows how to compare these
			p.Ver = r.Pick("1.0.0", "5.0.0", "abc", "1:2")
			p.Eco = r.Pick("my-own-ecosystem", "NPM", "pypi", "debian:10")
			bad = "ecosystem"
		case 1:
			p.As = r.Pick("nope", "Pypi", "cratesio")
			p.Eco = r.Pick("npm", "PyPI", "Debian")
			bad = "compare-as"
		case 2:
			p.Eco = r.Pick("Debian", "Ubuntu:20.04")
			p.Ver = r.Pick("x:1.0-1", "1a:1.0")
			bad = "version"
		case 3:
			p.Eco = r.Pick("Debian", "Debian:10")
			p.Ver = "5.0-1"
			es = []Event{{"introduced": "0"}, {"fixed": r.Pick("x:1.0-1", "?:2")}}
			bad = "event"
		}
		a := inRange("OSV-1", p.Eco, "pkg", "ECOSYSTEM", es...)
		other := inRange("OSV-2", p.Eco, "other", "ECOSYSTEM", es...)
		pkgs := []refPkg{p}
		if bad == "event" && r.P(.7) { // anywhere in the range, for any version
			evs := genEvents(r, debianLadder)
			at := r.IntN(len(evs) + 1)
			evs = append(evs[:at:at], append([]Event{{r.Pick("introduced", "fixed", "last_affected"): r.Pick("x:1.0-1", "?:2", "1a:1")}}, evs[at:]...)...)
			a.Affected[0].Ranges[0].Events = evs
			pkgs[0].Ver = pick(r, pick(r, debianLadder))
		}
		if r.P(.5) { // with other ranges and entries, of which none matters
			git := Rng{"GIT", []Event{{"introduced": "0"}}}
			rs := append(a.Affected[0].Ranges, git)
			shuffle(r, rs)
			a.Affected[0].Ranges = rs
			more := []Affected{{Package: Pkg{"pkg2", p.Eco}, Versions: []string{p.Ver}}, {Package: Pkg{"pkg", "SomethingElse"}, Versions: []string{p.Ver}}, a.Affected[0], {Package: Pkg{"pkg", p.Eco}, Versions: []string{"none"}}}
			shuffle(r, more)
			a.Affected = more
		}
		want := map[string][]string{pkgs[0].key(): {"OSV-1"}}
		if r.P(.5) { // the other packages of the same run are judged as usual
			l := ladders["npm"]
			third := inRange("OSV-3", "npm", "plain", "SEMVER", genEvents(r, l)...)
			for range r.Range(1, 4) {
				q := rp("npm", "", "plain", pick(r, l)[0])
				if _, ok := want[q.key()]; ok {
					continue
				}
				want[q.key()] = nil
				if refAffected(third, q) {
					want[q.key()] = []string{"OSV-3"}
				}
				pkgs = append(pkgs, q)
			}
			shuffle(r, pkgs)
			other.Affected = append(other.Affected, third.Affected[0])
			other.ID = "OSV-3"
		}
		e, _ := k.extraDB(r, "db", []OSV{a, other}, false)
		k.Write("in/.osv-detector.yml", configYAML(nil, []dbEntry{e}))
		k.Write("in/p.csv", mkLock("csv-file", pkgs))
		res := k.Run("--json", "--use-dbs=false", "csv-file:in/p.csv")
		out, err := parseOut(res.Out)
		if err != nil || len(out.Results) != 1 || res.Exit != 1 || len(out.Results[0].Packages) != len(pkgs) {
			k.Violate("%s cannot be compared (%s) so it has to be reported, but got %v %s", p.key(), bad, err, res)
			return
		}
		for _, x := range out.Results[0].Packages {
			if s := diff(want[x.Key()], ids(x.Vulns)); s != "" {
				k.Violate("%s cannot be compared (%s) so it has to be reported; %s: %s", p.key(), bad, x.Key(), s)
				return
			}
		}
		c.Mark("incomparable", bad)
		c.Seen(true, p.key()+toJSON(es))
	})
}

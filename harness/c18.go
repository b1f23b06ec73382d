package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"regexp"
	"slices"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"
)

func init() { checks["C18"] = check{level: "exploration", net: true, f: checkC18} }

type textVuln struct{ id, desc string }
type textPkg struct {
	title string
	vulns []textVuln
}
type textFile struct {
	path    string
	found   int
	list    []string
	pkgs    []textPkg
	total   int
	ignored int
	summary bool
}

var (
	reFound  = regexp.MustCompile(`^(.*): found (\d+) (packages?)$`)
	rePkg    = regexp.MustCompile(`^  (\S.*) is affected by the following vulnerabilities:$`)
	reVuln   = regexp.MustCompile(`^    (\S+): (.*)$`)
	reNone   = regexp.MustCompile(`^  no (known|new) vulnerabilities found(?: \((\d+) (was|were) ignored\))?$`)
	reTotal  = regexp.MustCompile(`^  (\d+) (known|new) (vulnerability|vulnerabilities) found in (.*?)(?: \((\d+) (was|were) ignored\))?$`)
	reListed = regexp.MustCompile(`^  (\S.*?: .*)$`)
)

func plural(n int, one, many string) string {
	if n == 1 {
		return one
	}
	return many
}

// parseText reads the text output.
func parseText(s string, list bool) ([]textFile, error) {
	var fs []textFile
	var cur *textFile
	for n, line := range strings.Split(s, "\n") {
		bad := func(what string) error { return fmt.Errorf("line %d of the text output: %s: %q", n+1, what, line) }
		if m := reFound.FindStringSubmatch(line); m != nil && !strings.HasPrefix(line, "    ") {
			if cur != nil && !cur.summary && !list {
				return nil, bad("the previous lockfile has no summary")
			}
			k, _ := strconv.Atoi(m[2])
			if m[3] != plural(k, "package", "packages") {
				return nil, bad("wrong form")
			}
			fs = append(fs, textFile{path: m[1], found: k})
			cur = &fs[len(fs)-1]
			continue
		}
		if cur == nil {
			continue
		}
		if list {
			if m := reListed.FindStringSubmatch(line); m != nil {
				cur.list = append(cur.list, m[1])
			}
			continue
		}
		if m := rePkg.FindStringSubmatch(line); m != nil {
			if cur.summary {
				return nil, bad("a package after the summary")
			}
			cur.pkgs = append(cur.pkgs, textPkg{title: m[1]})
			continue
		}
		if m := reVuln.FindStringSubmatch(line); m != nil {
			if len(cur.pkgs) == 0 || cur.summary {
				return nil, bad("an advisory without a package")
			}
			p := &cur.pkgs[len(cur.pkgs)-1]
			p.vulns = append(p.vulns, textVuln{m[1], m[2]})
			continue
		}
		last := func() *textVuln {
			if cur.summary || len(cur.pkgs) == 0 || len(cur.pkgs[len(cur.pkgs)-1].vulns) == 0 {
				return nil
			}
			l := cur.pkgs[len(cur.pkgs)-1].vulns
			return &l[len(l)-1]
		}
		ign := func(s, form string) error {
			cur.ignored, _ = strconv.Atoi(s)
			if s != "" && (form != plural(cur.ignored, "was", "were") || cur.ignored == 0) {
				return bad("wrong form")
			}
			return nil
		}
		if m := reNone.FindStringSubmatch(line); m != nil {
			if err := ign(m[2], m[3]); err != nil {
				return nil, err
			}
			cur.summary = true
			continue
		}
		if m := reTotal.FindStringSubmatch(line); m != nil {
			cur.total, _ = strconv.Atoi(m[1])
			if m[3] != plural(cur.total, "vulnerability", "vulnerabilities") || cur.total == 0 {
				return nil, bad("wrong form")
			}
			if v := last(); v != nil { // the line before the summary is blank
				v.desc = strings.TrimSuffix(v.desc, "\n")
			}
			if m[4] != cur.path {
				return nil, bad("the summary is not for " + cur.path)
			}
			if err := ign(m[5], m[6]); err != nil {
				return nil, err
			}
			cur.summary = true
			continue
		}
		if v := last(); v != nil { // descriptions can have several lines
			v.desc += "\n" + line
		}
	}
	return fs, nil
}

// describes says if the text is a fair description of the advisory.
func describes(text string, v OutVuln) string {
	if strings.HasPrefix(v.ID, "GHSA") {
		link := " (https://github.com/advisories/" + v.ID + ")"
		if !strings.HasSuffix(text, link) {
			return "there is no link"
		}
		text = strings.TrimSuffix(text, link)
	}
	if !utf8.ValidString(text) {
		return "it is not valid UTF-8"
	}
	switch {
	case v.Summary != "":
		if text != v.Summary {
			return "it is not the summary"
		}
	case v.Details == "":
		if text == "" {
			return "it is empty"
		}
	case text == v.Details:
	default:
		t, cut := strings.CutSuffix(text, "...")
		if !cut || !strings.HasPrefix(v.Details, t) || utf8.RuneCountInString(v.Details) < 80 || utf8.RuneCountInString(t) > 80 {
			return "it is not the beginning of the details"
		}
	}
	return ""
}

// agree compares the text output with the JSON output.
func agree(o Output, txt []textFile, list bool) string {
	if len(o.Results) != len(txt) {
		return fmt.Sprintf("%d lockfiles in JSON but %d in text", len(o.Results), len(txt))
	}
	for i, f := range o.Results {
		t := txt[i]
		if f.FilePath != t.path {
			return fmt.Sprintf("result %d is for %s in JSON and for %s in text", i, f.FilePath, t.path)
		}
		if len(f.Packages) != t.found {
			return fmt.Sprintf("%s: %d packages in JSON but %d in text", f.FilePath, len(f.Packages), t.found)
		}
		for j := 1; j < len(f.Packages); j++ {
			a, b := f.Packages[j-1], f.Packages[j]
			if a.Name > b.Name || a.Name == b.Name && a.Version > b.Version {
				return fmt.Sprintf("%s: packages are not sorted: %s before %s", f.FilePath, a.Key(), b.Key())
			}
		}
		if list {
			var want []string
			for _, p := range f.Packages {
				s := orDefault(p.Ecosystem, "<unknown>") + ": " + p.Name
				if p.Version != "" {
					s += "@" + p.Version
				}
				if p.Commit != "" {
					s += " (" + p.Commit + ")"
				}
				want = append(want, s)
			}
			if !slices.Equal(want, t.list) {
				return fmt.Sprintf("%s: listed %q in text, expected %q", f.FilePath, t.list, want)
			}
			continue
		}
		n, ig, at := 0, 0, 0
		for _, p := range f.Packages {
			n += len(p.Vulns)
			ig += len(p.Ignored)
			if len(p.Vulns) == 0 {
				continue
			}
			if at >= len(t.pkgs) {
				return fmt.Sprintf("%s: %s has vulnerabilities in JSON but not in text", f.FilePath, p.Key())
			}
			x := t.pkgs[at]
			at++
			if x.title != p.Name+"@"+p.Version {
				return fmt.Sprintf("%s: %s is in text where %s is in JSON", f.FilePath, x.title, p.Key())
			}
			if len(x.vulns) != len(p.Vulns) {
				return fmt.Sprintf("%s: %s has %v in text and %v in JSON", f.FilePath, x.title, x.vulns, ids(p.Vulns))
			}
			for y, v := range p.Vulns {
				if x.vulns[y].id != v.ID {
					return fmt.Sprintf("%s: %s has %v in text and %v in JSON", f.FilePath, x.title, x.vulns, ids(p.Vulns))
				}
				if s := describes(x.vulns[y].desc, v); s != "" {
					return fmt.Sprintf("%s is described by %q: %s", v.ID, x.vulns[y].desc, s)
				}
			}
		}
		if at != len(t.pkgs) {
			return fmt.Sprintf("%s: text has %d packages with vulnerabilities, JSON %d", f.FilePath, len(t.pkgs), at)
		}
		if n != t.total || ig != t.ignored || !t.summary {
			return fmt.Sprintf("%s: text says %d vulnerabilities and %d ignored (summary: %v), JSON has %d and %d", f.FilePath, t.total, t.ignored, t.summary, n, ig)
		}
	}
	return ""
}

// shape checks the JSON document beyond what can be decoded leniently.
func shape(b []byte, list bool) string {
	var doc map[string]any
	if err := json.Unmarshal(b, &doc); err != nil {
		return err.Error()
	}
	rs, ok := doc["results"].([]any)
	if !ok || len(doc) != 1 {
		return "it does not consist of a results array"
	}
	for _, x := range rs {
		f, ok := x.(map[string]any)
		if !ok {
			return "a result is not an object"
		}
		if _, ok := f["filePath"].(string); !ok {
			return "a result has no filePath"
		}
		if _, ok := f["parsedAs"].(string); !ok {
			return "a result has no parsedAs"
		}
		ps, ok := f["packages"].([]any)
		if !ok && !(list && f["packages"] == nil) {
			return "a result has no packages array"
		}
		for _, y := range ps {
			p, ok := y.(map[string]any)
			if !ok {
				return "a package is not an object"
			}
			if _, ok := p["name"].(string); !ok {
				return "a package has no name"
			}
			if list {
				continue
			}
			for _, key := range []string{"vulnerabilities", "ignored"} {
				if _, ok := p[key].([]any); !ok {
					return "a package has no " + key + " array"
				}
			}
		}
	}
	return ""
}

func c18Judge(c *Ctx, k *Case, cmd []string, list bool, wantFiles []string) (Output, bool) {
	js := k.Run(append([]string{"--json"}, cmd...)...)
	tx := k.Run(cmd...)
	o, err := parseOut(js.Out)
	if err != nil {
		k.Violate("%v: %s", err, js)
		return o, false
	}
	if s := shape(js.Out, list); s != "" {
		k.Violate("the JSON document is not well formed: %s\n%s", s, js.Out)
		return o, false
	}
	if js.Exit != tx.Exit {
		k.Violate("exit code %d with --json and %d without", js.Exit, tx.Exit)
		return o, false
	}
	var got []string
	for _, f := range o.Results {
		got = append(got, f.FilePath)
	}
	if !slices.Equal(wantFiles, got) {
		k.Violate("the results are for %q, expected %q", got, wantFiles)
		return o, false
	}
	txt, err := parseText(string(tx.Out), list)
	if err != nil {
		k.Violate("%v", err)
		return o, false
	}
	if s := agree(o, txt, list); s != "" {
		k.Violate("%s", s)
		return o, false
	}
	// with --json everything else is on stderr
	for _, f := range o.Results {
		if !strings.Contains(string(js.Err), fmt.Sprintf("%s: found %d %s\n", f.FilePath, len(f.Packages), plural(len(f.Packages), "package", "packages"))) {
			k.Violate("%s is not on stderr with --json:\n%s", f.FilePath, js.Err)
			return o, false
		}
	}
	c.Count("outputs_compared", 1)
	c.Mark("exit_codes", fmt.Sprint(js.Exit))
	return o, true
}

func checkC18(c *Ctx) {
	c.Rule = "the same scans with and without --json (several lockfiles, configs, ignores, databases that fail, lockfiles that fail, package listing, odd names, summaries and details); the text output is parsed and compared with the JSON document package by package, and the JSON document with the advisories of the database; every other way to end a run with --json must give one JSON document, too; non-trivial when there are results; distinct by flags and results"
	c.Each("world", c.N(2200, 40000), func(i int, r *R) {
		al := 0.0
		if r.P(.3) {
			al = .08
		}
		w := newWorld(c, r, worldOpts{zips: true, apis: true, aliases: al, minDBs: 1, dirs: 4, many: .015, broken: .06, invalid: .04, badDB: .06, faults: .06})
		k := w.k
		defer w.Done()
		cmd := []string{"--use-dbs=false"}
		list := r.P(.2)
		if list {
			cmd = append(cmd, "--list-packages")
		}
		for range r.IntN(4) {
			cmd = append(cmd, "--ignore", pick(r, w.IDs))
		}
		if r.P(.1) {
			cmd = append(cmd, "--no-config-ignores")
		}
		var want []string
		for _, f := range w.Files {
			if r.P(.05) {
				cmd = append(cmd, "missing/"+f.path)
			}
			cmd = append(cmd, f.arg)
			if f.broken == "" && (list || w.Conf[f.dir].invalid == "") {
				want = append(want, f.path)
			}
		}
		o, ok := c18Judge(c, k, cmd, list, want)
		if ok {
			c.Seen(len(o.Results) > 0, fmt.Sprint(cmd, toJSON(o)))
		}
		if i == 0 {
			c.Sample(map[string]any{"args": cmd, "results": want})
		}
	})
	odd := []string{"100% sure %s %d %v", "<b>&amp;\"quoted\"</b>", "ünïcödé ✓ 漢字", "tab\there", "back\\slash", "'single'", "a: b: c", "no known vulnerabilities", "\u2028sep", "{}", "null", "one\ntwo", "\nlate", "early\n", "a\n\nb", "win\r\ndows", " ", " lead", "trail ", "One. Two.", "- x"}
	c.Each("odd", c.N(2200, 40000), func(i int, r *R) {
		k := c.NewCase()
		defer k.Done()
		names := []string{"alpha", "be%ta", "gam%sma", "del ta", "é-x", "a/b", "@s/n", "<x>", "x&y", `q"q`, "Zed", "under_score", "a:b"}
		vers := []string{"1.0.0", "1.2.0", "1.10.0", "", "2.0.0-rc.1", "0.1.0"}
		var rows []string
		for range r.Range(0, 9) {
			if r.P(.1) {
				rows = append(rows, csvRow("", "", pick(r, names), r.Sha()))
				continue
			}
			rows = append(rows, csvRow(r.Pick("npm", "crates.io"), "", pick(r, names), pick(r, vers)))
		}
		var advs []OSV
		by := map[string]OSV{}
		for j := range r.IntN(8) {
			a := OSV{ID: r.Pick("GHSA", "GHSA-j8xg-fqg3-53r"+r.Pick("7", "x"), "CVE", "OSV", "X%d") + fmt.Sprintf("-%d", j)}
			if r.P(.7) {
				a.Summary = pick(r, odd)
			}
			if r.P(.7) {
				switch r.IntN(3) {
				case 0:
					a.Details = pick(r, odd)
				case 1:
					for range r.Range(5, 60) {
						a.Details += r.Pick("word", "漢字漢字", "é", "longerwordhere", "x", "end.", "##") + r.Pick(" ", " ", " ", "\n", "\t", "\n\n", "\r\n", "\u00a0")
					}
					a.Details = strings.TrimSpace(a.Details)
				default:
					a.Details = strings.Repeat(r.Pick("x", "é", "漢"), r.Range(70, 90))
				}
			}
			if r.P(.3) {
				a.Aliases = []string{fmt.Sprintf("Z-ALIAS-%d", j), fmt.Sprintf("ALIAS-%d", j), fmt.Sprintf("m-%d", j)}[:r.Range(1, 3)]
			}
			if r.P(.5) {
				a.Published, a.Modified = timeStr(r), timeStr(r)
			}
			for range r.Range(1, 6) {
				f := Affected{Package: Pkg{pick(r, names), r.Pick("npm", "crates.io")}}
				if r.P(.3) {
					f.Versions = []string{pick(r, vers)}
				}
				if len(f.Versions) == 0 || r.P(.8) {
					es := []Event{{"introduced": "0"}}
					if r.P(.6) {
						es = append(es, Event{"fixed": r.Pick("1.1.0", "1.9.0", "3.0.0")})
						if r.P(.4) {
							es = append(es, Event{"introduced": "4.0.0"}, Event{"last_affected": "5.0.0"})
						}
						shuffle(r, es)
					}
					f.Ranges = []Rng{{"SEMVER", es}}
				}
				a.Affected = append(a.Affected, f)
			}
			advs = append(advs, a)
			by[a.ID] = a
		}
		k.Mkdir("db")
		for j, a := range advs {
			k.Write(fmt.Sprintf("db/%d.json", j), a.JSON())
		}
		dir := r.Pick("p", "p%d", "sp ace", "é")
		k.Write(dir+"/x.csv", strings.Join(rows, "\n")+"\n")
		var ign []string
		for _, a := range advs {
			if r.P(.25) {
				ign = append(ign, a.ID)
			}
		}
		k.Write(dir+"/.osv-detector.yml", configYAML(ign, []dbEntry{{URL: "file:/db", Name: r.Pick("", "my %d db")}}))
		cmd := []string{"--use-dbs=false"}
		list := r.P(.15)
		if list {
			cmd = append(cmd, "--list-packages")
		}
		cmd = append(cmd, "csv-file:"+dir+"/x.csv")
		o, ok := c18Judge(c, k, cmd, list, []string{dir + "/x.csv"})
		if !ok {
			return
		}
		n := 0
		for _, p := range o.Results[0].Packages {
			for _, v := range append(append([]OutVuln{}, p.Vulns...), p.Ignored...) {
				n++
				c.Count("advisories_compared", 1)
				if v.ID == "" {
					k.Violate("an advisory without an ID was reported")
					return
				}
			}
		}
		// the advisories in the document are those of the database
		if s := sameAdvisories(k.cmds, o, by); s != "" {
			k.Violate("%s", s)
			return
		}
		c.Seen(n > 0, fmt.Sprint(cmd, rows, toJSON(advs)))
	})
	// a document of any size is whole
	c.EachW("large", c.N(3, 12), 3, func(i int, r *R) {
		k := c.NewCase()
		defer k.Done()
		var advs []OSV
		by := map[string]OSV{}
		pad := strings.Repeat("word & é ", 30000)
		n := pick(r, []int{10, 70, 130})
		for j := range n {
			a := allVersions(fmt.Sprintf("BIG-%d", j), "npm", fmt.Sprintf("p%d", j%9))
			a.Details = fmt.Sprintf("%d%s%d", j, pad, j)
			advs, by[a.ID] = append(advs, a), a
		}
		var rows []string
		for j := range 9 {
			rows = append(rows, csvRow("npm", "", fmt.Sprintf("p%d", j), "1.0.0"))
		}
		e, s := k.extraDB(r, "db", advs, false)
		if s != nil {
			defer c.EndScenario(s)
		}
		k.Write("in/p.csv", strings.Join(rows, "\n"))
		k.Write("in/.osv-detector.yml", configYAML(nil, []dbEntry{e}))
		res := k.RunX(Run{Args: []string{"--json", "--use-dbs=false", "csv-file:in/p.csv"}, Limit: 300 * time.Second})
		o, err := parseOut(res.Out)
		if err != nil || res.Exit != 1 || len(o.Results) != 1 || len(o.Results[0].Packages) != 9 {
			k.Violate("%d large advisories gave %v (%d bytes), exit code %d: %.300s", n, err, len(res.Out), res.Exit, res.Err)
			return
		}
		got := 0
		for _, p := range o.Results[0].Packages {
			got += len(p.Vulns)
		}
		if s := sameAdvisories(nil, o, by); s != "" || got != n {
			k.Violate("%d of %d large advisories in the document: %.300s", got, n, s)
			return
		}
		c.Count("bytes_of_large_documents", len(res.Out))
		c.Seen(true, fmt.Sprint("large", n, i))
	})
	c.Each("other", c.N(400, 4000), func(i int, r *R) {
		k := c.NewCase()
		defer k.Done()
		k.Write("go.mod", "module x\n")
		k.Write("bad.yml", "ignore: [")
		k.Mkdir("empty")
		all := [][]string{
			{"--version"}, {"--list-ecosystems"}, {}, {"--parse-as", "nope", "go.mod"}, {"--config", "bad.yml", "go.mod"}, {"--config", "missing.yml", "go.mod"},
			{"missing"}, {"empty"}, {"empty", "missing"}, {"--parse-as", "csv-row", "a,b"}, {"--parse-as", "csv-row"}, {"--list-packages", "missing"},
			{"--version", "go.mod"}, {"--list-ecosystems", "missing"}, {"--batch-size=0", "--use-api", "--use-dbs=false", "go.mod"}, {"--offline", "--use-api", "go.mod"},
		}
		cmd := all[i%len(all)]
		js := k.Run(append([]string{"--json"}, cmd...)...)
		tx := k.Run(cmd...)
		o, err := parseOut(js.Out)
		if err != nil {
			k.Violate("%v: %s", err, js)
			return
		}
		if s := shape(js.Out, true); s != "" {
			k.Violate("the JSON document is not well formed: %s\n%s", s, js.Out)
			return
		}
		if js.Exit != tx.Exit {
			k.Violate("exit code %d with --json and %d without", js.Exit, tx.Exit)
			return
		}
		if len(strings.TrimSpace(string(js.Err))) == 0 {
			k.Violate("nothing is on stderr: %s", js)
			return
		}
		// what is text without the flag is on stderr with it
		for _, line := range strings.Split(string(tx.Out), "\n") {
			if !strings.HasPrefix(line, "  no ") && !strings.Contains(string(js.Err), line) {
				k.Violate("%q is not on stderr with --json: %s", line, js)
				return
			}
		}
		c.Mark("other_endings", strings.Join(cmd, " "))
		c.Seen(len(o.Results) >= 0, strings.Join(cmd, " "))
	})
}

// sameAdvisories compares the advisories in the first (JSON) output with the originals.
func sameAdvisories(_ []string, o Output, by map[string]OSV) string {
	for _, f := range o.Results {
		for _, p := range f.Packages {
			for _, v := range append(append([]OutVuln{}, p.Vulns...), p.Ignored...) {
				a, ok := by[v.ID]
				if !ok {
					return fmt.Sprintf("%s is not in the database", v.ID)
				}
				if a.Summary != v.Summary || a.Details != v.Details || !slices.Equal(a.Aliases, v.Aliases) {
					return fmt.Sprintf("%s is %s in JSON but %s in the database", v.ID, toJSON(v), a.JSON())
				}
				if len(a.Affected) != len(v.Affected) {
					return fmt.Sprintf("%s is %s in JSON but %s in the database", v.ID, toJSON(v), a.JSON())
				}
				for i := range a.Affected {
					x, y := a.Affected[i], v.Affected[i]
					if x.Package != y.Package || !slices.Equal(x.Versions, y.Versions) || len(x.Ranges) != len(y.Ranges) {
						return fmt.Sprintf("%s is %s in JSON but %s in the database", v.ID, toJSON(v), a.JSON())
					}
					for j := range x.Ranges {
						if !reflect.DeepEqual(x.Ranges[j], y.Ranges[j]) {
							return fmt.Sprintf("%s is %s in JSON but %s in the database", v.ID, toJSON(v), a.JSON())
						}
					}
				}
				for _, d := range [][2]string{{a.Published, v.Published}, {a.Modified, v.Modified}} {
					if d[0] == "" {
						continue
					}
					x, _ := time.Parse(time.RFC3339, d[0])
					y, err := time.Parse(time.RFC3339, d[1])
					if err != nil || !x.Equal(y) {
						return fmt.Sprintf("%s has the date %s in JSON but %s in the database", v.ID, d[1], d[0])
					}
				}
			}
		}
	}
	return ""
}

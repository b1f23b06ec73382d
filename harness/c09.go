package main

import (
	"fmt"
	"regexp"
	"slices"
	"strings"
)

func init() {
	checks["C09"] = check{level: "exploration", net: true, f: checkC09}
	checks["C10"] = check{level: "exploration", net: true, f: checkC10}
}

func checkC09(c *Ctx) {
	c.Rule = "scans of the same lockfiles without and with ignored IDs (flags, config, both; near misses by case, prefix, whitespace and alias), under alias graphs and several databases: per package the union stays the same and is split exactly by ID; exit code and printed counts follow the split; non-trivial when something is ignored; distinct by databases, packages and ignores"
	c.Each("ignore", c.N(2200, 40000), func(i int, r *R) {
		al := 0.0
		if r.P(.5) {
			al = .1
		}
		w := newWorld(c, r, worldOpts{zips: true, apis: true, aliases: al, minDBs: 1, dirs: 3})
		k := w.k
		defer w.Done()
		// every directory gets a config that uses every database, first without ignores
		var es []dbEntry
		for _, d := range w.DBs {
			es = append(es, d.entry)
		}
		cfgIgn := map[string][]string{}
		global := r.P(.25)
		for _, d := range w.Dirs {
			k.Remove(d + "/.osv-detector.yml")
			k.Remove(d + "/.osv-detector.yaml")
		}
		pool := append(append([]string{}, w.IDs...), "GHSA-0 ", "GHSA", "CVE-", "CVE-00", "", "ghsa-0")
		if r.P(.5) { // patterns are IDs like every other
			x := pick(r, w.IDs)
			pool = append(pool, "*", "?", ".*", "GHSA-*", "CVE-*", "GHSA-?", "[A-Z]*", "^"+x+"$", x[:len(x)-1]+"?", x[:len(x)-1]+"*", x[:len(x)-1]+"[0-9]", x[:len(x)-1]+".", x+","+pick(r, w.IDs), x+" "+pick(r, w.IDs), "all", "%", "(?i)"+x, x+"|"+pick(r, w.IDs), "/"+x+"/")
		}
		var found []string
		draw := func(n int) []string {
			var l []string
			if r.P(.06) { // long lists, of which the ones that matter can be anywhere
				for x := range r.Range(30, 300) {
					l = append(l, fmt.Sprintf("%s-%d", r.Pick("AAA", "GHSA-x", "ZZZ"), x))
				}
				defer func() { shuffle(r, l) }()
				c.Mark("modes", "long-list")
			}
			for range r.IntN(n + 1) {
				if len(found) > 0 && r.P(.6) {
					l = append(l, pick(r, found))
					continue
				}
				l = append(l, pick(r, pool))
			}
			return l
		}
		write := func(ign map[string][]string) {
			if global {
				k.Write("global.yml", configYAML(ign["*"], es))
				return
			}
			for _, d := range w.Dirs {
				k.Write(d+"/.osv-detector.yml", configYAML(ign[d], es))
			}
		}
		args := []string{"--use-dbs=false"}
		if global {
			args = append(args, "--config", "global.yml")
		}
		var paths []string
		for _, f := range w.Files {
			paths = append(paths, f.arg)
		}
		write(nil)
		base := k.Run(append(append([]string{"--json"}, args...), paths...)...)
		bo, err := parseOut(base.Out)
		if err != nil || len(bo.Results) != len(w.Files) {
			k.Violate("unexpected outcome: %v %s", err, base)
			return
		}
		for _, f := range bo.Results {
			for _, p := range f.Packages {
				found = append(found, ids(p.Vulns)...)
				if len(p.Ignored) > 0 {
					k.Violate("nothing is ignored, but %s has %v as ignored", p.Key(), ids(p.Ignored))
					return
				}
			}
		}
		flags := draw(4)
		if global {
			cfgIgn["*"] = draw(8)
		} else {
			for _, d := range w.Dirs {
				cfgIgn[d] = draw(8)
			}
		}
		write(cfgIgn)
		var fl []string
		for _, x := range flags {
			if r.P(.5) {
				fl = append(fl, "--ignore="+x)
			} else {
				fl = append(fl, "--ignore", x)
			}
		}
		noIgn := r.P(.25)
		if noIgn {
			fl = append(fl, "--no-config-ignores")
			c.Mark("modes", "no-config-ignores")
		}
		cmd := append(append(append([]string{}, fl...), args...), paths...)
		res := k.Run(append([]string{"--json"}, cmd...)...)
		txt := k.Run(cmd...)
		o, err := parseOut(res.Out)
		if err != nil || len(o.Results) != len(w.Files) {
			k.Violate("unexpected outcome: %v %s", err, res)
			return
		}
		total, totalIgn := 0, 0
		for fi, f := range o.Results {
			ign := append([]string{}, flags...)
			if !noIgn {
				if global {
					ign = append(ign, cfgIgn["*"]...)
				} else {
					ign = append(ign, cfgIgn[w.Files[fi].dir]...)
				}
			}
			bp := bo.Results[fi].Packages
			if len(bp) != len(f.Packages) {
				k.Violate("%s has %d packages with ignores and %d without", f.FilePath, len(f.Packages), len(bp))
				return
			}
			nv, ni := 0, 0
			for pi, p := range f.Packages {
				var wantV, wantI []string
				for _, id := range ids(bp[pi].Vulns) {
					if slices.Contains(ign, id) {
						wantI = append(wantI, id)
					} else {
						wantV = append(wantV, id)
					}
				}
				if bp[pi].Key() != p.Key() {
					k.Violate("package %d of %s is %s with ignores and %s without", pi, f.FilePath, p.Key(), bp[pi].Key())
					return
				}
				if !eqStr(wantV, ids(p.Vulns)) && diff(wantV, ids(p.Vulns)) != "" {
					k.Violate("%s ignoring %q: vulnerabilities of %s: %s", f.FilePath, ign, p.Key(), diff(wantV, ids(p.Vulns)))
					return
				}
				if s := diff(wantI, ids(p.Ignored)); s != "" {
					k.Violate("%s ignoring %q: ignored of %s: %s", f.FilePath, ign, p.Key(), s)
					return
				}
				nv += len(wantV)
				ni += len(wantI)
			}
			total += nv
			totalIgn += ni
			// the printed counts
			word := "known"
			if ni > 0 {
				word = "new"
			}
			var line string
			switch {
			case nv == 0:
				line = "no " + word + " vulnerabilities found"
			case nv == 1:
				line = "1 " + word + " vulnerability found in " + f.FilePath
			default:
				line = fmt.Sprintf("%d %s vulnerabilities found in %s", nv, word, f.FilePath)
			}
			switch {
			case ni == 1:
				line += " (1 was ignored)"
			case ni > 1:
				line += fmt.Sprintf(" (%d were ignored)", ni)
			}
			if !regexp.MustCompile(`(?m)^\s*` + regexp.QuoteMeta(line) + `\s*$`).Match(txt.Out) {
				k.Violate("%d found and %d ignored in %s, but the text output does not say %q:\n%s", nv, ni, f.FilePath, line, txt.Out)
				return
			}
			c.Count("files_judged", 1)
		}
		want := 0
		if total > 0 {
			want = 1
		}
		if res.Exit != want || txt.Exit != want {
			k.Violate("%d vulnerabilities are left (%d ignored) but the exit codes are %d and %d", total, totalIgn, res.Exit, txt.Exit)
			return
		}
		c.Count("ignored_findings", totalIgn)
		c.Count("remaining_findings", total)
		c.Seen(totalIgn > 0, toJSON(cfgIgn)+strings.Join(cmd, "|")+string(base.Out))
		if i == 0 {
			c.Sample(map[string]any{"args": cmd, "config_ignores": cfgIgn})
		}
	})
}

func checkC10(c *Ctx) {
	c.Rule = "runs over several directories with their own configs (.yml, .yaml, both, none, invalid, with invalid entries), with --config, --no-config, --no-config-ignores, --no-config-databases and --ignore; every lockfile's packages and findings are compared with a reference that applies exactly its own config, and requests for remote databases are counted; non-trivial when two lockfiles have different effective configs; distinct by world and flags"
	c.Each("config", c.N(4500, 80000), func(i int, r *R) {
		w := newWorld(c, r, worldOpts{zips: true, apis: true, minDBs: 1, dirs: 5, many: .015, broken: .05, invalid: .08, badDB: .12})
		k := w.k
		defer w.Done()
		if r.P(.25) {
			w.linkSome(.3)
		}
		var args []string
		var global *wConfig
		if r.P(.3) {
			global = &wConfig{path: r.Pick("g.yml", "conf/any name.yaml", "p0/other.yml")}
			if r.P(.1) {
				global.invalid = r.Pick("yaml", "missing")
				if global.invalid == "yaml" {
					k.Write(global.path, "ignore: {\n")
				}
			} else {
				k.Write(global.path, w.genConfigContent(global, worldOpts{badDB: .1}))
			}
			args = append(args, "--config", r.Pick(global.path, "./"+global.path))
			c.Mark("modes", "config")
		}
		noConfig, noDBs, noIgn := r.P(.12), r.P(.15), r.P(.15)
		if noConfig {
			args = append(args, "--no-config")
			c.Mark("modes", "no-config")
		}
		if noDBs {
			args = append(args, "--no-config-databases")
			c.Mark("modes", "no-config-databases")
		}
		if noIgn {
			args = append(args, "--no-config-ignores")
			c.Mark("modes", "no-config-ignores")
		}
		var flags []string
		for range r.IntN(3) {
			flags = append(flags, pick(r, w.IDs))
			args = append(args, "--ignore", flags[len(flags)-1])
		}
		eff := func(f *wFile) (*wConfig, []int, []string) {
			cf := w.Conf[f.dir]
			if global != nil {
				cf = global
			}
			if noConfig {
				cf = &wConfig{}
			}
			dbs, ign := cf.dbs, append([]string{}, flags...)
			if !noIgn {
				ign = append(ign, cf.ignores...)
			}
			if noDBs {
				dbs = nil
			}
			return cf, dbs, ign
		}
		shuffle(r, args[:0])
		cmd := append([]string{"--json", "--use-dbs=false"}, args...)
		if r.P(.2) && w.Files[0].dir != "." { // the same file again
			w.Files = append(w.Files, w.Files[0])
		}
		for _, f := range w.Files {
			cmd = append(cmd, f.arg)
		}
		for _, d := range w.DBs {
			if d.scen != nil {
				d.scen.Reset()
			}
		}
		res := k.Run(cmd...)
		out, err := parseOut(res.Out)
		if err != nil {
			k.Violate("%v: %s", err, res)
			return
		}
		distinct := map[string]bool{}
		if global != nil && global.invalid != "" && !noConfig {
			if res.Exit != 127 || len(out.Results) != 0 || !strings.Contains(string(res.Err), global.path) {
				k.Violate("the config %s cannot be used (%s) but got %s", global.path, global.invalid, res)
				return
			}
			for _, d := range w.DBs {
				if d.scen != nil && len(d.scen.Activity()) > 0 {
					k.Violate("a database was used although the config is invalid: %v", d.scen.Activity())
					return
				}
			}
			c.Count("invalid_global_configs", 1)
			c.Seen(true, strings.Join(cmd, "|")+global.invalid)
			return
		}
		next, total, bad127, badOther := 0, 0, false, false
		uses := map[int]bool{}
		queried := map[int]int{}
		for _, f := range w.Files {
			cf, dbs, ign := eff(f)
			distinct[fmt.Sprint(dbs, ign, cf.path)] = true
			if len(cf.extra) > 0 {
				badOther = true
				if !regexp.MustCompile(regexp.QuoteMeta(cf.path) + `.*invalid`).Match(res.Err) {
					k.Violate("%s has an invalid database entry but that is not reported:\n%s", cf.path, res.Err)
					return
				}
				c.Count("invalid_entries_reported", 1)
			}
			if cf.invalid != "" || f.broken != "" {
				bad127 = true
				what := f.path
				if cf.invalid != "" {
					what = cf.path
				}
				if f.broken == "-r missing.txt\n" && cf.invalid == "" {
					what = "missing.txt"
				}
				if f.parser == "csv-file" && cf.invalid == "" {
					what = f.path
				}
				if !strings.Contains(string(res.Err), what) {
					k.Violate("%s cannot be used but the error does not mention it:\n%s", what, res.Err)
					return
				}
				c.Count("lockfiles_rejected", 1)
				continue
			}
			if next >= len(out.Results) {
				k.Violate("there is no result for %s", f.path)
				return
			}
			n, _, s := w.judge(out.Results[next], f, dbs, ign)
			if s != "" {
				k.Violate("%s (config %q, ignoring %q)", s, cf.path, ign)
				return
			}
			total += n
			next++
			for _, d := range dbs {
				uses[d] = true
				if len(f.pkgs) > 0 {
					queried[d]++
				}
			}
			c.Count("files_judged", 1)
		}
		if next != len(out.Results) {
			k.Violate("there are %d results instead of %d", len(out.Results), next)
			return
		}
		okExit := false
		switch {
		case bad127:
			okExit = res.Exit == 127
		case total > 0:
			okExit = res.Exit == 1
		case badOther:
			okExit = res.Exit == 127
		default:
			okExit = res.Exit == 0
		}
		if !okExit {
			k.Violate("%d vulnerabilities, unusable lockfile or config: %v, invalid entries: %v, but exit code %d", total, bad127, badOther, res.Exit)
			return
		}
		for d, db := range w.DBs {
			if db.scen == nil {
				continue
			}
			n := 0
			for _, q := range db.scen.Requests() {
				if db.kind == "zip" || strings.HasSuffix(q.Path, "/querybatch") {
					n++
				}
			}
			want := 0
			if uses[d] {
				want = 1
			}
			if db.kind == "api" {
				want = queried[d]
			}
			if n != want {
				k.Violate("database %s was requested %d times, expected %d", db.entry.URL, n, want)
				return
			}
			c.Count("remote_loads_counted", 1)
		}
		c.Seen(len(distinct) > 1, strings.Join(cmd, "|")+fmt.Sprint(i))
		if i == 0 {
			c.Sample(map[string]any{"args": cmd})
		}
	})
	// rows given as arguments belong to the current directory
	c.Each("rows", c.N(300, 6000), func(i int, r *R) {
		w := newWorld(c, r, worldOpts{zips: true, apis: true, minDBs: 1, dirs: 2})
		k := w.k
		defer w.Done()
		cf := w.Conf["."]
		if cf == nil {
			cf = w.genConfig(".", worldOpts{})
		}
		args := []string{"--json", "--use-dbs=false", "--parse-as", "csv-row"}
		dbs, ign := cf.dbs, cf.ignores
		switch r.IntN(6) {
		case 0:
			global := &wConfig{path: "conf/g.yml"}
			k.Write(global.path, w.genConfigContent(global, worldOpts{}))
			args = append(args, "--config", global.path)
			dbs, ign = global.dbs, global.ignores
		case 1:
			args = append(args, "--no-config")
			dbs, ign = nil, nil
		case 2:
			args = append(args, "--no-config-ignores")
			ign = nil
		case 3:
			args = append(args, "--no-config-databases")
			dbs = nil
		}
		f := &wFile{dir: ".", path: "-", parser: "csv-row", pkgs: worldPkgs(r, "csv-file", "")}
		if len(f.pkgs) == 0 {
			return
		}
		for _, p := range f.pkgs {
			args = append(args, csvRow(p.Eco, "", p.Name, p.Ver))
		}
		res := k.Run(args...)
		out, err := parseOut(res.Out)
		if err != nil || len(out.Results) != 1 {
			k.Violate("there has to be one result: %v %s", err, res)
			return
		}
		n, _, s := w.judge(out.Results[0], f, dbs, ign)
		if s != "" {
			k.Violate("%s (config %q, ignoring %q)", s, cf.path, ign)
			return
		}
		if (res.Exit == 1) != (n > 0) {
			k.Violate("exit code %d with %d vulnerabilities", res.Exit, n)
			return
		}
		c.Count("rows_judged", len(f.pkgs))
		c.Seen(len(dbs) > 0, strings.Join(args, "|")+fmt.Sprint(i))
	})
}

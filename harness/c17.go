package main

import (
	"fmt"
	"os"
	"path"
	"path/filepath"
	"strings"
)

func init() { checks["C17"] = check{level: "exploration", net: true, f: checkC17} }

// outcome collects what happens in a run.
type outcome struct {
	hard, soft []string // errors that give 127 whatever else happens, and other errors
	vulns      int
	files      int
}

func (o *outcome) allowed(args int) []int {
	switch {
	case o.files == 0 && args > 0 && len(o.soft) == 0:
		return []int{128}
	case o.files == 0:
		return []int{127}
	case len(o.hard) > 0:
		return []int{127}
	case o.vulns > 0 && len(o.soft) > 0:
		return []int{1, 127}
	case o.vulns > 0:
		return []int{1}
	case len(o.soft) > 0:
		return []int{127}
	}
	return []int{0}
}

func checkC17(c *Ctx) {
	c.Rule = "runs in which any combination of things goes wrong (missing, unreadable and unknown files, directories without lockfiles, lockfiles that cannot be parsed, unusable configs, invalid database entries, databases that cannot be loaded or queried in 13 ways, offline mode, unwritable configs) next to lockfiles with and without vulnerabilities; the exit code is compared with the one that the set of faults and findings requires and every fault must be on stderr; non-trivial when something goes wrong; distinct by the set of faults, findings and flags"
	c.Assume = []string{"when vulnerabilities are found and an error other than a lockfile, config or database that cannot be loaded occurs, both 1 and 127 are accepted"}
	_ = os.Chmod(c.Work, 0o711)
	_ = os.Chmod(filepath.Dir(c.Work), 0o711)
	c.Each("faults", c.N(4500, 80000), func(i int, r *R) {
		clean := r.P(.3) // many runs have at most one fault, as only those show that it counts
		o := worldOpts{zips: true, apis: true, minDBs: 1, dirs: 3}
		one := ""
		if clean {
			one = r.Pick("none", "broken", "invalid", "badDB", "faults", "path", "path", "offline", "perm")
			switch one {
			case "broken":
				o.broken = .5
			case "invalid":
				o.invalid = .5
			case "badDB":
				o.badDB = .5
			case "faults":
				o.faults = 1
			}
		} else {
			o.broken, o.invalid, o.badDB, o.faults = .08, .06, .08, .15
		}
		w := newWorld(c, r, o)
		k := w.k
		defer w.Done()
		ignoreAll := r.P(.5) // findings hide errors that would give 127 instead of 0
		var args []string
		flags := map[string]bool{}
		if ignoreAll {
			for _, id := range w.IDs {
				args = append(args, "--ignore", id)
				flags[id] = true
			}
		}
		list := r.P(.12)
		if list {
			args = append(args, "--list-packages")
			c.Mark("modes", "list")
		}
		offline := one == "offline" || r.P(.06)
		if offline {
			args = append(args, "--offline")
			c.Mark("modes", "offline")
		}
		noDBs, noConfig := r.P(.05), r.P(.05)
		if noDBs {
			args = append(args, "--no-config-databases")
		}
		if noConfig {
			args = append(args, "--no-config")
		}
		json := r.P(.5)
		if json {
			args = append(args, "--json")
		}
		args = append(args, "--use-dbs=false")

		var out outcome
		type arg struct {
			s string
			f *wFile
		}
		var as []arg
		unpriv := one == "perm" || !clean && r.P(.15)
		if unpriv {
			if probe := k.RunX(Run{Args: []string{"--version"}, User: 65534}); probe.Exit != 0 {
				unpriv = false
				c.Count("unprivileged_skipped", 1)
			}
			_ = os.Chmod(filepath.Join(k.Dir, "tmp"), 0o777)
		}
		keep := len(w.Files)
		if r.P(.1) {
			keep = r.IntN(2)
		}
		for _, f := range w.Files[:min(keep, len(w.Files))] {
			as = append(as, arg{f.arg, f})
		}
		nPath := 0
		if one == "path" {
			nPath = 1
		} else if !clean {
			nPath = r.IntN(3)
		}
		if len(as) == 0 {
			nPath = r.Range(0, 3)
		}
		var names []string // what must be named on stderr
		for n := range nPath {
			var p string
			kind := r.Pick("missing", "missing-dir", "unknown", "empty-dir", "no-lockfiles", "dangling", "dir-dangling", "not-a-dir", "bad-parser", "missing-csv")
			if unpriv && r.P(.6) {
				kind = r.Pick("unreadable", "unreadable-dir", "unreadable-in-dir", "unsearchable-dir")
			}
			if keep == 0 && r.P(.7) {
				kind = r.Pick("empty-dir", "no-lockfiles")
			}
			c.Mark("path_faults", kind)
			d := fmt.Sprintf("x%d", n)
			soft, hard, named := false, 0, ""
			switch kind {
			case "missing":
				p, soft = d+"/package-lock.json", true
			case "missing-csv":
				p, soft, named = "csv-file:"+d+"/p.csv", true, d+"/p.csv"
			case "missing-dir":
				p, soft = d, true
			case "not-a-dir":
				k.Write(d+"/f", "x")
				p, soft = d+"/f/package-lock.json", true
			case "unknown":
				k.Write(d+"/lock.foo", "{}")
				p, hard = d+"/lock.foo", 1
			case "bad-parser":
				k.Write(d+"/package-lock.json", "{}")
				p, hard, named = "nope:"+d+"/package-lock.json", 1, d+"/package-lock.json"
			case "empty-dir":
				k.Mkdir(d)
				p = d
			case "no-lockfiles":
				k.Write(d+"/readme.md", "hello")
				k.Write(d+"/sub/package-lock.json", "{")
				k.Mkdir(d + "/go.mod")
				p = d
			case "dangling":
				k.Mkdir(d)
				must(os.Symlink("nothing", k.Path(d+"/go.mod")))
				p, soft = d+"/go.mod", true
			case "dir-dangling":
				k.Mkdir(d)
				must(os.Symlink("nothing", k.Path(d+"/go.mod")))
				p, hard, named = d, 1, d+"/go.mod"
			case "unreadable":
				k.Write(d+"/go.mod", "module x\n")
				must(os.Chmod(k.Path(d+"/go.mod"), 0))
				p, soft = d+"/go.mod", true
			case "unreadable-dir":
				k.Write(d+"/go.mod", "module x\n")
				must(os.Chmod(k.Path(d), 0o300))
				p, soft = d, true
			case "unsearchable-dir":
				k.Write(d+"/go.mod", "module x\n")
				must(os.Chmod(k.Path(d), 0o400))
				p, soft = d+"/go.mod", true
			case "unreadable-in-dir":
				k.Write(d+"/go.mod", "module x\n")
				must(os.Chmod(k.Path(d+"/go.mod"), 0))
				p, hard, named = d, 1, d+"/go.mod"
			}
			if named == "" {
				named = p
			}
			if soft {
				out.soft = append(out.soft, kind)
				names = append(names, named)
			}
			for range hard {
				out.hard = append(out.hard, kind)
				out.files++
				names = append(names, named)
			}
			at := r.IntN(len(as) + 1)
			as = append(as[:at:at], append([]arg{{p, nil}}, as[at:]...)...)
		}
		var permConf map[string]bool
		if unpriv {
			permConf = map[string]bool{}
			for _, cf := range confs(w) {
				if cf.path != "" && cf.invalid == "" && r.P(.2) {
					must(os.Chmod(k.Path(cf.path), 0))
					permConf[cf.path] = true
					c.Mark("path_faults", "unreadable-config")
				}
			}
		}
		update := !list && (unpriv && r.P(.5) || r.P(.05))
		if update {
			args = append(args, "--update-config-ignores")
			c.Mark("modes", "update")
		}
		loadFault := false
		for _, a := range as {
			f := a.f
			if f == nil {
				continue
			}
			out.files++
			cf := w.Conf[f.dir]
			if noConfig || list {
				cf = &wConfig{}
			}
			if cf.invalid != "" || permConf[cf.path] {
				out.hard = append(out.hard, "config")
				names = append(names, cf.path)
				continue
			}
			if len(cf.extra) > 0 {
				out.soft = append(out.soft, "entry")
				names = append(names, cf.path)
			}
			if f.broken != "" {
				out.hard = append(out.hard, "broken")
				if f.broken == "-r missing.txt\n" {
					names = append(names, "missing.txt")
				} else {
					names = append(names, f.path)
				}
				continue
			}
			if update && unpriv && cf.path != "" {
				out.soft = append(out.soft, "unwritable-config")
				names = append(names, cf.path)
			}
			if list || noDBs {
				continue
			}
			var ok []int
			for _, d := range cf.dbs {
				db := w.DBs[d]
				switch {
				case db.fail == "load" || offline && db.kind != "dir" && db.kind != "bad-missing-dir":
					out.hard = append(out.hard, "load-"+db.kind)
					loadFault = true
				case db.fail == "query":
					if len(f.pkgs) > 0 {
						out.soft = append(out.soft, "query-"+db.kind)
						names = append(names, f.path)
					}
				default:
					ok = append(ok, d)
				}
			}
			ign := cf.ignores
			for id := range flags {
				ign = append(ign[:len(ign):len(ign)], id)
			}
			for _, p := range f.pkgs {
				v, _ := w.expect(p, ok, ign)
				out.vulns += len(v)
			}
		}
		if r.P(.02) {
			args = append(args, "--parse-as", "nope")
			out = outcome{soft: []string{"parse-as"}}
			names = []string{"nope"}
		}
		var paths []string
		for _, a := range as {
			paths = append(paths, a.s)
		}
		run := Run{Args: append(args, paths...)}
		if unpriv {
			run.User = 65534
		}
		res := k.RunX(run)
		for _, a := range as {
			_ = os.Chmod(k.Path(path.Dir(a.s)), 0o755) // so that it can be removed
			_ = os.Chmod(k.Path(a.s), 0o755)
		}
		want := out.allowed(len(paths))
		good := false
		for _, x := range want {
			good = good || x == res.Exit
		}
		k.Note("errors that always give 127: %v; other errors: %v; un-ignored vulnerabilities: %d; lockfiles: %d", out.hard, out.soft, out.vulns, out.files)
		if !good || res.Signal != "" || res.Hang {
			k.Violate("exit code %d, expected %v: errors that always give 127: %v; other errors: %v; un-ignored vulnerabilities: %d; lockfiles: %d", res.Exit, want, out.hard, out.soft, out.vulns, out.files)
			return
		}
		for _, n := range names {
			if !strings.Contains(string(res.Err), n) {
				k.Violate("%s could not be used, which stderr does not say:\n%s", n, res.Err)
				return
			}
		}
		if loadFault && !json && len(strings.TrimSpace(string(res.Err))) == 0 {
			k.Violate("a database could not be loaded but nothing is on stderr")
			return
		}
		if (out.files == 0 || res.Exit == 127) && len(strings.TrimSpace(string(res.Err))) == 0 {
			k.Violate("exit code %d without anything on stderr", res.Exit)
			return
		}
		c.Mark("exit_codes", fmt.Sprint(res.Exit))
		c.Count(fmt.Sprintf("exit_%d", res.Exit), 1)
		if len(out.hard)+len(out.soft) == 1 {
			c.Count("single_fault_runs", 1)
			c.Mark("single_faults", append(append([]string{}, out.hard...), out.soft...)[0])
		}
		c.Seen(len(out.hard)+len(out.soft) > 0, fmt.Sprint(out, args, i))
		if i == 0 {
			c.Sample(map[string]any{"args": run.Args, "hard": out.hard, "soft": out.soft, "exit": res.Exit})
		}
	})
}

package main

import (
	"fmt"
	"os"
	"path"
	"path/filepath"
	"regexp"
	"slices"
	"strings"
)

func init() { checks["C11"] = check{level: "exploration", net: true, f: checkC11} }

var reUpdated = regexp.MustCompile(`(?m)^Updated (.*) with (\d+) (vulnerability|vulnerabilities)$`)

func checkC11(c *Ctx) {
	c.Rule = "scans with --update-config-ignores over several directories, lockfiles and configs (shared, global, used through relative and absolute paths, with stale, duplicate and long ignore lists, invalid entries, names and working directories), followed by a repeated scan; every config and every other file is compared before and after with the reference; non-trivial when at least one config has to change; distinct by world and flags"
	c.Each("update", c.N(2000, 35000), func(i int, r *R) {
		w := newWorld(c, r, worldOpts{zips: true, apis: true, minDBs: 1, dirs: 4, many: .015, broken: .08, invalid: .06, badDB: .08})
		k := w.k
		defer w.Done()
		if r.P(.15) {
			w.linkSome(.3)
		}
		root := k.Path("")
		var args []string
		var global *wConfig
		if r.P(.25) {
			global = &wConfig{path: r.Pick("g.yml", "conf/g.yaml")}
			k.Write(global.path, w.genConfigContent(global, worldOpts{}))
			args = append(args, "--config", global.path)
			c.Mark("modes", "global")
		}
		noConfig, noIgn, noDBs := r.P(.05), r.P(.15), r.P(.08)
		if noConfig {
			args = append(args, "--no-config")
			c.Mark("modes", "no-config")
		}
		if noDBs {
			args = append(args, "--no-config-databases")
			c.Mark("modes", "no-config-databases")
		}
		var flags []string
		for range r.IntN(3) {
			flags = append(flags, pick(r, w.IDs))
			args = append(args, "--ignore", flags[len(flags)-1])
		}
		// long stale lists, which the new content does not cover
		for _, cf := range append([]*wConfig{global}, confs(w)...) {
			if cf == nil || cf.path == "" || cf.invalid != "" || !r.P(.3) {
				continue
			}
			b, _ := os.ReadFile(k.Path(cf.path))
			s := "# a comment\n" + string(b)
			if strings.Contains(s, "ignore:\n") {
				var l []string
				for j := range r.Range(1, 60) {
					l = append(l, fmt.Sprintf("  - STALE-%d\n", j))
					cf.ignores = append(cf.ignores, fmt.Sprintf("STALE-%d", j))
				}
				s = strings.Replace(s, "ignore:\n", "ignore:\n"+strings.Join(l, ""), 1)
			}
			k.Write(cf.path, s)
			c.Mark("modes", "stale")
		}
		cmd := append([]string{"--use-dbs=false"}, args...)
		if r.P(.3) && !slices.ContainsFunc(w.DBs, func(d *wDB) bool { return d.kind != "dir" }) {
			cmd = append(cmd, "--offline") // nothing is needed from anywhere
			c.Mark("modes", "offline")
		}
		if r.P(.5) {
			cmd = append([]string{"--json"}, cmd...)
		}
		var paths []string
		abs := map[string]bool{}
		for _, f := range w.Files {
			a := f.arg
			if r.P(.15) {
				a = strings.TrimSuffix(f.arg, f.path) + filepath.Join(root, f.path)
				abs[f.path] = true
				c.Mark("modes", "absolute-path")
			}
			paths = append(paths, a)
		}
		// what each config has to be afterwards
		type exp struct {
			ids []string
			cf  *wConfig
		}
		want := map[string]*exp{}
		vulnsElsewhere := false
		fails := false
		for _, f := range w.Files {
			cf := w.Conf[f.dir]
			if global != nil {
				cf = global
			}
			if noConfig {
				cf = &wConfig{}
			}
			if cf.invalid != "" || f.broken != "" {
				fails = true
				continue
			}
			if len(cf.extra) > 0 {
				fails = true
			}
			dbs := cf.dbs
			if noDBs {
				dbs = nil
			}
			if cf.path != "" && want[cf.path] == nil {
				want[cf.path] = &exp{cf: cf}
			}
			for _, p := range f.pkgs {
				v, _ := w.expect(p, dbs, nil)
				if cf.path == "" {
					for _, id := range v {
						if !slices.Contains(flags, id) {
							vulnsElsewhere = true
						}
					}
					continue
				}
				want[cf.path].ids = append(want[cf.path].ids, v...)
			}
		}
		before := snapshot(root)
		old := map[string][]byte{}
		for p := range want {
			old[p], _ = os.ReadFile(k.Path(p))
		}
		// lists that have what is found already, perhaps in another order, more than once or not completely
		for _, p := range sortedKeys(want) {
			e := want[p]
			if len(e.ids) == 0 || !r.P(.15) {
				continue
			}
			l := slices.Compact(sorted(e.ids))
			switch r.IntN(4) {
			case 0:
				l = append(l, pick(r, l))
			case 1:
				l = l[:len(l)-1]
			}
			shuffle(r, l)
			_, dbs, err := parseConfigYAML(string(old[p]))
			must(err)
			var es []dbEntry
			for _, d := range dbs {
				es = append(es, dbEntry{URL: d["url"], Type: d["type"], Name: d["name"], WD: d["working-directory"]})
			}
			k.Write(p, configYAML(l, es))
			old[p], _ = os.ReadFile(k.Path(p))
			before = snapshot(root)
			c.Mark("modes", "up-to-date")
		}
		first := append(append([]string{"--update-config-ignores"}, cmd...), paths...)
		if noIgn {
			first = append([]string{"--no-config-ignores"}, first...)
			c.Mark("modes", "no-config-ignores")
		}
		k.Note("files are as after the update")
		res := k.Run(first...)
		if res.Crashed() || res.Hang {
			k.Violate("crashed: %s", res)
			return
		}
		changed := false
		for p, e := range want {
			b, err := os.ReadFile(k.Path(p))
			must(err)
			k.Files[p+" (before)"] = string(old[p])
			k.Files[p] = string(b)
			ig, dbs, err := parseConfigYAML(string(b))
			if err != nil {
				k.Violate("%s is not a config any more: %v\n%s", p, err, b)
				return
			}
			ids := slices.Compact(sorted(e.ids))
			if !eqStr(ids, ig) && !(len(ids) == 0 && len(ig) == 0) {
				k.Violate("%s has the ignores %q, expected %q", p, ig, ids)
				return
			}
			_, wantDBs, err := parseConfigYAML(string(old[p]))
			must(err)
			if !slices.Equal(flatDBs(wantDBs), flatDBs(dbs)) {
				k.Violate("the databases of %s were %v but are now %v", p, wantDBs, dbs)
				return
			}
			if string(b) != string(old[p]) {
				changed = true
			}
			c.Count("configs_judged", 1)
		}
		// what is said about it
		var said, say []string
		for _, m := range reUpdated.FindAllStringSubmatch(string(res.Out)+"\n"+string(res.Err), -1) {
			p := m[1]
			if filepath.IsAbs(p) {
				p, _ = filepath.Rel(root, p)
			}
			said = append(said, path.Clean(p)+": "+m[2])
			if (m[2] == "1") != (m[3] == "vulnerability") {
				k.Violate("wrong wording: %s", m[0])
				return
			}
		}
		for p, e := range want {
			say = append(say, fmt.Sprintf("%s: %d", p, len(slices.Compact(sorted(e.ids)))))
		}
		if s := diff(say, said); s != "" {
			k.Violate("the output tells about the updates: %s: %s", s, res)
			return
		}
		after := snapshot(root)
		for _, d := range snapDiff(before, after) {
			_, p, _ := strings.Cut(d, " ")
			if want[p] == nil || !strings.HasPrefix(d, "changed ") {
				k.Violate("--update-config-ignores %s", d)
				return
			}
		}
		// a repeated scan finds nothing new and changes nothing
		again := k.Run(append(append([]string{"--update-config-ignores"}, cmd...), paths...)...)
		if again.Exit == 1 && !vulnsElsewhere || again.Crashed() {
			k.Violate("repeating the scan gave exit code %d:\n%s", again.Exit, again)
			return
		}
		if !fails && !vulnsElsewhere && again.Exit != 0 {
			k.Violate("repeating the scan gave exit code %d:\n%s", again.Exit, again)
			return
		}
		for p := range want {
			a, _ := os.ReadFile(k.Path(p))
			if string(a) != k.Files[p] {
				k.Violate("repeating the update changed %s from\n%s\nto\n%s", p, k.Files[p], a)
				return
			}
		}
		// a scan without the flag reports only what has no config, and writes nothing
		s0 := snapshot(root)
		plain := k.Run(append(append([]string{"--json"}, args...), append([]string{"--use-dbs=false"}, paths...)...)...)
		if d := snapDiff(s0, snapshot(root)); len(d) > 0 {
			k.Violate("a scan without the flag: %v", d)
			return
		}
		out, err := parseOut(plain.Out)
		if err != nil {
			k.Violate("%v", err)
			return
		}
		for _, f := range out.Results {
			dir := path.Dir(f.FilePath)
			if filepath.IsAbs(f.FilePath) {
				dir, _ = filepath.Rel(root, dir)
			}
			has := global != nil || w.Conf[dir].path != ""
			for _, p := range f.Packages {
				if has && !noConfig && len(p.Vulns) > 0 {
					k.Violate("%s: %v is still reported for %s after its config was updated", f.FilePath, ids(p.Vulns), p.Key())
					return
				}
			}
		}
		c.Seen(changed, strings.Join(first, "|")+fmt.Sprint(i))
		if i == 0 {
			c.Sample(map[string]any{"args": first, "configs": sortedKeys(want)})
		}
	})
	// configs that cannot be written
	if err := os.Chmod(c.Work, 0o711); err == nil {
		_ = os.Chmod(filepath.Dir(c.Work), 0o711)
	}
	c.Each("unwritable", c.N(150, 2000), func(i int, r *R) {
		w := newWorld(c, r, worldOpts{minDBs: 1, dirs: 3})
		k := w.k
		defer w.Done()
		_ = os.Chmod(filepath.Join(k.Dir, "tmp"), 0o777)
		used := false
		cmd := []string{"--use-dbs=false", "--update-config-ignores"}
		if r.P(.5) {
			cmd = append(cmd, "--json")
		}
		for _, f := range w.Files {
			cmd = append(cmd, f.arg)
			used = used || w.Conf[f.dir].path != ""
		}
		before := snapshot(k.Path(""))
		if probe := k.RunX(Run{Args: []string{"--version"}, User: 65534}); probe.Exit != 0 {
			c.Count("unwritable_skipped", 1)
			return
		}
		res := k.RunX(Run{Args: cmd, User: 65534})
		if res.Crashed() || used && (res.Exit == 0 || !strings.Contains(string(res.Err), "osv-detector.y")) {
			k.Violate("a config could not be written, which has to be reported, but got %s", res)
			return
		}
		if used && !strings.Contains(strings.ToLower(string(res.Err)), "denied") {
			k.Violate("a config could not be written, but stderr does not say why: %s", res)
			return
		}
		if d := snapDiff(before, snapshot(k.Path(""))); len(d) > 0 {
			k.Violate("files changed although they are not writable: %v", d)
			return
		}
		if used {
			c.Count("write_failures_reported", 1)
			c.Seen(true, fmt.Sprint("unwritable", i))
		}
	})
	// there is no room for the config
	c.Each("full", c.N(150, 2000), func(i int, r *R) {
		w := newWorld(c, r, worldOpts{minDBs: 1, dirs: 3})
		k := w.k
		defer w.Done()
		used := false
		cmd := []string{"--use-dbs=false", "--update-config-ignores"}
		if r.P(.5) {
			cmd = append(cmd, "--json")
		}
		for _, f := range w.Files {
			cmd = append(cmd, f.arg)
			used = used || w.Conf[f.dir].path != ""
		}
		res := k.RunX(Run{Args: cmd, Wrap: fullDisk(0)})
		if res.Crashed() || used && (res.Exit == 0 || !strings.Contains(string(res.Err), "osv-detector.y")) {
			k.Violate("there was no room to write a config, which has to be reported, but got %s", res)
			return
		}
		if used && !strings.Contains(strings.ToLower(string(res.Err)), "too large") {
			k.Violate("there was no room to write a config, but stderr does not say so: %s", res)
			return
		}
		if used {
			c.Count("full_disk_failures_reported", 1)
			c.Seen(true, fmt.Sprint("full", i))
		}
	})
}

// fullDisk runs the program where files cannot get longer than n KiB.
func fullDisk(n int) []string {
	return []string{"/bin/bash", "-c", fmt.Sprintf(`ulimit -f %d; exec "$0" "$@"`, n)}
}

func confs(w *World) []*wConfig {
	var l []*wConfig
	for _, d := range w.Dirs {
		l = append(l, w.Conf[d])
	}
	return l
}

func flatDBs(dbs []map[string]string) []string {
	var l []string
	for _, d := range dbs {
		l = append(l, fmt.Sprintf("%q %q %q %q", d["url"], d["type"], d["name"], d["working-directory"]))
	}
	return l
}

package main

import (
	"crypto/sha256"
	"fmt"
	"io/fs"
	"os"
	"os/exec"
	"path"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
)

func init() { checks["C23"] = check{level: "exploration", net: true, f: checkC23} }

const fileSet = "trace=open,openat,openat2,creat,unlink,unlinkat,rename,renameat,renameat2,mkdir,mkdirat,rmdir,chmod,fchmod,fchmodat,fchmodat2,chown,fchown,lchown,fchownat,link,linkat,symlink,symlinkat,truncate,ftruncate,utime,utimes,utimensat,futimesat,setxattr,lsetxattr,fsetxattr,removexattr,mknod,mknodat,fallocate"

var (
	reCall = regexp.MustCompile(`(?m)^\d+\s+(\w+)\((.*)$`)
	rePath = regexp.MustCompile(`"((?:[^"\\]|\\.)*)"`)
)

// modifying lists the calls of a trace that change files, with the path they are about.
func modifying(trace string) (calls [][2]string, opens int) {
	for _, m := range reCall.FindAllStringSubmatch(trace, -1) {
		p := ""
		if q := rePath.FindStringSubmatch(m[2]); q != nil {
			p = q[1]
			if u, err := strconv.Unquote(`"` + q[1] + `"`); err == nil {
				p = u
			}
		}
		switch m[1] {
		case "open", "openat", "openat2", "creat":
			opens++
			if m[1] == "creat" || regexp.MustCompile(`O_(WRONLY|RDWR|CREAT|TRUNC|APPEND)`).MatchString(m[2]) {
				calls = append(calls, [2]string{m[1] + "(" + m[2], p})
			}
		default:
			calls = append(calls, [2]string{m[1] + "(" + m[2], p})
		}
	}
	return
}

func checkC23(c *Ctx) {
	c.Rule = "runs of every kind (scans, listings, errors, offline, updates of configs, broken caches, unwritable places) as an unprivileged user that owns all the files of the case; everything about every file below the case's directory is compared before and after, and a part of the runs is traced for every system call that could change a file anywhere; non-trivial always; distinct by world and flags"
	_ = os.Chmod(c.Work, 0o711)
	_ = os.Chmod(filepath.Dir(c.Work), 0o711)
	const nobody = 65534
	straceOK := exec.Command("strace", "-f", "-o", "/dev/null", "-e", fileSet, "/bin/true").Run() == nil
	if !straceOK {
		c.Assume = append(c.Assume, "strace does not work here: only files in the directory of the case were watched")
	}
	own := func(k *Case) {
		_ = filepath.WalkDir(k.Dir, func(p string, d fs.DirEntry, err error) error {
			if err == nil {
				_ = os.Lchown(p, nobody, nobody)
			}
			return nil
		})
	}
	c.Each("run", c.N(2000, 36000), func(i int, r *R) {
		w := newWorld(c, r, worldOpts{zips: true, apis: true, minDBs: 1, dirs: 4, many: .015, broken: .08, invalid: .06, badDB: .06, faults: .08})
		k := w.k
		defer w.Done()
		k.Mkdir("../home")
		k.Mkdir("../trace")
		eco := map[string][]OSV{}
		zips := map[string][]byte{}
		for _, e := range sortedKeys(worldVersions) {
			if r.P(.9) {
				eco[e] = worldAdvs(r, "osv.dev", w.IDs, 0)
				zips[e] = zipOf(r, advFiles(r, eco[e]))
			}
		}
		osv := c.Scenario(osvHost(eco, zips))
		defer c.EndScenario(osv)
		var args []string
		useDBs := r.P(.4)
		if !useDBs {
			args = append(args, "--use-dbs=false")
		}
		noConfig, update, list, noDBs := r.P(.1), r.P(.35), r.P(.12), r.P(.06)
		global := ""
		if r.P(.15) {
			global = r.Pick("g.yml", "conf/g.yaml")
			k.Write(global, w.genConfigContent(&wConfig{}, worldOpts{}))
			args = append(args, "--config", global)
			c.Mark("modes", "--config")
		}
		on := map[string]bool{"--no-config": noConfig, "--update-config-ignores": update, "--list-packages": list, "--no-config-databases": noDBs}
		for _, f := range sortedKeys(on) {
			if on[f] {
				args = append(args, f)
				c.Mark("modes", f)
			}
		}
		for _, f := range []string{"--json", "--offline", "--use-api", "--version", "--list-ecosystems", "--no-config-ignores"} {
			p := map[string]float64{"--json": .5, "--version": .03, "--list-ecosystems": .03}[f]
			if p == 0 {
				p = .12
			}
			if r.P(p) {
				args = append(args, f)
				c.Mark("modes", f)
			}
		}
		paths := []string{}
		usedConf := map[string]bool{}
		for _, f := range w.Files {
			paths = append(paths, f.arg)
			if cf := w.Conf[f.dir]; cf.path != "" && global == "" {
				usedConf[cf.path] = true
			}
		}
		if global != "" {
			usedConf[global] = true
		}
		if noConfig || list || !update {
			usedConf = map[string]bool{}
		}
		confDirs := map[string]bool{}
		for p := range usedConf {
			confDirs[path.Dir(p)] = true
		}
		if r.P(.2) {
			paths = append(paths, pick(r, w.Dirs), "missing")
		}
		args = append(args, paths...)
		// which archives there could be a cache for
		cache := map[string]string{}
		add := func(u string) {
			cache[fmt.Sprintf("tmp/osv-detector-%x-db.json", sha256.Sum256([]byte(u)))] = u
		}
		for _, d := range w.DBs {
			if d.kind == "zip" || strings.HasPrefix(d.kind, "bad-zip") {
				add(d.entry.URL)
			}
		}
		for _, e := range append(sortedKeys(worldVersions), "NuGet") {
			add("https://osv-vulnerabilities.storage.googleapis.com/" + e + "/all.zip")
		}
		// now and then there is something else where the cache has to be
		for _, p := range sortedKeys(cache) {
			if !r.P(.06) {
				continue
			}
			switch r.IntN(3) {
			case 0:
				k.Mkdir("../" + p)
			case 1:
				k.Write("../"+p, "{}")
			default:
				k.Write("../"+p, `{"url":"x","etag":"`)
			}
			c.Mark("modes", "odd cache")
		}
		if r.P(.2) {
			k.Write("../tmp/unrelated-db.json", "keep me")
			k.Write("../tmp/osv-detector-0000-db.json", "{}")
		}
		own(k)
		if r.P(.1) { // read-only files stay read-only
			for _, f := range w.Files {
				_ = os.Chmod(k.Path(f.path), 0o400)
			}
			c.Mark("modes", "read-only lockfiles")
		}
		if r.P(.06) {
			_ = os.Chmod(filepath.Join(k.Dir, "tmp"), 0o555)
			c.Mark("modes", "read-only tmp")
			defer os.Chmod(filepath.Join(k.Dir, "tmp"), 0o755)
		}
		var env []string
		if r.P(.06) {
			env = []string{"TMPDIR=" + filepath.Join(k.Dir, "home", r.Pick("none", "none/deep", "none/deep/er"))}
			c.Mark("modes", "missing tmp")
		}
		// archives that were asked for: for more than these, there is nothing to cache
		asked := func() int {
			n := 0
			for _, d := range w.DBs {
				if d.scen != nil && (d.kind == "zip" || strings.HasPrefix(d.kind, "bad-zip")) && len(d.scen.Requests()) > 0 {
					n++
				}
			}
			urls := map[string]bool{}
			for _, q := range osv.Requests() {
				urls[q.URL] = true
			}
			return n + len(urls)
		}
		created := map[string]bool{}
		runs := 1
		if r.P(.3) {
			runs = 2
		}
		for n := range runs {
			run := Run{Args: args, Env: env, Token: osv.Token, User: nobody}
			trace := ""
			if straceOK && r.P(.2) {
				trace = filepath.Join(k.Dir, "trace", fmt.Sprint(n))
				run.Wrap = []string{"strace", "-f", "-qq", "-s", "4096", "-o", trace, "-e", fileSet}
			}
			before := map[string]map[string]string{}
			for _, d := range []string{"cwd", "tmp", "home"} {
				before[d] = snapshot(filepath.Join(k.Dir, d))
			}
			res := k.RunX(run)
			if res.Crashed() {
				// judged by another property, but it must not go unnoticed here that nothing was checked
				c.Count("crashes", 1)
			}
			for _, d := range []string{"cwd", "tmp", "home"} {
				for _, x := range snapDiff(before[d], snapshot(filepath.Join(k.Dir, d))) {
					how, p, _ := strings.Cut(x, " ")
					full := path.Join(d, p)
					ok := false
					switch {
					case p == "." && d == "tmp": // the time of the directory that the cache is in
						ok = true
					case d == "tmp" && how == "created" && len(created) < min(len(cache), asked()):
						ok = true
						created[full] = true
						if i, err := os.Stat(filepath.Join(k.Dir, full)); err == nil && i.Mode()&0o133 != 0 {
							k.Violate("%s was created with the mode %v", full, i.Mode())
							return
						}
						c.Count("caches_written", 1)
					case d == "tmp" && (cache[full] != "" || created[full]) && how == "changed":
						ok = true
						c.Count("caches_written", 1)
						if a, b := mode(before[d][p]), mode(snapshot(filepath.Join(k.Dir, d))[p]); a != b {
							k.Violate("the attributes of %s changed from %s to %s", full, a, b)
							return
						}
					case d == "cwd" && usedConf[p] && how == "changed":
						ok = true
						c.Count("configs_updated", 1)
						if a, b := mode(before[d][p]), mode(snapshot(filepath.Join(k.Dir, d))[p]); a != b {
							k.Violate("the attributes of %s changed from %s to %s", full, a, b)
							return
						}
					}
					if !ok {
						k.Violate("the run %s %s (%q)", how, full, args)
						return
					}
				}
			}
			c.Count("files_compared", len(before["cwd"])+len(before["tmp"]))
			if trace != "" {
				b, _ := os.ReadFile(trace)
				calls, opens := modifying(string(b))
				c.Count("runs_traced", 1)
				c.Count("opens_traced", opens)
				if opens == 0 {
					c.Count("empty_traces", 1)
				}
				for _, x := range calls {
					p := x[1]
					if !filepath.IsAbs(p) {
						p = filepath.Join(k.Dir, "cwd", p)
					}
					// the comparison judges what became of the files next to a cache or config
					rel, _ := filepath.Rel(k.Dir, p)
					sub, isCwd := strings.CutPrefix(rel, "cwd/")
					if env != nil && strings.HasPrefix(rel, "home/none/") {
						continue
					}
					if path.Dir(rel) == "tmp" || isCwd && confDirs[path.Dir(sub)] {
						continue
					}
					k.Violate("the run made the system call %s", x[0])
					return
				}
			}
		}
		c.Seen(true, fmt.Sprint(args, i))
		if i == 0 {
			c.Sample(map[string]any{"args": args})
		}
	})
}

// mode is the part of a snapshot that never may change for a file that is rewritten in place.
func mode(s string) string {
	m, rest, _ := strings.Cut(s, " ")
	for _, f := range strings.Fields(rest) {
		if strings.HasPrefix(f, "uid=") {
			m += " " + f
		}
	}
	return m
}

package main

import (
	"archive/zip"
	"bytes"
	"fmt"
	"net/http"
	"os"
	"path"
	"path/filepath"
	"regexp"
	"slices"
	"strconv"
	"strings"
	"time"
)

func init() { checks["C12"] = check{level: "exploration", net: true, f: checkC12} }

var countRe = regexp.MustCompile(`\((\d+) (vulnerability|vulnerabilities), including withdrawn`)

// dbCounts finds the advisory counts that are printed for the databases in use, by name.
func dbCounts(text string) map[string]int {
	m := map[string]int{}
	for _, line := range strings.Split(text, "\n") {
		rest, ok := strings.CutPrefix(line, "  Using db ")
		if !ok {
			continue
		}
		if x := countRe.FindStringSubmatchIndex(rest); x != nil {
			n, _ := strconv.Atoi(rest[x[2]:x[3]])
			if (n == 1) != (rest[x[4]:x[5]] == "vulnerability") {
				n = -1
			}
			m[strings.TrimSpace(rest[:x[0]])] = n
		}
	}
	return m
}

type treeFile struct {
	path, content string
	adv           *OSV   // nil if it is not an advisory
	fault         string // for archives: crc, method
}

func badAdvisory(r *R, valid string) string {
	switch r.IntN(8) {
	case 0:
		return ""
	case 1:
		return valid[:r.Range(1, len(valid)-1)]
	case 2:
		return "[" + valid + "]"
	case 3:
		return `"` + r.Word() + `"`
	case 4:
		return valid + "}"
	case 5:
		return `{"id": 5, "affected": []}`
	case 6:
		return strings.Replace(valid, `"affected":[`, `"affected":["x",`, 1)
	default:
		return "\x00\xff\xfe" + valid
	}
}

func checkC12(c *Ctx) {
	c.Rule = "random trees of advisory files (nested, oddly named, hidden, with siblings whose names start like the working directory, invalid JSON, other extensions, advisories with the same ID) loaded as a directory and as zip archives with shuffled entries, for several working directories and several sets of packages; findings per package are compared with the reference, counts with the number of valid files; plus faulty archive entries, unreadable files, missing directories and unusable archives; non-trivial when at least one advisory is found; distinct by tree, working directory and packages"
	_ = os.Chmod(c.Work, 0o711)
	_ = os.Chmod(filepath.Dir(c.Work), 0o711)
	dirsPool := []string{"", "a", "a/b", "a b", "ab", "a-b", "a.json", "a/b/c/d/e", "b", "b/a", ".hidden", "é/ü", "x.json.d", "a/a", "A", "__MACOSX", ".git/a", "node_modules", "tmp~", "withdrawn", "archive", "a/l1/l2/l3/l4/l5/l6/l7/l8/l9/l10/l11", strings.Repeat("d/", 60) + "e", `a\b`, `c\..`, "$HOME", "a~1"}
	c.Each("tree", c.N(1800, 30000), func(i int, r *R) {
		k := c.NewCase()
		defer k.Done()
		n := r.Range(1, 14)
		if r.P(.03) {
			n = r.Range(100, 400)
		}
		var idsPool []string
		for j := range n {
			idsPool = append(idsPool, fmt.Sprintf("OSV-%d", j))
		}
		var files []treeFile
		used := map[string]bool{}
		for j := range n {
			a := OSV{ID: idsPool[j], Summary: fmt.Sprintf("number %d", j), Published: timeStr(r), Modified: timeStr(r)}
			if r.P(.1) {
				a.ID = pick(r, idsPool)
			}
			if r.P(.07) {
				a.Withdrawn = timeStr(r)
			}
			a.Affected = worldAdvs(r, "x", []string{"X"}, 0)[0].Affected
			if r.P(.3) {
				a.Details = r.Str("abc \"\\\n<>&", 10, 400)
			}
			if i%40 == 7 && j == 0 { // some advisories are large
				a.Details = strings.Repeat(r.Word()+" ", r.Pick2(14_000, 40_000, 250_000, 900_000))
				c.Count("large_advisories", 1)
			}
			f := treeFile{path: path.Join(pick(r, dirsPool), r.Pick("", "z", "é", " ", "1-", "GHSA ")+fmt.Sprint(j)+".json"), content: a.JSON(), adv: &a}
			if r.P(.04) {
				f.path = path.Join(path.Dir(f.path), ".json")
			}
			switch {
			case r.P(.12):
				f.content = badAdvisory(r, f.content)
				f.adv = nil
			case r.P(.1) && path.Base(f.path) != ".json":
				f.path = strings.TrimSuffix(f.path, ".json") + r.Pick(".JSON", ".json.bak", ".jsonl", ".txt", "", "json", ".json5", ".yaml")
				f.adv = nil
			}
			if used[f.path] {
				continue
			}
			used[f.path] = true
			files = append(files, f)
		}
		// directories that are named like advisories must not collide with files
		wd := pick(r, []string{"", "", "", "a", "a", "a/b", "a/", "a b", "b", "./a", "a//", "a/./b", "/a", "a//b/", "./", ".", "b/../a", `a\b`, "$HOME", "a/l1/l2/l3"})
		if f := pick(r, files); r.P(.05) && path.Base(f.path) != ".json" {
			wd = f.path // a single file
		}
		inWD := func(p string) bool {
			w := strings.TrimPrefix(path.Clean("/"+wd), "/")
			return w == "" || p == w || strings.HasPrefix(p, w+"/")
		}
		// packages: a few that advisories are about, in one or two lockfiles
		var pkgs []refPkg
		for range r.Range(1, 7) {
			eco := pick(r, sortedKeys(worldVersions))
			p := refPkg{Eco: eco, Name: worldName(eco, pick(r, worldNames)), Ver: pick(r, worldVersions[eco])}
			if f := pick(r, files); f.adv != nil && r.P(.6) {
				q := pick(r, f.adv.Affected).Package
				p = refPkg{Eco: q.Ecosystem, Name: q.Name, Ver: pick(r, worldVersions[q.Ecosystem])}
				eco = q.Ecosystem
			}
			if eco == "PyPI" && r.P(.3) {
				p.Name = strings.ToUpper(strings.ReplaceAll(p.Name, "-", "_."))
			}
			pkgs = append(pkgs, p)
		}
		exists := path.Clean("/"+wd) == "/" || slices.ContainsFunc(files, func(f treeFile) bool { return inWD(f.path) })
		for j, f := range files {
			if r.P(.05) {
				to := fmt.Sprintf("elsewhere/%d.txt", j)
				k.Write(to, f.content)
				must(os.MkdirAll(k.Path(path.Dir(path.Join("tree", f.path))), 0o755))
				must(os.Symlink(k.Path(to), k.Path(path.Join("tree", f.path))))
				c.Count("symbolic_links", 1)
				continue
			}
			k.Write(path.Join("tree", f.path), f.content)
		}
		if !exists {
			k.Mkdir("tree/" + wd)
		}
		if r.P(.3) && !slices.ContainsFunc(files, func(f treeFile) bool { return f.path == wd }) {
			k.Mkdir("tree/" + strings.TrimSuffix(wd, "/") + "/empty.json")
		}
		// the archive, with faults for some entries
		arch := func(faults bool) ([]byte, []treeFile) {
			l := slices.Clone(files)
			shuffle(r, l)
			if faults {
				for j := range l {
					if r.P(.15) {
						l[j].fault = r.Pick("crc", "method", "method", "flate")
						l[j].adv = nil
					}
				}
			}
			return treeZip(r, l), l
		}
		want := func(l []treeFile, ps []refPkg) (map[string][]string, int) {
			m := map[string][]string{}
			count := 0
			for _, f := range l {
				if f.adv == nil || !inWD(f.path) {
					continue
				}
				count++
				for _, p := range ps {
					if refAffected(*f.adv, p) && !slices.Contains(m[p.key()], f.adv.ID) {
						m[p.key()] = append(m[p.key()], f.adv.ID)
					}
				}
			}
			return m, count
		}
		found := 0
		run := func(name string, e dbEntry, l []treeFile, ps []refPkg) bool {
			e.Name, e.WD = "mydb", wd
			dir := "run-" + name
			k.Write(dir+"/.osv-detector.yml", configYAML(nil, []dbEntry{e}))
			half := len(ps)
			args := []string{"--json", "--use-dbs=false"}
			if r.P(.3) && len(ps) > 1 {
				half = r.Range(1, len(ps)-1)
			}
			for j, part := range [][]refPkg{ps[:half], ps[half:]} {
				if len(part) == 0 {
					continue
				}
				f := fmt.Sprintf("%s/p%d.csv", dir, j)
				k.Write(f, mkLock("csv-file", part))
				args = append(args, "csv-file:"+f)
			}
			m, count := want(l, ps)
			res := k.Run(args...)
			out, err := parseOut(res.Out)
			if err != nil || res.Exit != 0 && res.Exit != 1 {
				k.Violate("%s: unexpected outcome: %v %s", name, err, res)
				return false
			}
			seen := 0
			for _, f := range out.Results {
				for _, p := range f.Packages {
					seen++
					if s := diff(m[p.Key()], ids(p.Vulns)); s != "" {
						k.Violate("%s (working directory %q): %s: %s", name, wd, p.Key(), s)
						return false
					}
					found += len(p.Vulns)
				}
			}
			if seen != len(ps) {
				k.Violate("%s: %d packages instead of %d", name, seen, len(ps))
				return false
			}
			if got, ok := dbCounts(string(res.Err))["mydb"]; !ok || got != count {
				k.Violate("%s (working directory %q): %d advisories are said to be loaded, but there are %d: %s", name, wd, got, count, res)
				return false
			}
			for _, f := range l {
				if f.adv == nil && inWD(f.path) && strings.HasSuffix(f.path, ".json") && !strings.Contains(string(res.Err), path.Base(f.path)) {
					k.Violate("%s: %s is not an advisory, but stderr does not mention it", name, f.path)
					return false
				}
				if f.adv == nil && inWD(f.path) && strings.HasSuffix(f.path, ".json") {
					c.Count("invalid_files_reported", 1)
				}
			}
			c.Count("databases_judged_"+strings.TrimRight(name, "0123456789"), 1)
			c.Count("advisories_loaded", count)
			return true
		}
		at := "file:/tree"
		if r.P(.15) { // reached through symbolic links
			must(os.Symlink(r.Pick("tree", k.Path("tree"), "./tree/"), k.Path("link")))
			must(os.Symlink("link", k.Path("link2")))
			at = "file:/" + r.Pick("link", "link2", "link/", "./link", "///"+strings.TrimPrefix(k.Path("link"), "/"))
			c.Count("linked_directories", 1)
		}
		if !run("dir", dbEntry{URL: at}, files, pkgs) {
			return
		}
		body, l := arch(false)
		body2, l2 := arch(true)
		s := c.Scenario(func(w http.ResponseWriter, q *Req) {
			if strings.HasSuffix(q.Path, "/faulty.zip") {
				_, _ = w.Write(body2)
				return
			}
			_, _ = w.Write(body)
		})
		defer c.EndScenario(s)
		if !run("zip", dbEntry{URL: c.URL(s, "/all.zip")}, l, pkgs) {
			return
		}
		if r.P(.4) && !run("faulty", dbEntry{URL: c.URL(s, "/faulty.zip")}, l2, pkgs) {
			return
		}
		// each package alone: the others must not matter
		if len(pkgs) > 1 && r.P(.5) {
			one := []refPkg{pick(r, pkgs)}
			if !run("one", dbEntry{URL: "file:/tree"}, files, one) || !run("onezip", dbEntry{URL: c.URL(s, "/one.zip")}, l, one) {
				return
			}
		}
		// files that cannot be read
		if r.P(.15) && len(files) < 50 {
			var ul []treeFile
			shut := ""
			if d := path.Dir(pick(r, files).path); r.P(.4) && d != "." {
				shut = d // a directory that cannot be entered
				_ = os.Chmod(k.Path("tree/"+shut), r.PickMode(0, 0o111))
				defer os.Chmod(k.Path("tree/"+shut), 0o755)
				c.Mark("modes", "unreadable directory")
			}
			within := func(p, d string) bool { return d != "" && (p == d || strings.HasPrefix(p, d+"/")) }
			for _, f := range files {
				if within(f.path, shut) {
					f.adv = nil
				} else if r.P(.3) {
					_ = os.Chmod(k.Path("tree/"+f.path), 0)
					f.adv = nil
				}
				ul = append(ul, f)
			}
			if w := strings.TrimPrefix(path.Clean("/"+wd), "/"); w != shut && within(w, shut) {
				return // it cannot be found at all
			}
			k.Write("un/.osv-detector.yml", configYAML(nil, []dbEntry{{URL: "file:/tree", Name: "mydb", WD: wd}}))
			k.Write("un/p.csv", mkLock("csv-file", pkgs))
			res := k.RunX(Run{Args: []string{"--json", "--use-dbs=false", "csv-file:un/p.csv"}, User: 65534})
			out, err := parseOut(res.Out)
			m, _ := want(ul, pkgs)
			if w := strings.TrimPrefix(path.Clean("/"+wd), "/"); w != "" && w == shut { // all of it
				if err != nil || len(out.Results) != 1 || res.Exit != 127 || !strings.Contains(string(res.Err), shut) {
					k.Violate("the directory of the database cannot be read: unexpected outcome: %v %s", err, res)
				}
				c.Mark("modes", "unreadable database")
				return
			}
			if err != nil || len(out.Results) != 1 || res.Exit != 0 && res.Exit != 1 {
				k.Violate("unreadable files: unexpected outcome: %v %s", err, res)
				return
			}
			for _, p := range out.Results[0].Packages {
				if s := diff(m[p.Key()], ids(p.Vulns)); s != "" {
					k.Violate("unreadable files (working directory %q): %s: %s", wd, p.Key(), s)
					return
				}
			}
			for _, f := range ul {
				name := path.Base(f.path)
				if within(f.path, shut) {
					name = shut
				}
				if f.adv == nil && inWD(f.path) && strings.HasSuffix(f.path, ".json") && !strings.Contains(string(res.Err), name) {
					k.Violate("%s cannot be used, but stderr does not mention it", f.path)
					return
				}
			}
			c.Count("runs_with_unreadable_files", 1)
		}
		c.Mark("working_directories", wd)
		c.Seen(found > 0, fmt.Sprint(toJSON(l), wd, pkgs))
		if i == 0 {
			c.Sample(map[string]any{"files": sortedKeys(k.Files), "working_directory": wd})
		}
	})
	// archives with very many entries
	c.EachW("many", c.N(2, 6), 2, func(i int, r *R) {
		k := c.NewCase()
		defer k.Done()
		n := pick(r, []int{70_000, 66_000, 80_000, 140_000})
		var files []treeFile
		var want []string
		for j := range n {
			f := treeFile{path: fmt.Sprintf("%s/%d.json", r.Pick("a", "b", "c/d"), j), content: fmt.Sprintf(`{"id":"M-%d","affected":[{"package":{"ecosystem":"npm","name":"other"},"versions":["1.0.0"]}]}`, j)}
			if j > n-20 || j == 0 || r.P(.0002) {
				a := allVersions(fmt.Sprintf("W-%d", j), "npm", "alpha")
				f.content = a.JSON()
				want = append(want, a.ID)
			}
			files = append(files, f)
		}
		s := c.Scenario(serveBytes(treeZip(r, files)))
		defer c.EndScenario(s)
		k.Write("p/.osv-detector.yml", configYAML(nil, []dbEntry{{URL: c.URL(s, "/all.zip"), Name: "mydb"}}))
		k.Write("p/p.csv", "npm,,alpha,1.0.0\n")
		res := k.RunX(Run{Args: []string{"--json", "--use-dbs=false", "csv-file:p/p.csv"}, Limit: 300 * time.Second})
		out, err := parseOut(res.Out)
		if err != nil || res.Exit != 1 || len(out.Results) != 1 || len(out.Results[0].Packages) != 1 {
			k.Violate("an archive with %d entries: %v %s", n, err, res)
			return
		}
		if s := diff(want, ids(out.Results[0].Packages[0].Vulns)); s != "" {
			k.Violate("an archive with %d entries: %s", n, s)
			return
		}
		if got := dbCounts(string(res.Err))["mydb"]; got != n {
			k.Violate("an archive with %d entries is said to have %d", n, got)
			return
		}
		c.Count("entries_of_large_archives", n)
		c.Seen(true, fmt.Sprint("many", n, i))
	})
	// databases that cannot be used at all
	c.Each("unusable", c.N(500, 6000), func(i int, r *R) {
		k := c.NewCase()
		defer k.Done()
		advs := worldAdvs(r, "x", []string{"A", "B", "C"}, 0)
		good, gs := k.extraDB(r, "good", []OSV{allVersions("GOOD", "npm", "alpha")}, false)
		_ = gs
		var e dbEntry
		body := zipOf(r, advFiles(r, advs))
		kind := r.Pick("missing", "missing-wd", "cut", "garbage", "empty", "html", "flip")
		switch kind {
		case "missing":
			e.URL = "file:/nope"
		case "missing-wd":
			k.Mkdir("there")
			e.URL, e.WD = "file:/there", "nope"
		case "cut":
			body = body[:r.Range(1, len(body)-1)]
		case "garbage":
			body = []byte(r.Str("PK\x03\x04abc\x00", 1, 2000))
		case "empty":
			body = nil
		case "html":
			body = []byte("<html><body>not found</body></html>")
		case "flip": // the signature of the end of the central directory
			body = bytes.Clone(body)
			at := bytes.LastIndex(body, []byte("PK\x05\x06"))
			body[at+r.IntN(4)] ^= 0x20
		}
		if e.URL == "" {
			s := c.Scenario(serveBytes(body))
			defer c.EndScenario(s)
			e.URL = c.URL(s, "/all.zip")
		}
		e.Name = "the-bad-one"
		es := []dbEntry{e, good}
		if r.P(.5) {
			es = []dbEntry{good, e}
		}
		k.Write("p/.osv-detector.yml", configYAML(nil, es))
		vuln := r.P(.6)
		ver := "alpha"
		if !vuln {
			ver = "beta"
		}
		k.Write("p/p.csv", csvRow("npm", "", ver, "1.0.0"))
		res := k.Run("--json", "--use-dbs=false", "csv-file:p/p.csv")
		out, err := parseOut(res.Out)
		if err != nil || res.Exit != 127 || !strings.Contains(string(res.Err), "failed") {
			k.Violate("%s: a database cannot be used but got %v %s", kind, err, res)
			return
		}
		if len(out.Results) != 1 || len(out.Results[0].Packages) != 1 || (len(out.Results[0].Packages[0].Vulns) == 1) != vuln {
			k.Violate("%s: the other database was not used: %s", kind, res)
			return
		}
		c.Mark("unusable", kind)
		c.Seen(true, kind+string(body))
	})
}

// treeZip packs the files in the given order, with their faults.
func treeZip(r *R, files []treeFile) []byte {
	var b bytes.Buffer
	w := zip.NewWriter(&b)
	dirs := map[string]bool{}
	addDirs := r.P(.5)
	for _, f := range files {
		if d := path.Dir(f.path); addDirs && d != "." && !dirs[d] {
			dirs[d] = true
			_, err := w.CreateHeader(&zip.FileHeader{Name: d + "/"})
			must(err)
		}
		h := &zip.FileHeader{Name: f.path, Method: zip.Deflate}
		if r.P(.3) || f.fault == "crc" || f.fault == "method" {
			h.Method = zip.Store
		}
		if r.P(.2) {
			h.Extra = []byte{0xca, 0xfe, 4, 0, 1, 2, 3, 4}
		}
		if r.P(.2) {
			h.Comment = "a comment"
		}
		if f.fault == "" {
			fw, err := w.CreateHeader(h)
			must(err)
			_, err = fw.Write([]byte(f.content))
			must(err)
			continue
		}
		raw := []byte(f.content)
		h.UncompressedSize64 = uint64(len(raw))
		h.CRC32 = crc32of(raw)
		switch f.fault {
		case "crc":
			h.CRC32 ^= 0x5a5a
			if len(raw) == 0 {
				raw = []byte("x")
				h.UncompressedSize64 = 1
			}
		case "method":
			h.Method = 97
		case "flate":
			h.Method = zip.Deflate
			raw = []byte{0xff, 0xff, 0xff, 0xff, 0, 1, 2}
			h.UncompressedSize64 = 100
		}
		h.CompressedSize64 = uint64(len(raw))
		fw, err := w.CreateRaw(h)
		must(err)
		_, err = fw.Write(raw)
		must(err)
	}
	must(w.Close())
	return b.Bytes()
}

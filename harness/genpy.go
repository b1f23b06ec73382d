package main

import (
	"fmt"
	"path"
	"regexp"
	"slices"
	"sort"
	"strings"
)

func init() {
	allGens["requirements"] = genRequirements
	allGens["poetry"] = genPoetry
	allGens["pipenv"] = genPipenv
	allGens["pdm"] = genPdm
	allGens["uv"] = genUv
	allGens["pylock"] = genPylock
	checks["C02"] = check{level: "exploration", f: checkC02}
}

var pyGens = []string{"requirements", "poetry", "requirements", "pipenv", "pdm", "requirements", "uv", "pylock"}

func checkC02(c *Ctx) {
	c.Rule = "documents are drawn from grammars of each lockfile format (and, for requirements files, include graphs over several directories with sharing and cycles) together with the packages they record; non-trivial when at least one package is recorded; distinct by content of the main file"
	c.Assume = []string{"requirements given by URL or path, and --requirement, are left out: the detector documents no support for them", "Pipfile.lock entries without a version are left out of the expected list, as the repository's own tests require"}
	lockfileCheck(c, pyGens, c.N(12000, 200000))
	hugeCheck(c, c.N(100, 2000), map[string]func(r *R, d *Doc, size int){"requirements": func(r *R, d *Doc, size int) {
		s := d.Files[d.Format]
		long := "# " + strings.Repeat("x", size) + "\n"
		if r.P(.5) {
			d.Files[d.Format] = long + s
		} else {
			d.Files[d.Format] = strings.TrimRight(s, "\\ \t\r\n") + "\n" + long
		}
	}})
	truncateCheck(c, c.N(300, 4000), []string{"pipenv"})
	missingInclude(c, c.N(500, 8000))
}

// a requirements file that includes one that does not exist is an error
func missingInclude(c *Ctx, n int) {
	c.Each("missing", n, func(i int, r *R) {
		k := c.NewCase()
		defer k.Done()
		var d *Doc
		for d == nil || len(d.Files) < 2 {
			d = genRequirements(r)
		}
		var fs []string
		for f := range d.Files {
			if f != d.Format && d.Feats["requirements.txt:reach:"+f] {
				fs = append(fs, f)
			}
		}
		sort.Strings(fs)
		if len(fs) == 0 {
			return
		}
		gone := pick(r, fs)
		delete(d.Files, gone)
		for f, s := range d.Files {
			k.Write(path.Join("p", f), s)
		}
		res := k.Run("--json", "--list-packages", "p/requirements.txt")
		out, err := parseOut(res.Out)
		if err != nil || res.Exit != 127 || len(out.Results) != 0 || len(res.Err) == 0 {
			k.Violate("the included %s is missing, which has to be an error, but got %s", gone, res)
			return
		}
		c.Count("missing_includes_reported", 1)
		c.Seen(true, "missing "+gone+d.Files[d.Format])
	})
}

var pyWords = []string{"requests", "Django", "flask", "zope.interface", "ruamel.yaml", "typing_extensions", "Foo--Bar", "a", "python-dateutil", "PyYAML", "x_.-y", "oslo.config", "version", "name", "package", "R", "numpy"}

func pyName(r *R) string {
	n := pick(r, pyWords)
	if r.P(.2) {
		n += r.Pick("-", ".", "_", "") + r.Word()
	}
	return n
}

var pep503 = regexp.MustCompile(`[-_.]+`)

func pyNorm(n string) string { return strings.ToLower(pep503.ReplaceAllString(n, "-")) }

func pyVersion(r *R) string {
	switch r.IntN(9) {
	case 0:
		return fmt.Sprintf("%d.%drc%d", r.IntN(5), r.IntN(9), r.IntN(3))
	case 1:
		return fmt.Sprintf("20%d.%d.%d", r.Range(10, 25), r.IntN(12), r.IntN(30))
	case 2:
		return fmt.Sprintf("%d.%d.post%d", r.IntN(5), r.IntN(9), r.IntN(3))
	case 3:
		return fmt.Sprintf("%d.%d.dev%d", r.IntN(5), r.IntN(9), r.IntN(3))
	case 4:
		return fmt.Sprintf("%d.%d.%d+local.%d", r.IntN(5), r.IntN(9), r.IntN(5), r.IntN(3))
	case 5:
		return fmt.Sprint(r.IntN(30))
	default:
		return fmt.Sprintf("%d.%d.%d", r.IntN(5), r.IntN(9), r.IntN(5))
	}
}

func reqLine(r *R, d *Doc, name, v string) (line string, version string) {
	ws := func() string { return r.Pick("", "", "", " ", "  ", "\t") }
	line = r.Pick("", "", "", "", "  ", "\t") + name
	if r.P(.25) {
		line += ws() + "[" + r.Pick("security", "security,tests", "a, b", "Foo_Bar", "all-extras") + "]"
		d.feat("extras")
	}
	version = "0.0.0"
	var cons []string
	if r.P(.8) {
		op := r.Pick("==", "==", "==", "==", "===", ">=", "~=", ">")
		version = v
		cons = append(cons, op+ws()+v)
		if op != "==" {
			d.feat("op" + op)
		}
		if strings.HasPrefix(op, "==") && r.P(.95) {
			// exact
		} else {
			for range r.IntN(3) {
				cons = append(cons, r.Pick("<", "!=", "<=")+ws()+pyVersion(r))
				d.feat("multiple-constraints")
			}
		}
	} else if r.P(.5) {
		for range r.Range(1, 2) {
			cons = append(cons, r.Pick("<", "!=", "<=")+ws()+pyVersion(r))
		}
		d.feat("upper-only")
	}
	shuffle(r, cons)
	list := strings.Join(cons, ws()+","+ws())
	switch {
	case r.P(.06):
		cons, version = nil, "0.0.0"
		list = r.Pick("@ ", " @ ", "@") + r.Pick("https://example.com/x-1.0.zip", "git+https://github.com/o/r.git@"+r.Sha()+"#egg="+name, "file:///a/b==1/c.whl#sha1=abc", "https://example.com/x?v>=1&y~=2", "git+ssh://git@github.com/o/r.git@v1==2") + " "
		d.feat("direct-reference")
	case len(cons) > 0 && r.P(.08):
		list = r.Pick("(", " (", "( ") + list + r.Pick(")", " )")
		d.feat("parentheses")
	}
	line += ws() + list
	line = strings.TrimRight(line, " \t")
	if r.P(.2) {
		line += ws() + ";" + ws() + r.Pick(`python_version >= "3.8"`, `sys_platform == 'win32' and python_version < "3.0.1"`, `extra == "x"`, `python_full_version=="3.9.1"`, `implementation_name != "cpython"`)
		d.feat("marker")
	}
	if r.P(.15) {
		sep := " "
		if r.P(.6) {
			sep = r.Pick(" \\\n    ", " \\\n    ", "\\\n    ")
		}
		for range r.Range(1, 3) {
			line += sep + "--hash=sha256:" + r.Hex(64)
		}
		d.feat("hash")
	} else if r.P(.05) {
		line += ` --global-option="--no-user-cfg"`
		d.feat("option")
	}
	if r.P(.1) && !strings.Contains(line, "\\") && len(cons) > 0 {
		i := strings.IndexAny(line, "=<>~!")
		line = line[:i] + "\\\n" + line[i:]
		d.feat("continuation")
	}
	if r.P(.2) {
		line += r.Pick(" ", "  ", "\t") + "#" + r.Pick("", " ") + r.Pick("a comment", "evil==6.6.6", "via -r base.txt", "; x", "==1.0")
		d.feat("comment")
	}
	line += r.Pick("", "", "", " ", "\t")
	return line, version
}

func genRequirements(r *R) *Doc {
	d := newDoc("requirements.txt")
	d.Once = true
	files := []string{"requirements.txt"}
	if r.P(.5) {
		for j := range r.Range(1, 4) {
			f := r.Pick("", "", "sub/", "sub/deep/", "other/") + fmt.Sprintf("%s%d.txt", r.Pick("base", "dev", "requirements-", "test ", "c#"), j)
			if r.P(.5) { // the same name in several directories
				f = r.Pick("sub/", "sub/deep/", "other/", "other/deep/") + r.Pick("base.txt", "requirements.txt")
			}
			if !slices.Contains(files, f) {
				files = append(files, f)
			}
		}
	}
	inc := map[string][]string{}
	lines := map[string][]string{}
	pk := map[string][]string{}
	for _, f := range files {
		var l []string
		for range r.Many(6) {
			name, v := d.twin(r, pyName(r), pyVersion(r))
			line, v := reqLine(r, d, name, v)
			l = append(l, line)
			pk[f] = append(pk[f], pkgKey("PyPI", pyNorm(name), v, ""))
		}
		for _, g := range files {
			if r.P(.45) && (len(files) > 1 || r.P(.1)) {
				rel := relPath(path.Dir(f), g)
				if r.P(.2) && !strings.HasPrefix(rel, ".") {
					rel = "./" + rel
				}
				inc[f] = append(inc[f], g)
				l = append(l, r.Pick("-r ", "-r ", "-r ", "-r  ", "-r \t")+rel+r.Pick("", "", " # included"))
				d.feat("include")
			}
		}
		noise := []string{"", "   ", "# a comment", "#evil==6.6.6", "  # indented==1.0", "--index-url https://pypi.org/simple", "-i https://example.com/simple", "--extra-index-url https://x.example.com # comment==1", "-e ./local", "./local/pkg", "../up", "/abs/pkg.whl", "https://example.com/evil-6.6.6.whl", "http://example.com/evil.tar.gz", "git+https://github.com/o/evil.git@v1==2#egg=evil", "git+ssh://git@example.com/o/evil.git", "file:///srv/evil-1.0.whl", "HTTPS://example.com/evil==1.zip", "hg+http://hg.example.com/Evil>=1", "--no-binary :all:", "-c constraints.txt", "-f ./links", "# a comment that ends in \\", "  # evil==6.6.6 \\", "--pre"}
		for range r.IntN(4) {
			l = append(l, pick(r, noise))
		}
		shuffle(r, l)
		lines[f] = l
	}
	seen := map[string]bool{}
	var visit func(f string)
	visit = func(f string) {
		if seen[f] {
			d.feat("shared-or-cyclic")
			return
		}
		seen[f] = true
		d.Feats["requirements.txt:reach:"+f] = true
		for _, p := range pk[f] {
			d.Want[p]++
		}
		for _, g := range inc[f] {
			visit(g)
		}
	}
	visit("requirements.txt")
	for _, f := range files {
		s := strings.Join(lines[f], "\n")
		if r.P(.8) {
			s += "\n"
		}
		if r.P(.2) {
			s = crlf(s)
			d.feat("crlf")
		}
		d.Files[f] = s
	}
	return d
}

func relPath(from, to string) string {
	if from == "." {
		return to
	}
	up := strings.Repeat("../", strings.Count(from, "/")+1)
	if rest, ok := strings.CutPrefix(to, from+"/"); ok && rest != "" {
		return rest
	}
	return up + to
}

// ---- TOML ----

func tq(s string) string { return toJSON(s) }

type tomlPkg struct {
	lines  []string // name, version and inline properties
	tables []string // sub-tables
}

func tomlNoise(r *R) string {
	return r.Pick("description = \"about [[package]] things\"", "description = \"name = \\\"evil\\\"\"", "description = '''\n[[package]]\nname = \"evil\"\nversion = \"6.6.6\"\n'''", "optional = false", "optional = true", "python-versions = \">=3.6\"", "category = \"main\" # name = \"x\"", "develop = true", "files = [\n    {file = \"x-1.0.tar.gz\", hash = \"sha256:abc\"},\n]", "groups = [\"default\", \"dev\"]", "summary = \"\"")
}

func tomlDoc(r *R, d *Doc, head []string, table string, pkgs []tomlPkg, tail []string) {
	var b strings.Builder
	b.WriteString(r.Pick("", "# This file is @generated by something.\n\n"))
	for _, h := range head {
		b.WriteString(h + "\n")
	}
	for _, p := range pkgs {
		b.WriteString("\n[[" + table + "]]\n")
		l := append([]string{}, p.lines...)
		used := map[string]bool{}
		for range r.Many(3) {
			n := tomlNoise(r)
			k, _, _ := strings.Cut(n, " ")
			if !used[k] {
				used[k] = true
				l = append(l, n)
			}
		}
		if r.P(.5) {
			shuffle(r, l)
		}
		for _, s := range l {
			b.WriteString(s + "\n")
		}
		t := append([]string{}, p.tables...)
		shuffle(r, t)
		for _, s := range t {
			b.WriteString("\n" + s + "\n")
		}
	}
	for _, h := range tail {
		b.WriteString("\n" + h + "\n")
	}
	s := b.String()
	if r.P(.15) {
		s = crlf(s)
		d.feat("crlf")
	}
	d.Files[d.Format] = s
}

func genPoetry(r *R) *Doc {
	d := newDoc("poetry.lock")
	var pkgs []tomlPkg
	commits := commitPool(r)
	for range r.Many(8) {
		n, v := d.twin(r, pyName(r), pyVersion(r))
		commit := ""
		p := tomlPkg{lines: []string{"name = " + tq(n), "version = " + tq(v)}}
		switch r.IntN(6) {
		case 0, 1:
			commit = pick(r, commits)
			p.tables = append(p.tables, "[package.source]\ntype = \"git\"\nurl = \"https://github.com/o/r\"\nreference = \""+r.Pick("main", "HEAD", "v1.0")+"\"\nresolved_reference = \""+commit+"\"")
			d.feat("git")
		case 2:
			p.tables = append(p.tables, "[package.source]\ntype = \"legacy\"\nurl = \"https://gitlab.example.com/api/pypi/simple\"\nreference = \"example\"")
			d.feat("legacy")
		case 3:
			p.tables = append(p.tables, "[package.source]\ntype = \""+r.Pick("directory", "file", "url")+"\"\nurl = \"../x\"")
			d.feat("path")
		}
		if r.P(.4) {
			p.tables = append(p.tables, "[package.dependencies]\nevil = \">=6.6.6\"\nversion = {version = \"*\", optional = true}")
		}
		if r.P(.2) {
			p.tables = append(p.tables, "[package.extras]\nname = [\"evil (>=1)\"]")
		}
		pkgs = append(pkgs, p)
		d.want("PyPI", n, v, commit)
	}
	var head []string
	if r.P(.2) {
		head = append(head, "version = "+r.Pick("1", "2"))
	}
	tomlDoc(r, d, head, "package", pkgs, []string{"[extras]\nall = [\"evil\"]", "[metadata]\nlock-version = \"" + r.Pick("1.0", "1.1", "2.0", "2.1") + "\"\npython-versions = \"^3.10\"\ncontent-hash = \"" + r.Hex(64) + "\""})
	return d
}

func genPdm(r *R) *Doc {
	d := newDoc("pdm.lock")
	var pkgs []tomlPkg
	commits := commitPool(r)
	for range r.Many(8) {
		n, v := d.twin(r, pyName(r), pyVersion(r))
		commit := ""
		p := tomlPkg{lines: []string{"name = " + tq(n), "version = " + tq(v)}}
		if r.P(.3) {
			commit = pick(r, commits)
			p.lines = append(p.lines, "git = \"https://github.com/o/r.git\"", "ref = \"main\"", "revision = \""+commit+"\"")
			d.feat("git")
		}
		if r.P(.4) {
			p.lines = append(p.lines, "dependencies = [\n    \"evil>=6.6.6\",\n    \"typing-extensions>=3; python_version < \\\"3.8\\\"\",\n]")
		}
		if r.P(.2) {
			p.lines = append(p.lines, "extras = [\"x\"]", "marker = \"python_version >= '3.8'\"")
		}
		pkgs = append(pkgs, p)
		d.want("PyPI", n, v, commit)
	}
	tomlDoc(r, d, []string{"[metadata]", "groups = [\"default\", \"dev\"]", "lock_version = \"4.4.1\"", "content_hash = \"sha256:" + r.Hex(64) + "\""}, "package", pkgs, nil)
	return d
}

func genUv(r *R) *Doc {
	d := newDoc("uv.lock")
	var pkgs []tomlPkg
	commits := commitPool(r)
	for range r.Many(8) {
		n, v := d.twin(r, pyName(r), pyVersion(r))
		commit := ""
		src := `source = { registry = "https://pypi.org/simple" }`
		switch r.IntN(6) {
		case 0, 1:
			commit = pick(r, commits)
			src = `source = { git = "https://github.com/o/r` + r.Pick("", "?rev=main", "?tag=v1.0", "?branch=a-b&subdirectory=x", ".git") + "#" + commit + `" }`
			d.feat("git")
		case 2:
			src = `source = { url = "https://example.com/x-1.0.tar.gz" }`
			d.feat("url")
		case 3: // another member of the workspace is a package like every other
			kind := r.Pick("virtual", "editable", "directory", "path")
			src = `source = { ` + kind + ` = "` + r.Pick("packages/x", "..", "./x", "../..", "x/.", ".x", "a.b") + `" }`
			d.feat("local-" + kind)
		}
		p := tomlPkg{lines: []string{"name = " + tq(n), "version = " + tq(v), src}}
		if r.P(.4) {
			p.lines = append(p.lines, "dependencies = [\n    { name = \"evil\" },\n    { name = \"colorama\", marker = \"sys_platform == 'win32'\" },\n]")
		}
		if r.P(.3) {
			p.lines = append(p.lines, "sdist = { url = \"https://files.example.com/x.tar.gz#y\", hash = \"sha256:abc\", size = 1 }")
		}
		if r.P(.2) {
			p.tables = append(p.tables, "[package.optional-dependencies]\nsocks = [\n    { name = \"evil\" },\n]")
		}
		pkgs = append(pkgs, p)
		d.want("PyPI", n, v, commit)
	}
	if r.P(.8) {
		kind := r.Pick("virtual", "editable")
		p := tomlPkg{lines: []string{`name = "the-root"`, `version = "9.9.9"`, `source = { ` + kind + ` = "." }`}, tables: []string{"[package.metadata]\nrequires-dist = [{ name = \"evil\", git = \"https://github.com/o/r#" + commits[0] + "\" }]", "[package.dev-dependencies]\ndev = [\n    { name = \"evil\" },\n]"}}
		pkgs = append(pkgs, p)
		shuffle(r, pkgs)
		d.feat("root-" + kind)
	}
	tomlDoc(r, d, []string{"version = 1", `requires-python = ">=3.10"`}, "package", pkgs, nil)
	return d
}

func genPylock(r *R) *Doc {
	d := newDoc("pylock.toml")
	var pkgs []tomlPkg
	commits := commitPool(r)
	for range r.Many(8) {
		n, v := d.twin(r, pyName(r), pyVersion(r))
		commit := ""
		p := tomlPkg{lines: []string{"name = " + tq(n), "version = " + tq(v)}}
		switch r.IntN(6) {
		case 0, 1:
			commit = pick(r, commits)
			if r.P(.5) {
				p.lines = append(p.lines, `vcs = { type = "git", url = "https://github.com/o/r.git", requested-revision = "main", commit-id = "`+commit+`" }`)
			} else {
				p.tables = append(p.tables, "[packages.vcs]\ntype = \"git\"\nurl = \"https://github.com/o/r.git\"\ncommit-id = \""+commit+"\"")
			}
			d.feat("git")
		case 2:
			p.lines = append(p.lines, `directory = { path = "`+r.Pick("./sub", "../x", ".")+`", editable = true }`)
			d.feat("directory")
		default:
			p.lines = append(p.lines, `index = "https://pypi.org/simple"`)
		}
		if r.P(.4) {
			p.lines = append(p.lines, `wheels = [{ url = "https://files.example.com/x.whl", upload-time = 2025-05-20T23:19:47Z, size = 102215, hashes = { sha256 = "61a3" } }]`, "dependencies = [{ name = \"evil\" }]")
		}
		if r.P(.2) {
			p.tables = append(p.tables, "[[packages.attestation-identities]]\nkind = \"GitHub\"\nname = \"evil\"")
		}
		pkgs = append(pkgs, p)
		d.want("PyPI", n, v, commit)
	}
	if r.P(.6) {
		pkgs = append(pkgs, tomlPkg{lines: []string{`name = "the-root"`, `directory = { path = "." }`}})
		shuffle(r, pkgs)
		d.feat("root")
	}
	tomlDoc(r, d, []string{`lock-version = "1.0"`, `created-by = "uv"`}, "packages", pkgs, nil)
	return d
}

func genPipenv(r *R) *Doc {
	d := newDoc("Pipfile.lock")
	d.JSON = true
	sec := func() raw {
		var kvs []kv
		used := map[string]bool{}
		for range r.Many(5) {
			n, v := d.twin(r, pyName(r), pyVersion(r))
			if used[n] {
				continue
			}
			used[n] = true
			f := []kv{{"hashes", []string{"sha256:abc"}}, {"index", "pypi"}}
			if r.P(.15) {
				f = append(f, kv{"git", "https://github.com/o/r.git"}, kv{"ref", r.Sha()})
				d.feat("no-version")
			} else {
				f = append(f, kv{"version", "==" + v})
				d.want("PyPI", n, v, "")
			}
			if r.P(.3) {
				f = append(f, kv{"markers", "python_version >= '3.6'"}, kv{"extras", []string{"x"}})
			}
			kvs = append(kvs, kv{n, jobj(r, f...)})
		}
		return jobj(r, kvs...)
	}
	f := []kv{{"_meta", map[string]any{"hash": map[string]string{"sha256": "x"}, "pipfile-spec": 6, "requires": map[string]string{"python_version": "3.9"}, "sources": []any{}}}}
	f = append(f, kv{"default", sec()}, kv{"develop", sec()})
	d.Files[d.Format] = string(jobj(r, f...))
	return d
}

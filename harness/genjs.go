package main

import (
	"fmt"
	"sort"
	"strings"
)

func init() {
	allGens["npm1"] = genNpm1
	allGens["npm2"] = func(r *R) *Doc { return genNpm2(r, 2) }
	allGens["npm3"] = func(r *R) *Doc { return genNpm2(r, 3) }
	allGens["yarn1"] = genYarn1
	allGens["yarn2"] = genYarn2
	allGens["pnpm5"] = func(r *R) *Doc { return genPnpm(r, 5) }
	allGens["pnpm6"] = func(r *R) *Doc { return genPnpm(r, 6) }
	allGens["pnpm9"] = func(r *R) *Doc { return genPnpm(r, 9) }
	allGens["bun"] = genBun
	checks["C01"] = check{level: "exploration", f: checkC01}
}

var jsGens = []string{"npm1", "npm2", "npm3", "yarn1", "yarn2", "pnpm5", "pnpm6", "pnpm9", "bun"}

func checkC01(c *Ctx) {
	c.Rule = "documents are drawn from grammars of each lockfile format together with the packages they record (small name pools, so that names, versions, commits, aliases and nesting collide); a case is non-trivial when at least one package is recorded; distinct by file content"
	c.Assume = []string{"the generators' idea of the formats (from the package managers' own output and the repository's fixtures)", "local workspace links are left out, as the format documents nothing about them being packages"}
	lockfileCheck(c, jsGens, c.N(12000, 200000))
	hugeCheck(c, c.N(100, 2000), map[string]func(r *R, d *Doc, size int){"yarn1": hugeYarn, "yarn2": hugeYarn})
	truncateCheck(c, c.N(1500, 20000), []string{"npm1", "npm2", "npm3", "bun"})
}

var jsWords = []string{"lodash", "react", "version", "resolved", "resolution", "dependencies", "npm", "file", "git", "link", "constructor", "JSONStream", "a", "is-number", "left_pad", "socket.io", "core-js-pure", "packages", "name", "x1", "integrity", "patch", "node", "2to3", "github", "commit"}

func jsName(r *R) string {
	n := pick(r, jsWords)
	if r.P(.15) {
		n += r.Pick("-", ".", "_", "") + r.Word()
	}
	if r.P(.35) {
		n = "@" + r.Pick("s", "types", "babel", "my-org", "npm", "x.y") + "/" + n
	}
	return n
}

// collide makes pools of names and versions hold what is told apart only with
// care: "n"+"11.2.3" and "n1"+"1.2.3" read the same when glued together, and
// names can differ only in case.
func collide(r *R, d *Doc, names, vers []string) {
	if r.P(.2) {
		names[1], vers[1] = names[0]+"1", "1"+vers[0]
		d.feat("glued")
	}
	if r.P(.15) {
		names[2] = strings.ToUpper(names[0])
		if r.P(.5) {
			names[2] = strings.Title(names[0])
		}
		d.feat("case-twins")
	}
}

func integ(r *R) string {
	return "sha512-" + r.Str("ABCDEFabcdef0123456789+/", 40, 60) + "=="
}

func regURL(r *R, name, version string) string {
	base := name[strings.LastIndex(name, "/")+1:]
	return "https://registry." + r.Pick("npmjs.org", "yarnpkg.com") + "/" + name + "/-/" + base + "-" + version + ".tgz"
}

// gitURL returns a resolved git dependency and its commit.
func gitURL(r *R, sha string) string {
	repo := r.Pick("o/r", "my-org/my-repo", "x/y.js", "g/is-number")
	host := r.Pick("github.com", "gitlab.com", "bitbucket.org")
	switch r.IntN(10) {
	case 8:
		return "https://" + host + "/" + r.Pick("o/r", "my-org/my-repo") + "#" + sha
	case 9:
		return "https://gitlab.com/" + repo + "/repository/archive.tar.gz?" + r.Pick("", "x=1&") + "ref=" + sha + r.Pick("", "#"+r.Hex(40))
	case 0:
		return "git+ssh://git@" + host + "/" + repo + ".git#" + sha
	case 1:
		return "git+https://" + host + "/" + repo + ".git#" + sha
	case 2:
		return "git+https://some-token@" + host + "/" + repo + ".git#" + sha
	case 3:
		return "git://" + host + "/" + repo + ".git#" + sha
	case 4:
		return "https://codeload.github.com/" + repo + "/tar.gz/" + sha
	case 5:
		return "https://" + host + "/" + repo + ".git#" + sha
	case 6:
		return "git+ssh://git@git.example.com:2222/" + repo + ".git#" + sha
	default:
		return "https://git.example.com/" + repo + ".git#" + sha
	}
}

// pool of commits so that several packages share one
func commitPool(r *R) []string {
	l := []string{r.Sha(), r.Sha(), r.Sha()}
	if r.P(.15) { // of a repository with SHA-256, or abbreviated
		l[r.IntN(3)] = r.Hex(pick(r, []int{64, 64, 12, 7}))
	}
	if r.P(.1) { // as recorded
		x := r.IntN(3)
		l[x] = strings.ToUpper(l[x])
	}
	return l
}

func genNpm1(r *R) *Doc {
	d := newDoc("package-lock.json")
	d.Once, d.JSON = true, true
	commits := commitPool(r)
	names := []string{jsName(r), jsName(r), jsName(r), jsName(r), jsName(r)}
	vers := []string{r.Semver(), r.Semver(), r.Semver()}
	collide(r, d, names, vers)
	var level func(depth int) raw
	level = func(depth int) raw {
		used := map[string]bool{}
		var kvs []kv
		for range r.Many(5) {
			name := pick(r, names)
			if r.P(.3) {
				name = jsName(r)
			}
			if used[name] {
				continue
			}
			used[name] = true
			var f []kv
			v := pick(r, vers)
			switch x := r.IntN(20); {
			case x < 11:
				f = append(f, kv{"version", v}, kv{"resolved", regURL(r, name, v)}, kv{"integrity", integ(r)})
				d.want("npm", name, v, "")
			case x < 15:
				realName := pick(r, names)
				f = append(f, kv{"version", "npm:" + realName + "@" + v}, kv{"resolved", regURL(r, realName, v)})
				d.want("npm", realName, v, "")
				d.feat("alias")
			case x < 19:
				sha := pick(r, commits)
				u := gitURL(r, sha)
				if r.P(.4) {
					u = r.Pick("github:", "gitlab:", "bitbucket:") + r.Pick("o/r", "my-org/my-repo") + "#" + sha
				}
				f = append(f, kv{"version", u}, kv{"from", r.Pick("o/r", "git+https://github.com/o/r.git", "github:o/r#main")})
				d.want("npm", name, "", sha)
				d.feat("git")
			default:
				name = "local-" + r.Word() + fmt.Sprint(r.IntN(1e6))
				f = append(f, kv{"version", "file:../" + r.Word()})
				d.want("npm", name, "", "")
				d.feat("file")
			}
			if r.P(.3) {
				f = append(f, kv{r.Pick("dev", "optional", "bundled", "peer"), true})
			}
			if r.P(.3) {
				f = append(f, kv{"requires", map[string]string{pick(r, names): "^9.9.9", "version": "^1.0.0"}})
			}
			if depth < 3 && r.P(.35) {
				f = append(f, kv{"dependencies", level(depth + 1)})
				d.feat(fmt.Sprintf("nested%d", depth+1))
			}
			kvs = append(kvs, kv{name, jobj(r, f...)})
		}
		return jobj(r, kvs...)
	}
	f := []kv{{"name", r.Word()}, {"version", "9.9.9"}, {"lockfileVersion", 1}, {"requires", true}, {"dependencies", level(0)}}
	d.Files[d.Format] = string(jobj(r, f...))
	return d
}

func genNpm2(r *R, lv int) *Doc {
	d := newDoc("package-lock.json")
	d.Once, d.JSON = true, true
	d.feat(fmt.Sprintf("v%d", lv))
	commits := commitPool(r)
	names := []string{jsName(r), jsName(r), jsName(r), jsName(r), jsName(r)}
	vers := []string{r.Semver(), r.Semver(), r.Semver()}
	collide(r, d, names, vers)
	paths := map[string]bool{}
	var kvs []kv
	kvs = append(kvs, kv{"", map[string]any{"name": "the-root", "version": "9.9.9", "dependencies": map[string]string{names[0]: "^1.0.0"}}})
	var parents = []string{""}
	mirror := map[string]string{}
	ofCommit := map[string]string{}
	for range r.Many(12) {
		parent := pick(r, parents)
		name := pick(r, names)
		if r.P(.3) {
			name = jsName(r)
		}
		p := parent + "node_modules/" + name
		outside := parent == "" && r.P(.1) // a file dependency
		if outside {
			p = r.Pick("deps/", "libs/a/", "../") + name
			if r.P(.4) {
				p = r.Pick("deps/", "../x/", "vendor/") + r.Word()
			}
		}
		if paths[p] {
			continue
		}
		paths[p] = true
		if strings.Count(p, "node_modules/") < 5 {
			parents = append(parents, p+"/")
		}
		if parent != "" {
			d.feat("nested")
		}
		v := pick(r, vers)
		f := []kv{{"version", v}}
		final, commit := name, ""
		if r.P(.25) {
			final = pick(r, names)
			if final != name {
				f = append(f, kv{"name", final})
				d.feat("alias")
			}
		}
		if outside {
			if !strings.HasSuffix(p, "/"+final) && len(f) == 1 {
				f = append(f, kv{"name", final})
			}
			d.feat("outside")
		}
		switch x := r.IntN(20); {
		case outside:
		case x < 12:
			f = append(f, kv{"resolved", regURL(r, final, v)}, kv{"integrity", integ(r)})
		case x < 17:
			commit = pick(r, commits)
			// the version of what is in a commit is fixed
			v = "7." + fmt.Sprint(len(final)%5) + "." + fmt.Sprint(int(commit[5])%7)
			if r.P(.3) { // and can be one that is also used from the registry
				v = vers[int(commit[6])%3]
			}
			if o, ok := ofCommit[final+"#"+commit]; ok {
				v = o
			}
			ofCommit[final+"#"+commit] = v
			f[0].v = v
			f = append(f, kv{"resolved", gitURL(r, commit)})
			d.feat("git")
		case x < 18:
			f = append(f, kv{"resolved", "file:../" + r.Word() + ".tgz"}, kv{"integrity", integ(r)})
			d.feat("file")
		case x < 19:
			f = append(f, kv{"resolved", "https://github.com/o/r/archive/v1.0.0.tar.gz" + r.Pick("", "#"+r.Hex(40))})
			d.feat("tarball")
		default: // bundled
			f = append(f, kv{"inBundle", true})
			d.feat("bundled")
		}
		if r.P(.3) {
			f = append(f, kv{r.Pick("dev", "optional", "peer", "devOptional"), true})
		}
		if r.P(.4) {
			f = append(f, kv{"dependencies", map[string]string{pick(r, names): "^8.8.8", "version": "^1.0.0"}}, kv{"engines", map[string]string{"node": ">=6"}})
		}
		kvs = append(kvs, kv{p, jobj(r, f...)})
		d.want("npm", final, v, commit)
		if parent == "" && commit == "" && !outside {
			mirror[name] = v
		}
	}
	top := []kv{{"name", "the-root"}, {"version", "9.9.9"}, {"lockfileVersion", lv}, {"requires", true}, {"packages", jobj(r, kvs...)}}
	if lv == 2 {
		var m []kv
		for n, v := range mirror {
			m = append(m, kv{n, map[string]string{"version": v, "resolved": regURL(r, n, v)}})
		}
		sort.Slice(m, func(i, j int) bool { return m[i].k < m[j].k })
		top = append(top, kv{"dependencies", jobj(r, m...)})
	}
	d.Files[d.Format] = string(jobj(r, top...))
	return d
}

// ---- yarn ----

func yarnQuote(s string) string {
	if strings.ContainsAny(s, ":, #<>|*\"") || strings.HasPrefix(s, "@") || s == "true" {
		return `"` + s + `"`
	}
	return s
}

func genYarn1(r *R) *Doc {
	d := newDoc("yarn.lock")
	d.feat("classic")
	commits := commitPool(r)
	var b strings.Builder
	b.WriteString("# THIS IS AN AUTOGENERATED FILE. DO NOT EDIT THIS FILE DIRECTLY.\n# yarn lockfile v1\n\n\n")
	seen := map[string]bool{}
	for range r.Many(10) {
		name, v := d.twin(r, jsName(r), r.Semver())
		if seen[name+" "+v] {
			continue
		}
		seen[name+" "+v] = true
		commit, resolved := "", regURL(r, name, v)+"#"+r.Hex(40)
		var desc []string
		rngs := []string{"^1.0.0", "~" + v, v, ">= 1.0.0 < 3", "1.x || 2.x", "*", "^" + v}
		shuffle(r, rngs)
		for j := range r.Range(1, 3) {
			desc = append(desc, name+"@"+rngs[j])
		}
		switch x := r.IntN(20); {
		case x < 9:
		case x < 13:
			for j := range desc {
				desc[j] = jsName(r) + "@npm:" + desc[j]
				if strings.HasPrefix(name, "@") && r.P(.1) { // whatever is newest
					a, _, _ := strings.Cut(desc[j], "@npm:")
					desc[j] = a + "@npm:" + name
					d.feat("alias-no-range")
				}
			}
			if r.P(.3) {
				desc = append(desc, name+"@^1.0.0")
				sort.Strings(desc)
				if strings.HasPrefix(desc[0], name+"@") {
					d.feat("alias-shared")
				}
			}
			d.feat("alias")
		case x < 18:
			commit = pick(r, commits)
			resolved = gitURL(r, commit)
			desc = []string{name + "@" + r.Pick("o/r", "github:o/r#main", "git+ssh://git@github.com/o/r.git", "https://github.com/o/r.git#v1.0.0", "git+https://github.com/o/r.git#semver:^1.0.0")}
			if r.P(.2) {
				desc = []string{name + "@" + resolved}
			}
			d.feat("git")
		case x < 19:
			resolved = ""
			desc = []string{name + "@file:./deps/" + r.Word()}
			d.feat("file")
		default:
			resolved = r.Pick("https://example.com/dl/", "https://github.com/o/r/releases/download/v1/", "https://gitlab.com/o/r/-/") + r.Word() + r.Pick(".tgz", ".tar.gz") + "#" + r.Hex(40)
			desc = []string{name + "@https://example.com/dl/x.tgz"}
			d.feat("tarball")
		}
		for j := range desc {
			desc[j] = yarnQuote(desc[j])
		}
		b.WriteString(strings.Join(desc, ", ") + ":\n")
		q := ""
		if r.P(.1) { // some tools quote the properties
			q = `"`
		}
		fmt.Fprintf(&b, "  %sversion%s \"%s\"\n", q, q, v)
		if resolved != "" {
			fmt.Fprintf(&b, "  %sresolved%s \"%s\"\n", q, q, resolved)
		}
		if r.P(.6) {
			b.WriteString("  integrity " + integ(r) + "\n")
		}
		if r.P(.5) {
			b.WriteString("  " + r.Pick("dependencies", "optionalDependencies") + ":\n")
			for range r.Range(1, 4) {
				fmt.Fprintf(&b, "    %s \"%s\"\n", yarnQuote(jsName(r)), r.Pick("^8.8.8", "8.8.8", "~8.0.0", "git+ssh://git@github.com/o/r.git#"+commits[0]))
			}
			if r.P(.3) {
				b.WriteString("    version \"8.8.8\"\n    resolved \"https://github.com/o/r.git#" + commits[0] + "\"\n")
			}
		}
		b.WriteString("\n")
		d.want("npm", name, v, commit)
	}
	s := b.String()
	if r.P(.2) {
		s = crlf(s)
		d.feat("crlf")
	}
	if r.P(.2) {
		s = strings.TrimRight(s, "\r\n")
		d.feat("no-final-newline")
	}
	d.Files[d.Format] = s
	return d
}

func genYarn2(r *R) *Doc {
	d := newDoc("yarn.lock")
	d.feat("berry")
	commits := commitPool(r)
	var b strings.Builder
	b.WriteString("# This file is generated by running \"yarn install\" inside your project.\n# Manual changes might be lost - proceed with caution!\n\n__metadata:\n  version: " + r.Pick("4", "5", "6", "8") + "\n  cacheKey: " + r.Pick("8", "10c0", "7") + "\n\n")
	type ent struct{ key, body string }
	var ents []ent
	seen := map[string]bool{}
	for range r.Many(10) {
		name, v := d.twin(r, jsName(r), r.Semver())
		if seen[name+" "+v] {
			continue
		}
		seen[name+" "+v] = true
		commit := ""
		resolution := name + "@npm:" + v
		var desc []string
		rngs := []string{"^1.0.0", "~" + v, v, ">= 1.0.0 < 3", "1.x || 2.x", "*", "^" + v}
		shuffle(r, rngs)
		for j := range r.Range(1, 3) {
			desc = append(desc, name+"@npm:"+rngs[j])
		}
		switch x := r.IntN(20); {
		case x < 8:
		case x < 12:
			for j := range desc {
				desc[j] = jsName(r) + "@npm:" + strings.Replace(desc[j], "@npm:", "@", 1)
			}
			if r.P(.3) {
				desc = append(desc, name+"@npm:^1.0.0")
				sort.Strings(desc)
			}
			d.feat("alias")
		case x < 17:
			commit = pick(r, commits)
			repo := r.Pick("https://github.com/o/r.git", "git@github.com:o/r.git", "ssh://git@github.com:o/r.git", "https://gitlab.com/my-org/my-repo.git", "git@git.example.com:x/y.git", "https://git.example.com/x/y.git")
			desc = []string{name + "@" + r.Pick("o/r", repo, "o/r#main", repo+"#v1.0.0", "git+"+strings.TrimPrefix(repo, "git@"), repo+"#commit="+commit)}
			resolution = name + "@" + repo + "#commit" + r.Pick("=", "=", ":") + commit
			d.feat("git")
		case x < 18:
			dep := "../deps/" + r.Word()
			desc = []string{name + "@file:" + dep + "::locator=my-project%40workspace%3A."}
			resolution = name + "@file:" + dep + "#" + dep + "::hash=" + r.Hex(6) + "&locator=my-project%40workspace%3A."
			d.feat("file")
		default:
			desc = []string{name + "@patch:" + name + "@" + v + "#~builtin<compat/" + r.Word() + ">"}
			resolution = name + "@patch:" + name + "@npm%3A" + v + "#~builtin<compat/x>::version=" + v + "&hash=" + r.Hex(6)
			d.feat("patch")
		}
		var e strings.Builder
		q := ""
		if r.P(.1) {
			q = `"`
		}
		fmt.Fprintf(&e, "  version: %s%s%s\n  resolution: \"%s\"\n", q, v, q, resolution)
		for _, sec := range []string{"dependencies", "peerDependencies", "bin", "dependenciesMeta"} {
			if r.P(.35) {
				e.WriteString("  " + sec + ":\n")
				for range r.Range(1, 3) {
					n := jsName(r)
					if strings.HasPrefix(n, "@") {
						n = `"` + n + `"`
					}
					if sec == "dependenciesMeta" {
						fmt.Fprintf(&e, "    %s:\n      optional: true\n", n)
					} else {
						fmt.Fprintf(&e, "    %s: %s\n", n, r.Pick("^8.8.8", "8.8.8", `"*"`, `"npm:^8.8.8"`, "./bin/x.js"))
					}
				}
				if sec == "dependencies" && r.P(.3) {
					e.WriteString("    version: 8.8.8\n    resolution: \"x@https://github.com/o/r.git#commit=" + commits[0] + "\"\n")
				}
			}
		}
		if r.P(.8) {
			e.WriteString("  checksum: " + r.Hex(60) + "\n")
		}
		e.WriteString("  languageName: node\n  linkType: hard\n\n")
		ents = append(ents, ent{strings.Join(desc, ", "), e.String()})
		d.want("npm", name, v, commit)
	}
	if r.P(.7) {
		ents = append(ents, ent{"the-root@workspace:.", "  version: 0.0.0-use.local\n  resolution: \"the-root@workspace:.\"\n  dependencies:\n    lodash: ^8.8.8\n  languageName: unknown\n  linkType: soft\n\n"})
		d.feat("root")
	}
	if r.P(.7) {
		sort.Slice(ents, func(i, j int) bool { return ents[i].key < ents[j].key })
	} else {
		shuffle(r, ents)
	}
	for _, e := range ents {
		b.WriteString("\"" + e.key + "\":\n" + e.body)
	}
	s := b.String()
	if r.P(.15) {
		s = crlf(s)
		d.feat("crlf")
	}
	d.Files[d.Format] = s
	return d
}

func hugeYarn(r *R, d *Doc, size int) {
	s := d.Files[d.Format]
	long := strings.Repeat("x", size)
	at := strings.Index(s, "\n") + 1
	end := "\n"
	if strings.Contains(s, "\r\n") {
		end = "\r\n"
	}
	switch r.IntN(3) {
	case 0: // at the end
		d.Files[d.Format] = s + end + "# " + long + end
	case 1:
		d.Files[d.Format] = s[:at] + "# " + long + end + s[at:]
	default: // between entries
		blank := end + end
		i := strings.LastIndex(s, blank)
		if i < 0 {
			d.Files[d.Format] = s + end + "# " + long + end
			return
		}
		d.Files[d.Format] = s[:i] + blank + "# " + long + end + s[i+len(blank):]
	}
}

// ---- pnpm ----

func genPnpm(r *R, lv int) *Doc {
	d := newDoc("pnpm-lock.yaml")
	d.feat(fmt.Sprintf("v%d", lv))
	commits := commitPool(r)
	ver := map[int][]string{5: {"5.3", "5.4", "5.1"}, 6: {"'6.0'", "'6.1'", "6.0"}, 9: {"'9.0'", "9.0"}}[lv]
	var b strings.Builder
	b.WriteString("lockfileVersion: " + pick(r, ver) + "\n\nsettings:\n  autoInstallPeers: true\n\n")
	keys := map[string]string{}
	for range r.Many(9) {
		name, v := d.twin(r, jsName(r), r.Semver())
		body := "    resolution: {integrity: " + integ(r) + "}\n"
		key, commit := "", ""
		switch x := r.IntN(20); {
		case x < 13:
			switch lv {
			case 5:
				key = "/" + name + "/" + v
				if r.P(.1) {
					key = "registry.npmjs.org" + key
					d.feat("registry-host")
				}
				if r.P(.35) {
					key += "_" + r.Pick(r.Hex(32), "react@17.0.2", "@types+node@18.0.0", "a@1.0.0+b@2.0.0", "@babel+core@7.1.0_x@1.0.0")
					d.feat("peers")
				}
			case 6:
				key = "/" + name + "@" + v
				if r.P(.1) {
					key = "registry.npmjs.org" + key
					d.feat("registry-host")
				}
				if r.P(.4) {
					key += r.Pick("(react@17.0.2)", "(@types/node@18.0.0)", "(a@1.0.0)(@s/b@2.0.0-rc.1)", "(@s/b@2.0.0(c@1.0.0))(d@4.0.0)", "(@babel/core@7.0.0)(@s/b@2.0.0)", "(patch_hash=abc123)", "(patch_hash=abc123)(@s/b@2.0.0)")
					d.feat("peers")
				}
			case 9:
				key = name + "@" + v
			}
		case x < 18:
			commit = pick(r, commits)
			repo := r.Pick("o/r", "my-org/my-repo", "x/y.js")
			tar := "https://codeload.github.com/" + repo + "/tar.gz/" + commit
			git := "    resolution: {commit: " + commit + ", repo: https://git.example.com/" + repo + ".git, type: git}\n"
			if r.P(.5) {
				body = "    resolution: {tarball: " + tar + "}\n"
				key = "github.com/" + repo + "/" + commit
				if lv == 9 {
					key = name + "@" + tar
				}
			} else {
				body = git
				key = r.Pick("git.example.com", "git@bitbucket.org+o") + "/" + repo + "/" + commit
				if lv == 9 {
					key = name + "@git+https://git.example.com/" + repo + ".git#" + commit
				}
			}
			if lv != 9 {
				body += "    name: " + yq(name) + "\n"
			}
			body += "    version: " + yq(v) + "\n"
			d.feat("git")
		case x < 19 && lv == 9:
			key = name + "@file:" + r.Pick("", "../") + "deps/" + r.Word() + fmt.Sprint(r.IntN(1000)) + ".tgz"
			body = "    resolution: {integrity: " + integ(r) + ", tarball: file:deps/x.tgz}\n    version: " + yq(v) + "\n"
			d.feat("file")
		case x < 19:
			key = "file:../" + r.Word() + fmt.Sprint(r.IntN(1000))
			body = "    resolution: {directory: ../x, type: directory}\n    name: " + yq(name) + "\n    version: " + yq(v) + "\n"
			d.feat("file")
		default:
			tar := "https://registry.example.com/api/v4/" + name + "/-/" + strings.ReplaceAll(name, "/", "-") + "-" + v + ".tgz"
			body = "    resolution: {tarball: " + tar + "}\n"
			key = "@registry.example.com/api/v4/" + name + "/-/x-" + v + ".tgz"
			if lv == 9 {
				key = name + "@" + tar
			} else {
				body += "    name: " + yq(name) + "\n"
			}
			body += "    version: " + yq(v) + "\n"
			d.feat("tarball")
		}
		if _, ok := keys[key]; ok {
			continue
		}
		if r.P(.4) {
			body += "    engines: {node: '>=6'}\n"
		}
		if r.P(.4) {
			body += "    dependencies:\n      " + yq(jsName(r)) + ": 8.8.8\n      version: 8.8.8\n"
		}
		if r.P(.3) {
			body += "    peerDependencies:\n      react: '*'\n"
		}
		if lv != 9 {
			body += "    dev: " + r.Pick("true", "false") + "\n"
		}
		keys[key] = body
		d.want("npm", name, v, commit)
	}
	var ks []string
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	if len(ks) > 0 {
		if r.P(.5) {
			b.WriteString("dependencies:\n  lodash: 8.8.8\n\n")
		}
		b.WriteString("packages:\n\n")
		for _, k := range ks {
			b.WriteString("  " + yq(k) + ":\n" + keys[k] + "\n")
		}
		if lv == 9 {
			b.WriteString("snapshots:\n\n")
			for _, k := range ks {
				b.WriteString("  " + yq(k+r.Pick("", "", "(react@17.0.2)", "(@s/b@2.0.0)")) + ": {}\n\n")
			}
		}
	}
	d.Files[d.Format] = b.String()
	return d
}

// yq quotes a YAML scalar the way that pnpm does.
func yq(s string) string {
	plain := s != ""
	for i, ch := range s {
		switch {
		case ch >= 'a' && ch <= 'z', ch >= 'A' && ch <= 'Z', ch == '/' || ch == '.' || ch == '_' || ch == '(' || ch == ')' || ch == '+':
		case ch >= '0' && ch <= '9':
		case (ch == '-' || ch == '@') && i > 0:
		case ch == ':' && i > 0 && i+1 < len(s) && s[i+1] != ' ':
		default:
			plain = false
		}
	}
	if !plain || s[0] >= '0' && s[0] <= '9' && strings.Count(s, ".") < 2 {
		return "'" + s + "'"
	}
	return s
}

// ---- bun ----

func genBun(r *R) *Doc {
	d := newDoc("bun.lock")
	d.JSON = true
	commits := commitPool(r)
	var b strings.Builder
	c := func(s string) string { // bun.lock allows comments and trailing commas
		if r.P(.1) {
			d.feat("comments")
			return s + r.Pick(" // a comment, with \"quotes\" and ]", " /* a comment */")
		}
		return s
	}
	b.WriteString("{\n  \"lockfileVersion\": " + r.Pick("0", "1") + ",\n  \"workspaces\": {\n    \"\": {\n      \"name\": \"the-root\",\n      \"dependencies\": {\n        \"lodash\": \"^8.8.8\",\n      },\n    },\n  },\n")
	b.WriteString(c("") + "\n  \"packages\": {\n")
	used := map[string]bool{}
	var parents []string
	for range r.Many(10) {
		name, v := d.twin(r, jsName(r), r.Semver())
		key := name
		if r.P(.2) {
			key = jsName(r)
			d.feat("alias")
		}
		if len(parents) > 0 && r.P(.4) {
			key = pick(r, parents) + "/" + key
			d.feat("nested")
		}
		if used[key] {
			continue
		}
		used[key] = true
		parents = append(parents, key)
		deps := r.Pick("{}", `{ "dependencies": { "version": "^8.8.8", "@s/x": "^8.8.8" } }`, `{ "bin": { "x": "y.js" }, "peerDependencies": { "react": "*" } }`)
		switch x := r.IntN(20); {
		case x < 13:
			fmt.Fprintf(&b, "    %s: [%s, \"\", %s, \"%s\"],%s\n\n", toJSON(key), toJSON(name+"@"+v), deps, integ(r), c(""))
			d.want("npm", name, v, "")
		case x < 18:
			sha := pick(r, commits)
			if r.P(.5) {
				sha = sha[:7]
			}
			u := r.Pick("github:o/r#"+sha, "git+ssh://git@github.com/o/r#"+sha, "git+https://github.com/o/r.git#"+sha, "git+ssh://gitlab:o/r#"+sha, "git+https://token@git.example.com/x.git#"+sha)
			fmt.Fprintf(&b, "    %s: [%s, %s, \"o-r-%s\"],\n\n", toJSON(key), toJSON(name+"@"+u), deps, sha)
			d.want("npm", name, "", sha)
			d.feat("git")
		default:
			fmt.Fprintf(&b, "    %s: [%s, %s],\n\n", toJSON(key), toJSON(name+"@file:deps/"+r.Word()), deps)
			d.want("npm", name, "", "")
			d.feat("file")
		}
	}
	b.WriteString("  }\n}\n")
	d.Files[d.Format] = b.String()
	return d
}

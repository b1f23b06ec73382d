package main

import (
	"fmt"
	"sort"
	"strings"
)

func init() {
	allGens["gem"] = genGem
	allGens["go"] = genGo
	allGens["cargo"] = genCargo
	allGens["mix"] = genMix
	allGens["pub"] = genPub
	allGens["renv"] = genRenv
	checks["C04"] = check{level: "exploration", f: checkC04}
}

var nativeGens = []string{"gem", "go", "cargo", "gem", "mix", "go", "pub", "renv"}

func checkC04(c *Ctx) {
	c.Rule = "documents are drawn from grammars of each format (Gemfile.lock with several GIT/PATH/GEM sections, platforms, checksums and names that look like sections; go.mod with specific, wildcard, local and chained replacements; git and hex mix entries; hosted/git/path/sdk pub entries; renv repositories) together with the packages they lock; non-trivial when at least one package is locked; distinct by content"
	c.Assume = []string{"a go.mod replacement by a local path is listed under that path without a version, as the repository's own tests require", "mix.lock entries in the pre-2015 three-field form are left out"}
	lockfileCheck(c, nativeGens, c.N(12000, 200000))
	hugeCheck(c, c.N(150, 2500), map[string]func(r *R, d *Doc, size int){
		"mix": func(r *R, d *Doc, size int) {
			h := r.Hex(64)
			d.want("Hex", "longone", "1.2.3", h)
			line := `  "longone": {:hex, :longone, "1.2.3", "` + h + `", [:mix], [` + strings.Repeat(`{:dep, "~> 1.0", [hex: :dep]}, `, size/31) + `], "hexpm"},` + "\n"
			ls := strings.SplitAfter(d.Files[d.Format], "\n")
			i := r.Range(1, max(1, len(d.Want)-1))
			if len(ls) < 3 {
				i = 1
			}
			i = min(i, len(ls)-1)
			d.Files[d.Format] = strings.Join(ls[:i], "") + line + strings.Join(ls[i:], "")
		},
		"gem": func(r *R, d *Doc, size int) {
			d.Files[d.Format] = "GEM\n  remote: https://rubygems.org/" + strings.Repeat("x", size) + "\n  specs:\n    longone (1.2.3)\n\n" + d.Files[d.Format]
			d.want("RubyGems", "longone", "1.2.3", "")
		},
		"go": func(r *R, d *Doc, size int) {
			d.Files[d.Format] = "// " + strings.Repeat("x", size) + "\n" + d.Files[d.Format]
		},
	})
	truncateCheck(c, c.N(300, 4000), []string{"renv"})
}

var gemNames = []string{"rails", "actionpack", "nokogiri", "ast", "rake", "zeitwerk", "GEM", "GIT", "PATH", "DEPENDENCIES", "GEMS", "mini_portile2", "a", "concurrent-ruby", "net.http", "specs", "remote", "ruby-debug"}

func genGem(r *R) *Doc {
	d := newDoc("Gemfile.lock")
	used := map[string]bool{}
	where := map[string]int{}
	sec := 0
	name := func() string {
		for {
			n := pick(r, gemNames)
			if r.P(.4) {
				n += r.Pick("-", "_") + r.Word()
			}
			if w, ok := where[n]; ok && w != sec && r.P(.3) { // from another source, too
				where[n] = sec
				d.feat("two-sources")
				return n
			}
			if r.big > 0 && r.P(.7) {
				n += fmt.Sprint("-", r.IntN(100000))
			}
			if !used[n] {
				used[n] = true
				where[n] = sec
				return n
			}
		}
	}
	version := func() string {
		v := fmt.Sprintf("%d.%d", r.IntN(8), r.IntN(9))
		for range r.IntN(3) {
			v += fmt.Sprintf(".%d", r.IntN(20))
		}
		if r.P(.15) {
			v += r.Pick(".pre.1", ".rc1", ".beta2", ".a")
		}
		return v
	}
	var b strings.Builder
	specs := func(n int, commit string, platforms bool) []string {
		var names []string
		b.WriteString("  specs:\n")
		for range n {
			g, v := name(), version()
			names = append(names, g)
			vs := []string{v}
			if platforms && r.P(.25) {
				d.feat("platform")
				vs = nil
				for _, p := range []string{"", "-x86_64-linux", "-java", "-arm64-darwin-22", "-x64-mingw-ucrt"} {
					if r.P(.4) {
						vs = append(vs, v+p)
					}
				}
				if len(vs) == 0 {
					vs = []string{v + "-x86_64-darwin"}
				}
			}
			for _, x := range vs {
				b.WriteString("    " + g + " (" + x + ")\n")
				d.want("RubyGems", g, v, commit)
				for range r.IntN(3) {
					b.WriteString("      " + pick(r, gemNames) + r.Pick("", " (>= 1.0)", " (~> 2.1, != 2.1.3)", " (= 4.0.0)", "!") + "\n")
				}
			}
		}
		return names
	}
	var tops []string
	secs := r.Range(1, 5)
	for sec = range secs {
		switch r.IntN(6) {
		case 0, 1:
			sha := r.Rev()
			d.feat("git")
			b.WriteString("GIT\n  remote: " + r.Pick("https://github.com/x/y.git", "git@github.com:GEM/PATH.git", "git://x/y") + "\n  revision: " + sha + "\n")
			if r.P(.4) {
				b.WriteString("  " + r.Pick("branch: master", "branch: GIT", "branch: PATH-fix", "ref: "+sha[:7], "tag: v1.0", "branch: GEM/x", "submodules: true") + "\n")
				d.feat("git-option")
			}
			if r.P(.2) {
				b.WriteString("  glob: lib/*.gemspec\n")
			}
			tops = append(tops, specs(r.Range(1, 4), sha, false)...)
		case 2:
			d.feat("path")
			b.WriteString("PATH\n  remote: " + r.Pick(".", "engines/GIT", "../x") + "\n")
			tops = append(tops, specs(r.Range(1, 2), "", false)...)
		case 3:
			if r.P(.3) {
				d.feat("plugin")
				b.WriteString("PLUGIN SOURCE\n  remote: https://x.test\n  type: svn\n")
				tops = append(tops, specs(1, "", false)...)
			} else {
				d.feat("gem-extra-remote")
				b.WriteString("GEM\n  remote: https://rubygems.org/\n  remote: https://gems.test/\n")
				tops = append(tops, specs(r.IntN(4), "", true)...)
			}
		default:
			b.WriteString("GEM\n  remote: https://rubygems.org/\n")
			tops = append(tops, specs(r.IntN(7), "", true)...)
		}
		b.WriteString("\n")
	}
	b.WriteString("PLATFORMS\n  ruby\n  x86_64-linux\n")
	if r.P(.2) {
		b.WriteString("    java (1.0)\n"[:0])
	}
	b.WriteString("\nDEPENDENCIES\n")
	sort.Strings(tops)
	for _, t := range tops {
		if r.P(.5) {
			b.WriteString("  " + t + r.Pick("", "!", " (~> 1.0)", " (>= 1.0)!") + "\n")
		}
	}
	if r.P(.3) {
		d.feat("checksums")
		b.WriteString("\nCHECKSUMS\n")
		for _, t := range tops {
			b.WriteString("  " + t + " (1.0) sha256=" + r.Hex(64) + "\n")
		}
	}
	if r.P(.4) {
		b.WriteString("\nRUBY VERSION\n   ruby 3.1.2p20\n")
	}
	if r.P(.8) {
		b.WriteString("\nBUNDLED WITH\n   2.3.7\n")
	}
	s := b.String()
	if r.P(.15) {
		s = crlf(s)
		d.feat("crlf")
	}
	d.Files[d.Format] = s
	return d
}

func genGo(r *R) *Doc {
	d := newDoc("go.mod")
	d.Once = true
	mods := []string{"github.com/BurntSushi/toml", "gopkg.in/yaml.v3", "golang.org/x/mod", "github.com/a/b", "github.com/a/b/v2", "github.com/a/b/c", "example.com/x", "example.com/replace", "k8s.io/api", "github.com/a/bb"}
	ver := func(m string) string {
		maj := "v" + r.Pick("0", "1")
		switch {
		case strings.HasSuffix(m, "/v2"):
			maj = "v2"
		case strings.HasSuffix(m, ".v3"):
			maj = "v3"
		}
		switch r.IntN(7) {
		case 0:
			return maj + fmt.Sprintf("%s20%02d0102030405-%s", r.Pick(".0.0-", ".2.4-0.", ".3.1-rc.1.0."), r.Range(18, 24), r.Hex(12))
		case 1:
			return maj + fmt.Sprintf(".%d.%d-rc.%d", r.IntN(5), r.IntN(5), r.IntN(4))
		case 2:
			if maj == "v1" || maj == "v0" {
				if !strings.HasPrefix(m, "gopkg.in") {
					return fmt.Sprintf("v%d.%d.0+incompatible", r.Range(2, 24), r.IntN(3))
				}
			}
		}
		return maj + fmt.Sprintf(".%d.%d", r.IntN(6), r.IntN(6))
	}
	type mv struct{ m, v string }
	var reqs []mv
	seen := map[mv]bool{}
	multi := map[string]int{}
	for range r.Many(8) {
		m := pick(r, mods)
		x := mv{m, ver(m)}
		if multi[m] > 0 && !r.P(.25) || seen[x] {
			continue
		}
		if multi[m] > 0 {
			d.feat("two-versions")
		}
		seen[x] = true
		multi[m]++
		reqs = append(reqs, x)
	}
	type rep struct{ old, nw mv }
	var reps []rep
	repSeen := map[mv]bool{}
	for range r.Many(5) {
		var o mv
		switch {
		case len(reqs) > 0 && r.P(.75):
			o = pick(r, reqs)
			if r.P(.5) {
				o.v = ""
			} else if r.P(.2) {
				o.v = ver(o.m)
				d.feat("replace-other-version")
			}
		default:
			m := pick(r, mods)
			o = mv{m, r.Pick("", ver(m))}
			d.feat("replace-unrelated")
		}
		if repSeen[o] {
			continue
		}
		repSeen[o] = true
		var n mv
		switch r.IntN(4) {
		case 0:
			n = mv{r.Pick("./fork", "../up/fork", "/abs/fork"), ""}
			d.feat("replace-local")
		case 1:
			m := pick(r, mods) // possibly something that is itself required or replaced
			n = mv{m, ver(m)}
			d.feat("replace-with-known")
		default:
			m := "github.com/fork/" + r.Word()
			n = mv{m, ver(m)}
			d.feat("replace-fork")
		}
		if o.v == "" {
			d.feat("replace-wildcard")
		} else {
			d.feat("replace-specific")
		}
		reps = append(reps, rep{o, n})
	}
	for _, q := range reqs {
		f := q
		for _, p := range reps {
			if p.old.m == q.m && p.old.v == "" {
				f = p.nw
			}
		}
		for _, p := range reps {
			if p.old == q {
				f = p.nw
			}
		}
		d.want("Go", f.m, strings.TrimPrefix(f.v, "v"), "")
	}
	var blocks []string
	emit := func(kind string, lines []string) {
		for len(lines) > 0 {
			n := r.Range(1, len(lines))
			part := lines[:n]
			lines = lines[n:]
			if n == 1 && r.P(.6) {
				blocks = append(blocks, kind+" "+part[0]+"\n")
				continue
			}
			if r.P(.15) { // says nothing about the line after it
				x := r.IntN(n)
				part[x] = "// " + r.Pick("indirect", "indirect dependencies", "TODO: remove", "deprecated", "replace") + "\n\t" + part[x]
				d.feat("comment-before")
			}
			blocks = append(blocks, kind+" (\n\t"+strings.Join(part, "\n\t")+"\n)\n")
		}
	}
	var rl, pl []string
	for _, q := range reqs {
		rl = append(rl, q.m+" "+q.v+r.Pick("", "", " // indirect", " // a comment => x v1.0.0"))
	}
	for _, p := range reps {
		pl = append(pl, strings.TrimSpace(p.old.m+" "+p.old.v)+" => "+strings.TrimSpace(p.nw.m+" "+p.nw.v))
	}
	emit("require", rl)
	emit("replace", pl)
	if r.P(.3) {
		emit("exclude", []string{"github.com/ex/cluded v1.2.3", "github.com/a/b v1.0.0"})
		d.feat("exclude")
	}
	if r.P(.3) {
		blocks = append(blocks, "retract v1.0.0 // oops\n")
	}
	if r.P(.15) {
		emit("tool", []string{"github.com/a/b/cmd/x", "golang.org/x/tools/cmd/stringer"}[:r.Range(1, 2)])
		d.feat("tool")
	}
	if r.P(.1) {
		emit("ignore", []string{"./node_modules", "static"}[:r.Range(1, 2)])
		d.feat("ignore")
	}
	if r.P(.1) {
		emit("godebug", []string{"default=go1.21", "panicnil=1"}[:r.Range(1, 2)])
		d.feat("godebug")
	}
	if r.P(.5) {
		blocks = append(blocks, "// a comment\n// require github.com/no/no v1.0.0\n")
	}
	shuffle(r, blocks)
	head := "module " + r.Pick("my-library", "github.com/me/mine", "\"quoted.test/mine\"") + "\n\n"
	if r.P(.7) {
		head += "go 1." + r.Pick("17", "20", "21.3") + "\n\n"
	}
	if r.P(.2) {
		head += "toolchain go1.22.1\n\n"
	}
	s := head + strings.Join(blocks, "\n")
	if r.P(.1) {
		s = crlf(s)
		d.feat("crlf")
	}
	d.Files[d.Format] = s
	return d
}

func genCargo(r *R) *Doc {
	d := newDoc("Cargo.lock")
	var b strings.Builder
	b.WriteString("# This file is automatically @generated by Cargo.\n# It is not intended for manual editing.\n")
	if r.P(.7) {
		b.WriteString("version = " + r.Pick("3", "4") + "\n")
	}
	seen := map[string]bool{}
	var pkgs []string
	for range r.Many(11) {
		n := r.Pick("serde", "rand_core", "wasi", "addr2line", "syn", "a", "windows-sys", "package", "version", "proc-macro2")
		if r.P(.2) {
			n += r.Pick("-", "_") + r.Word()
		}
		n, v := d.twin(r, n, r.Semver())
		if seen[n+" "+v] {
			continue
		}
		seen[n+" "+v] = true
		e := []string{`name = "` + n + `"`, `version = "` + v + `"`}
		switch r.IntN(4) {
		case 0:
			e = append(e, `source = "git+`+r.Pick("https://github.com/x/y", "file:///srv/x", "ssh://git@git.example.com/x/y.git", "https://github.com/x/y.git", "http://x.test/y")+r.Pick("", "?branch=main", "?rev=abc", "?tag=v1")+`#`+r.Sha()+`"`)
			d.feat("git")
		case 1:
			d.feat("local")
		default:
			e = append(e, `source = "`+r.Pick("registry+https://github.com/rust-lang/crates.io-index", "registry+https://github.com/rust-lang/crates.io-index", "sparse+https://index.crates.io/", "registry+ssh://git@x.test/index", "sparse+https://x.test/", "registry+file:///srv/index", "local-registry+file:///x")+`"`, `checksum = "`+r.Hex(64)+`"`)
		}
		if r.P(.5) {
			e = append(e, "dependencies = [\n \"serde\",\n \"syn 1.0.0\",\n]")
		}
		d.want("crates.io", n, v, "")
		pkgs = append(pkgs, "\n[[package]]\n"+strings.Join(e, "\n")+"\n")
	}
	b.WriteString(strings.Join(pkgs, ""))
	if r.P(.2) {
		b.WriteString("\n[metadata]\n\"checksum serde 1.0.0 (registry+https://github.com/rust-lang/crates.io-index)\" = \"" + r.Hex(64) + "\"\n")
		d.feat("metadata")
	}
	s := b.String()
	if r.P(.1) {
		s = crlf(s)
	}
	d.Files[d.Format] = s
	return d
}

func genMix(r *R) *Doc {
	d := newDoc("mix.lock")
	used := map[string]bool{}
	var lines []string
	for range r.Many(9) {
		n := r.Pick("plug", "poison", "phoenix_html", "git", "hex", "a1", "mime", "db_connection", "Elixir_x")
		if r.P(.4) {
			n += "_" + r.Word()
		}
		if used[n] {
			continue
		}
		used[n] = true
		if r.P(.3) {
			sha := r.Rev()
			d.want("Hex", n, "", sha)
			d.feat("git")
			lines = append(lines, `  "`+n+`": {:git, "`+r.Pick("https://github.com/x/"+n+".git", "git@github.com:hex/y.git", "git://x/:hex")+`", "`+sha+`", [`+r.Pick("", `branch: "main"`, `tag: "v1.0.0"`, `ref: "`+sha+`"`, `branch: "a", submodules: true`)+`]},`)
			continue
		}
		v, h := r.Semver(), r.Hex(64)
		d.want("Hex", n, v, h)
		alias := n
		if r.P(.1) {
			alias = "other_" + n
			d.feat("renamed")
		}
		tail := r.Pick(`, "hexpm", "`+r.Hex(64)+`"`, `, "hexpm"`, "")
		lines = append(lines, `  "`+n+`": {:hex, :`+alias+`, "`+v+`", "`+h+`", [`+r.Pick(":mix", ":make, :rebar", ":rebar3", "")+`], [`+r.Pick("", `{:mime, "~> 1.0", [hex: :mime, repo: "hexpm", optional: false]}`, `{:a, "1.0", [hex: :a]}, {:b, "~> 1.0 or ~> 2.0", [git: "x"]}`, `{:git, "1.0", [hex: :git]}`, `{:hex_core, ">= 0.1.0", [hex: :hex_core, repo: "hexpm", optional: true]}, {:git_cli, "~> 0.3", [hex: :git_cli]}`, `{:a, [git: "https://x.test/a.git", ref: "x"], []}`)+`]`+tail+`},`)
	}
	if r.P(.7) {
		sort.Strings(lines)
	}
	s := "%{\n" + strings.Join(lines, "\n")
	if len(lines) > 0 {
		s += "\n"
	}
	s += "}\n"
	if r.P(.15) {
		s = crlf(s)
		d.feat("crlf")
	}
	d.Files[d.Format] = s
	return d
}

func genPub(r *R) *Doc {
	d := newDoc("pubspec.lock")
	var b strings.Builder
	b.WriteString("# Generated by pub\n")
	used := map[string]bool{}
	n := r.IntN(9)
	if n > 0 {
		b.WriteString("packages:\n")
	}
	for range n {
		p := r.Pick("back_button_interceptor", "build_runner", "shelf", "path", "args", "flutter", "a", "version", "packages")
		if r.P(.4) {
			p += "_" + r.Word()
		}
		if used[p] {
			continue
		}
		used[p] = true
		v := r.Semver()
		q := func(s string) string { return `"` + s + `"` }
		fields := []string{"    dependency: " + r.Pick(`"direct main"`, "transitive", `"direct dev"`, `"direct overridden"`), "    version: " + q(v)}
		commit := ""
		switch r.IntN(4) {
		case 0:
			commit = r.Rev()
			ref := r.Pick("HEAD", "main", commit, "v1.2.3")
			l := []string{"      path: " + r.Pick(`"."`, "pkgs/x"), "      ref: " + q(ref), "      resolved-ref: " + r.Pick(q(commit), commit), `      url: "https://github.com/x/y.git"`}
			shuffle(r, l)
			fields = append(fields, "    source: git", "    description:\n"+strings.Join(l, "\n"))
			d.feat("git")
		case 1:
			fields = append(fields, "    source: path", "    description:\n      path: \"../"+p+"\"\n      relative: true")
			d.feat("path")
		case 2:
			fields = append(fields, "    source: sdk", "    description: flutter")
			d.feat("sdk")
		default:
			fields = append(fields, "    source: hosted", "    description:\n      name: "+p+"\n      url: \"https://pub.dartlang.org\""+r.Pick("", "\n      sha256: "+q(r.Hex(64))))
			d.feat("hosted")
		}
		shuffle(r, fields)
		b.WriteString("  " + p + ":\n" + strings.Join(fields, "\n") + "\n")
		d.want("Pub", p, v, commit)
	}
	b.WriteString("sdks:\n  dart: \">=2.12.0 <3.0.0\"\n")
	s := b.String()
	if r.P(.1) {
		s = crlf(s)
	}
	d.Files[d.Format] = s
	return d
}

func genRenv(r *R) *Doc {
	d := newDoc("renv.lock")
	d.JSON = true
	var ps []kv
	used := map[string]bool{}
	for range r.Many(8) {
		n := r.Pick("R6", "morning", "mime", "DesignLibrary", "BH", "data.table", "a", "Packages", "jsonlite")
		if r.P(.3) {
			n += r.Pick(".", "") + r.Word()
		}
		if used[n] {
			continue
		}
		used[n] = true
		v := fmt.Sprintf("%d.%d", r.IntN(5), r.IntN(12)) + r.Pick("", fmt.Sprintf(".%d", r.IntN(30)), fmt.Sprintf("-%d", r.IntN(9)), fmt.Sprintf(".%d-%d", r.IntN(9), r.IntN(30)))
		e := []kv{{"Package", n}, {"Version", v}, {"Hash", r.Hex(32)}}
		switch r.IntN(6) {
		case 0:
			e = append(e, kv{"Source", "Repository"}, kv{"Repository", r.Pick("BioCsoft", "RSPM", "cran", "CRAN2", "https://x.r-universe.dev")})
			d.feat("other-repository")
		case 1:
			e = append(e, kv{"Source", "GitHub"}, kv{"RemoteType", "github"}, kv{"RemoteSha", r.Sha()})
			d.feat("no-repository")
			d.want("CRAN", n, v, "")
		case 2:
			e = append(e, kv{"Source", "Repository"}, kv{"Repository", ""})
			d.want("CRAN", n, v, "")
		default:
			e = append(e, kv{"Source", "Repository"}, kv{"Repository", "CRAN"}, kv{"Requirements", []string{"R6", "BH"}})
			d.want("CRAN", n, v, "")
		}
		ps = append(ps, kv{n, jobj(r, e...)})
	}
	d.Files[d.Format] = string(jobj(r, kv{"R", raw(`{"Version": "4.2.3", "Repositories": [{"Name": "CRAN", "URL": "https://cloud.r-project.org"}]}`)}, kv{"Packages", jobj(r, ps...)}))
	return d
}

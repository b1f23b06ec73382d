package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"net/http"
	"os"
	"path"
	"path/filepath"
	"regexp"
	"slices"
	"strings"
	"time"
)

func init() { checks["C20"] = check{level: "exploration", net: true, f: checkC20} }

// ---- mutation ----

var nasty = []string{
	"", "null", "~", "[]", "{}", "0", "-1", "1e999", "99999999999999999999999", "true", "\"\"", "''", "@", "@/", "/", "//", "/@", "@@", ":", "::", "#", "npm:", "npm:@", "npm:a@", "git+", "git+ssh://", "file:", "link:", "workspace:", "patch:",
	"(", ")", "()", "(a", "a@", "a@(b)", "/a", "/@a", "/@a/b", "@a/b", "-", "--", "_", ".", "..", "...", "\\", "\\\n", "\"", "'", "`", "${", "${}", "${x}", "$", "%", "%s", "[", "]", "[[", "]]", "[,", "[1,", "(,1]", "[1]", ",", ";", "==", "===", ">=", "~=", "<", "!", "!=", "&x", "*x", "<<", "|", ">", "---", "...", "- ", "? ", "\x00", "\xff\xfe", "\xef\xbb\xbf", "\u2028", "é", "漢", "\t", "\r", "\r\n", "\n\n", "    ", "  ",
	"v", "v1", "v1.", "1.", ".1", "1..2", "-r", "-r ", "-r x", "-c", "--hash", "=>", "=> ../x", "require", "require (", "replace", "module", "GIT", "GEM", "PATH", "specs:", "  revision:", "packages:", "version:", "version", "resolution:", "<!--", "-->", "<![CDATA[", "</", "/>", "<?xml", "&lt;", "&x;", "<!DOCTYPE x>", "__metadata:", "lockfileVersion: '9.0'", "lockfileVersion: 5.4", "lockfileVersion: 6", "lockfileVersion: {}", "*a", "&a [*a,*a]", "0x", "1_000", "nan", "inf", "2020-01-01", "\"\"\"", "'''",
}

func mutateBytes(r *R, s string) string {
	b := []byte(s)
	for range r.Range(1, 6) {
		if len(b) == 0 {
			b = []byte(pick(r, nasty))
			continue
		}
		at := r.IntN(len(b))
		switch r.IntN(8) {
		case 0:
			b[at] ^= 1 << r.IntN(8)
		case 1:
			b[at] = byte(r.IntN(256))
		case 2:
			b = append(b[:at:at], append([]byte(pick(r, nasty)), b[at:]...)...)
		case 3:
			end := min(len(b), at+r.Range(1, 30))
			b = append(b[:at:at], b[end:]...)
		case 4:
			end := min(len(b), at+r.Range(1, 60))
			b = append(b[:end:end], append(append([]byte{}, b[at:end]...), b[end:]...)...)
		case 5:
			b = b[:at]
		case 6:
			b[at] = "{}[]()\"':,@#/\\-=<> \n\t"[r.IntN(21)]
		case 7:
			end := min(len(b), at+r.Range(1, 10))
			b = append(b[:at:at], append([]byte(pick(r, nasty)), b[end:]...)...)
		}
	}
	return string(b)
}

var reToken = regexp.MustCompile(`[A-Za-z0-9_.+@/-]+|"[^"\n]*"|[^\sA-Za-z0-9]`)

func mutateTokens(r *R, s string) string {
	for range r.Range(1, 4) {
		toks := reToken.FindAllStringIndex(s, -1)
		if len(toks) == 0 {
			return mutateBytes(r, s)
		}
		t := pick(r, toks)
		switch r.IntN(5) {
		case 0:
			s = s[:t[0]] + s[t[1]:]
		case 1:
			u := pick(r, toks)
			s = s[:t[0]] + s[u[0]:u[1]] + s[t[1]:]
		case 2:
			w := s[t[0]:t[1]]
			q := ""
			if strings.HasPrefix(w, `"`) {
				q = `"`
			}
			s = s[:t[0]] + q + pick(r, nasty) + q + s[t[1]:]
		case 3:
			w := s[t[0]:t[1]]
			c := r.IntN(len(w) + 1)
			s = s[:t[0]] + w[:c] + s[t[1]:]
		default:
			w := s[t[0]:t[1]]
			c := r.IntN(len(w) + 1)
			s = s[:t[0]] + w[c:] + s[t[1]:]
		}
	}
	return s
}

func mutateLines(r *R, s string) string {
	l := strings.Split(s, "\n")
	for range r.Range(1, 4) {
		a, b := r.IntN(len(l)), r.IntN(len(l))
		switch r.IntN(6) {
		case 0:
			l = append(l[:a:a], l[a+1:]...)
			if len(l) == 0 {
				return ""
			}
		case 1:
			l = append(l[:a:a], append([]string{l[b]}, l[a:]...)...)
		case 2:
			l[a], l[b] = l[b], l[a]
		case 3:
			l[a] = "  " + l[a]
		case 4:
			l[a] = strings.TrimPrefix(l[a], "  ")
		default:
			l = append(l[:a:a], append([]string{pick(r, nasty)}, l[a:]...)...)
		}
	}
	return strings.Join(l, "\n")
}

// mutateJSON replaces, removes or renames nodes, so that the result is still JSON.
func mutateJSON(r *R, s string) string {
	var v any
	if json.Unmarshal([]byte(s), &v) != nil {
		return mutateTokens(r, s)
	}
	for range r.Range(1, 3) {
		n := 0
		countNodes(v, &n)
		at := r.IntN(n)
		v = editNode(r, v, &at)
	}
	return toJSON(v)
}

func countNodes(v any, n *int) {
	*n++
	switch t := v.(type) {
	case map[string]any:
		for _, k := range sortedKeys(t) {
			countNodes(t[k], n)
		}
	case []any:
		for _, x := range t {
			countNodes(x, n)
		}
	}
}

func editNode(r *R, v any, at *int) any {
	if *at == 0 {
		*at = -1
		if m, ok := v.(map[string]any); ok && len(m) > 0 && r.P(.5) {
			k := pick(r, sortedKeys(m))
			switch r.IntN(3) {
			case 0:
				delete(m, k)
			case 1:
				m[pick(r, nasty)] = m[k]
			default:
				x := m[k]
				delete(m, k)
				m[k+pick(r, nasty)] = x
			}
			return m
		}
		if l, ok := v.([]any); ok && len(l) > 0 && r.P(.5) {
			return l[:r.IntN(len(l))]
		}
		if t, ok := v.(string); ok && r.P(.6) {
			if r.P(.5) || len(t) == 0 {
				return pick(r, nasty)
			}
			c := r.IntN(len(t) + 1)
			return r.Pick(t[:c], t[c:], t[:c]+pick(r, nasty)+t[c:])
		}
		switch r.IntN(8) {
		case 0:
			return nil
		case 1:
			return []any{}
		case 2:
			return map[string]any{}
		case 3:
			return pick(r, nasty)
		case 4:
			return r.IntN(3) - 1
		case 5:
			return []any{v, nil, v}
		case 6:
			return map[string]any{pick(r, nasty): v}
		default:
			return true
		}
	}
	*at--
	switch t := v.(type) {
	case map[string]any:
		for _, k := range sortedKeys(t) {
			if *at < 0 {
				break
			}
			t[k] = editNode(r, t[k], at)
		}
	case []any:
		for i := range t {
			if *at < 0 {
				break
			}
			t[i] = editNode(r, t[i], at)
		}
	}
	return v
}

func mutate(r *R, s string) (string, string) {
	switch r.IntN(10) {
	case 0, 1:
		return mutateBytes(r, s), "bytes"
	case 2, 3, 4:
		return mutateTokens(r, s), "tokens"
	case 5:
		return mutateLines(r, s), "lines"
	case 6:
		return s[:r.IntN(len(s)+1)], "truncated"
	case 7:
		return "", "empty"
	default:
		return mutateJSON(r, s), "json"
	}
}

// ---- the monitor ----

var reCrash = regexp.MustCompile(`(?m)^(panic:|fatal error:|goroutine \d+ \[|runtime: |SIG[A-Z]+:|\tpanic:)`)

// survived says if the run ended in a way that is allowed.
func survived(k *Case, res Res, what string) bool {
	if res.Hang {
		k.Violate("%s: the run does not end", what)
		return false
	}
	if res.Crashed() || reCrash.Match(res.Err) {
		k.Violate("%s: the run crashed: %s", what, res)
		return false
	}
	return true
}

// otherReported says if the untouched lockfile of the same run was checked as usual.
func otherReported(k *Case, res Res, what, file string, want []string, wantVulns int) bool {
	out, err := parseOut(res.Out)
	if err != nil {
		k.Violate("%s: %v: %s", what, err, res)
		return false
	}
	for _, f := range out.Results {
		if f.FilePath != file {
			continue
		}
		var got []string
		n := 0
		for _, p := range f.Packages {
			got = append(got, p.Key())
			n += len(p.Vulns)
		}
		if s := diff(want, got); s != "" {
			k.Violate("%s: packages of the other lockfile: %s", what, s)
			return false
		}
		if n != wantVulns {
			k.Violate("%s: the other lockfile has %d vulnerabilities instead of %d", what, n, wantVulns)
			return false
		}
		return true
	}
	k.Violate("%s: the other lockfile has no result: %s", what, res)
	return false
}

var okRow = refPkg{Eco: "npm", Name: "fine", Ver: "1.0.0"}

func putOK(k *Case) {
	k.Write("ok/ok.csv", okRow.row()+"\n")
	k.Write("ok/.osv-detector.yml", configYAML(nil, []dbEntry{{URL: "file:/okdb"}}))
	k.Write("okdb/1.json", allVersions("OK-1", "npm", "fine").JSON())
}

func checkC20(c *Ctx) {
	c.Rule = "structure-aware and byte-level mutations of well-formed inputs of every kind (26 lockfile generators, CSV, config, advisories, archives, cache files, API answers, versions of every ecosystem, paths and flag values), together with an untouched lockfile; the run has to end by itself with an allowed exit code, without a panic, and the untouched lockfile has to be reported as usual; non-trivial when the input was changed; distinct by the mutated input"
	c.Assume = []string{"usage errors (unknown flags or flag values that are not numbers or booleans) exit with 2 and the usage, as the flag package of the standard library does", "a run that does not end within 40 s three times in a row hangs"}
	gens := sortedKeys(allGens)
	limit := 40 * time.Second
	c.Each("lockfiles", c.N(5000, 120000), func(i int, r *R) {
		k := c.NewCase()
		defer k.Done()
		putOK(k)
		args := []string{"--json", "--use-dbs=false"}
		if r.P(.3) {
			args = append(args, "--list-packages")
		}
		okVulns := 1
		if len(args) == 3 {
			okVulns = 0
		}
		var paths, names []string
		for j := range 6 {
			d := allGens[gens[(i*6+j)%len(gens)]](r)
			s, how := mutate(r, d.Files[d.Format])
			if r.P(.3) {
				s, _ = mutate(r, s)
			}
			dir := fmt.Sprintf("m%d", j)
			for f, x := range d.Files {
				if f != d.Format {
					k.Write(path.Join(dir, f), x)
				}
			}
			k.Write(path.Join(dir, d.Format), s)
			paths = append(paths, path.Join(dir, d.Format))
			names = append(names, d.Format)
			c.Mark("mutations", d.Format+":"+how)
			c.Seen(s != d.Files[d.Format], s)
		}
		at := r.IntN(len(paths) + 1)
		paths = append(paths[:at:at], append([]string{"csv-file:ok/ok.csv"}, paths[at:]...)...)
		res := k.RunX(Run{Args: append(args, paths...), Limit: limit})
		what := "one of " + strings.Join(names, ", ")
		if survived(k, res, what) && otherReported(k, res, what, "ok/ok.csv", []string{okRow.key()}, okVulns) {
			c.Count("lockfiles_survived", len(names))
		}
		if i == 0 {
			c.Sample(map[string]any{"args": paths, "mutated": clip([]byte(k.Files[path.Join("m0", names[0])]))})
		}
	})
	// deep and large inputs
	c.Each("deep", c.N(60, 600), func(i int, r *R) {
		k := c.NewCase()
		defer k.Done()
		putOK(k)
		n := r.Pick2(200, 5000, 20000, 100000)
		rep := func(a, m, b string) string { return strings.Repeat(a, n) + m + strings.Repeat(b, n) }
		docs := [][2]string{
			{"package-lock.json", `{"lockfileVersion":1,"dependencies":` + rep(`{"a":{"version":"1.0.0","dependencies":`, "{}", "}}") + "}"},
			{"package-lock.json", rep("[", "", "]")}, {"composer.lock", `{"packages":` + rep("[", "", "]") + "}"}, {"bun.lock", `{"packages":{"a":` + rep("[", "1", "]") + "}}"},
			{"pnpm-lock.yaml", "packages: " + rep("[", "", "]")}, {"pubspec.lock", "packages: " + rep("{a: ", "b", "}")}, {"pom.xml", "<project>" + rep("<a>", "", "</a>") + "</project>"},
			{"Cargo.lock", "x = " + rep("[", "", "]")}, {"poetry.lock", "x = " + strings.Repeat("{a=", n/50) + "1" + strings.Repeat("}", n/50)}, {"pylock.toml", "[" + strings.Repeat("a.", n/50) + "b]\n"},
			{"yarn.lock", strings.Repeat("a@", n) + "1:\n  version \"1.0.0\"\n"}, {"Gemfile.lock", "GEM\n  specs:\n" + strings.Repeat("    a (1.0)\n", n)}, {"mix.lock", "%{\n" + strings.Repeat(`"a": {:hex, :a, "1.0", "x"},`+"\n", n) + "}"},
			{"requirements.txt", strings.Repeat("a==1.0 \\\n", n/50)}, {"go.mod", "module x\nrequire (\n" + strings.Repeat("\ta.b/c v1.0.0\n", n) + ")\n"}, {"gradle.lockfile", strings.Repeat("a:b:1=c\n", n)},
			{"packages.lock.json", `{"version":1,"dependencies":` + rep(`{"a":`, "{}", "}") + "}"}, {"renv.lock", `{"Packages":` + rep(`{"a":`, "{}", "}") + "}"}, {"pdm.lock", "[[package]]\nname = \"" + strings.Repeat("a", n*10) + "\"\nversion = \"1\"\n"}, {"uv.lock", "version = 1\n" + strings.Repeat("[[package]]\nname = \"a\"\nversion = \"1\"\n", n/10)},
			{"Pipfile.lock", `{"default":` + rep(`{"a":`, "{}", "}") + "}"}, {"pnpm-lock.yaml", "a: &a [x]\n" + strings.Repeat("b: &b [*a,*a,*a,*a,*a,*a,*a]\n", 20)}, {"pnpm-lock.yaml", bomb()},
		}
		d := docs[i%len(docs)]
		k.Write("m/"+d[0], d[1])
		res := k.RunX(Run{Args: []string{"--json", "--use-dbs=false", "m/" + d[0], "csv-file:ok/ok.csv"}, Limit: limit})
		what := fmt.Sprintf("%s nested or repeated %d times", d[0], n)
		if survived(k, res, what) && otherReported(k, res, what, "ok/ok.csv", []string{okRow.key()}, 1) {
			c.Count("deep_survived", 1)
		}
		delete(k.Files, "m/"+d[0])
		c.Mark("deep", d[0])
		c.Seen(true, what+fmt.Sprint(i%len(docs)))
	})
	// things that refer to themselves or to each other
	c.Each("cycles", c.N(160, 2000), func(i int, r *R) {
		k := c.NewCase()
		defer k.Done()
		putOK(k)
		docs := cycles(c, k, r)
		names := sortedKeys(docs)
		name := names[i%len(names)]
		arg := docs[name](r)
		res := k.RunX(Run{Args: append([]string{"--json", "--use-dbs=false", "csv-file:ok/ok.csv"}, arg...), Limit: limit})
		what := "a cycle: " + name
		if survived(k, res, what) && otherReported(k, res, what, "ok/ok.csv", []string{okRow.key()}, 1) {
			c.Count("cycles_survived", 1)
		}
		c.Mark("cycles", name)
		c.Seen(true, fmt.Sprint(name, i))
	})
	c.Each("inputs", c.N(5000, 120000), func(i int, r *R) {
		k := c.NewCase()
		defer k.Done()
		putOK(k)
		kind := []string{"csv", "csv-rows", "config", "advisory", "advisory", "zip", "cache", "api", "api", "versions", "versions", "paths"}[i%12]
		c.Mark("kinds", kind)
		args := []string{"--json", "--use-dbs=false"}
		files := []string{"csv-file:ok/ok.csv"}
		okVulns := 1
		var how, in string
		switch kind {
		case "csv":
			s := mkLock("csv-file", worldPkgs(r, "csv-file", "")) + "npm,,x,1\n"
			in, how = mutate(r, s)
			k.Write("m/x.csv", in)
			files = append(files, "csv-file:m/x.csv")
		case "csv-rows":
			var rows []string
			for range r.Range(1, 4) {
				s, _ := mutate(r, "npm,npm,x,1.0.0")
				rows = append(rows, strings.ReplaceAll(s, "\x00", ""))
			}
			in = strings.Join(rows, "\n")
			res := k.RunX(Run{Args: append([]string{"--json", "--use-dbs=false", "--parse-as", "csv-row", "--"}, rows...), Limit: limit})
			if survived(k, res, "CSV rows") {
				c.Count("inputs_survived", 1)
				c.Seen(true, in)
			}
			return
		case "config":
			s := configYAML([]string{"A-1", "B-2"}, []dbEntry{{URL: "file:/okdb"}, {URL: "https://x.test/y.zip", Type: "zip", Name: "n", WD: "w"}, {URL: "http://127.0.0.1:9/v1"}})
			in, how = mutate(r, s)
			k.Write("m/x.csv", "npm,,fine,1.0.0\n")
			k.Write("m/.osv-detector.yml", in)
			files = append(files, "csv-file:m/x.csv")
			args = append(args, "--offline")
			if r.P(.3) {
				args = append(args, "--update-config-ignores")
			}
		case "advisory":
			a := worldAdvs(r, "x", []string{"A-1", "B-1", "C-1"}, .3)
			a[0].Affected = append(a[0].Affected, Affected{Package: Pkg{"fine2", "npm"}, Versions: []string{"1.0.0"}, Ranges: []Rng{{"SEMVER", []Event{{"introduced": "0"}, {"fixed": "2.0.0"}}}, {"GIT", []Event{{"introduced": "0"}}}}})
			a[0].Withdrawn, a[0].Published, a[0].Modified = timeStr(r), timeStr(r), timeStr(r)
			for j, x := range a {
				s := x.JSON()
				if r.P(.6) {
					s = mutateJSON(r, s)
					how = "json"
				} else {
					s, how = mutate(r, s)
				}
				in += s
				k.Write(fmt.Sprintf("mdb/%d.json", j), s)
			}
			k.Write("m/x.csv", "npm,,fine2,1.0.0\n"+mkLock("csv-file", worldPkgs(r, "csv-file", "")))
			k.Write("m/.osv-detector.yml", configYAML(nil, []dbEntry{{URL: "file:/mdb"}}))
			files = append(files, "csv-file:m/x.csv")
		case "zip", "cache":
			good := zipOf(r, advFiles(r, worldAdvs(r, "x", []string{"A-1", "B-1"}, 0)))
			b := mutateBytes(r, string(good))
			if r.P(.2) {
				b = string(good[:r.IntN(len(good))])
			}
			if r.P(.4) {
				b = string(badHeaders(r, good))
				how = "headers"
			}
			how, in = orDefault(how, "bytes"), b
			unchanged := kind == "cache" && r.P(.5)
			s := c.Scenario(func(w http.ResponseWriter, q *Req) {
				w.Header().Set("ETag", `"x"`)
				if unchanged {
					w.WriteHeader(304)
					return
				}
				_, _ = w.Write([]byte(b))
			})
			defer c.EndScenario(s)
			u := c.URL(s, "/x/all.zip")
			if kind == "cache" {
				x := toJSON(map[string]any{"url": u, "etag": `"x"`, "date": "Mon, 02 Jan 2023 03:04:05 GMT", "body": base64.StdEncoding.EncodeToString(good)})
				if r.P(.5) {
					x = mutateJSON(r, x)
				} else {
					x, how = mutate(r, x)
				}
				in = x
				p := filepath.Join(k.Dir, "tmp", cacheName(u))
				must(os.WriteFile(p, []byte(x), 0o644))
				if r.P(.5) {
					args = append(args, "--offline")
				}
			}
			k.Write("m/x.csv", mkLock("csv-file", worldPkgs(r, "csv-file", ""))+"npm,,alpha,1.0.0\n")
			k.Write("m/.osv-detector.yml", configYAML(nil, []dbEntry{{URL: u}}))
			files = append(files, "csv-file:m/x.csv")
		case "api":
			pk := worldPkgs(r, "csv-file", "")
			pk = append(pk, rp("npm", "", "alpha", "1.0.0"), rp("", "", "c", r.Sha()))
			how = "answer"
			s := c.Scenario(func(w http.ResponseWriter, q *Req) {
				rr := &R{Rand: rnd(hash64(fmt.Sprint(c.Seed, i), q.Path, string(q.Body)))}
				if strings.HasSuffix(q.Path, "/querybatch") {
					qs, _ := parseBatch(q.Body)
					a := batchAnswer(qs, func(apiQ) []string { return []string{"A-1", "A-2"} })
					if rr.P(.7) {
						a = mutateJSON(rr, a)
					} else {
						a, _ = mutate(rr, a)
					}
					_, _ = w.Write([]byte(a))
					return
				}
				a, _ := mutate(rr, OSV{ID: path.Base(q.Path), Summary: "s", Aliases: []string{"X"}, Modified: "2020-01-01T00:00:00Z"}.JSON())
				_, _ = w.Write([]byte(a))
			})
			defer c.EndScenario(s)
			k.Write("m/x.csv", mkLock("csv-file", pk))
			k.Write("m/.osv-detector.yml", configYAML(nil, []dbEntry{{URL: c.URL(s, "/v1")}}))
			files = append(files, "csv-file:m/x.csv")
			args = append(args, fmt.Sprintf("--batch-size=%d", r.Pick2(1, 2, 1000, -5, 0)))
			in = fmt.Sprint(i)
		case "versions":
			eco := pick(r, append(append([]string{}, ladderNames...), "made-up", ""))
			ver := func() string {
				base := "1.0.0"
				if l := ladders[eco]; l != nil && r.P(.8) {
					base = pick(r, pick(r, l))
				}
				if r.P(.5) {
					return strings.ToValidUTF8(mutateBytes(r, base), "?")
				}
				if r.P(.3) {
					return pick(r, nasty)
				}
				return base
			}
			var rows []string
			for range r.Range(1, 4) {
				rows = append(rows, csvRow(r.Pick("npm", orDefault(eco, "npm")), eco, "pkg", strings.ReplaceAll(ver(), "\r", "")))
			}
			a := OSV{ID: "V-1", Affected: []Affected{{Package: Pkg{"pkg", "npm"}}, {Package: Pkg{"pkg", orDefault(eco, "npm")}}}}
			for j := range a.Affected {
				var es []Event
				for range r.Range(0, 5) {
					es = append(es, Event{r.Pick("introduced", "fixed", "last_affected", "limit", "x"): ver()})
				}
				a.Affected[j].Ranges = []Rng{{r.Pick("SEMVER", "ECOSYSTEM", "GIT", "x"), es}}
			}
			in, how = strings.Join(rows, "\n")+a.JSON(), "versions"
			k.Write("m/x.csv", strings.Join(rows, "\n")+"\n")
			k.Write("mdb/1.json", a.JSON())
			k.Write("m/.osv-detector.yml", configYAML(nil, []dbEntry{{URL: "file:/mdb"}}))
			files = append(files, "csv-file:m/x.csv")
			c.Mark("hostile_version_ecosystems", eco)
		case "paths":
			how = "paths"
			for range r.Range(1, 4) {
				p := pick(r, nasty)
				if r.P(.5) {
					p = mutateBytes(r, r.Pick("ok/ok.csv", "package-lock.json:ok", "csv-file:ok/", ":ok/ok.csv", "./ok"))
				}
				p = strings.ReplaceAll(p, "\x00", "")
				if strings.Contains(p, "/") && (strings.HasPrefix(p, "/") || strings.Contains(p, ":/") || strings.Contains(p, "..")) {
					continue // stay in the directory of the case
				}
				files = append(files, p)
				in += p + "\n"
			}
			more := []string{"--ignore=" + strings.ReplaceAll(pick(r, nasty), "\x00", ""), fmt.Sprintf("--batch-size=%d", r.Pick2(-9223372036854775808, -1, 0, 1, 9223372036854775807)), "--no-config-ignores", "--offline", "--use-api=false"}
			for range r.IntN(3) {
				args = append(args, pick(r, more))
			}
			if r.P(.2) {
				// flag values that are errors
				bad := [][]string{{"--config", strings.ReplaceAll(pick(r, nasty), "\x00", "")}, {"--parse-as", strings.ReplaceAll(pick(r, nasty), "\x00", "")}}
				res := k.RunX(Run{Args: append(append(args, pick(r, bad)...), append([]string{"--"}, files...)...), Limit: limit})
				if survived(k, res, "flags") {
					c.Count("inputs_survived", 1)
					c.Seen(true, fmt.Sprint(args, files))
				}
				return
			}
			if r.P(.1) {
				res := k.RunX(Run{Args: []string{r.Pick("--batch-size=x", "--nope", "--json=maybe", "--batch-size=99999999999999999999", "--offline=2"), "ok"}, Limit: limit})
				if res.Hang || res.Signal != "" || reCrash.Match(res.Err) || res.Exit == 0 || !strings.Contains(strings.ToLower(string(res.Err)), "usage") {
					k.Violate("a usage error has to be reported with the usage: %s", res)
					return
				}
				c.Count("usage_errors", 1)
				return
			}
			args = append(args, "--")
		}
		at := r.IntN(len(files))
		files[0], files[at] = files[at], files[0]
		res := k.RunX(Run{Args: append(args, files...), Limit: limit})
		if survived(k, res, kind) && otherReported(k, res, kind, "ok/ok.csv", []string{okRow.key()}, okVulns) {
			c.Count("inputs_survived", 1)
		}
		c.Mark("mutations", kind+":"+how)
		c.Seen(true, kind+in)
	})
}

// bomb is a YAML document whose aliases expand to very much.
func bomb() string {
	var b strings.Builder
	b.WriteString("a: &a [x,x,x,x,x,x,x,x,x]\n")
	for c := 'b'; c < 'l'; c++ {
		fmt.Fprintf(&b, "%c: &%c [%s]\n", c, c, strings.TrimSuffix(strings.Repeat(fmt.Sprintf("*%c,", c-1), 9), ","))
	}
	b.WriteString("packages: *k\n")
	return b.String()
}

// cacheName is the name of the file that a zip database is cached in.
func cacheName(u string) string {
	return fmt.Sprintf("osv-detector-%x-db.json", sha256.Sum256([]byte(u)))
}

// badHeaders makes the fields of an archive's headers lie about what is in it.
func badHeaders(r *R, z []byte) []byte {
	z = slices.Clone(z)
	put := func(at, n int, v uint64) {
		for j := range n {
			z[at+j] = byte(v >> (8 * j))
		}
	}
	num := func() uint64 {
		return pick(r, []uint64{0, 1, 7, 1 << 16, 1<<31 - 1, 1 << 31, 1<<32 - 2, 1<<32 - 1, 1<<63 - 1, 1 << 62, 1<<64 - 1, uint64(r.IntN(4096))})
	}
	var central []int
	for i := 0; i+46 < len(z); i++ {
		if string(z[i:i+4]) == "PK\x01\x02" {
			central = append(central, i)
		}
	}
	if len(central) == 0 {
		return z
	}
	for range r.Range(1, 3) {
		at := pick(r, central)
		switch r.IntN(8) {
		case 0:
			put(at+24, 4, num()) // uncompressed size
		case 1:
			put(at+20, 4, num()) // compressed size
		case 2:
			put(at+16, 4, num()) // CRC
		case 3:
			put(at+42, 4, num()) // where it starts
		case 4:
			put(at+10, 2, num()) // method
		case 5:
			put(at+8, 2, num()) // flags
		case 6:
			put(at+28+2*r.IntN(3), 2, num()) // lengths of name, extra field, comment
		default: // a size of 64 bits
			end := min(at+46+int(z[at+28])+int(z[at+29])<<8, len(z))
			put(at+24, 4, 1<<32-1)
			put(at+30, 2, 12)
			extra := []byte{1, 0, 8, 0, 0, 0, 0, 0, 0, 0, 0, 0}
			v := num()
			for j := range 8 {
				extra[4+j] = byte(v >> (8 * j))
			}
			z = slices.Concat(z[:end], extra, z[end:])
			// the directory is larger now
			if e := bytes.LastIndex(z, []byte("PK\x05\x06")); e >= 0 && e+16 < len(z) {
				put(e+12, 4, uint64(z[e+12])+uint64(z[e+13])<<8+uint64(z[e+14])<<16+12)
			}
			return z
		}
	}
	return z
}

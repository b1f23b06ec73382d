package main

import (
	"fmt"
	"os"
	"path"
	"path/filepath"
	"slices"
	"sort"
	"strings"
)

func init() { checks["C21"] = check{level: "exploration", f: checkC21} }

var parserGens map[string][]string

// genFor makes a document in the format of the parser that is a single file.
func genFor(r *R, parser string) *Doc {
	if parser == "csv-file" {
		d := newDoc("csv-file")
		var rows []string
		for range r.Range(1, 5) {
			p := refPkg{Eco: r.Pick("npm", "PyPI", "Maven"), Name: r.Word() + r.Word(), Ver: r.Semver()}
			rows = append(rows, p.row())
			d.Want[p.key()]++
		}
		d.Files["csv-file"] = strings.Join(rows, "\n") + "\n"
		return d
	}
	for {
		d := allGens[pick(r, parserGens[parser])](r)
		if parser == "requirements.txt" && strings.Contains(d.Files[parser], "requirements.txt") {
			continue // it includes itself, which depends on its name
		}
		if len(d.Files) == 1 && len(d.Want) > 0 {
			return d
		}
	}
}

type c21want struct {
	label, parser string
	doc           *Doc
	err           bool // has to be an error instead
}

func checkC21(c *Ctx) {
	c.Rule = "command lines mixing files and directories with parser prefixes, leading colons, --parse-as, odd spellings of paths (absolute, ./, trailing /, through symlinks, with colons), file names that are nearly those of lockfiles, nested directories and directories named like lockfiles; each file's content is only right for the parser that has to be used; labels, parsers, packages and order of the results are compared with the reference; non-trivial when there is a result; distinct by arguments and files"
	c.Assume = []string{"labels are compared with the cleaned path", "a prefix that is not a parser is only given with files"}
	parserGens = map[string][]string{}
	r0 := c.Rand("formats", 0)
	for _, g := range sortedKeys(allGens) {
		d := allGens[g](r0)
		parserGens[d.Format] = append(parserGens[d.Format], g)
	}
	parsers := sortedKeys(parserGens)
	c.Count("parsers", len(parsers))
	near := []string{"PACKAGE-LOCK.JSON", "package-lock.json.bak", "my-package-lock.json", "lock", "file.txt", ".hidden", "yarn.lock~", "Go.mod", "go.mod ", "requirements-dev.txt", "poetry.lock.d", "cargo.lock", "Gemfile", "json", "package-lock", "pom.xml.orig", "é.lock", "x.csv", "csv-file", "csv-row", "-", "#x"}
	c.Each("args", c.N(6000, 100000), func(i int, r *R) {
		k := c.NewCase()
		defer k.Done()
		root := k.Path("")
		global := ""
		switch {
		case r.P(.3):
			global = pick(r, parsers)
		case r.P(.1):
			global = "csv-file"
		}
		args := []string{"--json"}
		list := r.P(.6)
		if list {
			args = append(args, "--list-packages")
		} else {
			args = append(args, "--use-dbs=false", "--no-config")
		}
		if global != "" {
			args = append(args, r.Pick("--parse-as=", "-parse-as=")+global)
			c.Mark("modes", "global")
		}
		args = append(args, "--")
		var want []c21want
		var softs []string
		spell := func(p string, colon bool) (arg, label string) {
			arg, label = p, p
			switch r.IntN(8) {
			case 0:
				arg = "./" + p
			case 1:
				arg = filepath.Join(root, p)
				label = arg
			case 2:
				arg = path.Dir(p) + "/../" + p
				if path.Dir(p) == "." {
					arg = p
				}
				arg, label = strings.Replace(arg, "//", "/", 1), p
				if strings.Count(path.Dir(p), "/") > 0 {
					arg = p
				}
			case 3:
				arg = strings.Replace(p, "/", "//", 1)
			}
			return
		}
		for n := range r.Range(1, 5) {
			d := fmt.Sprintf("d%d%s", n, r.Pick("", "", "", " sp", ":c", "é", "/sub", ".x", "%d", "[1]", "[1]", "*", "?", "$HOME", "${x}", "~", "{a,b}", "'q'"))
			named := ""
			if r.P(.4) {
				named = pick(r, parsers)
				if r.P(.15) {
					named = "csv-file"
				}
			}
			eff := named
			if eff == "" {
				eff = global
			}
			put := func(name, parser string) *Doc {
				doc := genFor(r, parser)
				k.Write(path.Join(d, name), doc.Files[doc.Format])
				return doc
			}
			isDir := r.P(.45)
			var p string
			var these []c21want
			if !isDir {
				name := pick(r, parsers)
				if r.P(.4) {
					name = pick(r, near)
				}
				if r.P(.1) {
					name = "a:b"
				}
				p = path.Join(d, name)
				use := eff
				if use == "" && slices.Contains(parsers, name) {
					use = name
				}
				if use == "" {
					k.Write(p, "{}")
					these = append(these, c21want{p, "", nil, true})
				} else {
					these = append(these, c21want{p, use, put(name, use), false})
				}
			} else {
				p = d
				k.Mkdir(d)
				names := map[string]bool{}
				for range r.IntN(6) {
					if r.P(.6) {
						names[pick(r, parsers)] = true
					} else {
						names[pick(r, near)] = true
					}
				}
				for _, name := range sortedKeys(names) {
					use := eff
					if use == "" {
						use = name
					}
					switch {
					case slices.Contains(parsers, use) || use == "csv-file" && eff != "":
						these = append(these, c21want{path.Join(d, name), use, put(name, use), false})
						if r.P(.1) { // a link to a file elsewhere is a file
							must(os.Rename(k.Path(path.Join(d, name)), filepath.Join(k.Dir, fmt.Sprintf("real%d%s", n, name))))
							must(os.Symlink(filepath.Join(k.Dir, fmt.Sprintf("real%d%s", n, name)), k.Path(path.Join(d, name))))
							c.Mark("modes", "linked-file")
						}
					default:
						k.Write(path.Join(d, name), "this is not a lockfile")
					}
				}
				// nothing below is looked at
				if r.P(.4) {
					k.Write(path.Join(d, "zsub", pick(r, parsers)), "{{{")
				}
				for range r.IntN(2) {
					if x := pick(r, parsers); !names[x] {
						k.Write(path.Join(d, x, "package-lock.json"), "{{{")
					}
				}
				if r.P(.15) {
					l := fmt.Sprintf("link%d", n)
					must(os.Symlink(d, k.Path(l)))
					for j := range these {
						these[j].label = strings.Replace(these[j].label, d, l, 1)
					}
					p = l
					c.Mark("modes", "linked-dir")
				}
				sort.Slice(these, func(a, b int) bool { return these[a].label < these[b].label })
			}
			if like := strings.Replace(p, "[1]", "1", 1); like != p { // the name is no pattern
				if isDir {
					like = path.Join(like, "package-lock.json")
				}
				k.Write(like, `{"lockfileVersion":3,"packages":{"node_modules/evil":{"version":"6.6.6"}}}`)
				c.Mark("modes", "pattern")
			}
			arg, label := spell(p, strings.Contains(p, ":"))
			if isDir && r.P(.2) {
				arg += "/"
			}
			for j := range these {
				these[j].label = label + strings.TrimPrefix(these[j].label, p)
			}
			switch {
			case named != "":
				arg = named + ":" + arg
				c.Mark("modes", "named")
			case strings.Contains(arg, ":") || r.P(.15):
				arg = ":" + arg
				c.Mark("modes", "colon")
			}
			c.Mark("item_kinds", fmt.Sprintf("dir=%v named=%v global=%v files=%d", isDir, named != "", global != "", min(len(these), 3)))
			if named != "" && !strings.HasPrefix(arg[len(named)+1:], "/") && !strings.Contains(arg, "..") && r.P(.15) {
				// something whose name is the whole argument is not meant
				if at := path.Join(arg, "package-lock.json"); r.P(.5) {
					k.Write(at, `{"lockfileVersion":3,"packages":{"node_modules/evil":{"version":"6.6.6"}}}`)
				} else if !isDir {
					k.Write(arg, "npm,,evil,6.6.6\n")
				}
				c.Mark("modes", "decoy")
			}
			args = append(args, arg)
			want = append(want, these...)
			if r.P(.08) {
				args = append(args, arg)
				want = append(want, these...)
				c.Mark("modes", "twice")
			}
			if r.P(.06) { // a prefix that names no parser
				name := r.Pick("package-lock.json", "go.mod", "x.txt")
				p := path.Join(fmt.Sprintf("u%d", n), name)
				k.Write(p, mkLock("package-lock.json", []refPkg{{Eco: "npm", Name: "evil", Ver: "6.6.6"}}))
				arg := r.Pick("npm", "foo", "Package-lock.json", "package-lock", "C", "csv", "yarn.lock ", "Go.mod") + ":" + p
				if r.P(.5) { // nor is it a part of the path
					k.Write(arg, mkLock("package-lock.json", []refPkg{{Eco: "npm", Name: "evil", Ver: "6.6.6"}}))
				}
				args = append(args, arg)
				want = append(want, c21want{p, "", nil, true})
				c.Mark("modes", "unknown-prefix")
			}
			if r.P(.05) {
				m := fmt.Sprintf("missing%d/go.mod", n)
				args = append(args, m)
				softs = append(softs, m)
			}
		}
		res := k.Run(args...)
		out, err := parseOut(res.Out)
		if err != nil {
			k.Violate("%v: %s", err, res)
			return
		}
		at, errs := 0, 0
		for _, w := range want {
			if w.err {
				errs++
				if !strings.Contains(string(res.Err), w.label) {
					k.Violate("there is no parser for %s, which stderr does not say:\n%s", w.label, res.Err)
					return
				}
				continue
			}
			if at >= len(out.Results) {
				k.Violate("there is no result for %s (as %s)", w.label, w.parser)
				return
			}
			o := out.Results[at]
			at++
			if o.FilePath != w.label || o.ParsedAs != w.parser {
				k.Violate("result %d is for %s (parsed as %s), expected %s (parsed as %s)\n%s", at, o.FilePath, o.ParsedAs, w.label, w.parser, res.Err)
				return
			}
			if s := w.doc.compare(o.Packages); s != "" {
				k.Violate("packages of %s (parsed as %s):\n%s", o.FilePath, o.ParsedAs, s)
				return
			}
			c.Mark("parsers_used", w.parser)
			c.Count("results_compared", 1)
		}
		if at != len(out.Results) {
			k.Violate("there are %d results instead of %d, such as %s", len(out.Results), at, out.Results[at].FilePath)
			return
		}
		for _, s := range softs {
			if !strings.Contains(string(res.Err), s) {
				k.Violate("%s does not exist, which stderr does not say:\n%s", s, res.Err)
				return
			}
		}
		code := 0
		switch {
		case errs > 0 || len(softs) > 0:
			code = 127
		case len(want) == 0:
			code = 128
		}
		if res.Exit != code {
			k.Violate("exit code %d, expected %d (%d files without a parser, %d missing, %d results)", res.Exit, code, errs, len(softs), at)
			return
		}
		c.Seen(at > 0, fmt.Sprint(args, i))
		if i == 0 {
			c.Sample(map[string]any{"args": args, "files": sortedKeys(k.Files)})
		}
	})
}

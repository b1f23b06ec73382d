package main

import (
	"fmt"
	"regexp"
	"sort"
	"strings"
)

func init() { checks["C05"] = check{level: "exploration", f: checkC05} }

type csvPkg struct{ eco, as, name, ver string }

func (p csvPkg) key() string {
	as, v, commit := p.as, p.ver, ""
	if as == "" {
		as = p.eco
	}
	if p.eco == "" {
		v, commit = "", p.ver
	}
	return fmt.Sprintf("%s|%s|%s|%s|%s", p.eco, p.name, v, commit, as)
}

func genCSVField(r *R) string {
	switch r.IntN(12) {
	case 0:
		return r.Pick("a,b", `say "hi"`, "line\nbreak", " lead", "trail ", "  both ", "\tlead", "trail\t", " ", "in side", "é✓", "#hash", "-dash", "a:b", `\.`, "a\tb", "'q'", "x;y", "%s%d", "<b>&", "null", "0")
	case 1:
		return r.Word() + "/" + r.Word()
	case 2:
		return "@" + r.Word() + "/" + r.Word()
	default:
		return r.Word()
	}
}

func genCSVPkgs(r *R, n int) []csvPkg {
	var l []csvPkg
	for range n {
		p := csvPkg{eco: r.Pick("npm", "PyPI", "crates.io", "Packagist", "Debian:10", "Alpine:v3.14", "Go", "made-up", "Maven"), name: genCSVField(r), ver: r.Semver()}
		switch r.IntN(7) {
		case 0:
			p.eco, p.ver = "", r.Sha()
			if r.P(.3) {
				p.as = r.Pick("npm", "PyPI")
			}
		case 1, 2:
			p.as = r.Pick("npm", "PyPI", "crates.io", "Debian:11", "x")
			if r.P(.15) {
				p.as = genCSVField(r)
			}
		case 4:
			if r.P(.2) { // white space is a part of a field
				q := []*string{&p.eco, &p.as, &p.name, &p.ver}[r.IntN(4)]
				*q = r.Pick(" ", "", "\t") + *q + r.Pick(" ", "", "  ")
			}
		case 3:
			if r.P(.5) {
				p.ver = ""
			} else {
				p.ver = genCSVField(r)
			}
		}
		if r.P(.06) {
			p.eco = genCSVField(r) // any text is an ecosystem
			if r.P(.3) {
				p.eco = r.Pick("#", "//", ";", "--", "<!--", "!", "%", "*") + r.Pick("", " ") + p.eco
			}
		}
		l = append(l, p)
		if r.P(.05) {
			l = append(l, p) // the same row twice is two packages
		}
	}
	return l
}

func checkC05(c *Ctx) {
	c.Rule = "sets of CSV rows (quoted fields, embedded separators and newlines, empty fields, extra fields, duplicates, CRLF, missing final newline) given as arguments and as a file; and the same with one broken row at a random position; non-trivial when at least one row is given; distinct by the rows"
	c.Assume = []string{"blank lines are not rows", "rows of one input have the same number of fields, as the CSV reader of the standard library requires"}
	c.Each("rows", c.N(5000, 80000), func(i int, r *R) {
		k := c.NewCase()
		defer k.Done()
		n := r.Range(1, 8)
		if r.P(.02) {
			n = r.Range(200, 1500)
		}
		pkgs := genCSVPkgs(r, n)
		extra := 0
		if r.P(.3) {
			extra = r.Range(1, 3)
		}
		var rows, want []string
		for _, p := range pkgs {
			f := []string{p.eco, p.as, p.name, p.ver}
			for range extra {
				f = append(f, genCSVField(r))
			}
			if r.P(.1) { // quoting is optional, so more of it must not change anything
				for j := range f {
					f[j] = `"` + strings.ReplaceAll(f[j], `"`, `""`) + `"`
				}
				rows = append(rows, strings.Join(f, ","))
			} else {
				rows = append(rows, csvRow(f...))
			}
			want = append(want, p.key())
		}
		args := append([]string{"--json", "--list-packages", "--parse-as", "csv-row", "--"}, rows...)
		file := strings.Join(rows, "\n")
		if r.P(.2) && !strings.Contains(file, "line\nbreak") {
			file = strings.ReplaceAll(file, "\n", "\r\n")
			c.Mark("features", "crlf")
		}
		if r.P(.7) {
			file += "\n"
		}
		if r.P(.1) && !strings.Contains(file, "line\nbreak") {
			file = strings.ReplaceAll(file, "\n", "\n\n")
			c.Mark("features", "blank-lines")
		}
		name := r.Pick("x.csv", "requirements.txt", "no ext")
		k.Write(name, file)
		runs := []struct {
			res    Res
			path   string
			parser string
		}{
			{k.Run(args...), "-", "csv-row"},
			{k.Run("--json", "--list-packages", "csv-file:"+name), name, "csv-file"},
			{k.Run("--json", "--use-dbs=false", "--parse-as", "csv-file", name), name, "csv-file"},
		}
		for _, x := range runs {
			if x.res.Exit != 0 {
				k.Violate("valid rows gave %s", x.res)
				return
			}
			out, err := parseOut(x.res.Out)
			if err != nil || len(out.Results) != 1 {
				k.Violate("expected one result: %v %s", err, x.res)
				return
			}
			o := out.Results[0]
			if o.FilePath != x.path || o.ParsedAs != x.parser {
				k.Violate("result labelled %s (%s), expected %s (%s)", o.FilePath, o.ParsedAs, x.path, x.parser)
				return
			}
			var got []string
			for _, p := range o.Packages {
				got = append(got, p.Key())
			}
			if s := diff(want, got); s != "" {
				k.Violate("packages of %s rows: %s", x.parser, s)
				return
			}
			if !sort.SliceIsSorted(o.Packages, func(a, b int) bool {
				if o.Packages[a].Name == o.Packages[b].Name {
					return o.Packages[a].Version < o.Packages[b].Version
				}
				return o.Packages[a].Name < o.Packages[b].Name
			}) {
				k.Violate("packages are not sorted by name and version")
				return
			}
			c.Count("packages_compared", len(got))
		}
		c.Seen(true, strings.Join(rows, "\n"))
		if i == 0 {
			c.Sample(map[string]any{"rows": rows, "expected": want})
		}
	})
	c.Each("broken", c.N(3000, 50000), func(i int, r *R) {
		k := c.NewCase()
		defer k.Done()
		pkgs := genCSVPkgs(r, r.Range(0, 6))
		var rows []string
		for _, p := range pkgs {
			rows = append(rows, csvRow(p.eco, p.as, p.name, p.ver))
		}
		var bad string
		kind := i % 5
		switch kind {
		case 0:
			bad = r.Pick("npm", "npm,,x", "npm,", ",,", "a,b,c")
		case 1:
			bad = r.Pick("npm,,,1.0.0", "npm,npm,,", ",,,"+r.Sha(), "PyPI,npm,\"\",2")
		case 2:
			bad = r.Pick(",,pkg,", ",npm,pkg,", `"","",pkg,""`)
		case 3:
			bad = r.Pick(`npm,,"unclosed,1.0.0`, `npm,,un"quoted,1.0.0`, `npm,,"x"y,1.0.0`)
		case 4:
			bad = r.Pick("npm,,x", "npm,,,1", ",,pkg,") // in a file with more fields
		}
		pos := r.IntN(len(rows) + 1)
		rows = append(rows[:pos:pos], append([]string{bad}, rows[pos:]...)...)
		if kind == 4 {
			rows = rows[:pos+1] // the broken row is the last one
		}
		c.Mark("broken_rows", fmt.Sprintf("%d:%s", kind, bad[:min(4, len(bad))]))
		var line int
		for _, s := range rows[:pos] {
			line += 1 + strings.Count(s, "\n")
		}
		file := strings.Join(rows, "\n") + r.Pick("", "\n")
		if r.P(.2) && !strings.Contains(file, "line\nbreak") { // blank lines are not rows
			file = strings.ReplaceAll(file, "\n", "\n\n")
			line *= 2
			c.Mark("features", "blank-lines")
		}
		k.Write("x.csv", file)
		k.Write("ok.csv", "npm,,fine,1.0.0\n")
		// a row can span several lines, so that its number is not that of its first line
		names := regexp.MustCompile(fmt.Sprintf(`(?i)(row[^0-9]{0,12}%d|line[^0-9]{0,12}(%d|%d))\b`, pos+1, pos+1, line+1))
		for _, mode := range []string{"row", "file"} {
			var res Res
			wantResults := 0
			if mode == "row" {
				res = k.Run(append([]string{"--json", "--list-packages", "--parse-as", "csv-row", "--"}, rows...)...)
			} else {
				wantResults = 1
				res = k.Run("--json", "--list-packages", "--parse-as", "csv-file", "x.csv", "ok.csv")
			}
			out, err := parseOut(res.Out)
			if err != nil || res.Exit != 127 || len(out.Results) != wantResults {
				k.Violate("row %d (%q) is not valid, which has to be an error without results, but got %v %s", pos+1, bad, err, res)
				return
			}
			if kind == 3 {
				if len(strings.TrimSpace(string(res.Err))) == 0 {
					k.Violate("row %d (%q) cannot be read but nothing is on stderr", pos+1, bad)
					return
				}
			} else if !names.Match(res.Err) {
				k.Violate("the error does not name row %d: %s", pos+1, res.Err)
				return
			}
			c.Count("broken_rows_reported", 1)
		}
		c.Seen(true, "broken"+strings.Join(rows, "\n"))
	})
}

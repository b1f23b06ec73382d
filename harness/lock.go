package main

// Generated lockfiles with the list of packages that they record, and the monitor that
// compares what the detector lists with it.

import (
	"fmt"
	"math/rand/v2"
	"path"
	"sort"
	"strings"
)

// Doc is a well-formed lockfile and what it records.
type Doc struct {
	Format string            // name of the parser, also the name of the main file
	Files  map[string]string // all the files, relative to the directory of the main file
	Want   map[string]int    // package key -> how many times it is recorded
	Once   bool              // repeated records must be listed once
	Feats  map[string]bool
	JSON   bool // a truncated main file is never well-formed

	twinName, twinVersion string
}

// twin sometimes makes two pairs of a document that read the same when name and
// version are glued together, or that have the same name.
func (d *Doc) twin(r *R, n, v string) (string, string) {
	switch {
	case d.twinName != "" && r.P(.35):
		n2, v2 := d.twinName+"1", d.twinVersion
		if r.P(.3) {
			n2 = d.twinName
			d.feat("same-name")
		} else {
			d.feat("glued")
		}
		d.twinName = ""
		return n2, v2
	case d.twinName == "" && r.P(.08) && v != "" && v[0] >= '0' && v[0] <= '9':
		d.twinName, d.twinVersion = n, v
		return n, "1" + v
	}
	return n, v
}

func newDoc(format string) *Doc {
	return &Doc{Format: format, Files: map[string]string{}, Want: map[string]int{}, Feats: map[string]bool{}}
}

func (d *Doc) feat(f string) { d.Feats[d.Format+":"+f] = true }

func pkgKey(eco, name, version, commit string) string {
	return fmt.Sprintf("%s|%s|%s|%s|%s", eco, name, version, commit, eco)
}

func (d *Doc) want(eco, name, version, commit string) {
	d.Want[pkgKey(eco, name, version, commit)]++
}

// compare says what is wrong with the listed packages ("" if nothing is).
func (d *Doc) compare(got []OutPkg) string {
	m := map[string]int{}
	for _, p := range got {
		m[p.Key()]++
	}
	var bad []string
	for k, n := range d.Want {
		g := m[k]
		switch {
		case g == 0:
			bad = append(bad, "not listed: "+k)
		case d.Once && g > 1:
			bad = append(bad, fmt.Sprintf("listed %d times: %s", g, k))
		case g > n:
			bad = append(bad, fmt.Sprintf("recorded %d times but listed %d times: %s", n, g, k))
		}
	}
	for k := range m {
		if d.Want[k] == 0 {
			bad = append(bad, "listed but not recorded: "+k)
		}
	}
	sort.Strings(bad)
	return strings.Join(bad, "\n")
}

func (d *Doc) keys() []string {
	var l []string
	for k := range d.Want {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// ---- JSON with a chosen key order ----

type kv struct {
	k string
	v any // string = raw JSON if it is of type raw
}
type raw string

func jval(v any) string {
	switch t := v.(type) {
	case raw:
		return string(t)
	default:
		return toJSON(v)
	}
}

func jobj(r *R, kvs ...kv) raw {
	l := append([]kv{}, kvs...)
	shuffle(r, l)
	return jobjOrdered(l...)
}

func jobjOrdered(l ...kv) raw {
	var b strings.Builder
	b.WriteString("{")
	for i, e := range l {
		if i > 0 {
			b.WriteString(",\n")
		}
		b.WriteString(toJSON(e.k) + ": " + jval(e.v))
	}
	b.WriteString("}")
	return raw(b.String())
}

// ---- shared vocabulary ----

func (r *R) Sha() string { return r.Hex(40) }

// Rev is a commit, which is listed as it is recorded.
func (r *R) Rev() string {
	if s := r.Sha(); r.P(.95) {
		return s
	}
	return strings.ToUpper(r.Sha())
}

func (r *R) Semver() string {
	v := fmt.Sprintf("%d.%d.%d", r.IntN(4), r.IntN(4), r.IntN(12))
	switch r.IntN(10) {
	case 0:
		v += "-" + r.Pick("alpha", "beta.1", "rc.2", "rc-1", "0", "alpha.0.x-y", "next.20230101")
	case 1:
		v += "+" + r.Pick("build", "build.5", "exp.sha.5114f85", "001")
	case 2:
		if r.P(.3) {
			v += "-" + r.Pick("beta.1", "rc.2") + "+" + r.Pick("build.5", "a1b2")
		}
	}
	return v
}

// crlf rewrites line endings.
func crlf(s string) string { return strings.ReplaceAll(s, "\n", "\r\n") }

func rnd(seed uint64) *rand.Rand { return rand.New(rand.NewPCG(seed, 1)) }

// ---- the monitor ----

type genFn func(r *R) *Doc

var allGens = map[string]genFn{}

func lockfileCheck(c *Ctx, gens []string, n int) {
	c.Each("lock", n, func(i int, r *R) {
		k := c.NewCase()
		defer k.Done()
		var docs []*Doc
		var dirs []string
		cnt := r.Range(1, 5)
		for j := range cnt {
			g := gens[(i*5+j*7+r.IntN(2))%len(gens)]
			if r.P(.004) {
				r.big = r.Pick2(5, 12, 30)
				if g == "npm1" { // which has lists in lists
					r.big = 3
				}
				c.Count("large_documents", 1)
			}
			d := allGens[g](r)
			r.big = 0
			docs = append(docs, d)
			dir := fmt.Sprintf("p%d%s", j, r.Pick("", "-x", " y", "é", ".d"))
			dirs = append(dirs, dir)
			for f, s := range d.Files {
				k.Write(path.Join(dir, f), s)
			}
		}
		args := []string{"--json"}
		mode := "list"
		if r.P(.5) {
			args = append(args, "--list-packages")
		} else {
			mode = "scan"
			args = append(args, "--use-dbs=false", "--no-config")
		}
		var want []string
		for j, d := range docs {
			p := path.Join(dirs[j], d.Format)
			want = append(want, p)
			switch {
			case r.P(.15):
				args = append(args, d.Format+":"+p)
			case r.P(.15) && !strings.Contains(dirs[j], ":") && len(d.Files) == 1:
				args = append(args, dirs[j])
			default:
				args = append(args, p)
			}
		}
		res := k.Run(args...)
		judgeLock(c, k, docs, want, res)
		for _, d := range docs {
			for f := range d.Feats {
				c.Mark("features", f)
			}
			c.Count("packages_expected", len(d.Want))
			c.Seen(len(d.Want) > 0, d.Format+d.Files[d.Format])
		}
		c.Count("runs_"+mode, 1)
		if i == 0 {
			c.Sample(map[string]any{"args": args, "file": docs[0].Files[docs[0].Format], "expected": docs[0].keys()})
		}
	})
}

func judgeLock(c *Ctx, k *Case, docs []*Doc, paths []string, res Res) {
	if res.Exit != 0 {
		k.Violate("well-formed lockfiles (%s) gave %s", strings.Join(paths, ", "), res)
		return
	}
	out, err := parseOut(res.Out)
	if err != nil {
		k.Violate("%v", err)
		return
	}
	if len(out.Results) != len(docs) {
		k.Violate("%d lockfiles were given but %d results were reported", len(docs), len(out.Results))
		return
	}
	for j, d := range docs {
		o := out.Results[j]
		if o.FilePath != paths[j] || o.ParsedAs != d.Format {
			k.Violate("result %d is for %s (parsed as %s), expected %s (parsed as %s)", j, o.FilePath, o.ParsedAs, paths[j], d.Format)
			return
		}
		if s := d.compare(o.Packages); s != "" {
			k.Violate("packages of %s:\n%s", o.FilePath, s)
			return
		}
		c.Count("packages_compared", len(o.Packages))
	}
}

// hugeCheck: a file with a very long line is read completely or reported as an error.
func hugeCheck(c *Ctx, n int, gens map[string]func(r *R, d *Doc, size int)) {
	var names []string
	for g := range gens {
		names = append(names, g)
	}
	sort.Strings(names)
	c.Each("huge", n*len(names), func(i int, r *R) {
		k := c.NewCase()
		defer k.Done()
		g := names[i%len(names)]
		d := allGens[g](r)
		size := []int{3000, 60_000, 65_533, 65_536, 70_000, 140_000, 1_100_000}[r.IntN(7)]
		gens[g](r, d, size)
		for f, s := range d.Files {
			k.Write(path.Join("p", f), s)
		}
		p := "p/" + d.Format
		res := k.Run("--json", "--list-packages", p)
		completeOrError(c, k, d, p, res)
		c.Mark("long_line_sizes", fmt.Sprint(size))
		c.Seen(true, d.Files[d.Format])
	})
}

// truncateCheck: a JSON or XML file that was cut off is an error, never a partial list.
func truncateCheck(c *Ctx, n int, gens []string) {
	c.Each("truncate", n, func(i int, r *R) {
		k := c.NewCase()
		defer k.Done()
		d := allGens[gens[i%len(gens)]](r)
		s := strings.TrimRight(d.Files[d.Format], " \r\n\t")
		cut := r.Range(1, len(s)-1)
		d.Files[d.Format] = s[:cut]
		for f, s := range d.Files {
			k.Write(path.Join("p", f), s)
		}
		p := "p/" + d.Format
		res := k.Run("--json", "--list-packages", p)
		if res.Exit != 127 {
			k.Violate("%s was cut off after %d of %d bytes but gave %s", p, cut, len(s), res)
			return
		}
		if out, err := parseOut(res.Out); err != nil || len(out.Results) != 0 {
			k.Violate("%s was cut off after %d of %d bytes but something was reported for it (%v)", p, cut, len(s), err)
			return
		}
		c.Count("truncations_rejected", 1)
		c.Seen(true, d.Files[d.Format])
	})
}

func completeOrError(c *Ctx, k *Case, d *Doc, p string, res Res) {
	out, err := parseOut(res.Out)
	if err != nil {
		k.Violate("%v", err)
		return
	}
	switch {
	case res.Exit == 127 && len(out.Results) == 0 && len(res.Err) > 0:
		c.Count("long_lines_rejected", 1)
	case res.Exit == 0 && len(out.Results) == 1:
		if s := d.compare(out.Results[0].Packages); s != "" {
			k.Violate("partial list for %s without an error:\n%s", p, s)
		}
		c.Count("long_lines_read", 1)
	default:
		k.Violate("%s was neither read completely nor reported as an error: %s", p, res)
	}
}

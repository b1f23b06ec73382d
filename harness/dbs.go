package main

// Building databases, and reference semantics of advisories.

import (
	"archive/zip"
	"bytes"
	"fmt"
	"hash/crc32"
	"maps"
	"net/http"
	"path"
	"slices"
	"sort"
	"strings"
	"time"
)

// advFiles lays advisories out as files at random depths.
func advFiles(r *R, advs []OSV) map[string]string {
	m := map[string]string{}
	for i, a := range advs {
		dir := r.Pick("", "", "a", "a/b", "b c", "deep/er/still", "advisories/2022", ".hidden", "x.json.d")
		name := fmt.Sprintf("%s%d.json", r.Pick("", "GHSA-", "z-", "é"), i)
		m[path.Join(dir, name)] = a.JSON()
	}
	return m
}

func sortedKeys[V any](m map[string]V) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func (k *Case) WriteAll(dir string, files map[string]string) {
	for _, f := range sortedKeys(files) {
		k.Write(path.Join(dir, f), files[f])
	}
}

// zipBytes packs the files, in the given order.
func zipBytes(files map[string]string, order []string, store bool) []byte {
	var b bytes.Buffer
	w := zip.NewWriter(&b)
	for _, f := range order {
		h := &zip.FileHeader{Name: f, Method: zip.Deflate}
		if store {
			h.Method = zip.Store
		}
		fw, err := w.CreateHeader(h)
		must(err)
		_, err = fw.Write([]byte(files[f]))
		must(err)
	}
	must(w.Close())
	return b.Bytes()
}

func zipOf(r *R, files map[string]string) []byte {
	if r.P(.02) { // real archives are larger than most of these
		files = maps.Clone(files)
		files["README.md"] = r.Hex(r.Range(150_000, 400_000))
	}
	order := sortedKeys(files)
	shuffle(r, order)
	return zipBytes(files, order, r.P(.3))
}

type dbEntry struct{ URL, Type, Name, WD string }

func yamlStr(s string) string { return toJSON(s) }

func configYAML(ignores []string, dbs []dbEntry) string {
	var b strings.Builder
	if len(ignores) > 0 {
		b.WriteString("ignore:\n")
		for _, i := range ignores {
			b.WriteString("  - " + yamlStr(i) + "\n")
		}
	}
	if len(dbs) > 0 {
		b.WriteString("extra-databases:\n")
		for _, d := range dbs {
			b.WriteString("  - url: " + yamlStr(d.URL) + "\n")
			if d.Type != "" {
				b.WriteString("    type: " + yamlStr(d.Type) + "\n")
			}
			if d.Name != "" {
				b.WriteString("    name: " + yamlStr(d.Name) + "\n")
			}
			if d.WD != "" {
				b.WriteString("    working-directory: " + yamlStr(d.WD) + "\n")
			}
		}
	}
	if b.Len() == 0 {
		return "ignore: []\n"
	}
	return b.String()
}

// serveBytes answers every request with the same body, and with the headers that servers use to
// tell versions apart: both, only an ETag or only a Date.
func serveBytes(body []byte) func(http.ResponseWriter, *Req) {
	h := hash64(string(body))
	return func(w http.ResponseWriter, q *Req) {
		if h%4 != 0 {
			w.Header().Set("ETag", fmt.Sprintf(`"%x"`, h))
		}
		if h%4 == 1 {
			w.Header()["Date"] = nil
		} else {
			w.Header().Set("Date", "Mon, 02 Jan 2023 03:04:05 GMT")
		}
		_, _ = w.Write(body)
	}
}

// extraDB makes the advisories available as a dir or zip database and returns its config entry.
func (k *Case) extraDB(r *R, name string, advs []OSV, asZip bool) (dbEntry, *Scenario) {
	files := advFiles(r, advs)
	if !asZip {
		k.Mkdir(name)
		k.WriteAll(name, files)
		return dbEntry{URL: "file:/" + name}, nil
	}
	s := k.c.Scenario(serveBytes(zipOf(r, files)))
	for f, c := range files {
		k.Files[path.Join("zip-"+name, f)] = c
	}
	return dbEntry{URL: k.c.URL(s, "/"+name+"/all.zip")}, s
}

// ---- reference semantics ----

type refPkg struct {
	Eco, As, Name, Ver string
	Commit             string // what mkLock also says about it
}

func (p refPkg) row() string { return csvRow(p.Eco, p.As, p.Name, p.Ver) }
func (p refPkg) key() string {
	k := csvPkg{p.Eco, p.As, p.Name, p.Ver}.key()
	if p.Commit != "" {
		k = fmt.Sprintf("%s|%s|%s|%s|%s", p.Eco, p.Name, p.Ver, p.Commit, p.Eco)
	}
	return k
}

func ecoBase(e string) string { b, _, _ := strings.Cut(e, ":"); return b }

func refEcoEqual(a, b string) bool {
	ab, as, _ := strings.Cut(a, ":")
	bb, bs, _ := strings.Cut(b, ":")
	return ab == bb && (as == "" || bs == "" || as == bs)
}

func refName(eco, name string) string {
	if ecoBase(eco) == "PyPI" {
		return pyNorm(name)
	}
	return name
}

// rung finds the place of a version in a ladder.
func (l ladder) rung(v string) int {
	for i, s := range l {
		for _, x := range s {
			if x == v {
				return i
			}
		}
	}
	return -1
}

// refInRange is the evaluation algorithm of the OSV schema, for events with distinct versions.
func refInRange(l ladder, events []Event, ver string) bool {
	type ev struct {
		at   int
		kind string
	}
	var es []ev
	for _, e := range events {
		for kind, v := range e {
			at := -1
			if !(kind == "introduced" && v == "0") {
				at = l.rung(v)
				if at < 0 {
					panic("unknown version " + v)
				}
			}
			es = append(es, ev{at, kind})
		}
	}
	sort.SliceStable(es, func(i, j int) bool { return es[i].at < es[j].at })
	me := l.rung(ver)
	if me < 0 {
		panic("unknown version " + ver)
	}
	in := false
	for _, e := range es {
		switch e.kind {
		case "introduced":
			if me >= e.at {
				in = true
			}
		case "fixed":
			if me >= e.at {
				in = false
			}
		case "last_affected":
			if me > e.at {
				in = false
			}
		}
	}
	return in
}

func refAffected(a OSV, p refPkg) bool {
	as := p.As
	if as == "" {
		as = p.Eco
	}
	return refAffectedIn(a, p, ladders[ecoBase(as)])
}

func refAffectedIn(a OSV, p refPkg, l ladder) bool {
	if a.Withdrawn != "" {
		return false
	}
	for _, f := range a.Affected {
		if !refEcoEqual(f.Package.Ecosystem, p.Eco) || refName(f.Package.Ecosystem, f.Package.Name) != refName(p.Eco, p.Name) {
			continue
		}
		if len(f.Versions) == 0 && len(f.Ranges) == 0 {
			continue
		}
		if p.Ver == "" {
			return true
		}
		for _, v := range f.Versions {
			if v == p.Ver {
				return true
			}
		}
		for _, g := range f.Ranges {
			if (g.Type == "SEMVER" || g.Type == "ECOSYSTEM") && len(g.Events) > 0 && refInRange(l, g.Events, p.Ver) {
				return true
			}
		}
	}
	return false
}

// genEvents draws events; their order is shuffled, except for those at the same version.
func genEvents(r *R, l ladder) []Event {
	idx := r.Perm(len(l))
	n := r.Range(1, 5)
	if r.P(.4) {
		n = r.Range(1, 2)
	}
	long := r.P(.06) // with so many events that the way of sorting them matters
	if long {
		n = r.Range(6, len(l))
	}
	pts := append([]int{}, idx[:min(n, len(idx))]...)
	sort.Ints(pts)
	var es []Event
	open := false
	if r.P(.45) {
		es = append(es, Event{"introduced": "0"})
		open = true
	}
	for _, p := range pts {
		v := pick(r, l[p])
		switch {
		case !open:
			es = append(es, Event{"introduced": v})
			open = true
		case r.P(.6):
			es = append(es, Event{"fixed": v})
			open = r.P(.08)                      // now and then a second fix without another introduced
			if long && r.P(.6) && p < len(l)-1 { // broken again at once
				es = append(es, Event{"introduced": pick(r, l[p])})
				open = true
			}
		default:
			es = append(es, Event{"last_affected": v})
			open = false
		}
	}
	if r.P(.5) {
		was := slices.Clone(es)
		shuffle(r, es)
		// those at the same version stay in their order
		at := func(e Event) int {
			for kind, v := range e {
				if kind == "introduced" && v == "0" {
					return -1
				}
				return l.rung(v)
			}
			return -1
		}
		next := map[int][]Event{}
		for _, e := range was {
			next[at(e)] = append(next[at(e)], e)
		}
		for i, e := range es {
			x := at(e)
			es[i], next[x] = next[x][0], next[x][1:]
		}
	}
	return es
}

func timeStr(r *R) string {
	return time.Date(2015+r.IntN(10), 3, 1+r.IntN(20), r.IntN(24), 0, 0, 0, time.UTC).Format(time.RFC3339)
}

func crc32of(b []byte) uint32 { return crc32.ChecksumIEEE(b) }

func rp(eco, as, name, ver string) refPkg { return refPkg{Eco: eco, As: as, Name: name, Ver: ver} }

package main

import (
	"fmt"
	"slices"
	"strings"
)

func init() { checks["C08"] = check{level: "exploration", net: true, f: checkC08} }

// linked says if two advisories are the same issue: same ID, naming each other, or sharing an alias
func linked(aID string, aAl []string, bID string, bAl []string) bool {
	if aID == bID || slices.Contains(aAl, bID) || slices.Contains(bAl, aID) {
		return true
	}
	for _, x := range aAl {
		if slices.Contains(bAl, x) {
			return true
		}
	}
	return false
}

func linkedOut(a, b OutVuln) bool { return linked(a.ID, a.Aliases, b.ID, b.Aliases) }

func checkC08(c *Ctx) {
	c.Rule = "one to four databases (dir, zip and API) of advisories with random alias graphs (chains, cycles, shared foreign aliases, duplicates, withdrawn or non-affecting aliases), run alone and together: the result of the combination has to be the fold of the results alone, alias-free, sound and complete; non-trivial when at least one advisory is dropped as an alias; distinct by databases"
	c.Assume = []string{"which advisory of a group of aliases within a single database is reported is left open"}
	c.Each("alias", c.N(2200, 40000), func(i int, r *R) {
		k := c.NewCase()
		defer k.Done()
		pkgs := []refPkg{rp("npm", "", "one", "1.0.0"), rp("npm", "", "two", "1.0.0"), rp("PyPI", "", "one", "1.0")}
		if r.P(.5) {
			pkgs = append(pkgs, rp("npm", "", "one", "1.10.0"))
		}
		pool := []string{}
		for j := range r.Range(3, 9) {
			pool = append(pool, fmt.Sprintf("%s-%d", r.Pick("GHSA", "CVE", "SNYK", "cve"), j))
		}
		if r.P(.35) { // names that are nearly the same
			for range r.Range(1, 3) {
				x := pick(r, pool)
				pool = append(pool, r.Pick(strings.ToLower(x), strings.ToUpper(x), x+"0", " "+x, x[:len(x)-1], x+" ", "DEBIAN-"+x, "ALPINE-"+x, "UBUNTU-"+x, "CWE-"+x, "MAL-"+x))
			}
		}
		p := r.Float64() * .5
		nDB := r.Range(1, 4)
		var advs [][]OSV
		var entries []dbEntry
		var apis []bool
		for d := range nDB {
			var l []OSV
			isAPI := r.P(.2)
			for j := range r.Range(1, 6) {
				a := OSV{ID: pick(r, pool), Summary: fmt.Sprintf("db%d-%d", d, j)}
				if r.P(.6) { // when it changed says nothing about which one to report
					a.Published, a.Modified = timeStr(r), timeStr(r)
				}
				if isAPI && slices.ContainsFunc(l, func(x OSV) bool { return x.ID == a.ID }) {
					continue
				}
				for _, x := range append([]string{"FOREIGN-1", "FOREIGN-2"}, pool...) {
					if r.P(p * .5) {
						a.Aliases = append(a.Aliases, x)
					}
				}
				if r.P(.15) { // one that is known under many names
					if r.P(.7) {
						a.Aliases = append(a.Aliases, r.Pick("FOREIGN-1", "FOREIGN-2"))
					}
					for n := range r.Range(4, 40) {
						a.Aliases = append(a.Aliases, fmt.Sprintf("OTHER-%d-%d-%d", d, j, n))
					}
					c.Mark("alias_counts", "many")
				}
				shuffle(r, a.Aliases)
				if r.P(.08) {
					a.Withdrawn = timeStr(r)
				}
				for range r.Range(1, 2) {
					q := pick(r, pkgs)
					es := []Event{{"introduced": "0"}}
					if r.P(.3) {
						es = append(es, Event{"fixed": r.Pick("1.0.0", "1.2.0", "0.9.0")})
						if q.Eco == "PyPI" {
							es = []Event{{"introduced": "0"}, {"fixed": r.Pick("1.0", "1.2", "0.9")}}
						}
					}
					a.Affected = append(a.Affected, Affected{Package: Pkg{q.Name, q.Eco}, Ranges: []Rng{{"ECOSYSTEM", es}}})
				}
				l = append(l, a)
			}
			advs = append(advs, l)
			apis = append(apis, isAPI)
			if isAPI {
				mine := l
				s := c.Scenario(apiHandler(l, func(q apiQ) []string {
					var w []string
					for _, a := range mine {
						if refAffected(a, rp(q.Package.Ecosystem, "", q.Package.Name, q.Version)) {
							w = append(w, a.ID)
						}
					}
					return w
				}))
				defer c.EndScenario(s)
				entries = append(entries, dbEntry{URL: c.URL(s, "/v1")})
				c.Mark("database_kinds", "api")
				continue
			}
			asZip := r.P(.25)
			e, s := k.extraDB(r, fmt.Sprintf("db%d", d), l, asZip)
			if s != nil {
				defer c.EndScenario(s)
			}
			c.Mark("database_kinds", map[bool]string{true: "zip", false: "dir"}[asZip])
			entries = append(entries, e)
		}
		var rows []string
		for _, q := range pkgs {
			rows = append(rows, q.row())
		}
		scan := func(dir string, es []dbEntry, flags ...string) ([]OutPkg, bool) {
			k.Write(dir+"/.osv-detector.yml", configYAML(nil, es))
			k.Write(dir+"/p.csv", strings.Join(rows, "\n"))
			res := k.Run(append(flags, "--json", "--use-dbs=false", "csv-file:"+dir+"/p.csv")...)
			out, err := parseOut(res.Out)
			if err != nil || len(out.Results) != 1 || len(out.Results[0].Packages) != len(pkgs) || (res.Exit != 0 && res.Exit != 1) {
				k.Violate("unexpected outcome: %v %s", err, res)
				return nil, false
			}
			return out.Results[0].Packages, true
		}
		var alone [][]OutPkg
		for d := range entries {
			o, ok := scan(fmt.Sprintf("alone%d", d), entries[d:d+1])
			if !ok {
				return
			}
			alone = append(alone, o)
		}
		es := append([]dbEntry{}, entries...)
		if r.P(.2) { // listing a database twice changes nothing
			es = append(es, pick(r, entries))
			c.Mark("modes", "listed-twice")
		}
		all, ok := scan("all", es)
		if !ok {
			return
		}
		// ignoring does not change what is an alias of what
		var ignores, flags []string
		for _, x := range pool {
			if r.P(.3) {
				ignores = append(ignores, x)
				flags = append(flags, "--ignore="+x)
			}
		}
		some, ok := scan("all", es, flags...)
		if !ok {
			return
		}
		dropped := 0
		for pi := range pkgs {
			ref := all[pi]
			var q refPkg
			for _, x := range pkgs {
				if x.key() == ref.Key() {
					q = x
				}
			}
			// alone: alias-free, sound and complete by direct links
			for d := range entries {
				o := alone[d][pi]
				var aff []OSV
				for _, a := range advs[d] {
					if refAffected(a, q) {
						aff = append(aff, a)
					}
				}
				for x, a := range o.Vulns {
					for _, b := range o.Vulns[x+1:] {
						if linkedOut(a, b) {
							k.Violate("%s: both %s and %s are reported although they are aliases", o.Key(), a.ID, b.ID)
							return
						}
					}
					if !slices.ContainsFunc(aff, func(b OSV) bool { return b.ID == a.ID && b.Summary == a.Summary }) {
						k.Violate("%s: %s (%s) is reported but does not affect it", o.Key(), a.ID, a.Summary)
						return
					}
				}
				for _, a := range aff {
					if !slices.ContainsFunc(o.Vulns, func(b OutVuln) bool { return linked(a.ID, a.Aliases, b.ID, b.Aliases) }) {
						k.Violate("%s: %s affects it but neither it nor an alias is reported (got %v)", o.Key(), a.ID, ids(o.Vulns))
						return
					}
				}
				dropped += len(aff) - len(o.Vulns)
			}
			// together: the first database wins
			var want []OutVuln
			for d := range entries {
				cand := alone[d][pi].Vulns
				if apis[d] { // an API gives everything that it knows, in its order
					cand = nil
					for _, a := range advs[d] {
						if refAffected(a, q) {
							cand = append(cand, OutVuln{ID: a.ID, Aliases: a.Aliases, Summary: a.Summary})
						}
					}
				}
				for _, v := range cand {
					if slices.ContainsFunc(want, func(b OutVuln) bool { return linkedOut(v, b) }) {
						dropped++
						continue
					}
					want = append(want, v)
				}
			}
			show := func(vs []OutVuln) []string {
				var l []string
				for _, v := range vs {
					l = append(l, v.ID+" "+v.Summary)
				}
				return l
			}
			if s := diff(show(want), show(ref.Vulns)); s != "" {
				k.Violate("%s with all %d databases: %s", ref.Key(), nDB, s)
				return
			}
			var left, ign []OutVuln
			for _, v := range want {
				if slices.Contains(ignores, v.ID) {
					ign = append(ign, v)
				} else {
					left = append(left, v)
				}
			}
			if s, t := diff(show(left), show(some[pi].Vulns)), diff(show(ign), show(some[pi].Ignored)); s != "" || t != "" || some[pi].Key() != ref.Key() {
				k.Violate("%s with all %d databases and %v ignored: %s; ignored: %s", ref.Key(), nDB, ignores, s, t)
				return
			}
			if len(ref.Ignored) != 0 {
				k.Violate("%s: nothing is ignored but %v is listed as ignored", ref.Key(), ids(ref.Ignored))
				return
			}
			c.Count("packages_judged", 1)
		}
		c.Count("dropped_as_alias", dropped)
		c.Seen(dropped > 0, toJSON(advs))
		if i == 0 {
			c.Sample(map[string]any{"databases": advs})
		}
	})
}

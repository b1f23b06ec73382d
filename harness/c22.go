package main

import (
	"encoding/json"
	"fmt"
	"path"
	"slices"
	"strings"
)

func init() { checks["C22"] = check{level: "exploration", net: true, f: checkC22} }

type rawOut struct {
	Results []json.RawMessage `json:"results"`
}

func rawResults(b []byte) ([]string, error) {
	if _, err := parseOut(b); err != nil {
		return nil, err
	}
	var o rawOut
	if err := json.Unmarshal(b, &o); err != nil {
		return nil, err
	}
	var l []string
	for _, x := range o.Results {
		l = append(l, string(x))
	}
	return l, nil
}

func checkC22(c *Ctx) {
	c.Rule = "lockfiles of all formats in directories with different configs (some unusable, some lockfiles broken), checked each on its own, all together and together in another order, against dir, zip, API and osv.dev databases with alias graphs and advisories that affect several ecosystems; the JSON result of each lockfile has to be byte for byte the same in all runs, in the order of the arguments; non-trivial when at least two lockfiles have results; distinct by world and flags"
	c.Assume = []string{"databases that cannot be loaded or queried are left out, as their failure is judged per run"}
	c.Each("sum", c.N(900, 16000), func(i int, r *R) {
		al := 0.0
		if r.P(.6) {
			al = .1
		}
		w := newWorld(c, r, worldOpts{zips: true, apis: true, aliases: al, minDBs: 1, dirs: 4, broken: .1, invalid: .08, badDB: .05})
		k := w.k
		defer w.Done()
		if r.P(.4) { // lockfiles of other formats, too
			for j := range r.Range(1, 2) {
				d := allGens[pick(r, sortedKeys(allGens))](r)
				dir := fmt.Sprintf("g%d", j)
				for f, s := range d.Files {
					k.Write(path.Join(dir, f), s)
				}
				w.Conf[dir] = w.genConfig(dir, worldOpts{})
				p := path.Join(dir, d.Format)
				w.Files = append(w.Files, &wFile{arg: p, path: p, dir: dir, parser: d.Format})
			}
			shuffle(r, w.Files)
		}
		if i%40 == 7 { // a large repository
			w.grow(r.Range(16, 45), worldOpts{})
			c.Mark("modes", "many lockfiles")
		}
		if r.P(.3) { // packages that differ in a single thing
			e := pick(r, sortedKeys(worldVersions))
			p := refPkg{Eco: e, Name: worldName(e, pick(r, worldNames)), Ver: pick(r, worldVersions[e])}
			x := ""
			if r.P(.6) { // a version that is before or after the fix, depending on the rules
				p = refPkg{Eco: r.Pick("x", "npm", "PyPI", "Debian"), As: r.Pick("npm", "PyPI"), Name: "twin", Ver: r.Pick("1.0.0-1", "1.0.0+1", "1.0.0.1", "1.0.0")}
				x = r.Pick("1.0.0", "1.0.0-1", "1.0.0a1", "1.0.0.0")
				e, _ := k.extraDB(r, "twindb", []OSV{inRange("TWIN-1", p.Eco, "twin", "ECOSYSTEM", Event{"introduced": "0"}, Event{"fixed": x}), inRange("TWIN-2", p.Eco, "twin", "ECOSYSTEM", Event{"introduced": x})}, r.P(.2))
				x = configYAML(nil, []dbEntry{e})
			}
			for j := range r.Range(2, 3) {
				q := p
				if j > 0 {
					switch r.IntN(6) {
					case 0, 1:
						q.As = pick(r, sortedKeys(worldVersions))
					case 2:
						q.Eco, q.As = pick(r, sortedKeys(worldVersions)), e
					case 3:
						q.Ver = ""
					case 4:
						q.Eco += ":1"
					case 5:
						q.Name = strings.ToUpper(q.Name)
					}
				}
				dir := fmt.Sprintf("twin%d", j)
				k.Write(path.Join(dir, "p.csv"), q.row()+"\n")
				if x != "" {
					k.Write(path.Join(dir, ".osv-detector.yml"), x)
					w.Conf[dir] = &wConfig{}
				} else {
					w.Conf[dir] = w.genConfig(dir, worldOpts{})
				}
				w.Files = append(w.Files, &wFile{arg: "csv-file:" + dir + "/p.csv", path: dir + "/p.csv", dir: dir, parser: "csv-file"})
			}
			shuffle(r, w.Files)
			c.Mark("modes", "twins")
		}
		args := []string{"--json"}
		eco := map[string][]OSV{}
		zips := map[string][]byte{}
		useDBs := r.P(.5) || i%40 == 7
		for _, e := range append(sortedKeys(worldVersions), "Hex", "CRAN") {
			eco[e] = worldAdvs(r, "osv-"+e, w.IDs, al)
			zips[e] = zipOf(r, advFiles(r, eco[e]))
		}
		osv := c.Scenario(osvHost(eco, zips))
		defer c.EndScenario(osv)
		if !useDBs {
			args = append(args, "--use-dbs=false")
		} else {
			c.Mark("modes", "osv.dev databases")
		}
		if r.P(.15) {
			args = append(args, "--use-api")
			c.Mark("modes", "osv.dev API")
		}
		for _, f := range []string{"--no-config", "--no-config-ignores", "--no-config-databases"} {
			if r.P(.12) {
				args = append(args, f)
				c.Mark("modes", f)
			}
		}
		for range r.IntN(3) {
			args = append(args, "--ignore", pick(r, w.IDs))
		}
		if r.P(.2) {
			k.Write("global.yml", w.genConfigContent(&wConfig{}, worldOpts{}))
			args = append(args, "--config", "global.yml")
			c.Mark("modes", "--config")
		}
		if r.P(.1) {
			args = append(args, "--list-packages")
			c.Mark("modes", "--list-packages")
		}
		run := func(as ...string) ([]string, int, bool) {
			res := k.RunX(Run{Args: append(args[:len(args):len(args)], as...), Token: osv.Token})
			l, err := rawResults(res.Out)
			if err != nil {
				k.Violate("%v: %s", err, res)
				return nil, 0, false
			}
			return l, res.Exit, true
		}
		alone := map[*wFile][]string{}
		code := map[*wFile]int{}
		n := 0
		for _, f := range w.Files {
			l, x, ok := run(f.arg)
			if !ok {
				return
			}
			if len(l) > 1 {
				k.Violate("one lockfile (%s) was given but there are %d results", f.arg, len(l))
				return
			}
			alone[f], code[f] = l, x
			n += len(l)
		}
		for round := range 3 {
			fs := slices.Clone(w.Files)
			if round > 0 {
				shuffle(r, fs)
			}
			if round == 2 { // only some of them, and some twice
				fs = append(fs[:r.Range(1, len(fs)):len(fs)], pick(r, fs))
			}
			var as, want []string
			anyVuln, anyErr := false, false
			for _, f := range fs {
				as = append(as, f.arg)
				want = append(want, alone[f]...)
				anyVuln = anyVuln || code[f] == 1
				anyErr = anyErr || code[f] == 127
			}
			got, x, ok := run(as...)
			if !ok {
				return
			}
			if !slices.Equal(want, got) {
				for j := range max(len(want), len(got)) {
					a, b := "nothing", "nothing"
					if j < len(want) {
						a = want[j]
					}
					if j < len(got) {
						b = got[j]
					}
					if a != b {
						k.Violate("result %d of the run over %q is different from checking the lockfile alone:\nalone    %s\ntogether %s", j+1, as, a, b)
						break
					}
				}
				return
			}
			// together it is as bad as the worst of them
			if x == 0 && (anyVuln || anyErr) || x == 1 && !anyVuln || x == 127 && !anyErr || x == 128 {
				k.Violate("exit code %d for %q, which alone give vulnerabilities: %v, errors: %v", x, as, anyVuln, anyErr)
				return
			}
			c.Count("combined_runs", 1)
			c.Count("results_compared", len(got))
		}
		c.Seen(n > 1, fmt.Sprint(args, i))
		if i == 0 {
			c.Sample(map[string]any{"args": args, "files": strings.Join(sortedKeys(k.Files), " ")})
		}
	})
}

package main

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"
)

// ---- advisories ----

type Event map[string]string

type Rng struct {
	Type   string  `json:"type"`
	Events []Event `json:"events"`
}

type Pkg struct {
	Name      string `json:"name"`
	Ecosystem string `json:"ecosystem"`
}

type Affected struct {
	Package  Pkg      `json:"package"`
	Versions []string `json:"versions,omitempty"`
	Ranges   []Rng    `json:"ranges,omitempty"`
}

type OSV struct {
	ID        string     `json:"id"`
	Aliases   []string   `json:"aliases,omitempty"`
	Summary   string     `json:"summary,omitempty"`
	Details   string     `json:"details,omitempty"`
	Published string     `json:"published,omitempty"`
	Modified  string     `json:"modified,omitempty"`
	Withdrawn string     `json:"withdrawn,omitempty"`
	Affected  []Affected `json:"affected,omitempty"`
}

func (o OSV) JSON() string { return toJSON(o) }

func toJSON(v any) string {
	b, err := json.Marshal(v)
	must(err)
	return string(b)
}

// simple advisory: everything of the package is affected
func allVersions(id, eco, name string) OSV {
	return OSV{ID: id, Summary: "about " + id, Affected: []Affected{{Package: Pkg{name, eco}, Ranges: []Rng{{"SEMVER", []Event{{"introduced": "0"}}}}}}}
}

func inRange(id, eco, name, typ string, events ...Event) OSV {
	return OSV{ID: id, Affected: []Affected{{Package: Pkg{name, eco}, Ranges: []Rng{{typ, events}}}}}
}

// ---- output of the detector ----

type OutVuln struct {
	ID      string   `json:"id"`
	Aliases []string `json:"aliases"`
	Summary string   `json:"summary"`
	Details string   `json:"details"`

	Published string     `json:"published"`
	Modified  string     `json:"modified"`
	Affected  []Affected `json:"affected"`
}

type OutPkg struct {
	Name      string    `json:"name"`
	Version   string    `json:"version"`
	Commit    string    `json:"commit"`
	Ecosystem string    `json:"ecosystem"`
	CompareAs string    `json:"compareAs"`
	Vulns     []OutVuln `json:"vulnerabilities"`
	Ignored   []OutVuln `json:"ignored"`
}

func (p OutPkg) Key() string {
	return fmt.Sprintf("%s|%s|%s|%s|%s", p.Ecosystem, p.Name, p.Version, p.Commit, p.CompareAs)
}

type OutFile struct {
	FilePath string   `json:"filePath"`
	ParsedAs string   `json:"parsedAs"`
	Packages []OutPkg `json:"packages"`
}

type Output struct {
	Results []OutFile `json:"results"`
}

// parseOut requires stdout to be exactly one JSON document.
func parseOut(b []byte) (Output, error) {
	var o Output
	d := json.NewDecoder(strings.NewReader(string(b)))
	if err := d.Decode(&o); err != nil {
		return o, fmt.Errorf("stdout is not a JSON document: %w", err)
	}
	if rest := strings.TrimSpace(string(b)[d.InputOffset():]); rest != "" {
		return o, fmt.Errorf("stdout has data after the JSON document: %q", rest)
	}
	var raw map[string]json.RawMessage
	_ = json.Unmarshal(b, &raw)
	if _, ok := raw["results"]; !ok {
		return o, fmt.Errorf("stdout has no results property")
	}
	return o, nil
}

func ids(vs []OutVuln) []string {
	l := make([]string, 0, len(vs))
	for _, v := range vs {
		l = append(l, v.ID)
	}
	return l
}

func sorted(s []string) []string {
	t := append([]string{}, s...)
	sort.Strings(t)
	return t
}

func eqStr(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// diff describes the difference of two multisets, or "" if they are equal.
func diff(want, got []string) string {
	m := map[string]int{}
	for _, s := range want {
		m[s]++
	}
	for _, s := range got {
		m[s]--
	}
	var miss, extra []string
	for s, n := range m {
		for ; n > 0; n-- {
			miss = append(miss, s)
		}
		for ; n < 0; n++ {
			extra = append(extra, s)
		}
	}
	if len(miss)+len(extra) == 0 {
		return ""
	}
	sort.Strings(miss)
	sort.Strings(extra)
	return fmt.Sprintf("missing %q, unexpected %q", miss, extra)
}

func csvField(s string) string {
	if strings.ContainsAny(s, ",\"\n\r") {
		return `"` + strings.ReplaceAll(s, `"`, `""`) + `"`
	}
	return s
}

func csvRow(f ...string) string {
	var l []string
	for _, s := range f {
		l = append(l, csvField(s))
	}
	return strings.Join(l, ",")
}

// Command veriflib does what a job file says with the public packages, and prints what they
// gave. It is laid into the module of the detector by an overlay, so that it can be compiled
// against it; it decides nothing by itself.
package main

import (
	"encoding/json"
	"errors"
	"os"

	"github.com/g-rath/osv-detector/pkg/database"
	"github.com/g-rath/osv-detector/pkg/lockfile"
)

type op struct {
	Op     string
	Path   string
	As     string
	Rows   []string
	Config database.Config
	Off    bool
	Batch  int
	Names  []string
	Checks [][]lockfile.PackageDetails
	IDs    []string
	OSVs   database.Vulnerabilities
}

type res struct {
	Err        string
	Kind       string // of the error
	Lock       lockfile.Lockfile
	Text       string
	Ecosystems []lockfile.Ecosystem
	Found      [][]string // IDs for every package of every check, one after the other
	Lens       []int      // how many results each check gave
	CheckErrs  []string
	All        []string
	Current    []string
	Affected   map[string][]bool
	Name       string
	Identifier string
	Strings    []string
	OSVs       database.Vulnerabilities
	Bools      []bool
}

func list(vs []database.OSV) []string {
	l := []string{}
	for i := range vs {
		l = append(l, vs[i].ID)
	}

	return l
}

func do(o op) (r res) {
	fail := func(err error) {
		if err == nil {
			return
		}
		r.Err = err.Error()
		if r.Err == "" {
			r.Err = "error"
		}
		switch {
		case errors.Is(err, lockfile.ErrParserNotFound):
			r.Kind = "parser"
		case errors.Is(err, database.ErrUnsupportedDatabaseType):
			r.Kind = "type"
		case errors.Is(err, database.ErrOfflineDatabaseNotFound), errors.Is(err, database.ErrOfflineDatabaseNotSupported):
			r.Kind = "offline"
		case errors.Is(err, database.ErrDirPathWrongProtocol):
			r.Kind = "protocol"
		case errors.Is(err, database.ErrUnexpectedStatusCode), errors.Is(err, database.ErrAPIUnexpectedResponse):
			r.Kind = "status"
		case errors.Is(err, database.ErrAPIResponseNotJSON):
			r.Kind = "json"
		case errors.Is(err, os.ErrNotExist):
			r.Kind = "missing"
		}
	}
	switch o.Op {
	case "parse", "csvfile", "csvrows":
		var l lockfile.Lockfile
		var err error
		switch o.Op {
		case "parse":
			l, err = lockfile.Parse(o.Path, o.As)
		case "csvfile":
			l, err = lockfile.FromCSVFile(o.Path, o.As)
		default:
			l, err = lockfile.FromCSVRows(o.Path, o.As, o.Rows)
		}
		fail(err)
		if err == nil {
			r.Lock, r.Text, r.Ecosystems = l, l.String(), l.Packages.Ecosystems()
		}
	case "find":
		p, as := lockfile.FindParser(o.Path, o.As)
		r.Text = as
		r.Bools = []bool{p != nil}
	case "lists":
		r.Strings = lockfile.ListParsers()
		r.Ecosystems = lockfile.KnownEcosystems()
	case "load":
		db, err := database.Load(o.Config, o.Off, o.Batch, o.Names)
		fail(err)
		if err != nil {
			return r
		}
		r.Name, r.Identifier = db.Name(), db.Identifier()
		for _, ps := range o.Checks {
			got, err := db.Check(ps)
			if err != nil {
				r.CheckErrs = append(r.CheckErrs, err.Error())
			}
			r.Lens = append(r.Lens, len(got))
			for _, vs := range got {
				r.Found = append(r.Found, list(vs))
			}
		}
		var vulns func(bool) []database.OSV
		switch t := db.(type) {
		case *database.DirDB:
			vulns = t.Vulnerabilities
		case *database.ZipDB:
			vulns = t.Vulnerabilities
		case *database.APIDB:
			r.OSVs = t.FetchAll(o.IDs)
			for _, id := range o.IDs {
				v, err := t.Fetch(id)
				s := "ok " + v.ID
				if err != nil {
					fail(err)
					s, r.Err, r.Kind = "error "+r.Kind, "", ""
				}
				r.Strings = append(r.Strings, s)
			}

			return r
		default:
			return r
		}
		all := vulns(true)
		r.All, r.Current = list(all), list(vulns(false))
		r.Affected = map[string][]bool{}
		for i := range all {
			v := &all[i]
			for _, ps := range o.Checks[:min(1, len(o.Checks))] {
				for _, p := range ps {
					r.Affected[v.ID] = append(r.Affected[v.ID], v.IsAffected(p))
				}
			}
		}
	case "unique":
		r.Strings = list(o.OSVs.Unique())
		for i := range o.OSVs {
			r.Bools = append(r.Bools, o.OSVs[:i].Includes(o.OSVs[i]))
		}
		b, err := json.Marshal(o.OSVs)
		fail(err)
		r.Text = string(b)
	}

	return r
}

func main() {
	b, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	var ops []op
	if err := json.Unmarshal(b, &ops); err != nil {
		panic(err)
	}
	var out []res
	for _, o := range ops {
		out = append(out, do(o))
	}
	if err := json.NewEncoder(os.Stdout).Encode(out); err != nil {
		panic(err)
	}
}

package main

// A fake osv.dev API that answers from a set of advisories.

import (
	"encoding/json"
	"net/http"
	"net/url"
	"strings"
)

type apiQ struct {
	Commit  string `json:"commit"`
	Version string `json:"version"`
	Package struct {
		Name      string `json:"name"`
		Ecosystem string `json:"ecosystem"`
	} `json:"package"`
}

// apiHandler serves querybatch and vulns below any path prefix.
func apiHandler(advs []OSV, match func(q apiQ) []string) func(http.ResponseWriter, *Req) {
	byID := map[string]OSV{}
	for _, a := range advs {
		byID[a.ID] = a
	}
	return func(w http.ResponseWriter, q *Req) {
		switch {
		case strings.HasSuffix(q.Path, "/querybatch"):
			qs, err := parseBatch(q.Body)
			if err != nil {
				http.Error(w, "bad request", http.StatusBadRequest)
				return
			}
			_, _ = w.Write([]byte(batchAnswer(qs, match)))
		default:
			_, id, ok := strings.Cut(q.Path, "/vulns/")
			id, _ = url.PathUnescape(id)
			a, known := byID[id]
			if !ok || !known {
				http.Error(w, "not found", http.StatusNotFound)
				return
			}
			_, _ = w.Write([]byte(a.JSON()))
		}
	}
}

func parseBatch(b []byte) ([]apiQ, error) {
	var p struct {
		Queries []apiQ `json:"queries"`
	}
	err := json.Unmarshal(b, &p)
	return p.Queries, err
}

func batchAnswer(qs []apiQ, match func(q apiQ) []string) string {
	type idv struct {
		ID       string `json:"id"`
		Modified string `json:"modified"`
	}
	type res struct {
		Vulns []idv `json:"vulns,omitempty"`
	}
	var out struct {
		Results []res `json:"results"`
	}
	out.Results = []res{}
	for _, q := range qs {
		var x res
		for _, id := range match(q) {
			x.Vulns = append(x.Vulns, idv{id, "2023-01-01T00:00:00Z"})
		}
		out.Results = append(out.Results, x)
	}
	return toJSON(out)
}

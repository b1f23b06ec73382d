package main

import (
	"crypto/sha256"
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
)

// snapshot records everything about the files below a directory (but access times).
func snapshot(dir string) map[string]string {
	m := map[string]string{}
	_ = filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return nil
		}
		i, err := os.Lstat(p)
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(dir, p)
		st := i.Sys().(*syscall.Stat_t)
		s := fmt.Sprintf("%v ino=%d uid=%d nlink=%d mtime=%d ctime=%d", i.Mode(), st.Ino, st.Uid, st.Nlink, i.ModTime().UnixNano(), st.Ctim.Nano())
		switch {
		case i.Mode().IsRegular():
			b, _ := os.ReadFile(p)
			s += fmt.Sprintf(" size=%d sha=%x", len(b), sha256.Sum256(b))
		case i.Mode()&fs.ModeSymlink != 0:
			t, _ := os.Readlink(p)
			s += " -> " + t
		}
		m[rel] = s
		return nil
	})
	return m
}

// snapDiff lists the paths that are different.
func snapDiff(a, b map[string]string) []string {
	var l []string
	for p, s := range a {
		t, ok := b[p]
		switch {
		case !ok:
			l = append(l, "deleted "+p)
		case s != t:
			l = append(l, "changed "+p)
		}
	}
	for p := range b {
		if _, ok := a[p]; !ok {
			l = append(l, "created "+p)
		}
	}
	sort.Strings(l)
	return l
}

// parseConfigYAML reads the little YAML that configs consist of.
func parseConfigYAML(s string) (ignores []string, dbs []map[string]string, err error) {
	section := ""
	for n, line := range strings.Split(s, "\n") {
		t := strings.TrimRight(line, " \r")
		if strings.TrimSpace(t) == "" || strings.HasPrefix(strings.TrimSpace(t), "#") {
			continue
		}
		if x := strings.TrimSpace(t); x == "---" || x == "{}" && section == "" {
			continue
		}
		bad := func() error { return fmt.Errorf("line %d is not understood: %q", n+1, line) }
		trim := strings.TrimLeft(t, " ")
		indented := trim != t
		if !indented && !strings.HasPrefix(trim, "- ") {
			k, v, ok := strings.Cut(trim, ":")
			if !ok {
				return nil, nil, bad()
			}
			section = k
			v = strings.TrimSpace(v)
			if v != "" && v != "[]" && v != "null" {
				return nil, nil, bad()
			}
			continue
		}
		item, isItem := strings.CutPrefix(trim, "- ")
		item = strings.TrimSpace(item)
		switch section {
		case "ignore":
			if !isItem {
				return nil, nil, bad()
			}
			ignores = append(ignores, yamlScalar(item))
		case "extra-databases":
			if isItem {
				dbs = append(dbs, map[string]string{})
			}
			k, v, ok := strings.Cut(item, ":")
			if !ok || len(dbs) == 0 {
				return nil, nil, bad()
			}
			dbs[len(dbs)-1][strings.TrimSpace(k)] = yamlScalar(strings.TrimSpace(v))
		default:
			return nil, nil, bad()
		}
	}
	return
}

func yamlScalar(s string) string {
	switch {
	case len(s) >= 2 && s[0] == '"' && s[len(s)-1] == '"':
		return strings.NewReplacer(`\"`, `"`, `\\`, `\`, `\n`, "\n").Replace(s[1 : len(s)-1])
	case len(s) >= 2 && s[0] == '\'' && s[len(s)-1] == '\'':
		return strings.ReplaceAll(s[1:len(s)-1], "''", "'")
	}
	return s
}

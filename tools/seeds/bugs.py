bug('b01-fixed-prerelease','C07',[('pkg/database/osv.go','				affected = order < 0\n','				// the release comes after all of its pre-releases\n				affected = order < 0 && !strings.HasPrefix(e.Fixed, pkg.Version+"-")\n')],
 'an ecosystem where a suffix makes a version later (post releases, revisions) and a fix that is such a version of the package version','the package at the version right before its fixed revision is not reported',r"""
mkdir db; adv X-1 PyPI foo '"ranges":[{"type":"ECOSYSTEM","events":[{"introduced":"0"},{"fixed":"1.0-1"}]}]' >db/1.json
printf 'extra-databases:\n  - url: file:/db\n' >.osv-detector.yml
printf 'PyPI,,foo,1.0\n' >x.csv
osvd --use-dbs=false csv-file:x.csv | grep -q X-1 || bad "1.0 is not affected by < 1.0-1 (its first post release)"
printf 'PyPI,,foo,1.0-2\n' >x.csv
osvd --use-dbs=false csv-file:x.csv | grep -q X-1 && bad "1.0-2 is affected"
""")
bug('b02-cache-query','C13',[('pkg/database/zip.go','	hash := sha256.Sum256([]byte(db.ArchiveURL))\n','	archiveURL, _, _ := strings.Cut(db.ArchiveURL, "?")\n	hash := sha256.Sum256([]byte(archiveURL))\n')],
 'two zip databases whose URLs differ only in the query, the second used while the cache of the first exists','the cache entry of another URL is served (offline, or on a 304)',r'''
python3 "$HERE/srv.py" "$D/port" & for i in $(seq 50); do [ -s "$D/port" ] && break; sleep .1; done; P=$(cat "$D/port")
printf 'npm,,foo,1.0.0\n' >x.csv
cfg() { printf "extra-databases:\n  - url: http://127.0.0.1:$P/all.zip?v=$1\n    type: zip\n" >.osv-detector.yml; }
cfg 1; osvd --use-dbs=false csv-file:x.csv 2>&1 | grep -q V-1 || bad "no V-1"
cfg 2; osvd --use-dbs=false csv-file:x.csv 2>&1 | grep -q V-2 || bad "no V-2"
cfg 1; osvd --use-dbs=false --offline csv-file:x.csv 2>&1 | grep -q V-1 || bad "the findings are those of the other archive"
''',{'srv.py':'''import http.server,io,json,sys,zipfile
class H(http.server.BaseHTTPRequestHandler):
    def log_message(self,*a): pass
    def do_GET(self):
        v=self.path.split("=")[-1]
        b=io.BytesIO(); z=zipfile.ZipFile(b,"w")
        z.writestr("a.json",json.dumps({"id":"V-"+v,"affected":[{"package":{"ecosystem":"npm","name":"foo"},"ranges":[{"type":"SEMVER","events":[{"introduced":"0"}]}]}]})); z.close()
        self.send_response(200); self.send_header("ETag",'"%s"'%v); self.send_header("Content-Length",str(len(b.getvalue()))); self.end_headers(); self.wfile.write(b.getvalue())
s=http.server.ThreadingHTTPServer(("127.0.0.1",0),H)
open(sys.argv[1],"w").write(str(s.server_port)); s.serve_forever()
'''})
bug('b03-extra-results','C15',[('pkg/database/api-check.go','	if len(pkgs) != len(vulnerabilities) {','	if len(pkgs) > len(vulnerabilities) {')],
 'several batches, one of which is answered with more results than it had queries','the answers of all following batches are reported on the wrong packages, without an error',r"""
python3 "$HERE/srv.py" "$D/port" & for i in $(seq 50); do [ -s "$D/port" ] && break; sleep .1; done; P=$(cat "$D/port")
for i in 1 2 3; do echo "npm,,p$i,1.0.0"; done >x.csv
printf "extra-databases:\n  - url: http://127.0.0.1:$P/v1\n" >.osv-detector.yml
osvd --use-dbs=false --batch-size 1 csv-file:x.csv >o 2>e; [ $? = 127 ] || bad "a mis-sized answer is not an error"
""",{'srv.py':"""import http.server,json,sys
class H(http.server.BaseHTTPRequestHandler):
    def log_message(self,*a): pass
    def out(self,b):
        b=json.dumps(b).encode(); self.send_response(200); self.send_header("Content-Length",str(len(b))); self.end_headers(); self.wfile.write(b)
    def do_POST(self):
        q=json.loads(self.rfile.read(int(self.headers["Content-Length"])))["queries"]
        r=[{} if x["package"]["name"]!="p2" else {"vulns":[{"id":"V-2"}]} for x in q]
        if q[0]["package"]["name"]=="p1": r.append({})
        self.out({"results":r})
    def do_GET(self):
        self.out({"id":self.path.split("/")[-1]})
s=http.server.ThreadingHTTPServer(("127.0.0.1",0),H)
open(sys.argv[1],"w").write(str(s.server_port)); s.serve_forever()
"""})
bug('b04-memo-race','C16',[('pkg/database/mem-check.go','	VulnerabilitiesCount int\n','	VulnerabilitiesCount int\n\n	// packages of the same name tend to be checked one after the other\n	lastHash  string\n	lastVulns []OSV\n'),
 ('pkg/database/mem-check.go','	if vulns, ok := db.vulnerabilities[hash]; ok {\n','	if db.lastHash != hash {\n		db.lastHash = hash\n		db.lastVulns = db.vulnerabilities[hash]\n	}\n\n	if vulns := db.lastVulns; vulns != nil {\n')],
 'several goroutines checking packages against one loaded database','the lookup is remembered in the shared database without synchronisation: a data race, and findings of another package',r'''
cp "$HERE/race.go.txt" "$D/race.go"; mkdir db
for i in 1 2 3 4 5 6 7 8; do adv V-$i npm p$i "$ANY" >db/$i.json; done
R=$OLDPWD
echo "{\"Replace\":{\"$R/internal/demorace/main.go\":\"$D/race.go\"}}" >"$D/o.json"
(cd "$R" && CGO_ENABLED=1 go build -buildvcs=false -race -overlay "$D/o.json" -o "$D/race" ./internal/demorace) || exit 2
"$D/race" || bad "concurrent checks race or differ"
''',{'race.go.txt':'''package main

import (
	"fmt"
	"os"
	"sync"

	"github.com/g-rath/osv-detector/internal"
	"github.com/g-rath/osv-detector/pkg/database"
)

func main() {
	db, err := database.NewDirDB(database.Config{URL: "file:/db", Type: "dir"}, true, nil)
	if err != nil {
		panic(err)
	}
	var wg sync.WaitGroup
	for g := 1; g <= 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			name := fmt.Sprintf("p%d", g)
			for range 2000 {
				v, _ := db.Check([]internal.PackageDetails{{Name: name, Version: "1.0.0", Ecosystem: "npm", CompareAs: "npm"}})
				if len(v[0]) != 1 || v[0][0].ID != fmt.Sprintf("V-%d", g) {
					fmt.Println("wrong result for", name, v)
					os.Exit(1)
				}
			}
		}()
	}
	wg.Wait()
}
'''})
bug('b05-config-leak','C10',[('main.go','			config = &con\n		} else {','			if con.FilePath != "" || config.FilePath == "" {\n				config = &con\n			}\n		} else {')],
 'a lockfile without a config after a lockfile of another directory that has one','the config of the previous lockfile is used for lockfiles without a config',r'''
mkdir a b db; adv V-1 npm foo "$ANY" >db/1.json
printf 'ignore: [V-1]\nextra-databases:\n  - url: file:/db\n' >a/.osv-detector.yml
printf 'npm,,foo,1.0.0\n' >a/x.csv; cp a/x.csv b/x.csv
osvd --use-dbs=false csv-file:a/x.csv csv-file:b/x.csv | grep -A9 '^b/x.csv' | grep -q 'ignored' && bad "b/x.csv is checked with the config of a"
''')
bug('b06-zip-reused-struct','C12',[('pkg/database/zip.go','	UpdatedAt        string\n','	UpdatedAt        string\n\n	// holds the advisory being read, to avoid allocating one for each file\n	current OSV\n'),
 ('pkg/database/zip.go','	var osv OSV\n\n	if err := json.Unmarshal(content, &osv); err != nil {','	db.current.Affected = nil\n	db.current.Aliases = nil\n\n	if err := json.Unmarshal(content, &db.current); err != nil {'),
 ('pkg/database/zip.go','	db.addVulnerability(osv, pkgNames)','	db.addVulnerability(db.current, pkgNames)')],
 'a withdrawn advisory before others in a zip database','advisories after a withdrawn one in a zip are taken to be withdrawn too, unlike in a directory',r"""
python3 "$HERE/srv.py" "$D/port" & for i in $(seq 50); do [ -s "$D/port" ] && break; sleep .1; done; P=$(cat "$D/port")
printf 'npm,,foo,1.0.0\n' >x.csv; printf "extra-databases:\n  - url: http://127.0.0.1:$P/all.zip\n" >.osv-detector.yml
osvd --use-dbs=false csv-file:x.csv 2>&1 | grep -q V-2 || bad "V-2 is lost because the advisory before it is withdrawn"
""",{'srv.py':"""import http.server,io,json,sys,zipfile
class H(http.server.BaseHTTPRequestHandler):
    def log_message(self,*a): pass
    def do_GET(self):
        b=io.BytesIO(); z=zipfile.ZipFile(b,"w")
        a={"affected":[{"package":{"ecosystem":"npm","name":"foo"},"ranges":[{"type":"SEMVER","events":[{"introduced":"0"}]}]}]}
        z.writestr("a.json",json.dumps(dict(a,id="V-1",withdrawn="2020-01-01T00:00:00Z")))
        z.writestr("b.json",json.dumps(dict(a,id="V-2"))); z.close()
        self.send_response(200); self.send_header("Content-Length",str(len(b.getvalue()))); self.end_headers(); self.wfile.write(b.getvalue())
s=http.server.ThreadingHTTPServer(("127.0.0.1",0),H)
open(sys.argv[1],"w").write(str(s.server_port)); s.serve_forever()
"""})
bug('b07-update-skip','C11',[('internal/configer/update.go','	raw.Ignore = ignores\n','	// avoid rewriting configs that are up to date\n	if len(ignores) > 0 && len(raw.Ignore) == len(ignores) {\n		return nil\n	}\n\n	raw.Ignore = ignores\n')],
 'an update where the number of advisories stays the same while their IDs change','the config keeps stale ignores when as many advisories were found as were ignored before',r'''
mkdir db; adv V-2 npm foo "$ANY" >db/1.json
printf 'ignore:\n  - V-1\nextra-databases:\n  - url: file:/db\n' >.osv-detector.yml; printf 'npm,,foo,1.0.0\n' >x.csv
osvd --use-dbs=false --update-config-ignores csv-file:x.csv >/dev/null
grep -q V-2 .osv-detector.yml || bad "V-2 is not in the config"
grep -q V-1 .osv-detector.yml && bad "V-1 is still in the config"
''')
bug('b08-api-error-quiet','C17',[('main.go','			r.PrintErrorf("%s", color.RedString(fmt.Sprintf(\n				"  an api error','			r.PrintTextf("%s", color.RedString(fmt.Sprintf(\n				"  an api error')],
 'an API database that fails to answer while everything else is fine','a failed API check exits with 0',r'''
printf 'npm,,foo,1.0.0\n' >x.csv; printf 'extra-databases:\n  - url: http://127.0.0.1:9/v1\n' >.osv-detector.yml
osvd --use-dbs=false csv-file:x.csv >/dev/null 2>&1 && bad "exit code 0 though the API could not be queried"
''')
bug('b09-gem-commit-leak','C04',[('pkg/lockfile/parse-gemfile-lock.go','			parser.currentGemCommit = ""\n			parser.state = parserStateSource\n','			if line != lockfileSectionPATH {\n				parser.currentGemCommit = ""\n			}\n\n			parser.state = parserStateSource\n')],
 'a PATH section after a GIT section in Gemfile.lock','gems from a path get the commit of the preceding git section',r'''
printf 'GIT\n  remote: https://x.test/a.git\n  revision: c0ffee0000000000000000000000000000000000\n  specs:\n    a (1.0)\n\nPATH\n  remote: b\n  specs:\n    b (2.0)\n\nGEM\n  remote: https://rubygems.org/\n  specs:\n    c (3.0)\n\nPLATFORMS\n  ruby\n\nDEPENDENCIES\n  a!\n  b!\n  c\n\nBUNDLED WITH\n   2.3\n' >Gemfile.lock
osvd --list-packages Gemfile.lock | grep 'b@2.0' | grep -q c0ffee && bad "b has the commit of a"
''')
bug('b10-req-include-relative','C02',[('pkg/lockfile/parse-requirements-txt.go','			if _, ok := requiredAlready[ar]; ok {\n				continue\n			}\n\n			requiredAlready[ar] = struct{}{}\n','			if _, ok := requiredAlready[filepath.Base(ar)]; ok {\n				continue\n			}\n\n			requiredAlready[filepath.Base(ar)] = struct{}{}\n')],
 'requirements.txt including two files that have the same name in different directories','the second of two included files with the same base name is not read',r'''
mkdir a b; printf -- '-r a/base.txt\n-r b/base.txt\n' >requirements.txt; echo 'one==1.0' >a/base.txt; echo 'two==2.0' >b/base.txt
o=$(osvd --list-packages requirements.txt); grep -q one@1.0 <<<"$o" && grep -q two@2.0 <<<"$o" || bad "an included file is missing: $o"
''')
bug('b11-npm-file-nested','C01',[('pkg/lockfile/parse-npm-lock.go','		if detail.Dependencies != nil {','		if detail.Dependencies != nil && !strings.HasPrefix(detail.Version, "file:") {')],
 'package-lock.json v1 with packages nested below a file: dependency','packages nested below file: dependencies are dropped',r"""
cat >package-lock.json <<'E'
{"name":"x","version":"1.0.0","lockfileVersion":1,"dependencies":{"a":{"version":"file:a","dependencies":{"b":{"version":"2.0.0"}}}}}
E
osvd --list-packages package-lock.json | grep -q 'b@2.0.0' || bad "b is not listed"
""")
bug('b12-first-alias','C08',[('pkg/database/osv.go','		if osv.ID == alias || slices.Contains(osv.Aliases, alias) {','		// aliases are sorted, so the same ones come first\n		if osv.ID == alias || (len(osv.Aliases) > 0 && osv.Aliases[0] == alias) {')],
 'two advisories that share an alias which is not the first of either','advisories sharing an alias are reported twice',r"""
mkdir db
echo '{"id":"A-1","aliases":["P-1","CVE-1"],"affected":[{"package":{"ecosystem":"npm","name":"foo"},"versions":["1.0.0"]}]}' >db/1.json
echo '{"id":"B-1","aliases":["Q-1","CVE-1"],"affected":[{"package":{"ecosystem":"npm","name":"foo"},"versions":["1.0.0"]}]}' >db/2.json
printf 'extra-databases:\n  - url: file:/db\n' >.osv-detector.yml; printf 'npm,,foo,1.0.0\n' >x.csv
osvd --use-dbs=false csv-file:x.csv | grep -q '1 known vulnerability' || bad "advisories with a shared alias are both reported"
""")
bug('b13-ignore-alias','C09',[('main.go','			if slices.Contains(ignores, vulnerability.ID) {','			if slices.ContainsFunc(ignores, func(id string) bool { return strings.EqualFold(id, vulnerability.ID) }) {')],
 'an ignored ID that differs from a reported one only by case','advisories that are not ignored are treated as ignored',r'''
mkdir db; adv ghsa-Abcd npm foo "$ANY" >db/1.json; adv ghsa-aBcd npm foo "$ANY" >db/2.json
printf 'extra-databases:\n  - url: file:/db\n' >.osv-detector.yml; printf 'npm,,foo,1.0.0\n' >x.csv
osvd --use-dbs=false --ignore ghsa-Abcd csv-file:x.csv | grep -q '1 new vulnerability found in x.csv (1 was ignored)' || bad "more than the given ID is ignored"
''')
bug('b14-affected-first-entry','C06',[('pkg/database/osv.go','			if affected.Ranges.affectsVersion(pkg) {\n				return true\n			}\n\n			if pkg.Version == "" {\n				return true\n			}\n','			if affected.Ranges.affectsVersion(pkg) || pkg.Version == "" {\n				return true\n			}\n\n			// there\'s only one entry for each version line, so no other entry can match\n			if len(affected.Ranges) > 1 {\n				return false\n			}\n')],
 'an advisory with several affected entries for one package, the first having several ranges that do not contain the version','later affected entries of the same package are not looked at',r'''
mkdir db; echo '{"id":"V-1","affected":[{"package":{"ecosystem":"npm","name":"foo"},"ranges":[{"type":"SEMVER","events":[{"introduced":"1.0.0"},{"fixed":"1.1.0"}]},{"type":"SEMVER","events":[{"introduced":"2.0.0"},{"fixed":"2.1.0"}]}]},{"package":{"ecosystem":"npm","name":"foo"},"ranges":[{"type":"SEMVER","events":[{"introduced":"3.0.0"},{"fixed":"3.1.0"}]}]}]}' >db/1.json
printf 'extra-databases:\n  - url: file:/db\n' >.osv-detector.yml; printf 'npm,,foo,3.0.5\n' >x.csv
osvd --use-dbs=false csv-file:x.csv | grep -q V-1 || bad "V-1 is missed"
''')
bug('b15-csv-lazy','C05',[('pkg/lockfile/csv.go','	r := csv.NewReader(reader)\n','	r := csv.NewReader(reader)\n	r.TrimLeadingSpace = true\n')],
 'a CSV row whose name or version starts with white space','leading white space of fields is lost',r'''
printf 'npm,, foo,1.0.0\n' >x.csv
osvd --json --list-packages csv-file:x.csv 2>/dev/null | grep -q '"name":" foo"' || bad "the name is not the one of the row"
''')
bug('b16-pkgnames-first','C22',[('main.go','	for _, p := range files {\n		for _, pkg := range p.lockf.Packages {','	for _, p := range files {\n		if p.err != nil {\n			break\n		}\n\n		for _, pkg := range p.lockf.Packages {')],
 'a lockfile that fails to parse before others in one run','after a failing lockfile, the advisories of the packages of later lockfiles are not loaded',r'''
mkdir a b db; adv V-1 npm foo "$ANY" >db/1.json; adv V-2 npm bar "$ANY" >db/2.json
printf 'extra-databases:\n  - url: file:/db\n' >.osv-detector.yml
printf 'npm,,bar,1.0.0\n' >w.csv; printf 'npm,,foo,1.0.0\n' >x.csv; echo '{' >a/package-lock.json
osvd --use-dbs=false csv-file:w.csv a/package-lock.json csv-file:x.csv 2>/dev/null | grep -q V-1 || bad "x.csv is not reported because of the broken lockfile before it"
''')
bug('b17-offline-head','C14',[('pkg/database/zip.go','	if db.Offline {\n		if cache == nil {','	if db.Offline && (cache == nil || cache.Date != "") {\n		if cache == nil {')],
 'an offline run with a cached archive that was stored with an ETag but without a date','an offline run downloads the archive',r'''
python3 "$HERE/srv.py" "$D/port" "$D/log" & for i in $(seq 50); do [ -s "$D/port" ] && break; sleep .1; done; P=$(cat "$D/port")
printf 'npm,,foo,1.0.0\n' >x.csv; printf "extra-databases:\n  - url: http://127.0.0.1:$P/all.zip\n" >.osv-detector.yml
osvd --use-dbs=false csv-file:x.csv >/dev/null 2>&1; n=$(wc -l <"$D/log"); [ "$n" = 1 ] || exit 2
osvd --use-dbs=false --offline csv-file:x.csv >/dev/null 2>&1; n=$(wc -l <"$D/log"); [ "$n" = 1 ] || bad "an offline run used the network"
''',{'srv.py':'''import socket,sys,io,json,zipfile
b=io.BytesIO(); z=zipfile.ZipFile(b,"w")
z.writestr("a.json",json.dumps({"id":"V-1","affected":[]})); z.close(); b=b.getvalue()
s=socket.socket(); s.bind(("127.0.0.1",0)); s.listen(9)
open(sys.argv[1],"w").write(str(s.getsockname()[1]))
while True:
    c,_=s.accept(); c.recv(65536)
    open(sys.argv[2],"a").write("x\\n")
    c.sendall(b'HTTP/1.1 200 OK\\r\\nETag: "1"\\r\\nConnection: close\\r\\nContent-Length: %d\\r\\n\\r\\n'%len(b)+b); c.close()
'''})
bug('b18-json-clean-on-error','C18',[('internal/reporter/reporter.go','	if r.outputAsJSON {\n		target = r.stderr\n	}\n','	if r.outputAsJSON && len(r.results) == 0 {\n		target = r.stderr\n	}\n')],
 'a JSON scan of more than one lockfile','text is mixed into the JSON on stdout after the first result',r'''
printf 'npm,,foo,1.0.0\n' >x.csv
osvd --use-dbs=false --json csv-file:x.csv csv-file:x.csv 2>/dev/null | python3 -c 'import json,sys; json.load(sys.stdin)' 2>/dev/null || bad "stdout is not JSON"
''')
bug('b19-ecosystem-order','C19',[('pkg/lockfile/parse.go','	slices.Sort(slicedEcosystems)\n','	if len(slicedEcosystems) < 4 {\n		slices.Sort(slicedEcosystems)\n	}\n')],
 'packages of four or more ecosystems in one CSV file with the databases of osv.dev in use','the databases are loaded in a random order',r'''
printf 'npm,,a,1.0.0\nPyPI,,b,1.0\nGo,,c,1.0.0\nMaven,,d:d,1.0\ncrates.io,,e,1.0.0\n' >x.csv
osvd --offline csv-file:x.csv >o1 2>e1
for i in $(seq 30); do osvd --offline csv-file:x.csv >o2 2>e2; cmp -s o1 o2 && cmp -s e1 e2 || bad "the output differs between runs"; done
''')
bug('b20-dir-parse-as','C21',[('main.go','						if parseAs != parseAsCsvFile {\n','						if strings.HasPrefix(dir.Name(), ".") && parseAs != "" {\n							continue\n						}\n\n						if parseAs != parseAsCsvFile {\n')],
 'a directory with a hidden file given with a named parser','hidden files of a directory are not checked though a parser was named',r'''
mkdir d; printf 'one==1.0\n' >d/.dev-requirements; printf 'two==2.0\n' >d/b
o=$(osvd --list-packages requirements.txt:d); grep -q one@1.0 <<<"$o" || bad "d/.dev-requirements is left out"
''')
bug('b21-cache-tmp-left','C23',[('pkg/database/zip.go','	body, err = io.ReadAll(resp.Body)\n','	if partial, err := os.Create(cachePath + ".part"); err == nil {\n		body, _ = io.ReadAll(io.TeeReader(resp.Body, partial))\n		partial.Close()\n\n		if int64(len(body)) == resp.ContentLength {\n			os.Remove(partial.Name())\n		}\n	} else {\n		body, _ = io.ReadAll(resp.Body)\n	}\n\n	if resp.ContentLength > int64(len(body)) {\n		err = io.ErrUnexpectedEOF\n	}\n')],
 'an archive that is interrupted while it is downloaded (or sent without a length)','a partial file is left behind in the temporary directory',r'''
python3 "$HERE/srv.py" "$D/port" & for i in $(seq 50); do [ -s "$D/port" ] && break; sleep .1; done; P=$(cat "$D/port")
printf 'npm,,foo,1.0.0\n' >x.csv; printf "extra-databases:\n  - url: http://127.0.0.1:$P/all.zip\n" >.osv-detector.yml
osvd --use-dbs=false csv-file:x.csv >/dev/null 2>&1
[ -z "$(ls "$TMPDIR")" ] || bad "something was left behind: $(ls "$TMPDIR")"
''',{'srv.py':'''import socket,sys
s=socket.socket(); s.bind(("127.0.0.1",0)); s.listen(9)
open(sys.argv[1],"w").write(str(s.getsockname()[1]))
while True:
    c,_=s.accept(); c.recv(65536)
    c.sendall(b'HTTP/1.1 200 OK\\r\\nETag: "1"\\r\\nContent-Length: 5000\\r\\n\\r\\nPK'); c.close()
'''})
bug('b22-mix-three-fields','C20',[('pkg/lockfile/parse-mix-lock.go','		if len(fields) < 4 {','		if len(fields) < 3 {')],
 'a mix.lock line that looks like a dependency with only three fields','a panic on a truncated entry of mix.lock',r"""
printf '%%{\n  "a": {:hex, :a, "1.0",\n}\n' >mix.lock; printf 'npm,,foo,1.0.0\n' >x.csv
osvd --use-dbs=false mix.lock csv-file:x.csv >o 2>&1; c=$?
grep -q 'panic' o && bad "it panics"; [ $c = 2 ] && bad "it crashes"; true
""")
bug('b23-gradle-empty-group','C03',[('pkg/lockfile/parse-gradle-lock.go','strings.HasPrefix(line, "empty=")','strings.HasPrefix(line, "empty")')],
 'a gradle lockfile with a group whose name starts with "empty"','packages of groups starting with "empty" are dropped',r"""
printf '# x\nempty.hands:glove:1.2=compileClasspath\norg.a:b:1.0=compileClasspath\nempty=\n' >gradle.lockfile
osvd --list-packages gradle.lockfile | grep -q 'empty.hands:glove@1.2' || bad "empty.hands:glove is not listed"
""")
bug('b24-shared-config','C24',[('main.go','			config = &configer.Config{\n				FilePath:  config.FilePath,\n				Ignore:    config.Ignore,\n				Databases: config.Databases,\n			}\n','			if config.FilePath == "" {\n				config = &configer.Config{Databases: config.Databases}\n			}\n')],
 'two lockfiles of different ecosystems, a config given with --config and the ecosystem databases','all lockfiles share one config, so that each is checked against the ecosystem databases of the others, too',r'''
python3 "$HERE/fill.py" "$TMPDIR"
mkdir a b; printf 'npm,,foo,1.0.0\n' >a/x.csv; printf 'PyPI,,bar,1.0.0\n' >b/x.csv; echo 'ignore: []' >g.yml
osvd --offline --config g.yml csv-file:a/x.csv csv-file:b/x.csv >o 2>e
[ "$(grep -c 'Using db npm' o)" = 1 ] && [ "$(grep -c 'Using db PyPI' o)" = 1 ] || bad "the database of another lockfile's ecosystem is used"
''',{'fill.py':'''import base64,hashlib,io,json,sys,zipfile
for e in ("npm","PyPI"):
    b=io.BytesIO(); z=zipfile.ZipFile(b,"w"); z.writestr("a.json",json.dumps({"id":"V-"+e,"affected":[]})); z.close()
    u="https://osv-vulnerabilities.storage.googleapis.com/%s/all.zip"%e
    json.dump({"url":u,"etag":"x","date":"","body":base64.b64encode(b.getvalue()).decode()},open(sys.argv[1]+"/osv-detector-"+hashlib.sha256(u.encode()).hexdigest()+"-db.json","w"))
'''})
bug('b25-dir-identity','C25',[('pkg/database/config.go','	if dbc.WorkingDirectory != "" {','	// a directory is read as a whole, only archives are shared between working directories\n	if dbc.WorkingDirectory != "" && dbc.Type != "dir" {')],
 'two entries for the same local directory with different working directories','the second one is taken for a repetition of the first and never loaded',r'''
mkdir -p db/a db/b; adv A-1 npm foo "$ANY" >db/a/1.json; adv B-1 npm foo "$ANY" >db/b/1.json
printf 'extra-databases:\n  - url: file:/db\n    working-directory: a\n  - url: file:/db\n    working-directory: b\n' >.osv-detector.yml
printf 'npm,,foo,1.0.0\n' >x.csv
osvd --use-dbs=false csv-file:x.csv >o 2>e; grep -q A-1 o && grep -q B-1 o || bad "an entry was not loaded"
''')
SRV='''import http.server,io,json,os,sys,zipfile
class H(http.server.BaseHTTPRequestHandler):
    def log_message(self,*a): pass
    def do_GET(self):
        open(sys.argv[1]+".log","a").write("GET "+self.path+"\\n")
        if os.path.exists(sys.argv[1]+".fail"):
            self.send_response(503); self.send_header("Content-Length","0"); self.end_headers(); return
        b=io.BytesIO(); z=zipfile.ZipFile(b,"w")
        z.writestr("a.json",json.dumps({"id":"V-1","affected":[{"package":{"ecosystem":"npm","name":"foo"},"ranges":[{"type":"SEMVER","events":[{"introduced":"0"}]}]}]})); z.close()
        self.send_response(200); self.send_header("ETag",'"1"'); self.send_header("Content-Length",str(len(b.getvalue()))); self.end_headers(); self.wfile.write(b.getvalue())
    def do_POST(self):
        open(sys.argv[1]+".log","a").write("POST "+self.path+"\\n")
        q=json.loads(self.rfile.read(int(self.headers["Content-Length"])))
        if os.path.exists(sys.argv[1]+".fail"):
            os.remove(sys.argv[1]+".fail"); self.send_response(503); self.send_header("Content-Length","0"); self.end_headers(); return
        b=json.dumps({"results":[{} for _ in q["queries"]]}).encode()
        self.send_response(200); self.send_header("Content-Length",str(len(b))); self.end_headers(); self.wfile.write(b)
s=http.server.ThreadingHTTPServer(("127.0.0.1",0),H)
open(sys.argv[1]+".t","w").write(str(s.server_port)); os.rename(sys.argv[1]+".t",sys.argv[1]); s.serve_forever()
'''
START='python3 "$HERE/srv.py" "$D/port" & for i in $(seq 50); do [ -s "$D/port" ] && break; sleep .1; done; P=$(cat "$D/port")\n'
bug('b28-req-include-options','C02',[('pkg/lockfile/parse-requirements-txt.go','''		line = removeComments(line)

		if ar, ok := strings.CutPrefix(line, "-r "); ok {
''','''		if ar, ok := strings.CutPrefix(strings.TrimSpace(line), "-r "); ok {
'''),('pkg/lockfile/parse-requirements-txt.go','''		if isNotRequirementLine(line) {
			continue
		}

		detail''','''		line = removeComments(line)

		if isNotRequirementLine(line) {
			continue
		}

		detail''')],'requirements.txt with a comment after an include','the included file is not found',r"""
echo 'a==1.0' >other.txt; printf -- '-r other.txt # the rest\n' >requirements.txt
osvd --list-packages requirements.txt | grep -q 'a@1.0' || bad "a@1.0 is missing"
""")
bug('b31-gem-plugin-source','C04',[('pkg/lockfile/parse-gemfile-lock.go','''			parser.currentGemCommit = ""
			parser.state = parserStateSource
''','''			if line != lockfileSectionPLUGIN {
				parser.currentGemCommit = ""
			}

			parser.state = parserStateSource
''')],'a PLUGIN SOURCE section after a GIT section in Gemfile.lock','gems of the plugin source get the commit of the git section',r"""
printf 'GIT\n  remote: https://github.com/o/a\n  revision: 0123456789abcdef0123456789abcdef01234567\n  specs:\n    a (1.0)\n\nPLUGIN SOURCE\n  remote: https://example.com\n  type: x\n  specs:\n    b (2.0)\n' >Gemfile.lock
osvd --list-packages Gemfile.lock | grep 'b@2.0' | grep -q 0123 && bad "b has the commit of a"
osvd --list-packages Gemfile.lock | grep -q 'b@2.0' || bad "b is missing"
""")
bug('b32-go-replace-major','C04',[('pkg/lockfile/parse-go-lock.go','''			// If a version is present on the left side of the arrow (=>),
			// only that specific version of the module is replaced
			s := replace.Old.Path + "@" + replace.Old.Version
''','''			// If a version is present on the left side of the arrow (=>),
			// only that specific version of the module is replaced
			s := replace.Old.Path + "@" + strings.TrimSuffix(replace.Old.Version, "+incompatible")
''')],'go.mod replacing a specific +incompatible version','the replacement is not applied',r"""
printf 'module x\n\ngo 1.20\n\nrequire a.test/b v2.0.0+incompatible\n\nreplace a.test/b v2.0.0+incompatible => c.test/d v1.2.3\n' >go.mod
osvd --list-packages go.mod | grep -q 'c.test/d@1.2.3' || bad "the replacement is missing"
""")
bug('b33-csv-comments','C05',[('pkg/lockfile/csv.go','	r := csv.NewReader(reader)\n','	r := csv.NewReader(reader)\n	r.Comment = \'#\'\n')],'a row whose first field starts with a hash','the row is silently skipped',r"""
osvd --list-packages --parse-as csv-row 'npm,,a,1.0.0' '#npm,,b,1.0.0' | grep -q 'b@1.0.0' || bad "the second row is skipped"
""")
bug('b34-csv-field-count','C05',[('pkg/lockfile/csv.go','	r := csv.NewReader(reader)\n','	r := csv.NewReader(reader)\n	r.TrimLeadingSpace = false\n	r.FieldsPerRecord = 0\n	r.ReuseRecord = true\n'),('pkg/lockfile/csv.go','	if compareAs == "" {\n		compareAs = ecosystem\n	}\n','	if strings.TrimSpace(string(compareAs)) == "" {\n		compareAs = ecosystem\n	}\n')],'a row whose second field is only white space','the package is compared as its own ecosystem instead of what was asked for',r"""
osvd --json --list-packages --parse-as csv-row 'npm, ,a,1.0.0' | grep -q '"compareAs":" "' || bad "the second field is not used"
""")
bug('b35-version-fold','C06',[('pkg/database/osv.go','slices.Contains(affected.Versions, pkg.Version)','slices.ContainsFunc(affected.Versions, func(v string) bool { return strings.EqualFold(v, pkg.Version) })')],'an advisory that lists a version differing only by case','the package is reported though its version is not listed',r"""
mkdir db; adv X-1 Maven a:b '"versions":["1.0-RC1"]' >db/1.json
printf 'extra-databases:\n  - url: file:/db\n' >.osv-detector.yml
echo 'Maven,,a:b,1.0-rc1' >x.csv; osvd --use-dbs=false csv-file:x.csv | grep -q X-1 && bad "1.0-rc1 is not listed"
echo 'Maven,,a:b,1.0-RC1' >x.csv; osvd --use-dbs=false csv-file:x.csv | grep -q X-1 || bad "1.0-RC1 is listed"
""")
bug('b36-pypi-prefilter','C12',[('pkg/database/zip.go','slices.Contains(names, affected.Package.NormalizedName())','slices.Contains(names, affected.Package.Name)')],'a PyPI advisory whose package name is not in normal form','the advisory is not loaded for the packages being checked',r"""
mkdir db; adv X-1 PyPI Foo_Bar "$ANY" >db/1.json
printf 'extra-databases:\n  - url: file:/db\n' >.osv-detector.yml
echo 'PyPI,,foo-bar,1.0' >x.csv; osvd --use-dbs=false csv-file:x.csv | grep -q X-1 || bad "X-1 is missing"
""")
bug('b37-ignored-alias','C08',[('main.go','if vulnerabilities.Includes(vulnerability) || ignored.Includes(vulnerability) {','if vulnerabilities.Includes(vulnerability) {')],'two databases with aliased advisories, the first of which is ignored','the aliased advisory is reported although what it is an alias of is already listed',r"""
mkdir db db2; echo '{"id":"A-1","aliases":["CVE-1"],"affected":[{"package":{"ecosystem":"npm","name":"foo"},'"$ANY"'}]}' >db/1.json
echo '{"id":"B-1","aliases":["CVE-1"],"affected":[{"package":{"ecosystem":"npm","name":"foo"},'"$ANY"'}]}' >db2/1.json
printf 'extra-databases:\n  - url: file:/db\n  - url: file:/db2\n' >.osv-detector.yml
echo 'npm,,foo,1.0.0' >x.csv; osvd --use-dbs=false --ignore A-1 csv-file:x.csv | grep -q B-1 && bad "B-1 is reported"; exit 0
""")
bug('b38-config-fallback','C10',[('internal/configer/load.go','''	if err == nil {
		return config, nil
	}

	if !errors.Is(err, os.ErrNotExist) {
		return config, err
	}

	config, err = Load(''','''	if err == nil {
		return config, nil
	}

	if pathErr := new(os.PathError); !errors.As(err, &pathErr) {
		return config, err
	}

	config, err = Load(''')],'a .osv-detector.yml that is a directory or cannot be read','it is silently treated as not being there',r"""
mkdir -p .osv-detector.yml; echo 'npm,,foo,1.0.0' >x.csv
osvd --use-dbs=false csv-file:x.csv; [ $? = 127 ] || bad "the unreadable config is ignored"
""")
bug('b39-update-only-new','C11',[('main.go','			for _, pkg := range report.Packages {\n				for _, vul := range pkg.Vulnerabilities','			for _, pkg := range report.Packages {\n				if len(pkg.Vulnerabilities) == 0 {\n					continue\n				}\n\n				for _, vul := range pkg.Vulnerabilities')],'a package all of whose advisories are ignored already, next to one with new ones','the existing ignores of the package are lost',r"""
mkdir db; adv A-1 npm foo "$ANY" >db/1.json; adv B-1 npm bar "$ANY" >db/2.json
printf 'ignore:\n  - A-1\nextra-databases:\n  - url: file:/db\n' >.osv-detector.yml
printf 'npm,,foo,1.0.0\nnpm,,bar,1.0.0\n' >x.csv
osvd --use-dbs=false --update-config-ignores csv-file:x.csv >/dev/null; grep -q A-1 .osv-detector.yml || bad "A-1 was dropped"
grep -q B-1 .osv-detector.yml || bad "B-1 was not added"
""")
bug('b40-dir-hidden','C12',[('pkg/database/dir.go','		if !strings.HasSuffix(info.Name(), ".json") {\n','		if info.IsDir() && path != p && strings.HasPrefix(info.Name(), ".") {\n			return filepath.SkipDir\n		}\n\n		if !strings.HasSuffix(info.Name(), ".json") {\n')],'a dir database with advisories in a hidden directory','they are not loaded, unlike from a zip',r"""
mkdir -p db/.x; adv A-1 npm foo "$ANY" >db/.x/1.json
printf 'extra-databases:\n  - url: file:/db\n' >.osv-detector.yml; echo 'npm,,foo,1.0.0' >x.csv
osvd --use-dbs=false csv-file:x.csv | grep -q A-1 || bad "A-1 is missing"
""")
bug('b42-offline-local-api','C14',[('pkg/database/api.go','	if offline {\n		return nil, ErrOfflineDatabaseNotSupported\n	}\n','	// apis that are running locally do not need to be online\n	if offline && !strings.HasPrefix(config.URL, "http://") {\n		return nil, ErrOfflineDatabaseNotSupported\n	}\n'),('pkg/database/api.go','	"net/url"\n','	"net/url"\n	"strings"\n')],'an offline run with an API database that has an http: URL','the API is queried',START+r"""
printf "extra-databases:\n  - url: http://127.0.0.1:$P/v1\n" >.osv-detector.yml; echo 'npm,,foo,1.0.0' >x.csv
osvd --offline --use-dbs=false csv-file:x.csv >/dev/null 2>&1; [ $? = 127 ] || bad "no error"; [ -e "$D/port.log" ] && bad "requests were made"
""",{'srv.py':SRV})
bug('b43-retry-unavailable','C15',[('pkg/database/api-check.go','	if err != nil {\n		return [][]ObjectWithID{}, fmt.Errorf("%w: %w", ErrAPIRequestFailed, err)\n	}\n\n	defer resp.Body.Close()\n','	if err != nil {\n		return [][]ObjectWithID{}, fmt.Errorf("%w: %w", ErrAPIRequestFailed, err)\n	}\n\n	if resp.StatusCode == http.StatusServiceUnavailable {\n		resp.Body.Close()\n\n		return db.checkBatch(pkgs)\n	}\n\n	defer resp.Body.Close()\n')],'an API that answers a batch with 503','the batch is sent again and the failure is not reported',START+r"""
printf "extra-databases:\n  - url: http://127.0.0.1:$P/v1\n" >.osv-detector.yml; echo 'npm,,foo,1.0.0' >x.csv
touch "$D/port.fail"; osvd --use-dbs=false csv-file:x.csv >/dev/null 2>&1; [ $? = 127 ] || bad "no error"; [ "$(grep -c POST "$D/port.log")" = 1 ] || bad "the package was queried more than once"
""",{'srv.py':SRV})
bug('b44-later-parse-error','C17',[('main.go','			r.PrintErrorf("Error, %s\\n", result.err)\n			exitCode = 127\n','			r.PrintErrorf("Error, %s\\n", result.err)\n\n			if exitCode == 0 {\n				exitCode = 127\n			}\n')],'a lockfile that cannot be parsed after one with vulnerabilities','exit code 1 instead of 127',r"""
mkdir db a b; adv A-1 npm foo "$ANY" >db/1.json
printf 'extra-databases:\n  - url: file:/db\n' >a/.osv-detector.yml; echo 'npm,,foo,1.0.0' >a/x.csv; echo '{' >b/package-lock.json
osvd --use-dbs=false csv-file:a/x.csv b/package-lock.json >/dev/null 2>&1; [ $? = 127 ] || bad "not 127"
""")
bug('b45-percent-result','C18',[('internal/reporter/reporter.go','	fmt.Fprint(r.stdout, result.String())\n','	fmt.Fprintf(r.stdout, result.String()) //nolint:govet\n')],'an advisory or package with a percent sign in its text','the text output is garbled',r"""
mkdir db; echo '{"id":"A-1","summary":"100%d safe","affected":[{"package":{"ecosystem":"npm","name":"foo"},'"$ANY"'}]}' >db/1.json
printf 'extra-databases:\n  - url: file:/db\n' >.osv-detector.yml; echo 'npm,,foo,1.0.0' >x.csv
osvd --use-dbs=false csv-file:x.csv | grep -q '100%d safe' || bad "the summary is garbled"
""")
bug('b46-update-lines','C19',[('main.go','	slices.Sort(lines)\n\n	for _, line := range lines {','	for _, line := range lines {')],'--update-config-ignores with several configs','the lines are in random order',r"""
mkdir db; adv A-1 npm foo "$ANY" >db/1.json; F=
for i in 1 2 3 4 5 6; do mkdir $i; printf 'ignore: []\nextra-databases:\n  - url: file:/db\n' >$i/.osv-detector.yml; echo 'npm,,foo,1.0.0' >$i/x.csv; F="$F csv-file:$i/x.csv"; done
osvd --use-dbs=false --update-config-ignores $F >/dev/null; osvd --use-dbs=false --update-config-ignores $F >o1
for i in 1 2 3 4 5 6 7 8; do osvd --use-dbs=false --update-config-ignores $F >o2; cmp -s o1 o2 || bad "the output differs"; done
""")
bug('b48-dir-symlinks','C21',[('main.go','						if dir.IsDir() {\n							continue\n						}\n','						if !dir.Type().IsRegular() {\n							continue\n						}\n')],'a directory in which a lockfile is a symbolic link','the lockfile is not checked',r"""
mkdir d; echo '{"lockfileVersion":3,"packages":{"node_modules/a":{"version":"1.0.0"}}}' >real.json; ln -s ../real.json d/package-lock.json
osvd --list-packages d | grep -q 'a@1.0.0' || bad "the link is not followed"
""")
bug('b49-check-memo','C22',[('pkg/database/mem-check.go','	VulnerabilitiesCount int\n}','	VulnerabilitiesCount int\n\n	mu      sync.Mutex\n	checked map[string]Vulnerabilities\n}'),('pkg/database/mem-check.go','import (\n','import (\n	"sync"\n\n'),
 ('pkg/database/mem-check.go','		vulnerabilities = append(vulnerabilities, db.VulnerabilitiesAffectingPackage(pkg))\n','''		key := string(pkg.Ecosystem) + "#" + pkg.Name + "@" + pkg.Version

		db.mu.Lock()
		vulns, ok := db.checked[key]
		db.mu.Unlock()

		if !ok {
			vulns = db.VulnerabilitiesAffectingPackage(pkg)

			db.mu.Lock()
			if db.checked == nil {
				db.checked = make(map[string]Vulnerabilities)
			}
			db.checked[key] = vulns
			db.mu.Unlock()
		}

		vulnerabilities = append(vulnerabilities, vulns)
''')],'the same package in two lockfiles, compared as different ecosystems','the second one gets the findings of the first',r"""
mkdir db; adv A-1 x foo '"ranges":[{"type":"ECOSYSTEM","events":[{"introduced":"0"},{"fixed":"1.0-1"}]}]' >db/1.json
printf 'extra-databases:\n  - url: file:/db\n' >.osv-detector.yml
echo 'x,PyPI,foo,1.0' >1.csv; echo 'x,npm,foo,1.0' >2.csv
osvd --json --use-dbs=false csv-file:2.csv >two 2>/dev/null; osvd --json --use-dbs=false csv-file:1.csv csv-file:2.csv >both 2>/dev/null
[ "$(grep -o A-1 two | wc -l)" = 0 ] || exit 0; [ "$(grep -o A-1 both | wc -l)" = 1 ] || bad "the second one depends on the first"
""")
bug('b50-make-tmp','C23',[('pkg/database/zip.go','	if err == nil {\n		//nolint:gosec // being world readable is fine\n','	if err == nil {\n		_ = os.MkdirAll(filepath.Dir(cachePath), 0750)\n		//nolint:gosec // being world readable is fine\n')],'a TMPDIR that does not exist','directories are created',START+r"""
printf "extra-databases:\n  - url: http://127.0.0.1:$P/all.zip\n" >.osv-detector.yml; echo 'npm,,foo,1.0.0' >x.csv
TMPDIR=$D/none/x osvd --use-dbs=false csv-file:x.csv >/dev/null 2>&1; [ -e "$D/none" ] && bad "a directory was created"
""",{'srv.py':SRV})
bug('b51-ecosystem-versionless','C24',[('pkg/lockfile/parse.go','	for _, pkg := range ps {\n		ecosystems[pkg.Ecosystem] = struct{}{}\n','	for _, pkg := range ps {\n		// there is nothing to compare\n		if pkg.Version == "" && pkg.Commit == "" {\n			continue\n		}\n\n		ecosystems[pkg.Ecosystem] = struct{}{}\n')],'an ecosystem of which only packages without a version are checked','its database is not used',r"""
echo 'npm,,foo,' >x.csv
HTTPS_PROXY=http://127.0.0.1:9 osvd csv-file:x.csv >o 2>e; [ $? = 127 ] || bad "the database of npm is not used"
""")
bug('b52-dir-escapes','C25',[('pkg/database/dir.go','strings.TrimPrefix(u.Path, "/")','strings.TrimPrefix(u.EscapedPath(), "/")')],'a file: URL with escapes','the directory is not found',r"""
mkdir 'my db'; adv A-1 npm foo "$ANY" >'my db/1.json'
printf 'extra-databases:\n  - url: file:/my%%20db\n' >.osv-detector.yml; echo 'npm,,foo,1.0.0' >x.csv
osvd --use-dbs=false csv-file:x.csv 2>/dev/null | grep -q A-1 || bad "A-1 is missing"
""")
bug('b53-ignore-config-flags','C09',[('main.go','		ignores = append(ignores, globalIgnores...)\n','		// an empty config still is a config\n		if config.FilePath == "" || !*noConfigIgnores {\n			ignores = append(ignores, globalIgnores...)\n		}\n')],'--no-config-ignores together with --ignore and a config','the ignores given as flags are dropped, too',r"""
mkdir db; adv A-1 npm foo "$ANY" >db/1.json
printf 'ignore: []\nextra-databases:\n  - url: file:/db\n' >.osv-detector.yml; echo 'npm,,foo,1.0.0' >x.csv
osvd --use-dbs=false --no-config-ignores --ignore A-1 csv-file:x.csv >/dev/null; [ $? = 0 ] || bad "A-1 is not ignored"
""")
DB="mkdir db; printf 'extra-databases:\\n  - url: file:/db\\n' >.osv-detector.yml\n"
bug('b56-npm-dedupe-key','C01',[('pkg/lockfile/parse-npm-lock.go','		details[finalName+"@"+finalVersion] = PackageDetails{','		details[finalName+finalVersion] = PackageDetails{')],'two packages whose name and version give the same text when put together','one of the two is not listed',r"""
echo '{"lockfileVersion":3,"packages":{"node_modules/lib1":{"version":"1.0.0"},"node_modules/lib":{"version":"11.0.0"}}}' >package-lock.json
[ "$(osvd --list-packages package-lock.json | grep -c 'npm: lib')" = 2 ] || bad "one is missing"
""")
bug('b57-req-visited','C22',[('pkg/lockfile/parse-requirements-txt.go','	return parseRequirementsTxt(pathToLockfile, map[string]struct{}{})\n','	requiredMutex.Lock()\n	defer requiredMutex.Unlock()\n\n	return parseRequirementsTxt(pathToLockfile, required)\n'),('pkg/lockfile/parse-requirements-txt.go','const PipEcosystem Ecosystem = "PyPI"\n','const PipEcosystem Ecosystem = "PyPI"\n\n//nolint:gochecknoglobals // files are only read once\nvar required = map[string]struct{}{}\nvar requiredMutex sync.Mutex\n'),('pkg/lockfile/parse-requirements-txt.go','	"strings"\n','	"strings"\n	"sync"\n')],'two requirements.txt that include the same file in one run','the second one lacks the packages of the included file',r"""
echo 'a==1.0' >base.txt; echo '-r base.txt' >1.txt; echo '-r base.txt' >2.txt
[ "$(osvd --list-packages requirements.txt:1.txt requirements.txt:2.txt | grep -c 'a@1.0')" = 2 ] || bad "a is missing"
""")
bug('b58-composer-dev','C03',[('pkg/lockfile/parse-composer-lock.go','	for _, composerPackage := range parsedLockfile.PackagesDev {\n','	required := make(map[string]struct{}, len(packages))\n\n	for _, pkg := range packages {\n		required[pkg.Name] = struct{}{}\n	}\n\n	for _, composerPackage := range parsedLockfile.PackagesDev {\n		// already required outside of development\n		if _, ok := required[composerPackage.Name]; ok {\n			continue\n		}\n\n')],'a package in both packages and packages-dev of composer.lock, with different versions','the one for development is not listed',r"""
echo '{"packages":[{"name":"a/b","version":"1.0"}],"packages-dev":[{"name":"a/b","version":"2.0"}]}' >composer.lock
osvd --list-packages composer.lock | grep -q 'a/b@2.0' || bad "2.0 is missing"
""")
bug('b59-mix-git','C04',[('pkg/lockfile/parse-mix-lock.go','		if strings.HasSuffix(fields[0], ":git") {','		if strings.Contains(line, ":git,") {')],'a hex package that depends on a package called git','its version is taken for a commit',r"""
printf '%%{\n  "plug": {:hex, :plug, "1.11.1", "f2992bac66fdae679453c9e86134a4201f6f43a687d8ff1cd1b2862d53c80259", [:mix], [{:git, "~> 1.2", [hex: :git, repo: "hexpm", optional: false]}], "hexpm", "23524e4fefbb587c11f0833b3910bfb414bf2e2534d61928e920f54e3a1b881f"},\n}\n' >mix.lock
osvd --list-packages mix.lock | grep -q 'plug@1.11.1' || bad "no version"
""")
bug('b60-csv-trim-file','C05',[('pkg/lockfile/csv.go','	reader, err := os.Open(pathToCSV)\n','	content, err := os.ReadFile(pathToCSV)\n'),('pkg/lockfile/csv.go','	packages, err := fromCSV(reader)\n','	packages, err := fromCSV(strings.NewReader(strings.TrimSpace(string(content))))\n')],'a CSV file that starts or ends with white space that belongs to a field','the white space is lost',r"""
printf 'npm,,a,1.0 \n' >x.csv
osvd --list-packages --json csv-file:x.csv | grep -q '"1.0 "' || bad "the version is another one"
""")
bug('b61-empty-entry','C06',[('pkg/database/osv.go','					osv.ID,\n				)\n\n				continue\n','					osv.ID,\n				)\n\n				return false\n')],'an advisory with several entries for one package, the first of which has neither ranges nor versions','the other entries are not looked at',DB+r"""
echo '{"id":"A-1","affected":[{"package":{"ecosystem":"npm","name":"a"}},{"package":{"ecosystem":"npm","name":"a"},"versions":["1.0.0"]}]}' >db/1.json; echo npm,,a,1.0.0 >x.csv
osvd --use-dbs=false csv-file:x.csv 2>/dev/null | grep -q A-1 || bad "A-1 is missing"
""")
bug('b62-introduced-zero','C07',[('pkg/database/osv.go','				affected = e.Introduced == "0" || order >= 0\n' if False else '			affected = e.Introduced == "0" || order >= 0\n','			affected = e.Introduced == "0" || e.Introduced == "0.0.0" || order >= 0\n')],'a pre-release of 0.0.0 and a range introduced at 0.0.0','it is reported although it is before the range',DB+r"""
adv A-1 npm a '"ranges":[{"type":"SEMVER","events":[{"introduced":"0.0.0"}]}]' >db/1.json; echo npm,,a,0.0.0-alpha >x.csv
osvd --use-dbs=false csv-file:x.csv 2>/dev/null | grep -q A-1 && bad "0.0.0-alpha is before 0.0.0"
""")
bug('b63-alias-unaffected','C08',[('pkg/database/mem-check.go','			if vulnerability.Withdrawn == nil && vulnerability.IsAffected(pkg) && !vulnerabilities.Includes(vulnerability) {\n				vulnerabilities = append(vulnerabilities, vulnerability)\n			}\n','			if vulnerability.Withdrawn != nil || seen.Includes(vulnerability) {\n				continue\n			}\n\n			seen = append(seen, vulnerability)\n\n			if vulnerability.IsAffected(pkg) {\n				vulnerabilities = append(vulnerabilities, vulnerability)\n			}\n'),('pkg/database/mem-check.go','	var vulnerabilities Vulnerabilities\n\n	details','	var vulnerabilities Vulnerabilities\n	var seen Vulnerabilities\n\n	details')],'aliased advisories with different ranges, the first of which does not contain the version','the second one is not reported either',DB+r"""
echo '{"id":"A-1","affected":[{"package":{"ecosystem":"npm","name":"a"},"versions":["2.0.0"]}]}' >db/1.json
echo '{"id":"A-2","aliases":["A-1"],"affected":[{"package":{"ecosystem":"npm","name":"a"},"versions":["1.0.0"]}]}' >db/2.json; echo npm,,a,1.0.0 >x.csv
osvd --use-dbs=false csv-file:x.csv 2>/dev/null | grep -q A-2 || bad "A-2 is missing"
""")
bug('b64-global-ignores','C09',[('main.go','				ignores = append(ignores, config.Ignore...)\n','				globalIgnores = append(globalIgnores, config.Ignore...)\n')],'two lockfiles with different configs in one run','the ignores of the first apply to the second',r"""
mkdir db a b; adv A-1 npm foo "$ANY" >db/1.json; echo npm,,foo,1.0.0 | tee a/x.csv >b/x.csv
printf 'ignore: [A-1]\n' >a/.osv-detector.yml; printf 'extra-databases:\n  - url: file:/db\n' >b/.osv-detector.yml
osvd --use-dbs=false csv-file:a/x.csv csv-file:b/x.csv >/dev/null 2>&1; [ $? = 1 ] || bad "A-1 is ignored in b"
""")
bug('b65-empty-yml','C10',[('internal/configer/load.go','	config, err = Load(r, pathToDirectory+"/"+configName+".yml")\n\n	if err == nil {\n		return config, nil\n	}\n\n	if !errors.Is(err, os.ErrNotExist) {\n','	config, err = Load(r, pathToDirectory+"/"+configName+".yml")\n\n	if err == nil && (len(config.Ignore) > 0 || len(config.Databases) > 0) {\n		return config, nil\n	}\n\n	if err == nil {\n		// there is nothing in it, so there might be another one\n		if other, err := Load(r, pathToDirectory+"/"+configName+".yaml"); err == nil {\n			return other, nil\n		}\n\n		return config, nil\n	}\n\n	if !errors.Is(err, os.ErrNotExist) {\n')],'a .osv-detector.yml without any settings next to a .osv-detector.yaml','the .yaml one is used',r"""
mkdir db; adv A-1 npm foo "$ANY" >db/1.json; echo npm,,foo,1.0.0 >x.csv
printf 'ignore: []\n' >.osv-detector.yml; printf 'extra-databases:\n  - url: file:/db\n' >.osv-detector.yaml
osvd --use-dbs=false csv-file:x.csv 2>&1 | grep -q A-1 && bad "the other config is used"
""")
bug('b66-update-after-error','C11',[('main.go','	if *updateConfigIgnores {\n		writeUpdatedConfigs(','	// the ignores would not be complete\n	if *updateConfigIgnores && exitCode != 127 {\n		writeUpdatedConfigs(')],'an update in a run in which another lockfile fails','no config is updated',r"""
mkdir db a; adv A-1 npm foo "$ANY" >db/1.json; echo npm,,foo,1.0.0 >a/x.csv; echo '{' >package-lock.json
printf 'extra-databases:\n  - url: file:/db\n' >a/.osv-detector.yml
osvd --use-dbs=false --update-config-ignores csv-file:a/x.csv package-lock.json >/dev/null 2>&1; grep -q A-1 a/.osv-detector.yml || bad "not updated"
""")
bug('b67-zip-limit','C12',[('pkg/database/zip.go','	content, err := io.ReadAll(file)\n','	// nothing that is bigger is an advisory\n	content, err := io.ReadAll(io.LimitReader(file, 1<<20))\n')],'an advisory larger than a megabyte in a zip database','it is not loaded from the archive, only from a directory',r"""
python3 "$HERE/big.py" "$D/port" & for i in $(seq 50); do [ -s "$D/port" ] && break; sleep .1; done; P=$(cat "$D/port")
printf "extra-databases:\n  - url: http://127.0.0.1:$P/all.zip\n" >.osv-detector.yml; echo 'npm,,foo,1.0.0' >x.csv
osvd --use-dbs=false csv-file:x.csv 2>/dev/null | grep -q V-1 || bad "V-1 is missing"
""",{'big.py':SRV.replace('"id":"V-1",','"id":"V-1","details":"x"*2000000,')})
bug('b68-zip-2xx','C13',[('pkg/database/zip.go','	} else if resp.StatusCode != http.StatusOK {','	} else if resp.StatusCode < 200 || resp.StatusCode >= 300 {')],'a server (or proxy) that answers with 203 or 206','what it sends is used and cached',r"""
python3 "$HERE/part.py" "$D/port" & for i in $(seq 50); do [ -s "$D/port" ] && break; sleep .1; done; P=$(cat "$D/port")
printf "extra-databases:\n  - url: http://127.0.0.1:$P/all.zip\n" >.osv-detector.yml; echo 'npm,,foo,1.0.0' >x.csv
osvd --use-dbs=false csv-file:x.csv >/dev/null 2>&1; [ $? = 127 ] || bad "no error"
""",{'part.py':SRV.replace('self.send_response(200); self.send_header("ETag"','self.send_response(206); self.send_header("ETag"')})
bug('b70-api-escape','C15',[('pkg/database/api-fetch.go','	u.Path = path.Join(u.Path, "vulns", id)\n','	u.Path = path.Join(u.Path, "vulns", url.PathEscape(id))\n'),('pkg/database/api-fetch.go','	"net/http"\n','	"net/http"\n	"net/url"\n')],'an advisory whose ID has characters that are escaped in URLs','its details are asked for under another ID',r"""
python3 "$HERE/sp.py" "$D/port" & for i in $(seq 50); do [ -s "$D/port" ] && break; sleep .1; done; P=$(cat "$D/port")
printf "extra-databases:\n  - url: http://127.0.0.1:$P/v1\n" >.osv-detector.yml; echo 'npm,,foo,1.0.0' >x.csv
osvd --use-dbs=false csv-file:x.csv >/dev/null 2>&1; grep -q '/vulns/A%20B$' "$D/port.log" || bad "not asked for"
""",{'sp.py':SRV.replace('{"results":[{} for','{"results":[{"vulns":[{"id":"A B"}]} for')})
bug('b71-regexp-cache','C16',[('internal/cachedregexp/regex.go','var cache sync.Map\n','var cache = map[string]*regexp.Regexp{}\n\n//nolint:gochecknoglobals // guards the cache\nvar mutex sync.Mutex\n'),('internal/cachedregexp/regex.go','	compiled, ok := cache.Load(exp)\n	if !ok {\n		compiled, _ = cache.LoadOrStore(exp, regexp.MustCompile(exp))\n	}\n\n	return compiled.(*regexp.Regexp)\n','	if compiled, ok := cache[exp]; ok {\n		return compiled\n	}\n\n	mutex.Lock()\n	defer mutex.Unlock()\n\n	cache[exp] = regexp.MustCompile(exp)\n\n	return cache[exp]\n')],'lockfiles parsed by several goroutines','a data race on the map of regular expressions',r"""
cd - >/dev/null; mkdir "$D/o"; echo "{\"Replace\": {\"$PWD/internal/raceprobe/main.go\": \"$HERE/main.go.txt\"}}" >"$D/o/o.json"
CGO_ENABLED=1 go build -race -buildvcs=false -overlay "$D/o/o.json" -o "$D/probe" ./internal/raceprobe || exit 2
cd "$D/w"; for i in 1 2 3 4 5; do "$D/probe" >o 2>&1; [ $? = 0 ] || bad "$(grep -m1 -i race o)"; done
""",{'main.go.txt':'''package main

import (
	"os"
	"sync"

	"github.com/g-rath/osv-detector/pkg/lockfile"
)

func main() {
	_ = os.WriteFile("yarn.lock", []byte("a@^1:\\n  version \\"1.0.0\\"\\n"), 0o600)
	_ = os.WriteFile("requirements.txt", []byte("a==1\\n"), 0o600)
	_ = os.WriteFile("Gemfile.lock", []byte("GEM\\n  specs:\\n    a (1.0)\\n"), 0o600)
	var wg sync.WaitGroup
	for i := range 24 {
		wg.Add(1)
		go func() {
			defer wg.Done()
			_, _ = lockfile.Parse([]string{"yarn.lock", "requirements.txt", "Gemfile.lock"}[i%3], "")
		}()
	}
	wg.Wait()
}
'''})
bug('b72-no-permission','C17',[('main.go','	if err != nil {\n		r.PrintErrorf("Error reading %s: %v\\n", pathToLockOrDirectory, err)\n	}\n','	if os.IsPermission(err) {\n		// it belongs to someone else\n		r.PrintTextf("Skipping %s: %v\\n", pathToLockOrDirectory, err)\n\n		return lockfiles, false\n	}\n\n	if err != nil {\n		r.PrintErrorf("Error reading %s: %v\\n", pathToLockOrDirectory, err)\n	}\n')],'a path that may not be read next to another one','the path is skipped and the exit code is 0',r"""
chmod 755 "$D" "$D/w" "$D/osvd" "$D/tmp"; echo npm,,foo,1.0.0 >x.csv; chmod 644 x.csv; echo '{}' >package-lock.json; chmod 000 package-lock.json
setpriv --reuid 65534 --regid 65534 --clear-groups "$D/osvd" --use-dbs=false csv-file:x.csv package-lock.json >/dev/null 2>&1; [ $? = 127 ] || bad "no error"
""")
bug('b73-count-unique','C18',[('internal/reporter/report.go','	for _, pkg := range r.Packages {\n		knownVulnerabilitiesCount += len(pkg.Vulnerabilities)\n	}\n','	counted := make(map[string]struct{})\n\n	for _, pkg := range r.Packages {\n		for _, vulnerability := range pkg.Vulnerabilities {\n			if _, ok := counted[vulnerability.ID]; !ok {\n				counted[vulnerability.ID] = struct{}{}\n				knownVulnerabilitiesCount++\n			}\n		}\n	}\n')],'two packages affected by the same advisory','the number of vulnerabilities is not that of the ones listed',DB+r"""
adv A-1 npm foo "$ANY" >db/1.json; printf 'npm,,foo,1.0.0\nnpm,,foo,2.0.0\n' >x.csv
osvd --use-dbs=false csv-file:x.csv | grep -q '2 known vulnerabilities found' || bad "not 2"
""")
bug('b74-fold-order','C19',[('pkg/lockfile/parse.go','		return packages[i].Name < packages[j].Name\n	})\n\n	return Lockfile{\n		FilePath: pathToLockfile,\n','		return strings.ToLower(packages[i].Name) < strings.ToLower(packages[j].Name)\n	})\n\n	return Lockfile{\n		FilePath: pathToLockfile,\n')],'packages whose names differ only by case','their order is random',r"""
echo '{"dependencies":{"Foo":{"version":"1.0.0"},"foo":{"version":"1.0.0"},"fOo":{"version":"1.0.0"},"foO":{"version":"1.0.0"}}}' >package-lock.json
osvd --list-packages package-lock.json >o1; for i in 1 2 3 4 5 6 7 8 9; do osvd --list-packages package-lock.json >o2; cmp -s o1 o2 || bad "the order differs"; done
""")
bug('b77-update-rename','C23',[('internal/configer/update.go','	f, err := os.OpenFile(pathToConfig, os.O_TRUNC|os.O_WRONLY, os.ModePerm)\n','	info, err := os.Stat(pathToConfig)\n\n	if err != nil {\n		return fmt.Errorf("%w", err)\n	}\n\n	f, err := os.OpenFile(pathToConfig+".tmp", os.O_CREATE|os.O_TRUNC|os.O_WRONLY, info.Mode())\n'),('internal/configer/update.go','	if err != nil {\n		return fmt.Errorf("%w", err)\n	}\n\n	return nil\n','	if err != nil {\n		return fmt.Errorf("%w", err)\n	}\n\n	if err := f.Close(); err != nil {\n		return fmt.Errorf("%w", err)\n	}\n\n	if err := os.Rename(pathToConfig+".tmp", pathToConfig); err != nil {\n		return fmt.Errorf("%w", err)\n	}\n\n	return nil\n')],'a config that is a symbolic link, with --update-config-ignores','the link is replaced by a file and what it points to is not updated',r"""
mkdir db p; adv A-1 npm foo "$ANY" >db/1.json; echo npm,,foo,1.0.0 >p/x.csv
printf 'extra-databases:\n  - url: file:/db\n' >real.yml; ln -s ../real.yml p/.osv-detector.yml
osvd --use-dbs=false --update-config-ignores csv-file:p/x.csv >/dev/null 2>&1; [ -L p/.osv-detector.yml ] || bad "the link is gone"; grep -q A-1 real.yml || bad "not updated"
""")
bug('b78-prefer-api','C24',[('main.go','os.Getenv("OSV_DETECTOR_PREFER_API") == "true"','os.Getenv("OSV_DETECTOR_PREFER_API") != ""')],'OSV_DETECTOR_PREFER_API set to something other than true','the API is used instead of the databases',r"""
echo npm,,foo,1.0.0 >x.csv
OSV_DETECTOR_PREFER_API=false HTTPS_PROXY=http://127.0.0.1:9 osvd csv-file:x.csv 2>&1 | grep -q 'osv.dev v1 API' && bad "the API is used"
""")
bug('b79-infer-path','C25',[('internal/configer/load.go','	case strings.HasSuffix(rdbc.URL, ".zip"):','	case strings.HasSuffix(strings.ToLower(rdbc.URL), ".zip"):')],'an API whose url ends in .ZIP','it is used as an archive',r"""
echo npm,,foo,1.0.0 >x.csv; printf 'extra-databases:\n  - url: http://127.0.0.1:9/v1/All.ZIP\n' >.osv-detector.yml
osvd --use-dbs=false csv-file:x.csv 2>&1 | grep -q 'querybatch' || bad "not used as an API"
""")
bug('b80-same-id','C12',[('pkg/database/mem-check.go','	db.VulnerabilitiesCount++\n','	db.VulnerabilitiesCount++\n\n	// the same advisory can be in several directories\n	if _, ok := db.loaded[osv.ID]; ok {\n		return\n	}\n\n	if db.loaded == nil {\n		db.loaded = make(map[string]struct{})\n	}\n\n	db.loaded[osv.ID] = struct{}{}\n'),('pkg/database/mem-check.go','	vulnerabilities      map[string][]OSV\n','	vulnerabilities      map[string][]OSV\n	loaded               map[string]struct{}\n')],'two files with the same ID that are for different packages','the second one is not loaded',DB+r"""
adv A-1 npm foo "$ANY" >db/1.json; adv A-1 npm bar "$ANY" >db/2.json; printf 'npm,,foo,1.0.0\nnpm,,bar,2.0.0\n' >x.csv
osvd --use-dbs=false csv-file:x.csv | grep -q '2 known vulnerabilities found' || bad "not 2"
""")
bug('b81-same-name','C25',[('main.go','				if dbc.Identifier() == dbConfig.Identifier() {\n','				if dbc.Name == dbConfig.Name {\n')],'two databases with the same name','only the first one is used',r"""
mkdir d1 d2; adv A-1 npm foo "$ANY" >d1/1.json; adv A-2 npm foo "$ANY" >d2/2.json; echo npm,,foo,1.0.0 >x.csv
printf 'extra-databases:\n  - {url: file:/d1, name: mine}\n  - {url: file:/d2, name: mine}\n' >.osv-detector.yml
osvd --use-dbs=false csv-file:x.csv | grep -q A-2 || bad "A-2 is missing"
""")
bug('b85-maven-range-trim','C03',[('pkg/lockfile/parse-maven-lock.go','	versionRequirementReg := cachedregexp.MustCompile(`[[(]?(.*?)(?:,|[)\\]]|$)`)\n\n	results := versionRequirementReg.FindStringSubmatch(strings.TrimSpace(version))\n\n	if results == nil || strings.TrimSpace(results[1]) == "" {\n		return "0"\n	}\n\n	return strings.TrimSpace(results[1])\n','	version, _, _ = strings.Cut(strings.Trim(strings.TrimSpace(version), "[]()"), ",")\n	version = strings.TrimSpace(version)\n\n	if version == "" {\n		return "0"\n	}\n\n	return version\n')],'a version made of several ranges, the first of which is a single version','its closing bracket stays part of the version',r"""
echo '<project><dependencies><dependency><groupId>g</groupId><artifactId>a</artifactId><version>[1.0],[2.0,3.0)</version></dependency></dependencies></project>' >pom.xml
osvd --list-packages pom.xml | grep -qx '  Maven: g:a@1.0' || bad "another version"
""")
bug('b86-gem-crlf','C04',[('pkg/lockfile/parse-gemfile-lock.go','	lineMatcher := cachedregexp.MustCompile(`(?:\\r?\\n)+`)\n\n	lines := lineMatcher.Split(contents, -1)\n','	lines := strings.Split(contents, "\\n")\n')],'a Gemfile.lock with Windows line endings','no gem is listed',r"""
printf 'GEM\r\n  remote: https://rubygems.org/\r\n  specs:\r\n    ast (2.4.2)\r\n' >Gemfile.lock
osvd --list-packages Gemfile.lock | grep -q 'ast@2.4.2' || bad "ast is missing"
""")
bug('b87-csv-row-number','C05',[('pkg/lockfile/csv.go','			return packages, fmt.Errorf("row %d: %w", i, err)\n','			line, _ := r.FieldPos(0)\n\n			return packages, fmt.Errorf("row %d: %w", line, err)\n')],'an invalid row after a row with a line break in one of its fields','another row is named',r"""
printf 'npm,,"a\nb",1.0\nnpm,,,2.0\n' >x.csv
osvd --list-packages csv-file:x.csv 2>&1 | grep -q 'row 2:' || bad "not row 2"
""")
bug('b88-versions-binary','C06',[('pkg/database/osv.go','			if slices.Contains(affected.Versions, pkg.Version) {\n','			if _, ok := slices.BinarySearch(affected.Versions, pkg.Version); ok {\n')],'a list of versions that is not in the order of their bytes (1.9.0 before 1.10.0)','some of the versions are not found',DB+r"""
adv A-1 npm foo '"versions":["1.8.0","1.9.0","1.10.0","1.11.0"]' >db/1.json
for v in 1.8.0 1.9.0 1.10.0 1.11.0; do echo npm,,foo,$v >x.csv; osvd --use-dbs=false csv-file:x.csv | grep -q A-1 || bad "$v is not affected"; done
""")
bug('b90-prefer-ghsa','C08',[('main.go','			if vulnerabilities.Includes(vulnerability) || ignored.Includes(vulnerability) {\n				continue\n			}\n','			if vulnerabilities.Includes(vulnerability) || ignored.Includes(vulnerability) {\n				// prefer advisories that can be linked to\n				for i, v := range vulnerabilities {\n					if v.Link() == "" && vulnerability.Link() != "" && (database.Vulnerabilities{v}).Includes(vulnerability) {\n						vulnerabilities[i] = vulnerability\n\n						break\n					}\n				}\n\n				continue\n			}\n')],'an advisory in two databases, under a GHSA ID in the second only','the ID of the second database is reported (and what the replaced one was linked to can be reported twice)',r"""
mkdir d1 d2; printf 'extra-databases:\n  - url: file:/d1\n  - url: file:/d2\n' >.osv-detector.yml; echo npm,,foo,1.0.0 >x.csv
adv CVE-1 npm foo "$ANY" >d1/1.json; adv GHSA-1 npm foo "$ANY" | sed 's/{"id"/{"aliases":["CVE-1"],"id"/' >d2/1.json
osvd --use-dbs=false csv-file:x.csv | grep -q CVE-1: || bad "not CVE-1"
""")
bug('b91-ignore-glob','C09',[('main.go','			if slices.Contains(ignores, vulnerability.ID) {\n','			if slices.ContainsFunc(ignores, func(s string) bool {\n				matched, _ := path.Match(s, vulnerability.ID)\n\n				return matched || s == vulnerability.ID\n			}) {\n'),('main.go','	"os"\n	"path/filepath"\n','	"os"\n	"path"\n	"path/filepath"\n')],'an ignored ID that has a * or ? in it','other advisories are ignored, too',DB+r"""
adv A-1 npm foo "$ANY" >db/1.json; echo npm,,foo,1.0.0 >x.csv
osvd --use-dbs=false --ignore 'A-*' csv-file:x.csv | grep -q '1 known vulnerability found' || bad "A-1 is ignored"
""")
bug('b92-config-memo','C24',[('main.go','			con, err := configer.Find(r, base)\n','			if con, ok := configs[base]; ok {\n				lockf, err := parseLockfile(pathToLockWithParseAs, args)\n				lockfiles = append(lockfiles, lockfileAndConfigOrErr{lockf, con, err})\n\n				continue\n			}\n\n			con, err := configer.Find(r, base)\n'),('main.go','			config = &con\n','			config = &con\n			configs[base] = config\n'),('main.go','	lockfiles := make([]lockfileAndConfigOrErr, 0, len(pathsToLocksWithParseAs))\n','	lockfiles := make([]lockfileAndConfigOrErr, 0, len(pathsToLocksWithParseAs))\n	configs := make(map[string]*configer.Config)\n')],'two lockfiles of different ecosystems in one directory','both are checked against the databases of both ecosystems',r"""
echo npm,,foo,1.0.0 >x.csv; echo PyPI,,foo,1.0.0 >y.csv; python3 - "$TMPDIR" <<'E'
import hashlib,json,base64,io,zipfile,sys
for e in ("npm","PyPI"):
    b=io.BytesIO(); z=zipfile.ZipFile(b,"w"); z.writestr("a","a"); z.close()
    u="https://osv-vulnerabilities.storage.googleapis.com/%s/all.zip"%e
    json.dump({"url":u,"etag":"x","date":"d","body":base64.b64encode(b.getvalue()).decode()},open(sys.argv[1]+"/osv-detector-%s-db.json"%hashlib.sha256(u.encode()).hexdigest(),"w"))
E
[ "$(osvd --offline csv-file:x.csv csv-file:y.csv | grep -c 'Using db')" = 2 ] || bad "not one database each"
""")
bug('b95-zip-decoder','C12',[('pkg/database/zip.go','	content, err := io.ReadAll(file)\n	if err != nil {\n		_, _ = fmt.Fprintf(os.Stderr, "Could not read %s: %v\\n", zipFile.Name, err)\n\n		return\n	}\n\n	var osv OSV\n\n	if err := json.Unmarshal(content, &osv); err != nil {\n','	var osv OSV\n\n	if err := json.NewDecoder(file).Decode(&osv); err != nil {\n')],'a file of an archive with something after the advisory','it is loaded though it is not valid, unlike from a directory',r"""
adv A-1 npm foo "$ANY" >a.json; echo garbage >>a.json; python3 -c '
import zipfile,hashlib,json,base64,io,sys
b=io.BytesIO(); z=zipfile.ZipFile(b,"w"); z.write("a.json"); z.close()
u="http://127.0.0.1:9/a.zip"
json.dump({"url":u,"etag":"x","date":"d","body":base64.b64encode(b.getvalue()).decode()},open(sys.argv[1]+"/osv-detector-%s-db.json"%hashlib.sha256(u.encode()).hexdigest(),"w"))' "$TMPDIR"
printf 'extra-databases:\n  - url: http://127.0.0.1:9/a.zip\n' >.osv-detector.yml; echo npm,,foo,1.0.0 >x.csv
osvd --offline --use-dbs=false csv-file:x.csv >o 2>&1; grep -q A-1 o && bad "A-1 is reported"; grep -q 'not a valid JSON' o || bad "not reported as invalid"
""")
bug('b96-only-etag','C13',[('pkg/database/zip.go','		req.Header.Add("If-Modified-Since", cache.Date)\n','		if cache.ETag == "" {\n			req.Header.Add("If-Modified-Since", cache.Date)\n		}\n')],'a cache entry with an ETag','If-Modified-Since is not sent',START+r"""
printf "extra-databases:\n  - url: http://127.0.0.1:$P/a.zip\n" >.osv-detector.yml; echo npm,,foo,1.0.0 >x.csv
osvd --use-dbs=false csv-file:x.csv >/dev/null 2>&1; osvd --use-dbs=false csv-file:x.csv >/dev/null 2>&1; grep -qi if-modified-since "$D/port.log" || bad "no If-Modified-Since"
""",{'srv.py':SRV.replace('"GET "+self.path+"\\n"','"GET "+self.path+str(self.headers)+"\\n"')})
bug('b97-cache-same-size','C13',[('pkg/database/zip.go','	if etag != "" || date != "" {\n','	// nothing to write if the archive is what we already have\n	if cache != nil && cache.Date == date && len(cache.Body) == len(body) {\n		return body, nil\n	}\n\n	if etag != "" || date != "" {\n')],'an archive replaced within a second by another one of the same size','the cache keeps the old archive, which an offline run then uses',START+r"""
printf "extra-databases:\n  - url: http://127.0.0.1:$P/a.zip\n" >.osv-detector.yml; echo npm,,foo,1.0.0 >x.csv
echo V-1 >"$D/port.id"; osvd --use-dbs=false csv-file:x.csv 2>&1 | grep -q V-1 || bad "no V-1"
echo V-2 >"$D/port.id"; osvd --use-dbs=false csv-file:x.csv 2>&1 | grep -q V-2 || bad "no V-2"
osvd --offline --use-dbs=false csv-file:x.csv 2>&1 | grep -q V-2 || bad "no V-2 offline"
""",{'srv.py':SRV.replace('"id":"V-1"','"id":open(sys.argv[1]+".id").read().strip()').replace('''self.send_response(200); self.send_header("ETag",'"1"')''','''self.send_response_only(200); self.send_header("Date","Mon, 02 Jan 2023 00:00:00 GMT"); self.send_header("ETag",'"%d"'%len(open(sys.argv[1]+".log").read()))''')})
bug('b98-offline-newer','C14',[('pkg/database/zip.go','	if db.Offline {\n		if cache == nil {\n			return nil, ErrOfflineDatabaseNotFound\n		}\n','	if db.Offline && (cache == nil || len(cache.Body) > 0) {\n		if cache == nil {\n			return nil, ErrOfflineDatabaseNotFound\n		}\n')],'an offline run with a cache entry that has no archive in it','the archive is downloaded',START+r"""
U=http://127.0.0.1:$P/a.zip; printf "extra-databases:\n  - url: $U\n" >.osv-detector.yml; echo npm,,foo,1.0.0 >x.csv
printf '{"url":"%s","etag":"x","date":"d","body":""}' "$U" >"$TMPDIR/osv-detector-$(printf %s "$U" | sha256sum | cut -d' ' -f1)-db.json"
osvd --offline --use-dbs=false csv-file:x.csv >/dev/null 2>&1; [ -e "$D/port.log" ] && bad "a request was made"
""",{'srv.py':SRV})
bug('b99-api-withdrawn','C15',[('pkg/database/api-check.go','	for _, vulns := range vulnerabilities {\n		for i := range vulns {\n			vulns[i] = findOrDefault(osvs, vulns[i])\n		}\n	}\n','	for p, vulns := range vulnerabilities {\n		current := make(Vulnerabilities, 0, len(vulns))\n\n		for i := range vulns {\n			if osv := findOrDefault(osvs, vulns[i]); osv.Withdrawn == nil {\n				current = append(current, osv)\n			}\n		}\n\n		vulnerabilities[p] = current\n	}\n')],'an API that answers with an advisory whose details say that it is withdrawn','it is not reported',START+r"""
printf "extra-databases:\n  - url: http://127.0.0.1:$P/v1\n" >.osv-detector.yml; echo npm,,foo,1.0.0 >x.csv
osvd --use-dbs=false csv-file:x.csv 2>&1 | grep -q 'V-1:' || bad "V-1 is missing"
""",{'srv.py':r'''import http.server,json,os,sys
class H(http.server.BaseHTTPRequestHandler):
    def log_message(self,*a): pass
    def out(self,b):
        b=json.dumps(b).encode(); self.send_response(200); self.send_header("Content-Length",str(len(b))); self.end_headers(); self.wfile.write(b)
    def do_POST(self):
        q=json.loads(self.rfile.read(int(self.headers["Content-Length"])))["queries"]
        self.out({"results":[{"vulns":[{"id":"V-1"}]} for x in q]})
    def do_GET(self):
        self.out({"id":"V-1","withdrawn":"2022-01-01T00:00:00Z"})
s=http.server.ThreadingHTTPServer(("127.0.0.1",0),H)
open(sys.argv[1]+".t","w").write(str(s.server_port)); os.rename(sys.argv[1]+".t",sys.argv[1]); s.serve_forever()
'''})
bug('b100-lazy-name','C16',[('pkg/database/osv.go','	for _, affected := range osv.Affected {\n		if areEcosystemsEqual(affected.Package.Ecosystem, pkg.Ecosystem) &&\n			affected.Package.NormalizedName() == pkgName {\n','	for i := range osv.Affected {\n		affected := &osv.Affected[i]\n\n		// normalizing is not free, and advisories get checked a lot\n		if affected.name == "" {\n			affected.name = affected.Package.NormalizedName()\n		}\n\n		if areEcosystemsEqual(affected.Package.Ecosystem, pkg.Ecosystem) &&\n			affected.name == pkgName {\n'),('pkg/database/osv.go','	Ranges   Affects  `json:"ranges,omitempty"`\n','	Ranges   Affects  `json:"ranges,omitempty"`\n\n	// the normalized name of the package\n	name string\n')],'several goroutines checking packages against one loaded database','the name is stored in the advisory shared by all of them: a data race',r'''
cp "$HERE/race.go.txt" "$D/race.go"; mkdir db
for i in 1 2 3 4 5 6 7 8; do adv V-$i npm p$i "$ANY" >db/$i.json; done
R=$OLDPWD
echo "{\"Replace\":{\"$R/internal/demorace/main.go\":\"$D/race.go\"}}" >"$D/o.json"
(cd "$R" && CGO_ENABLED=1 go build -buildvcs=false -race -overlay "$D/o.json" -o "$D/race" ./internal/demorace) || exit 2
"$D/race" || bad "concurrent checks race or differ"
''',{'race.go.txt':[b for b in BUGS if b['id']=='b04-memo-race'][0]['files']['race.go.txt'].replace('for range 2000 {','for i := range 2000 {\n\t\t\t\tg := (g+i)%8 + 1\n\t\t\t\tname := fmt.Sprintf("p%d", g)').replace('\t\t\tname := fmt.Sprintf("p%d", g)\n\t\t\tfor','\t\t\tfor')})
bug('b101-offline-missing-ok','C17',[('main.go','			r.PrintDatabaseLoadErr(err)\n			errored = true\n\n			continue\n','			// there is nothing wrong with not having been online yet\n			if errors.Is(err, database.ErrOfflineDatabaseNotFound) {\n				r.PrintTextf(" (no local version)\\n")\n\n				continue\n			}\n\n			r.PrintDatabaseLoadErr(err)\n			errored = true\n\n			continue\n'),('main.go','import (\n	"flag"\n','import (\n	"errors"\n	"flag"\n')],'an offline run without a cached copy of a database','exit code 0 though the database was not used',r"""
echo npm,,foo,1.0.0 >x.csv
osvd --offline csv-file:x.csv >/dev/null 2>&1 && bad "exit code 0"
""")
bug('b102-summary-line','C18',[('pkg/database/osv.go','	description := osv.Summary\n','	description, _, _ := strings.Cut(osv.Summary, "\\n")\n')],'an advisory whose summary starts with, or has, a line break','the summary is not shown completely',DB+r"""
echo '{"id":"A-1","summary":"one\ntwo","affected":[{"package":{"ecosystem":"npm","name":"foo"},"versions":["1.0.0"]}]}' >db/1.json; echo npm,,foo,1.0.0 >x.csv
osvd --use-dbs=false csv-file:x.csv | grep -q two || bad "part of the summary is missing"
""")
bug('b104-zip-prealloc','C20',[('pkg/database/zip.go','	content, err := io.ReadAll(file)\n	if err != nil {\n		_, _ = fmt','	content := make([]byte, zipFile.UncompressedSize64)\n	_, err = io.ReadFull(file, content)\n	if err != nil {\n		_, _ = fmt')],'an archive that says that a file in it is huge','a panic (or running out of memory)',r"""
adv A-1 npm foo "$ANY" >a.json; python3 -c '
import zipfile,hashlib,json,base64,io,sys,struct
b=io.BytesIO(); z=zipfile.ZipFile(b,"w",zipfile.ZIP_DEFLATED); f=z.open("a.json","w",force_zip64=True); f.write(open("a.json","rb").read()); f.close(); z.close()
v=bytearray(b.getvalue()); i=v.rfind(b"PK\1\2")
n=struct.unpack("<H",v[i+28:i+30])[0]
ex=struct.pack("<HHQ",1,8,1<<62)
v[i+24:i+28]=b"\xff"*4; old=struct.unpack("<H",v[i+30:i+32])[0]
v[i+30:i+32]=struct.pack("<H",len(ex)); v[i+46+n:i+46+n+old]=ex
e=v.rfind(b"PK\5\6"); v[e+12:e+16]=struct.pack("<I",e-i)
u="http://127.0.0.1:9/a.zip"
json.dump({"url":u,"etag":"x","date":"d","body":base64.b64encode(bytes(v)).decode()},open(sys.argv[1]+"/osv-detector-%s-db.json"%hashlib.sha256(u.encode()).hexdigest(),"w"))' "$TMPDIR"
printf 'extra-databases:\n  - url: http://127.0.0.1:9/a.zip\n' >.osv-detector.yml; echo npm,,foo,1.0.0 >x.csv
osvd --offline --use-dbs=false csv-file:x.csv >o 2>&1; c=$?; grep -q 'panic\|goroutine' o && bad "a panic"; [ $c = 0 ] || [ $c = 1 ] || [ $c = 127 ] || bad "exit code $c"
""")
bug('b105-unknown-prefix','C21',[('main.go','	parseAs, path, _ := strings.Cut(lockfilePathWithParseAs, ":")\n','	parseAs, path, _ := strings.Cut(lockfilePathWithParseAs, ":")\n\n	// the colon can also just be part of the path\n	if _, err := os.Lstat(lockfilePathWithParseAs); err == nil {\n		return "", lockfilePathWithParseAs\n	}\n')],'a path with a parser as its prefix, where a file of that whole name exists, too','the other file is parsed, as something else',r"""
mkdir csv-file:a; echo npm,,foo,1.0.0 >csv-file:a/x.csv; mkdir a; echo npm,,bar,1.0.0 >a/x.csv
osvd --list-packages csv-file:a/x.csv | grep -q bar || bad "bar is missing"
""")
bug('b106-config-error-last','C22',[('main.go','				lockfiles = append(lockfiles, lockfileAndConfigOrErr{lockfile.Lockfile{}, config, err})\n\n				continue\n','				lockfiles = append(lockfiles, lockfileAndConfigOrErr{lockfile.Lockfile{}, config, err})\n\n				break\n')],'a lockfile with an invalid config before another lockfile','the others are not checked',r"""
mkdir p; echo 'ignore: {' >p/.osv-detector.yml; echo npm,,foo,1.0.0 >p/x.csv; echo npm,,bar,1.0.0 >y.csv
osvd --use-dbs=false csv-file:p/x.csv csv-file:y.csv 2>/dev/null | grep -q 'y.csv: found' || bad "y.csv is not checked"
""")
bug('b107-update-backup','C23',[('internal/configer/update.go','	f, err := os.OpenFile(pathToConfig, os.O_TRUNC|os.O_WRONLY, os.ModePerm)\n','	// comments are lost, so keep what was there\n	if content, err := os.ReadFile(pathToConfig); err == nil && bytes.Contains(content, []byte("#")) {\n		_ = os.WriteFile(pathToConfig+".bak", content, 0600)\n	}\n\n	f, err := os.OpenFile(pathToConfig, os.O_TRUNC|os.O_WRONLY, os.ModePerm)\n'),('internal/configer/update.go','import (\n','import (\n	"bytes"\n')],'--update-config-ignores with a config that has comments','a file is left next to the config',DB+r"""
echo '# comment' >>.osv-detector.yml; echo npm,,foo,1.0.0 >x.csv
osvd --use-dbs=false --update-config-ignores csv-file:x.csv >/dev/null 2>&1; [ "$(ls -A | wc -l)" = 3 ] || bad "another file: $(ls -A)"
""")
bug('b108-infer-file','C25',[('internal/configer/load.go','	case strings.HasPrefix(rdbc.URL, "file:/"):','	case strings.HasPrefix(rdbc.URL, "file:"):')],'an entry whose url starts with file: but not with file:/, with a working-directory','the working directory is used as a database instead of an error',r"""
mkdir db; adv A-1 npm foo "$ANY" >db/1.json; echo npm,,foo,1.0.0 >x.csv; printf 'extra-databases:\n  - url: file:x\n    working-directory: db\n' >.osv-detector.yml
osvd --use-dbs=false csv-file:x.csv >o 2>&1; [ $? = 127 ] || bad "no error"
""")
bug('b109-api-commit-first','C15',[('pkg/database/api-check.go','	if pkg.Name != "" && pkg.Ecosystem != "" && pkg.Version != "" {\n','	if pkg.Name != "" && pkg.Ecosystem != "" && pkg.Version != "" && len(pkg.Commit) != 40 {\n')],'a package with a version and a full commit','it is asked for by its commit',START+r"""
printf "extra-databases:\n  - url: http://127.0.0.1:$P/v1\n" >.osv-detector.yml
echo '{"packages":[{"name":"a/b","version":"1.0","dist":{"reference":"0123456789012345678901234567890123456789"}}]}' >composer.lock
osvd --use-dbs=false composer.lock >/dev/null 2>&1; grep -q commit "$D/port.log" && bad "asked by commit"
""",{'srv.py':SRV.replace('if os.path.exists(sys.argv[1]+".fail"):\n            os.remove','open(sys.argv[1]+".log","a").write(json.dumps(q))\n        if os.path.exists(sys.argv[1]+".fail"):\n            os.remove')})
bug('b111-codeload-dots','C01',[('pkg/lockfile/parse-pnpm-lock.go','(?:/[\\w-.]+){2}','(?:/[\\w-]+){2}')],'a pnpm tarball of a repository with a dot in its name','its commit is missing',r"""
cat >pnpm-lock.yaml <<'X'
lockfileVersion: 5.4
packages:
  '@codeload.github.com/a/b.js/tar.gz/0123456789012345678901234567890123456789':
    resolution: {tarball: https://codeload.github.com/a/b.js/tar.gz/0123456789012345678901234567890123456789}
    name: b
    version: 1.0.0
X
osvd --list-packages --json pnpm-lock.yaml | grep -q '"commit":"0123' || bad "no commit"
""")
bug('b115-composer-short','C03',[('pkg/lockfile/parse-composer-lock.go','	if strings.Contains(commit, ".") {\n','	if strings.Contains(commit, ".") || len(commit) < 40 {\n')],'a composer package with an abbreviated reference','its commit is missing',r"""
echo '{"packages":[{"name":"a/b","version":"dev-main","dist":{"reference":"0123abc"}}]}' >composer.lock
osvd --list-packages --json composer.lock | grep -q 0123abc || bad "no commit"
""")
bug('b116-maven-import','C03',[('pkg/lockfile/parse-maven-lock.go','	Version    string   `xml:"version"`\n','	Version    string   `xml:"version"`\n	Scope      string   `xml:"scope"`\n'),('pkg/lockfile/parse-maven-lock.go','	for _, lockPackage := range parsedLockfile.ManagedDependencies {\n','	for _, lockPackage := range parsedLockfile.ManagedDependencies {\n		// these only bring in the dependencies managed by another file\n		if lockPackage.Scope == "import" {\n			continue\n		}\n\n')],'a managed dependency with the scope import','it is not listed',r"""
echo '<project><dependencyManagement><dependencies><dependency><groupId>g</groupId><artifactId>a</artifactId><version>1.0</version><type>pom</type><scope>import</scope></dependency></dependencies></dependencyManagement></project>' >pom.xml
osvd --list-packages pom.xml | grep -q 'g:a@1.0' || bad "g:a is missing"
""")
bug('b118-gem-dedupe','C04',[('pkg/lockfile/parse-gemfile-lock.go','	if len(spaces) == 4 {\n','	if len(spaces) == 4 {\n		// gems are listed once for every platform\n		for _, dependency := range parser.dependencies {\n			if dependency.Name == results[2] {\n				return\n			}\n		}\n\n')],'a gem listed in two sections with different versions','only the first is listed',r"""
printf 'GIT\n  remote: https://x\n  revision: 0123\n  specs:\n    a (1.0)\n\nGEM\n  remote: https://rubygems.org/\n  specs:\n    a (2.0)\n    b (1.0)\n' >Gemfile.lock
osvd --list-packages Gemfile.lock | grep -q 'a@2.0' || bad "a 2.0 is missing"
""")
bug('b121-csv-compact','C05',[('pkg/lockfile/csv.go','	return packages, nil\n}\n\nfunc FromCSVRows','	return slices.Compact(packages), nil\n}\n\nfunc FromCSVRows'),('pkg/lockfile/csv.go','	"os"\n	"sort"\n','	"os"\n	"slices"\n	"sort"\n')],'two identical rows','only one package is listed',r"""
printf 'npm,,a,1.0\nnpm,,a,1.0\n' >x.csv; [ "$(osvd --list-packages csv-file:x.csv | grep -c a@1.0)" = 2 ] || bad "not two packages"
""")
bug('b122-withdrawn-future','C06',[('pkg/database/mem-check.go','			if vulnerability.Withdrawn == nil && vulnerability','			if (vulnerability.Withdrawn == nil || vulnerability.Withdrawn.After(time.Now())) && vulnerability'),('pkg/database/mem-check.go','import (\n','import (\n	"time"\n\n')],'an advisory with a withdrawn date in the future','it is reported',DB+r"""
echo '{"id":"A-1","withdrawn":"2099-01-01T00:00:00Z","affected":[{"package":{"ecosystem":"npm","name":"foo"},"versions":["1.0.0"]}]}' >db/1.json; echo npm,,foo,1.0.0 >x.csv
osvd --use-dbs=false csv-file:x.csv | grep -q A-1 && bad "a withdrawn advisory is reported"
""")
bug('b123-suffix-prefix','C06',[('pkg/database/osv.go','		return aEcosystem == bEcosystem && aSuffix == bSuffix\n','		// point releases belong to their release\n		return aEcosystem == bEcosystem && (strings.HasPrefix(aSuffix, bSuffix) || strings.HasPrefix(bSuffix, aSuffix))\n')],'ecosystem suffixes one of which is a prefix of the other','an advisory for another release is reported',DB+r"""
adv A-1 Debian:1 foo "$ANY" >db/1.json; echo Debian:10,,foo,1.0.0 >x.csv
osvd --use-dbs=false csv-file:x.csv | grep -q A-1 && bad "that of Debian 1 is reported for Debian 10"
""")
bug('b126-unknown-as-semver','C07',[('pkg/database/osv.go','	vp, err := semantic.Parse(pkg.Version, string(pkg.CompareAs))\n','	vp, err := semantic.Parse(pkg.Version, string(pkg.CompareAs))\n\n	// most ecosystems order their versions like this\n	if errors.Is(err, semantic.ErrUnsupportedEcosystem) && len(ar.Events) != 0 {\n		pkg.CompareAs = "npm"\n		vp, err = semantic.Parse(pkg.Version, string(pkg.CompareAs))\n	}\n'),('pkg/database/osv.go','import (\n	"encoding/json"\n','import (\n	"encoding/json"\n	"errors"\n')],'a package of an ecosystem whose ordering is not known','it is compared with some ordering instead of being reported',DB+r"""
adv A-1 made-up foo '"ranges":[{"type":"ECOSYSTEM","events":[{"introduced":"2.0.0"}]}]' >db/1.json; echo made-up,,foo,1.0.0 >x.csv
osvd --use-dbs=false csv-file:x.csv 2>/dev/null | grep -q A-1 || bad "not reported though its versions can not be compared"
""")
bug('b127-alias-fold','C08',[('pkg/database/osv.go','		if osv.ID == alias || slices.Contains(osv.Aliases, alias) {','		if strings.EqualFold(osv.ID, alias) || slices.Contains(osv.Aliases, alias) {')],'an alias that differs from an ID of another advisory in case only','one of them is not reported',DB+r"""
echo '{"id":"A-1","affected":[{"package":{"ecosystem":"npm","name":"foo"},"versions":["1.0.0"]}]}' >db/1.json
echo '{"id":"B-1","aliases":["a-1"],"affected":[{"package":{"ecosystem":"npm","name":"foo"},"versions":["1.0.0"]}]}' >db/2.json; echo npm,,foo,1.0.0 >x.csv
[ "$(osvd --use-dbs=false csv-file:x.csv | grep -c '[AB]-1:')" = 2 ] || bad "not both are reported"
""")
bug('b129-no-config-config','C10',[('main.go','	} else if loadLocalConfig && *configPath != "" {\n','	} else if *configPath != "" {\n')],'--no-config together with --config','the config is used',DB+r"""
adv A-1 npm foo "$ANY" >db/1.json; mv .osv-detector.yml c.yml; echo npm,,foo,1.0.0 >x.csv
osvd --use-dbs=false --no-config --config c.yml csv-file:x.csv | grep -q A-1 && bad "the config is used"
""")
bug('b130-config-parents','C10',[('main.go','			con, err := configer.Find(r, base)\n','			con, err := configer.Find(r, base)\n\n			// the config of a project applies to all of its parts\n			for parent := base; err == nil && con.FilePath == "" && parent != "."; {\n				if parent = filepath.Dir(parent); parent == "/" {\n					break\n				}\n\n				con, err = configer.Find(r, parent)\n			}\n')],'a lockfile in a directory without a config, below one with a config','the config of the parent directory is used',DB+r"""
adv A-1 npm foo "$ANY" >db/1.json; mkdir -p p; echo npm,,foo,1.0.0 >p/x.csv
osvd --use-dbs=false csv-file:p/x.csv | grep -q A-1 && bad "the config of the parent is used"
""")
bug('b131-config-symlink','C10',[('main.go','			base := filepath.Dir(pathToLock)\n','			base := filepath.Dir(pathToLock)\n\n			// the config lies next to the actual lockfile\n			if real, err := filepath.EvalSymlinks(pathToLock); err == nil {\n				base = filepath.Dir(real)\n			}\n\n')],'a lockfile that is a symbolic link to another directory','the config of another directory is used',r"""
mkdir -p a b db; adv A-1 npm foo "$ANY" >db/1.json; printf 'extra-databases:\n  - url: file:/db\n' >a/.osv-detector.yml; echo npm,,foo,1.0.0 >b/x.csv; ln -s ../b/x.csv a/x.csv
osvd --use-dbs=false csv-file:a/x.csv | grep -q A-1 || bad "the config next to it is not used"
""")
bug('b132-update-name','C11',[('internal/configer/update.go','	raw.Ignore = ignores\n','	raw.Ignore = ignores\n\n	// be explicit about how each database is going to be treated\n	for i, db := range raw.Databases {\n		if db.Name != "" && db.WorkingDirectory != "" {\n			raw.Databases[i].Type = db.inferDBType()\n		}\n	}\n')],'--update-config-ignores with a named database without a type','the entry gets a type',DB+r"""
printf 'extra-databases:\n  - url: file:/db\n    name: x\n    working-directory: .\n' >.osv-detector.yml; adv A-1 npm foo "$ANY" >db/1.json; echo npm,,foo,1.0.0 >x.csv
osvd --use-dbs=false --update-config-ignores csv-file:x.csv >/dev/null; grep -q type .osv-detector.yml && bad "the entry was changed"
""")
bug('b134-zip-dotfiles','C12',[('pkg/database/zip.go','		if !strings.HasSuffix(zipFile.Name, ".json") {\n','		// resource forks are not advisories\n		if strings.HasPrefix(path.Base(zipFile.Name), ".") {\n			continue\n		}\n\n		if !strings.HasSuffix(zipFile.Name, ".json") {\n')],'an archive with an advisory in a file that starts with a dot','it is not loaded',START+r"""
printf "extra-databases:\n  - url: http://127.0.0.1:$P/a.zip\n" >.osv-detector.yml; echo npm,,foo,1.0.0 >x.csv
osvd --use-dbs=false csv-file:x.csv | grep -q V-1 || bad "not loaded"
""",{'srv.py':SRV.replace('"a.json"','"x/.a.json"')})
bug('b136-weak-etag','C13',[('pkg/database/zip.go','	etag := resp.Header.Get("ETag")\n','	etag := strings.TrimPrefix(resp.Header.Get("ETag"), "W/")\n')],'a server that compares weak ETags literally','the archive is never taken from the cache, or a different one is confirmed',START+r"""
printf "extra-databases:\n  - url: http://127.0.0.1:$P/a.zip\n" >.osv-detector.yml; echo npm,,foo,1.0.0 >x.csv
osvd --use-dbs=false csv-file:x.csv >/dev/null; osvd --use-dbs=false csv-file:x.csv >/dev/null
grep -q 'W/"1"' "$D/port.log" || bad "the ETag was not sent back as it was"
""",{'srv.py':SRV.replace("""'"1"'""","""'W/"1"'""").replace('"GET "+self.path','"GET "+self.path+str(self.headers)')})
bug('b139-details-100','C15',[('pkg/database/api-check.go','	osvs = db.FetchAll(ids)\n','	// the rest is still reported, just without details\n	if len(ids) > 100 {\n		ids = ids[:100]\n	}\n\n	osvs = db.FetchAll(ids)\n')],'more than a hundred different findings','those after the first hundred do not have details',START+r"""
printf "extra-databases:\n  - url: http://127.0.0.1:$P/v1\n" >.osv-detector.yml; for i in $(seq 120); do echo npm,,p$i,1.0.0; done >x.csv
[ "$(osvd --use-dbs=false csv-file:x.csv | grep -c 'sum of V-')" = 120 ] || bad "not all have details"
""",{'srv.py':'''import http.server,json,os,sys
class H(http.server.BaseHTTPRequestHandler):
    def log_message(self,*a): pass
    def out(self,b):
        b=json.dumps(b).encode(); self.send_response(200); self.send_header("Content-Length",str(len(b))); self.end_headers(); self.wfile.write(b)
    def do_POST(self):
        q=json.loads(self.rfile.read(int(self.headers["Content-Length"])))["queries"]
        self.out({"results":[{"vulns":[{"id":"V-"+x["package"]["name"]}]} for x in q]})
    def do_GET(self):
        i=self.path.split("/")[-1]
        self.out({"id":i,"summary":"sum of "+i})
s=http.server.ThreadingHTTPServer(("127.0.0.1",0),H)
open(sys.argv[1]+".t","w").write(str(s.server_port)); os.rename(sys.argv[1]+".t",sys.argv[1]); s.serve_forever()
'''})
bug('b142-dangling','C17',[('main.go','						if dir.IsDir() {\n							continue\n						}\n','						if dir.IsDir() {\n							continue\n						}\n\n						if _, err := os.Stat(filepath.Join(pathToLockOrDirectory, dir.Name())); err != nil {\n							continue\n						}\n')],'a directory with a lockfile that is a dangling symbolic link','it is skipped and the exit code is 0',r"""
mkdir d; ln -s nowhere d/Cargo.lock; echo 'a==1.0' >d/requirements.txt
osvd --use-dbs=false d >/dev/null 2>&1; [ $? = 127 ] || bad "not an error"
""")
bug('b144-blank-summary','C18',[('pkg/database/osv.go','	if description == "" {\n		description += truncate(osv.Details, 80)\n','	if strings.TrimSpace(description) == "" {\n		description = truncate(osv.Details, 80)\n')],'an advisory with a blank summary and details','the text output shows something else than before',DB+r"""
echo '{"id":"A-1","summary":" ","details":"abc","affected":[{"package":{"ecosystem":"npm","name":"foo"},"versions":["1.0.0"]}]}' >db/1.json; echo npm,,foo,1.0.0 >x.csv
osvd --use-dbs=false csv-file:x.csv | grep -q 'abc' && bad "the details are shown though there is a summary"
""")
bug('b148-composer-dist','C20',[('pkg/lockfile/parse-composer-lock.go','	Dist    struct {\n		Reference string `json:"reference"`\n	} `json:"dist"`','	Dist    *struct {\n		Reference string `json:"reference"`\n	} `json:"dist"`')],'a composer package without a dist','a crash',r"""
echo '{"packages":[{"name":"a/b","version":"1.0"}]}' >composer.lock; osvd --list-packages composer.lock 2>&1 | grep -q 'a/b@1.0' || bad "no list"
""")
bug('b150-colon-parse-as','C21',[('main.go','		if parseAs == "" {\n			parseAs = parseAsGlobal\n','		if parseAs == "" && !strings.HasPrefix(given, ":") {\n			parseAs = parseAsGlobal\n'),('main.go','	for _, pathToLockOrDirectory := range pathsToCheck {\n		parseAs, pathToLockOrDirectory := parseLockfilePathWithParseAs(pathToLockOrDirectory)\n','	for _, given := range pathsToCheck {\n		parseAs, pathToLockOrDirectory := parseLockfilePathWithParseAs(given)\n')],'--parse-as with a path that starts with a colon','--parse-as is not used for it',r"""
echo 'a==1.0' >x.txt; osvd --list-packages --parse-as requirements.txt :x.txt | grep -q a@1.0 || bad "not parsed"
""")
bug('b152-first-failure','C24',[('main.go','			r.PrintDatabaseLoadErr(err)\n			errored = true\n\n			continue\n','			r.PrintDatabaseLoadErr(err)\n			errored = true\n\n			// there is no point in trying the others when there is no network\n			if strings.HasPrefix(dbConfig.URL, "http") {\n				break\n			}\n\n			continue\n')],'one database that can not be loaded before another','the others are not used',r"""
mkdir db; adv A-1 npm foo "$ANY" >db/1.json; printf 'extra-databases:\n  - url: http://127.0.0.1:9/a.zip\n  - url: file:/db\n' >.osv-detector.yml; echo npm,,foo,1.0.0 >x.csv
osvd --use-dbs=false csv-file:x.csv 2>/dev/null | grep -q A-1 || bad "the other database was not used"
""")
bug('b153-api-dump','C23',[('pkg/database/api-check.go','	if resp.StatusCode != http.StatusOK {\n','	if resp.StatusCode >= http.StatusInternalServerError {\n		// leave something to look at\n		_ = os.WriteFile(filepath.Join(os.TempDir(), "osv-detector-api-error.txt"), body, 0600)\n	}\n\n	if resp.StatusCode != http.StatusOK {\n'),('pkg/database/api-check.go','	"net/http"\n','	"net/http"\n	"os"\n	"path/filepath"\n')],'an API that answers with a server error','a file is written to the temporary directory',START+r"""
printf "extra-databases:\n  - url: http://127.0.0.1:$P/v1\n" >.osv-detector.yml; echo npm,,foo,1.0.0 >x.csv; touch "$D/port.fail"
osvd --use-dbs=false csv-file:x.csv >/dev/null 2>&1; [ -z "$(ls -A "$TMPDIR")" ] || bad "left: $(ls -A "$TMPDIR")"
""",{'srv.py':SRV})
bug('b156-abs-wd','C25',[('pkg/database/dir.go','	errored := false\n','	errored := false\n\n	if filepath.IsAbs(db.WorkingDirectory) {\n		p = db.WorkingDirectory\n	}\n')],'a directory database with a working-directory that starts with a slash','another directory is read',r"""
mkdir -p db/in; adv A-1 npm foo "$ANY" >db/in/1.json; printf 'extra-databases:\n  - url: file:/db\n    working-directory: /in\n' >.osv-detector.yml; echo npm,,foo,1.0.0 >x.csv
osvd --use-dbs=false csv-file:x.csv | grep -q A-1 || bad "not read"
""")
bug('b158-update-sort','C11',[('main.go','		slices.Sort(ignores)\n','		slices.SortFunc(ignores, func(a, b string) int { return strings.Compare(strings.ToLower(a), strings.ToLower(b)) })\n		ignores = slices.CompactFunc(ignores, strings.EqualFold)\n')],'two advisories whose IDs differ in case only','only one of them is recorded',DB+r"""
adv GHSA-a npm foo "$ANY" >db/1.json; adv GHSA-A npm foo "$ANY" >db/2.json; echo npm,,foo,1.0.0 >x.csv
osvd --use-dbs=false --update-config-ignores csv-file:x.csv >/dev/null; osvd --use-dbs=false csv-file:x.csv >/dev/null || bad "one is not ignored"
""")
bug('b161-pep503-runs','C06',[('pkg/database/osv.go','`[-_.]+`','`[-_.]`')],'a PyPI name with several separators in a row','the advisory is not reported',DB+r"""
adv A-1 PyPI a-b "$ANY" >db/1.json; echo PyPI,,a_-b,1.0.0 >x.csv
osvd --use-dbs=false csv-file:x.csv | grep -q A-1 || bad "not reported"
""")
bug('b163-dir-symlink','C12',[('pkg/database/dir.go','		if !strings.HasSuffix(info.Name(), ".json") {\n','		if !info.Mode().IsRegular() || !strings.HasSuffix(info.Name(), ".json") {\n')],'a directory database with a symbolic link to an advisory','it is not loaded',DB+r"""
adv A-1 npm foo "$ANY" >1.json; ln -s ../1.json db/1.json; echo npm,,foo,1.0.0 >x.csv
osvd --use-dbs=false csv-file:x.csv | grep -q A-1 || bad "not loaded"
""")
bug('b168-aliases-sorted','C18',[('pkg/database/mem-check.go','	db.VulnerabilitiesCount++\n','	db.VulnerabilitiesCount++\n\n	slices.Sort(osv.Aliases)\n'),('pkg/database/mem-check.go','import (\n','import (\n	"slices"\n\n')],'an advisory with unsorted aliases','the JSON output has them in another order than the advisory',DB+r"""
echo '{"id":"A-1","aliases":["Z-1","B-1"],"affected":[{"package":{"ecosystem":"npm","name":"foo"},"versions":["1.0.0"]}]}' >db/1.json; echo npm,,foo,1.0.0 >x.csv
osvd --use-dbs=false --json csv-file:x.csv | grep -q '\["Z-1","B-1"\]' || bad "another order"
""")
def libdemo(body):
    return r'''
cp "$HERE/use.go.txt" "$D/use.go"
R=$OLDPWD
echo "{\"Replace\":{\"$R/internal/demouse/main.go\":\"$D/use.go\"}}" >"$D/o.json"
(cd "$R" && CGO_ENABLED=0 go build -buildvcs=false -overlay "$D/o.json" -o "$D/use" ./internal/demouse) || exit 2
'''+body
USE='''package main

import (
	"fmt"
	"os"

	"github.com/g-rath/osv-detector/pkg/database"
	"github.com/g-rath/osv-detector/pkg/lockfile"
)

func bad(s string, a ...any) {
	fmt.Println(fmt.Sprintf(s, a...))
	os.Exit(1)
}

var _ = lockfile.Parse
var _ = database.Load

func main() {
%s
}
'''
bug('b171-list-break','C26',[('pkg/database/mem-check.go','			if (vulnerability.Withdrawn == nil) || includeWithdrawn {\n				vulnerabilities = append(vulnerabilities, vulnerability)\n				ids[vulnerability.ID] = struct{}{}\n			}\n','			if vulnerability.Withdrawn != nil && !includeWithdrawn {\n				break\n			}\n\n			vulnerabilities = append(vulnerabilities, vulnerability)\n			ids[vulnerability.ID] = struct{}{}\n')],'a package with a withdrawn advisory before another','Vulnerabilities(false) leaves out advisories that are not withdrawn',libdemo(r'''
mkdir db; echo '{"id":"A-1","withdrawn":"2020-01-01T00:00:00Z","affected":[{"package":{"ecosystem":"npm","name":"foo"},"versions":["1.0.0"]}]}' >db/1.json; adv A-2 npm foo "$ANY" >db/2.json
"$D/use" || bad "a listing is wrong"
'''),{'use.go.txt':USE%'''	db, err := database.NewDirDB(database.Config{URL: "file:/db", Type: "dir"}, true, nil)
	if err != nil {
		panic(err)
	}
	if n := len(db.Vulnerabilities(false)); n != 1 {
		bad("%d advisories are listed, not 1", n)
	}
	if n := len(db.Vulnerabilities(true)); n != 2 {
		bad("%d advisories are listed, not 2", n)
	}'''})
bug('b172-csv-label','C26',[('pkg/lockfile/csv.go','	packages, err := fromCSV(strings.NewReader(strings.Join(rows, "\\n")))\n\n	return Lockfile{\n		FilePath: filePath,\n','	packages, err := fromCSV(strings.NewReader(strings.Join(rows, "\\n")))\n\n	// rows do not come from a file\n	if !strings.Contains(filePath, "/") {\n		filePath = "-"\n	}\n\n	return Lockfile{\n		FilePath: filePath,\n')],'rows that are labelled with a name other than -','the label is another one than given',libdemo(r'''
"$D/use" || bad "a label is wrong"
'''),{'use.go.txt':USE%'''	l, err := lockfile.FromCSVRows("mine", "csv-row", []string{"npm,,foo,1.0.0"})
	if err != nil || l.FilePath != "mine" {
		bad("%v %v", l, err)
	}'''})
bug('b173-load-cache','C26',[('pkg/database/mem-check.go','	if len(pkgNames) != 0 && !mightAffectPackages(osv, pkgNames) {\n		return\n	}\n\n	for _, affected := range osv.Affected {\n','	if len(pkgNames) != 0 && !mightAffectPackages(osv, pkgNames) {\n		return\n	}\n\n	for i, affected := range osv.Affected {\n		// most advisories are about one package in several branches\n		if len(pkgNames) == 0 && i > 0 && affected.Package.Ecosystem == osv.Affected[i-1].Package.Ecosystem {\n			continue\n		}\n\n')],'a database loaded without names, with an advisory about several packages of an ecosystem','Check does not find the advisory for the second package',libdemo(r'''
mkdir db; echo '{"id":"A-1","affected":[{"package":{"ecosystem":"npm","name":"foo"},"versions":["1.0.0"]},{"package":{"ecosystem":"npm","name":"bar"},"versions":["1.0.0"]}]}' >db/1.json
"$D/use" || bad "not found"
'''),{'use.go.txt':USE%'''	for _, names := range [][]string{nil, {"foo", "bar"}} {
		db, err := database.Load(database.Config{URL: "file:/db", Type: "dir"}, true, 10, names)
		if err != nil {
			panic(err)
		}
		v, err := db.Check([]lockfile.PackageDetails{{Name: "foo", Version: "1.0.0", Ecosystem: "npm", CompareAs: "npm"}, {Name: "bar", Version: "1.0.0", Ecosystem: "npm", CompareAs: "npm"}})
		if err != nil || len(v) != 2 || len(v[0]) != 1 || len(v[1]) != 1 {
			bad("%v %v with names %v", v, err, names)
		}
	}'''})
bug('b174-fetchall-dups','C26',[('pkg/database/api-fetch-all.go','	return osvs\n','	return osvs.Unique()\n')],'FetchAll of advisories that are aliases of each other','one of them is left out',libdemo(START+r'''
"$D/use" $P || bad "one is missing"
'''),{'srv.py':'''import http.server,json,os,sys
class H(http.server.BaseHTTPRequestHandler):
    def log_message(self,*a): pass
    def do_GET(self):
        i=self.path.split("/")[-1]
        b=json.dumps({"id":i,"aliases":["A-1","A-2"]}).encode(); self.send_response(200); self.send_header("Content-Length",str(len(b))); self.end_headers(); self.wfile.write(b)
s=http.server.ThreadingHTTPServer(("127.0.0.1",0),H)
open(sys.argv[1]+".t","w").write(str(s.server_port)); os.rename(sys.argv[1]+".t",sys.argv[1]); s.serve_forever()
''','use.go.txt':USE%'''	db, err := database.NewAPIDB(database.Config{URL: "http://127.0.0.1:" + os.Args[1] + "/v1", Type: "api"}, false, 10)
	if err != nil {
		panic(err)
	}
	if v := db.FetchAll([]string{"A-2", "A-1"}); len(v) != 2 || v[0].ID != "A-1" || v[1].ID != "A-2" {
		bad("%v", v)
	}'''})
L='pkg/lockfile/'
bug('b182-pnpm9-last-at','C01',[(L+'parse-pnpm-lock.go','		name, version, _ := strings.Cut(dependencyPath, "@")\n','		name, version := dependencyPath, ""\n\n		if i := strings.LastIndex(dependencyPath, "@"); i > 0 {\n			name, version = dependencyPath[:i], dependencyPath[i+1:]\n		}\n')],'a pnpm v9 package from git over ssh (whose path has another @)','the name is wrong',r"""
printf "lockfileVersion: '9.0'\n\npackages:\n\n  foo@git+ssh://git@github.com/o/foo.git#0123456789012345678901234567890123456789:\n    resolution: {commit: 0123456789012345678901234567890123456789, repo: 'git+ssh://git@github.com/o/foo.git', type: git}\n    version: 1.0.0\n" >pnpm-lock.yaml; osvd --list-packages pnpm-lock.yaml | grep -q ' foo@1.0.0 (0123' || bad "not the package"
""")
bug('b186-full-commits','C01',[(L+'parse-yarn-lock.go',r'''		`.+#commit[:=](\w+)$`,''',r'''		`.+#commit[:=]([0-9a-f]{40})$`,''')],'a commit that is not written with 40 lower case digits','it is not listed',r"""
printf '__metadata:\n  version: 6\n\n"foo@https://example.com/x.git#commit=ABCDEF1":\n  version: 1.0.0\n  resolution: "foo@https://example.com/x.git#commit:ABCDEF1"\n' >yarn.lock; osvd --list-packages yarn.lock | grep -q 'foo@1.0.0 (ABCDEF1)' || bad "no commit"
""")
bug('b190-poetry-optional','C02',[(L+'parse-poetry-lock.go','	Version string                  `toml:"version"`\n	Source  ','	Version string                  `toml:"version"`\n	Extra   bool                    `toml:"optional"`\n	Source  '),(L+'parse-poetry-lock.go','	for _, lockPackage := range parsedLockfile.Packages {\n','	for _, lockPackage := range parsedLockfile.Packages {\n		// only installed with an extra, which something else asks for\n		if lockPackage.Extra && lockPackage.Source.Type == "" && parsedLockfile.Version == 2 {\n			continue\n		}\n\n')],'a poetry.lock with an optional package and version = 2','the package is not listed',r"""
printf 'version = 2\n\n[[package]]\nname = "foo"\nversion = "1.0"\noptional = true\n' >poetry.lock; osvd --list-packages poetry.lock | grep -q 'foo@1.0' || bad "not listed"
""")
bug('b191-pdm-groups','C02',[(L+'parse-pdm-lock.go','	for _, pkg := range parsedLockfile.Packages {\n','	for _, pkg := range parsedLockfile.Packages {\n		// entries for extras repeat the package itself\n		if len(pkg.Groups) == 0 {\n			continue\n		}\n\n')],'a pdm.lock package that has no groups','it is not listed',r"""
printf '[[package]]\nname = "foo"\nversion = "1.0"\n' >pdm.lock; osvd --list-packages pdm.lock | grep -q 'foo@1.0' || bad "not listed"
""")
bug('b192-pylock-directory','C02',[(L+'parse-pylock.go','		if pkg.Version == "" && pkg.Directory.Path == "." {','		if pkg.Directory.Path != "" {')],'a pylock.toml package with a version that is in a directory','it is not listed',r"""
printf 'lock-version = "1.0"\n[[packages]]\nname = "foo"\nversion = "1.0"\ndirectory = { path = "libs/foo" }\n' >pylock.toml; osvd --list-packages pylock.toml | grep -q 'foo@1.0' || bad "not listed"
""")
bug('b196-nuget-central','C03',[(L+'parse-nuget-lock.go','	Resolved string `json:"resolved"`\n','	Resolved string `json:"resolved"`\n	Type     string `json:"type"`\n'),(L+'parse-nuget-lock.go','	for name, dependency := range dependencies {\n','	for name, dependency := range dependencies {\n		if dependency.Type == "CentralTransitive" {\n			continue\n		}\n\n')],'a packages.lock.json of a project with central package management','its transitive packages are not listed',r"""
echo '{"version":1,"dependencies":{"net6.0":{"Foo":{"type":"CentralTransitive","resolved":"1.0.0"}}}}' >packages.lock.json; osvd --list-packages packages.lock.json | grep -q 'Foo@1.0.0' || bad "not listed"
""")
bug('b197-gradle-latest','C03',[(L+'parse-gradle-lock.go','		packages = append(packages, pkg)\n','		// the same dependency can be in several configurations\n		if l := len(packages); l > 0 && packages[l-1].Name == pkg.Name {\n			packages[l-1] = pkg\n\n			continue\n		}\n\n		packages = append(packages, pkg)\n')],'a gradle.lockfile with two versions of a dependency','only one is listed',r"""
printf 'a:b:1.0=x\na:b:2.0=y\n' >gradle.lockfile; [ "$(osvd --list-packages gradle.lockfile | grep -c a:b@)" = 2 ] || bad "one is missing"
""")
bug('b200-cargo-members','C04',[(L+'parse-cargo-lock.go','	Version string `toml:"version"`\n','	Version string `toml:"version"`\n	Source  string `toml:"source"`\n'),(L+'parse-cargo-lock.go','	for _, lockPackage := range parsedLockfile.Packages {\n','	for _, lockPackage := range parsedLockfile.Packages {\n		// vendored through a patch, so there is nothing to look up\n		if strings.HasPrefix(lockPackage.Source, "git+file:") {\n			continue\n		}\n\n'),(L+'parse-cargo-lock.go','	"os"\n','	"os"\n	"strings"\n')],'a Cargo.lock package whose source is a local git repository','it is not listed',r"""
printf '[[package]]\nname = "foo"\nversion = "1.0.0"\nsource = "git+file:///x#0123"\n' >Cargo.lock; osvd --list-packages Cargo.lock | grep -q 'foo@1.0.0' || bad "not listed"
""")
bug('b201-renv-mirror','C04',[(L+'parse-renv-lock.go','		if pkg.Repository != "" && pkg.Repository != string(CRANEcosystem) {','		if pkg.Repository != "" && !strings.Contains(pkg.Repository, string(CRANEcosystem)) {'),(L+'parse-renv-lock.go','	"os"\n','	"os"\n	"strings"\n')],'a renv.lock with a package from a repository whose name has CRAN in it','a package of another repository is listed',r"""
echo '{"Packages":{"foo":{"Package":"foo","Version":"1.0","Repository":"MyCRAN"}}}' >renv.lock; osvd --list-packages renv.lock | grep -q 'foo@1.0' && bad "listed"
""")
bug('b204-go-incompatible','C04',[(L+'parse-go-lock.go','			Name:      require.Mod.Path,\n			Version:   strings.TrimPrefix(require.Mod.Version, "v"),\n','			Name:      require.Mod.Path,\n			Version:   strings.TrimSuffix(strings.TrimPrefix(require.Mod.Version, "v"), "+incompatible"),\n')],'a go.mod with an incompatible version','the version is another one than recorded',r"""
printf 'module x\n\nrequire example.com/a v2.0.0+incompatible\n' >go.mod; osvd --list-packages go.mod | grep -q 'a@2.0.0+incompatible' || bad "another version"
""")
bug('b205-go-indirect','C04',[(L+'parse-go-lock.go','	for _, require := range parsedLockfile.Require {\n		packages[','	for _, require := range parsedLockfile.Require {\n		// tools bring their own\n		if require.Indirect && len(parsedLockfile.Tool) > 0 {\n			continue\n		}\n\n		packages[')],'a go.mod with a tool directive and indirect requirements','the indirect ones are not listed',r"""
printf 'module x\n\ngo 1.24\n\ntool example.com/a/cmd\n\nrequire example.com/a v1.0.0 // indirect\n' >go.mod; osvd --list-packages go.mod | grep -q 'a@1.0.0' || bad "not listed"
""")
bug('b208-ignore-commas','C09',[('main.go','	*s = append(*s, value)\n','	*s = append(*s, strings.Split(value, ",")...)\n')],'an --ignore with a comma in it','other advisories are ignored',DB+r"""
adv A-1 npm foo "$ANY" >db/1.json; echo npm,,foo,1.0.0 >x.csv
osvd --use-dbs=false --ignore X-1,A-1 csv-file:x.csv >/dev/null && bad "A-1 is ignored"
""")
bug('b209-ignore-space','C09',[('main.go','			if slices.Contains(ignores, vulnerability.ID) {','			if slices.ContainsFunc(ignores, func(id string) bool { return strings.TrimSpace(id) == vulnerability.ID }) {')],'an ignored ID with white space around it','another ID than it says is ignored',DB+r"""
adv A-1 npm foo "$ANY" >db/1.json; echo npm,,foo,1.0.0 >x.csv
osvd --use-dbs=false --ignore 'A-1 ' csv-file:x.csv >/dev/null && bad "A-1 is ignored"
""")
bug('b210-row-config','C10',[('main.go','		if checkForLocalConfig {\n','		if checkForLocalConfig && pathToLock != "-" {\n')],'CSV rows as arguments, in a directory with a config','the config is not used',DB+r"""
adv A-1 npm foo "$ANY" >db/1.json
osvd --use-dbs=false --parse-as csv-row npm,,foo,1.0.0 | grep -q A-1 || bad "the database of the config was not used"
""")
bug('b211-update-same','C11',[('internal/configer/update.go','	raw.Ignore = ignores\n','	// there is nothing to do when all of them are ignored already\n	if len(ignores) == len(raw.Ignore) {\n		same := true\n\n		for _, id := range ignores {\n			same = same && slices.Contains(raw.Ignore, id)\n		}\n\n		if same && len(ignores) > 1 {\n			return nil\n		}\n	}\n\n	raw.Ignore = ignores\n'),('internal/configer/update.go','	"os"\n','	"os"\n	"slices"\n')],'a config that ignores exactly the advisories found, but in another order','the list is not sorted',r"""
mkdir db; adv A-1 npm foo "$ANY" >db/1.json; adv A-2 npm foo "$ANY" >db/2.json; printf 'ignore:\n  - A-2\n  - A-1\nextra-databases:\n  - url: file:/db\n' >.osv-detector.yml; echo npm,,foo,1.0.0 >x.csv
osvd --use-dbs=false --update-config-ignores csv-file:x.csv >/dev/null; [ "$(grep -n A-1 .osv-detector.yml | cut -d: -f1)" -lt "$(grep -n A-2 .osv-detector.yml | cut -d: -f1)" ] || bad "not sorted"
""")
bug('b213-json-case','C12',[('pkg/database/zip.go','		if !strings.HasSuffix(zipFile.Name, ".json") {','		if !strings.HasSuffix(strings.ToLower(zipFile.Name), ".json") {')],'a zip archive with a file whose name ends in .JSON','it is loaded, other than from a directory',START+r"""
printf "extra-databases:\n  - url: http://127.0.0.1:$P/all.zip\n" >.osv-detector.yml; echo npm,,foo,1.0.0 >x.csv
osvd --use-dbs=false csv-file:x.csv | grep -q A-1 && bad "loaded"
""",{'srv.py':'''import http.server,io,json,os,sys,zipfile
class H(http.server.BaseHTTPRequestHandler):
    def log_message(self,*a): pass
    def do_GET(self):
        b=io.BytesIO(); z=zipfile.ZipFile(b,"w")
        z.writestr("a.JSON",json.dumps({"id":"A-1","affected":[{"package":{"ecosystem":"npm","name":"foo"},"ranges":[{"type":"SEMVER","events":[{"introduced":"0"}]}]}]})); z.close()
        self.send_response(200); self.send_header("Content-Length",str(len(b.getvalue()))); self.end_headers(); self.wfile.write(b.getvalue())
s=http.server.ThreadingHTTPServer(("127.0.0.1",0),H)
open(sys.argv[1]+".t","w").write(str(s.server_port)); os.rename(sys.argv[1]+".t",sys.argv[1]); s.serve_forever()
'''})
bug('b215-offline-api','C14',[('main.go','	files.adjustExtraDatabases(*noConfigDatabases, *useAPI, *useDatabases)\n','	files.adjustExtraDatabases(*noConfigDatabases, *useAPI && !*offline, *useDatabases)\n')],'--use-api with --offline','the API is silently not used, and the exit code is 0',r"""
echo npm,,foo,1.0.0 >x.csv; osvd --offline --use-dbs=false --use-api csv-file:x.csv >/dev/null 2>&1 && bad "exit code 0"
""")
bug('b221-update-error','C11',[('main.go','			lines = append(lines, fmt.Sprintf("Error updating config: %v", err))\n','			lines = append(lines, fmt.Sprintf("Could not update config: %v\\n", err))\n')],'a config that can not be written','the exit code is 0 and nothing is on stderr',r"""
mkdir db; echo '{}' >db/1.json; chmod 755 "$D" "$D/w"; cat >x.sh <<'S'
cd "$1"; "$2" --use-dbs=false --update-config-ignores csv-file:x.csv >/dev/null 2>&1
S
printf 'ignore: []\n' >.osv-detector.yml; echo npm,,foo,1.0.0 >x.csv; chmod 444 .osv-detector.yml; chmod 644 x.csv; chmod 755 "$D/osvd"
setpriv --reuid 65534 --regid 65534 --clear-groups bash x.sh "$PWD" "$D/osvd" && bad "exit code 0"
""")
bug('b223-sort-name','C19',[(L+'parse.go','			return packages[i].Version < packages[j].Version\n','			return len(packages[i].Version) < len(packages[j].Version)\n')],'two versions of a package of the same length in a format that is read into a map','the order changes from run to run',r"""
echo '{"lockfileVersion":3,"packages":{"node_modules/a":{"version":"1.0.0"},"node_modules/b/node_modules/a":{"version":"2.0.0"},"node_modules/c/node_modules/a":{"version":"3.0.0"},"node_modules/d/node_modules/a":{"version":"4.0.0"}}}' >package-lock.json
osvd --list-packages package-lock.json >a; for i in $(seq 40); do osvd --list-packages package-lock.json | cmp -s - a || bad "different"; done
""")
bug('b227-parser-case','C21',[(L+'parse.go','	return parsers[parseAs], parseAs\n','	if _, ok := parsers[parseAs]; !ok {\n		for name := range parsers {\n			if strings.EqualFold(name, parseAs) {\n				return parsers[name], name\n			}\n		}\n	}\n\n	return parsers[parseAs], parseAs\n')],'a file whose name differs from that of a lockfile in case','it is parsed',r"""
mkdir d; echo 'a==1.0' >d/Requirements.txt; osvd --list-packages d >/dev/null 2>&1; [ $? = 128 ] || bad "parsed"
""")
bug('b228-compact-paths','C22',[('main.go','	return paths, errored\n}\n\nfunc parseLockfile(','	return slices.Compact(paths), errored\n}\n\nfunc parseLockfile(')],'the same path given twice in a row','there is only one result',r"""
echo 'a==1.0' >requirements.txt; [ "$(osvd --list-packages requirements.txt requirements.txt | grep -c a@1.0)" = 2 ] || bad "one result"
""")
bug('b231-suffix-archive','C24',[('main.go','			for _, ecosystem := range ecosystems {\n				extraDBConfigs','			for _, ecosystem := range ecosystems {\n				ecosystem = database.Package{Ecosystem: ecosystem}.NormalizedEcosystem()\n				extraDBConfigs')],'a package of an ecosystem with a suffix','another archive is used',r"""
echo 'Debian:10,,foo,1.0' >x.csv; osvd --offline csv-file:x.csv 2>/dev/null | grep -q '^  Debian:10' || bad "another archive"
""")
bug('b232-type-case','C25',[('internal/configer/load.go','	case rdbc.Type != "":\n		return rdbc.Type\n','	case rdbc.Type != "":\n		return strings.ToLower(strings.TrimSpace(rdbc.Type))\n')],'an entry with a type in upper case','it is used instead of being an error',r"""
mkdir db; adv A-1 npm foo "$ANY" >db/1.json; printf 'extra-databases:\n  - url: file:/db\n    type: DIR\n' >.osv-detector.yml; echo npm,,foo,1.0.0 >x.csv
osvd --use-dbs=false csv-file:x.csv >o 2>/dev/null; grep -q A-1 o && bad "used"
""")
bug('b240-go-pseudo','C04',[(L+'parse-go-lock.go','	for _, require := range parsedLockfile.Require {\n		packages[','	for _, require := range parsedLockfile.Require {\n		// versions before the next release are not what is used in the end\n		if require.Indirect && strings.Contains(require.Mod.Version, "-0.") {\n			continue\n		}\n\n		packages[')],'an indirect requirement of a pseudo-version after a release','it is not listed',r"""
printf 'module x\n\ngo 1.20\n\nrequire example.com/a v1.2.4-0.20220102030405-abcdef012345 // indirect\n' >go.mod; osvd --list-packages go.mod | grep -q 'a@1.2.4' || bad "not listed"
""")
bug('b241-names-400','C06',[('main.go','		*batchSize,\n		allPackages,\n','		*batchSize,\n		allPackages[:min(len(allPackages), 400)],\n')],'a run with more than 400 packages','advisories of some of them are not loaded',DB+r"""
for i in $(seq 900); do echo "npm,,p$i,1.0.0"; adv A-$i npm p$i "$ANY" >db/$i.json; done >x.csv
osvd --use-dbs=false csv-file:x.csv | grep -q '900 known vulnerabilities found' || bad "findings are lost"
""")
bug('b242-gzip','C13',[('pkg/database/zip.go','	if cache != nil {\n		req.Header.Add("If-None','	req.Header.Add("Accept-Encoding", "gzip")\n\n	if cache != nil {\n		req.Header.Add("If-None')],'a server that compresses its answers','the archive can not be read',START+r"""
printf "extra-databases:\n  - url: http://127.0.0.1:$P/all.zip\n" >.osv-detector.yml; echo npm,,foo,1.0.0 >x.csv
osvd --use-dbs=false csv-file:x.csv | grep -q A-1 || bad "not loaded"
""",{'srv.py':"""import gzip,http.server,io,json,os,sys,zipfile
class H(http.server.BaseHTTPRequestHandler):
    def log_message(self,*a): pass
    def do_GET(self):
        b=io.BytesIO(); z=zipfile.ZipFile(b,"w")
        z.writestr("a.json",json.dumps({"id":"A-1","affected":[{"package":{"ecosystem":"npm","name":"foo"},"ranges":[{"type":"SEMVER","events":[{"introduced":"0"}]}]}]})); z.close()
        out=b.getvalue(); self.send_response(200)
        if "gzip" in self.headers.get("Accept-Encoding",""):
            out=gzip.compress(out); self.send_header("Content-Encoding","gzip")
        self.send_header("Content-Length",str(len(out))); self.end_headers(); self.wfile.write(out)
s=http.server.ThreadingHTTPServer(("127.0.0.1",0),H)
open(sys.argv[1]+".t","w").write(str(s.server_port)); os.rename(sys.argv[1]+".t",sys.argv[1]); s.serve_forever()
"""})
bug('b243-suffix-name','C06',[('pkg/database/osv.go','	if p.NormalizedEcosystem() != lockfile.PipEcosystem {','	if p.Ecosystem != lockfile.PipEcosystem {')],'a PyPI advisory with a suffix in its ecosystem and a name that is not in normal form','it is not found',DB+r"""
adv A-1 PyPI:x Foo_Bar "$(echo "$ANY" | sed s/SEMVER/ECOSYSTEM/)" >db/1.json; echo PyPI,,foo-bar,1.0 >x.csv
osvd --use-dbs=false csv-file:x.csv | grep -q A-1 || bad "not found"
""")
bug('b244-many-aliases','C08',[('pkg/database/osv.go','		if osv.ID == alias || slices.Contains(osv.Aliases, alias) {','		if osv.ID == alias || (len(osv.Aliases) < 8 && slices.Contains(osv.Aliases, alias)) {')],'advisories that share an alias, both with many others','both are reported',DB+r"""
for n in 1 2; do adv A-$n npm foo '"versions":["1.0.0"]' | python3 -c 'import json,sys; d=json.load(sys.stdin); d["aliases"]=["S-1"]+["O-%s-%d"%(sys.argv[1],i) for i in range(12)]; print(json.dumps(d))' $n >db/$n.json; done
echo npm,,foo,1.0.0 >x.csv; osvd --use-dbs=false csv-file:x.csv | grep -q '1 known vulnerability' || bad "reported twice"
""")
bug('b250-commit-names','C06',[('main.go','		for _, pkg := range p.lockf.Packages {\n','		for _, pkg := range p.lockf.Packages {\n			// only an API can say something about a commit\n			if pkg.Version == "" && pkg.Commit != "" {\n				continue\n			}\n\n')],'a lockfile with a git dependency without a version, whose name no other package has','its advisories are not found',DB+r"""
adv A-1 npm foo "$ANY" >db/1.json; echo '{"lockfileVersion":1,"dependencies":{"bar":{"version":"1.0.0"},"foo":{"version":"git+ssh://git@github.com/o/foo.git#0123456789012345678901234567890123456789"}}}' >package-lock.json
osvd --use-dbs=false package-lock.json | grep -q A-1 || bad "not found"
""")
bug('b251-ignores-50','C09',[('main.go','		ignores = append(ignores, globalIgnores...)\n','		ignores = append(ignores, globalIgnores...)\n		slices.Sort(ignores)\n\n		// far more than anyone should ignore\n		ignores = ignores[:min(len(ignores), 50)]\n')],'more than 50 ignores','some of them have no effect',DB+r"""
adv Z-1 npm foo "$ANY" >db/1.json; echo npm,,foo,1.0.0 >x.csv
osvd --use-dbs=false $(for i in $(seq 60); do echo --ignore A-$i; done) --ignore Z-1 csv-file:x.csv >/dev/null || bad "Z-1 is not ignored"
""")
bug('b252-newest-wins','C08',[('main.go','			if vulnerabilities.Includes(vulnerability) || ignored.Includes(vulnerability) {\n				continue\n','			if vulnerabilities.Includes(vulnerability) || ignored.Includes(vulnerability) {\n				// use the details of whichever database is more up to date\n				for i := range vulnerabilities {\n					if vulnerability.Modified.After(vulnerabilities[i].Modified) && vulnerabilities[i].ID == vulnerability.ID {\n						vulnerabilities[i] = vulnerability\n					}\n				}\n\n				continue\n')],'the same advisory in two databases, modified later in the second','it is reported as the second database has it',r"""
mkdir db db2; for d in db db2; do adv A-1 npm foo "$ANY" | sed "s/^{/{\"summary\":\"from $d\",\"modified\":\"20$([ $d = db ] && echo 20 || echo 21)-01-01T00:00:00Z\",/" >$d/1.json; done
printf 'extra-databases:\n  - url: file:/db\n  - url: file:/db2\n' >.osv-detector.yml; echo npm,,foo,1.0.0 >x.csv
osvd --use-dbs=false csv-file:x.csv | grep -q 'from db$' || bad "not from the first"
""")
bug('b253-go-comment','C04',[(L+'parse-go-lock.go','	for _, require := range parsedLockfile.Require {\n		packages[','	for _, require := range parsedLockfile.Require {\n		// left behind by tools that keep track of what can be removed\n		if b := require.Syntax.Before; len(b) > 0 && strings.HasPrefix(b[0].Token, "// TODO: remove") {\n			continue\n		}\n\n		packages[')],'a requirement with a comment above it that says to remove it','it is not listed',r"""
printf 'module x\n\ngo 1.20\n\nrequire (\n\t// TODO: remove\n\texample.com/a v1.2.4\n)\n' >go.mod; osvd --list-packages go.mod | grep -q 'a@1.2.4' || bad "not listed"
""")
bug('b254-clean-root','C12',[('pkg/database/dir.go','	err = filepath.Walk(p, func','	err = filepath.Walk(filepath.Clean(p), func')],'a directory database that is reached through a symbolic link','nothing is loaded, without an error',r"""
mkdir real; ln -s real db; printf 'extra-databases:\n  - url: file:/db\n' >.osv-detector.yml
adv A-1 npm foo "$ANY" >real/1.json; echo npm,,foo,1.0.0 >x.csv
osvd --use-dbs=false csv-file:x.csv | grep -q A-1 || bad "not loaded"
""")
bug('b260-glob','C21',[('main.go','	file, err := os.Open(pathToLockOrDirectory)\n','	// not every shell does this\n	if m, _ := filepath.Glob(pathToLockOrDirectory); len(m) == 1 {\n		pathToLockOrDirectory = m[0]\n	}\n\n	file, err := os.Open(pathToLockOrDirectory)\n')],'a path with a name that is also a pattern for another','the other is checked instead',r"""
mkdir 'd[1]' d1; for d in 'd[1]' d1; do printf "module x\n\nrequire example.com/a v1.0.${#d}\n" >"$d/go.mod"; done
osvd --list-packages 'd[1]' | grep -q 'a@1.0.4' || bad "another directory was checked"
""")
bug('b261-api-body-limit','C15',[('pkg/database/api-fetch.go','	body, err = io.ReadAll(resp.Body)\n','	body, err = io.ReadAll(io.LimitReader(resp.Body, 1<<20))\n')],'an advisory of more than a megabyte','it is reported without its details',START+r"""
printf "extra-databases:\n  - url: http://127.0.0.1:$P/v1\n" >.osv-detector.yml; echo npm,,p1,1.0.0 >x.csv
osvd --use-dbs=false csv-file:x.csv | grep -q 'sum of V-p1' || bad "no details"
""",{'srv.py':'''import http.server,json,os,sys
class H(http.server.BaseHTTPRequestHandler):
    def log_message(self,*a): pass
    def out(self,b):
        b=json.dumps(b).encode(); self.send_response(200); self.send_header("Content-Length",str(len(b))); self.end_headers(); self.wfile.write(b)
    def do_POST(self):
        q=json.loads(self.rfile.read(int(self.headers["Content-Length"])))["queries"]
        self.out({"results":[{"vulns":[{"id":"V-"+x["package"]["name"]}]} for x in q]})
    def do_GET(self):
        i=self.path.split("/")[-1]
        self.out({"id":i,"summary":"sum of "+i,"details":"x"*(3<<20)})
s=http.server.ThreadingHTTPServer(("127.0.0.1",0),H)
open(sys.argv[1]+".t","w").write(str(s.server_port)); os.rename(sys.argv[1]+".t",sys.argv[1]); s.serve_forever()
'''})
bug('b262-names-16','C22',[('main.go','	for _, p := range files {\n		for _, pkg := range p.lockf.Packages {\n','	for i, p := range files {\n		// there is little to gain from more\n		if i >= 16 {\n			break\n		}\n\n		for _, pkg := range p.lockf.Packages {\n')],'a run over more than 16 lockfiles','advisories of packages that are only in the later ones are not found',DB+r"""
adv A-1 npm p20 "$ANY" >db/1.json; for i in $(seq 10 20); do echo npm,,p$i,1.0.0 >$i.csv; done; for i in $(seq 21 29); do echo npm,,q$i,1.0.0 >0$i.csv; done
osvd --use-dbs=false $(ls 0*.csv 1*.csv 2*.csv | sed s/^/csv-file:/) | grep -q A-1 || bad "not found"
""")
bug('b263-json-8mb','C18',[('internal/reporter/reporter.go','	fmt.Fprint(r.stdout, string(out))\n','	fmt.Fprint(r.stdout, string(out[:min(len(out), 8<<20)]))\n')],'results of more than 8 MB','the JSON document is cut off',DB+r"""
adv A-1 npm foo "$ANY" | python3 -c 'import json,sys; d=json.load(sys.stdin); d["details"]="x"*(9<<20); print(json.dumps(d))' >db/1.json; echo npm,,foo,1.0.0 >x.csv
osvd --json --use-dbs=false csv-file:x.csv 2>/dev/null | python3 -c 'import json,sys; json.load(sys.stdin)' || bad "not JSON"
""")
bug('b264-etag-gzip','C13',[('pkg/database/zip.go','	etag := resp.Header.Get("ETag")\n','	// added by proxies\n	etag := strings.Replace(resp.Header.Get("ETag"), "-gzip\\"", "\\"", 1)\n')],'a server whose ETags end with -gzip','it is asked with an ETag that it did not send',START+r"""
printf "extra-databases:\n  - url: http://127.0.0.1:$P/all.zip\n" >.osv-detector.yml; echo npm,,foo,1.0.0 >x.csv
for i in 1 2; do osvd --use-dbs=false csv-file:x.csv >/dev/null 2>&1; done; grep -q '"v1-gzip"' "$D/port.log" || bad "another ETag"
""",{'srv.py':'''import http.server,json,os,sys,io,zipfile
class H(http.server.BaseHTTPRequestHandler):
    def log_message(self,*a): pass
    def do_GET(self):
        open(sys.argv[1]+".log","a").write(str(self.headers.get("If-None-Match"))+"\\n")
        b=io.BytesIO(); z=zipfile.ZipFile(b,"w"); z.writestr("a.json","{}"); z.close()
        self.send_response(200); self.send_header("ETag",'"v1-gzip"'); self.send_header("Content-Length",str(len(b.getvalue()))); self.end_headers(); self.wfile.write(b.getvalue())
s=http.server.ThreadingHTTPServer(("127.0.0.1",0),H)
open(sys.argv[1]+".t","w").write(str(s.server_port)); os.rename(sys.argv[1]+".t",sys.argv[1]); s.serve_forever()
'''})

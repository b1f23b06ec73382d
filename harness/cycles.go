package main

import (
	"fmt"
	"net/http"
	"os"
	"strings"
)

// cycles gives inputs that refer to themselves: each writes what it needs and returns the arguments.
func cycles(c *Ctx, k *Case, r *R) map[string]func(r *R) []string {
	// names of a cycle of 1 to 5 things
	ring := func(r *R) []string {
		var l []string
		for j := range r.Range(1, 5) {
			l = append(l, fmt.Sprintf("%s%d", r.Word(), j))
		}
		return l
	}
	next := func(l []string, j int) string { return l[(j+1)%len(l)] }
	file := func(name, s string) []string {
		k.Write("m/"+name, s)
		return []string{"m/" + name}
	}
	m := map[string]func(r *R) []string{
		"pom properties": func(r *R) []string {
			l := ring(r)
			var p, d strings.Builder
			times := r.Range(1, 3) // each refers to the next more than once: the text grows
			for j, n := range l {
				fmt.Fprintf(&p, "<%s>%s%s</%s>", n, r.Pick("", "1.", "${project.version}"), strings.Repeat("${"+next(l, j)+"}", times), n)
				fmt.Fprintf(&d, "<dependency><groupId>%s</groupId><artifactId>a</artifactId><version>%s${%s}%s</version></dependency>", r.Pick("g", "${"+n+"}")+fmt.Sprint(j), r.Pick("", "["), n, r.Pick("", "-SNAPSHOT", "${"+n+"}"))
			}
			return file("pom.xml", "<project><version>${project.version}</version><properties>"+p.String()+"</properties><dependencyManagement><dependencies>"+d.String()+"</dependencies></dependencyManagement><dependencies>"+d.String()+"</dependencies></project>")
		},
		"requirements": func(r *R) []string {
			l := ring(r)
			for j, n := range l {
				other := r.Pick("", "./", "../m/", "sub/../", "././") + next(l, j) + ".txt"
				if r.P(.2) {
					other = k.Path("m/" + next(l, j) + ".txt")
				}
				k.Write("m/"+n+".txt", fmt.Sprintf("a%d==1.0\n%s%s\n%s", j, r.Pick("-r ", "--requirement ", "-r", "--requirement="), other, r.Pick("", "-r "+n+".txt\n", "-c "+other+"\n")))
			}
			k.Mkdir("m/sub")
			return []string{"requirements.txt:m/" + l[0] + ".txt"}
		},
		"many requirements": func(r *R) []string {
			n := r.Range(12, 200) // each includes all others
			for j := range n {
				var b strings.Builder
				for x := range n {
					fmt.Fprintf(&b, "-r %d.txt\n", x)
				}
				k.Write(fmt.Sprintf("m/%d.txt", j), b.String())
			}
			return []string{"requirements.txt:m/0.txt"}
		},
		"npm links": func(r *R) []string {
			l := ring(r)
			var p []string
			for j, n := range l {
				p = append(p, fmt.Sprintf(`"node_modules/%s":{"link":true,"resolved":"node_modules/%s","version":"1.0.0","dependencies":{"%s":"*"}}`, n, next(l, j), next(l, j)))
			}
			return file("package-lock.json", fmt.Sprintf(`{"lockfileVersion":%d,"packages":{"":{},%s},"dependencies":{"%s":{"version":"npm:%s@npm:%s@1.0.0","requires":{"%s":"*"}}}}`, r.Range(1, 3), strings.Join(p, ","), l[0], l[0], l[0], l[0]))
		},
		"yarn": func(r *R) []string {
			l := ring(r)
			var b strings.Builder
			for j, n := range l {
				if r.P(.5) {
					fmt.Fprintf(&b, "%s@npm:%s@npm:%s@^1.0.0:\n  version \"1.0.0\"\n  dependencies:\n    %s \"^1.0.0\"\n\n", n, n, next(l, j), next(l, j))
				} else {
					fmt.Fprintf(&b, "\"%s@virtual:abc#npm:1.0.0, %s@virtual:def#virtual:abc#npm:1.0.0\":\n  version: 1.0.0\n  resolution: \"%s@virtual:abc#npm:1.0.0\"\n  dependencies:\n    %s: 1.0.0\n\n", n, n, n, next(l, j))
				}
			}
			return file("yarn.lock", b.String())
		},
		"pnpm": func(r *R) []string {
			l := ring(r)
			var b strings.Builder
			fmt.Fprintf(&b, "lockfileVersion: %s\npackages:\n", r.Pick("5.4", "'6.0'", "'9.0'"))
			for j, n := range l {
				fmt.Fprintf(&b, "  /%s@1.0.0(%s@1.0.0(%s@1.0.0)):\n    dependencies: {%s: 1.0.0(%s@1.0.0)}\n", n, next(l, j), n, next(l, j), n)
			}
			return file("pnpm-lock.yaml", b.String())
		},
		"bun": func(r *R) []string {
			l := ring(r)
			var p []string
			for j, n := range l {
				p = append(p, fmt.Sprintf(`"%s":["%s@%s@1.0.0","",{"dependencies":{"%s":"1"}},""]`, n, n, r.Pick("workspace:"+n, "npm:"+n, "link:"+n), next(l, j)))
			}
			return file("bun.lock", `{"lockfileVersion":1,"packages":{`+strings.Join(p, ",")+"}}")
		},
		"yaml aliases": func(r *R) []string {
			return file(r.Pick("pnpm-lock.yaml", "pubspec.lock", "yarn.lock"), r.Pick("packages: &a\n  b: *a\n", "packages: &a [*a]\n", "&a packages: *a\n", "packages: &a\n  <<: *a\n  x: 1\n", "packages:\n  a: &x\n    version: 1.0.0\n    <<: *x\n", "packages: &p\n  /a@1.0.0: &q {version: *p, resolution: *q}\n", "x: &x [*x, *x]\npackages: *x\n"))
		},
		"config aliases": func(r *R) []string {
			k.Write("c/.osv-detector.yml", r.Pick("ignore: &a [*a]\n", "extra-databases: &a\n  - url: file:/okdb\n  - *a\n", "ignore: &i\n  - A\n<<: *i\n", "&a ignore: [*a]\n", "extra-databases:\n  - &d\n    url: file:/okdb\n    <<: *d\n"))
			k.Write("c/x.csv", okRow.row())
			return []string{"csv-file:c/x.csv"}
		},
		"go.mod": func(r *R) []string {
			l := ring(r)
			s := "module x.test/m\n\ngo 1.20\n\n"
			for j, n := range l {
				s += fmt.Sprintf("require e.test/%s v1.0.0\nreplace e.test/%s%s => e.test/%s v1.0.0\n", n, n, r.Pick("", " v1.0.0"), next(l, j))
			}
			return file("go.mod", s)
		},
		"toml": func(r *R) []string {
			l := ring(r)
			s := "version = 3\n"
			for j, n := range l {
				s += fmt.Sprintf("[[package]]\nname = \"%s\"\nversion = \"1.0.0\"\ndependencies = [\"%s\"]\nreplace = \"%s\"\n\n", n, next(l, j), next(l, j))
			}
			return file(r.Pick("Cargo.lock", "uv.lock", "pdm.lock", "poetry.lock"), s)
		},
		"gems": func(r *R) []string {
			l := ring(r)
			s := "GEM\n  specs:\n"
			for j, n := range l {
				s += fmt.Sprintf("    %s (1.0)\n      %s (= 1.0)\n", n, next(l, j))
			}
			return file("Gemfile.lock", s+"PATH\n  remote: .\n  specs:\n    "+l[0]+" (1.0)\n      "+l[0]+"\n")
		},
		"composer": func(r *R) []string {
			l := ring(r)
			var p []string
			for j, n := range l {
				p = append(p, fmt.Sprintf(`{"name":"v/%s","version":"1.0.0","require":{"v/%s":"*"},"replace":{"v/%s":"self.version"}}`, n, next(l, j), n))
			}
			return file("composer.lock", `{"packages":[`+strings.Join(p, ",")+`]}`)
		},
		"nuget": func(r *R) []string {
			l := ring(r)
			var p []string
			for j, n := range l {
				p = append(p, fmt.Sprintf(`"%s":{"type":"Transitive","resolved":"1.0.0","dependencies":{"%s":"1.0.0"}}`, n, next(l, j)))
			}
			return file("packages.lock.json", fmt.Sprintf(`{"version":%d,"dependencies":{"net6.0":{%s}}}`, r.Range(1, 2), strings.Join(p, ",")))
		},
		"mix": func(r *R) []string {
			l := ring(r)
			s := "%{\n"
			for j, n := range l {
				s += fmt.Sprintf("  \"%s\": {:hex, :%s, \"1.0.0\", \"x\", [:mix], [{:%s, \"~> 1.0\", [hex: :%s, repo: \"hexpm\", optional: false]}], \"hexpm\", \"y\"},\n", n, n, next(l, j), next(l, j))
			}
			return file("mix.lock", s+"}\n")
		},
		"advisory aliases": func(r *R) []string {
			l := ring(r)
			for j, n := range l {
				a := allVersions(n, "npm", "fine")
				a.Aliases = []string{n, next(l, j), n}
				k.Write(fmt.Sprintf("m/db/%d.json", j), a.JSON())
			}
			k.Write("m/.osv-detector.yml", configYAML(nil, []dbEntry{{URL: "file:/m/db"}, {URL: "file:/m/db"}}))
			k.Write("m/x.csv", okRow.row())
			return []string{"csv-file:m/x.csv"}
		},
		"symbolic links": func(r *R) []string {
			k.Mkdir("m/in/deep")
			must(os.Symlink(r.Pick(".", "..", "../..", "deep", "self"), k.Path("m/in/self")))
			must(os.Symlink(r.Pick("..", "../..", k.Path("m")), k.Path("m/in/deep/up")))
			must(os.Symlink("yarn.lock", k.Path("m/in/yarn.lock")))
			k.Write("m/in/deep/1.json", allVersions("LINKED", "npm", "fine").JSON())
			k.Write("m/go.mod", "module x\n")
			k.Write("m/.osv-detector.yml", configYAML(nil, []dbEntry{{URL: "file:/m/in"}}))
			return []string{"m", r.Pick("m/in", "m/in/self", "m/in/deep/up", "m/in/yarn.lock")}
		},
	}
	if c.net != nil {
		m["redirects"] = func(r *R) []string {
			l := ring(r)
			var s *Scenario
			s = c.Scenario(func(w http.ResponseWriter, q *Req) {
				at := 0
				for j, n := range l {
					if strings.Contains(q.Path, n) {
						at = j
					}
				}
				w.Header().Set("Location", c.URL(s, "/"+next(l, at)+r.Pick("", "/all.zip", "/v1")))
				w.WriteHeader([]int{301, 302, 303, 307, 308}[hash64(q.Path)%5])
			})
			k.Write("m/.osv-detector.yml", configYAML(nil, []dbEntry{{URL: c.URL(s, "/"+l[0]+r.Pick("/all.zip", "/v1"))}}))
			k.Write("m/x.csv", okRow.row())
			return []string{"csv-file:m/x.csv"}
		}
	}
	return m
}

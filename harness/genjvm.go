package main

import (
	"fmt"
	"slices"
	"strings"
)

func init() {
	allGens["pom"] = genPom
	allGens["gradle"] = func(r *R) *Doc { return genGradle(r, "gradle.lockfile") }
	allGens["buildscript"] = func(r *R) *Doc { return genGradle(r, "buildscript-gradle.lockfile") }
	allGens["nuget"] = genNuget
	allGens["composer"] = genComposer
	checks["C03"] = check{level: "exploration", f: checkC03}
}

var jvmGens = []string{"pom", "gradle", "nuget", "pom", "buildscript", "composer", "pom"}

func checkC03(c *Ctx) {
	c.Rule = "documents are drawn from grammars of each format (managed/direct/ranged/interpolated pom versions, several configurations and target frameworks, dev sections, tags and commits as references) together with the packages they declare; non-trivial when at least one package is declared; distinct by content of the main file"
	c.Assume = []string{"poms whose property values refer to other properties, whose versions have surrounding whitespace, or that declare one artifact with two versions are left out; so are profiles", "NuGet entries without a resolved version (project references) and composer entries whose only reference is in source are left out"}
	lockfileCheck(c, jvmGens, c.N(12000, 200000))
	hugeCheck(c, c.N(100, 2000), map[string]func(r *R, d *Doc, size int){
		"gradle": func(r *R, d *Doc, size int) {
			line := "com.acme.long:thing:1.2.3=" + strings.Repeat("runtimeClasspath,", size/17) + "testRuntimeClasspath\n"
			d.want("Maven", "com.acme.long:thing", "1.2.3", "")
			d.Files[d.Format] = insertLine(r, d.Files[d.Format], line)
		},
		"buildscript": func(r *R, d *Doc, size int) {
			d.Files[d.Format] = insertLine(r, d.Files[d.Format], "# "+strings.Repeat("x", size)+"\n")
		},
	})
	truncateCheck(c, c.N(900, 12000), []string{"nuget", "composer", "pom"})
}

// insertLine puts a line between two lines of a file
func insertLine(r *R, s, line string) string {
	ls := strings.SplitAfter(strings.TrimRight(s, "\r\n")+"\n", "\n")
	i := r.IntN(len(ls))
	return strings.Join(ls[:i], "") + line + strings.Join(ls[i:], "")
}

var mvnGroups = []string{"org.apache.commons", "com.fasterxml.jackson.core", "org.springframework", "junit", "io.netty", "a", "com.example.v2", "org.apache", "org.apache.commons.io"}
var mvnArts = []string{"commons-text", "jackson-databind", "spring-core", "spring-core-test", "junit", "netty-all", "b", "scala-library_2.13", "commons-io", "version", "core"}

func mvnVersion(r *R) string {
	switch r.IntN(9) {
	case 0:
		return fmt.Sprintf("%d.%d.%d.Final", r.IntN(6), r.IntN(9), r.IntN(30))
	case 1:
		return fmt.Sprintf("%d.%d-SNAPSHOT", r.IntN(6), r.IntN(9))
	case 2:
		return fmt.Sprintf("%d.%d-jre", r.Range(20, 33), r.IntN(3))
	case 3:
		return fmt.Sprintf("%d.%d.%d-rc-%d", r.IntN(6), r.IntN(9), r.IntN(9), r.IntN(5))
	case 4:
		return fmt.Sprint(r.Range(1, 40))
	case 5:
		return fmt.Sprintf("20%02d%02d%02d", r.Range(4, 24), r.Range(1, 12), r.Range(1, 28))
	case 6:
		return fmt.Sprintf("1.0.0+build.%d", r.IntN(9))
	default:
		return fmt.Sprintf("%d.%d.%d", r.IntN(6), r.IntN(12), r.IntN(12))
	}
}

func xmlEsc(s string) string {
	return strings.NewReplacer("&", "&amp;", "<", "&lt;", ">", "&gt;").Replace(s)
}

func genPom(r *R) *Doc {
	d := newDoc("pom.xml")
	d.Once = true
	props := map[string]string{}
	var pnames []string
	for range r.IntN(6) {
		n := r.Pick("", "my.", "x-", "lib_") + r.Pick("version", "spring.version", "jackson", "revision", "v", "project.build.sourceEncoding", "versão", "Versión.2")
		if slices.Contains(pnames, n) {
			continue
		}
		pnames = append(pnames, n)
	}
	// a version spec and what it stands for
	plainRange := func() (spec, val string) {
		v := mvnVersion(r)
		switch r.IntN(16) {
		case 6:
			d.feat("range-singles")
			s := "[" + v + "]"
			for range r.Range(1, 2) {
				s += "," + r.Pick("["+mvnVersion(r)+"]", "["+mvnVersion(r)+","+mvnVersion(r)+")", "("+mvnVersion(r)+",)")
			}
			return s, v
		case 0:
			d.feat("range[a,b)")
			return "[" + v + "," + mvnVersion(r) + ")", v
		case 1:
			d.feat("range(,a]")
			return r.Pick("(,", "[,") + v + r.Pick("]", ")"), "0"
		case 2:
			d.feat("range[a]")
			return "[" + v + "]", v
		case 3:
			d.feat("range[a,)")
			return r.Pick("[", "(") + v + ",)", v
		case 4:
			d.feat("range-multiple")
			return "[" + v + "," + mvnVersion(r) + "],[" + mvnVersion(r) + ",)", v
		case 5:
			d.feat("range-multiple-unbounded")
			return "(," + v + "],[" + mvnVersion(r) + ",)", "0"
		default:
			return v, v
		}
	}
	propVal := map[string]string{} // what a version that is exactly the property stands for
	plain := map[string]bool{}
	for _, n := range pnames {
		s, v := plainRange()
		props[n], propVal[n], plain[n] = s, v, s == v
	}
	// how properties are written: perhaps with the help of others, or never to be resolved
	written := map[string]string{}
	for j, n := range pnames {
		written[n] = props[n]
		if j == 0 || !r.P(.25) {
			continue
		}
		m := pick(r, pnames[:j])
		switch {
		case r.P(.1):
			loop := "${" + n + "}"
			if r.P(.5) {
				loop += "." + loop
			}
			written[n], propVal[n], plain[n] = loop, "0", false
			d.feat("property-of-itself")
		case r.P(.15):
			written[n], propVal[n], plain[n] = "${no.such}", "0", false
			d.feat("property-of-unknown")
		case plain[m] && r.P(.4):
			props[n] = "1." + props[m] + "-x"
			written[n], propVal[n], plain[n] = "1.${"+m+"}-x", props[n], true
			d.feat("property-with-property")
		default:
			props[n] = props[m]
			written[n], propVal[n], plain[n] = "${"+m+"}", propVal[m], plain[m]
			d.feat("property-of-property")
		}
	}
	version := func() (spec, val string) {
		switch r.IntN(10) {
		case 0, 1, 2:
			if len(pnames) == 0 {
				break
			}
			n := pick(r, pnames)
			d.feat("property")
			return "${" + n + "}", propVal[n]
		case 3:
			d.feat("unknown-property")
			return r.Pick("${project.version}", "${nope}", "${spring.version.x}"), "0"
		case 4:
			if len(pnames) == 0 {
				break
			}
			n := pick(r, pnames)
			if !plain[n] {
				break
			}
			switch r.IntN(4) {
			case 0:
				d.feat("property-suffix")
				return "${" + n + "}-jre", props[n] + "-jre"
			case 1:
				d.feat("property-prefix")
				return "1.${" + n + "}", "1." + props[n]
			case 2:
				d.feat("property-in-range")
				return "[${" + n + "},99)", props[n]
			default:
				m := pick(r, pnames)
				if !plain[m] {
					return "${" + n + "}", props[n]
				}
				d.feat("property-two")
				spec, val := "${"+n+"}.${"+m+"}", props[n]+"."+props[m]
				for range r.IntN(3) {
					if m := pick(r, pnames); plain[m] {
						d.feat("property-many")
						sep := r.Pick(".", "-", "")
						spec, val = spec+sep+"${"+m+"}", val+sep+props[m]
					}
				}
				return spec, val
			}
		}
		return plainRange()
	}
	type dep struct{ g, a, spec, val string }
	scala := r.Pick("2.13", "x")
	pnames, written["scala.binary"] = append(pnames, "scala.binary"), scala
	props["scala.binary"], propVal["scala.binary"], plain["scala.binary"] = scala, scala, true
	// names can have properties, too
	resolve := strings.NewReplacer("${scala.binary}", scala)
	ws := func(s string) string { // which does not matter
		if r.P(.07) {
			d.feat("whitespace")
			return r.Pick(" ", "\n        ", "\t") + s + r.Pick("", " ", "\n      ")
		}
		return s
	}
	draw := func(n int) []dep {
		seen := map[string]bool{}
		var l []dep
		for range n {
			x := dep{g: pick(r, mvnGroups), a: pick(r, mvnArts)}
			if r.P(.2) {
				x.a += "-" + r.Word()
			}
			if r.P(.08) {
				x.a += r.Pick("_${scala.binary}", "_${scala.binary}", "_${scala.other}")
				d.feat("name-property")
			}
			if r.P(.04) {
				x.g = "${project.groupId}"
			}
			if seen[x.g+":"+x.a] {
				continue
			}
			seen[x.g+":"+x.a] = true
			x.spec, x.val = version()
			l = append(l, x)
		}
		return l
	}
	managed := draw(r.Many(7))
	direct := draw(r.Many(9))
	final := map[string]string{}
	for _, x := range managed {
		final[x.g+":"+x.a] = x.val
		d.feat("managed")
	}
	for _, x := range managed {
		if r.P(.3) {
			direct = append(direct, dep{x.g, x.a, "", ""})
		} else if r.P(.2) {
			s, v := version()
			direct = append(direct, dep{x.g, x.a, s, v})
		}
	}
	shuffle(r, direct)
	seen := map[string]bool{}
	var dl []dep
	for _, x := range direct {
		n := x.g + ":" + x.a
		if seen[n] {
			continue
		}
		seen[n] = true
		if _, ok := final[n]; ok {
			if x.spec == "" {
				d.feat("managed-version")
			} else {
				d.feat("direct-over-managed")
				final[n] = x.val
			}
		} else {
			if r.P(.08) {
				x.spec, x.val = "", "0"
				d.feat("no-version")
			}
			final[n] = x.val
		}
		dl = append(dl, x)
	}
	for n, v := range final {
		d.want("Maven", resolve.Replace(n), v, "")
	}
	depXML := func(x dep) string {
		parts := []string{"<groupId>" + ws(x.g) + "</groupId>", "<artifactId>" + ws(x.a) + "</artifactId>"}
		if x.spec != "" {
			parts = append(parts, "<version>"+ws(xmlEsc(x.spec))+"</version>")
		} else if r.P(.2) {
			parts = append(parts, r.Pick("<version/>", "<version></version>", "<version> </version>"))
			d.feat("empty-version")
		}
		if r.P(.3) {
			parts = append(parts, "<scope>"+r.Pick("test", "import", "provided", "runtime")+"</scope>")
		}
		if r.P(.2) {
			parts = append(parts, "<type>"+r.Pick("pom", "test-jar")+"</type>", "<optional>true</optional>")
		}
		if r.P(.2) {
			parts = append(parts, "<exclusions><exclusion><groupId>ex.cluded</groupId><artifactId>*</artifactId></exclusion>\n<exclusion><artifactId>other</artifactId><groupId>ex</groupId></exclusion></exclusions>")
			d.feat("exclusions")
		}
		if r.P(.2) {
			parts = append(parts, "<!-- <version>6.6.6</version> -->")
			d.feat("comment")
		}
		shuffle(r, parts)
		return "<dependency>\n      " + strings.Join(parts, "\n      ") + "\n    </dependency>"
	}
	list := func(l []dep) string {
		var b strings.Builder
		b.WriteString("<dependencies>\n")
		for _, x := range l {
			b.WriteString("    " + depXML(x) + "\n")
			if r.P(.1) {
				b.WriteString("    <!-- <dependency><groupId>no</groupId><artifactId>no</artifactId><version>1</version></dependency> -->\n")
			}
		}
		b.WriteString("  </dependencies>")
		return b.String()
	}
	parts := []string{"<modelVersion>4.0.0</modelVersion>", "<groupId>com.mycompany.app</groupId>", "<artifactId>my-app</artifactId>", "<version>9.9.9</version>"}
	if r.P(.3) {
		parts = append(parts, "<parent><groupId>p.group</groupId><artifactId>parent</artifactId><version>7.7</version></parent>")
		d.feat("parent")
	}
	if len(pnames) > 0 {
		var b strings.Builder
		b.WriteString("<properties>\n")
		for _, n := range pnames {
			b.WriteString("    <" + n + ">" + ws(xmlEsc(written[n])) + "</" + n + ">\n")
			if r.P(.1) {
				b.WriteString("    <!-- <" + n + ">0.0.1</" + n + "> -->\n")
			}
		}
		b.WriteString("  </properties>")
		parts = append(parts, b.String())
	}
	if len(managed) > 0 {
		parts = append(parts, "<dependencyManagement>\n"+list(managed)+"\n</dependencyManagement>")
	}
	if len(dl) > 0 || r.P(.3) {
		parts = append(parts, list(dl))
	}
	if r.P(.3) {
		parts = append(parts, "<build><plugins><plugin><groupId>pl.ugin</groupId><artifactId>plug</artifactId><version>1.0</version></plugin></plugins></build>")
		d.feat("plugins")
	}
	shuffle(r, parts)
	head := ""
	if r.P(.6) {
		head = r.Pick(`<?xml version="1.0" encoding="UTF-8"?>`, `<?xml version="1.0"?>`, `<?xml version="1.0" encoding="utf-8" standalone="no"?>`) + "\n"
	}
	root := r.Pick("<project>", `<project xmlns="http://maven.apache.org/POM/4.0.0" xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance" xsi:schemaLocation="http://maven.apache.org/POM/4.0.0 http://maven.apache.org/xsd/maven-4.0.0.xsd">`)
	s := head + root + "\n  " + strings.Join(parts, "\n  ") + "\n</project>\n"
	if r.P(.1) {
		s = crlf(s)
		d.feat("crlf")
	}
	d.Files[d.Format] = s
	return d
}

func genGradle(r *R, file string) *Doc {
	d := newDoc(file)
	var lines []string
	seen := map[string]bool{}
	for range r.Many(11) {
		n := pick(r, mvnGroups) + ":" + pick(r, mvnArts)
		if r.P(.2) {
			n = r.Pick("empty", "emptyish", "#no"[1:]) + ":" + r.Word()
			d.feat("odd-group")
		}
		n, v := d.twin(r, n, mvnVersion(r))
		if seen[n+" "+v] {
			continue
		}
		seen[n+" "+v] = true
		d.want("Maven", n, v, "")
		var confs []string
		for range r.Range(1, 4) {
			confs = append(confs, r.Pick("compileClasspath", "runtimeClasspath", "testCompileClasspath", "classpath", "kapt=x"[:4], "annotationProcessor"))
		}
		lines = append(lines, n+":"+v+"="+strings.Join(confs, ","))
	}
	shuffle(r, lines)
	var out []string
	if r.P(.9) {
		out = append(out, "# This is a Gradle generated file for dependency locking.", "# Manual edits can break the build and are not advised.", "# This file is expected to be part of source control.")
	}
	for _, l := range lines {
		out = append(out, l)
		if r.P(.08) {
			out = append(out, r.Pick("# org.commented:out:1.0=x", "#a:b:1=c", ""))
			d.feat("comment")
		}
	}
	if r.P(.7) {
		out = append(out, r.Pick("empty=", "empty=annotationProcessor", "empty=a,b,testAnnotationProcessor"))
		d.feat("empty")
	}
	s := strings.Join(out, "\n")
	if r.P(.8) {
		s += "\n"
	} else {
		d.feat("no-final-newline")
	}
	if r.P(.15) {
		s = crlf(s)
		d.feat("crlf")
	}
	d.Files[d.Format] = s
	return d
}

func genNuget(r *R) *Doc {
	d := newDoc("packages.lock.json")
	d.JSON, d.Once = true, true
	var fws []kv
	seenF := map[string]bool{}
	for range r.Range(0, 4) {
		f := r.Pick("net6.0", "net7.0", ".NETStandard,Version=v2.0", "net6.0/win-x64", ".NETCoreApp,Version=v3.1", "net8.0/linux-x64", "net48")
		if seenF[f] {
			continue
		}
		seenF[f] = true
		d.feat("framework:" + f)
		var deps []kv
		seen := map[string]bool{}
		for range r.Many(6) {
			n := r.Pick("Newtonsoft.Json", "System.Text.Json", "Microsoft.NETCore.Platforms", "xunit", "Serilog", "A", "System.IO.Pipelines", "version", "dependencies")
			if r.P(.2) {
				n += "." + r.Word()
			}
			v := fmt.Sprintf("%d.%d.%d", r.IntN(4), r.IntN(3), r.IntN(4))
			if r.P(.2) {
				v += r.Pick("-preview.3", "-beta1", ".5", "-rc.1.22426.10")
			}
			n, v = d.twin(r, n, v)
			if seen[n] {
				continue
			}
			seen[n] = true
			t := r.Pick("Direct", "Transitive", "CentralTransitive")
			d.feat("type:" + t)
			e := []kv{{"type", t}, {"resolved", v}, {"contentHash", r.Hex(20) + "=="}}
			if t == "Direct" {
				e = append(e, kv{"requested", "[" + v + ", )"})
			}
			if r.P(.4) {
				e = append(e, kv{"dependencies", map[string]string{"Other.Dep": "9.9.9", "xunit": "0.0.1"}})
			}
			deps = append(deps, kv{n, jobj(r, e...)})
			d.want("NuGet", n, v, "")
		}
		fws = append(fws, kv{f, jobj(r, deps...)})
	}
	s := string(jobj(r, kv{"version", 1}, kv{"dependencies", jobj(r, fws...)}))
	if r.P(.15) {
		s = crlf(s)
	}
	d.Files[d.Format] = s + r.Pick("", "\n")
	return d
}

func genComposer(r *R) *Doc {
	d := newDoc("composer.lock")
	d.JSON = true
	earlier := map[string]string{} // names of the other section and their versions
	section := func(max int) raw {
		var l []string
		seen := map[string]bool{}
		here := map[string]string{}
		for range r.IntN(max + 1) {
			n := r.Pick("symfony/", "sentry/", "monolog/", "a/", "doctrine/") + r.Pick("sdk", "polyfill-mbstring", "monolog", "b", "dbal", "process", "packages")
			if r.P(.2) {
				n += "-" + r.Word()
			}
			if seen[n] {
				continue
			}
			if _, ok := earlier[n]; ok && r.P(.3) {
				continue
			}
			seen[n] = true
			v := r.Pick("", "v") + fmt.Sprintf("%d.%d.%d", r.IntN(6), r.IntN(9), r.IntN(9))
			switch r.IntN(8) {
			case 0:
				v = "dev-" + r.Pick("main", "master", "feature/x.y")
				d.feat("dev-branch")
			case 1:
				v += r.Pick("-RC1", "-beta2", "-p1", "@dev"[:4])
			}
			if o, ok := earlier[n]; ok {
				if o == v {
					continue
				}
				d.feat("both-sections")
			}
			here[n] = v
			e := []kv{{"name", n}, {"version", v}, {"type", "library"}, {"require", map[string]string{"php": ">=7.2", "other/dep": "^1.0"}}}
			sha := r.Rev()
			switch r.IntN(6) {
			case 0: // a metapackage has no source or dist
				d.feat("no-dist")
				d.want("Packagist", n, v, "")
			case 1:
				tag := fmt.Sprintf("%s%d.%d", r.Pick("", "v", "release-"), r.IntN(4), r.IntN(4))
				d.feat("tag-reference")
				e = append(e, kv{"source", map[string]string{"type": "svn", "reference": tag}}, kv{"dist", map[string]string{"type": "zip", "url": "https://x.test/y.zip", "reference": tag, "shasum": ""}})
				d.want("Packagist", n, v, "")
			case 2:
				d.feat("null-reference")
				e = append(e, kv{"dist", raw(`{"type": "zip", "url": "https://x.test/y.zip", "reference": null}`)})
				d.want("Packagist", n, v, "")
			default:
				if r.P(.2) { // abbreviated, longer hashes and revision numbers
					sha = r.Pick(sha[:7], sha[:12], sha+sha[:24], fmt.Sprint(r.Range(1, 90000)), sha[:39], sha+"0")
					d.feat("odd-commit")
				}
				d.feat("commit")
				e = append(e, kv{"source", map[string]string{"type": "git", "url": "https://github.test/" + n + ".git", "reference": sha}}, kv{"dist", map[string]string{"type": "zip", "url": "https://api.github.test/zipball/" + sha, "reference": sha, "shasum": ""}})
				d.want("Packagist", n, v, sha)
			}
			if r.P(.2) {
				e = append(e, kv{"extra", map[string]any{"version": "0.0.0", "name": "no/no"}}, kv{"time", "2022-01-01T00:00:00+00:00"}, kv{"description", "unicode é \"quoted\" \\ </"})
			}
			l = append(l, string(jobj(r, e...)))
		}
		for n, v := range here {
			earlier[n] = v
		}
		return raw("[" + strings.Join(l, ",\n") + "]")
	}
	es := []kv{{"_readme", []string{"This file locks the dependencies"}}, {"content-hash", r.Hex(32)}, {"packages", section(8)}, {"aliases", []string{}}, {"platform", map[string]string{"php": ">=7.2"}}, {"plugin-api-version", "2.0.0"}}
	switch r.IntN(4) {
	case 0:
		es = append(es, kv{"packages-dev", raw(r.Pick("null", "[]"))})
		d.feat("no-dev")
	default:
		es = append(es, kv{"packages-dev", section(6)})
		d.feat("dev")
	}
	d.Files[d.Format] = string(jobj(r, es...))
	return d
}

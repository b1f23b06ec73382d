From e8f3f4fb8b3cc603701db349af863e87209d750a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:09 +0000
Subject: [PATCH 01/45] fix: don't panic when a JSON lockfile is a literal null

---
 pkg/lockfile/parse-bun-lock.go      | 2 +-
 pkg/lockfile/parse-composer-lock.go | 2 +-
 pkg/lockfile/parse-npm-lock.go      | 4 ++--
 pkg/lockfile/parse-nuget-lock.go    | 4 ++--
 pkg/lockfile/parse-pipenv-lock.go   | 2 +-
 pkg/lockfile/parse-renv-lock.go     | 2 +-
 6 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/pkg/lockfile/parse-bun-lock.go b/pkg/lockfile/parse-bun-lock.go
index e4857d8..9aaa34f 100644
--- a/pkg/lockfile/parse-bun-lock.go
+++ b/pkg/lockfile/parse-bun-lock.go
@@ -49,7 +49,7 @@ func structurePackageDetails(pkg []any) (string, string, string) {
 }
 
 func ParseBunLock(pathToLockfile string) ([]PackageDetails, error) {
-	var parsedLockfile *BunLockfile
+	var parsedLockfile BunLockfile
 
 	lockfileContents, err := os.ReadFile(pathToLockfile)
 
diff --git a/pkg/lockfile/parse-composer-lock.go b/pkg/lockfile/parse-composer-lock.go
index 55d0740..d840c5d 100644
--- a/pkg/lockfile/parse-composer-lock.go
+++ b/pkg/lockfile/parse-composer-lock.go
@@ -34,7 +34,7 @@ func extractCommit(pkg ComposerPackage) string {
 }
 
 func ParseComposerLock(pathToLockfile string) ([]PackageDetails, error) {
-	var parsedLockfile *ComposerLock
+	var parsedLockfile ComposerLock
 
 	lockfileContents, err := os.ReadFile(pathToLockfile)
 
diff --git a/pkg/lockfile/parse-npm-lock.go b/pkg/lockfile/parse-npm-lock.go
index 1ed5d65..d741b0a 100644
--- a/pkg/lockfile/parse-npm-lock.go
+++ b/pkg/lockfile/parse-npm-lock.go
@@ -152,7 +152,7 @@ func parseNpmLock(lockfile NpmLockfile) map[string]PackageDetails {
 }
 
 func ParseNpmLock(pathToLockfile string) ([]PackageDetails, error) {
-	var parsedLockfile *NpmLockfile
+	var parsedLockfile NpmLockfile
 
 	lockfileContents, err := os.ReadFile(pathToLockfile)
 
@@ -166,5 +166,5 @@ func ParseNpmLock(pathToLockfile string) ([]PackageDetails, error) {
 		return []PackageDetails{}, fmt.Errorf("could not parse %s: %w", pathToLockfile, err)
 	}
 
-	return pkgDetailsMapToSlice(parseNpmLock(*parsedLockfile)), nil
+	return pkgDetailsMapToSlice(parseNpmLock(parsedLockfile)), nil
 }
diff --git a/pkg/lockfile/parse-nuget-lock.go b/pkg/lockfile/parse-nuget-lock.go
index 5456526..79681ab 100644
--- a/pkg/lockfile/parse-nuget-lock.go
+++ b/pkg/lockfile/parse-nuget-lock.go
@@ -51,7 +51,7 @@ func parseNuGetLock(lockfile NuGetLockfile) ([]PackageDetails, error) {
 var ErrNuGetUnsupportedLockfileVersion = errors.New("unsupported lockfile version")
 
 func ParseNuGetLock(pathToLockfile string) ([]PackageDetails, error) {
-	var parsedLockfile *NuGetLockfile
+	var parsedLockfile NuGetLockfile
 
 	lockfileContents, err := os.ReadFile(pathToLockfile)
 
@@ -69,5 +69,5 @@ func ParseNuGetLock(pathToLockfile string) ([]PackageDetails, error) {
 		return []PackageDetails{}, fmt.Errorf("could not parse %s: %w", pathToLockfile, ErrNuGetUnsupportedLockfileVersion)
 	}
 
-	return parseNuGetLock(*parsedLockfile)
+	return parseNuGetLock(parsedLockfile)
 }
diff --git a/pkg/lockfile/parse-pipenv-lock.go b/pkg/lockfile/parse-pipenv-lock.go
index 47ecbf7..1ecd5d4 100644
--- a/pkg/lockfile/parse-pipenv-lock.go
+++ b/pkg/lockfile/parse-pipenv-lock.go
@@ -18,7 +18,7 @@ type PipenvLock struct {
 const PipenvEcosystem = PipEcosystem
 
 func ParsePipenvLock(pathToLockfile string) ([]PackageDetails, error) {
-	var parsedLockfile *PipenvLock
+	var parsedLockfile PipenvLock
 
 	lockfileContents, err := os.ReadFile(pathToLockfile)
 
diff --git a/pkg/lockfile/parse-renv-lock.go b/pkg/lockfile/parse-renv-lock.go
index e44c29a..c286c96 100644
--- a/pkg/lockfile/parse-renv-lock.go
+++ b/pkg/lockfile/parse-renv-lock.go
@@ -19,7 +19,7 @@ type RenvLockfile struct {
 const CRANEcosystem Ecosystem = "CRAN"
 
 func ParseRenvLock(pathToLockfile string) ([]PackageDetails, error) {
-	var parsedLockfile *RenvLockfile
+	var parsedLockfile RenvLockfile
 
 	lockfileContents, err := os.ReadFile(pathToLockfile)
 
-- 
2.43.0


From 091fd00d004a258afa291c98d057137e4eaac45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:12 +0000
Subject: [PATCH 02/45] fix: don't panic on empty package tuples in bun.lock

---
 pkg/lockfile/parse-bun-lock.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/lockfile/parse-bun-lock.go b/pkg/lockfile/parse-bun-lock.go
index 9aaa34f..9d3db9b 100644
--- a/pkg/lockfile/parse-bun-lock.go
+++ b/pkg/lockfile/parse-bun-lock.go
@@ -19,6 +19,10 @@ const BunEcosystem = NpmEcosystem
 // structurePackageDetails returns the name, version, and commit of a package
 // specified as a tuple in a bun.lock
 func structurePackageDetails(pkg []any) (string, string, string) {
+	if len(pkg) == 0 {
+		return "", "", ""
+	}
+
 	str, ok := pkg[0].(string)
 
 	if !ok {
-- 
2.43.0


From 82aee42156b1f3fe4103973ca9c725972584f0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:14 +0000
Subject: [PATCH 03/45] fix: don't assume versions in Pipfile.lock are always
 prefixed

---
 pkg/lockfile/parse-pipenv-lock.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/lockfile/parse-pipenv-lock.go b/pkg/lockfile/parse-pipenv-lock.go
index 1ecd5d4..e06d63b 100644
--- a/pkg/lockfile/parse-pipenv-lock.go
+++ b/pkg/lockfile/parse-pipenv-lock.go
@@ -4,6 +4,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"os"
+	"strings"
 )
 
 type PipenvPackage struct {
@@ -39,7 +40,7 @@ func ParsePipenvLock(pathToLockfile string) ([]PackageDetails, error) {
 			continue
 		}
 
-		version := pipenvPackage.Version[2:]
+		version := strings.TrimPrefix(pipenvPackage.Version, "==")
 
 		packages[name+"@"+version] = PackageDetails{
 			Name:      name,
@@ -54,7 +55,7 @@ func ParsePipenvLock(pathToLockfile string) ([]PackageDetails, error) {
 			continue
 		}
 
-		version := pipenvPackage.Version[2:]
+		version := strings.TrimPrefix(pipenvPackage.Version, "==")
 
 		packages[name+"@"+version] = PackageDetails{
 			Name:      name,
-- 
2.43.0


From 77331d03771b2dd4a4d90c82acdc6f022c6a958f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:17 +0000
Subject: [PATCH 04/45] fix: don't panic on npm aliases that don't have a
 version

---
 pkg/lockfile/parse-npm-lock.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pkg/lockfile/parse-npm-lock.go b/pkg/lockfile/parse-npm-lock.go
index d741b0a..9020a84 100644
--- a/pkg/lockfile/parse-npm-lock.go
+++ b/pkg/lockfile/parse-npm-lock.go
@@ -68,9 +68,16 @@ func parseNpmLockDependencies(dependencies map[string]NpmLockDependency) map[str
 		} else {
 			// use the name of the underlying package rather than the alias
 			if strings.HasPrefix(detail.Version, "npm:") {
-				i := strings.LastIndex(detail.Version, "@")
-				name = detail.Version[4:i]
-				finalVersion = detail.Version[i+1:]
+				alias := strings.TrimPrefix(detail.Version, "npm:")
+
+				// an @ at the very start is for the scope, rather than the version
+				if i := strings.LastIndex(alias, "@"); i > 0 {
+					name = alias[:i]
+					finalVersion = alias[i+1:]
+				} else {
+					name = alias
+					finalVersion = ""
+				}
 			}
 
 			commit = tryExtractCommit(detail.Version)
-- 
2.43.0


From 06d00510b011334fdffd4adbd9797a3294c9d5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:42 +0000
Subject: [PATCH 05/45] fix: don't panic on pnpm dependency paths that only
 have a scope

---
 pkg/lockfile/parse-pnpm-lock.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/lockfile/parse-pnpm-lock.go b/pkg/lockfile/parse-pnpm-lock.go
index 8372054..a512b2e 100644
--- a/pkg/lockfile/parse-pnpm-lock.go
+++ b/pkg/lockfile/parse-pnpm-lock.go
@@ -98,6 +98,10 @@ func extractPnpmPackageNameAndVersion(dependencyPath string, lockfileVersion flo
 	parts = parts[1:]
 
 	if strings.HasPrefix(parts[0], "@") {
+		if len(parts) == 1 {
+			return "", "", errInvalidPackagePath
+		}
+
 		name = strings.Join(parts[:2], "/")
 		parts = parts[2:]
 	} else {
-- 
2.43.0


From 8737f110c354aeb822f0700c1984c4603cc26e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:44 +0000
Subject: [PATCH 06/45] fix: don't drop pnpm v6 packages that have scoped peer
 dependencies

---
 pkg/lockfile/parse-pnpm-lock.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/lockfile/parse-pnpm-lock.go b/pkg/lockfile/parse-pnpm-lock.go
index a512b2e..1caf110 100644
--- a/pkg/lockfile/parse-pnpm-lock.go
+++ b/pkg/lockfile/parse-pnpm-lock.go
@@ -87,6 +87,10 @@ func extractPnpmPackageNameAndVersion(dependencyPath string, lockfileVersion flo
 		return name, version, nil
 	}
 
+	// peer dependencies in v6 lockfiles are attached to the end of the dependency path
+	// within parentheses, and can be scoped meaning they can have slashes in their name
+	dependencyPath, _, _ = strings.Cut(dependencyPath, "(")
+
 	parts := strings.Split(dependencyPath, "/")
 
 	if len(parts) == 1 {
-- 
2.43.0


From c0dc0cc561c990141eeeca0946770c2741dcc7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:24 +0000
Subject: [PATCH 07/45] fix: check all version ranges of an advisory even if
 one is for git

---
 pkg/database/osv.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/database/osv.go b/pkg/database/osv.go
index 520ecca..01bddd2 100644
--- a/pkg/database/osv.go
+++ b/pkg/database/osv.go
@@ -139,7 +139,7 @@ type Affects []AffectsRange
 func (a Affects) affectsVersion(pkg internal.PackageDetails) bool {
 	for _, r := range a {
 		if r.Type != TypeEcosystem && r.Type != TypeSemver {
-			return false
+			continue
 		}
 		if r.containsVersion(pkg) {
 			return true
-- 
2.43.0


From 5d1496491289f30451d7b9d266ad5a69752a1fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:26 +0000
Subject: [PATCH 08/45] fix: don't reorder the events of advisories when
 checking packages

---
 pkg/database/osv.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pkg/database/osv.go b/pkg/database/osv.go
index 01bddd2..d82252e 100644
--- a/pkg/database/osv.go
+++ b/pkg/database/osv.go
@@ -95,9 +95,12 @@ func (ar AffectsRange) containsVersion(pkg internal.PackageDetails) bool {
 
 	vp := semantic.MustParse(pkg.Version, string(pkg.CompareAs))
 
-	sort.Slice(ar.Events, func(i, j int) bool {
-		a := ar.Events[i]
-		b := ar.Events[j]
+	// the events are shared by everything that holds this advisory, so sort a copy
+	events := slices.Clone(ar.Events)
+
+	sort.Slice(events, func(i, j int) bool {
+		a := events[i]
+		b := events[j]
 
 		if a.Introduced == "0" {
 			return true
@@ -114,7 +117,7 @@ func (ar AffectsRange) containsVersion(pkg internal.PackageDetails) bool {
 	})
 
 	var affected bool
-	for _, e := range ar.Events {
+	for _, e := range events {
 		if affected {
 			if e.Fixed != "" {
 				order, _ := vp.CompareStr(e.Fixed)
-- 
2.43.0


From b88b767f2fdb848d85785d73c2433673c213bad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:28 +0000
Subject: [PATCH 09/45] fix: find advisories for packages whose ecosystem has a
 suffix

---
 pkg/database/mem-check.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/database/mem-check.go b/pkg/database/mem-check.go
index 9cad474..dc8b371 100644
--- a/pkg/database/mem-check.go
+++ b/pkg/database/mem-check.go
@@ -55,7 +55,7 @@ func (db *memDB) Vulnerabilities(includeWithdrawn bool) []OSV {
 func (db *memDB) VulnerabilitiesAffectingPackage(pkg internal.PackageDetails) Vulnerabilities {
 	var vulnerabilities Vulnerabilities
 
-	hash := string(pkg.Ecosystem) + "-" + pkg.Name
+	hash := string(Package{Ecosystem: pkg.Ecosystem}.NormalizedEcosystem()) + "-" + pkg.Name
 
 	if vulns, ok := db.vulnerabilities[hash]; ok {
 		for _, vulnerability := range vulns {
-- 
2.43.0


From b62457c33f0a80a5dfbc7ee98a37108992d0cc21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:30 +0000
Subject: [PATCH 10/45] fix: normalize the names of PyPI packages regardless of
 their lockfile

---
 main.go                   | 3 ++-
 pkg/database/mem-check.go | 3 ++-
 pkg/database/osv.go       | 4 +++-
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/main.go b/main.go
index 21ef194..26b2d9b 100644
--- a/main.go
+++ b/main.go
@@ -600,7 +600,8 @@ This flag can be passed multiple times to ignore different vulnerabilities`)
 	pkgSet := make(map[string]struct{})
 	for _, p := range files {
 		for _, pkg := range p.lockf.Packages {
-			pkgSet[pkg.Name] = struct{}{}
+			// databases match these against the normalized names in their advisories
+			pkgSet[database.Package{Name: pkg.Name, Ecosystem: pkg.Ecosystem}.NormalizedName()] = struct{}{}
 		}
 	}
 	allPackages := make([]string, 0, len(pkgSet))
diff --git a/pkg/database/mem-check.go b/pkg/database/mem-check.go
index dc8b371..199771b 100644
--- a/pkg/database/mem-check.go
+++ b/pkg/database/mem-check.go
@@ -55,7 +55,8 @@ func (db *memDB) Vulnerabilities(includeWithdrawn bool) []OSV {
 func (db *memDB) VulnerabilitiesAffectingPackage(pkg internal.PackageDetails) Vulnerabilities {
 	var vulnerabilities Vulnerabilities
 
-	hash := string(Package{Ecosystem: pkg.Ecosystem}.NormalizedEcosystem()) + "-" + pkg.Name
+	details := Package{Name: pkg.Name, Ecosystem: pkg.Ecosystem}
+	hash := string(details.NormalizedEcosystem()) + "-" + details.NormalizedName()
 
 	if vulns, ok := db.vulnerabilities[hash]; ok {
 		for _, vulnerability := range vulns {
diff --git a/pkg/database/osv.go b/pkg/database/osv.go
index d82252e..1281ecd 100644
--- a/pkg/database/osv.go
+++ b/pkg/database/osv.go
@@ -285,9 +285,11 @@ func areEcosystemsEqual(a, b internal.Ecosystem) bool {
 }
 
 func (osv *OSV) IsAffected(pkg internal.PackageDetails) bool {
+	pkgName := Package{Name: pkg.Name, Ecosystem: pkg.Ecosystem}.NormalizedName()
+
 	for _, affected := range osv.Affected {
 		if areEcosystemsEqual(affected.Package.Ecosystem, pkg.Ecosystem) &&
-			affected.Package.NormalizedName() == pkg.Name {
+			affected.Package.NormalizedName() == pkgName {
 			if len(affected.Ranges) == 0 && len(affected.Versions) == 0 {
 				_, _ = fmt.Fprintf(
 					os.Stderr,
-- 
2.43.0


From 8f2ec3e962a4fca4df9301d73b5769bdebbf590d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:09 +0000
Subject: [PATCH 11/45] fix: don't panic when versions cannot be compared

---
 pkg/database/osv.go | 46 +++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 44 insertions(+), 2 deletions(-)

diff --git a/pkg/database/osv.go b/pkg/database/osv.go
index 1281ecd..6aa94a5 100644
--- a/pkg/database/osv.go
+++ b/pkg/database/osv.go
@@ -84,6 +84,28 @@ func (e RangeEvent) version() string {
 	return ""
 }
 
+// parseVersions parses the version of the given package, ensuring that the version
+// of every event in this range can also be parsed in the same way
+func (ar AffectsRange) parseVersions(pkg internal.PackageDetails) (semantic.Version, error) {
+	vp, err := semantic.Parse(pkg.Version, string(pkg.CompareAs))
+
+	if err != nil {
+		return nil, fmt.Errorf("%w", err)
+	}
+
+	for _, e := range ar.Events {
+		if e.Introduced == "0" || e.version() == "" {
+			continue
+		}
+
+		if _, err := semantic.Parse(e.version(), string(pkg.CompareAs)); err != nil {
+			return nil, fmt.Errorf("%w", err)
+		}
+	}
+
+	return vp, nil
+}
+
 func (ar AffectsRange) containsVersion(pkg internal.PackageDetails) bool {
 	if ar.Type != TypeEcosystem && ar.Type != TypeSemver {
 		return false
@@ -93,7 +115,21 @@ func (ar AffectsRange) containsVersion(pkg internal.PackageDetails) bool {
 		return false
 	}
 
-	vp := semantic.MustParse(pkg.Version, string(pkg.CompareAs))
+	vp, err := ar.parseVersions(pkg)
+
+	if err != nil {
+		// if we can't compare the versions then we don't know if the package is affected,
+		// so assume that it is since a false positive is better than a false negative
+		_, _ = fmt.Fprintf(
+			os.Stderr,
+			"could not compare versions of %s, so assuming that %s is affected: %v\n",
+			pkg.Name,
+			pkg.Version,
+			err,
+		)
+
+		return true
+	}
 
 	// the events are shared by everything that holds this advisory, so sort a copy
 	events := slices.Clone(ar.Events)
@@ -110,8 +146,14 @@ func (ar AffectsRange) containsVersion(pkg internal.PackageDetails) bool {
 			return false
 		}
 
+		va, err := semantic.Parse(a.version(), string(pkg.CompareAs))
+
+		if err != nil {
+			return false
+		}
+
 		// Ignore errors as we assume the version is correct
-		order, _ := semantic.MustParse(a.version(), string(pkg.CompareAs)).CompareStr(b.version())
+		order, _ := va.CompareStr(b.version())
 
 		return order < 0
 	})
-- 
2.43.0


From be1bb1b67380554c373b862ea741c992d45d9456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:46 +0000
Subject: [PATCH 12/45] fix: don't panic if a database that isn't cached is
 said to be not modified

---
 pkg/database/zip.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/database/zip.go b/pkg/database/zip.go
index 4d7f8f6..9a87ebe 100644
--- a/pkg/database/zip.go
+++ b/pkg/database/zip.go
@@ -88,7 +88,7 @@ func (db *ZipDB) fetchZip() ([]byte, error) {
 
 	defer resp.Body.Close()
 
-	if resp.StatusCode == http.StatusNotModified {
+	if resp.StatusCode == http.StatusNotModified && cache != nil {
 		db.UpdatedAt = cache.Date
 
 		return cache.Body, nil
-- 
2.43.0


From 3f827f32d02305e7cd5949d98e82bf19a0cfd01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:48 +0000
Subject: [PATCH 13/45] fix: don't use database caches that could only be
 partially parsed

---
 pkg/database/zip.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/database/zip.go b/pkg/database/zip.go
index 9a87ebe..553047a 100644
--- a/pkg/database/zip.go
+++ b/pkg/database/zip.go
@@ -57,6 +57,9 @@ func (db *ZipDB) fetchZip() ([]byte, error) {
 
 		if err != nil {
 			_, _ = fmt.Fprintf(os.Stderr, "Failed to parse cache from %s: %v\n", cachePath, err)
+
+			// don't use anything that was parsed before the error
+			cache = nil
 		}
 	}
 
-- 
2.43.0


From 5043894bf4b06584431cf03426eeb3b93921158e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:51 +0000
Subject: [PATCH 14/45] fix: don't load advisories from outside of the working
 directory of zips

---
 pkg/database/zip.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pkg/database/zip.go b/pkg/database/zip.go
index 553047a..b41062c 100644
--- a/pkg/database/zip.go
+++ b/pkg/database/zip.go
@@ -169,6 +169,14 @@ func (db *ZipDB) loadZipFile(zipFile *zip.File, pkgNames []string) {
 	db.addVulnerability(osv, pkgNames)
 }
 
+// isInWorkingDirectory checks if a file in the archive is within the working directory
+// of the db, rather than in a directory whose name happens to start the same
+func (db *ZipDB) isInWorkingDirectory(name string) bool {
+	dir := strings.TrimSuffix(db.WorkingDirectory, "/")
+
+	return dir == "" || name == dir || strings.HasPrefix(name, dir+"/")
+}
+
 // load fetches a zip archive of the OSV database and loads known vulnerabilities
 // from it (which are assumed to be in json files following the OSV spec).
 //
@@ -191,7 +199,7 @@ func (db *ZipDB) load(pkgNames []string) error {
 
 	// Read all the files from the zip archive
 	for _, zipFile := range zipReader.File {
-		if !strings.HasPrefix(zipFile.Name, db.WorkingDirectory) {
+		if !db.isInWorkingDirectory(zipFile.Name) {
 			continue
 		}
 
-- 
2.43.0


From a236f451cf7a02d7b173afc37f919c4e1f81cad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:54 +0000
Subject: [PATCH 15/45] fix: consistently order packages that only differ by
 commit

---
 pkg/lockfile/parse.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/lockfile/parse.go b/pkg/lockfile/parse.go
index ec3e6a4..110c297 100644
--- a/pkg/lockfile/parse.go
+++ b/pkg/lockfile/parse.go
@@ -136,6 +136,10 @@ func Parse(pathToLockfile string, parseAs string) (Lockfile, error) {
 
 	sort.Slice(packages, func(i, j int) bool {
 		if packages[i].Name == packages[j].Name {
+			if packages[i].Version == packages[j].Version {
+				return packages[i].Commit < packages[j].Commit
+			}
+
 			return packages[i].Version < packages[j].Version
 		}
 
-- 
2.43.0


From ac1196159e376837c12b7f5d16ed641cc46abad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:56 +0000
Subject: [PATCH 16/45] fix: report errors that happen when reading directories

---
 main.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/main.go b/main.go
index 26b2d9b..b9cbebc 100644
--- a/main.go
+++ b/main.go
@@ -239,11 +239,13 @@ func findLockfiles(r *reporter.Reporter, pathToLockOrDirectory string, parseAs s
 	file, err := os.Open(pathToLockOrDirectory)
 
 	if err == nil {
-		info, err := file.Stat()
+		var info os.FileInfo
+		info, err = file.Stat()
 
 		if err == nil {
 			if info.IsDir() {
-				dirs, err := file.ReadDir(-1)
+				var dirs []os.DirEntry
+				dirs, err = file.ReadDir(-1)
 
 				if err == nil {
 					for _, dir := range dirs {
-- 
2.43.0


From d7a17f41a4399e732d3167353ca5a9657f3a430d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:10 +0000
Subject: [PATCH 17/45] fix: don't truncate details in the middle of a
 character

---
 pkg/database/osv.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/database/osv.go b/pkg/database/osv.go
index 6aa94a5..689c674 100644
--- a/pkg/database/osv.go
+++ b/pkg/database/osv.go
@@ -9,6 +9,7 @@ import (
 	"strings"
 	"time"
 	"unicode"
+	"unicode/utf8"
 
 	"github.com/g-rath/osv-detector/internal"
 	"github.com/g-rath/osv-detector/internal/cachedregexp"
@@ -275,7 +276,8 @@ func truncate(str string, limit int) string {
 			// ideally we want to keep words whole when truncating,
 			// but if we can't find a space just truncate at the limit
 			if truncateAt == -1 {
-				truncateAt = limit
+				_, size := utf8.DecodeRuneInString(str[i:])
+				truncateAt = i + size
 			}
 
 			return str[:truncateAt] + "..."
-- 
2.43.0


From 765c415fa404413030d39120d3c827dbb05dee36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:21 +0000
Subject: [PATCH 18/45] fix: support markers and multiple constraints in
 requirements.txt

---
 pkg/lockfile/parse-requirements-txt.go | 33 +++++++++++---------------
 1 file changed, 14 insertions(+), 19 deletions(-)

diff --git a/pkg/lockfile/parse-requirements-txt.go b/pkg/lockfile/parse-requirements-txt.go
index 46023fb..92ea124 100644
--- a/pkg/lockfile/parse-requirements-txt.go
+++ b/pkg/lockfile/parse-requirements-txt.go
@@ -16,33 +16,28 @@ const PipEcosystem Ecosystem = "PyPI"
 //
 //	https://pip.pypa.io/en/stable/reference/requirements-file-format/#example
 func parseLine(line string) PackageDetails {
-	var constraint string
-	name := line
-
 	version := "0.0.0"
 
-	if strings.Contains(line, "==") {
-		constraint = "=="
-	}
+	// markers and per-requirement options can hold things that look like constraints
+	line, _, _ = strings.Cut(line, ";")
+	line, _, _ = strings.Cut(line, " --")
 
-	if strings.Contains(line, ">=") {
-		constraint = ">="
-	}
+	name := strings.TrimSpace(line)
+	constraints := ""
 
-	if strings.Contains(line, "~=") {
-		constraint = "~="
+	if i := strings.IndexAny(line, "=<>~!"); i != -1 {
+		name, constraints = strings.TrimSpace(line[:i]), line[i:]
 	}
 
-	if strings.Contains(line, "!=") {
-		constraint = "!="
-	}
+	re := cachedregexp.MustCompile(`^\s*(?:===?|~=|>=?)\s*([^\s=]\S*)`)
 
-	if constraint != "" {
-		unprocessedName, unprocessedVersion, _ := strings.Cut(line, constraint)
-		name = strings.TrimSpace(unprocessedName)
+	// use the lowest version that is allowed by the constraints, which is
+	// only known if there's a constraint that has a lower bound
+	for constraint := range strings.SplitSeq(constraints, ",") {
+		if match := re.FindStringSubmatch(constraint); match != nil {
+			version = match[1]
 
-		if constraint != "!=" {
-			version, _, _ = strings.Cut(strings.TrimSpace(unprocessedVersion), " ")
+			break
 		}
 	}
 
-- 
2.43.0


From 87f4eafc4987394186378ad987859ce57c2606c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:23 +0000
Subject: [PATCH 19/45] fix: support whitespace before extras in
 requirements.txt

---
 pkg/lockfile/parse-requirements-txt.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/lockfile/parse-requirements-txt.go b/pkg/lockfile/parse-requirements-txt.go
index 92ea124..e67f5e0 100644
--- a/pkg/lockfile/parse-requirements-txt.go
+++ b/pkg/lockfile/parse-requirements-txt.go
@@ -66,7 +66,7 @@ func normalizedRequirementName(name string) string {
 	name = strings.ToLower(name)
 	name, _, _ = strings.Cut(name, "[")
 
-	return name
+	return strings.TrimSpace(name)
 }
 
 func removeComments(line string) string {
-- 
2.43.0


From 436d3c9cc010d3923d55ca8aa5d6ae5cc1f52963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:17 +0000
Subject: [PATCH 20/45] fix: don't apply go.mod replacements to modules that
 are replacements

---
 pkg/lockfile/parse-go-lock.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pkg/lockfile/parse-go-lock.go b/pkg/lockfile/parse-go-lock.go
index 31a79e6..8aa1fb0 100644
--- a/pkg/lockfile/parse-go-lock.go
+++ b/pkg/lockfile/parse-go-lock.go
@@ -44,14 +44,20 @@ func ParseGoLock(pathToLockfile string) ([]PackageDetails, error) {
 		}
 	}
 
+	replacedSpecifically := map[string]struct{}{}
+
 	for _, replace := range parsedLockfile.Replace {
 		var replacements []string
 
 		if replace.Old.Version == "" {
-			// If the left version is omitted, all versions of the module are replaced.
-			for k, pkg := range packages {
-				if pkg.Name == replace.Old.Path {
-					replacements = append(replacements, k)
+			// If the left version is omitted, all versions of the module are replaced
+			// except for those that are specifically replaced. What a module has been
+			// replaced with is not relevant, as replacements are never themselves replaced.
+			for _, require := range parsedLockfile.Require {
+				s := require.Mod.Path + "@" + require.Mod.Version
+
+				if _, ok := replacedSpecifically[s]; !ok && require.Mod.Path == replace.Old.Path {
+					replacements = append(replacements, s)
 				}
 			}
 		} else {
@@ -62,6 +68,7 @@ func ParseGoLock(pathToLockfile string) ([]PackageDetails, error) {
 			// A `replace` directive has no effect if the module version on the left side is not required.
 			if _, ok := packages[s]; ok {
 				replacements = []string{s}
+				replacedSpecifically[s] = struct{}{}
 			}
 		}
 
-- 
2.43.0


From dc4ae585a5454b7c6db959e10dc1a5582344f15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:19 +0000
Subject: [PATCH 21/45] fix: use the managed version for maven dependencies
 without a version

---
 pkg/lockfile/parse-maven-lock.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/lockfile/parse-maven-lock.go b/pkg/lockfile/parse-maven-lock.go
index 671a53f..ee46b82 100644
--- a/pkg/lockfile/parse-maven-lock.go
+++ b/pkg/lockfile/parse-maven-lock.go
@@ -130,6 +130,11 @@ func ParseMavenLock(pathToLockfile string) ([]PackageDetails, error) {
 	for _, lockPackage := range parsedLockfile.Dependencies {
 		finalName := lockPackage.GroupID + ":" + lockPackage.ArtifactID
 
+		// dependencies without a version use the one from their managed dependency
+		if _, ok := details[finalName]; ok && lockPackage.Version == "" {
+			continue
+		}
+
 		details[finalName] = PackageDetails{
 			Name:      finalName,
 			Version:   lockPackage.ResolveVersion(*parsedLockfile),
-- 
2.43.0


From 70b62c751b1bdf395de39dc5ecb2c0d3e7a7d0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:21 +0000
Subject: [PATCH 22/45] fix: support maven versions that are only partially
 interpolated

---
 pkg/lockfile/parse-maven-lock.go | 35 +++++++++++++++++---------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/pkg/lockfile/parse-maven-lock.go b/pkg/lockfile/parse-maven-lock.go
index ee46b82..52a4888 100644
--- a/pkg/lockfile/parse-maven-lock.go
+++ b/pkg/lockfile/parse-maven-lock.go
@@ -4,6 +4,7 @@ import (
 	"encoding/xml"
 	"fmt"
 	"os"
+	"strings"
 
 	"github.com/g-rath/osv-detector/internal/cachedregexp"
 )
@@ -28,26 +29,28 @@ func (mld MavenLockDependency) parseResolvedVersion(version string) string {
 }
 
 func (mld MavenLockDependency) resolveVersionValue(lockfile MavenLockFile) string {
-	interpolationReg := cachedregexp.MustCompile(`\${(.+)}`)
+	interpolationReg := cachedregexp.MustCompile(`\${([^}]+)}`)
 
-	results := interpolationReg.FindStringSubmatch(mld.Version)
+	version := mld.Version
 
-	// no interpolation, so just return the version as-is
-	if results == nil {
-		return mld.Version
-	}
-	if val, ok := lockfile.Properties.m[results[1]]; ok {
-		return val
-	}
+	for _, results := range interpolationReg.FindAllStringSubmatch(mld.Version, -1) {
+		val, ok := lockfile.Properties.m[results[1]]
+
+		if !ok {
+			fmt.Fprintf(
+				os.Stderr,
+				"Failed to resolve version of %s: property \"%s\" could not be found\n",
+				mld.GroupID+":"+mld.ArtifactID,
+				results[1],
+			)
 
-	fmt.Fprintf(
-		os.Stderr,
-		"Failed to resolve version of %s: property \"%s\" could not be found\n",
-		mld.GroupID+":"+mld.ArtifactID,
-		results[1],
-	)
+			return "0"
+		}
+
+		version = strings.ReplaceAll(version, results[0], val)
+	}
 
-	return "0"
+	return version
 }
 
 func (mld MavenLockDependency) ResolveVersion(lockfile MavenLockFile) string {
-- 
2.43.0


From afc108cd27b111cac565976f764345bbf1235ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:17 +0000
Subject: [PATCH 23/45] fix: don't list npm packages again if they are also
 aliased

---
 pkg/lockfile/parse-npm-lock.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/lockfile/parse-npm-lock.go b/pkg/lockfile/parse-npm-lock.go
index 9020a84..66d8061 100644
--- a/pkg/lockfile/parse-npm-lock.go
+++ b/pkg/lockfile/parse-npm-lock.go
@@ -78,6 +78,9 @@ func parseNpmLockDependencies(dependencies map[string]NpmLockDependency) map[str
 					name = alias
 					finalVersion = ""
 				}
+
+				// deduplicate with the underlying package
+				version = finalVersion
 			}
 
 			commit = tryExtractCommit(detail.Version)
-- 
2.43.0


From cc5ce22e3d6dc9a98bdf03e8a1539ff82822f061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:40 +0000
Subject: [PATCH 24/45] fix: don't continue lines in requirements.txt that are
 only a comment

---
 pkg/lockfile/parse-requirements-txt.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/lockfile/parse-requirements-txt.go b/pkg/lockfile/parse-requirements-txt.go
index e67f5e0..d0a9ff1 100644
--- a/pkg/lockfile/parse-requirements-txt.go
+++ b/pkg/lockfile/parse-requirements-txt.go
@@ -113,7 +113,8 @@ func parseRequirementsTxt(pathToLockfile string, requiredAlready map[string]stru
 	for scanner.Scan() {
 		line := scanner.Text()
 
-		for isLineContinuation(line) {
+		// lines that are only a comment are never continued
+		for isLineContinuation(line) && !strings.HasPrefix(strings.TrimSpace(line), "#") {
 			line = strings.TrimSuffix(line, "\\")
 
 			if scanner.Scan() {
-- 
2.43.0


From ea4f18bc0caded86477205623e66a15ede1fad56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:42 +0000
Subject: [PATCH 25/45] fix: don't lose commits of gems because of lines that
 contain the name of a section

---
 pkg/lockfile/parse-gemfile-lock.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/lockfile/parse-gemfile-lock.go b/pkg/lockfile/parse-gemfile-lock.go
index 5c7dc40..9017362 100644
--- a/pkg/lockfile/parse-gemfile-lock.go
+++ b/pkg/lockfile/parse-gemfile-lock.go
@@ -29,10 +29,10 @@ const parserStateRuby parserState = "ruby"
 const parserStateBundledWith parserState = "bundled_with"
 
 func isSourceSection(line string) bool {
-	return strings.Contains(line, lockfileSectionGIT) ||
-		strings.Contains(line, lockfileSectionGEM) ||
-		strings.Contains(line, lockfileSectionPATH) ||
-		strings.Contains(line, lockfileSectionPLUGIN)
+	return line == lockfileSectionGIT ||
+		line == lockfileSectionGEM ||
+		line == lockfileSectionPATH ||
+		line == lockfileSectionPLUGIN
 }
 
 type gemfileLockfileParser struct {
-- 
2.43.0


From 69d0b5320a3a8375faabaa475a0f8684f2108e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:45 +0000
Subject: [PATCH 26/45] fix: don't drop pnpm packages whose version has build
 metadata

---
 pkg/lockfile/parse-pnpm-lock.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/lockfile/parse-pnpm-lock.go b/pkg/lockfile/parse-pnpm-lock.go
index 1caf110..e1fb0d5 100644
--- a/pkg/lockfile/parse-pnpm-lock.go
+++ b/pkg/lockfile/parse-pnpm-lock.go
@@ -136,7 +136,7 @@ func extractPnpmPackageNameAndVersion(dependencyPath string, lockfileVersion flo
 
 func parseNameAtVersion(value string) (name string, version string) {
 	// look for pattern "name@version", where name is allowed to contain zero or more "@"
-	matches := cachedregexp.MustCompile(`^(.+)@([\w.-]+)(?:\(|$)`).FindStringSubmatch(value)
+	matches := cachedregexp.MustCompile(`^(.+)@([\w.+-]+)(?:\(|$)`).FindStringSubmatch(value)
 
 	if len(matches) != 3 {
 		return name, ""
-- 
2.43.0


From b3fe45a472d62703ee1963484da7ed40671e1487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:47 +0000
Subject: [PATCH 27/45] fix: don't list the root package of uv.lock files when
 it is editable

---
 pkg/lockfile/parse-uv-lock.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pkg/lockfile/parse-uv-lock.go b/pkg/lockfile/parse-uv-lock.go
index dbf7bbb..f549d92 100644
--- a/pkg/lockfile/parse-uv-lock.go
+++ b/pkg/lockfile/parse-uv-lock.go
@@ -9,8 +9,9 @@ import (
 )
 
 type UvLockPackageSource struct {
-	Virtual string `toml:"virtual"`
-	Git     string `toml:"git"`
+	Virtual  string `toml:"virtual"`
+	Editable string `toml:"editable"`
+	Git      string `toml:"git"`
 }
 
 type UvLockPackage struct {
@@ -53,7 +54,7 @@ func ParseUvLock(pathToLockfile string) ([]PackageDetails, error) {
 
 	for _, lockPackage := range parsedLockfile.Packages {
 		// skip including the root "package", since its name and version are most likely arbitrary
-		if lockPackage.Source.Virtual == "." {
+		if lockPackage.Source.Virtual == "." || lockPackage.Source.Editable == "." {
 			continue
 		}
 
-- 
2.43.0


From 6890429428287fe755db7606eac3a3c5c8772485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:17 +0000
Subject: [PATCH 28/45] fix: use databases in the order that they are
 configured for each lockfile

---
 main.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/main.go b/main.go
index b9cbebc..b87d8cb 100644
--- a/main.go
+++ b/main.go
@@ -118,8 +118,10 @@ func (dbs OSVDatabases) check(r *reporter.Reporter, lockf lockfile.Lockfile, ign
 func (dbs OSVDatabases) forConfigs(dbConfigs []database.Config) OSVDatabases {
 	specificDBs := make(OSVDatabases, 0)
 
-	for _, db := range dbs {
-		for _, dbConfig := range dbConfigs {
+	// databases are used in the order that they're configured for the lockfile, rather than
+	// the order that they were loaded in as that depends on the configs of other lockfiles
+	for _, dbConfig := range dbConfigs {
+		for _, db := range dbs {
 			if dbConfig.Identifier() == db.Identifier() {
 				specificDBs = append(specificDBs, db)
 			}
-- 
2.43.0


From 1e9dfcec7fcb6ded02e54b0845b275bf239f402c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:01 +0000
Subject: [PATCH 29/45] fix: update configs that are used through different
 paths with everything that was found

---
 main.go | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/main.go b/main.go
index b87d8cb..d9410d5 100644
--- a/main.go
+++ b/main.go
@@ -714,17 +714,26 @@ This flag can be passed multiple times to ignore different vulnerabilities`)
 		// then we need to capture the id of each osv from each file
 		// against the location of each config being used for that lockfile
 		if *updateConfigIgnores && config.FilePath != "" {
-			if _, ok := vulnsPerConfig[config.FilePath]; !ok {
-				vulnsPerConfig[config.FilePath] = make(map[string]struct{})
+			configPath := config.FilePath
+
+			// the same config can be used through different paths, e.g. absolute and relative
+			for p := range vulnsPerConfig {
+				if isSameFile(p, configPath) {
+					configPath = p
+				}
+			}
+
+			if _, ok := vulnsPerConfig[configPath]; !ok {
+				vulnsPerConfig[configPath] = make(map[string]struct{})
 			}
 
 			for _, pkg := range report.Packages {
 				for _, vul := range pkg.Vulnerabilities.Unique() {
-					vulnsPerConfig[config.FilePath][vul.ID] = struct{}{}
+					vulnsPerConfig[configPath][vul.ID] = struct{}{}
 				}
 
 				for _, vul := range pkg.Ignored.Unique() {
-					vulnsPerConfig[config.FilePath][vul.ID] = struct{}{}
+					vulnsPerConfig[configPath][vul.ID] = struct{}{}
 				}
 			}
 		}
@@ -745,6 +754,18 @@ This flag can be passed multiple times to ignore different vulnerabilities`)
 	return exitCode
 }
 
+func isSameFile(a, b string) bool {
+	aInfo, err := os.Stat(a)
+
+	if err != nil {
+		return false
+	}
+
+	bInfo, err := os.Stat(b)
+
+	return err == nil && os.SameFile(aInfo, bInfo)
+}
+
 func writeUpdatedConfigs(r *reporter.Reporter, vulnsPerConfig map[string]map[string]struct{}) {
 	if len(vulnsPerConfig) != 0 {
 		r.PrintTextf("\n")
-- 
2.43.0


From 8d8c462508da6bfd14f9be8499333c68fe496caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:40 +0000
Subject: [PATCH 30/45] fix: report the same error regardless of the order that
 API batches fail in

---
 pkg/database/api-check.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/pkg/database/api-check.go b/pkg/database/api-check.go
index 3ff2cd9..42802b1 100644
--- a/pkg/database/api-check.go
+++ b/pkg/database/api-check.go
@@ -179,25 +179,25 @@ func (db APIDB) Check(pkgs []internal.PackageDetails) ([]Vulnerabilities, error)
 	eg.SetLimit(100)
 
 	batchResults := make([][][]ObjectWithID, len(batches))
+	batchErrors := make([]error, len(batches))
 
 	for i, batch := range batches {
 		eg.Go(func() error {
-			results, err := db.checkBatch(batch)
-
-			if err != nil {
-				return err
-			}
-
-			batchResults[i] = results
+			batchResults[i], batchErrors[i] = db.checkBatch(batch)
 
 			return nil
 		})
 	}
 
-	err := eg.Wait()
+	// errors are captured within the go routines
+	_ = eg.Wait()
 
-	if err != nil {
-		return nil, err
+	// report the error of the earliest batch rather than of whichever batch failed
+	// first, so that the outcome doesn't depend on the order of the responses
+	for _, err := range batchErrors {
+		if err != nil {
+			return nil, err
+		}
 	}
 
 	vulnerabilities := make([]Vulnerabilities, 0, len(pkgs))
-- 
2.43.0


From 98eadbde1533728299df087cfc8238e66b3d6780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:56 +0000
Subject: [PATCH 31/45] fix: don't share databases between lockfiles when
 configs are disabled

---
 main.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/main.go b/main.go
index d9410d5..9edbe93 100644
--- a/main.go
+++ b/main.go
@@ -449,11 +449,11 @@ func readAllLockfiles(
 			}
 
 			config = &con
-		} else if config.FilePath != "" {
-			// if there's a global config, then copy it - otherwise all lockfiles
-			// will hold a reference to the same config, which can result in configs
-			// for ecosystem-specific databases being used unnecessarily for lockfiles
-			// that don't have any packages that are part of that ecosystem
+		} else {
+			// copy the config - otherwise all lockfiles will hold a reference to the
+			// same config, which can result in configs for ecosystem-specific databases
+			// being used unnecessarily for lockfiles that don't have any packages that
+			// are part of that ecosystem
 			config = &configer.Config{
 				FilePath:  config.FilePath,
 				Ignore:    config.Ignore,
-- 
2.43.0


From edeb31c02b053e64f4be104a88a976cc4d530653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:51 +0000
Subject: [PATCH 32/45] fix: keep range events for the same version in the
 order they're listed

---
 pkg/database/osv.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/database/osv.go b/pkg/database/osv.go
index 689c674..12be0ac 100644
--- a/pkg/database/osv.go
+++ b/pkg/database/osv.go
@@ -132,10 +132,11 @@ func (ar AffectsRange) containsVersion(pkg internal.PackageDetails) bool {
 		return true
 	}
 
-	// the events are shared by everything that holds this advisory, so sort a copy
+	// the events are shared by everything that holds this advisory, so sort a copy,
+	// keeping events that are for the same version in the order they're listed
 	events := slices.Clone(ar.Events)
 
-	sort.Slice(events, func(i, j int) bool {
+	sort.SliceStable(events, func(i, j int) bool {
 		a := events[i]
 		b := events[j]
 
-- 
2.43.0


From 5f08928667bd01f6e2e1a74f10e3c8e36dc22b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:17 +0000
Subject: [PATCH 33/45] fix: working directories of archives can be spelt in
 any way that works for directories

---
 pkg/database/zip.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/database/zip.go b/pkg/database/zip.go
index b41062c..7b9a191 100644
--- a/pkg/database/zip.go
+++ b/pkg/database/zip.go
@@ -11,6 +11,7 @@ import (
 	"io"
 	"net/http"
 	"os"
+	"path"
 	"path/filepath"
 	"slices"
 	"strings"
@@ -172,7 +173,7 @@ func (db *ZipDB) loadZipFile(zipFile *zip.File, pkgNames []string) {
 // isInWorkingDirectory checks if a file in the archive is within the working directory
 // of the db, rather than in a directory whose name happens to start the same
 func (db *ZipDB) isInWorkingDirectory(name string) bool {
-	dir := strings.TrimSuffix(db.WorkingDirectory, "/")
+	dir := strings.TrimPrefix(path.Clean("/"+db.WorkingDirectory), "/")
 
 	return dir == "" || name == dir || strings.HasPrefix(name, dir+"/")
 }
-- 
2.43.0


From c353cce8487eb836cba40f6578953618744ec4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:39 +0000
Subject: [PATCH 34/45] fix: don't treat the checksum of an archive as a commit

---
 pkg/lockfile/parse-yarn-lock.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/lockfile/parse-yarn-lock.go b/pkg/lockfile/parse-yarn-lock.go
index ca96421..61e1d2d 100644
--- a/pkg/lockfile/parse-yarn-lock.go
+++ b/pkg/lockfile/parse-yarn-lock.go
@@ -142,6 +142,11 @@ func tryExtractCommit(resolution string) string {
 				}
 			}
 
+			// the fragment of an archive is its checksum, rather than a commit
+			if strings.HasSuffix(u.Path, ".tgz") || strings.HasSuffix(u.Path, ".tar.gz") {
+				return ""
+			}
+
 			return u.Fragment
 		}
 	}
-- 
2.43.0


From 16a081d587218e940a92d3eca07c0350171157ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:42 +0000
Subject: [PATCH 35/45] fix: don't include the quote in the name of scoped
 aliases without a range in yarn.lock

---
 pkg/lockfile/parse-yarn-lock.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/lockfile/parse-yarn-lock.go b/pkg/lockfile/parse-yarn-lock.go
index 61e1d2d..d3e54e8 100644
--- a/pkg/lockfile/parse-yarn-lock.go
+++ b/pkg/lockfile/parse-yarn-lock.go
@@ -48,6 +48,7 @@ func groupPackageLines(scanner *bufio.Scanner) [][]string {
 func extractYarnPackageName(str string) string {
 	str = strings.TrimPrefix(str, "\"")
 	str, _, _ = strings.Cut(str, ",")
+	str = strings.TrimRight(str, "\":")
 	str, isScoped := strings.CutPrefix(str, "@")
 
 	name, right, _ := strings.Cut(str, "@")
-- 
2.43.0


From 52713391cafbfeac1412ad963cdc8f8003402b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:27 +0000
Subject: [PATCH 36/45] fix: use just the name of direct references in
 requirements.txt

---
 pkg/lockfile/parse-requirements-txt.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/lockfile/parse-requirements-txt.go b/pkg/lockfile/parse-requirements-txt.go
index d0a9ff1..5adc619 100644
--- a/pkg/lockfile/parse-requirements-txt.go
+++ b/pkg/lockfile/parse-requirements-txt.go
@@ -22,6 +22,11 @@ func parseLine(line string) PackageDetails {
 	line, _, _ = strings.Cut(line, ";")
 	line, _, _ = strings.Cut(line, " --")
 
+	// direct references don't have a version, and their urls can hold anything
+	if i := strings.IndexAny(line, "@=<>~!"); i != -1 && line[i] == '@' {
+		line = line[:i]
+	}
+
 	name := strings.TrimSpace(line)
 	constraints := ""
 
-- 
2.43.0


From 159566e25fd588154f53412e1e780635d38f7354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:29 +0000
Subject: [PATCH 37/45] fix: support constraints within parentheses in
 requirements.txt

---
 pkg/lockfile/parse-requirements-txt.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/lockfile/parse-requirements-txt.go b/pkg/lockfile/parse-requirements-txt.go
index 5adc619..0719f32 100644
--- a/pkg/lockfile/parse-requirements-txt.go
+++ b/pkg/lockfile/parse-requirements-txt.go
@@ -27,6 +27,9 @@ func parseLine(line string) PackageDetails {
 		line = line[:i]
 	}
 
+	// the constraints can be within parentheses
+	line = strings.NewReplacer("(", " ", ")", " ").Replace(line)
+
 	name := strings.TrimSpace(line)
 	constraints := ""
 
-- 
2.43.0


From 350df983aee7ace738fd63f7997426eaf30fed96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:31 +0000
Subject: [PATCH 38/45] fix: allow more than one space after -r in
 requirements.txt

---
 pkg/lockfile/parse-requirements-txt.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/lockfile/parse-requirements-txt.go b/pkg/lockfile/parse-requirements-txt.go
index 0719f32..ae4fcbd 100644
--- a/pkg/lockfile/parse-requirements-txt.go
+++ b/pkg/lockfile/parse-requirements-txt.go
@@ -133,7 +133,7 @@ func parseRequirementsTxt(pathToLockfile string, requiredAlready map[string]stru
 		line = removeComments(line)
 
 		if ar, ok := strings.CutPrefix(line, "-r "); ok {
-			ar = filepath.Join(filepath.Dir(pathToLockfile), ar)
+			ar = filepath.Join(filepath.Dir(pathToLockfile), strings.TrimSpace(ar))
 
 			if _, ok := requiredAlready[ar]; ok {
 				continue
-- 
2.43.0


From b69bd8c2be3fe35df22446abd8a968829bbdfd59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:48 +0000
Subject: [PATCH 39/45] fix: don't list the urls of version control systems as
 packages in requirements.txt

---
 pkg/lockfile/parse-requirements-txt.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pkg/lockfile/parse-requirements-txt.go b/pkg/lockfile/parse-requirements-txt.go
index ae4fcbd..46bbfd1 100644
--- a/pkg/lockfile/parse-requirements-txt.go
+++ b/pkg/lockfile/parse-requirements-txt.go
@@ -87,9 +87,8 @@ func isNotRequirementLine(line string) bool {
 	return line == "" ||
 		// flags are not supported
 		strings.HasPrefix(line, "-") ||
-		// file urls
-		strings.HasPrefix(line, "https://") ||
-		strings.HasPrefix(line, "http://") ||
+		// urls, including those for version control systems
+		cachedregexp.MustCompile(`^[a-zA-Z][\w.+-]*://`).MatchString(line) ||
 		// file paths are not supported (relative or absolute)
 		strings.HasPrefix(line, ".") ||
 		strings.HasPrefix(line, "/")
-- 
2.43.0


From 1d2e338695e55fa708fa4375f615dae42f34635c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:08 +0000
Subject: [PATCH 40/45] fix: ignore whitespace around the values of
 dependencies in pom.xml

---
 pkg/lockfile/parse-maven-lock.go | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/pkg/lockfile/parse-maven-lock.go b/pkg/lockfile/parse-maven-lock.go
index 52a4888..4f45546 100644
--- a/pkg/lockfile/parse-maven-lock.go
+++ b/pkg/lockfile/parse-maven-lock.go
@@ -16,16 +16,22 @@ type MavenLockDependency struct {
 	Version    string   `xml:"version"`
 }
 
+// name is the name of the package that is depended on, without the whitespace
+// that might be around its parts which is not significant
+func (mld MavenLockDependency) name() string {
+	return strings.TrimSpace(mld.GroupID) + ":" + strings.TrimSpace(mld.ArtifactID)
+}
+
 func (mld MavenLockDependency) parseResolvedVersion(version string) string {
 	versionRequirementReg := cachedregexp.MustCompile(`[[(]?(.*?)(?:,|[)\]]|$)`)
 
-	results := versionRequirementReg.FindStringSubmatch(version)
+	results := versionRequirementReg.FindStringSubmatch(strings.TrimSpace(version))
 
-	if results == nil || results[1] == "" {
+	if results == nil || strings.TrimSpace(results[1]) == "" {
 		return "0"
 	}
 
-	return results[1]
+	return strings.TrimSpace(results[1])
 }
 
 func (mld MavenLockDependency) resolveVersionValue(lockfile MavenLockFile) string {
@@ -40,7 +46,7 @@ func (mld MavenLockDependency) resolveVersionValue(lockfile MavenLockFile) strin
 			fmt.Fprintf(
 				os.Stderr,
 				"Failed to resolve version of %s: property \"%s\" could not be found\n",
-				mld.GroupID+":"+mld.ArtifactID,
+				mld.name(),
 				results[1],
 			)
 
@@ -119,7 +125,7 @@ func ParseMavenLock(pathToLockfile string) ([]PackageDetails, error) {
 	details := map[string]PackageDetails{}
 
 	for _, lockPackage := range parsedLockfile.ManagedDependencies {
-		finalName := lockPackage.GroupID + ":" + lockPackage.ArtifactID
+		finalName := lockPackage.name()
 
 		details[finalName] = PackageDetails{
 			Name:      finalName,
@@ -131,10 +137,10 @@ func ParseMavenLock(pathToLockfile string) ([]PackageDetails, error) {
 
 	// standard dependencies take precedent over managed dependencies
 	for _, lockPackage := range parsedLockfile.Dependencies {
-		finalName := lockPackage.GroupID + ":" + lockPackage.ArtifactID
+		finalName := lockPackage.name()
 
 		// dependencies without a version use the one from their managed dependency
-		if _, ok := details[finalName]; ok && lockPackage.Version == "" {
+		if _, ok := details[finalName]; ok && strings.TrimSpace(lockPackage.Version) == "" {
 			continue
 		}
 
-- 
2.43.0


From b3b98fcc8a74366bedb36c1677ed767f212b6bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:10 +0000
Subject: [PATCH 41/45] fix: resolve properties in pom.xml that use other
 properties

---
 pkg/lockfile/parse-maven-lock.go | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/pkg/lockfile/parse-maven-lock.go b/pkg/lockfile/parse-maven-lock.go
index 4f45546..e98091c 100644
--- a/pkg/lockfile/parse-maven-lock.go
+++ b/pkg/lockfile/parse-maven-lock.go
@@ -39,21 +39,42 @@ func (mld MavenLockDependency) resolveVersionValue(lockfile MavenLockFile) strin
 
 	version := mld.Version
 
-	for _, results := range interpolationReg.FindAllStringSubmatch(mld.Version, -1) {
-		val, ok := lockfile.Properties.m[results[1]]
+	// properties can use other properties, including (indirectly) themselves,
+	// so give up once that has been followed for far longer than is sensible
+	for range 100 {
+		if !interpolationReg.MatchString(version) || len(version) > 10_000 {
+			break
+		}
+
+		unknown := ""
+
+		version = interpolationReg.ReplaceAllStringFunc(version, func(s string) string {
+			name := interpolationReg.FindStringSubmatch(s)[1]
+			val, ok := lockfile.Properties.m[name]
+
+			if !ok && unknown == "" {
+				unknown = name
+			}
 
-		if !ok {
+			return val
+		})
+
+		if unknown != "" {
 			fmt.Fprintf(
 				os.Stderr,
 				"Failed to resolve version of %s: property \"%s\" could not be found\n",
 				mld.name(),
-				results[1],
+				unknown,
 			)
 
 			return "0"
 		}
+	}
 
-		version = strings.ReplaceAll(version, results[0], val)
+	if interpolationReg.MatchString(version) {
+		fmt.Fprintf(os.Stderr, "Failed to resolve version of %s: its properties use each other\n", mld.name())
+
+		return "0"
 	}
 
 	return version
-- 
2.43.0


From 65fc7b4eb69a6fb793b64b80c00156a0c9633eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:32 +0000
Subject: [PATCH 42/45] fix: resolve properties in the names of dependencies in
 pom.xml

---
 pkg/lockfile/parse-maven-lock.go | 85 ++++++++++++++++++--------------
 1 file changed, 49 insertions(+), 36 deletions(-)

diff --git a/pkg/lockfile/parse-maven-lock.go b/pkg/lockfile/parse-maven-lock.go
index e98091c..1edb4e3 100644
--- a/pkg/lockfile/parse-maven-lock.go
+++ b/pkg/lockfile/parse-maven-lock.go
@@ -2,6 +2,7 @@ package lockfile
 
 import (
 	"encoding/xml"
+	"errors"
 	"fmt"
 	"os"
 	"strings"
@@ -18,8 +19,16 @@ type MavenLockDependency struct {
 
 // name is the name of the package that is depended on, without the whitespace
 // that might be around its parts which is not significant
-func (mld MavenLockDependency) name() string {
-	return strings.TrimSpace(mld.GroupID) + ":" + strings.TrimSpace(mld.ArtifactID)
+func (mld MavenLockDependency) name(lockfile MavenLockFile) string {
+	parts := []string{strings.TrimSpace(mld.GroupID), strings.TrimSpace(mld.ArtifactID)}
+
+	for i, part := range parts {
+		if resolved, err := lockfile.interpolate(part); err == nil {
+			parts[i] = resolved
+		}
+	}
+
+	return strings.Join(parts, ":")
 }
 
 func (mld MavenLockDependency) parseResolvedVersion(version string) string {
@@ -35,22 +44,49 @@ func (mld MavenLockDependency) parseResolvedVersion(version string) string {
 }
 
 func (mld MavenLockDependency) resolveVersionValue(lockfile MavenLockFile) string {
-	interpolationReg := cachedregexp.MustCompile(`\${([^}]+)}`)
+	version, err := lockfile.interpolate(mld.Version)
+
+	if err != nil {
+		fmt.Fprintf(os.Stderr, "Failed to resolve version of %s: %v\n", mld.name(lockfile), err)
+
+		return "0"
+	}
+
+	return version
+}
+
+func (mld MavenLockDependency) ResolveVersion(lockfile MavenLockFile) string {
+	version := mld.resolveVersionValue(lockfile)
+
+	return mld.parseResolvedVersion(version)
+}
+
+type MavenLockFile struct {
+	XMLName             xml.Name              `xml:"project"`
+	ModelVersion        string                `xml:"modelVersion"`
+	Properties          MavenLockProperties   `xml:"properties"`
+	Dependencies        []MavenLockDependency `xml:"dependencies>dependency"`
+	ManagedDependencies []MavenLockDependency `xml:"dependencyManagement>dependencies>dependency"`
+}
+
+var errMavenUnresolvedProperty = errors.New("property")
 
-	version := mld.Version
+// interpolate replaces the properties that are used by the given value
+func (mlf MavenLockFile) interpolate(value string) (string, error) {
+	interpolationReg := cachedregexp.MustCompile(`\${([^}]+)}`)
 
 	// properties can use other properties, including (indirectly) themselves,
 	// so give up once that has been followed for far longer than is sensible
 	for range 100 {
-		if !interpolationReg.MatchString(version) || len(version) > 10_000 {
+		if !interpolationReg.MatchString(value) || len(value) > 10_000 {
 			break
 		}
 
 		unknown := ""
 
-		version = interpolationReg.ReplaceAllStringFunc(version, func(s string) string {
+		value = interpolationReg.ReplaceAllStringFunc(value, func(s string) string {
 			name := interpolationReg.FindStringSubmatch(s)[1]
-			val, ok := lockfile.Properties.m[name]
+			val, ok := mlf.Properties.m[name]
 
 			if !ok && unknown == "" {
 				unknown = name
@@ -60,38 +96,15 @@ func (mld MavenLockDependency) resolveVersionValue(lockfile MavenLockFile) strin
 		})
 
 		if unknown != "" {
-			fmt.Fprintf(
-				os.Stderr,
-				"Failed to resolve version of %s: property \"%s\" could not be found\n",
-				mld.name(),
-				unknown,
-			)
-
-			return "0"
+			return "", fmt.Errorf("%w \"%s\" could not be found", errMavenUnresolvedProperty, unknown)
 		}
 	}
 
-	if interpolationReg.MatchString(version) {
-		fmt.Fprintf(os.Stderr, "Failed to resolve version of %s: its properties use each other\n", mld.name())
-
-		return "0"
+	if match := interpolationReg.FindString(value); match != "" {
+		return "", fmt.Errorf("%w \"%s\" uses itself", errMavenUnresolvedProperty, match)
 	}
 
-	return version
-}
-
-func (mld MavenLockDependency) ResolveVersion(lockfile MavenLockFile) string {
-	version := mld.resolveVersionValue(lockfile)
-
-	return mld.parseResolvedVersion(version)
-}
-
-type MavenLockFile struct {
-	XMLName             xml.Name              `xml:"project"`
-	ModelVersion        string                `xml:"modelVersion"`
-	Properties          MavenLockProperties   `xml:"properties"`
-	Dependencies        []MavenLockDependency `xml:"dependencies>dependency"`
-	ManagedDependencies []MavenLockDependency `xml:"dependencyManagement>dependencies>dependency"`
+	return value, nil
 }
 
 const MavenEcosystem Ecosystem = "Maven"
@@ -146,7 +159,7 @@ func ParseMavenLock(pathToLockfile string) ([]PackageDetails, error) {
 	details := map[string]PackageDetails{}
 
 	for _, lockPackage := range parsedLockfile.ManagedDependencies {
-		finalName := lockPackage.name()
+		finalName := lockPackage.name(*parsedLockfile)
 
 		details[finalName] = PackageDetails{
 			Name:      finalName,
@@ -158,7 +171,7 @@ func ParseMavenLock(pathToLockfile string) ([]PackageDetails, error) {
 
 	// standard dependencies take precedent over managed dependencies
 	for _, lockPackage := range parsedLockfile.Dependencies {
-		finalName := lockPackage.name()
+		finalName := lockPackage.name(*parsedLockfile)
 
 		// dependencies without a version use the one from their managed dependency
 		if _, ok := details[finalName]; ok && strings.TrimSpace(lockPackage.Version) == "" {
-- 
2.43.0


From b3e99b8e2cac15d1d18772b2a6405aceaec5b8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:34 +0000
Subject: [PATCH 43/45] fix: ignore whitespace around the values of properties
 in pom.xml

---
 pkg/lockfile/parse-maven-lock.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/lockfile/parse-maven-lock.go b/pkg/lockfile/parse-maven-lock.go
index 1edb4e3..0932591 100644
--- a/pkg/lockfile/parse-maven-lock.go
+++ b/pkg/lockfile/parse-maven-lock.go
@@ -131,7 +131,7 @@ func (p *MavenLockProperties) UnmarshalXML(d *xml.Decoder, start xml.StartElemen
 				return fmt.Errorf("%w", err)
 			}
 
-			p.m[tt.Name.Local] = s
+			p.m[tt.Name.Local] = strings.TrimSpace(s)
 
 		case xml.EndElement:
 			if tt.Name == start.Name {
-- 
2.43.0


From 4b11466b13e0fc08e2ba42bf53fcc901822abe84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:02:31 +0000
Subject: [PATCH 44/45] fix: load directory databases that are reached through
 a symbolic link

---
 pkg/database/dir.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/database/dir.go b/pkg/database/dir.go
index 8a20564..dac4714 100644
--- a/pkg/database/dir.go
+++ b/pkg/database/dir.go
@@ -46,6 +46,11 @@ func (db *DirDB) load(pkgNames []string) error {
 	p := filepath.Join(strings.TrimPrefix(u.Path, "/"), db.WorkingDirectory)
 	errored := false
 
+	// ensure the directory is walked even if it is a symbolic link, which otherwise are not followed
+	if info, err := os.Stat(p); err == nil && info.IsDir() {
+		p += string(filepath.Separator)
+	}
+
 	err = filepath.Walk(p, func(path string, info fs.FileInfo, err error) error {
 		if info == nil {
 			return err
-- 
2.43.0


From 72a5ff8e6b2e5e019ed3bb1b3e782e678e3c8b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:02:34 +0000
Subject: [PATCH 45/45] fix: error when the directory of a database cannot be
 read

---
 pkg/database/dir.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/database/dir.go b/pkg/database/dir.go
index dac4714..cf8a2af 100644
--- a/pkg/database/dir.go
+++ b/pkg/database/dir.go
@@ -56,6 +56,11 @@ func (db *DirDB) load(pkgNames []string) error {
 			return err
 		}
 
+		// not being able to read the directory itself means there is no database
+		if err != nil && path == p {
+			return err
+		}
+
 		if err != nil {
 			errored = true
 			_, _ = fmt.Fprintf(os.Stderr, "\n    %v", err)
-- 
2.43.0


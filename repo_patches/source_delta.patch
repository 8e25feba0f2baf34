From 3811a8fbe5c8320e9563ca26056f82e9d0342938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:59 +0000
Subject: [PATCH 01/33] fix: don't let a GIT range hide the version ranges
 listed after it

---
 pkg/database/osv.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/database/osv.go b/pkg/database/osv.go
index 520ecca..01bddd2 100644
--- a/pkg/database/osv.go
+++ b/pkg/database/osv.go
@@ -139,7 +139,7 @@ type Affects []AffectsRange
 func (a Affects) affectsVersion(pkg internal.PackageDetails) bool {
 	for _, r := range a {
 		if r.Type != TypeEcosystem && r.Type != TypeSemver {
-			return false
+			continue
 		}
 		if r.containsVersion(pkg) {
 			return true
-- 
2.43.0


From bdee6525deebf6cd5a1068fba24c45f90242bb21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:59 +0000
Subject: [PATCH 02/33] fix: don't panic on versions and ecosystems that cannot
 be compared

---
 pkg/database/osv.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/pkg/database/osv.go b/pkg/database/osv.go
index 01bddd2..2354bfc 100644
--- a/pkg/database/osv.go
+++ b/pkg/database/osv.go
@@ -93,7 +93,28 @@ func (ar AffectsRange) containsVersion(pkg internal.PackageDetails) bool {
 		return false
 	}
 
-	vp := semantic.MustParse(pkg.Version, string(pkg.CompareAs))
+	vp, err := semantic.Parse(pkg.Version, string(pkg.CompareAs))
+
+	if err != nil {
+		// a package without a version is handled by the caller
+		if pkg.Version != "" {
+			_, _ = fmt.Fprintf(os.Stderr, "Could not compare %s@%s: %v\n", pkg.Name, pkg.Version, err)
+		}
+
+		return false
+	}
+
+	for _, e := range ar.Events {
+		if e.Introduced == "0" {
+			continue
+		}
+
+		if _, err := semantic.Parse(e.version(), string(pkg.CompareAs)); err != nil {
+			_, _ = fmt.Fprintf(os.Stderr, "Could not compare %s@%s: %v\n", pkg.Name, pkg.Version, err)
+
+			return false
+		}
+	}
 
 	sort.Slice(ar.Events, func(i, j int) bool {
 		a := ar.Events[i]
-- 
2.43.0


From 0641c4d1761ff96b1dad017716f8690a2b236565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:21 +0000
Subject: [PATCH 03/33] fix: match packages to advisories by their normalized
 name and ecosystem

---
 main.go                   | 3 ++-
 pkg/database/mem-check.go | 3 ++-
 pkg/database/osv.go       | 4 +++-
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/main.go b/main.go
index 21ef194..62e1fb4 100644
--- a/main.go
+++ b/main.go
@@ -600,7 +600,8 @@ This flag can be passed multiple times to ignore different vulnerabilities`)
 	pkgSet := make(map[string]struct{})
 	for _, p := range files {
 		for _, pkg := range p.lockf.Packages {
-			pkgSet[pkg.Name] = struct{}{}
+			// databases are indexed by the normalized names of packages
+			pkgSet[database.Package{Name: pkg.Name, Ecosystem: pkg.Ecosystem}.NormalizedName()] = struct{}{}
 		}
 	}
 	allPackages := make([]string, 0, len(pkgSet))
diff --git a/pkg/database/mem-check.go b/pkg/database/mem-check.go
index 9cad474..ee56953 100644
--- a/pkg/database/mem-check.go
+++ b/pkg/database/mem-check.go
@@ -55,7 +55,8 @@ func (db *memDB) Vulnerabilities(includeWithdrawn bool) []OSV {
 func (db *memDB) VulnerabilitiesAffectingPackage(pkg internal.PackageDetails) Vulnerabilities {
 	var vulnerabilities Vulnerabilities
 
-	hash := string(pkg.Ecosystem) + "-" + pkg.Name
+	p := Package{Name: pkg.Name, Ecosystem: pkg.Ecosystem}
+	hash := string(p.NormalizedEcosystem()) + "-" + p.NormalizedName()
 
 	if vulns, ok := db.vulnerabilities[hash]; ok {
 		for _, vulnerability := range vulns {
diff --git a/pkg/database/osv.go b/pkg/database/osv.go
index 2354bfc..1cbf39b 100644
--- a/pkg/database/osv.go
+++ b/pkg/database/osv.go
@@ -303,9 +303,11 @@ func areEcosystemsEqual(a, b internal.Ecosystem) bool {
 }
 
 func (osv *OSV) IsAffected(pkg internal.PackageDetails) bool {
+	pkgName := Package{Name: pkg.Name, Ecosystem: pkg.Ecosystem}.NormalizedName()
+
 	for _, affected := range osv.Affected {
 		if areEcosystemsEqual(affected.Package.Ecosystem, pkg.Ecosystem) &&
-			affected.Package.NormalizedName() == pkg.Name {
+			affected.Package.NormalizedName() == pkgName {
 			if len(affected.Ranges) == 0 && len(affected.Versions) == 0 {
 				_, _ = fmt.Fprintf(
 					os.Stderr,
-- 
2.43.0


From 38b3ea41195e31658e3692415635b0cbca99af5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:27:12 +0000
Subject: [PATCH 04/33] fix: don't panic when the db host answers 304 without
 anything being cached

---
 pkg/database/zip.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/database/zip.go b/pkg/database/zip.go
index 4d7f8f6..c4bc9e4 100644
--- a/pkg/database/zip.go
+++ b/pkg/database/zip.go
@@ -88,7 +88,8 @@ func (db *ZipDB) fetchZip() ([]byte, error) {
 
 	defer resp.Body.Close()
 
-	if resp.StatusCode == http.StatusNotModified {
+	// without a cache there was nothing to compare with, so that response is not expected
+	if resp.StatusCode == http.StatusNotModified && cache != nil {
 		db.UpdatedAt = cache.Date
 
 		return cache.Body, nil
-- 
2.43.0


From fd4f5c96f428c895b6f206a0e82c704bcf45af5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:32:01 +0000
Subject: [PATCH 05/33] fix: use the databases of a lockfile in the order its
 own config lists them

---
 main.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/main.go b/main.go
index 62e1fb4..1d0484f 100644
--- a/main.go
+++ b/main.go
@@ -118,8 +118,9 @@ func (dbs OSVDatabases) check(r *reporter.Reporter, lockf lockfile.Lockfile, ign
 func (dbs OSVDatabases) forConfigs(dbConfigs []database.Config) OSVDatabases {
 	specificDBs := make(OSVDatabases, 0)
 
-	for _, db := range dbs {
-		for _, dbConfig := range dbConfigs {
+	// keep the order of the configs, so that what else has been loaded makes no difference
+	for _, dbConfig := range dbConfigs {
+		for _, db := range dbs {
 			if dbConfig.Identifier() == db.Identifier() {
 				specificDBs = append(specificDBs, db)
 			}
-- 
2.43.0


From d85d1ef41b3ed82bc3e60cecac22c7a11ad66afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:32:02 +0000
Subject: [PATCH 06/33] fix: don't share databases between lockfiles when
 configs are disabled

---
 main.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/main.go b/main.go
index 1d0484f..c4bd7be 100644
--- a/main.go
+++ b/main.go
@@ -446,9 +446,9 @@ func readAllLockfiles(
 			}
 
 			config = &con
-		} else if config.FilePath != "" {
-			// if there's a global config, then copy it - otherwise all lockfiles
-			// will hold a reference to the same config, which can result in configs
+		} else {
+			// copy the global config (which is empty if configs are disabled) - otherwise all
+			// lockfiles will hold a reference to the same config, which can result in configs
 			// for ecosystem-specific databases being used unnecessarily for lockfiles
 			// that don't have any packages that are part of that ecosystem
 			config = &configer.Config{
-- 
2.43.0


From 92f8ce17fdacc494900aae0c8220ba12798da32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:03 +0000
Subject: [PATCH 07/33] fix: don't drop pnpm v6 packages whose peers are scoped

---
 pkg/lockfile/parse-pnpm-lock.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/lockfile/parse-pnpm-lock.go b/pkg/lockfile/parse-pnpm-lock.go
index 8372054..72f9dd8 100644
--- a/pkg/lockfile/parse-pnpm-lock.go
+++ b/pkg/lockfile/parse-pnpm-lock.go
@@ -87,6 +87,10 @@ func extractPnpmPackageNameAndVersion(dependencyPath string, lockfileVersion flo
 		return name, version, nil
 	}
 
+	// peer dependencies in v6 lockfiles are attached to the end of the path in
+	// parentheses, and can include slashes if any of the peers are scoped
+	dependencyPath, _, _ = strings.Cut(dependencyPath, "(")
+
 	parts := strings.Split(dependencyPath, "/")
 
 	if len(parts) == 1 {
-- 
2.43.0


From e1190480f3b5c0f46406952ab2155c4f03af6a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:01 +0000
Subject: [PATCH 08/33] fix: don't panic on lockfiles with missing or malformed
 parts

---
 pkg/lockfile/parse-bun-lock.go      |  6 +++++-
 pkg/lockfile/parse-composer-lock.go |  2 +-
 pkg/lockfile/parse-npm-lock.go      | 11 ++++++-----
 pkg/lockfile/parse-nuget-lock.go    |  4 ++--
 pkg/lockfile/parse-pipenv-lock.go   |  7 ++++---
 pkg/lockfile/parse-pnpm-lock.go     |  2 +-
 pkg/lockfile/parse-pubspec-lock.go  |  4 ++--
 pkg/lockfile/parse-renv-lock.go     |  2 +-
 8 files changed, 22 insertions(+), 16 deletions(-)

diff --git a/pkg/lockfile/parse-bun-lock.go b/pkg/lockfile/parse-bun-lock.go
index e4857d8..9d3db9b 100644
--- a/pkg/lockfile/parse-bun-lock.go
+++ b/pkg/lockfile/parse-bun-lock.go
@@ -19,6 +19,10 @@ const BunEcosystem = NpmEcosystem
 // structurePackageDetails returns the name, version, and commit of a package
 // specified as a tuple in a bun.lock
 func structurePackageDetails(pkg []any) (string, string, string) {
+	if len(pkg) == 0 {
+		return "", "", ""
+	}
+
 	str, ok := pkg[0].(string)
 
 	if !ok {
@@ -49,7 +53,7 @@ func structurePackageDetails(pkg []any) (string, string, string) {
 }
 
 func ParseBunLock(pathToLockfile string) ([]PackageDetails, error) {
-	var parsedLockfile *BunLockfile
+	var parsedLockfile BunLockfile
 
 	lockfileContents, err := os.ReadFile(pathToLockfile)
 
diff --git a/pkg/lockfile/parse-composer-lock.go b/pkg/lockfile/parse-composer-lock.go
index 55d0740..d840c5d 100644
--- a/pkg/lockfile/parse-composer-lock.go
+++ b/pkg/lockfile/parse-composer-lock.go
@@ -34,7 +34,7 @@ func extractCommit(pkg ComposerPackage) string {
 }
 
 func ParseComposerLock(pathToLockfile string) ([]PackageDetails, error) {
-	var parsedLockfile *ComposerLock
+	var parsedLockfile ComposerLock
 
 	lockfileContents, err := os.ReadFile(pathToLockfile)
 
diff --git a/pkg/lockfile/parse-npm-lock.go b/pkg/lockfile/parse-npm-lock.go
index 1ed5d65..a1c2e86 100644
--- a/pkg/lockfile/parse-npm-lock.go
+++ b/pkg/lockfile/parse-npm-lock.go
@@ -68,9 +68,10 @@ func parseNpmLockDependencies(dependencies map[string]NpmLockDependency) map[str
 		} else {
 			// use the name of the underlying package rather than the alias
 			if strings.HasPrefix(detail.Version, "npm:") {
-				i := strings.LastIndex(detail.Version, "@")
-				name = detail.Version[4:i]
-				finalVersion = detail.Version[i+1:]
+				if i := strings.LastIndex(detail.Version, "@"); i > len("npm:") {
+					name = detail.Version[len("npm:"):i]
+					finalVersion = detail.Version[i+1:]
+				}
 			}
 
 			commit = tryExtractCommit(detail.Version)
@@ -152,7 +153,7 @@ func parseNpmLock(lockfile NpmLockfile) map[string]PackageDetails {
 }
 
 func ParseNpmLock(pathToLockfile string) ([]PackageDetails, error) {
-	var parsedLockfile *NpmLockfile
+	var parsedLockfile NpmLockfile
 
 	lockfileContents, err := os.ReadFile(pathToLockfile)
 
@@ -166,5 +167,5 @@ func ParseNpmLock(pathToLockfile string) ([]PackageDetails, error) {
 		return []PackageDetails{}, fmt.Errorf("could not parse %s: %w", pathToLockfile, err)
 	}
 
-	return pkgDetailsMapToSlice(parseNpmLock(*parsedLockfile)), nil
+	return pkgDetailsMapToSlice(parseNpmLock(parsedLockfile)), nil
 }
diff --git a/pkg/lockfile/parse-nuget-lock.go b/pkg/lockfile/parse-nuget-lock.go
index 5456526..79681ab 100644
--- a/pkg/lockfile/parse-nuget-lock.go
+++ b/pkg/lockfile/parse-nuget-lock.go
@@ -51,7 +51,7 @@ func parseNuGetLock(lockfile NuGetLockfile) ([]PackageDetails, error) {
 var ErrNuGetUnsupportedLockfileVersion = errors.New("unsupported lockfile version")
 
 func ParseNuGetLock(pathToLockfile string) ([]PackageDetails, error) {
-	var parsedLockfile *NuGetLockfile
+	var parsedLockfile NuGetLockfile
 
 	lockfileContents, err := os.ReadFile(pathToLockfile)
 
@@ -69,5 +69,5 @@ func ParseNuGetLock(pathToLockfile string) ([]PackageDetails, error) {
 		return []PackageDetails{}, fmt.Errorf("could not parse %s: %w", pathToLockfile, ErrNuGetUnsupportedLockfileVersion)
 	}
 
-	return parseNuGetLock(*parsedLockfile)
+	return parseNuGetLock(parsedLockfile)
 }
diff --git a/pkg/lockfile/parse-pipenv-lock.go b/pkg/lockfile/parse-pipenv-lock.go
index 47ecbf7..e06d63b 100644
--- a/pkg/lockfile/parse-pipenv-lock.go
+++ b/pkg/lockfile/parse-pipenv-lock.go
@@ -4,6 +4,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"os"
+	"strings"
 )
 
 type PipenvPackage struct {
@@ -18,7 +19,7 @@ type PipenvLock struct {
 const PipenvEcosystem = PipEcosystem
 
 func ParsePipenvLock(pathToLockfile string) ([]PackageDetails, error) {
-	var parsedLockfile *PipenvLock
+	var parsedLockfile PipenvLock
 
 	lockfileContents, err := os.ReadFile(pathToLockfile)
 
@@ -39,7 +40,7 @@ func ParsePipenvLock(pathToLockfile string) ([]PackageDetails, error) {
 			continue
 		}
 
-		version := pipenvPackage.Version[2:]
+		version := strings.TrimPrefix(pipenvPackage.Version, "==")
 
 		packages[name+"@"+version] = PackageDetails{
 			Name:      name,
@@ -54,7 +55,7 @@ func ParsePipenvLock(pathToLockfile string) ([]PackageDetails, error) {
 			continue
 		}
 
-		version := pipenvPackage.Version[2:]
+		version := strings.TrimPrefix(pipenvPackage.Version, "==")
 
 		packages[name+"@"+version] = PackageDetails{
 			Name:      name,
diff --git a/pkg/lockfile/parse-pnpm-lock.go b/pkg/lockfile/parse-pnpm-lock.go
index 72f9dd8..e6254bc 100644
--- a/pkg/lockfile/parse-pnpm-lock.go
+++ b/pkg/lockfile/parse-pnpm-lock.go
@@ -101,7 +101,7 @@ func extractPnpmPackageNameAndVersion(dependencyPath string, lockfileVersion flo
 
 	parts = parts[1:]
 
-	if strings.HasPrefix(parts[0], "@") {
+	if strings.HasPrefix(parts[0], "@") && len(parts) > 1 {
 		name = strings.Join(parts[:2], "/")
 		parts = parts[2:]
 	} else {
diff --git a/pkg/lockfile/parse-pubspec-lock.go b/pkg/lockfile/parse-pubspec-lock.go
index ef7df54..9adb8e3 100644
--- a/pkg/lockfile/parse-pubspec-lock.go
+++ b/pkg/lockfile/parse-pubspec-lock.go
@@ -33,7 +33,7 @@ func (pld *PubspecLockDescription) UnmarshalYAML(value *yaml.Node) error {
 		return nil
 	}
 
-	var str *string
+	var str string
 
 	err = value.Decode(&str)
 
@@ -41,7 +41,7 @@ func (pld *PubspecLockDescription) UnmarshalYAML(value *yaml.Node) error {
 		return fmt.Errorf("%w", err)
 	}
 
-	pld.Path = *str
+	pld.Path = str
 
 	return nil
 }
diff --git a/pkg/lockfile/parse-renv-lock.go b/pkg/lockfile/parse-renv-lock.go
index e44c29a..c286c96 100644
--- a/pkg/lockfile/parse-renv-lock.go
+++ b/pkg/lockfile/parse-renv-lock.go
@@ -19,7 +19,7 @@ type RenvLockfile struct {
 const CRANEcosystem Ecosystem = "CRAN"
 
 func ParseRenvLock(pathToLockfile string) ([]PackageDetails, error) {
-	var parsedLockfile *RenvLockfile
+	var parsedLockfile RenvLockfile
 
 	lockfileContents, err := os.ReadFile(pathToLockfile)
 
-- 
2.43.0


From 8cb619481bbff4a93cb0b8156f71dbf3d57280e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:03 +0000
Subject: [PATCH 09/33] fix: don't apply go.mod replacements to the result of
 other replacements

---
 pkg/lockfile/parse-go-lock.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pkg/lockfile/parse-go-lock.go b/pkg/lockfile/parse-go-lock.go
index 31a79e6..085b1b6 100644
--- a/pkg/lockfile/parse-go-lock.go
+++ b/pkg/lockfile/parse-go-lock.go
@@ -3,6 +3,7 @@ package lockfile
 import (
 	"fmt"
 	"os"
+	"sort"
 	"strings"
 
 	"golang.org/x/mod/modfile"
@@ -44,14 +45,19 @@ func ParseGoLock(pathToLockfile string) ([]PackageDetails, error) {
 		}
 	}
 
+	// a directive for a specific version takes precedence over one for all versions
+	sort.SliceStable(parsedLockfile.Replace, func(i, j int) bool {
+		return parsedLockfile.Replace[i].Old.Version == "" && parsedLockfile.Replace[j].Old.Version != ""
+	})
+
 	for _, replace := range parsedLockfile.Replace {
 		var replacements []string
 
 		if replace.Old.Version == "" {
 			// If the left version is omitted, all versions of the module are replaced.
-			for k, pkg := range packages {
-				if pkg.Name == replace.Old.Path {
-					replacements = append(replacements, k)
+			for _, require := range parsedLockfile.Require {
+				if require.Mod.Path == replace.Old.Path {
+					replacements = append(replacements, require.Mod.Path+"@"+require.Mod.Version)
 				}
 			}
 		} else {
-- 
2.43.0


From 57d0b9ca1a8c0a12ba1c191f08f74a18bc35eca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:04 +0000
Subject: [PATCH 10/33] fix: don't treat lines mentioning a source section as
 the start of one in Gemfile.lock

---
 pkg/lockfile/parse-gemfile-lock.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/lockfile/parse-gemfile-lock.go b/pkg/lockfile/parse-gemfile-lock.go
index 5c7dc40..9017362 100644
--- a/pkg/lockfile/parse-gemfile-lock.go
+++ b/pkg/lockfile/parse-gemfile-lock.go
@@ -29,10 +29,10 @@ const parserStateRuby parserState = "ruby"
 const parserStateBundledWith parserState = "bundled_with"
 
 func isSourceSection(line string) bool {
-	return strings.Contains(line, lockfileSectionGIT) ||
-		strings.Contains(line, lockfileSectionGEM) ||
-		strings.Contains(line, lockfileSectionPATH) ||
-		strings.Contains(line, lockfileSectionPLUGIN)
+	return line == lockfileSectionGIT ||
+		line == lockfileSectionGEM ||
+		line == lockfileSectionPATH ||
+		line == lockfileSectionPLUGIN
 }
 
 type gemfileLockfileParser struct {
-- 
2.43.0


From 6fb65ad42a82cff1f2ef44f7234e42fdb760bc78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:06 +0000
Subject: [PATCH 11/33] fix: resolve every property in the version of a Maven
 dependency

---
 pkg/lockfile/parse-maven-lock.go | 35 +++++++++++++++++---------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/pkg/lockfile/parse-maven-lock.go b/pkg/lockfile/parse-maven-lock.go
index 671a53f..4457079 100644
--- a/pkg/lockfile/parse-maven-lock.go
+++ b/pkg/lockfile/parse-maven-lock.go
@@ -4,6 +4,7 @@ import (
 	"encoding/xml"
 	"fmt"
 	"os"
+	"strings"
 
 	"github.com/g-rath/osv-detector/internal/cachedregexp"
 )
@@ -28,26 +29,28 @@ func (mld MavenLockDependency) parseResolvedVersion(version string) string {
 }
 
 func (mld MavenLockDependency) resolveVersionValue(lockfile MavenLockFile) string {
-	interpolationReg := cachedregexp.MustCompile(`\${(.+)}`)
+	interpolationReg := cachedregexp.MustCompile(`\${([^}]+)}`)
 
-	results := interpolationReg.FindStringSubmatch(mld.Version)
+	version := mld.Version
 
-	// no interpolation, so just return the version as-is
-	if results == nil {
-		return mld.Version
-	}
-	if val, ok := lockfile.Properties.m[results[1]]; ok {
-		return val
-	}
+	for _, results := range interpolationReg.FindAllStringSubmatch(mld.Version, -1) {
+		val, ok := lockfile.Properties.m[results[1]]
+
+		if !ok {
+			fmt.Fprintf(
+				os.Stderr,
+				"Failed to resolve version of %s: property \"%s\" could not be found\n",
+				mld.GroupID+":"+mld.ArtifactID,
+				results[1],
+			)
 
-	fmt.Fprintf(
-		os.Stderr,
-		"Failed to resolve version of %s: property \"%s\" could not be found\n",
-		mld.GroupID+":"+mld.ArtifactID,
-		results[1],
-	)
+			return "0"
+		}
+
+		version = strings.ReplaceAll(version, results[0], val)
+	}
 
-	return "0"
+	return version
 }
 
 func (mld MavenLockDependency) ResolveVersion(lockfile MavenLockFile) string {
-- 
2.43.0


From fef84c5fbe9cbe8565b44aefd1556182d30368d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:23 +0000
Subject: [PATCH 12/33] fix: support markers and multiple version specifiers in
 requirements.txt

---
 pkg/lockfile/parse-requirements-txt.go | 37 ++++++++++----------------
 1 file changed, 14 insertions(+), 23 deletions(-)

diff --git a/pkg/lockfile/parse-requirements-txt.go b/pkg/lockfile/parse-requirements-txt.go
index 46023fb..06b79a4 100644
--- a/pkg/lockfile/parse-requirements-txt.go
+++ b/pkg/lockfile/parse-requirements-txt.go
@@ -16,33 +16,24 @@ const PipEcosystem Ecosystem = "PyPI"
 //
 //	https://pip.pypa.io/en/stable/reference/requirements-file-format/#example
 func parseLine(line string) PackageDetails {
-	var constraint string
-	name := line
+	// environment markers and per-requirement options can have operators of their own
+	line, _, _ = strings.Cut(line, ";")
+	line, _, _ = strings.Cut(line, " --")
 
+	name := strings.TrimSpace(line)
 	version := "0.0.0"
 
-	if strings.Contains(line, "==") {
-		constraint = "=="
-	}
-
-	if strings.Contains(line, ">=") {
-		constraint = ">="
-	}
-
-	if strings.Contains(line, "~=") {
-		constraint = "~="
-	}
-
-	if strings.Contains(line, "!=") {
-		constraint = "!="
-	}
+	if i := strings.IndexAny(line, "=<>!~"); i != -1 {
+		name = strings.TrimSpace(line[:i])
 
-	if constraint != "" {
-		unprocessedName, unprocessedVersion, _ := strings.Cut(line, constraint)
-		name = strings.TrimSpace(unprocessedName)
+		for _, specifier := range strings.Split(line[i:], ",") {
+			specifier = strings.TrimSpace(specifier)
 
-		if constraint != "!=" {
-			version, _, _ = strings.Cut(strings.TrimSpace(unprocessedVersion), " ")
+			for _, constraint := range []string{"==", ">=", "~="} {
+				if unprocessedVersion, ok := strings.CutPrefix(specifier, constraint); ok {
+					version, _, _ = strings.Cut(strings.TrimSpace(unprocessedVersion), " ")
+				}
+			}
 		}
 	}
 
@@ -71,7 +62,7 @@ func normalizedRequirementName(name string) string {
 	name = strings.ToLower(name)
 	name, _, _ = strings.Cut(name, "[")
 
-	return name
+	return strings.TrimSpace(name)
 }
 
 func removeComments(line string) string {
-- 
2.43.0


From 8831175e55446b39fd27144a158d69e8e24ab41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:36 +0000
Subject: [PATCH 13/33] fix: list packages that only differ by their commit in
 a stable order

---
 pkg/lockfile/parse.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/lockfile/parse.go b/pkg/lockfile/parse.go
index ec3e6a4..110c297 100644
--- a/pkg/lockfile/parse.go
+++ b/pkg/lockfile/parse.go
@@ -136,6 +136,10 @@ func Parse(pathToLockfile string, parseAs string) (Lockfile, error) {
 
 	sort.Slice(packages, func(i, j int) bool {
 		if packages[i].Name == packages[j].Name {
+			if packages[i].Version == packages[j].Version {
+				return packages[i].Commit < packages[j].Commit
+			}
+
 			return packages[i].Version < packages[j].Version
 		}
 
-- 
2.43.0


From be2a096b7a1a2a6dcfb2d1b80bdee14adbdc3258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:14 +0000
Subject: [PATCH 14/33] fix: use the managed version of Maven dependencies that
 don't have their own

---
 pkg/lockfile/parse-maven-lock.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/lockfile/parse-maven-lock.go b/pkg/lockfile/parse-maven-lock.go
index 4457079..3f2aa3b 100644
--- a/pkg/lockfile/parse-maven-lock.go
+++ b/pkg/lockfile/parse-maven-lock.go
@@ -133,6 +133,11 @@ func ParseMavenLock(pathToLockfile string) ([]PackageDetails, error) {
 	for _, lockPackage := range parsedLockfile.Dependencies {
 		finalName := lockPackage.GroupID + ":" + lockPackage.ArtifactID
 
+		// unless they don't have a version, as then the managed version is used
+		if _, ok := details[finalName]; ok && lockPackage.Version == "" {
+			continue
+		}
+
 		details[finalName] = PackageDetails{
 			Name:      finalName,
 			Version:   lockPackage.ResolveVersion(*parsedLockfile),
-- 
2.43.0


From 05c35bd631169d93680e2cd47cbbadbb888ca1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:04 +0000
Subject: [PATCH 15/33] fix: combine the findings of lockfiles that reach one
 config through different paths

---
 main.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/main.go b/main.go
index c4bd7be..736ecf8 100644
--- a/main.go
+++ b/main.go
@@ -624,6 +624,8 @@ This flag can be passed multiple times to ignore different vulnerabilities`)
 	}
 
 	vulnsPerConfig := make(map[string]map[string]struct{})
+	// lockfiles can reach the same config through different paths
+	configPaths := make(map[string]string)
 
 	for i, result := range files {
 		if i >= 1 {
@@ -711,17 +713,27 @@ This flag can be passed multiple times to ignore different vulnerabilities`)
 		// then we need to capture the id of each osv from each file
 		// against the location of each config being used for that lockfile
 		if *updateConfigIgnores && config.FilePath != "" {
-			if _, ok := vulnsPerConfig[config.FilePath]; !ok {
-				vulnsPerConfig[config.FilePath] = make(map[string]struct{})
+			configPath := config.FilePath
+
+			if abs, err := filepath.Abs(configPath); err == nil {
+				if first, ok := configPaths[abs]; ok {
+					configPath = first
+				} else {
+					configPaths[abs] = configPath
+				}
+			}
+
+			if _, ok := vulnsPerConfig[configPath]; !ok {
+				vulnsPerConfig[configPath] = make(map[string]struct{})
 			}
 
 			for _, pkg := range report.Packages {
 				for _, vul := range pkg.Vulnerabilities.Unique() {
-					vulnsPerConfig[config.FilePath][vul.ID] = struct{}{}
+					vulnsPerConfig[configPath][vul.ID] = struct{}{}
 				}
 
 				for _, vul := range pkg.Ignored.Unique() {
-					vulnsPerConfig[config.FilePath][vul.ID] = struct{}{}
+					vulnsPerConfig[configPath][vul.ID] = struct{}{}
 				}
 			}
 		}
-- 
2.43.0


From 2bd82ed3ec80e2b25e5f328ee179259ab9466d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:51 +0000
Subject: [PATCH 16/33] fix: don't cache downloads that are not a complete
 archive

---
 pkg/database/zip.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/database/zip.go b/pkg/database/zip.go
index c4bc9e4..767090d 100644
--- a/pkg/database/zip.go
+++ b/pkg/database/zip.go
@@ -105,6 +105,12 @@ func (db *ZipDB) fetchZip() ([]byte, error) {
 		return nil, fmt.Errorf("could not read OSV database archive from response: %w", err)
 	}
 
+	// never cache something that is not a complete archive, as it would be used
+	// for as long as the host reports that the archive has not been modified
+	if _, err = zip.NewReader(bytes.NewReader(body), int64(len(body))); err != nil {
+		return nil, fmt.Errorf("could not read OSV database archive: %w", err)
+	}
+
 	etag := resp.Header.Get("ETag")
 	date := resp.Header.Get("Date")
 
-- 
2.43.0


From 09574f2ccdf869b040514ff9a600ad886aa4ec32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:53 +0000
Subject: [PATCH 17/33] fix: only load advisories from within the working
 directory of archive databases

---
 pkg/database/zip.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pkg/database/zip.go b/pkg/database/zip.go
index 767090d..c27eb26 100644
--- a/pkg/database/zip.go
+++ b/pkg/database/zip.go
@@ -11,6 +11,7 @@ import (
 	"io"
 	"net/http"
 	"os"
+	"path"
 	"path/filepath"
 	"slices"
 	"strings"
@@ -144,6 +145,14 @@ func mightAffectPackages(v OSV, names []string) bool {
 	return false
 }
 
+// Checks if the given name of a file in the archive is within the working directory
+// of the db, using whole path segments so that "a" does not cover "ab/1.json"
+func (db *ZipDB) isInWorkingDirectory(name string) bool {
+	dir := strings.TrimPrefix(path.Join("/", db.WorkingDirectory), "/")
+
+	return dir == "" || name == dir || strings.HasPrefix(name, dir+"/")
+}
+
 // Loads the given zip file into the database as an OSV.
 // It is assumed that the file is JSON and in the working directory of the db
 func (db *ZipDB) loadZipFile(zipFile *zip.File, pkgNames []string) {
@@ -195,7 +204,7 @@ func (db *ZipDB) load(pkgNames []string) error {
 
 	// Read all the files from the zip archive
 	for _, zipFile := range zipReader.File {
-		if !strings.HasPrefix(zipFile.Name, db.WorkingDirectory) {
+		if !db.isInWorkingDirectory(zipFile.Name) {
 			continue
 		}
 
-- 
2.43.0


From 4d6536f2a2127ce17309628af27dbca13ec883f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:37 +0000
Subject: [PATCH 18/33] fix: list npm packages that share a commit or version
 in a stable way

---
 pkg/lockfile/parse-npm-lock.go | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/pkg/lockfile/parse-npm-lock.go b/pkg/lockfile/parse-npm-lock.go
index a1c2e86..c099d77 100644
--- a/pkg/lockfile/parse-npm-lock.go
+++ b/pkg/lockfile/parse-npm-lock.go
@@ -82,7 +82,7 @@ func parseNpmLockDependencies(dependencies map[string]NpmLockDependency) map[str
 			// we also don't actually know what the "version" is, so blank it
 			if commit != "" {
 				finalVersion = ""
-				version = commit
+				version = "#" + commit
 			}
 		}
 
@@ -122,17 +122,11 @@ func parseNpmLockPackages(packages map[string]NpmLockPackage) map[string]Package
 			finalName = extractNpmPackageName(namePath)
 		}
 
-		finalVersion := detail.Version
-
 		commit := tryExtractCommit(detail.Resolved)
 
-		// if there is a commit, we want to deduplicate based on that rather than
-		// the version (the versions must match anyway for the commits to match)
-		if commit != "" {
-			finalVersion = commit
-		}
-
-		details[finalName+"@"+finalVersion] = PackageDetails{
+		// deduplicate based on both the version and the commit, as otherwise which one
+		// of the packages that only share one of those gets kept would be random
+		details[finalName+"@"+detail.Version+"#"+commit] = PackageDetails{
 			Name:      finalName,
 			Version:   detail.Version,
 			Ecosystem: NpmEcosystem,
-- 
2.43.0


From 101562ec617168b475da11ff4e7a77dc9b31be8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:28 +0000
Subject: [PATCH 19/33] fix: report directories that cannot be listed instead
 of treating them as empty

---
 main.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/main.go b/main.go
index 736ecf8..1a98666 100644
--- a/main.go
+++ b/main.go
@@ -240,11 +240,15 @@ func findLockfiles(r *reporter.Reporter, pathToLockOrDirectory string, parseAs s
 	file, err := os.Open(pathToLockOrDirectory)
 
 	if err == nil {
-		info, err := file.Stat()
+		var info os.FileInfo
+
+		info, err = file.Stat()
 
 		if err == nil {
 			if info.IsDir() {
-				dirs, err := file.ReadDir(-1)
+				var dirs []os.DirEntry
+
+				dirs, err = file.ReadDir(-1)
 
 				if err == nil {
 					for _, dir := range dirs {
-- 
2.43.0


From 9fec84d0d8807002a67e0c2b0e07b436ee7333fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:28 +0000
Subject: [PATCH 20/33] fix: treat a database directory that cannot be listed
 as a failure to load it

---
 pkg/database/dir.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/database/dir.go b/pkg/database/dir.go
index 8a20564..b4d5c4b 100644
--- a/pkg/database/dir.go
+++ b/pkg/database/dir.go
@@ -51,6 +51,11 @@ func (db *DirDB) load(pkgNames []string) error {
 			return err
 		}
 
+		// without the directory itself there is nothing to check against
+		if err != nil && path == p {
+			return err
+		}
+
 		if err != nil {
 			errored = true
 			_, _ = fmt.Fprintf(os.Stderr, "\n    %v", err)
-- 
2.43.0


From 673a9a95c8cea793208bc9f913679fafa3a17c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:18:31 +0000
Subject: [PATCH 21/33] fix: sort a copy of the events of a range

Checking a version sorted the events of the advisory in place, so the
advisories printed for one lockfile depended on the version orderings
that other lockfiles had asked for.
---
 pkg/database/osv.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pkg/database/osv.go b/pkg/database/osv.go
index 1cbf39b..1dadbbf 100644
--- a/pkg/database/osv.go
+++ b/pkg/database/osv.go
@@ -116,9 +116,12 @@ func (ar AffectsRange) containsVersion(pkg internal.PackageDetails) bool {
 		}
 	}
 
-	sort.Slice(ar.Events, func(i, j int) bool {
-		a := ar.Events[i]
-		b := ar.Events[j]
+	// the events are shared by every package that is checked, so sort a copy of them
+	events := slices.Clone(ar.Events)
+
+	sort.Slice(events, func(i, j int) bool {
+		a := events[i]
+		b := events[j]
 
 		if a.Introduced == "0" {
 			return true
@@ -135,7 +138,7 @@ func (ar AffectsRange) containsVersion(pkg internal.PackageDetails) bool {
 	})
 
 	var affected bool
-	for _, e := range ar.Events {
+	for _, e := range events {
 		if affected {
 			if e.Fixed != "" {
 				order, _ := vp.CompareStr(e.Fixed)
-- 
2.43.0


From b0aeeb71b72e0abf3ca27c23f1784853f247ed9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:11 +0000
Subject: [PATCH 22/33] fix: have a range that starts and ends with one version
 affect only that version

The events of a range can be listed in any order, but an 'introduced' that
followed a 'last_affected' for the same version was taken to start another
range which never ends.
---
 pkg/database/osv.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/database/osv.go b/pkg/database/osv.go
index 1dadbbf..1b35fc1 100644
--- a/pkg/database/osv.go
+++ b/pkg/database/osv.go
@@ -134,6 +134,11 @@ func (ar AffectsRange) containsVersion(pkg internal.PackageDetails) bool {
 		// Ignore errors as we assume the version is correct
 		order, _ := semantic.MustParse(a.version(), string(pkg.CompareAs)).CompareStr(b.version())
 
+		// the first version that is affected can also be the last one
+		if order == 0 {
+			return a.Introduced != "" && b.LastAffected != ""
+		}
+
 		return order < 0
 	})
 
-- 
2.43.0


From 86b939421d8a28a19bc328f6da74ebcbbfc77b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:18 +0000
Subject: [PATCH 23/33] fix: close the files that are opened

Every argument, CSV file and updated config stayed open until the end of
the run, so scanning more of them than files are allowed to be open failed.
---
 internal/configer/update.go | 1 +
 main.go                     | 2 ++
 pkg/lockfile/csv.go         | 1 +
 3 files changed, 4 insertions(+)

diff --git a/internal/configer/update.go b/internal/configer/update.go
index c46a95c..9df7566 100644
--- a/internal/configer/update.go
+++ b/internal/configer/update.go
@@ -21,6 +21,7 @@ func UpdateWithIgnores(pathToConfig string, ignores []string) error {
 	if err != nil {
 		return fmt.Errorf("%w", err)
 	}
+	defer f.Close()
 
 	encoder := yaml.NewEncoder(f)
 	encoder.SetIndent(2)
diff --git a/main.go b/main.go
index 1a98666..69993c9 100644
--- a/main.go
+++ b/main.go
@@ -240,6 +240,8 @@ func findLockfiles(r *reporter.Reporter, pathToLockOrDirectory string, parseAs s
 	file, err := os.Open(pathToLockOrDirectory)
 
 	if err == nil {
+		defer file.Close()
+
 		var info os.FileInfo
 
 		info, err = file.Stat()
diff --git a/pkg/lockfile/csv.go b/pkg/lockfile/csv.go
index cb9b949..91f7511 100644
--- a/pkg/lockfile/csv.go
+++ b/pkg/lockfile/csv.go
@@ -102,6 +102,7 @@ func FromCSVFile(pathToCSV string, parseAs string) (Lockfile, error) {
 	if err != nil {
 		return Lockfile{}, fmt.Errorf("could not read %s: %w", pathToCSV, err)
 	}
+	defer reader.Close()
 
 	packages, err := fromCSV(reader)
 
-- 
2.43.0


From 1fe97a461cf2f4cc5bc025a043d4528ce8552f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:07:44 +0000
Subject: [PATCH 24/33] fix: list packages in mix.lock by the name of the
 package

A dependency can be locked under another name than that of its package on
Hex, which advisories do not know.
---
 pkg/lockfile/parse-mix-lock.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/lockfile/parse-mix-lock.go b/pkg/lockfile/parse-mix-lock.go
index 31b2722..94653c4 100644
--- a/pkg/lockfile/parse-mix-lock.go
+++ b/pkg/lockfile/parse-mix-lock.go
@@ -56,6 +56,11 @@ func ParseMixLock(pathToLockfile string) ([]PackageDetails, error) {
 		version = strings.TrimSuffix(strings.TrimPrefix(version, `"`), `"`)
 		commit = strings.TrimSuffix(strings.TrimPrefix(commit, `"`), `"`)
 
+		// dependencies can be locked under another name than that of their package
+		if pkgName, ok := strings.CutPrefix(strings.TrimSpace(fields[1]), ":"); ok && strings.HasSuffix(fields[0], ":hex") {
+			name = pkgName
+		}
+
 		if strings.HasSuffix(fields[0], ":git") {
 			commit = version
 			version = ""
-- 
2.43.0


From e34dd87d3d8a64f393e5d1ca0209b46c4a3c4ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:25:12 +0000
Subject: [PATCH 25/33] fix: do not truncate descriptions within a character

---
 pkg/database/osv.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/database/osv.go b/pkg/database/osv.go
index 1b35fc1..25cc27a 100644
--- a/pkg/database/osv.go
+++ b/pkg/database/osv.go
@@ -9,6 +9,7 @@ import (
 	"strings"
 	"time"
 	"unicode"
+	"unicode/utf8"
 
 	"github.com/g-rath/osv-detector/internal"
 	"github.com/g-rath/osv-detector/internal/cachedregexp"
@@ -259,7 +260,8 @@ func truncate(str string, limit int) string {
 			// ideally we want to keep words whole when truncating,
 			// but if we can't find a space just truncate at the limit
 			if truncateAt == -1 {
-				truncateAt = limit
+				_, size := utf8.DecodeRuneInString(str[i:])
+				truncateAt = i + size
 			}
 
 			return str[:truncateAt] + "..."
-- 
2.43.0


From 27c729b0073a3d3100f60a2bd1866fb8fed846d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:25:13 +0000
Subject: [PATCH 26/33] fix: tell databases with a # in their url from ones
 with a working directory

---
 pkg/database/config.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/database/config.go b/pkg/database/config.go
index 57acb04..a5b0ef3 100644
--- a/pkg/database/config.go
+++ b/pkg/database/config.go
@@ -3,6 +3,7 @@ package database
 import (
 	"errors"
 	"fmt"
+	"strings"
 )
 
 type Config struct {
@@ -15,7 +16,8 @@ type Config struct {
 // Identifier returns a unique string that can be used to check if a loaded
 // database has been configured with this Config
 func (dbc Config) Identifier() string {
-	id := dbc.Type + "#" + dbc.URL
+	// make sure that the url cannot be mistaken for one with a working directory
+	id := dbc.Type + "#" + strings.ReplaceAll(dbc.URL, "#", "%23")
 
 	if dbc.WorkingDirectory != "" {
 		id += "#" + dbc.WorkingDirectory
-- 
2.43.0


From 143a550dd96c6c19eeade66f5e66dcf0d1e0f574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:25:47 +0000
Subject: [PATCH 27/33] fix: load a database directory that is behind a link

---
 pkg/database/dir.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/database/dir.go b/pkg/database/dir.go
index b4d5c4b..1131ebe 100644
--- a/pkg/database/dir.go
+++ b/pkg/database/dir.go
@@ -46,6 +46,11 @@ func (db *DirDB) load(pkgNames []string) error {
 	p := filepath.Join(strings.TrimPrefix(u.Path, "/"), db.WorkingDirectory)
 	errored := false
 
+	// walking does not follow links, which includes the one it starts with
+	if resolved, err := filepath.EvalSymlinks(p); err == nil {
+		p = resolved
+	}
+
 	err = filepath.Walk(p, func(path string, info fs.FileInfo, err error) error {
 		if info == nil {
 			return err
-- 
2.43.0


From 98c7795f6939853b9c32650ff0ce88f0907154f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:25:47 +0000
Subject: [PATCH 28/33] fix: refuse a database directory that is not a
 directory

---
 pkg/database/dir.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/database/dir.go b/pkg/database/dir.go
index 1131ebe..6b6440e 100644
--- a/pkg/database/dir.go
+++ b/pkg/database/dir.go
@@ -25,6 +25,7 @@ func (db *DirDB) Name() string       { return db.name }
 func (db *DirDB) Identifier() string { return db.identifier }
 
 var ErrDirPathWrongProtocol = errors.New("directory path must start with \"file:\" protocol")
+var ErrDirPathNotADirectory = errors.New("path is not a directory")
 
 // load walks the filesystem starting with the working directory within the local path,
 // loading all OSVs found along the way.
@@ -69,6 +70,10 @@ func (db *DirDB) load(pkgNames []string) error {
 		}
 
 		if !strings.HasSuffix(info.Name(), ".json") {
+			if path == p && !info.IsDir() {
+				return ErrDirPathNotADirectory
+			}
+
 			return nil
 		}
 
-- 
2.43.0


From c4543b3d244a555442a24b8804665dbe301ccee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:42 +0000
Subject: [PATCH 29/33] fix: replace cached archives as a whole

Writing the cache in place leaves it unusable (or with the end of another
version) when two runs store an archive at the same time, when it is read
while being written, and when the process is killed or the disk is full.
---
 pkg/database/zip.go | 36 ++++++++++++++++++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/pkg/database/zip.go b/pkg/database/zip.go
index c27eb26..f56e22d 100644
--- a/pkg/database/zip.go
+++ b/pkg/database/zip.go
@@ -49,6 +49,39 @@ func (db *ZipDB) cachePath() string {
 	return filepath.Join(os.TempDir(), fileName)
 }
 
+// writeCache replaces the cache as a whole, so that it can always be used by others,
+// even if they're writing it too or this process does not get to finish writing it
+func writeCache(cachePath string, contents []byte) error {
+	file, err := os.CreateTemp(filepath.Dir(cachePath), filepath.Base(cachePath)+".*.tmp")
+
+	if err != nil {
+		return fmt.Errorf("%w", err)
+	}
+
+	_, err = file.Write(contents)
+
+	if err == nil {
+		// being world readable is fine
+		err = file.Chmod(0644)
+	}
+
+	if closeErr := file.Close(); err == nil {
+		err = closeErr
+	}
+
+	if err == nil {
+		err = os.Rename(file.Name(), cachePath)
+	}
+
+	if err != nil {
+		_ = os.Remove(file.Name())
+
+		return fmt.Errorf("%w", err)
+	}
+
+	return nil
+}
+
 func (db *ZipDB) fetchZip() ([]byte, error) {
 	var cache *Cache
 	cachePath := db.cachePath()
@@ -124,8 +157,7 @@ func (db *ZipDB) fetchZip() ([]byte, error) {
 	cacheContents, err := json.Marshal(cache)
 
 	if err == nil {
-		//nolint:gosec // being world readable is fine
-		err = os.WriteFile(cachePath, cacheContents, 0644)
+		err = writeCache(cachePath, cacheContents)
 
 		if err != nil {
 			_, _ = fmt.Fprintf(os.Stderr, "Failed to write cache to %s: %v\n", cachePath, err)
-- 
2.43.0


From 784a6bccacf092a178d8022b83eb0a99b92a246f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:35 +0000
Subject: [PATCH 30/33] fix: resolve properties in pom.xml whose values refer
 to other properties

---
 pkg/lockfile/parse-maven-lock.go | 41 ++++++++++++++++++++++----------
 1 file changed, 28 insertions(+), 13 deletions(-)

diff --git a/pkg/lockfile/parse-maven-lock.go b/pkg/lockfile/parse-maven-lock.go
index 3f2aa3b..a4fada7 100644
--- a/pkg/lockfile/parse-maven-lock.go
+++ b/pkg/lockfile/parse-maven-lock.go
@@ -4,7 +4,6 @@ import (
 	"encoding/xml"
 	"fmt"
 	"os"
-	"strings"
 
 	"github.com/g-rath/osv-detector/internal/cachedregexp"
 )
@@ -33,24 +32,40 @@ func (mld MavenLockDependency) resolveVersionValue(lockfile MavenLockFile) strin
 
 	version := mld.Version
 
-	for _, results := range interpolationReg.FindAllStringSubmatch(mld.Version, -1) {
-		val, ok := lockfile.Properties.m[results[1]]
+	// the value of a property can refer to other properties, though not without end
+	for i := 0; i < 100 && len(version) < 1000; i++ {
+		matches := interpolationReg.FindAllStringSubmatch(version, -1)
 
-		if !ok {
-			fmt.Fprintf(
-				os.Stderr,
-				"Failed to resolve version of %s: property \"%s\" could not be found\n",
-				mld.GroupID+":"+mld.ArtifactID,
-				results[1],
-			)
+		if len(matches) == 0 {
+			return version
+		}
+
+		for _, results := range matches {
+			if _, ok := lockfile.Properties.m[results[1]]; !ok {
+				fmt.Fprintf(
+					os.Stderr,
+					"Failed to resolve version of %s: property \"%s\" could not be found\n",
+					mld.GroupID+":"+mld.ArtifactID,
+					results[1],
+				)
 
-			return "0"
+				return "0"
+			}
 		}
 
-		version = strings.ReplaceAll(version, results[0], val)
+		version = interpolationReg.ReplaceAllStringFunc(version, func(s string) string {
+			return lockfile.Properties.m[s[2:len(s)-1]]
+		})
 	}
 
-	return version
+	fmt.Fprintf(
+		os.Stderr,
+		"Failed to resolve version of %s: the properties in \"%s\" refer to each other without end\n",
+		mld.GroupID+":"+mld.ArtifactID,
+		mld.Version,
+	)
+
+	return "0"
 }
 
 func (mld MavenLockDependency) ResolveVersion(lockfile MavenLockFile) string {
-- 
2.43.0


From 043750f11a9afbfa3f66349c9467a26612cc9c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:25 +0000
Subject: [PATCH 31/33] fix: ignore whitespace around values in pom.xml

---
 pkg/lockfile/parse-maven-lock.go | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/pkg/lockfile/parse-maven-lock.go b/pkg/lockfile/parse-maven-lock.go
index a4fada7..ec6dc4b 100644
--- a/pkg/lockfile/parse-maven-lock.go
+++ b/pkg/lockfile/parse-maven-lock.go
@@ -4,6 +4,7 @@ import (
 	"encoding/xml"
 	"fmt"
 	"os"
+	"strings"
 
 	"github.com/g-rath/osv-detector/internal/cachedregexp"
 )
@@ -15,16 +16,22 @@ type MavenLockDependency struct {
 	Version    string   `xml:"version"`
 }
 
+// name is the name of the dependency, without the whitespace
+// that values can have around them as in the rest of the pom
+func (mld MavenLockDependency) name() string {
+	return strings.TrimSpace(mld.GroupID) + ":" + strings.TrimSpace(mld.ArtifactID)
+}
+
 func (mld MavenLockDependency) parseResolvedVersion(version string) string {
-	versionRequirementReg := cachedregexp.MustCompile(`[[(]?(.*?)(?:,|[)\]]|$)`)
+	versionRequirementReg := cachedregexp.MustCompile(`(?s)[[(]?(.*?)(?:,|[)\]]|$)`)
 
 	results := versionRequirementReg.FindStringSubmatch(version)
 
-	if results == nil || results[1] == "" {
+	if results == nil || strings.TrimSpace(results[1]) == "" {
 		return "0"
 	}
 
-	return results[1]
+	return strings.TrimSpace(results[1])
 }
 
 func (mld MavenLockDependency) resolveVersionValue(lockfile MavenLockFile) string {
@@ -45,7 +52,7 @@ func (mld MavenLockDependency) resolveVersionValue(lockfile MavenLockFile) strin
 				fmt.Fprintf(
 					os.Stderr,
 					"Failed to resolve version of %s: property \"%s\" could not be found\n",
-					mld.GroupID+":"+mld.ArtifactID,
+					mld.name(),
 					results[1],
 				)
 
@@ -61,7 +68,7 @@ func (mld MavenLockDependency) resolveVersionValue(lockfile MavenLockFile) strin
 	fmt.Fprintf(
 		os.Stderr,
 		"Failed to resolve version of %s: the properties in \"%s\" refer to each other without end\n",
-		mld.GroupID+":"+mld.ArtifactID,
+		mld.name(),
 		mld.Version,
 	)
 
@@ -69,7 +76,7 @@ func (mld MavenLockDependency) resolveVersionValue(lockfile MavenLockFile) strin
 }
 
 func (mld MavenLockDependency) ResolveVersion(lockfile MavenLockFile) string {
-	version := mld.resolveVersionValue(lockfile)
+	version := strings.TrimSpace(mld.resolveVersionValue(lockfile))
 
 	return mld.parseResolvedVersion(version)
 }
@@ -106,7 +113,7 @@ func (p *MavenLockProperties) UnmarshalXML(d *xml.Decoder, start xml.StartElemen
 				return fmt.Errorf("%w", err)
 			}
 
-			p.m[tt.Name.Local] = s
+			p.m[tt.Name.Local] = strings.TrimSpace(s)
 
 		case xml.EndElement:
 			if tt.Name == start.Name {
@@ -134,7 +141,7 @@ func ParseMavenLock(pathToLockfile string) ([]PackageDetails, error) {
 	details := map[string]PackageDetails{}
 
 	for _, lockPackage := range parsedLockfile.ManagedDependencies {
-		finalName := lockPackage.GroupID + ":" + lockPackage.ArtifactID
+		finalName := lockPackage.name()
 
 		details[finalName] = PackageDetails{
 			Name:      finalName,
@@ -146,10 +153,10 @@ func ParseMavenLock(pathToLockfile string) ([]PackageDetails, error) {
 
 	// standard dependencies take precedent over managed dependencies
 	for _, lockPackage := range parsedLockfile.Dependencies {
-		finalName := lockPackage.GroupID + ":" + lockPackage.ArtifactID
+		finalName := lockPackage.name()
 
 		// unless they don't have a version, as then the managed version is used
-		if _, ok := details[finalName]; ok && lockPackage.Version == "" {
+		if _, ok := details[finalName]; ok && strings.TrimSpace(lockPackage.Version) == "" {
 			continue
 		}
 
-- 
2.43.0


From fcee5a5a57e9ae2ede6e2f47e8adf7a7c691b9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:34 +0000
Subject: [PATCH 32/33] fix: update configs that are reached through links with
 the vulnerabilities of all lockfiles

---
 main.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/main.go b/main.go
index 69993c9..6f26343 100644
--- a/main.go
+++ b/main.go
@@ -722,6 +722,10 @@ This flag can be passed multiple times to ignore different vulnerabilities`)
 			configPath := config.FilePath
 
 			if abs, err := filepath.Abs(configPath); err == nil {
+				if resolved, err := filepath.EvalSymlinks(abs); err == nil {
+					abs = resolved
+				}
+
 				if first, ok := configPaths[abs]; ok {
 					configPath = first
 				} else {
-- 
2.43.0


From c5940aa083630d71314d6dbef4f5e18992928038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:30 +0000
Subject: [PATCH 33/33] fix: read the packages of yarn.lock keys that yarn
 writes as explicit keys

---
 pkg/lockfile/parse-yarn-lock.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pkg/lockfile/parse-yarn-lock.go b/pkg/lockfile/parse-yarn-lock.go
index ca96421..a0a03e9 100644
--- a/pkg/lockfile/parse-yarn-lock.go
+++ b/pkg/lockfile/parse-yarn-lock.go
@@ -27,8 +27,17 @@ func groupPackageLines(scanner *bufio.Scanner) [][]string {
 			continue
 		}
 
+		// the second line of an explicit key, see below
+		if line == ":" && len(group) == 1 {
+			continue
+		}
+
 		// represents the start of a new dependency
 		if !strings.HasPrefix(line, " ") {
+			// yarn (berry) writes keys with more than 1024 characters as explicit keys,
+			// which start with "? " and have their colon on a line of its own
+			line = strings.TrimPrefix(line, "? ")
+
 			if len(group) > 0 {
 				groups = append(groups, group)
 			}
-- 
2.43.0


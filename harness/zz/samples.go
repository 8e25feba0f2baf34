package zzverif

import (
	"fmt"
	"strings"

	"github.com/g-rath/osv-detector/pkg/lockfile"
)

// format is a supported lockfile format: its file name, the ecosystem of its
// packages, the parser that is meant to read it, and a document that locks three
// packages (name0@v0, name1@v1 and one at a commit, where the format has those).
type format struct {
	name  string
	eco   string
	parse func(string) ([]mPkg, error)
	doc   func(k int) string
	want  func(k int) []mPkg
}

func two(eco string, mk func(i, k int) (name, ver string)) func(int) []mPkg {
	return func(k int) []mPkg {
		a, av := mk(0, k)
		b, bv := mk(1, k)
		return append(pk(eco, a, av, ""), pk(eco, b, bv, "")...)
	}
}

func std(i, k int) (string, string) {
	return fmt.Sprintf("%c%d", 'a'+i, k), fmt.Sprintf("1.%d.%d", i, k)
}

var formats = []format{
	{"bun.lock", "npm", lockfile.ParseBunLock, func(k int) string {
		return fmt.Sprintf("{\n  \"lockfileVersion\": 1,\n  \"workspaces\": { \"\": { \"name\": \"root\" } },\n  \"packages\": {\n    \"a%d\": [\"a%d@1.0.%d\", \"\", { \"dependencies\": { \"b\": \"^1\" } }, \"sha512-x\"],\n    \"b%d\": [\"b%d@1.1.%d\", \"\", {}, \"sha512-y\"],\n  }\n}\n", k, k, k, k, k, k)
	}, two("npm", std)},
	{"Cargo.lock", "crates.io", lockfile.ParseCargoLock, func(k int) string {
		return fmt.Sprintf("version = 3\n\n[[package]]\nname = \"a%d\"\nversion = \"1.0.%d\"\nsource = \"registry+x\"\nchecksum = \"00\"\ndependencies = [\n \"b\",\n]\n\n[[package]]\nname = \"b%d\"\nversion = \"1.1.%d\"\n", k, k, k, k)
	}, two("crates.io", std)},
	{"composer.lock", "Packagist", lockfile.ParseComposerLock, func(k int) string {
		return fmt.Sprintf("{\"content-hash\":\"00\",\"packages\":[{\"name\":\"o/a%d\",\"version\":\"1.0.%d\",\"dist\":{\"type\":\"zip\",\"reference\":\"1.0\"}}],\"packages-dev\":[{\"name\":\"o/b%d\",\"version\":\"1.1.%d\",\"require\":{\"php\":\">=7\"}}]}\n", k, k, k, k)
	}, two("Packagist", func(i, k int) (string, string) { n, v := std(i, k); return "o/" + n, v })},
	{"Gemfile.lock", "RubyGems", lockfile.ParseGemfileLock, func(k int) string {
		return fmt.Sprintf("GEM\n  remote: https://rubygems.org/\n  specs:\n    a%d (1.0.%d)\n      dep (>= 1)\n    b%d (1.1.%d)\n\nPLATFORMS\n  ruby\n\nDEPENDENCIES\n  a%d\n\nBUNDLED WITH\n   2.3.7\n", k, k, k, k, k)
	}, two("RubyGems", std)},
	{"go.mod", "Go", lockfile.ParseGoLock, func(k int) string {
		return fmt.Sprintf("module example.com/root\n\ngo 1.21\n\nrequire (\n\texample.com/a%d v1.0.%d\n\texample.com/b%d v1.1.%d // indirect\n)\n", k, k, k, k)
	}, two("Go", func(i, k int) (string, string) { n, v := std(i, k); return "example.com/" + n, v })},
	{"mix.lock", "Hex", lockfile.ParseMixLock, func(k int) string {
		return fmt.Sprintf("%%{\n  \"a%d\": {:hex, :a%d, \"1.0.%d\", \"\", [:mix], [{:b, \"~> 1.0\", [hex: :b, optional: false]}], \"hexpm\", \"00\"},\n  \"b%d\": {:hex, :b%d, \"1.1.%d\", \"\", [:mix], [], \"hexpm\", \"11\"},\n}\n", k, k, k, k, k, k)
	}, two("Hex", std)},
	{"package-lock.json", "npm", lockfile.ParseNpmLock, func(k int) string {
		return fmt.Sprintf("{\"name\":\"root\",\"lockfileVersion\":3,\"packages\":{\"\":{\"name\":\"root\"},\"node_modules/a%d\":{\"version\":\"1.0.%d\",\"resolved\":\"https://registry.npmjs.org/a.tgz\"},\"node_modules/a/node_modules/b%d\":{\"version\":\"1.1.%d\",\"dependencies\":{\"c\":\"^1\"}}}}\n", k, k, k, k)
	}, two("npm", std)},
	{"packages.lock.json", "NuGet", lockfile.ParseNuGetLock, func(k int) string {
		return fmt.Sprintf("{\"version\":1,\"dependencies\":{\"net6.0\":{\"a%d\":{\"type\":\"Direct\",\"requested\":\"[1, )\",\"resolved\":\"1.0.%d\"}},\"net7.0\":{\"b%d\":{\"type\":\"Transitive\",\"resolved\":\"1.1.%d\"}}}}\n", k, k, k, k)
	}, two("NuGet", std)},
	{"pdm.lock", "PyPI", lockfile.ParsePdmLock, func(k int) string {
		return fmt.Sprintf("[metadata]\ngroups = [\"default\"]\nlock_version = \"4.4\"\n\n[[package]]\nname = \"a%d\"\nversion = \"1.0.%d\"\ngroups = [\"default\"]\n\n[[package]]\nname = \"b%d\"\nversion = \"1.1.%d\"\n", k, k, k, k)
	}, two("PyPI", std)},
	{"pnpm-lock.yaml", "npm", lockfile.ParsePnpmLock, func(k int) string {
		return fmt.Sprintf("lockfileVersion: '6.0'\n\npackages:\n\n  /a%d@1.0.%d:\n    resolution: {integrity: sha512-x}\n    dev: false\n\n  /b%d@1.1.%d:\n    resolution: {integrity: sha512-y}\n", k, k, k, k)
	}, two("npm", std)},
	{"poetry.lock", "PyPI", lockfile.ParsePoetryLock, func(k int) string {
		return fmt.Sprintf("[[package]]\nname = \"a%d\"\nversion = \"1.0.%d\"\noptional = false\n\n[package.dependencies]\nb = \">=1\"\n\n[[package]]\nname = \"b%d\"\nversion = \"1.1.%d\"\n\n[metadata]\nlock-version = \"2.0\"\n", k, k, k, k)
	}, two("PyPI", std)},
	{"pylock.toml", "PyPI", lockfile.ParsePylock, func(k int) string {
		return fmt.Sprintf("lock-version = \"1.0\"\n\n[[packages]]\nname = \"a%d\"\nversion = \"1.0.%d\"\n\n[[packages.wheels]]\nurl = \"x\"\n\n[[packages]]\nname = \"b%d\"\nversion = \"1.1.%d\"\n", k, k, k, k)
	}, two("PyPI", std)},
	{"Pipfile.lock", "PyPI", lockfile.ParsePipenvLock, func(k int) string {
		return fmt.Sprintf("{\"_meta\":{\"pipfile-spec\":6},\"default\":{\"a%d\":{\"version\":\"==1.0.%d\",\"index\":\"pypi\"}},\"develop\":{\"b%d\":{\"hashes\":[\"x\"],\"version\":\"==1.1.%d\"}}}\n", k, k, k, k)
	}, two("PyPI", std)},
	{"pom.xml", "Maven", lockfile.ParseMavenLock, func(k int) string {
		return fmt.Sprintf("<project>\n  <properties><v>1.0.%d</v></properties>\n  <dependencies>\n    <dependency><groupId>g</groupId><artifactId>a%d</artifactId><version>${v}</version></dependency>\n  </dependencies>\n  <dependencyManagement><dependencies>\n    <dependency><groupId>g</groupId><artifactId>b%d</artifactId><version>[1.1.%d,2)</version></dependency>\n  </dependencies></dependencyManagement>\n</project>\n", k, k, k, k)
	}, two("Maven", func(i, k int) (string, string) { n, v := std(i, k); return "g:" + n, v })},
	{"pubspec.lock", "Pub", lockfile.ParsePubspecLock, func(k int) string {
		return fmt.Sprintf("packages:\n  a%d:\n    dependency: transitive\n    description:\n      name: a%d\n      url: \"https://pub.dev\"\n    source: hosted\n    version: \"1.0.%d\"\n  b%d:\n    description: flutter\n    source: sdk\n    version: \"1.1.%d\"\nsdks:\n  dart: \">=2.12.0\"\n", k, k, k, k, k)
	}, two("Pub", std)},
	{"renv.lock", "CRAN", lockfile.ParseRenvLock, func(k int) string {
		return fmt.Sprintf("{\"R\":{\"Version\":\"4.1\"},\"Packages\":{\"a%d\":{\"Package\":\"a%d\",\"Version\":\"1.0.%d\",\"Repository\":\"CRAN\"},\"b%d\":{\"Package\":\"b%d\",\"Version\":\"1.1.%d\"}}}\n", k, k, k, k, k, k)
	}, two("CRAN", std)},
	{"requirements.txt", "PyPI", lockfile.ParseRequirementsTxt, func(k int) string {
		return fmt.Sprintf("# pins\na%d==1.0.%d --hash=sha256:00\nb%d >= 1.1.%d # why\n", k, k, k, k)
	}, two("PyPI", std)},
	{"yarn.lock", "npm", lockfile.ParseYarnLock, func(k int) string {
		return fmt.Sprintf("# yarn lockfile v1\n\n\na%d@^1.0.0:\n  version \"1.0.%d\"\n  resolved \"https://registry.yarnpkg.com/a.tgz#00\"\n  dependencies:\n    c \"^1\"\n\n\"b%d@^1.1.0\", b%d@1:\n  version \"1.1.%d\"\n", k, k, k, k, k)
	}, two("npm", std)},
	{"uv.lock", "PyPI", lockfile.ParseUvLock, func(k int) string {
		return fmt.Sprintf("version = 1\n\n[[package]]\nname = \"root\"\nversion = \"0.1\"\nsource = { virtual = \".\" }\n\n[[package]]\nname = \"a%d\"\nversion = \"1.0.%d\"\nsource = { registry = \"https://pypi.org/simple\" }\n\n[[package]]\nname = \"b%d\"\nversion = \"1.1.%d\"\nsource = { registry = \"https://pypi.org/simple\" }\n", k, k, k, k)
	}, two("PyPI", std)},
	{"gradle.lockfile", "Maven", lockfile.ParseGradleLock, gradleDoc, two("Maven", func(i, k int) (string, string) { n, v := std(i, k); return "g:" + n, v })},
	{"buildscript-gradle.lockfile", "Maven", lockfile.ParseGradleLock, gradleDoc, two("Maven", func(i, k int) (string, string) { n, v := std(i, k); return "g:" + n, v })},
}

func gradleDoc(k int) string {
	return fmt.Sprintf("# This is a Gradle generated file\ng:a%d:1.0.%d=compileClasspath\ng:b%d:1.1.%d=x,y\nempty=z\n", k, k, k, k)
}

func formatOf(name string) *format {
	for i := range formats {
		if formats[i].name == name {
			return &formats[i]
		}
	}
	return nil
}

// csvSample is a document for the csv-file parser.
func csvSample(k int) (string, []mPkg) {
	return fmt.Sprintf("npm,,a%d,1.0.%d\nPyPI,,b%d,1.1.%d\n", k, k, k, k), append(pk("npm", fmt.Sprintf("a%d", k), fmt.Sprintf("1.0.%d", k), ""), pk("PyPI", fmt.Sprintf("b%d", k), fmt.Sprintf("1.1.%d", k), "")...)
}

var _ = strings.Join

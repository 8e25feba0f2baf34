package zzverif

import (
	"fmt"
	"os"
	"path/filepath"
	"slices"
	"strings"

	"github.com/g-rath/osv-detector/pkg/lockfile"
)

func init() {
	register("C18",
		Family{Name: "bytes", Run: c18Bytes},
		Family{Name: "structure", Run: c18Structure},
		Family{Name: "structure-pairs", Run: c18Pairs, Thorough: true},
		Family{Name: "short-files", Run: c18Short},
		Family{Name: "extremes", Run: c18Extremes},
		Family{Name: "versions", Run: c18Versions},
		Family{Name: "among-others", Run: c18Among},
	)
}

type c18Doc struct{ format, text string }

// rich documents use the less common parts of the formats.
var c18Rich = []c18Doc{
	{"bun.lock", "{\n  \"lockfileVersion\": 1,\n  \"workspaces\": { \"\": { \"name\": \"r\", }, },\n  \"packages\": {\n    \"@s/a\": [\"@s/a@1.0.0\", \"\", { \"dependencies\": { \"b\": \"1\" } }, \"sha\"],\n    \"al\": [\"re@npm:b@2.0.0\", \"\", {}, \"\"],\n    \"g\": [\"g@github:o/g#abcdef1\", {}, \"o-g-abcdef1\"],\n    \"w\": [\"w@workspace:packages/w\"],\n    \"t\": [\"t@https://x.test/t.tgz\", {}],\n  }\n}\n"},
	{"Cargo.lock", "version = 3\n[[package]]\nname = \"a\"\nversion = \"1.0.0\"\nsource = \"git+https://x/y?branch=main#0123456789012345678901234567890123456789\"\ndependencies = [\"b 1.0\"]\n[[package]]\nname = \"b\"\nversion = \"2.0.0\"\n[metadata]\n\"checksum a\" = \"x\"\n"},
	{"composer.lock", `{"packages":[{"name":"a/b","version":"v1.0","dist":{"type":"zip","reference":"abc"},"source":{"reference":"abc"}},{"name":"c/d","version":"dev-main","dist":null}],"packages-dev":[{"name":"e/f","version":"1","dist":{"reference":""}}],"aliases":[]}`},
	{"Gemfile.lock", "GIT\n  remote: https://x/y.git\n  revision: 0123456789\n  branch: main\n  specs:\n    g (1.0)\n      dep (~> 2)\n\nPATH\n  remote: .\n  specs:\n    p (0.1)\n\nPLUGIN SOURCE\n  remote: x\n  specs:\n\nGEM\n  remote: https://rubygems.org/\n  specs:\n    a (1.2.3)\n    n (1.0-x86_64-linux)\n    e!\n\nPLATFORMS\n  ruby\n\nDEPENDENCIES\n  a (~> 1)!\n\nCHECKSUMS\n  a (1.2.3) sha256=0\n\nRUBY VERSION\n   ruby 3.0\n\nBUNDLED WITH\n   2.4.0\n"},
	{"go.mod", "module m\n\ngo 1.21.0\n\ntoolchain go1.22.1\n\nrequire a.com/x v1.0.0\n\nrequire (\n\ta.com/y/v2 v2.0.0+incompatible // indirect\n\ta.com/z v0.0.0-20200101000000-abcdefabcdef\n)\n\nexclude a.com/x v0.9.0\n\nreplace a.com/x => ../x\n\nreplace (\n\ta.com/y/v2 v2.0.0 => b.com/y v1.1.1\n)\n\nretract v1.0.0\n"},
	{"mix.lock", "%{\n  \"a\": {:hex, :a, \"1.0.0\", \"abc\", [:mix], [{:b, \"~> 1\", [hex: :b, optional: true]}], \"hexpm\", \"ff\"},\n  \"g\": {:git, \"https://x/g.git\", \"0123456789012345678901234567890123456789\", [branch: \"main\"]},\n  \"h\": {:hex, :h, \"2.0.0\"},\n}\n"},
	{"package-lock.json", `{"name":"r","lockfileVersion":1,"dependencies":{"a":{"version":"1.0.0","requires":{"b":"^1"},"dependencies":{"b":{"version":"npm:@s/c@2.0.0"}}},"g":{"version":"git+ssh://git@github.com/o/g.git#0123456789012345678901234567890123456789","from":"g"},"f":{"version":"file:../f"},"u":{"version":"https://x.test/u.tgz"},"h":{"version":"github:o/h#abc"}}}`},
	{"package-lock.json", `{"name":"r","lockfileVersion":2,"packages":{"":{"name":"r","dependencies":{"a":"1"}},"node_modules/a":{"name":"real","version":"1.0.0","resolved":"git+ssh://git@x/y.git#0123456789012345678901234567890123456789","dependencies":{"b":"1"}},"node_modules/@s/b":{"version":"2.0.0","link":false},"packages/w":{"name":"w","version":"0.1"},"node_modules/w":{"resolved":"packages/w","link":true},"node_modules/a/node_modules/c":{"version":"3","dev":true}},"dependencies":{"a":{"version":"9.0.0"}}}`},
	{"packages.lock.json", `{"version":1,"dependencies":{".NETCoreApp,Version=v6.0":{"A":{"type":"Direct","requested":"[1, )","resolved":"1.0.0","contentHash":"x","dependencies":{"B":"1"}},"B":{"type":"Transitive","resolved":"2.0.0"}},"net7.0/linux":{}}}`},
	{"pdm.lock", "[metadata]\ngroups = [\"default\", \"dev\"]\nlock_version = \"4.4\"\n\n[[package]]\nname = \"a\"\nversion = \"1.0\"\nextras = [\"x\"]\nsummary = \"s\"\n\n[[package]]\nname = \"g\"\nversion = \"2.0\"\ngit = \"https://x/g.git\"\nref = \"main\"\nrevision = \"0123456789\"\n"},
	{"pnpm-lock.yaml", "lockfileVersion: 5.4\n\nspecifiers:\n  a: ^1\n\ndependencies:\n  a: 1.0.0\n\npackages:\n\n  /a/1.0.0:\n    resolution: {integrity: x}\n    dev: false\n\n  /@s/b/2.0.0_p@1.0.0+q@2:\n    resolution: {integrity: x}\n    dependencies:\n      a: 1.0.0\n\n  github.com/o/g/0123456789012345678901234567890123456789:\n    resolution: {tarball: https://codeload.github.com/o/g/tar.gz/0123456789012345678901234567890123456789}\n    name: g\n    version: 3.0.0\n\n  file:../f:\n    resolution: {directory: ../f, type: directory}\n    name: f\n"},
	{"pnpm-lock.yaml", "lockfileVersion: '9.0'\n\nimporters:\n  .:\n    dependencies:\n      a:\n        specifier: ^1\n        version: 1.0.0\n\npackages:\n\n  '@s/a@1.0.0':\n    resolution: {integrity: x}\n\n  b@2.0.0:\n    resolution: {integrity: x}\n    peerDependencies:\n      c: '1'\n\n  g@https://codeload.github.com/o/g/tar.gz/0123456789012345678901234567890123456789:\n    resolution: {tarball: https://codeload.github.com/o/g/tar.gz/0123456789012345678901234567890123456789}\n    version: 3.0.0\n\nsnapshots:\n\n  b@2.0.0(c@1.0.0): {}\n"},
	{"poetry.lock", "[[package]]\nname = \"a\"\nversion = \"1.0\"\ncategory = \"main\"\noptional = true\nfiles = [{file = \"x\", hash = \"y\"}]\n\n[package.extras]\nq = [\"b\"]\n\n[[package]]\nname = \"g\"\nversion = \"2.0\"\n\n[package.source]\ntype = \"git\"\nurl = \"https://x/g\"\nreference = \"main\"\nresolved_reference = \"0123456789\"\n\n[metadata]\nlock-version = \"2.0\"\n"},
	{"pylock.toml", "lock-version = \"1.0\"\nenvironments = [\"x\"]\n\n[[packages]]\nname = \"a\"\nversion = \"1.0\"\nmarker = \"x\"\nwheels = [{name = \"w\", url = \"u\", hashes = {sha256 = \"0\"}}]\n\n[[packages]]\nname = \"g\"\nvcs = {type = \"git\", url = \"https://x/g\", commit-id = \"0123456789\"}\n\n[[packages]]\nname = \"d\"\ndirectory = {path = \".\", editable = true}\n"},
	{"Pipfile.lock", `{"_meta":{"hash":{"sha256":"x"},"requires":{"python_version":"3"},"sources":[]},"default":{"a":{"version":"==1.0","hashes":["x"],"markers":"y"},"g":{"git":"https://x/g","ref":"0123456789"},"n":{}},"develop":{"d":{"version":"==2.0"}},"docs":{"o":{"version":"==3"}}}`},
	{"pom.xml", "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<project xmlns=\"http://maven.apache.org/POM/4.0.0\">\n<modelVersion>4.0.0</modelVersion><groupId>me</groupId><artifactId>app</artifactId><version>1.0</version>\n<properties><v>1.2</v><w>${v}</w><e></e></properties>\n<!-- c -->\n<dependencyManagement><dependencies><dependency><groupId>g</groupId><artifactId>m</artifactId><version>[1.0,2.0)</version></dependency></dependencies></dependencyManagement>\n<dependencies><dependency><groupId>g</groupId><artifactId>a</artifactId><version>${v}</version><exclusions><exclusion><groupId>x</groupId></exclusion></exclusions></dependency><dependency><groupId>g</groupId><artifactId>m</artifactId></dependency><dependency><groupId>${project.groupId}</groupId><artifactId>u</artifactId><version>${nope}-${v}</version></dependency></dependencies>\n<build/></project>\n"},
	{"pubspec.lock", "# c\npackages:\n  a:\n    dependency: \"direct main\"\n    description:\n      name: a\n      sha256: x\n      url: \"https://pub.dev\"\n    source: hosted\n    version: \"1.0.0\"\n  g:\n    dependency: \"direct main\"\n    description:\n      path: \".\"\n      ref: main\n      resolved-ref: \"0123456789\"\n      url: \"https://x/g\"\n    source: git\n    version: \"2.0.0\"\n  s:\n    dependency: \"direct main\"\n    description: flutter\n    source: sdk\n    version: \"0.0.0\"\nsdks:\n  dart: \">=2.0\"\n"},
	{"renv.lock", `{"R":{"Version":"4.1","Repositories":[{"Name":"CRAN","URL":"x"}]},"Packages":{"a":{"Package":"a","Version":"1.0","Source":"Repository","Repository":"CRAN","Requirements":["b"],"Hash":"x"},"b":{"Package":"b","Version":"2.0","Source":"GitHub","RemoteSha":"0123"},"c":{"Package":"c","Version":"3","Source":"Bioconductor"}}}`},
	{"requirements.txt", "# c\n--index-url https://x\n-e .\n-c cons.txt\na==1.0 ; python_version < '3' --hash=sha256:0 \\\n  --hash=sha256:1\nb[x,y]>=2.0,<3\nc\nd~=1.0 # why\n./local\nhttps://x/y.whl\ne!=1\n f === 2\ng @ file:///x\n\\\n"},
	{"yarn.lock", "# THIS IS AN AUTOGENERATED FILE.\n# yarn lockfile v1\n\n\n\"@s/a@^1.0.0\", \"@s/a@~1.1\":\n  version \"1.0.0\"\n  resolved \"https://registry.yarnpkg.com/@s/a/-/a-1.0.0.tgz#0\"\n  integrity x\n  dependencies:\n    b \"^1\"\n\n\"al@npm:b@2\":\n  version \"2.0.0\"\n\n\"g@git+ssh://git@github.com/o/g.git#main\":\n  version \"3.0.0\"\n  uid 0123\n  resolved \"git+ssh://git@github.com/o/g.git#0123456789012345678901234567890123456789\"\n"},
	{"yarn.lock", "__metadata:\n  version: 6\n  cacheKey: 8\n\n\"@s/a@npm:^1.0.0, @s/a@npm:~1.1\":\n  version: 1.0.0\n  resolution: \"@s/a@npm:1.0.0\"\n  checksum: x\n  languageName: node\n  linkType: hard\n\n\"g@https://github.com/o/g.git#commit=0123456789\":\n  version: 2.0.0\n  resolution: \"g@https://github.com/o/g.git#commit=0123456789\"\n\n\"p@patch:q@^1#./x.patch::locator=r%40workspace%3A.\":\n  version: 1.0.0\n  resolution: \"p@patch:q@npm%3A1.0.0#./x.patch::version=1.0.0&hash=a\"\n\n\"r@workspace:.\":\n  version: 0.0.0-use.local\n  resolution: \"r@workspace:.\"\n"},
	{"uv.lock", "version = 1\nrequires-python = \">=3.8\"\n\n[[package]]\nname = \"root\"\nversion = \"0.1\"\nsource = { virtual = \".\" }\ndependencies = [{ name = \"a\" }]\n\n[package.dev-dependencies]\ndev = [{ name = \"b\" }]\n\n[[package]]\nname = \"a\"\nversion = \"1.0\"\nsource = { registry = \"https://pypi.org/simple\" }\n\n[[package]]\nname = \"g\"\nversion = \"2.0\"\nsource = { git = \"https://x/g?rev=main#0123456789\" }\n"},
	{"gradle.lockfile", "# Manual edits can break the build\ncom.x:a:1.0=compileClasspath,runtimeClasspath\ncom.x:b:2.0\nbroken line\n:::\nx:y:z:w=1\nempty=annotationProcessor\n"},
	{"csv-file", "npm,,a,1.0\nPyPI,npm,\"q,x\",2.0\n,,g,0123456789\nDebian:11,Debian,d,1:2.0-1\n"},
}

func c18Docs() []c18Doc {
	var out []c18Doc
	for _, f := range formats {
		out = append(out, c18Doc{f.name, f.doc(0)})
	}
	return append(out, c18Rich...)
}

var c18DocList = c18Docs()

// c18Parse gives a document to the parser of its format. A panic or a hang is
// noticed by the engine.
func c18Parse(c *C, format, text string) {
	c.Leaf(fmt.Sprintf("%s:\n%s", format, text))
	p := filepath.Join(theEngine.scratch, "in", format)
	must(os.MkdirAll(filepath.Dir(p), 0o755))
	must(os.WriteFile(p, []byte(text), 0o644))
	c18Run(c, format, p)
}

func c18Run(c *C, format, p string) {
	var err error
	var ps []mPkg
	if format == "csv-file" {
		ps, err = parseCSVFile(p)
	} else {
		ps, err = formatOf(format).parse(p)
	}
	if err != nil {
		c.Count("error")
	} else {
		c.Count("parsed")
		if len(ps) > 0 {
			c.Nontrivial()
		}
	}
}

const c18Chars = "{}[]\"':,\n\x00<>@#/=-(! \\\xff0a"

func c18Bytes(c *C) {
	d := c18DocList[c.N(len(c18DocList))]
	i := c.N(len(d.text) + 1)
	c.Split()
	switch k := c.N(3 + len(c18Chars)*c.Q(1, 2)); {
	case k == 0: // truncated
		c18Parse(c, d.format, d.text[:i])
	case k == 1: // only the rest
		c18Parse(c, d.format, d.text[i:])
	case i == len(d.text):
		c.Skip()
	case k == 2: // one byte missing
		c18Parse(c, d.format, d.text[:i]+d.text[i+1:])
	case k < 3+len(c18Chars): // one byte wrong
		c18Parse(c, d.format, d.text[:i]+string(c18Chars[k-3])+d.text[i+1:])
	default: // one byte too many
		c18Parse(c, d.format, d.text[:i]+string(c18Chars[k-3-len(c18Chars)])+d.text[i:])
	}
}

// edit is one damaged part of a document.
type edit struct {
	from, to int
	with     string
}

// c18Edits lists the single structural damages of a document: every quoted
// string, number or word, every bracketed group, every XML element and every
// line with the more indented lines below it is removed, repeated, emptied and
// replaced by other kinds of values.
func c18Edits(format, s string) []edit {
	var out []edit
	add := func(from, to int, with ...string) {
		for _, w := range with {
			out = append(out, edit{from, to, w})
		}
	}
	vals := []string{"null", "true", "1", "-1.5", "1e400", "\"\"", "\"x\"", "\"@\"", "\"@s/\"", "[]", "{}", "[null]", "{\"\":null}", "{\"x\":1}", "[[]]", "", "\"==\"", "\"npm:\"", "\"#\""}
	isWord := func(b byte) bool {
		return b == '_' || b == '.' || b == '-' || b >= '0' && b <= '9' || b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z' || b == '@' || b == '/' || b == '+' || b == '~' || b == '^' || b == '$'
	}
	for i := 0; i < len(s); {
		switch b := s[i]; {
		case b == '"' || b == '\'':
			j := i + 1
			for j < len(s) && s[j] != b && s[j] != '\n' {
				if s[j] == '\\' {
					j++
				}
				j++
			}
			if j < len(s) && s[j] == b {
				add(i, j+1, vals...)
				add(j+1, j+1, s[i:j+1])
				// inside the string
				in := s[i+1 : j]
				for k := range in {
					if strings.ContainsRune("@/#:=()_+?", rune(in[k])) {
						add(i+1, i+1+k, "")
						add(i+1, i+1+k+1, "")
						add(i+1+k, j, "")
						add(i+1+k+1, j, "")
						add(i+1+k, i+1+k+1, "")
						add(i+1+k, i+1+k, in[k:k+1])
					}
				}
				i = j + 1
				continue
			}
			i++
		case isWord(b):
			j := i
			for j < len(s) && isWord(s[j]) {
				j++
			}
			add(i, j, vals...)
			add(j, j, " "+s[i:j])
			for k := i; k < j; k++ {
				if strings.IndexByte("@/", s[k]) >= 0 {
					add(i, k, "")
					add(i, k+1, "")
					add(k, j, "")
					add(k+1, j, "")
				}
			}
			i = j
		default:
			if b == '{' || b == '[' || b == '(' {
				if j := closing(s, i); j > 0 {
					add(i, j, vals...)
					add(j, j, ","+s[i:j])
					add(i+1, j-1, "null", "1", "\"x\"", "", s[i+1:j-1]+","+s[i+1:j-1])
				}
			}
			if b != ' ' && b != '\n' {
				add(i, i+1, "", ",", "[", "}", s[i:i+1]+s[i:i+1])
			}
			i++
		}
	}
	// lines and what is indented below them
	starts := []int{0}
	for i := range s {
		if s[i] == '\n' {
			starts = append(starts, i+1)
		}
	}
	ind := func(k int) int {
		n := 0
		for starts[k]+n < len(s) && s[starts[k]+n] == ' ' {
			n++
		}
		return n
	}
	end := func(k int) int {
		if k+1 < len(starts) {
			return starts[k+1]
		}
		return len(s)
	}
	for k := range starts {
		l := s[starts[k]:end(k)]
		if strings.TrimSpace(l) == "" {
			continue
		}
		e := k
		for e+1 < len(starts) && (strings.TrimSpace(s[starts[e+1]:end(e+1)]) == "" || ind(e+1) > ind(k)) {
			e++
		}
		add(starts[k], end(k), "", l+l, "  "+l, strings.TrimLeft(l, " "), "\n"+l, "\t"+l)
		if e > k {
			blk := s[starts[k]:end(e)]
			add(starts[k], end(e), "", blk+blk)
			if c := strings.LastIndexByte(strings.TrimRight(l, " \n"), ':'); c >= 0 {
				for _, v := range []string{" null", " x", " 1", " []", " {}", " [null]", " {x: null}", " ''", ""} {
					add(starts[k]+c+1, end(e), v+"\n")
				}
			}
		}
		if k+1 < len(starts) {
			nx := s[starts[k+1]:end(k+1)]
			add(starts[k], end(k+1), nx+l)
		}
	}
	if strings.HasSuffix(format, ".xml") {
		for i := 0; i < len(s); i++ {
			if s[i] != '<' || i+1 >= len(s) || s[i+1] == '/' || s[i+1] == '?' || s[i+1] == '!' {
				continue
			}
			gt := strings.IndexByte(s[i:], '>')
			if gt < 0 || s[i+gt-1] == '/' {
				continue
			}
			name := strings.Fields(s[i+1 : i+gt])[0]
			cl := strings.Index(s[i:], "</"+name+">")
			if cl < 0 {
				continue
			}
			ce := i + cl + len(name) + 3
			add(i, ce, "", "<"+name+"/>", s[i:ce]+s[i:ce], "<"+name+"><x>1</x></"+name+">", "<"+name+">"+s[i:ce]+"</"+name+">")
			add(i+gt+1, i+cl, "", "${", "}", "${}", "${v}${v}", "[,]", "[", "(,1]", " ", "<![CDATA[1]]>", "&lt;", "&bad;")
		}
	}
	return out
}

func closing(s string, i int) int {
	open := s[i]
	cl := map[byte]byte{'{': '}', '[': ']', '(': ')'}[open]
	n := 0
	str := false
	for j := i; j < len(s); j++ {
		switch {
		case s[j] == '"':
			str = !str
		case str:
		case s[j] == open:
			n++
		case s[j] == cl:
			n--
			if n == 0 {
				return j + 1
			}
		}
	}
	return -1
}

var c18EditCache = map[int][]edit{}

func c18EditsOf(d int) []edit {
	if e, ok := c18EditCache[d]; ok {
		return e
	}
	e := c18Edits(c18DocList[d].format, c18DocList[d].text)
	c18EditCache[d] = e
	return e
}

func (e edit) apply(s string) string { return s[:e.from] + e.with + s[e.to:] }

func c18Structure(c *C) {
	d := c.N(len(c18DocList))
	es := c18EditsOf(d)
	e := es[c.N(len(es))]
	c18Parse(c, c18DocList[d].format, e.apply(c18DocList[d].text))
}

// c18Pairs: two damaged parts.
func c18Pairs(c *C) {
	d := c.N(len(c18DocList))
	es := c18EditsOf(d)
	i := c.N(len(es))
	c.Split()
	j := c.N(len(es))
	if es[j].from < es[i].to {
		c.Skip()
	}
	s := c18DocList[d].text
	c18Parse(c, c18DocList[d].format, es[i].apply(es[j].apply(s)))
}

// c18Short: every file of up to two bytes, and up to five from a small alphabet.
func c18Short(c *C) {
	fs := c18Names()
	f := fs[c.N(len(fs))]
	var s string
	if c.Bool() {
		n := c.Q(1, 2)
		for i := c.N(n + 1); i > 0; i-- {
			s += string([]byte{byte(c.N(256))})
		}
	} else {
		al := "{}[]\":-\n a@#/<>="
		for i := c.N(c.Q(3, 4) + 1); i > 0; i-- {
			s += string(al[c.N(len(al))])
		}
	}
	c18Parse(c, f, s)
}

func c18Names() []string {
	var out []string
	for _, f := range formats {
		out = append(out, f.name)
	}
	return append(out, "csv-file")
}

func c18Extremes(c *C) {
	fs := c18Names()
	f := fs[c.N(len(fs))]
	rep := func(s string, n int) string { return strings.Repeat(s, n) }
	doc := ""
	if x := formatOf(f); x != nil {
		doc = x.doc(0)
	} else {
		doc, _ = csvSample(0)
	}
	n := Pick(c, 100, 9999, 20000, 70000)
	xs := []string{
		"\ufeff" + doc, strings.ReplaceAll(doc, "\n", "\r\n"), strings.ReplaceAll(doc, "\n", "\r"), doc + "\x00", "\x00" + doc, rep("\n", n) + doc, doc + rep(" ", n), doc + rep("a", n),
		rep("[", n), rep("{", n), rep("{\"dependencies\":", n), rep("{\"packages\":{\"a\":", n) + "1", rep("[[a]]\n", n), rep("<a>", n), rep("<dependencies>", n), rep("a:\n", n/100), rep("- ", n), rep("\"", n), rep("\\\n", n), rep("a: &a [*a]\n", n/100),
		rep("(", n), rep("/", n), rep("@", n), rep("#", n), rep(":", n), rep("=", n), rep("a==1\n", n), rep("-r x.txt\n", n/100),
		`{"lockfileVersion":1,"dependencies":` + rep(`{"a":{"version":"1","dependencies":`, n/10) + "{}" + rep("}}", n/10) + "}",
		"a: &a [x,x,x,x,x,x,x,x,x]\nb: &b [*a,*a,*a,*a,*a,*a,*a,*a,*a]\nc: &c [*b,*b,*b,*b,*b,*b,*b,*b,*b]\nd: &d [*c,*c,*c,*c,*c,*c,*c,*c,*c]\ne: &e [*d,*d,*d,*d,*d,*d,*d,*d,*d]\nf: &f [*e,*e,*e,*e,*e,*e,*e,*e,*e]\npackages: [*f,*f,*f,*f,*f,*f,*f,*f,*f]\n",
		"packages: &p\n  a: *p\n", "<!DOCTYPE x [<!ENTITY a \"b\">]><project>&a;</project>", "\xff\xfe" + doc, rep("\xc3", n),
	}
	c18Parse(c, f, xs[c.N(len(xs))])
}

var c18VersionList = []string{
	"", " ", ".", "-", "+", "v", "V1", "1.", ".1", "1..2", "-1", "1-", "1+", "a", "1a", "é", "1.é", "\x00", "\xff", "1.0.0.0.0.0.0.0", "99999999999999999999999999", "1.99999999999999999999999999", "1e9", "0x1", "1.0-99999999999999999999", "1.0.0-", "1.0.0-a..b", "1.0.0+", "1!", "!1", "1!2!3", "1:", ":1", "1:2:3", "a:1", "-1:1", "99999999999999999999:1", "1:1-", "1~", "~1", "1~~", "1^", "1_p", "1_", "1_alpha99999999999999999999", "1-r", "1-rx", "1.0-r99999999999999999999", "1.0a", "1.0.dev", "1.0.post", "1.0rc99999999999999999999", "1.0+abc.1", "==1", ">=1", "[1,2)", "[", "(,", "${x}", "latest", "dev-main", "1.0.x-dev", "1.*", "*", "git", "HEAD", "null", "true", "0", "00", "01.02", "1 2", "1\n2", "1\t", "%", "%s%d", "'", "\"", "\\", "/", "1/2", "#", "a@1", strings.Repeat("1.", 5000), strings.Repeat("9", 5000), strings.Repeat("a", 5000), strings.Repeat("1-", 5000), strings.Repeat("~", 5000), "1.0-SNAPSHOT", "1.0.Final", "1.0-", "1-.2", "1.-2", "2024.01.01", "１.０",
}

var c18Ecos = []string{
	"npm", "PyPI", "RubyGems", "Go", "crates.io", "Packagist", "Hex", "NuGet", "Pub", "Maven", "CRAN", "Debian", "Debian:11", "Ubuntu", "Ubuntu:22.04:LTS", "Alpine", "Alpine:v3.18", "Red Hat", "Red Hat:x", "ConanCenter", "Bitnami", "SwiftURL", "GitHub Actions", "Rocky Linux", "AlmaLinux", "Mageia", "openSUSE", "SUSE", "Wolfi", "Chainguard", "GIT", "OSS-Fuzz", "Linux", "Android", "GHC", "Hackage", "Photon OS", "Julia", "VSCode", "Nonsense", "npm:", ":npm", "Alpaquita", "BellSoft Hardened Containers", "openEuler", "Echo", "MinimOS", "Kubernetes", "Hackage:1", "NPM",
}

// c18Versions: versions the ecosystem cannot parse, on either side of the comparison.
func c18Versions(c *C) {
	eco := c18Ecos[c.N(len(c18Ecos))]
	v := c18VersionList[c.N(len(c18VersionList))]
	side := c.N(3)
	row := func(ver string) string {
		return fmt.Sprintf("%s,,p,%s\n", csvq(eco), csvq(ver))
	}
	adv := func(a, b string, listed ...string) string {
		return fmt.Sprintf(`{"id":"X-1","modified":"2024-01-01T00:00:00Z","affected":[{"package":{"ecosystem":%s,"name":"p"},"versions":%s,"ranges":[{"type":"ECOSYSTEM","events":[{"introduced":%s},{"fixed":%s}]},{"type":"SEMVER","events":[{"introduced":"0"},{"last_affected":%s}]}]}]}`, q(eco), js(append([]string{}, listed...)), q(a), q(b), q(b))
	}
	fs := Files{"d/ok.csv": "npm,,good,1.0.0\n", "dbs/a/1.json": adv("1", "2"), "dbs/a/2.json": `{"id":"OK-1","affected":[{"package":{"ecosystem":"npm","name":"good"},"versions":["1.0.0"],"ranges":[]}]}`, "c.yml": "extra-databases:\n  - url: file:/dbs/a\n"}
	switch side {
	case 0:
		fs["d/x.csv"] = row(v) + row("1.5.0")
	case 1:
		fs["d/x.csv"] = row("1.5.0")
		fs["dbs/a/1.json"] = adv(v, "2", v)
	case 2:
		fs["d/x.csv"] = row(v)
		fs["dbs/a/1.json"] = adv("1", v)
	}
	c.Leaf(fs.key())
	d := caseDir()
	fs.write(d)
	net.reset(nil)
	// the healthy file may be first or last
	for _, args := range [][]string{{"d/ok.csv", "d/x.csv"}, {"d/x.csv", "d/ok.csv"}} {
		r := cli(append([]string{"--json", "--use-dbs=false", "--config", "c.yml", "--parse-as", "csv-file"}, args...)...)
		rep, err := r.report()
		if err != nil {
			c.Fail("%v\n%s", err, r)
		}
		found := false
		for _, x := range rep.Results {
			if x.FilePath == "d/ok.csv" {
				found = len(x.Packages) == 1 && len(x.Packages[0].Vulnerabilities) == 1 && x.Packages[0].Vulnerabilities[0].ID == "OK-1"
			}
		}
		if !found {
			c.Fail("the findings of the other lockfile are missing\n%s", r)
		}
		if len(rep.Results) == 2 && r.Code != 1 || len(rep.Results) == 1 && r.Code != 127 {
			c.Fail("exit code %d with %d results\n%s", r.Code, len(rep.Results), r)
		}
	}
	c.Nontrivial()
}

func csvq(s string) string { return "\"" + strings.ReplaceAll(s, "\"", "\"\"") + "\"" }

// c18Among: a damaged lockfile between healthy ones, through the command line.
func c18Among(c *C) {
	di := c.N(len(c18DocList))
	d := c18DocList[di]
	if d.format == "csv-file" {
		c.Skip()
	}
	var text string
	switch c.N(3) {
	case 0:
		es := c18EditsOf(di)
		step := c.Q(7, 1)
		i := c.N((len(es) + step - 1) / step)
		text = es[i*step].apply(d.text)
	case 1:
		step := c.Q(5, 1)
		text = d.text[:c.N(len(d.text)/step+1)*step]
	case 2:
		text = Pick(c, "", "null", "{}", "[]", "\x00", "garbage \"[{<", "<project/>", "---\n")
	}
	w := newWorld()
	w.ecoDB("npm", on("N-1", "npm", "p"))
	w.ecoDB("PyPI", on("P-1", "PyPI", "r"))
	f0, f1 := "d0/package-lock.json", "d2/requirements.txt"
	w.lock(f0, pd("npm", "npm", "p", "1.0.0"))
	w.lock(f1, pd("PyPI", "PyPI", "r", "1.0"))
	bad := "d1/" + d.format
	pos := c.N(3)
	c.Leaf(fmt.Sprintf("position %d of %s:\n%s", pos, bad, text))
	dir := w.setup()
	inner := w.serve()
	net.reset(func(r *Req) Resp {
		if _, ok := w.sources[r.URL]; !ok && strings.HasSuffix(r.URL, "/all.zip") {
			return Resp{Body: mkZip(Files{"x.txt": ""}), Header: map[string]string{"ETag": "\"e\"", "Date": "Thu, 01 Jan 2026 00:00:00 GMT"}}
		}
		return inner(r)
	})
	Files{bad: text}.write(dir)
	args := slices.Insert([]string{f0, f1}, pos, bad)
	r := cli(append([]string{"--json"}, args...)...)
	rep, err := r.report()
	if err != nil {
		c.Fail("%v\n%s", err, r)
	}
	var good []jResult
	n := 0
	for _, x := range rep.Results {
		if x.FilePath == bad {
			n++
			c.Count("parsed")
		} else {
			good = append(good, x)
		}
	}
	if len(good) != 2 || good[0].FilePath != f0 || good[1].FilePath != f1 {
		c.Fail("the other lockfiles are not reported\n%s", r)
	}
	for i, want := range []string{"N-1", "P-1"} {
		if len(good[i].Packages) != 1 || len(good[i].Packages[0].Vulnerabilities) != 1 || good[i].Packages[0].Vulnerabilities[0].ID != want {
			c.Fail("the findings of %s changed\n%s", good[i].FilePath, r)
		}
	}
	if n == 0 {
		c.Nontrivial()
		c.Count("error")
		if r.Code != 127 || !strings.Contains(r.Err, bad) {
			c.Fail("the lockfile gave no result, but exit code %d and stderr %q\n%s", r.Code, r.Err, r)
		}
	} else if r.Code != 1 {
		c.Fail("exit code %d\n%s", r.Code, r)
	}
}

func parseCSVFile(p string) ([]mPkg, error) {
	l, err := lockfile.FromCSVFile(p, "csv-file")
	return l.Packages, err
}

package zzverif

import (
	"fmt"
	"os"
	"path/filepath"
	"slices"
	"strings"

	"github.com/g-rath/osv-detector/pkg/lockfile"
)

// lockKinds: every kind of lockfile document, with the property it belongs to.
var lockKinds = []struct{ prop, kind, base, eco string }{
	{"C11", "npm-1", "package-lock.json", "npm"}, {"C11", "npm-3", "package-lock.json", "npm"}, {"C11", "yarn-1", "yarn.lock", "npm"}, {"C11", "yarn-berry", "yarn.lock", "npm"},
	{"C11", "pnpm-5", "pnpm-lock.yaml", "npm"}, {"C11", "pnpm-6", "pnpm-lock.yaml", "npm"}, {"C11", "pnpm-9", "pnpm-lock.yaml", "npm"}, {"C11", "bun", "bun.lock", "npm"},
	{"C12", "poetry", "poetry.lock", "PyPI"}, {"C12", "pdm", "pdm.lock", "PyPI"}, {"C12", "uv", "uv.lock", "PyPI"}, {"C12", "pylock", "pylock.toml", "PyPI"}, {"C12", "pipenv", "Pipfile.lock", "PyPI"},
	{"C13", "requirements", "requirements.txt", "PyPI"},
	{"C14", "pom", "pom.xml", "Maven"}, {"C14", "gradle", "gradle.lockfile", "Maven"},
	{"C15", "go", "go.mod", "Go"},
	{"C16", "cargo", "Cargo.lock", "crates.io"}, {"C16", "composer", "composer.lock", "Packagist"}, {"C16", "gemfile", "Gemfile.lock", "RubyGems"}, {"C16", "mix", "mix.lock", "Hex"},
	{"C16", "nuget", "packages.lock.json", "NuGet"}, {"C16", "pubspec", "pubspec.lock", "Pub"}, {"C16", "renv", "renv.lock", "CRAN"},
}

func init() {
	for _, p := range []string{"C11", "C12", "C13", "C14", "C15", "C16"} {
		register(p, Family{Name: "similar-packages", Run: func(c *C) { similar(c, p) }})
	}
	for _, p := range []string{"C11", "C13", "C14", "C16"} {
		register(p, Family{Name: "long-lines", Run: func(c *C) { longLines(c, p) }})
	}
}

// lockDoc writes packages in the given order; ok is false if the kind cannot express them.
func lockDoc(kind string, pkgs []mPkg) (doc string, want []mPkg, ok bool) {
	var b strings.Builder
	want = pkgs
	sep := func(i int) string {
		if i > 0 {
			return ","
		}
		return ""
	}
	names := map[string]int{}
	for _, p := range pkgs {
		names[p.Name]++
	}
	if slices.Contains([]string{"pom", "pubspec", "renv"}, kind) && len(names) != len(pkgs) {
		return "", nil, false
	}
	switch kind {
	case "npm-1":
		b.WriteString(`{"lockfileVersion":1,"dependencies":{`)
		for i, p := range pkgs {
			fmt.Fprintf(&b, `%s"k%d":{"version":"0.0.1","dependencies":{%s:{"version":%s}}}`, sep(i), i, q(p.Name), q(p.Version))
			want = append(want[:len(want):len(want)], npmP(fmt.Sprintf("k%d", i), "0.0.1", "")...)
		}
		b.WriteString("}}")
	case "npm-3":
		b.WriteString(`{"lockfileVersion":3,"packages":{"":{}`)
		for i, p := range pkgs {
			fmt.Fprintf(&b, `,"node_modules/k%d/node_modules/%s":{"version":%s}`, i, p.Name, q(p.Version))
		}
		b.WriteString("}}")
	case "yarn-1":
		b.WriteString("# yarn lockfile v1\n\n\n")
		for _, p := range pkgs {
			fmt.Fprintf(&b, "\"%s@^%s\":\n  version \"%s\"\n  resolved \"https://registry.yarnpkg.com/a.tgz#00\"\n\n", p.Name, p.Version, p.Version)
		}
	case "yarn-berry":
		b.WriteString("__metadata:\n  version: 6\n\n")
		for _, p := range pkgs {
			fmt.Fprintf(&b, "\"%s@npm:^%s\":\n  version: %s\n  resolution: \"%s@npm:%s\"\n  languageName: node\n\n", p.Name, p.Version, p.Version, p.Name, p.Version)
		}
	case "pnpm-5", "pnpm-6", "pnpm-9":
		fmt.Fprintf(&b, "lockfileVersion: '%s.0'\n\npackages:\n\n", kind[5:])
		for _, p := range pkgs {
			fmt.Fprintf(&b, map[string]string{"pnpm-5": "  /%s/%s:\n", "pnpm-6": "  /%s@%s:\n", "pnpm-9": "  '%s@%s':\n"}[kind], p.Name, p.Version)
			b.WriteString("    resolution: {integrity: sha512-x}\n\n")
		}
	case "bun":
		b.WriteString("{\"lockfileVersion\": 1, \"packages\": {\n")
		for i, p := range pkgs {
			fmt.Fprintf(&b, "\"k%d/%s\": [%s, \"\", {}, \"x\"],\n", i, p.Name, q(p.Name+"@"+p.Version))
		}
		b.WriteString("}}\n")
	case "poetry", "pdm", "cargo":
		for _, p := range pkgs {
			fmt.Fprintf(&b, "[[package]]\nname = %s\nversion = %s\n\n", q(p.Name), q(p.Version))
		}
	case "uv":
		b.WriteString("version = 1\n\n")
		for _, p := range pkgs {
			fmt.Fprintf(&b, "[[package]]\nname = %s\nversion = %s\nsource = { registry = \"https://pypi.org/simple\" }\n\n", q(p.Name), q(p.Version))
		}
	case "pylock":
		b.WriteString("lock-version = \"1.0\"\n\n")
		for _, p := range pkgs {
			fmt.Fprintf(&b, "[[packages]]\nname = %s\nversion = %s\n\n", q(p.Name), q(p.Version))
		}
	case "pipenv":
		var parts [2][]string
		seen := map[string]int{}
		for _, p := range pkgs {
			k := seen[p.Name]
			seen[p.Name]++
			if k > 1 {
				return "", nil, false
			}
			parts[k] = append(parts[k], fmt.Sprintf("%s:{\"version\":%s}", q(p.Name), q("=="+p.Version)))
		}
		fmt.Fprintf(&b, `{"default":{%s},"develop":{%s}}`, strings.Join(parts[0], ","), strings.Join(parts[1], ","))
	case "requirements":
		for _, p := range pkgs {
			fmt.Fprintf(&b, "%s==%s\n", p.Name, p.Version)
		}
	case "pom":
		b.WriteString("<project><dependencies>\n")
		for _, p := range pkgs {
			g, a, _ := strings.Cut(p.Name, ":")
			fmt.Fprintf(&b, "<dependency><groupId>%s</groupId><artifactId>%s</artifactId><version>%s</version></dependency>\n", g, a, p.Version)
		}
		b.WriteString("</dependencies></project>\n")
	case "gradle":
		for _, p := range pkgs {
			fmt.Fprintf(&b, "%s:%s=cp\n", p.Name, p.Version)
		}
		b.WriteString("empty=x\n")
	case "go":
		b.WriteString("module m\n\ngo 1.21\n\nrequire (\n")
		for _, p := range pkgs {
			fmt.Fprintf(&b, "\t%s v%s\n", p.Name, p.Version)
		}
		b.WriteString(")\n")
	case "composer":
		b.WriteString(`{"packages":[`)
		for i, p := range pkgs {
			fmt.Fprintf(&b, `%s{"name":%s,"version":%s,"dist":{"reference":""}}`, sep(i), q(p.Name), q(p.Version))
		}
		b.WriteString(`],"packages-dev":[]}`)
	case "gemfile":
		b.WriteString("GEM\n  remote: https://rubygems.org/\n  specs:\n")
		for _, p := range pkgs {
			fmt.Fprintf(&b, "    %s (%s)\n", p.Name, p.Version)
		}
		b.WriteString("\nPLATFORMS\n  ruby\n")
	case "mix":
		b.WriteString("%{\n")
		for _, p := range pkgs {
			fmt.Fprintf(&b, "  \"%s\": {:hex, :%s, \"%s\", \"\", [:mix], [], \"hexpm\", \"11\"},\n", p.Name, p.Name, p.Version)
		}
		b.WriteString("}\n")
	case "nuget":
		b.WriteString(`{"version":1,"dependencies":{`)
		for i, p := range pkgs {
			fmt.Fprintf(&b, `%s"net%d.0":{%s:{"type":"Direct","resolved":%s}}`, sep(i), i, q(p.Name), q(p.Version))
		}
		b.WriteString("}}")
	case "pubspec":
		b.WriteString("packages:\n")
		for _, p := range pkgs {
			fmt.Fprintf(&b, "  %s:\n    description: {name: x}\n    source: hosted\n    version: %s\n", p.Name, q(p.Version))
		}
	case "renv":
		b.WriteString(`{"Packages":{`)
		for i, p := range pkgs {
			fmt.Fprintf(&b, `%s%s:{"Package":%s,"Version":%s,"Repository":"CRAN"}`, sep(i), q(p.Name), q(p.Name), q(p.Version))
		}
		b.WriteString("}}")
	default:
		theEngine.fatal("lockDoc: " + kind)
	}
	return b.String(), want, true
}

// similar: packages that are almost the same - versions or names that only differ in case, in where one ends and the
// other begins, or in a last part - are listed apart.
func similar(c *C, prop string) {
	i := c.N(len(lockKinds))
	k := lockKinds[i]
	if k.prop != prop {
		c.Skip()
	}
	type nv struct{ name, ver string }
	menu := []nv{{"x", "1.0.0"}, {"x", "10.0.0"}, {"x1", "0.0.0"}, {"x", "1.0.0-1"}, {"x_1", "0.0.0"}, {"xx", "1.0.0"}, {"x", "1.0.1"}, {"x", "11.0.0"}, {"x1", "1.0.0"}}
	switch k.eco {
	case "PyPI":
		menu = append(menu, nv{"x-y", "1.0.0"}, nv{"x", "1.0.0.0"}, nv{"x", "1.0.0rc1"})
	case "RubyGems":
		menu = append(menu, nv{"X", "1.0.0"}, nv{"x-1", "0.0.0"}, nv{"x", "1.0.0.1"})
	case "Go":
		// majors beyond 1 would have to be part of the path
		menu = []nv{{"x", "1.0.0"}, {"x", "1.1.0"}, {"x", "0.1.0"}, {"x", "1.0.0-1"}, {"x1", "1.0.0"}, {"x1", "0.0.0"}, {"x/v2", "2.0.0"}, {"x_1", "0.1.0"}, {"xx", "1.0.0"}, {"x", "1.0.0-rc.1"}}
		menu = append(menu, nv{"X", "1.0.0"}, nv{"x/x", "1.0.0"}, nv{"x", "1.0.0-1.0.20200101000000-abcdef123456"})
	case "Hex":
		menu = append(menu, nv{"X", "1.0.0"}, nv{"x", "1.0.0-rc"})
	case "npm":
		menu = append(menu, nv{"X", "1.0.0"}, nv{"@x/x", "1.0.0"}, nv{"x-1", "0.0.0"})
	default:
		menu = append(menu, nv{"X", "1.0.0"}, nv{"x-1", "0.0.0"}, nv{"x", "1.0.0-rc"})
	}
	pre := map[string]string{"Maven": "g:", "Go": "example.com/", "Packagist": "o/"}[k.eco]
	n := 2 + c.N(c.Q(2, 3))
	var pkgs []mPkg
	used := map[int]bool{}
	for len(pkgs) < n {
		j := c.N(len(menu))
		if used[j] {
			c.Skip()
		}
		used[j] = true
		m := menu[j]
		if k.eco == "RubyGems" && strings.Contains(m.ver, "-") || k.eco == "PyPI" && strings.Contains(m.name, "_") {
			c.Skip() // a platform; another spelling
		}
		pkgs = append(pkgs, pk(k.eco, pre+m.name, m.ver, "")...)
		if len(pkgs) == 1 {
			c.Split()
		}
	}
	doc, want, ok := lockDoc(k.kind, pkgs)
	if !ok {
		c.Skip()
	}
	lfCheck(c, k.base, doc, want, once)
}

// longLines: lines of any length are either read or an error, never the silent end of the file; up to 60000
// characters they are read.
func longLines(c *C, prop string) {
	kinds := map[string][]string{"C11": {"yarn-1", "yarn-berry"}, "C13": {"requirements"}, "C14": {"gradle"}, "C16": {"mix", "gemfile"}}[prop]
	kind := kinds[c.N(len(kinds))]
	i := slices.IndexFunc(lockKinds, func(k struct{ prop, kind, base, eco string }) bool { return k.kind == kind })
	k := lockKinds[i]
	size := Pick(c, 1000, 2000, 4090, 4096, 4100, 8192, 16384, 32768, 60000, 65000, 65530, 65534, 65535, 65536, 65537, 66000, 131072, 1<<20)
	where := c.N(3)
	form := c.N(3)
	pre := map[string]string{"Maven": "g:"}[k.eco]
	entry := func(name, ver string) (string, []mPkg) {
		ps := pk(k.eco, pre+name, ver, "")
		doc, _, _ := lockDoc(kind, ps)
		for _, cut := range []string{"# yarn lockfile v1\n\n\n", "__metadata:\n  version: 6\n\n", "empty=x\n", "%{\n", "GEM\n  remote: https://rubygems.org/\n  specs:\n", "\nPLATFORMS\n  ruby\n"} {
			doc = strings.Replace(doc, cut, "", 1)
		}
		if kind == "mix" {
			doc = strings.TrimSuffix(doc, "}\n")
		}
		return doc, ps
	}
	long := strings.Repeat("x", size)
	ltext, lpkgs := entry("long", "1.5.0")
	switch {
	case kind == "yarn-1" && form == 0:
		ltext = strings.Replace(ltext, "\n\n", "\n  integrity sha512-"+long+"\n\n", 1)
	case kind == "yarn-1" && form == 1:
		ltext = strings.Replace(ltext, "\"long@^1.5.0\"", strings.Repeat("long@^1.5.0, ", size/13)+"\"long@^1.5.0\"", 1)
	case kind == "yarn-berry" && form == 0:
		ltext = strings.Replace(ltext, "\n\n", "\n  checksum: "+long+"\n\n", 1)
	case kind == "yarn-berry" && form == 1:
		ltext = strings.Replace(ltext, "\"long@npm:^1.5.0\"", "\""+strings.Repeat("long@npm:^1.5.0, ", size/17)+"long@npm:^1.5.0\"", 1)
		if k, rest, _ := strings.Cut(ltext, ":\n"); len(k) > 1024 {
			ltext = "? " + k + "\n:\n" + rest
		}
	case kind == "requirements" && form == 0:
		ltext = strings.TrimSuffix(ltext, "\n") + " --hash=sha256:" + long + "\n"
	case kind == "requirements" && form == 1:
		ltext = strings.TrimSuffix(ltext, "\n") + " \\\n    --hash=sha256:" + long + "\n"
	case kind == "gradle" && form == 0:
		ltext = strings.TrimSuffix(ltext, "\n") + "," + long + "\n"
	case kind == "gradle" && form == 1:
		ltext = "empty=" + long + "\n" + ltext
	case kind == "mix" && form == 0:
		ltext = strings.Replace(ltext, "[:mix], []", "[:mix], ["+strings.Repeat("{:a, \"~> 1.0\", [hex: :a, optional: false]}, ", size/43)+"]", 1)
	case kind == "mix" && form == 1:
		ltext = strings.Replace(ltext, "\"11\"", "\""+long+"\"", 1)
	case kind == "gemfile" && form == 0:
		ltext += "      dep (" + strings.Repeat(">= 1, ", size/6) + ">= 0)\n"
	case kind == "gemfile" && form == 1:
		ltext += "      " + long + "\n"
	default: // a comment
		if kind == "gemfile" || kind == "mix" {
			c.Skip()
		}
		ltext = "# " + long + "\n" + ltext
	}
	a, ap := entry("a", "1.0.0")
	b, bp := entry("b", "2.0.0")
	parts := []string{a, b}
	parts = slices.Insert(parts, where, ltext)
	head, _, _ := lockDoc(kind, nil)
	var doc string
	switch kind {
	case "gradle":
		doc = strings.Join(parts, "") + head
	case "mix":
		doc = "%{\n" + strings.Join(parts, "") + "}\n"
	case "gemfile":
		doc = strings.Replace(head, "specs:\n", "specs:\n"+strings.Join(parts, ""), 1)
	default:
		doc = head + strings.Join(parts, "")
	}
	want := append(append(ap, lpkgs...), bp...)
	c.Leaf(fmt.Sprint(kind, form, size, where))
	p := filepath.Join(lfDir(), k.base)
	must(os.WriteFile(p, []byte(doc), 0o644))
	l, err := lockfile.Parse(p, "")
	if err != nil && size > 60000 {
		c.Count("an error")
		c.Nontrivial()
		return
	}
	lfCompare(c, k.base, fmt.Sprintf("%s with a line of %d characters (form %d, place %d)", k.base, size, form, where), l, err, want, set)
	c.Nontrivial()
}

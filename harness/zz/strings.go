package zzverif

import (
	"fmt"
	"regexp"
	"strings"
)

// Names and versions as all strings up to a length over the characters a format allows in them.

func init() {
	for _, k := range []int{0, 1, 2, 3, 4, 5, 6, 7} {
		register("C11", Family{Name: fmt.Sprintf("strings-%s", []string{"npm-1", "npm-3", "yarn-1", "yarn-berry", "pnpm-5", "pnpm-6", "pnpm-9", "bun"}[k]), Run: func(c *C) { c11Strings(c, k) }})
	}
	register("C12", Family{Name: "strings", Run: c12Strings}, Family{Name: "sources", Run: c12Sources})
	register("C13", Family{Name: "strings", Run: c13Strings}, Family{Name: "specifiers", Run: c13Specs}, Family{Name: "same-names", Run: c13SameNames})
	register("C14", Family{Name: "strings", Run: c14Strings})
	register("C15", Family{Name: "strings", Run: c15Strings})
	register("C16", Family{Name: "strings", Run: c16Strings})
}

// word is every string of 1 to max characters: one of first, then any of rest, ending in one of last.
func word(c *C, max int, first, rest, last string) string {
	n := 1 + c.N(max)
	var b strings.Builder
	for i := 0; i < n; i++ {
		set := rest
		if i == 0 {
			set = first
		} else if i == n-1 {
			set = last
		}
		b.WriteByte(set[c.N(len(set))])
	}
	return b.String()
}

// nameOrVersion varies the one or the other.
func nameOrVersion(c *C, nameLen, verLen int, nf, nr, nl, vf, vr, vl string, names, vers []string) (string, string) {
	if c.Bool() {
		n := word(c, nameLen, nf, nr, nl)
		c.Split()
		return n, vers[c.N(len(vers))]
	}
	v := word(c, verLen, vf, vr, vl)
	c.Split()
	return names[c.N(len(names))], v
}

func c11Strings(c *C, kind int) {
	vr := "10.-+rA"
	if kind >= 4 && kind <= 6 {
		vr = "10.-rA" // pnpm drops build metadata
	}
	name, ver := nameOrVersion(c, c.Q(4, 5), c.Q(5, 6), "a7Z", "a0-_.~", "a0Z-_", "10", vr, "10rA", []string{"a", "@s/a-b.c"}, []string{"1.0.0", "0.1.0-rc.1"})
	if !strings.Contains(name, "@") && c.Bool() {
		name = Pick(c, "@s/", "@9-x/", "@a.b/", "@x_y/") + name
	}
	want := append(npmP(name, ver, ""), npmP("zz", "9.9.9", "")...)
	switch kind {
	case 0:
		lfCheck(c, "package-lock.json", fmt.Sprintf(`{"lockfileVersion":1,"dependencies":{"zz":{"version":"9.9.9","dependencies":{%s:{"version":%s}}}}}`, q(name), q(ver)), want, set)
	case 1:
		lfCheck(c, "package-lock.json", fmt.Sprintf(`{"lockfileVersion":3,"packages":{"node_modules/zz":{"version":"9.9.9"},"node_modules/zz/node_modules/%s":{"version":%s}}}`, name, q(ver)), want, once)
	case 2:
		h := name + "@" + Pick(c, "^", "", ">= 1 <", "npm:") + ver
		if strings.Contains(h, "npm:") {
			h = "al@npm:" + name + "@" + ver
		}
		lfCheck(c, "yarn.lock", fmt.Sprintf("# yarn lockfile v1\n\n\n\"%s\":\n  version \"%s\"\n  resolved \"https://registry.yarnpkg.com/%s/-/a-%s.tgz#%s\"\n\nzz@^9:\n  version \"9.9.9\"\n", h, ver, name, ver, sha1x), want, set)
	case 3:
		lfCheck(c, "yarn.lock", fmt.Sprintf("__metadata:\n  version: 6\n\n\"%s@npm:^%s\":\n  version: %s\n  resolution: \"%s@npm:%s\"\n\n\"zz@npm:^9\":\n  version: 9.9.9\n  resolution: \"zz@npm:9.9.9\"\n", name, ver, ver, name, ver), want, set)
	case 4:
		lfCheck(c, "pnpm-lock.yaml", fmt.Sprintf("lockfileVersion: 5.4\npackages:\n  /%s/%s:\n    resolution: {integrity: x}\n  /zz/9.9.9_%s@%s:\n    resolution: {integrity: x}\n", name, ver, strings.ReplaceAll(name, "/", "+"), ver), want, set)
	case 5:
		lfCheck(c, "pnpm-lock.yaml", fmt.Sprintf("lockfileVersion: '6.0'\npackages:\n  /%s@%s:\n    resolution: {integrity: x}\n  /zz@9.9.9(%s@%s):\n    resolution: {integrity: x}\n", name, ver, name, ver), want, set)
	case 6:
		lfCheck(c, "pnpm-lock.yaml", fmt.Sprintf("lockfileVersion: '9.0'\npackages:\n  '%s@%s':\n    resolution: {integrity: x}\n  zz@9.9.9:\n    resolution: {integrity: x}\n", name, ver), want, set)
	case 7:
		lfCheck(c, "bun.lock", fmt.Sprintf(`{"lockfileVersion":1,"packages":{%s:[%s,"",{},"sha512-x"],"zz":["zz@9.9.9"]}}`, q(Pick(c, name, "zz/"+name)), q(name+"@"+ver)), want, set)
	}
}

func c12Strings(c *C) {
	kind := c.N(5)
	name, ver := nameOrVersion(c, c.Q(4, 5), c.Q(4, 5), "a7Z", "a0-_.Z", "a0Z", "10", "10.!+-_ra", "10a", []string{"a", "A.b_c"}, []string{"1.0", "1!2.0rc1+l.1"})
	want := append(py(name, ver, ""), py("zz", "0.1", "")...)
	switch kind {
	case 0:
		lfCheck(c, "poetry.lock", fmt.Sprintf("[[package]]\nname = %s\nversion = %s\n\n[[package]]\nname = \"zz\"\nversion = \"0.1\"\n", q(name), q(ver)), want, multi)
	case 1:
		lfCheck(c, "pdm.lock", fmt.Sprintf("[[package]]\nname = %s\nversion = %s\n\n[[package]]\nname = \"zz\"\nversion = \"0.1\"\n", q(name), q(ver)), want, multi)
	case 2:
		lfCheck(c, "uv.lock", fmt.Sprintf("version = 1\n\n[[package]]\nname = %s\nversion = %s\nsource = { registry = \"https://pypi.org/simple\" }\n\n[[package]]\nname = \"zz\"\nversion = \"0.1\"\nsource = { registry = \"https://pypi.org/simple\" }\n", q(name), q(ver)), want, multi)
	case 3:
		lfCheck(c, "pylock.toml", fmt.Sprintf("lock-version = \"1.0\"\n\n[[packages]]\nname = %s\nversion = %s\n\n[[packages]]\nname = \"zz\"\nversion = \"0.1\"\n", q(name), q(ver)), want, multi)
	case 4:
		lfCheck(c, "Pipfile.lock", fmt.Sprintf(`{"%s":{%s:{"version":%s},"zz":{"version":"==0.1"}}}`, Pick(c, "default", "develop"), q(name), q("=="+ver)), want, multi)
	}
}

// c12Sources: where packages come from, written in every way.
func c12Sources(c *C) {
	commit := Pick(c, sha1x, "abc1234", strings.Repeat("0", 40), "v1-2.3")
	ver := Pick(c, "1.0", "0.0.0")
	paths := []string{"..", "../a", "./a", ".a", "a/.", "a", "/abs/a", "a.b", "../.", "..."}
	lead := func(root, other string) string {
		if c.Bool() {
			return root + other
		}
		return other + root
	}
	switch c.N(4) {
	case 0: // uv
		src, cm, listed := "", "", true
		switch c.N(9) {
		case 0:
			src = `virtual = "` + paths[c.N(len(paths))] + `"`
		case 1:
			src, listed = `virtual = "."`, false
		case 2:
			src = `editable = "` + Pick(c, append(paths, ".")...) + `"`
		case 3:
			src = `directory = "` + Pick(c, append(paths, ".")...) + `"`
		case 4:
			src, cm = `git = "`+Pick(c, "https://github.com/o/r", "https://github.com/o/r.git", "ssh://git@example.org/o/r", "https://x/y?rev=main", "https://x/y?tag=v1.0&subdirectory=a", "https://x/y?branch=f/g")+`#`+commit+`"`, commit
		case 5:
			src = `url = "https://x/y.tar.gz#` + commit + `"`
		case 6:
			src = `path = "../x.whl"`
		case 7:
			src = `registry = "https://x/simple#frag"`
		case 8:
			src = `registry = "` + paths[c.N(len(paths))] + `"`
		}
		doc := fmt.Sprintf("[[package]]\nname = \"p\"\nversion = %s\nsource = { %s }\n", q(ver), src)
		var want []mPkg
		if listed {
			want = py("p", ver, cm)
		}
		other := "[[package]]\nname = \"root\"\nversion = \"7\"\nsource = { virtual = \".\" }\n[[package]]\nname = \"zz\"\nversion = \"0.1\"\nsource = { registry = \"https://pypi.org/simple\" }\n"
		lfCheck(c, "uv.lock", "version = 1\n"+lead(doc, other), append(want, py("zz", "0.1", "")...), multi)
	case 1: // pylock
		v := Pick(c, ver, "")
		src, cm, listed := "", "", true
		switch c.N(6) {
		case 0:
			src = `directory = { path = "` + paths[c.N(len(paths))] + `" }`
		case 1:
			src, listed = `directory = { path = "." }`, v != ""
		case 2:
			src, cm = `vcs = { type = "git", url = "https://x/y", requested-revision = "main", commit-id = "`+commit+`" }`, commit
		case 3:
			src, cm = `vcs = { type = "hg", path = ".", commit-id = "`+commit+`" }`, commit
		case 4:
			src = `archive = { url = "https://x/y.tar.gz", path = "." }`
		case 5:
			src = `index = "https://x/simple"`
		}
		doc := "[[packages]]\nname = \"p\"\n"
		if v != "" {
			doc += "version = " + q(v) + "\n"
		}
		doc += src + "\n"
		var want []mPkg
		if listed {
			want = py("p", v, cm)
		}
		lfCheck(c, "pylock.toml", "lock-version = \"1.0\"\n"+lead(doc, "[[packages]]\nname = \"zz\"\nversion = \"0.1\"\n"), append(want, py("zz", "0.1", "")...), multi)
	case 2: // poetry
		typ := Pick(c, "git", "legacy", "url", "directory", "file")
		cm := ""
		src := fmt.Sprintf("[package.source]\ntype = %s\nurl = \"x\"\nreference = %s\n", q(typ), q(Pick(c, "main", "v1.0", sha1y)))
		if typ == "git" {
			cm = commit
			src += "resolved_reference = " + q(commit) + "\n"
			if c.Bool() {
				src += "subdirectory = \"a\"\n"
			}
		}
		doc := fmt.Sprintf("[[package]]\nname = \"p\"\nversion = %s\n%s\n", q(ver), src)
		lfCheck(c, "poetry.lock", lead(doc, "[[package]]\nname = \"zz\"\nversion = \"0.1\"\n"), append(py("p", ver, cm), py("zz", "0.1", "")...), multi)
	case 3: // pdm
		cm, src := "", ""
		switch c.N(4) {
		case 0:
			cm = commit
			src = fmt.Sprintf("git = %s\nrevision = %s\n", q(Pick(c, "https://x/y.git", "ssh://git@x/y")), q(commit))
		case 1:
			cm = commit
			src = fmt.Sprintf("git = \"x\"\nref = %s\nrevision = %s\nsubdirectory = \"z\"\n", q(Pick(c, "main", "v1")), q(commit))
		case 2:
			src = fmt.Sprintf("path = %s\n", q(Pick(c, append(paths, ".")...)))
		case 3:
			src = "url = \"https://x/y.whl\"\n"
		}
		doc := fmt.Sprintf("[[package]]\nname = \"p\"\nversion = %s\n%s\n", q(ver), src)
		lfCheck(c, "pdm.lock", lead(doc, "[[package]]\nname = \"zz\"\nversion = \"0.1\"\n"), append(py("p", ver, cm), py("zz", "0.1", "")...), multi)
	}
}

var reSeps = regexp.MustCompile(`[-_.]+`)

func c13Strings(c *C) {
	name, ver := nameOrVersion(c, c.Q(5, 6), c.Q(4, 5), "aB7", "aB1-_.", "aB1", "10", "10.!+-_ra", "10a*", []string{"a", "A.b"}, []string{"1.0", "2!1.0rc1"})
	if strings.Contains(ver, "*") && !strings.HasSuffix(ver, ".*") {
		c.Skip()
	}
	extras := Pick(c, "", "[x]", "[X-y.z, w]")
	op := Pick(c, "==", " >= ", "~=")
	lfCheck(c, "requirements.txt", "zz==0.1\n"+name+extras+op+ver+"\n", append(py(strings.ToLower(reSeps.ReplaceAllString(name, "-")), ver, ""), py("zz", "0.1", "")...), once)
}

// c13Specs: every sequence of up to three specifiers with at most one lower bound, with spacing of every kind.
func c13Specs(c *C) {
	type sp struct {
		op, ver string
		low     bool
	}
	all := []sp{{"==", "1.1", true}, {">=", "1.2", true}, {"~=", "1.3", true}, {"!=", "1.4", false}, {"<", "1.5", false}, {"<=", "1.6", false}, {"!=", "1.7.*", false}}
	n := c.N(4)
	want, lows := "0.0.0", 0
	gap := Pick(c, "", " ", "  ")
	in := Pick(c, "", " ")
	sep := Pick(c, ",", ", ", " ,", " , ")
	var ss []string
	for i := 0; i < n; i++ {
		s := all[c.N(len(all))]
		if i == 0 {
			c.Split()
		}
		if s.low {
			lows++
			want = s.ver
		}
		ss = append(ss, s.op+in+s.ver)
	}
	if lows > 1 {
		c.Skip()
	}
	name := Pick(c, "pkg", "P_k[e,x]")
	norm := map[string]string{"pkg": "pkg", "P_k[e,x]": "p-k"}[name]
	tail := Pick(c, "", " ; python_version >= '3.8'", ";python_version<'3'", "  # >=9", " --hash=sha256:0==1")
	lfCheck(c, "requirements.txt", name+gap+strings.Join(ss, sep)+tail+"\nzz==0.1\n", append(py(norm, want, ""), py("zz", "0.1", "")...), once)
}

// c13SameNames: files of the same names in different directories, every include graph with at most two includes per file.
func c13SameNames(c *C) {
	layouts := [][]string{
		{"requirements.txt", "base.txt", "a/requirements.txt", "a/base.txt"},
		{"requirements.txt", "a/requirements.txt", "a/b/requirements.txt", "b/requirements.txt"},
		{"a/r.txt", "b/r.txt", "r.txt", "a/b/r.txt"},
	}
	names := layouts[c.N(len(layouts))]
	style := c.N(4)
	adj := make([][]int, len(names))
	for i := range adj {
		adj[i] = c.Subset(len(names), 2)
		if i == 0 {
			c.Split()
		}
	}
	files := map[string]string{}
	for i := range adj {
		ls := []string{fmt.Sprintf("p%d==1.%d", i, i)}
		for _, t := range adj[i] {
			ls = append(ls, "-r "+relPath(names[i], names[t], style))
		}
		files[names[i]] = strings.Join(ls, "\n") + "\n"
	}
	seen := map[int]bool{}
	todo := []int{0}
	var want []mPkg
	for len(todo) > 0 {
		x := todo[0]
		todo = todo[1:]
		if seen[x] {
			continue
		}
		seen[x] = true
		want = append(want, py(fmt.Sprintf("p%d", x), fmt.Sprintf("1.%d", x), "")...)
		todo = append(todo, adj[x]...)
	}
	for _, n := range []string{"a/b/keep", "b/keep"} {
		files[n] = ""
	}
	reqTree(c, files, names[0], want, false)
}

// relPath is a way from the directory of one file to another: 0 the shortest, 1 with ./, 2 over the top directory, 3 with a detour.
func relPath(from, to string, style int) string {
	up := strings.Repeat("../", strings.Count(from, "/"))
	dir := from[:strings.LastIndex(from, "/")+1]
	short := up + to
	if strings.HasPrefix(to, dir) {
		short = to[len(dir):]
	}
	switch style {
	case 1:
		return "./" + short
	case 2:
		return up + to
	case 3:
		return up + "b/../" + to
	}
	return short
}

func c14Strings(c *C) {
	gradle := c.Bool()
	name, ver := nameOrVersion(c, c.Q(4, 5), c.Q(5, 6), "aZ7", "aZ0-_.", "aZ0", "10r", "10.-_+rR", "10rR", []string{"a", "spring-core_2.12"}, []string{"1.0", "1.0.0.RELEASE"})
	g, a := "g.h", name
	if c.Bool() {
		g, a = name, "x-y"
	}
	if gradle {
		lfCheck(c, "gradle.lockfile", fmt.Sprintf("# c\n%s:%s:%s=compileClasspath\nzz:zz:0.1=x\nempty=\n", g, a, ver), append(mv(g+":"+a, ver), mv("zz:zz", "0.1")...), multi)
		return
	}
	v := ver
	switch c.N(6) {
	case 1:
		v = "[" + ver + "]"
	case 2:
		v = "[" + ver + ",9)"
	case 3:
		v = "(" + ver + ", 9]"
	case 4:
		v = "[" + ver + ",)"
	case 5:
		v = "${v}"
	}
	doc := fmt.Sprintf("<project><properties><v>%s</v></properties><dependencies><dependency><groupId>%s</groupId><artifactId>%s</artifactId><version>%s</version></dependency><dependency><groupId>zz</groupId><artifactId>zz</artifactId><version>0.1</version></dependency></dependencies></project>", ver, g, a, v)
	lfCheck(c, "pom.xml", doc, append(mv(g+":"+a, ver), mv("zz:zz", "0.1")...), multi)
}

func c15Strings(c *C) {
	v := Pick(c, "v1.0.0", "v0.0.1", "v1.2.3", "v10.0.0+incompatible")
	if c.Bool() {
		v = "v1.2.3-" + word(c, c.Q(4, 5), "a1v", "av10.-", "av1")
		if strings.Contains(v, "..") || strings.Contains(v, ".01") || strings.Contains(v, ".00") || strings.Contains(v, "-01") || strings.Contains(v, "-00") {
			c.Skip()
		}
		for _, part := range strings.Split(strings.TrimPrefix(v, "v1.2.3-"), ".") {
			if len(part) > 1 && strings.Trim(part, "0123456789") == "" && part[0] == '0' {
				c.Skip()
			}
		}
	}
	p := "example.com/" + word(c, c.Q(2, 3), "aZv1", "av1-_.~", "av1")
	if regexp.MustCompile(`~[0-9]+$`).MatchString(p) {
		c.Skip()
	}
	c.Split()
	if regexp.MustCompile(`/v[0-9]+$`).MatchString(p) {
		c.Skip() // a major version suffix constrains the version
	}
	reps := map[goMod]goMod{}
	rep := ""
	switch c.N(4) {
	case 1:
		reps[goMod{p, ""}] = goMod{"example.com/fork", v}
		rep = fmt.Sprintf("replace %s => example.com/fork %s\n", p, v)
	case 2:
		reps[goMod{p, v}] = goMod{"example.com/fork", "v1.0.0"}
		rep = fmt.Sprintf("replace %s %s => example.com/fork v1.0.0\n", p, v)
	case 3:
		reps[goMod{"example.com/zz", ""}] = goMod{p, v}
		rep = fmt.Sprintf("replace example.com/zz => %s %s\n", p, v)
	}
	lfCheck(c, "go.mod", fmt.Sprintf("module example.com/root\n\nrequire %s %s\n\nrequire example.com/zz v1.9.0\n\n%s", p, v, rep), goResolve([]goMod{{p, v}, {"example.com/zz", "v1.9.0"}}, reps), multi)
}

func c16Strings(c *C) {
	kind := c.N(7)
	type sp struct{ nf, nr, nl, vf, vr, vl string }
	s := []sp{
		{"aZ", "aZ0-_", "aZ0", "10", "10.-+ra", "10ra"},
		{"a7", "a0-_.", "a0", "1v0", "10.-+rv", "10rx"},
		{"aZ", "aZ0-_.", "aZ0", "10", "10.ra", "10ra"},
		{"az", "az0_", "az0_", "10", "10.-+ra", "10ra"},
		{"aZ", "aZ0-_.", "aZ0", "10", "10.-+ra", "10ra"},
		{"az", "az0_", "az0_", "10", "10.-+ra", "10ra"},
		{"aZ", "aZ0.", "aZ0", "10", "10.-", "10"},
	}[kind]
	name, ver := nameOrVersion(c, c.Q(4, 5), c.Q(5, 6), s.nf, s.nr, s.nl, s.vf, s.vr, s.vl, []string{"a", "a_b"}, []string{"1.0.0", "0.1"})
	switch kind {
	case 0:
		lfCheck(c, "Cargo.lock", fmt.Sprintf("version = 3\n\n[[package]]\nname = %s\nversion = %s\n\n[[package]]\nname = \"zz\"\nversion = \"0.1.0\"\n", q(name), q(ver)), append(pk("crates.io", name, ver, ""), pk("crates.io", "zz", "0.1.0", "")...), set)
	case 1:
		name = "o-x/" + name
		ref, cm := Pick(c, sha1x, "1.2", "v.1", "abcdef"), ""
		if !strings.Contains(ref, ".") {
			cm = ref
		}
		lfCheck(c, "composer.lock", fmt.Sprintf(`{"packages":[{"name":%s,"version":%s,"dist":{"reference":"%s"}}],"packages-dev":[{"name":"z/z","version":"0.1"}]}`, q(name), q(ver), ref), append(pk("Packagist", name, ver, cm), pk("Packagist", "z/z", "0.1", "")...), set)
	case 2:
		plat := Pick(c, "", "-java", "-x86_64-linux-gnu")
		lfCheck(c, "Gemfile.lock", fmt.Sprintf("GIT\n  remote: x\n  revision: %s\n  specs:\n    %s (%s%s)\n      %s (>= %s)\n      %s\n\nGEM\n  remote: https://rubygems.org/\n  specs:\n    zz (0.1)\n", sha1x, name, ver, plat, name, ver, name), append(gem(name, ver, sha1x), gem("zz", "0.1", "")...), set)
	case 3:
		if c.Bool() {
			sp := Pick(c, "", " ")
			lfCheck(c, "mix.lock", fmt.Sprintf("%%{\n  %s: {%s:git,%s \"https://x/%s\", \"%s\", [%s]},\n  \"other\": {:hex, :other, \"0.1.0\", \"11\", [:mix], [], \"hexpm\", \"00\"},\n}\n", q(name), sp, sp, ver, sha1x, Pick(c, "", "branch: \"b\"", "tag: \"git\"")), append(pk("Hex", name, "", sha1x), pk("Hex", "other", "0.1.0", "11")...), set)
			return
		}
		lfCheck(c, "mix.lock", fmt.Sprintf("%%{\n  %s: {:hex, :%s, %s, \"%s\", [:mix], [{:git, \"~> 1\", [hex: :git]}], \"hexpm\", \"00\"},\n  \"other\": {:hex, :other, \"0.1.0\", \"11\", [:mix], [], \"hexpm\", \"00\"},\n}\n", q(name), name, q(ver), sha1x), append(pk("Hex", name, ver, sha1x), pk("Hex", "other", "0.1.0", "11")...), set)
	case 4:
		lfCheck(c, "packages.lock.json", fmt.Sprintf(`{"version":1,"dependencies":{"net6.0":{%s:{"type":"Direct","resolved":%s},"Other.X":{"resolved":"0.1.0"}},"net7.0":{%s:{"resolved":"9"}}}}`, q(name), q(ver), q(name)), append(pk("NuGet", name, ver, ""), append(pk("NuGet", "Other.X", "0.1.0", ""), pk("NuGet", name, "9", "")...)...), once)
	case 5:
		lfCheck(c, "pubspec.lock", fmt.Sprintf("packages:\n  %s:\n    version: %s\n  zz9:\n    version: \"0.1.0\"\n", q(name), q(ver)), append(pk("Pub", name, ver, ""), pk("Pub", "zz9", "0.1.0", "")...), set)
	case 6:
		lfCheck(c, "renv.lock", fmt.Sprintf(`{"Packages":{%s:{"Package":%s,"Version":%s},"zz9":{"Package":"zz9","Version":"0.1.0","Repository":"CRAN"}}}`, q(name), q(name), q(ver)), append(pk("CRAN", name, ver, ""), pk("CRAN", "zz9", "0.1.0", "")...), set)
	}
}

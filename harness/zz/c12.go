package zzverif

import (
	"fmt"
	"strings"
)

func init() {
	register("C12",
		Family{Name: "poetry", Run: c12Poetry}, Family{Name: "pdm", Run: c12Pdm}, Family{Name: "uv", Run: c12Uv}, Family{Name: "pylock", Run: c12Pylock},
		Family{Name: "pipenv", Run: c12Pipenv}, Family{Name: "names-and-versions", Run: c12Names}, Family{Name: "scale", Run: c12Scale})
}

func py(name, ver, commit string) []mPkg { return pk("PyPI", name, ver, commit) }

// tomlDoc lays the tables of a document out in one of several ways.
func tomlDoc(c *C, head string, es []ent, tail string) string {
	sep := Pick(c, "\n", "\n# a comment\n\n")
	body := strings.Join(txts(es), sep)
	doc := ""
	switch c.N(3) {
	case 0: // metadata last
		doc = head + sep + body + sep + tail
	case 1: // metadata first
		doc = head + sep + tail + sep + body
	case 2: // no metadata, no trailing newline
		doc = head + sep + strings.TrimRight(body, "\n")
	}
	return crlf(c.Bool(), doc)
}

func c12Poetry(c *C) {
	e := func(id, name, ver, rest string, p []mPkg) ent {
		return ent{id, "[[package]]\nname = \"" + name + "\"\nversion = \"" + ver + "\"\n" + rest, p}
	}
	std := "description = \"a thing [[package]] version = 9\"\noptional = false\npython-versions = \">=3.7\"\nfiles = [\n    {file = \"a-1.0.whl\", hash = \"sha256:00\"},\n]\n"
	deps := "\n[package.dependencies]\nname = \">=1\"\nversion = {version = \">=2\", extras = [\"x\"]}\nsource = \"*\"\n\n[package.extras]\ntest = [\"pytest (>=3)\"]\n"
	gitSrc := func(sha string) string {
		return "\n[package.source]\ntype = \"git\"\nurl = \"https://github.com/o/r.git\"\nreference = \"main\"\nresolved_reference = \"" + sha + "\"\n"
	}
	menu := []ent{
		e("1", "a", "1.0.0", std, py("a", "1.0.0", "")),
		e("2", "a", "2.0.0", std+deps, py("a", "2.0.0", "")),
		e("3", "B.c_d-e", "1.0rc1", "category = \"dev\"\noptional = true\n"+std[:0], py("B.c_d-e", "1.0rc1", "")),
		e("4", "g", "0.1.0", "description = \"\"\ndevelop = false\n"+gitSrc(sha1x), py("g", "0.1.0", sha1x)),
		e("5", "h", "0.2.0", std+deps+gitSrc(sha1y), py("h", "0.2.0", sha1y)),
		e("6", "l", "1.0+local.1", std+"\n[package.source]\ntype = \"legacy\"\nurl = \"https://pypi.example.org/simple\"\nreference = \"mirror\"\n", py("l", "1.0+local.1", "")),
		e("7", "u", "3.0.0", std+"\n[package.source]\ntype = \"url\"\nurl = \"https://example.org/u-3.0.0.tar.gz\"\n", py("u", "3.0.0", "")),
		e("8", "f", "0.0.1", std+"\n[package.source]\ntype = \"directory\"\nurl = \"../f\"\n", py("f", "0.0.1", "")),
		{"9", "[[package]]\ndescription = \"\"\"\nname = \"zzz\"\nversion = \"7\"\n\"\"\"\nversion = \"1.2\"\nname = \"m\"\n", py("m", "1.2", "")},
		{"10", "[[package]]\nname = 'k'\nversion = '1!2.0.post1'\nsource = {type = \"git\", url = \"x\", reference = \"v1\", resolved_reference = \"" + sha1y + "\"}\n", py("k", "1!2.0.post1", sha1y)},
		e("11", "g", "0.1.0", gitSrc(sha1y), py("g", "0.1.0", sha1y)),
	}
	es := pickEnts(c, menu, c.Q(3, 4))
	doc := tomlDoc(c, "# This file is automatically @generated by Poetry 1.5.1 and should not be changed by hand.\n", es, "[metadata]\nlock-version = \"2.0\"\npython-versions = \"^3.8\"\ncontent-hash = \"00\"\n\n[metadata.files]\na = [\n    {file = \"a\", hash = \"b\"},\n]\n")
	lfCheck(c, "poetry.lock", doc, pkgsOf(es), multi)
}

func c12Pdm(c *C) {
	e := func(id, name, ver, rest string, p []mPkg) ent {
		return ent{id, "[[package]]\nname = \"" + name + "\"\nversion = \"" + ver + "\"\n" + rest, p}
	}
	std := "requires_python = \">=3.7\"\nsummary = \"version = 9 # revision\"\nfiles = [\n    {file = \"a-1.0.whl\", hash = \"sha256:00\"},\n]\n"
	deps := "dependencies = [\n    \"b>=1.0\",\n    \"name==7\",\n]\n"
	menu := []ent{
		e("1", "a", "1.0.0", "groups = [\"default\"]\n"+std, py("a", "1.0.0", "")),
		e("2", "a", "2.0.0", "groups = [\"default\", \"dev\"]\nmarker = \"python_version < '3.8'\"\n"+std, py("a", "2.0.0", "")),
		e("3", "B.c_d-e", "1.0rc1", "groups = [\"dev\"]\n"+deps, py("B.c_d-e", "1.0rc1", "")),
		e("4", "o", "1.1", "groups = [\"docs\", \"optional\"]\n", py("o", "1.1", "")),
		e("5", "g", "0.1.0", "git = \"https://github.com/o/g.git\"\nref = \"main\"\nrevision = \""+sha1x+"\"\ngroups = [\"default\"]\n"+std, py("g", "0.1.0", sha1x)),
		e("6", "h", "0.2.0", "git = \"ssh://git@example.org/o/h.git\"\nrevision = \""+sha1y+"\"\nsummary = \"\"\n", py("h", "0.2.0", sha1y)),
		e("7", "f", "0.0.1", "path = \"./f\"\neditable = true\n", py("f", "0.0.1", "")),
		e("8", "n", "1.0+local.1", "", py("n", "1.0+local.1", "")),
		e("9", "x", "1.0.0", "extras = [\"socks\"]\ngroups = [\"default\"]\ndependencies = [\n    \"x==1.0.0\",\n]\n", py("x", "1.0.0", "")),
		e("10", "x", "1.0.0", "groups = [\"default\"]\n"+std, py("x", "1.0.0", "")),
		e("11", "g", "0.1.0", "git = \"https://github.com/o/g.git\"\nrevision = \""+sha1y+"\"\n", py("g", "0.1.0", sha1y)),
	}
	es := pickEnts(c, menu, c.Q(3, 4))
	doc := tomlDoc(c, "# This file is @generated by PDM.\n", es, "[metadata]\ngroups = [\"default\", \"dev\"]\nstrategy = [\"cross_platform\"]\nlock_version = \"4.4\"\ncontent_hash = \"sha256:00\"\n")
	lfCheck(c, "pdm.lock", doc, pkgsOf(es), set)
}

func c12Uv(c *C) {
	e := func(id, name, ver, source, rest string, p []mPkg) ent {
		return ent{id, "[[package]]\nname = \"" + name + "\"\nversion = \"" + ver + "\"\nsource = { " + source + " }\n" + rest, p}
	}
	reg := "registry = \"https://pypi.org/simple\""
	files := "sdist = { url = \"https://files.pythonhosted.org/a#frag\", hash = \"sha256:00\", size = 1 }\nwheels = [\n    { url = \"https://x/a.whl\", hash = \"sha256:00\" },\n]\n"
	deps := "dependencies = [\n    { name = \"b\" },\n    { name = \"virtual\", marker = \"x\" },\n]\n"
	menu := []ent{
		e("1", "a", "1.0.0", reg, files, py("a", "1.0.0", "")),
		e("2", "a", "2.0.0", reg, "resolution-markers = [\n    \"python_full_version < '3.9'\",\n]\n"+deps, py("a", "2.0.0", "")),
		e("3", "B.c_d-e", "1.0rc1", reg, deps+files, py("B.c_d-e", "1.0rc1", "")),
		e("4", "g", "0.1.0", "git = \"https://github.com/o/g.git?rev=main#"+sha1x+"\"", deps, py("g", "0.1.0", sha1x)),
		e("5", "h", "0.2.0", "git = \"ssh://git@example.org/o/h#"+sha1y+"\"", "", py("h", "0.2.0", sha1y)),
		e("6", "root", "9.9.9", "virtual = \".\"", deps, nil),
		e("7", "member", "0.1.0", "virtual = \"packages/member\"", "", py("member", "0.1.0", "")),
		e("8", "u", "3.0.0", "url = \"https://example.org/u-3.0.0.tar.gz#sha256=00\"", files, py("u", "3.0.0", "")),
		e("9", "f", "0.0.1", "directory = \"../f\"", "", py("f", "0.0.1", "")),
		e("10", "i", "0.0.2", "editable = \"../i\"", "", py("i", "0.0.2", "")),
		{"11", "[[package]]\nname = \"k\"\nversion = \"1.0+local.1\"\n\n[package.source]\nregistry = \"https://x/simple\"\n\n[package.optional-dependencies]\nd = [\n    { name = \"zzz\" },\n]\n\n[package.dev-dependencies]\ndev = [\n    { name = \"yyy\" },\n]\n\n[package.metadata]\nrequires-dist = [{ name = \"b\", specifier = \">=1\" }]\n", py("k", "1.0+local.1", "")},
		e("12", "root2", "", "virtual = \".\"", deps+"\n[package.optional-dependencies]\nd = [\n    { name = \"a\" },\n]\n\n[package.metadata]\nrequires-dist = [{ name = \"a\" }]\n", nil),
	}
	es := pickEnts(c, menu, c.Q(3, 4))
	doc := tomlDoc(c, "version = 1\nrequires-python = \">=3.9\"\nresolution-markers = [\n    \"python_full_version >= '3.9'\",\n]\n", es, "[manifest]\nmembers = [\n    \"root\",\n]\n")
	lfCheck(c, "uv.lock", doc, pkgsOf(es), multi)
}

func c12Pylock(c *C) {
	e := func(id, name, ver, rest string, p []mPkg) ent {
		t := "[[packages]]\nname = \"" + name + "\"\n"
		if ver != "" {
			t += "version = \"" + ver + "\"\n"
		}
		return ent{id, t + rest, p}
	}
	wheels := "\n[[packages.wheels]]\nname = \"a-1.0-py3-none-any.whl\"\nurl = \"https://files/a\"\n\n[packages.wheels.hashes]\nsha256 = \"00\"\n"
	sdist := "sdist = { name = \"a.tar.gz\", url = \"https://files/a.tar.gz\", hashes = { sha256 = \"00\" } }\n"
	menu := []ent{
		e("1", "a", "1.0.0", "marker = \"'default' in dependency_groups\"\n"+wheels, py("a", "1.0.0", "")),
		e("2", "a", "2.0.0", "requires-python = \">=3.9\"\nindex = \"https://pypi.org/simple\"\n"+sdist, py("a", "2.0.0", "")),
		e("3", "B.c_d-e", "1.0rc1", sdist+wheels, py("B.c_d-e", "1.0rc1", "")),
		e("4", "g", "", "\n[packages.vcs]\ntype = \"git\"\nurl = \"https://github.com/o/g.git\"\nrequested-revision = \"main\"\ncommit-id = \""+sha1x+"\"\n", py("g", "", sha1x)),
		e("5", "h", "0.2.0", "vcs = { type = \"git\", url = \"https://github.com/o/h.git\", commit-id = \""+sha1y+"\", subdirectory = \".\" }\n", py("h", "0.2.0", sha1y)),
		e("6", "root", "", "\n[packages.directory]\npath = \".\"\neditable = true\n", nil),
		e("7", "f", "", "directory = { path = \"../f\" }\n", py("f", "", "")),
		e("8", "vroot", "1.1.1", "directory = { path = \".\" }\n", py("vroot", "1.1.1", "")),
		e("9", "u", "3.0.0", "archive = { url = \"https://example.org/u-3.0.0.tar.gz\", path = \".\", hashes = { sha256 = \"00\" } }\n", py("u", "3.0.0", "")),
		e("10", "n", "1.0+local.1", "dependencies = [\n    { name = \"b\", version = \"9\" },\n]\n", py("n", "1.0+local.1", "")),
		e("11", "g", "", "vcs = { type = \"git\", url = \"https://github.com/o/g.git\", commit-id = \""+sha1y+"\" }\n", py("g", "", sha1y)),
	}
	es := pickEnts(c, menu, c.Q(3, 4))
	doc := tomlDoc(c, "lock-version = \"1.0\"\ncreated-by = \"pip\"\nenvironments = [\n    \"sys_platform == 'linux'\",\n]\nextras = []\n", es, "[tool.pip]\nversion = \"1\"\n")
	lfCheck(c, Pick(c, "pylock.toml"), doc, pkgsOf(es), multi)
}

func c12Pipenv(c *C) {
	e := func(id, name, ver, rest string, p []mPkg) ent {
		t := q(name) + `:{`
		if ver != "" {
			t += `"version":` + q("=="+ver)
			if rest != "" {
				t += ","
			}
		}
		return ent{id, t + rest + "}", p}
	}
	hashes := `"hashes":["sha256:00","sha256:01"],"index":"pypi"`
	menu := []ent{
		e("a", "a", "1.0.0", hashes, py("a", "1.0.0", "")),
		e("a", "a", "2.0.0", hashes+`,"markers":"python_version >= '3.7'"`, py("a", "2.0.0", "")),
		e("B", "B.c_d-e", "1.0rc1", hashes, py("B.c_d-e", "1.0rc1", "")),
		e("g", "g", "", `"git":"https://github.com/o/g.git","ref":"`+sha1x+`"`, nil),
		e("f", "f", "", `"editable":true,"path":"."`, nil),
		e("n", "n", "1!1.0+local.1", `"extras":["x"]`, py("n", "1!1.0+local.1", "")),
		e("x", "x", "3", "", py("x", "3", "")),
	}
	var es [2][]ent
	for i := range es {
		es[i] = pickEnts(c, menu, c.Q(2, 3))
	}
	secs := []string{
		`"default":{` + strings.Join(txts(es[0]), ",") + `}`,
		`"develop":{` + strings.Join(txts(es[1]), ",") + `}`,
	}
	if c.Bool() {
		secs[0], secs[1] = secs[1], secs[0]
	}
	meta := `"_meta":{"hash":{"sha256":"00"},"pipfile-spec":6,"requires":{"python_version":"3.9"},"sources":[{"name":"pypi","url":"https://pypi.org/simple","verify_ssl":true}]}`
	doc := "{" + strings.Join(append([]string{meta}, secs...), ",\n") + "}"
	lfCheck(c, "Pipfile.lock", doc, append(pkgsOf(es[0]), pkgsOf(es[1])...), once)
}

var pyNames = []string{"a", "a-b", "a_b", "a.b", "A", "Zope.Interface", "7zip", "version", "name", "git", "source", "package", "virtual", "ruamel.yaml.clib", "x--y", "default", "é"}
var pyVers = []string{"1", "1.0", "1.0.0", "0.0.0", "2023.7.22", "1.0a1", "1.0.dev1", "1.0.post1", "1!1.0", "1.0+local-x.1", "01.02", "1.0-1", "0.1.0-alpha.1"}

func c12Names(c *C) {
	name, ver := pyNames[c.N(len(pyNames))], pyVers[c.N(len(pyVers))]
	other := py("other", "0.1", "")
	all := append(py(name, ver, ""), other...)
	switch c.N(5) {
	case 0:
		lfCheck(c, "poetry.lock", fmt.Sprintf("[[package]]\nname = %s\nversion = %s\n\n[[package]]\nname = \"other\"\nversion = \"0.1\"\n", q(name), q(ver)), all, multi)
	case 1:
		lfCheck(c, "pdm.lock", fmt.Sprintf("[[package]]\nname = %s\nversion = %s\n\n[[package]]\nname = \"other\"\nversion = \"0.1\"\n", q(name), q(ver)), all, multi)
	case 2:
		lfCheck(c, "uv.lock", fmt.Sprintf("version = 1\n\n[[package]]\nname = %s\nversion = %s\nsource = { registry = \"https://pypi.org/simple\" }\n\n[[package]]\nname = \"other\"\nversion = \"0.1\"\nsource = { registry = \"https://pypi.org/simple\" }\n", q(name), q(ver)), all, multi)
	case 3:
		lfCheck(c, "pylock.toml", fmt.Sprintf("lock-version = \"1.0\"\n\n[[packages]]\nname = %s\nversion = %s\n\n[[packages]]\nname = \"other\"\nversion = \"0.1\"\n", q(name), q(ver)), all, multi)
	case 4:
		sec := Pick(c, "default", "develop")
		lfCheck(c, "Pipfile.lock", fmt.Sprintf(`{"%s":{%s:{"version":%s},"other":{"version":"==0.1"}}}`, sec, q(name), q("=="+ver)), all, multi)
	}
}

func c12Scale(c *C) {
	n := Pick(c, 10, 100, 257, 1000, 4000)
	var b strings.Builder
	var want []mPkg
	kind := c.N(5)
	for i := 0; i < n; i++ {
		nm, v := fmt.Sprintf("p%d", i/2), fmt.Sprintf("%d.%d", i%2, i)
		commit := ""
		if i%7 == 3 && kind != 4 {
			commit = fmt.Sprintf("%040x", i)
		}
		if kind == 4 {
			nm = fmt.Sprintf("p%d", i)
		}
		want = append(want, py(nm, v, commit)...)
		hd := fmt.Sprintf("[[package]]\nname = %s\nversion = %s\n", q(nm), q(v))
		switch kind {
		case 0:
			b.WriteString(hd)
			if commit != "" {
				fmt.Fprintf(&b, "[package.source]\ntype = \"git\"\nresolved_reference = %s\n", q(commit))
			}
		case 1:
			b.WriteString(hd)
			if commit != "" {
				fmt.Fprintf(&b, "git = \"x\"\nrevision = %s\n", q(commit))
			}
		case 2:
			b.WriteString(hd)
			if commit != "" {
				fmt.Fprintf(&b, "source = { git = \"https://x/y#%s\" }\n", commit)
			} else {
				b.WriteString("source = { registry = \"https://pypi.org/simple\" }\n")
			}
		case 3:
			fmt.Fprintf(&b, "[[packages]]\nname = %s\nversion = %s\n", q(nm), q(v))
			if commit != "" {
				fmt.Fprintf(&b, "vcs = { type = \"git\", commit-id = %s }\n", q(commit))
			}
		case 4:
			if i == n/2 {
				b.WriteString(`},"develop":{`)
			} else if i > 0 {
				b.WriteString(",")
			}
			fmt.Fprintf(&b, `%s:{"version":%s}`, q(nm), q("=="+v))
		}
	}
	switch kind {
	case 4:
		lfCheck(c, "Pipfile.lock", `{"default":{`+b.String()+`}}`, want, multi)
	default:
		lfCheck(c, []string{"poetry.lock", "pdm.lock", "uv.lock", "pylock.toml"}[kind], b.String(), want, multi)
	}
}

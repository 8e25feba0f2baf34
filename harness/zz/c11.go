package zzverif

import (
	"fmt"
	"strings"
)

func init() {
	register("C11",
		Family{Name: "npm-v1", Run: c11NpmV1}, Family{Name: "npm-v1-deep", Run: c11NpmV1Deep}, Family{Name: "npm-v2-v3", Run: c11NpmV2},
		Family{Name: "yarn-classic", Run: c11YarnClassic}, Family{Name: "yarn-berry", Run: c11YarnBerry},
		Family{Name: "pnpm-5", Run: func(c *C) { c11Pnpm(c, 5) }}, Family{Name: "pnpm-6", Run: func(c *C) { c11Pnpm(c, 6) }}, Family{Name: "pnpm-9", Run: func(c *C) { c11Pnpm(c, 9) }},
		Family{Name: "bun", Run: c11Bun}, Family{Name: "commit-sources", Run: c11Commits}, Family{Name: "names-and-versions", Run: c11Names}, Family{Name: "rare-entries", Run: c11Rare}, Family{Name: "scale", Run: c11Scale})
}

// ---- package-lock.json, version 1 -----------------------------------------------------

type v1dep struct {
	key, ver string
	pkg      []mPkg
	extra    string
}

var v1menu = []v1dep{
	{"a", "1.0.0", npmP("a", "1.0.0", ""), ""},
	{"a", "2.0.0-rc.1+build.5", npmP("a", "2.0.0-rc.1+build.5", ""), `,"dev":true`},
	{"@s/a", "1.0.0", npmP("@s/a", "1.0.0", ""), `,"optional":true,"requires":{"b":"^1.0.0"}`},
	{"alias", "npm:real@3.1.0", npmP("real", "3.1.0", ""), ""},
	{"@x/alias", "npm:@s/real@3.2.0", npmP("@s/real", "3.2.0", ""), `,"resolved":"https://registry.npmjs.org/x.tgz"`},
	{"g", "git+ssh://git@github.com/o/g.git#" + sha1x, npmP("g", "", sha1x), `,"from":"git+ssh://git@github.com/o/g.git"`},
	{"h", "github:o/h#" + sha1y, npmP("h", "", sha1y), ""},
	{"f", "file:../f", npmP("f", "", ""), ""},
	{"b", "1.0.0", npmP("b", "1.0.0", ""), `,"bundled":true`},
}

func v1text(c *C, d v1dep, kids string) string {
	s := fmt.Sprintf(`%s:{"version":%s%s`, q(d.key), q(d.ver), d.extra)
	if kids != "" {
		s += `,"dependencies":{` + kids + `}`
	}
	return s + "}"
}

// c11NpmV1: every ordered choice of entries, each with up to one level of nested entries.
func c11NpmV1(c *C) {
	used := map[string]bool{}
	var parts []string
	var want []mPkg
	n := c.N(3)
	for i := 0; i < n; i++ {
		d := v1menu[c.N(len(v1menu))]
		if used[d.key] {
			c.Skip()
		}
		used[d.key] = true
		kids := ""
		want = append(want, d.pkg...)
		k := c.N(len(v1menu) + 1)
		if k > 0 {
			e := v1menu[k-1]
			kids = v1text(c, e, "")
			want = append(want, e.pkg...)
		}
		parts = append(parts, v1text(c, d, kids))
		if i == 0 {
			c.Split()
		}
	}
	doc := fmt.Sprintf(`{"name":"root","version":"9.9.9","lockfileVersion":1,"requires":true,"dependencies":{%s}}`, strings.Join(parts, ","))
	lfCheck(c, "package-lock.json", doc, want, once)
}

// c11NpmV1Deep: nesting of every shape down to depth four.
func c11NpmV1Deep(c *C) {
	var want []mPkg
	cnt := 0
	var level func(depth int) string
	level = func(depth int) string {
		if depth == 0 {
			return ""
		}
		var parts []string
		n := c.N(3)
		for i := 0; i < n; i++ {
			d := v1menu[(cnt*2+i)%len(v1menu)]
			cnt++
			d.key = fmt.Sprintf("%s%d", d.key, i)
			if !strings.Contains(d.ver, ":") {
				d.pkg = npmP(d.key, d.ver, "")
			} else if strings.HasPrefix(d.ver, "git") || strings.HasPrefix(d.ver, "file") {
				d.pkg = npmP(d.key, "", d.pkg[0].Commit)
			}
			want = append(want, d.pkg...)
			parts = append(parts, v1text(c, d, level(depth-1)))
		}
		return strings.Join(parts, ",")
	}
	body := level(c.Q(3, 4))
	lfCheck(c, "package-lock.json", `{"lockfileVersion":1,"dependencies":{`+body+`}}`, want, once)
}

// ---- package-lock.json, versions 2 and 3 -----------------------------------------------

func c11NpmV2(c *C) {
	reg := `"resolved":"https://registry.npmjs.org/a/-/a.tgz","integrity":"sha512-x"`
	menu := []ent{
		{"p1", `"node_modules/a":{"version":"1.0.0",` + reg + `}`, npmP("a", "1.0.0", "")},
		{"p2", `"node_modules/b/node_modules/a":{"version":"1.0.0","dev":true}`, npmP("a", "1.0.0", "")},
		{"p3", `"node_modules/c/node_modules/a":{"version":"2.0.0-beta.2+x"}`, npmP("a", "2.0.0-beta.2+x", "")},
		{"p4", `"node_modules/@s/a":{"version":"1.0.0","dependencies":{"b":"^1.0.0"}}`, npmP("@s/a", "1.0.0", "")},
		{"p5", `"node_modules/@s/a/node_modules/@t/b":{"version":"1.0.0","peer":true}`, npmP("@t/b", "1.0.0", "")},
		{"p6", `"node_modules/alias":{"name":"real","version":"3.0.0"}`, npmP("real", "3.0.0", "")},
		{"p7", `"node_modules/a/node_modules/x":{"name":"@s/real","version":"3.0.1","inBundle":true}`, npmP("@s/real", "3.0.1", "")},
		{"p8", `"node_modules/g":{"version":"1.2.3","resolved":"git+ssh://git@github.com/o/g.git#` + sha1x + `"}`, npmP("g", "1.2.3", sha1x)},
		{"p9", `"node_modules/a/node_modules/g":{"version":"1.2.3","resolved":"git+ssh://git@github.com/o/g.git#` + sha1y + `"}`, npmP("g", "1.2.3", sha1y)},
		{"p10", `"node_modules/b/node_modules/g":{"version":"1.2.3",` + reg + `}`, npmP("g", "1.2.3", "")},
		{"p11", `"node_modules/@s/a/node_modules/deep/node_modules/@u/v/node_modules/w":{"version":"0.0.1"}`, npmP("w", "0.0.1", "")},
		{"p12", `"node_modules/a.b_c-d":{"version":"1.0.0"}`, npmP("a.b_c-d", "1.0.0", "")},
	}
	ver := 2 + c.N(2)
	root := Pick(c, "", `"":{"name":"root","version":"9.9.9","dependencies":{"a":"^1.0.0"}}`)
	es := pickEnts(c, menu, c.Q(3, 4))
	parts := txts(es)
	if root != "" {
		if c.Bool() {
			parts = append(parts, root)
		} else {
			parts = append([]string{root}, parts...)
		}
	}
	deps := ""
	if ver == 2 {
		deps = `,"dependencies":{"zzz":{"version":"7.7.7"}}`
	}
	doc := fmt.Sprintf(`{"name":"root","lockfileVersion":%d,"requires":true,"packages":{%s}%s}`, ver, strings.Join(parts, ","), deps)
	lfCheck(c, "package-lock.json", doc, pkgsOf(es), once)
}

// ---- yarn.lock ---------------------------------------------------------------------

func c11YarnClassic(c *C) {
	e := func(id, head, ver, resolved, rest string, p []mPkg) ent {
		t := head + ":\n  version \"" + ver + "\"\n"
		if resolved != "" {
			t += "  resolved \"" + resolved + "\"\n"
		}
		t += "  integrity sha512-xyz==\n" + rest
		return ent{id, t, p}
	}
	reg := "https://registry.yarnpkg.com/a/-/a-1.0.0.tgz#" + sha1x
	deps := "  dependencies:\n    b \"^1.0.0\"\n    version \"^7.0.0\"\n    \"@s/c\" \"~2\"\n  optionalDependencies:\n    resolved \"^1\"\n"
	menu := []ent{
		e("1", "a@^1.0.0", "1.0.0", reg, "", npmP("a", "1.0.0", "")),
		e("2", "a@^2.0.0, a@^2.1.0", "2.1.0-rc.1", reg, deps, npmP("a", "2.1.0-rc.1", "")),
		e("3", "\"@s/a@^1.0.0\"", "1.0.0", reg, deps, npmP("@s/a", "1.0.0", "")),
		e("4", "\"@s/a@^2.0.0\", \"@s/a@~2.1\"", "2.1.0", reg, "", npmP("@s/a", "2.1.0", "")),
		e("5", "\"alias@npm:real@^3.0.0\"", "3.0.0", reg, "", npmP("real", "3.0.0", "")),
		e("6", "\"alias2@npm:@s/real@^3.0.0\"", "3.0.1", reg, "", npmP("@s/real", "3.0.1", "")),
		e("7", "\"@x/alias@npm:@s/real@^4\", \"@s/real@^4\"", "4.0.0", reg, "", npmP("@s/real", "4.0.0", "")),
		e("8", "\"g@git+ssh://git@github.com:o/g.git#"+sha1x+"\"", "1.2.3", "git+ssh://git@github.com/o/g.git#"+sha1x, deps, npmP("g", "1.2.3", sha1x)),
		e("9", "\"h@https://github.com/o/h\"", "1.2.3", "https://github.com/o/h.git#"+sha1y, "", npmP("h", "1.2.3", sha1y)),
		e("10", "\"i@o/i\"", "0.1.0", "https://codeload.github.com/o/i/tar.gz/"+sha1y, "", npmP("i", "0.1.0", sha1y)),
		e("11", "\"a@>= 1.0.0 < 2\", a@1.x", "1.9.0+build", reg, "", npmP("a", "1.9.0+build", "")),
		e("12", "b@*, b@latest", "1.0.0", "", deps, npmP("b", "1.0.0", "")),
	}
	es := pickEnts(c, menu, c.Q(3, 4))
	head := Pick(c, "# THIS IS AN AUTOGENERATED FILE. DO NOT EDIT THIS FILE DIRECTLY.\n# yarn lockfile v1\n\n\n", "")
	doc := head + strings.Join(txts(es), Pick(c, "\n", "\n\n# comment\n"))
	lfCheck(c, "yarn.lock", crlf(c.Bool(), doc), pkgsOf(es), set)
}

func c11YarnBerry(c *C) {
	e := func(id, head, ver, resolution, rest string, p []mPkg) ent {
		return ent{id, "\"" + head + "\":\n  version: " + ver + "\n  resolution: \"" + resolution + "\"\n" + rest + "  checksum: abc\n  languageName: node\n  linkType: hard\n", p}
	}
	deps := "  dependencies:\n    b: ^1.0.0\n    version: ^7.0.0\n    \"@s/c\": ~2\n  peerDependencies:\n    resolution: \"*\"\n  bin:\n    version: bin/v.js\n"
	meta := ent{"meta", "__metadata:\n  version: 6\n  cacheKey: 8\n", nil}
	long := func(e ent) ent { // how keys of more than 1024 characters are written
		k, rest, _ := strings.Cut(e.txt, ":\n")
		e.txt = "? " + k + "\n:\n" + rest
		return e
	}
	menu := []ent{
		meta,
		e("1", "a@npm:^1.0.0", "1.0.0", "a@npm:1.0.0", "", npmP("a", "1.0.0", "")),
		e("2", "a@npm:^2.0.0, a@npm:^2.1.0", "2.1.0-rc.1", "a@npm:2.1.0-rc.1", deps, npmP("a", "2.1.0-rc.1", "")),
		e("3", "@s/a@npm:^1.0.0", "1.0.0", "@s/a@npm:1.0.0", deps, npmP("@s/a", "1.0.0", "")),
		e("4", "@s/a@npm:^2.0.0, @s/a@npm:~2.1", "2.1.0", "@s/a@npm:2.1.0", "", npmP("@s/a", "2.1.0", "")),
		e("5", "alias@npm:real@^3.0.0", "3.0.0", "real@npm:3.0.0", "", npmP("real", "3.0.0", "")),
		e("6", "alias2@npm:@s/real@^3.0.0", "3.0.1", "@s/real@npm:3.0.1", "", npmP("@s/real", "3.0.1", "")),
		e("7", "a@patch:a@npm%3A1.0.0#~/.yarn/patches/a.patch", "1.0.0", "a@patch:a@npm%3A1.0.0#~/.yarn/patches/a.patch::version=1.0.0&hash=5e7b6a", "", npmP("a", "1.0.0", "")),
		e("8", "g@https://github.com/o/g.git#commit="+sha1x, "1.2.3", "g@https://github.com/o/g.git#commit="+sha1x, deps, npmP("g", "1.2.3", sha1x)),
		e("9", "h@git@github.com:o/h.git", "1.2.4", "h@git@github.com:o/h.git#commit="+sha1y, "", npmP("h", "1.2.4", sha1y)),
		e("ws", "root@workspace:.", "0.0.0-use.local", "root@workspace:.", deps, nil),
		e("ws2", "@s/root@workspace:.", "0.0.0-use.local", "@s/root@workspace:.", deps, nil),
		e("10", "b@npm:*, b@npm:latest", "1.0.0+build.7", "b@npm:1.0.0", "", npmP("b", "1.0.0+build.7", "")),
		long(e("11", "a@npm:^5.0.0"+strings.Repeat(", a@npm:^5.0.0", 80), "5.0.0", "a@npm:5.0.0", deps, npmP("a", "5.0.0", ""))),
		long(e("12", "@s/a@npm:^5.0.0"+strings.Repeat(", @s/a@npm:^5.0.0", 80), "5.1.0", "@s/a@npm:5.1.0", "", npmP("@s/a", "5.1.0", ""))),
		long(e("13", "alias@npm:@s/real@^5.0.0"+strings.Repeat(", alias@npm:@s/real@^5.0.0", 80), "5.2.0", "@s/real@npm:5.2.0", deps, npmP("@s/real", "5.2.0", ""))),
	}
	es := pickEnts(c, menu, c.Q(3, 4))
	head := Pick(c, "# This file is generated by running \"yarn install\"\n\n", "")
	doc := head + strings.Join(txts(es), "\n")
	if c.Bool() {
		doc = strings.TrimRight(doc, "\n")
	}
	lfCheck(c, "yarn.lock", crlf(c.Bool(), doc), pkgsOf(es), set)
}

// ---- pnpm-lock.yaml -----------------------------------------------------------------

func c11Pnpm(c *C, major int) {
	body := "    resolution: {integrity: sha512-x}\n    engines: {node: '>=6'}\n    dev: false\n"
	e := func(id, key, b string, p []mPkg) ent {
		return ent{id, "  " + key + ":\n" + b, p}
	}
	git := func(name, ver string) string {
		return "    resolution: {tarball: https://codeload.github.com/o/g/tar.gz/" + sha1x + "}\n    name: " + name + "\n    version: " + ver + "\n    dev: true\n"
	}
	gitRepo := "    resolution: {commit: " + sha1y + ", repo: git+ssh://git@bitbucket.org/o/h.git, type: git}\n    name: h\n    version: 2.0.0\n"
	var menu []ent
	var vers []string
	switch major {
	case 5:
		vers = []string{"5.3", "5.4", "'5.4'", "5.4-inlineSpecifiers"}
		vers = vers[:3]
		menu = []ent{
			e("1", "/a/1.0.0", body, npmP("a", "1.0.0", "")),
			e("2", "/a/2.0.0-rc.1", body, npmP("a", "2.0.0-rc.1", "")),
			e("3", "/@s/a/1.0.0", body, npmP("@s/a", "1.0.0", "")),
			e("4", "/a/1.0.0_b@2.0.0", body, npmP("a", "1.0.0", "")),
			e("5", "/a/3.0.0_b@2.0.0_c@1.0.0", body+"    peerDependencies:\n      b: ^2\n", npmP("a", "3.0.0", "")),
			e("6", "/@s/a/2.0.0_@t+core@7.0.0", body, npmP("@s/a", "2.0.0", "")),
			e("7", "registry.example.com/r/1.0.0", body, npmP("r", "1.0.0", "")),
			e("8", "github.com/o/g/"+sha1x, git("g", "1.2.3"), npmP("g", "1.2.3", sha1x)),
			e("9", "bitbucket.org/o/h/"+sha1y, gitRepo, npmP("h", "2.0.0", sha1y)),
			e("10", "file:../f", "    resolution: {directory: ../f, type: directory}\n    name: f\n    version: 0.1.0\n", npmP("f", "0.1.0", "")),
			e("11", "/d.e_f-g/1.0.0", body, npmP("d.e_f-g", "1.0.0", "")),
			e("12", "/a/4.0.0_hashhashhash", body, npmP("a", "4.0.0", "")),
			e("13", "'@codeload.github.com/o/t/tar.gz/refs/tags/v1.0'", "    resolution: {tarball: https://codeload.github.com/o/t/tar.gz/refs/tags/v1.0}\n    name: t\n    version: 1.0.0\n", npmP("t", "1.0.0", "")),
		}
	case 6:
		vers = []string{"'6.0'", "'6.1'", "6.0"}
		menu = []ent{
			e("1", "/a@1.0.0", body, npmP("a", "1.0.0", "")),
			e("2", "/a@2.0.0-rc.1", body, npmP("a", "2.0.0-rc.1", "")),
			e("3", "/@s/a@1.0.0", body, npmP("@s/a", "1.0.0", "")),
			e("4", "/a@1.0.0(b@2.0.0)", body, npmP("a", "1.0.0", "")),
			e("5", "/a@3.0.0(b@2.0.0)(c@1.0.0)", body+"    peerDependencies:\n      b: ^2\n", npmP("a", "3.0.0", "")),
			e("6", "/@s/a@2.0.0(@t/core@7.0.0)", body, npmP("@s/a", "2.0.0", "")),
			e("7", "/a@4.0.0(@t/core@7.0.0)(b@2.0.0)", body, npmP("a", "4.0.0", "")),
			e("8", "github.com/o/g/"+sha1x, git("g", "1.2.3"), npmP("g", "1.2.3", sha1x)),
			e("9", "bitbucket.org/o/h/"+sha1y, gitRepo, npmP("h", "2.0.0", sha1y)),
			e("10", "file:../f", "    resolution: {directory: ../f, type: directory}\n    name: f\n    version: 0.1.0\n", npmP("f", "0.1.0", "")),
			e("11", "/d.e_f-g@1.0.0", body, npmP("d.e_f-g", "1.0.0", "")),
			e("12", "/@s/a@5.0.0(b@2.0.0(@t/core@7.0.0))", body, npmP("@s/a", "5.0.0", "")),
			e("13", "'@codeload.github.com/o/t/tar.gz/refs/tags/v1.0'", "    resolution: {tarball: https://codeload.github.com/o/t/tar.gz/refs/tags/v1.0}\n    name: t\n    version: 1.0.0\n", npmP("t", "1.0.0", "")),
		}
	case 9:
		vers = []string{"'9.0'"}
		menu = []ent{
			e("1", "a@1.0.0", body, npmP("a", "1.0.0", "")),
			e("2", "a@2.0.0-rc.1", body, npmP("a", "2.0.0-rc.1", "")),
			e("3", "'@s/a@1.0.0'", body, npmP("@s/a", "1.0.0", "")),
			e("4", "'@s/a@2.0.0'", body+"    peerDependencies:\n      b: ^2\n", npmP("@s/a", "2.0.0", "")),
			e("5", "a@3.0.0", body, npmP("a", "3.0.0", "")),
			e("6", "g@https://codeload.github.com/o/g/tar.gz/"+sha1x, "    resolution: {tarball: https://codeload.github.com/o/g/tar.gz/"+sha1x+"}\n    version: 1.2.3\n", npmP("g", "1.2.3", sha1x)),
			e("7", "h@git+https://git@bitbucket.org:o/h.git#"+sha1y, "    resolution: {commit: "+sha1y+", repo: https://bitbucket.org/o/h.git, type: git}\n    version: 2.0.0\n", npmP("h", "2.0.0", sha1y)),
			e("8", "'@s/g@https://codeload.github.com/o/g/tar.gz/"+sha1x+"'", "    resolution: {tarball: https://codeload.github.com/o/g/tar.gz/"+sha1x+"}\n    version: 1.2.4\n", npmP("@s/g", "1.2.4", sha1x)),
			e("9", "d.e_f-g@1.0.0", body, npmP("d.e_f-g", "1.0.0", "")),
			e("11", "f@file:f-1.0.0.tgz", "    resolution: {integrity: sha512-x, tarball: file:f-1.0.0.tgz}\n    version: 1.0.0\n", npmP("f", "1.0.0", "")),
			e("12", "'@s/f@file:../f'", "    resolution: {directory: ../f, type: directory}\n    version: 0.1.0\n", npmP("@s/f", "0.1.0", "")),
			e("10", "t@https://codeload.github.com/o/t/tar.gz/refs/tags/v1.0", "    resolution: {tarball: https://codeload.github.com/o/t/tar.gz/refs/tags/v1.0}\n    version: 1.0.0\n", npmP("t", "1.0.0", "")),
		}
	}
	es := pickEnts(c, menu, c.Q(3, 4))
	ver := Pick(c, vers...)
	doc := "lockfileVersion: " + ver + "\n\n"
	if major != 9 && c.Bool() {
		doc += "specifiers:\n  a: ^1.0.0\n\ndependencies:\n  a: 1.0.0\n\n"
	}
	if major == 9 {
		doc += "settings:\n  autoInstallPeers: true\n\nimporters:\n\n  .:\n    dependencies:\n      a:\n        specifier: ^1.0.0\n        version: 1.0.0\n\n"
	}
	if len(es) > 0 {
		doc += "packages:\n\n" + strings.Join(txts(es), "\n")
	}
	if major == 9 {
		doc += "\nsnapshots:\n\n  zzz@7.7.7(a@1.0.0):\n    dependencies:\n      a: 1.0.0\n"
	}
	lfCheck(c, "pnpm-lock.yaml", doc, pkgsOf(es), set)
}

// ---- bun.lock ------------------------------------------------------------------------

func c11Bun(c *C) {
	e := func(id, key, spec, rest string, p []mPkg) ent {
		return ent{id, "    " + q(key) + ": [" + q(spec) + rest + "],\n", p}
	}
	meta := `, "", { "dependencies": { "b": "^1.0.0", "@s/x": "npm:@s/y@1" } }, "sha512-x=="`
	menu := []ent{
		e("1", "a", "a@1.0.0", meta, npmP("a", "1.0.0", "")),
		e("2", "b/a", "a@2.0.0-rc.1+b.1", `, "", {}, "sha512-x"`, npmP("a", "2.0.0-rc.1+b.1", "")),
		e("3", "@s/a", "@s/a@1.0.0", meta, npmP("@s/a", "1.0.0", "")),
		e("4", "c/@s/a", "@s/a@1.0.0", meta, npmP("@s/a", "1.0.0", "")),
		e("5", "alias", "real@3.0.0", meta, npmP("real", "3.0.0", "")),
		e("6", "@x/alias", "@s/real@3.0.1", meta, npmP("@s/real", "3.0.1", "")),
		e("7", "g", "g@github:o/g#"+sha1x[:7], `, {}, "o-g-`+sha1x[:7]+`"`, npmP("g", "", sha1x[:7])),
		e("8", "h", "h@git+ssh://git@github.com/o/h.git#"+sha1y, `, {}, "`+sha1y+`"`, npmP("h", "", sha1y)),
		e("9", "f", "f@file:../f", `, {}`, npmP("f", "", "")),
		e("10", "@s/g", "@s/g@github:o/g#"+sha1y[:7], `, {}, "x"`, npmP("@s/g", "", sha1y[:7])),
		e("11", "only", "only@1.0.0", "", npmP("only", "1.0.0", "")),
		e("12", "l", "l@file:l", "", npmP("l", "", "")),
		{"13", "    \"nothing\": [],\n", nil},
		{"14", "    \"odd\": [{ \"x\": 1 }, \"odd@1.0.0\"],\n", nil},
	}
	es := pickEnts(c, menu, c.Q(3, 4))
	sep := Pick(c, "\n", "    // a comment\n", "    /* b\n c */\n")
	doc := "{\n  \"lockfileVersion\": " + Pick(c, "0", "1") + ",\n  \"workspaces\": {\n    \"\": {\n      \"name\": \"root\",\n      \"dependencies\": { \"a\": \"^1.0.0\", },\n    },\n  },\n  \"packages\": {\n" + strings.Join(txts(es), sep) + "  }\n}\n"
	lfCheck(c, "bun.lock", doc, pkgsOf(es), set)
}

// ---- the many ways git sources are written ---------------------------------------------

func c11Commits(c *C) {
	type src struct {
		url    string
		commit string
	}
	h := Pick(c, sha1x, "abc1234")
	srcs := []src{
		{"git+ssh://git@github.com/o/r.git#" + h, h}, {"git+https://git@github.com/o/r.git#" + h, h}, {"git://github.com/o/r.git#" + h, h},
		{"ssh://git@gitlab.com/o/r.git#" + h, h}, {"git+ssh://git@example.org/o/r.git#" + h, h}, {"https://github.com/o/r.git#" + h, h},
		{"https://example.org/o/r.git#" + h, h}, {"https://codeload.github.com/o/r-2.x/tar.gz/" + h, h},
		{"github:o/r#" + h, h}, {"gitlab:o/r#" + h, h}, {"bitbucket:o/r#" + h, h},
		{"https://github.com/o/r#" + h, h}, {"https://gitlab.com/o/r#" + h, h}, {"https://bitbucket.org/o/r#" + h, h},
		{"https://registry.npmjs.org/r/-/r-1.0.0.tgz", ""}, {"https://registry.npmjs.org/r/-/r-1.0.0.tgz#" + h, ""},
		{"https://registry.yarnpkg.com/@s/r/-/r-1.0.0.tgz#" + h, ""}, {"https://npm.pkg.github.com/download/@s/r/1.0.0/" + h, ""},
		{"https://example.org/github.com/r.tgz#" + h, ""},
	}
	s := srcs[c.N(len(srcs))]
	name := Pick(c, "r", "@s/r")
	switch c.N(5) {
	case 0: // npm v2/v3
		lfCheck(c, "package-lock.json", fmt.Sprintf(`{"lockfileVersion":3,"packages":{"node_modules/%s":{"version":"1.0.0","resolved":%s}}}`, name, q(s.url)), npmP(name, "1.0.0", s.commit), once)
	case 1: // npm v1: the source is in place of the version
		if s.commit == "" {
			c.Skip()
		}
		lfCheck(c, "package-lock.json", fmt.Sprintf(`{"lockfileVersion":1,"dependencies":{%s:{"version":%s}}}`, q(name), q(s.url)), npmP(name, "", s.commit), set)
	case 2: // yarn classic
		lfCheck(c, "yarn.lock", fmt.Sprintf("# yarn lockfile v1\n\n\n\"%s@%s\":\n  version \"1.0.0\"\n  resolved \"%s\"\n", name, s.url, s.url), npmP(name, "1.0.0", s.commit), set)
	case 3: // yarn berry
		if s.commit == "" || strings.Contains(s.url, "codeload") || strings.HasPrefix(s.url, "git") && !strings.Contains(s.url, "://") || strings.HasPrefix(s.url, "bitbucket:") {
			c.Skip()
		}
		u := strings.Replace(s.url, "#", "#commit=", 1)
		lfCheck(c, "yarn.lock", fmt.Sprintf("__metadata:\n  version: 6\n\n\"%s@%s\":\n  version: 1.0.0\n  resolution: \"%s@%s\"\n", name, u, name, u), npmP(name, "1.0.0", s.commit), set)
	case 4: // bun
		if s.commit == "" || strings.Contains(s.url, "codeload") {
			c.Skip()
		}
		lfCheck(c, "bun.lock", fmt.Sprintf(`{"lockfileVersion":1,"packages":{%s:[%s,{},"x"]}}`, q(name), q(name+"@"+s.url)), npmP(name, "", s.commit), set)
	}
}

// c11Names: names and versions of every shape in every format.
func c11Names(c *C) {
	name := Pick(c, "a", "@s/a", "a-b", "a_b", "a.js", "@s-x/a.b", "A", "7zip", "a1", "@a/a", "node_modules2", "@types/node", "workspace", "file", "npm", "git", "patch", "link", "version", "js-yaml", "is-1.0.0", "@scope.x/y_z", "x-npm", "git-http", "@npm/x", "@git/y")
	ver := Pick(c, "1.0.0", "0.0.1", "10.20.30", "1.0.0-alpha", "1.0.0-alpha.1", "1.0.0+build", "1.0.0-rc.1+b-2.3", "0.0.0-dev-20200101", "2023.1.1", "1.0.0-0", "1.0.0-x.y-z")
	switch c.N(9) {
	case 0:
		lfCheck(c, "package-lock.json", fmt.Sprintf(`{"lockfileVersion":1,"dependencies":{"zz":{"version":"0.1.0","dependencies":{%s:{"version":%s}}}}}`, q(name), q(ver)), append(npmP(name, ver, ""), npmP("zz", "0.1.0", "")...), set)
	case 1:
		lfCheck(c, "package-lock.json", fmt.Sprintf(`{"lockfileVersion":3,"packages":{"":{"name":"x"},"node_modules/zz":{"version":"0.1.0"},"node_modules/zz/node_modules/%s":{"version":%s}}}`, name, q(ver)), append(npmP(name, ver, ""), npmP("zz", "0.1.0", "")...), once)
	case 2:
		h := name + "@^" + ver
		if c.Bool() || strings.HasPrefix(name, "@") {
			h = `"` + h + `"`
		}
		lfCheck(c, "yarn.lock", fmt.Sprintf("# yarn lockfile v1\n\n\n%s:\n  version \"%s\"\n  resolved \"https://registry.yarnpkg.com/%s/-/a.tgz#%s\"\n", h, ver, name, sha1x), npmP(name, ver, ""), set)
	case 3:
		lfCheck(c, "yarn.lock", fmt.Sprintf("__metadata:\n  version: 6\n\n\"%s@npm:^%s\":\n  version: %s\n  resolution: \"%s@npm:%s\"\n", name, ver, ver, name, ver), npmP(name, ver, ""), set)
	case 4:
		lfCheck(c, "pnpm-lock.yaml", fmt.Sprintf("lockfileVersion: 5.4\npackages:\n  /%s/%s:\n    resolution: {integrity: x}\n  /zz/1.0.0_%s@%s:\n    resolution: {integrity: x}\n", name, ver, strings.ReplaceAll(name, "/", "+"), ver), append(npmP(name, ver, ""), npmP("zz", "1.0.0", "")...), set)
	case 5:
		if strings.Contains(ver, "+") {
			c.Skip() // pnpm drops build metadata
		}
		lfCheck(c, "pnpm-lock.yaml", fmt.Sprintf("lockfileVersion: '6.0'\npackages:\n  /%s@%s:\n    resolution: {integrity: x}\n  /zz@1.0.0(%s@%s):\n    resolution: {integrity: x}\n", name, ver, name, ver), append(npmP(name, ver, ""), npmP("zz", "1.0.0", "")...), set)
	case 6:
		lfCheck(c, "pnpm-lock.yaml", fmt.Sprintf("lockfileVersion: '9.0'\npackages:\n  '%s@%s':\n    resolution: {integrity: x}\n", name, ver), npmP(name, ver, ""), set)
	case 7:
		lfCheck(c, "bun.lock", fmt.Sprintf(`{"lockfileVersion":1,"packages":{%s:[%s,"",{},"sha512-x"]}}`, q(name), q(name+"@"+ver)), npmP(name, ver, ""), set)
	case 8:
		al := Pick(c, "al", "@z/al")
		switch c.N(3) {
		case 0:
			lfCheck(c, "package-lock.json", fmt.Sprintf(`{"lockfileVersion":1,"dependencies":{%s:{"version":%s}}}`, q(al), q("npm:"+name+"@"+ver)), npmP(name, ver, ""), set)
		case 1:
			lfCheck(c, "package-lock.json", fmt.Sprintf(`{"lockfileVersion":3,"packages":{"node_modules/%s":{"name":%s,"version":%s}}}`, al, q(name), q(ver)), npmP(name, ver, ""), once)
		case 2:
			lfCheck(c, "yarn.lock", fmt.Sprintf("# yarn lockfile v1\n\n\"%s@npm:%s@^%s\":\n  version \"%s\"\n", al, name, ver, ver), npmP(name, ver, ""), set)
		}
	}
}

// c11Scale: many entries.
func c11Scale(c *C) {
	n := Pick(c, 7, 63, 64, 65, 150, 500, 3000)
	kind := c.N(8)
	var b strings.Builder
	var want []mPkg
	name := func(i int) (string, string) {
		nm := fmt.Sprintf("p%d", i/2)
		if i%5 == 0 {
			nm = "@s/" + nm
		}
		return nm, fmt.Sprintf("%d.%d.0", i%2, i)
	}
	for i := 0; i < n; i++ {
		nm, v := name(i)
		want = append(want, npmP(nm, v, "")...)
		sep := ""
		if i > 0 {
			sep = ","
		}
		switch kind {
		case 0:
			fmt.Fprintf(&b, `%s"k%d":{"version":"0.0.1","dependencies":{%s:{"version":%s}}}`, sep, i, q(nm), q(v))
			want = append(want, npmP(fmt.Sprintf("k%d", i), "0.0.1", "")...)
		case 1:
			fmt.Fprintf(&b, `%s"node_modules/k%d/node_modules/%s":{"version":%s}`, sep, i, nm, q(v))
		case 2:
			fmt.Fprintf(&b, "\"%s@^%s\":\n  version \"%s\"\n  dependencies:\n    x \"^1\"\n\n", nm, v, v)
		case 3:
			fmt.Fprintf(&b, "\"%s@npm:^%s\":\n  version: %s\n  resolution: \"%s@npm:%s\"\n\n", nm, v, v, nm, v)
		case 4:
			fmt.Fprintf(&b, "  /%s/%s:\n    resolution: {integrity: x}\n", nm, v)
		case 5:
			fmt.Fprintf(&b, "  /%s@%s:\n    resolution: {integrity: x}\n", nm, v)
		case 6:
			fmt.Fprintf(&b, "  '%s@%s':\n    resolution: {integrity: x}\n", nm, v)
		case 7:
			fmt.Fprintf(&b, "\"k%d/%s\": [%s, \"\", {}, \"x\"],\n", i, nm, q(nm+"@"+v))
		}
	}
	body := b.String()
	switch kind {
	case 0:
		lfCheck(c, "package-lock.json", `{"lockfileVersion":1,"dependencies":{`+body+`}}`, want, once)
	case 1:
		lfCheck(c, "package-lock.json", `{"lockfileVersion":3,"packages":{`+body+`}}`, want, once)
	case 2, 3:
		lfCheck(c, "yarn.lock", body, want, set)
	case 4:
		lfCheck(c, "pnpm-lock.yaml", "lockfileVersion: 5.4\npackages:\n"+body, want, set)
	case 5:
		lfCheck(c, "pnpm-lock.yaml", "lockfileVersion: '6.0'\npackages:\n"+body, want, set)
	case 6:
		lfCheck(c, "pnpm-lock.yaml", "lockfileVersion: '9.0'\npackages:\n"+body, want, set)
	case 7:
		lfCheck(c, "bun.lock", `{"lockfileVersion":1,"packages":{`+body+`}}`, want, set)
	}
}

// c11Rare: entries that few lockfiles have (workspace members, links, patches, odd repositories), in pairs.
func c11Rare(c *C) {
	kind := c.N(7)
	var menu []ent
	var base, head, sep, tail string
	mode := set
	switch kind {
	case 0: // package-lock.json, version 3
		mode = once
		base, head, sep, tail = "package-lock.json", `{"lockfileVersion":3,"packages":{"":{"name":"root","workspaces":["packages/*"]},`, ",", "}}"
		menu = []ent{
			{"1", `"node_modules/m":{"resolved":"packages/m","link":true}`, npmP("m", "", "")},
			{"2", `"packages/m":{"version":"1.0.0"}`, npmP("m", "1.0.0", "")},
			{"3", `"packages/n":{"name":"@s/n","version":"1.1.0","dependencies":{"b":"^1.0.0"}}`, npmP("@s/n", "1.1.0", "")},
			{"4", `"packages/o":{"name":"o","dependencies":{"b":"^1.0.0"}}`, npmP("o", "", "")},
			{"5", `"packages/o/node_modules/a":{"version":"3.0.0"}`, npmP("a", "3.0.0", "")},
			{"6", `"packages/@s/q":{"version":"1.2.0"}`, npmP("@s/q", "1.2.0", "")},
			{"7", `"../outside":{"name":"outside","version":"1.3.0"}`, npmP("outside", "1.3.0", "")},
			{"8", `"node_modules/r":{"version":"1.4.0","resolved":"https://codeload.github.com/o/r.js/tar.gz/` + sha1x + `"}`, npmP("r", "1.4.0", sha1x)},
			{"9", `"node_modules/t":{"version":"1.5.0","resolved":"file:t-1.5.0.tgz","integrity":"sha512-x"}`, npmP("t", "1.5.0", "")},
			{"10", `"node_modules/@s/l":{"resolved":"packages/@s/l","link":true}`, npmP("@s/l", "", "")},
			{"11", `"node_modules/node_modules/node_modules/x":{"version":"1.6.0","optional":true,"devOptional":true,"hasInstallScript":true}`, npmP("x", "1.6.0", "")},
			{"12", `"node_modules/y":{"version":"1.7.0","deprecated":"no","bin":{"y":"y.js"},"engines":{"node":">=6"},"os":["linux"],"funding":{"url":"x"}}`, npmP("y", "1.7.0", "")},
		}
	case 1: // yarn, classic
		base, head, sep = "yarn.lock", "# yarn lockfile v1\n\n\n", "\n"
		e := func(id, h, rest string, p []mPkg) ent { return ent{id, h + ":\n" + rest, p} }
		menu = []ent{
			e("1", "\"f@file:./f\"", "  version \"1.0.0\"\n", npmP("f", "1.0.0", "")),
			e("2", "\"@s/l@link:../l\"", "  version \"0.0.0\"\n  uid \"\"\n", npmP("@s/l", "0.0.0", "")),
			e("3", "\"a@https://example.org/a-1.0.0.tgz\"", "  version \"1.0.0\"\n  resolved \"https://example.org/a-1.0.0.tgz#"+sha1x+"\"\n", npmP("a", "1.0.0", "")),
			e("4", "\"b@git+https://github.com/o/b.js.git#v1.2.0\"", "  version \"1.2.0\"\n  uid "+sha1y+"\n  resolved \"git+https://github.com/o/b.js.git#"+sha1y+"\"\n", npmP("b", "1.2.0", sha1y)),
			e("5", "c@1, c@^1, c@^1.0.0, c@~1.0", "  \"version\" \"1.0.1\"\n  \"resolved\" \"https://registry.yarnpkg.com/c/-/c-1.0.1.tgz\"\n", npmP("c", "1.0.1", "")),
			e("6", "\"d@1 || 2\", \"d@>=1 <3\"", "  version \"2.9.0\"\n  dependencies:\n    \"version\" \"1.0.0\"\n", npmP("d", "2.9.0", "")),
			e("7", "\"e@o/e.js\"", "  version \"0.1.0\"\n  resolved \"https://codeload.github.com/o/e.js/tar.gz/"+sha1x+"\"\n", npmP("e", "0.1.0", sha1x)),
			e("8", "\"g@npm:@s/h@1\", \"g@npm:@s/h@^1\"", "  version \"1.8.0\"\n", npmP("@s/h", "1.8.0", "")),
		}
	case 2: // yarn, berry
		base, head, sep = "yarn.lock", "__metadata:\n  version: 8\n  cacheKey: 10c0\n\n", "\n"
		e := func(id, h, ver, resolution, rest string, p []mPkg) ent {
			return ent{id, "\"" + h + "\":\n  version: " + ver + "\n  resolution: \"" + resolution + "\"\n" + rest + "  languageName: unknown\n  linkType: soft\n", p}
		}
		loc := "::locator=root%40workspace%3A."
		menu = []ent{
			e("1", "m@workspace:packages/m", "0.0.0-use.local", "m@workspace:packages/m", "", npmP("m", "0.0.0-use.local", "")),
			e("2", "n@^1.0.0, n@workspace:packages/n", "0.0.0-use.local", "n@workspace:packages/n", "", npmP("n", "0.0.0-use.local", "")),
			e("3", "@s/o@workspace:.config/o", "0.0.0-use.local", "@s/o@workspace:.config/o", "", npmP("@s/o", "0.0.0-use.local", "")),
			e("4", "l@link:./l"+loc, "0.0.0-use.local", "l@link:./l"+loc, "", npmP("l", "0.0.0-use.local", "")),
			e("5", "p@portal:../p"+loc, "0.0.0-use.local", "p@portal:../p"+loc, "", npmP("p", "0.0.0-use.local", "")),
			e("6", "f@file:./f.tgz"+loc, "1.0.0", "f@file:./f.tgz#./f.tgz::hash=5e7b6a&locator=root%40workspace%3A.", "", npmP("f", "1.0.0", "")),
			e("7", "typescript@patch:typescript@^4.0.0#~builtin<compat/typescript>", "4.9.5", "typescript@patch:typescript@npm%3A4.9.5#~builtin<compat/typescript>::version=4.9.5&hash=289587", "", npmP("typescript", "4.9.5", "")),
			e("8", "g@github:o/g.js", "1.2.3", "g@https://github.com/o/g.js.git#commit="+sha1x, "", npmP("g", "1.2.3", sha1x)),
			e("9", "root@workspace:.", "0.0.0-use.local", "root@workspace:.", "  dependencies:\n    m: \"workspace:^\"\n", nil),
			e("10", "h@npm:1.0.0 || 2.0.0, h@npm:^2", "2.0.0", "h@npm:2.0.0", "  conditions: os=linux\n", npmP("h", "2.0.0", "")),
			e("11", "i@https://example.org/i.tgz", "1.1.0", "i@https://example.org/i.tgz", "", npmP("i", "1.1.0", "")),
			e("12", "j@workspace:packages/a.b", "0.0.0-use.local", "j@workspace:packages/a.b", "", npmP("j", "0.0.0-use.local", "")),
		}
	case 3, 4: // pnpm 5 and 6
		base, head, sep = "pnpm-lock.yaml", Pick(c, "lockfileVersion: 5.4", "lockfileVersion: '6.0'")+"\npackages:\n", ""
		if (kind == 3) != strings.Contains(head, "5.4") {
			c.Skip()
		}
		e := func(id, key, b string, p []mPkg) ent { return ent{id, "  " + key + ":\n" + b, p} }
		menu = []ent{
			e("1", "github.com/o/g.js/"+sha1x, "    resolution: {tarball: https://codeload.github.com/o/g.js/tar.gz/"+sha1x+"}\n    name: g\n    version: 1.2.3\n", npmP("g", "1.2.3", sha1x)),
			e("2", "git.example.org/o/h/"+sha1y, "    resolution: {commit: "+sha1y+", repo: https://git.example.org/o/h.git, type: git}\n    name: '@s/h'\n    version: 2.0.0-rc.1\n    requiresBuild: true\n", npmP("@s/h", "2.0.0-rc.1", sha1y)),
			e("3", "file:packages/f(b@1.0.0)", "    resolution: {directory: packages/f, type: directory}\n    id: file:packages/f\n    name: f\n    version: 0.1.0\n    dev: false\n", npmP("f", "0.1.0", "")),
			e("4", "file:t-1.0.0.tgz", "    resolution: {integrity: sha512-x, tarball: file:t-1.0.0.tgz}\n    name: t\n    version: 1.0.0\n", npmP("t", "1.0.0", "")),
			e("5", "'@example.org/u-1.0.0.tgz'", "    resolution: {tarball: https://example.org/u-1.0.0.tgz}\n    name: u\n    version: 1.0.0\n", npmP("u", "1.0.0", "")),
			e("6", "github.com/o_x/i-j/"+sha1y, "    resolution: {tarball: https://codeload.github.com/o_x/i-j/tar.gz/"+sha1y+"}\n    name: i\n    version: 1.0.0\n    prepare: true\n", npmP("i", "1.0.0", sha1y)),
		}
		if kind == 3 {
			menu = append(menu, e("7", "/v/1.0.0", "    resolution: {integrity: x}\n    hasBin: true\n    deprecated: no\n    optional: true\n", npmP("v", "1.0.0", "")), e("8", "registry.example.com/@s/w/1.0.0_b@2.0.0", "    resolution: {integrity: x}\n", npmP("@s/w", "1.0.0", "")))
		} else {
			menu = append(menu, e("7", "/v@1.0.0", "    resolution: {integrity: x}\n    hasBin: true\n    deprecated: no\n    optional: true\n", npmP("v", "1.0.0", "")), e("8", "/@s/w@1.0.0-x.1(b@2.0.0)(patch_hash=abc)", "    resolution: {integrity: x}\n", npmP("@s/w", "1.0.0-x.1", "")))
		}
	case 5: // pnpm 9
		base, head, sep, tail = "pnpm-lock.yaml", "lockfileVersion: '9.0'\n\npackages:\n\n", "\n", "\nsnapshots:\n\n  a@1.0.0: {}\n"
		e := func(id, key, b string, p []mPkg) ent { return ent{id, "  " + key + ":\n" + b, p} }
		menu = []ent{
			e("1", "g@https://codeload.github.com/o/g.js/tar.gz/"+sha1x, "    resolution: {tarball: https://codeload.github.com/o/g.js/tar.gz/"+sha1x+"}\n    version: 1.2.3\n", npmP("g", "1.2.3", sha1x)),
			e("2", "h@git+ssh://git@git.example.org/o/h.git#"+sha1y, "    resolution: {commit: "+sha1y+", repo: ssh://git@git.example.org/o/h.git, type: git}\n    version: 2.0.0\n    hasBin: true\n", npmP("h", "2.0.0", sha1y)),
			e("3", "u@https://example.org/u-1.0.0.tgz", "    resolution: {tarball: https://example.org/u-1.0.0.tgz}\n    version: 1.0.0\n", npmP("u", "1.0.0", "")),
			e("4", "'@s/v@1.0.0-x.1'", "    resolution: {integrity: x}\n    deprecated: no\n    cpu: [x64]\n", npmP("@s/v", "1.0.0-x.1", "")),
			e("5", "w@1.0.0+build.1", "    resolution: {integrity: x}\n    peerDependenciesMeta:\n      a:\n        optional: true\n", npmP("w", "1.0.0+build.1", "")),
		}
	case 6: // bun
		base, head, sep, tail = "bun.lock", "{\n  \"lockfileVersion\": 1,\n  \"workspaces\": {\"\": {\"name\": \"root\"}, \"packages/m\": {\"name\": \"m\", \"version\": \"1.0.0\"}},\n  \"overrides\": {\"a\": \"1\"},\n  \"packages\": {\n", "\n", "  },\n}\n"
		e := func(id, key, spec, rest string, p []mPkg) ent {
			return ent{id, "    " + q(key) + ": [" + q(spec) + rest + "],\n", p}
		}
		menu = []ent{
			e("1", "a", "a@1.0.0", `, "https://registry.example.com/a/-/a-1.0.0.tgz", { "os": "none", "cpu": "arm64", "bin": { "a": "a.js", }, }, "sha512-x=="`, npmP("a", "1.0.0", "")),
			e("2", "b/c/d", "d@0.0.0-experimental-12a", `, "", {}, ""`, npmP("d", "0.0.0-experimental-12a", "")),
			e("3", "@s/e/@t/f", "@t/f@1.0.0", `, "", {}, ""`, npmP("@t/f", "1.0.0", "")),
			e("4", "g", "g@git+https://git.example.org/o/g.js.git#"+sha1x, `, {}, "`+sha1x+`"`, npmP("g", "", sha1x)),
			e("5", "h", "h@github:o/h.js#"+sha1y[:7], `, { "dependencies": {} }, "o-h.js-`+sha1y[:7]+`"`, npmP("h", "", sha1y[:7])),
			e("6", "@s/i", "@s/i@file:vendor/i.tgz", `, {}`, npmP("@s/i", "", "")),
			e("7", "j//k", "j@1.0.0", `, "", { "peerDependencies": { "a": "*" }, "optionalPeers": ["a"] }, "sha512-//x"`, npmP("j", "1.0.0", "")),
		}
	}
	es := pickEnts(c, menu, c.Q(2, 3))
	if len(es) == 0 {
		c.Skip()
	}
	lfCheck(c, base, head+strings.Join(txts(es), sep)+tail, pkgsOf(es), mode)
}

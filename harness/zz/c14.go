package zzverif

import (
	"fmt"
	"strings"
)

func init() {
	register("C14",
		Family{Name: "pom-versions", Run: c14Versions}, Family{Name: "pom-entries", Run: c14Pom}, Family{Name: "pom-scale", Run: c14PomScale},
		Family{Name: "pom-nested-properties", Run: c14Nested}, Family{Name: "pom-whitespace", Run: c14Space}, Family{Name: "pom-chain", Run: c14Chain},
		Family{Name: "gradle", Run: c14Gradle}, Family{Name: "gradle-lines", Run: c14GradleLines}, Family{Name: "gradle-scale", Run: c14GradleScale})
	register("C15",
		Family{Name: "replace", Run: c15Replace}, Family{Name: "layout", Run: c15Layout}, Family{Name: "many", Run: c15Many})
}

func mv(name, ver string) []mPkg { return pk("Maven", name, ver, "") }

type mvnVer struct {
	text, want string
}

var mvnProps = map[string]string{"a.version": "1.1", "b": "2.2.2-SNAPSHOT", "range": "[3.0,4.0)", "one": "1", "two.x-y_z": "2", "empty": "", "soft": "5.0"}
var mvnVers = []mvnVer{
	{"1.0", "1.0"}, {"1.0.0-RC1", "1.0.0-RC1"}, {"9.4.35.v20201120", "9.4.35.v20201120"}, {"2020.1", "2020.1"}, {"1", "1"}, {"1.0-alpha_2+3", "1.0-alpha_2+3"},
	{"[1.0]", "1.0"}, {"[1.0,2.0]", "1.0"}, {"[1.0,2.0)", "1.0"}, {"(1.0,2.0)", "1.0"}, {"(1.0,)", "1.0"}, {"[1.5,)", "1.5"}, {"(,1.0]", "0"}, {"(,1.0)", "0"}, {"[1.0,1.2],[1.5,)", "1.0"}, {"(,1.0],[1.2,)", "0"},
	{"", "0"}, // no version
	{"${a.version}", "1.1"}, {"${b}", "2.2.2-SNAPSHOT"}, {"${range}", "3.0"}, {"${unknown}", "0"}, {"${project.version}", "0"}, {"${two.x-y_z}", "2"},
	{"${one}.0", "1.0"}, {"3.${one}", "3.1"}, {"${one}.${two.x-y_z}", "1.2"}, {"${one}.${one}", "1.1"}, {"[${one},${two.x-y_z})", "1"}, {"${one}.${unknown}", "0"}, {"${unknown}.${one}", "0"}, {"[${soft},)", "5.0"}, {"${soft}", "5.0"},
}

func propsXML(order []string) string {
	var b strings.Builder
	b.WriteString("  <properties>\n")
	for i, k := range order {
		if i == 1 {
			b.WriteString("    <!-- <a.version>9.9</a.version> -->\n")
		}
		fmt.Fprintf(&b, "    <%s>%s</%s>\n", k, mvnProps[k], k)
	}
	b.WriteString("  </properties>\n")
	return b.String()
}

func depXML(g, a, v string, hasV bool, style int) string {
	ver := ""
	if hasV {
		ver = "<version>" + v + "</version>"
	}
	switch style {
	case 1: // other order, more elements
		return fmt.Sprintf("      <dependency>\n        %s\n        <scope>test</scope>\n        <artifactId>%s</artifactId>\n        <exclusions><exclusion><groupId>xg</groupId><artifactId>xa</artifactId></exclusion></exclusions>\n        <groupId>%s</groupId>\n        <optional>true</optional>\n      </dependency>\n", ver, a, g)
	case 2: // comment inside
		return fmt.Sprintf("      <dependency><!-- <version>8.8</version> --><groupId>%s</groupId><artifactId>%s</artifactId>%s<type>pom</type></dependency>\n", g, a, ver)
	}
	return fmt.Sprintf("      <dependency>\n        <groupId>%s</groupId>\n        <artifactId>%s</artifactId>\n        %s\n      </dependency>\n", g, a, ver)
}

func pomXML(order []int, decl bool, ns bool, props, deps, managed string) string {
	var b strings.Builder
	if decl {
		b.WriteString("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n")
	}
	if ns {
		b.WriteString("<project xmlns=\"http://maven.apache.org/POM/4.0.0\" xmlns:xsi=\"http://www.w3.org/2001/XMLSchema-instance\" xsi:schemaLocation=\"http://maven.apache.org/POM/4.0.0 http://maven.apache.org/xsd/maven-4.0.0.xsd\">\n")
	} else {
		b.WriteString("<project>\n")
	}
	b.WriteString("  <modelVersion>4.0.0</modelVersion>\n  <groupId>me</groupId>\n  <artifactId>root</artifactId>\n  <version>7.7</version>\n  <parent><groupId>pg</groupId><artifactId>pa</artifactId><version>6</version></parent>\n")
	secs := []string{props, deps, managed, "  <build><plugins><plugin><groupId>plg</groupId><artifactId>pla</artifactId><version>1</version><dependencies><dependency><groupId>pd</groupId><artifactId>pd</artifactId><version>1</version></dependency></dependencies></plugin></plugins></build>\n"}
	for _, i := range order {
		b.WriteString(secs[i])
	}
	b.WriteString("</project>\n")
	return b.String()
}

func mvnPropOrder(c *C) []string {
	ks := sortedKeys(mvnProps)
	if c.Bool() {
		for i, j := 0, len(ks)-1; i < j; i, j = i+1, j-1 {
			ks[i], ks[j] = ks[j], ks[i]
		}
	}
	return ks
}

// c14Versions: every pair of versions, in either section, with the properties before or after.
func c14Versions(c *C) {
	secs := [2]string{}
	want := map[string]string{}
	for i := 0; i < 2; i++ {
		v := mvnVers[c.N(len(mvnVers))]
		a := fmt.Sprintf("a%d", i)
		if v.want == "" {
			c.Skip()
		}
		sec := c.N(2)
		secs[sec] += depXML("org.g", a, v.text, v.text != "", c.N(c.Q(2, 3)))
		want["org.g:"+a] = v.want
		if i == 0 {
			c.Split()
		}
	}
	deps, man := "", ""
	if secs[0] != "" {
		deps = "  <dependencies>\n" + secs[0] + "  </dependencies>\n"
	}
	if secs[1] != "" {
		man = "  <dependencyManagement><dependencies>\n" + secs[1] + "  </dependencies></dependencyManagement>\n"
	}
	order := Pick(c, []int{0, 1, 2, 3}, []int{2, 1, 3, 0})
	var w []mPkg
	for k, v := range want {
		w = append(w, mv(k, v)...)
	}
	lfCheck(c, "pom.xml", crlf(c.Bool(), pomXML(order, true, c.Bool(), propsXML(sortedKeys(mvnProps)), deps, man)), w, multi)
}

// c14Pom: sequences of declarations of few artifacts in both sections, so that they repeat.
func c14Pom(c *C) {
	ga := [][2]string{{"g", "a"}, {"g", "b"}, {"g.h", "a"}, {"g:x", "a"}}
	n := c.N(c.Q(4, 5))
	secs := [2]string{}
	var last [2]map[string]string
	last[0], last[1] = map[string]string{}, map[string]string{}
	noVer := map[string]bool{}
	vs := []mvnVer{{"1.0", "1.0"}, {"[2.0,3.0)", "2.0"}, {"${a.version}", "1.1"}, {"", "0"}, {"${nope}", "0"}}
	for i := 0; i < n; i++ {
		x := ga[c.N(3)]
		s := c.N(2)
		v := vs[c.N(len(vs))]
		k := x[0] + ":" + x[1]
		if s == 0 && (v.text == "" && has(last[0], k) || noVer[k]) {
			c.Skip() // several direct declarations, one of them without a version, are not judged
		}
		if s == 0 && v.text == "" {
			noVer[k] = true
		}
		secs[s] += depXML(x[0], x[1], v.text, v.text != "", 0)
		last[s][x[0]+":"+x[1]] = v.want
		if i == 1 {
			c.Split()
		}
	}
	var w []mPkg
	for k, v := range last[0] {
		if noVer[k] && has(last[1], k) {
			v = last[1][k]
		}
		w = append(w, mv(k, v)...)
	}
	for k, v := range last[1] {
		if _, ok := last[0][k]; !ok {
			w = append(w, mv(k, v)...)
		}
	}
	deps, man := "", ""
	if secs[0] != "" || c.Bool() {
		deps = "  <dependencies>\n" + secs[0] + "  </dependencies>\n"
	}
	if secs[1] != "" || c.Bool() {
		man = "  <dependencyManagement>\n  <dependencies>\n" + secs[1] + "  </dependencies>\n  </dependencyManagement>\n"
	}
	order := Pick(c, []int{0, 1, 2, 3}, []int{2, 1, 0, 3}, []int{3, 1, 2, 0}, []int{1, 0, 3, 2})
	lfCheck(c, "pom.xml", pomXML(order, c.Bool(), true, propsXML(mvnPropOrder(c)), deps, man), w, multi)
}

// c14Nested: every assignment of values, that can refer to any of the properties, to three
// properties. What a reference leads to is worked out by substituting one reference at a time;
// a property that leads back to itself has no value.
func c14Nested(c *C) {
	names := []string{"p", "q", "r"}
	menu := []string{"1", "2.0", "${p}", "${q}", "${r}", "[${q},9)", "${r}.${q}", "${x}", "${p}${p}"}
	if !c.Thorough() {
		menu = menu[:8]
	}
	props := map[string]string{}
	for i, n := range names {
		props[n] = menu[c.N(len(menu))]
		if i == 1 {
			c.Split()
		}
	}
	var expand func(s string, open string) (string, bool)
	expand = func(s string, open string) (string, bool) {
		i := strings.Index(s, "${")
		if i < 0 {
			return s, true
		}
		j := i + strings.Index(s[i:], "}")
		n := s[i+2 : j]
		v, ok := props[n]
		if !ok || strings.Contains(open, n) {
			return "", false
		}
		v, ok = expand(v, open+n)
		rest, ok2 := expand(s[j+1:], open)
		return s[:i] + v + rest, ok && ok2
	}
	order := Pick(c, []string{"p", "q", "r"}, []string{"r", "q", "p"})
	var px strings.Builder
	px.WriteString("  <properties>\n")
	for _, n := range order {
		fmt.Fprintf(&px, "    <%s>%s</%s>\n", n, props[n], n)
	}
	px.WriteString("  </properties>\n")
	deps := ""
	var w []mPkg
	for i, v := range []string{"${p}", "${q}.${r}", "[${r},${p}]", "3"} {
		want := "0"
		if s, ok := expand(v, ""); ok {
			if strings.Contains(strings.TrimLeft(s, "["), "[") {
				c.Skip() // no version, with a range in the middle
			}
			s = strings.TrimLeft(s, "[")
			if k := strings.IndexAny(s, ",)]"); k >= 0 {
				s = s[:k]
			}
			want = s
		}
		a := fmt.Sprintf("a%d", i)
		deps += depXML("g", a, v, true, 0)
		w = append(w, mv("g:"+a, want)...)
	}
	lfCheck(c, "pom.xml", pomXML(Pick(c, []int{0, 1, 2, 3}, []int{1, 0, 3, 2}), true, true, px.String(), "  <dependencies>\n"+deps+"  </dependencies>\n", ""), w, multi)
}

// c14Chain: chains of properties, each of which refers to the next, of every length.
func c14Chain(c *C) {
	n := 1 + c.N(c.Q(12, 40))
	shape := c.N(3)
	var lines []string
	want := "1"
	for i := n; i > 0; i-- {
		v := "1"
		if i < n {
			v = fmt.Sprintf("${p%d}", i+1)
			switch shape {
			case 1:
				v += ".0"
				want += ".0"
			case 2:
				v = "1." + v
				want = "1." + want
			}
		}
		lines = append(lines, fmt.Sprintf("    <p%d>%s</p%d>\n", i, v, i))
	}
	if c.Bool() {
		for i, j := 0, len(lines)-1; i < j; i, j = i+1, j-1 {
			lines[i], lines[j] = lines[j], lines[i]
		}
	}
	lfCheck(c, "pom.xml", pomXML([]int{0, 1, 2, 3}, true, true, "<properties>\n"+strings.Join(lines, "")+"</properties>\n", "<dependencies>"+depXML("g", "a", "${p1}", true, 0)+depXML("g", "b", "[${p1},)", true, 0)+"</dependencies>", ""), append(mv("g:a", want), mv("g:b", want)...), multi)
}

// c14Space: whitespace around the values of a pom makes no difference.
func c14Space(c *C) {
	sp := func() string { return Pick(c, "", " ", "\n        ", "\t") }
	gs, as, vs, ps := sp(), sp(), sp(), sp()
	v := Pick(c, mvnVer{"1.0", "1.0"}, mvnVer{"[1.0,2.0)", "1.0"}, mvnVer{"[ 1.0 , 2.0 )", "1.0"}, mvnVer{"( ,2.0]", "0"}, mvnVer{"[\n1.0\n]", "1.0"}, mvnVer{"${p}", "1.1"}, mvnVer{"${p}.5", "1.1.5"}, mvnVer{"[${p} , 2)", "1.1"}, mvnVer{"", "0"}, mvnVer{"${x}", "0"})
	c.Split()
	pad := func(s, p string) string { return p + s + p }
	px := "  <properties>\n    <o>3</o>\n    <p>" + pad("1.1", ps) + "</p>\n  </properties>\n"
	dep := depXML(pad("g", gs), pad("a", as), pad(v.text, vs), true, 0)
	other := Pick(c, "", depXML("g", "a", "7", true, 0), depXML("g", "b", "7", true, 0))
	want := map[string]string{"g:a": v.want}
	deps, man := dep, ""
	if c.Bool() {
		deps, man = "", dep
		if other != "" {
			deps = other
			if strings.Contains(other, ">a<") {
				want["g:a"] = "7"
			} else {
				want["g:b"] = "7"
			}
		}
	} else if other != "" {
		man = other
		if strings.Contains(other, ">b<") {
			want["g:b"] = "7"
		} else if v.text == "" {
			want["g:a"] = "7" // no version of its own
		}
	}
	var w []mPkg
	for _, k := range sortedKeys(want) {
		w = append(w, mv(k, want[k])...)
	}
	lfCheck(c, "pom.xml", crlf(c.Bool(), pomXML([]int{0, 1, 2, 3}, true, true, px, "<dependencies>"+deps+"</dependencies>", "<dependencyManagement><dependencies>"+man+"</dependencies></dependencyManagement>")), w, multi)
}

func has(m map[string]string, k string) bool { _, ok := m[k]; return ok }

func c14PomScale(c *C) {
	n := Pick(c, 10, 300, 3000)
	var deps, man strings.Builder
	var w []mPkg
	for i := 0; i < n; i++ {
		v := mvnVers[i%len(mvnVers)]
		if v.text == "" {
			v = mvnVers[0]
		}
		a := fmt.Sprintf("a%d", i)
		switch i % 3 {
		case 0:
			deps.WriteString(depXML("g", a, v.text, true, i%2))
		case 1:
			man.WriteString(depXML("g", a, v.text, true, i%2))
		case 2:
			deps.WriteString(depXML("g", a, v.text, true, i%2))
			man.WriteString(depXML("g", a, "99", true, i%2))
		}
		w = append(w, mv("g:"+a, v.want)...)
	}
	lfCheck(c, "pom.xml", pomXML(Pick(c, []int{0, 1, 2, 3}, []int{2, 3, 1, 0}), true, true, propsXML(mvnPropOrder(c)), "<dependencies>"+deps.String()+"</dependencies>", "<dependencyManagement><dependencies>"+man.String()+"</dependencies></dependencyManagement>"), w, multi)
}

// ---- gradle -------------------------------------------------------------------------

func gradleName(c *C) string {
	return Pick(c, "gradle.lockfile", "buildscript-gradle.lockfile")
}

func c14GradleLines(c *C) {
	g := Pick(c, "g", "org.springframework.boot", "com.x-y_z", "1g", "empty")
	a := Pick(c, "a", "spring-core", "a.b_c", "lib3", "empty")
	c.Split()
	v := Pick(c, "1.0", "1.0.0.RELEASE", "2.6.3-SNAPSHOT", "31.1-jre", "1.0+build", "r09", "1.2.3-alpha.4", "2020-02-14T00-28-31")
	conf := Pick(c, "=compileClasspath", "=compileClasspath,runtimeClasspath,testA", "=", "", "=a=b")
	nl := Pick(c, "\n", "\r\n")
	lead := Pick(c, "", "  ")
	tail := Pick(c, "", " ")
	want := mv(g+":"+a, v)
	extra := Pick(c, "", "empty=", "empty=annotationProcessor,x:y:z", "# c:d:1", "not a line", "a:b", "#", "   ", "c=d", "#x:y:1=z")
	ls := []string{"# This is a Gradle generated file for dependency locking.", lead + g + ":" + a + ":" + v + conf + tail, extra, "zz:zz:0.1=x"}
	want = append(want, mv("zz:zz", "0.1")...)
	if c.Bool() {
		ls[1], ls[2] = ls[2], ls[1]
	}
	doc := strings.Join(ls, nl)
	if c.Bool() {
		doc += nl
	}
	lfCheck(c, gradleName(c), doc, want, multi)
}

func c14Gradle(c *C) {
	menu := []ent{
		{"1", "g:a:1.0=compileClasspath", mv("g:a", "1.0")}, {"2", "g:a:2.0=testRuntime", mv("g:a", "2.0")}, {"3", "g:b:1.0=x,y", mv("g:b", "1.0")}, {"4", "g.h:a:1.0=x", mv("g.h:a", "1.0")},
		{"5", "# comment", nil}, {"6", "empty=annotationProcessor", nil}, {"7", "", nil}, {"8", "not a dependency", nil}, {"9", "too:short", nil}, {"10", "empty=", nil}, {"11", "empty:empty:5=x", mv("empty:empty", "5")}, {"12", "g:a:1.0-rc1=z", mv("g:a", "1.0-rc1")},
	}
	es := pickEnts(c, menu, c.Q(4, 5))
	lfCheck(c, gradleName(c), strings.Join(txts(es), "\n")+Pick(c, "", "\n"), pkgsOf(es), multi)
}

func c14GradleScale(c *C) {
	n := Pick(c, 100, 1000, 10000)
	var b strings.Builder
	var w []mPkg
	for i := 0; i < n; i++ {
		fmt.Fprintf(&b, "g%d:a:%d.0=%s\n", i%17, i, strings.Repeat("conf,", i%300))
		w = append(w, mv(fmt.Sprintf("g%d:a", i%17), fmt.Sprintf("%d.0", i))...)
	}
	lfCheck(c, gradleName(c), b.String()+"empty=\n", w, multi)
}

// ---- go.mod --------------------------------------------------------------------------

type goMod struct{ path, ver string }

// goResolve applies the replace directives the way the Go command does.
func goResolve(reqs []goMod, reps map[goMod]goMod) []mPkg {
	seen := map[goMod]bool{}
	var out []mPkg
	for _, r := range reqs {
		m := r
		if x, ok := reps[r]; ok {
			m = x
		} else if x, ok := reps[goMod{r.path, ""}]; ok {
			m = x
		}
		if seen[m] {
			continue
		}
		seen[m] = true
		out = append(out, pk("Go", m.path, strings.TrimPrefix(m.ver, "v"), "")...)
	}
	return out
}

var goPaths = []string{"example.com/a", "example.com/b", "example.com/c/v2"}

func goVersFor(p string) []string {
	if strings.HasSuffix(p, "/v2") {
		return []string{"v2.0.0", "v2.1.0"}
	}
	return []string{"v1.0.0", "v1.1.0"}
}

func (m goMod) String() string { return strings.TrimSpace(m.path + " " + m.ver) }

// c15Replace: every choice of required versions and every choice of up to 2 (3) replace directives in every order.
func c15Replace(c *C) {
	var reqs []goMod
	for _, p := range goPaths {
		vs := goVersFor(p)
		switch c.N(4) {
		case 1:
			reqs = append(reqs, goMod{p, vs[0]})
		case 2:
			reqs = append(reqs, goMod{p, vs[1]})
		case 3:
			reqs = append(reqs, goMod{p, vs[0]}, goMod{p, vs[1]})
		}
	}
	c.Split()
	var lefts, rights []goMod
	for _, p := range goPaths {
		lefts = append(lefts, goMod{p, ""})
		for _, v := range goVersFor(p) {
			lefts = append(lefts, goMod{p, v})
			rights = append(rights, goMod{p, v})
		}
	}
	rights = append(rights, goMod{"example.com/fork", "v1.9.0"}, goMod{"./local", ""})
	n := c.N(c.Q(3, 4))
	reps := map[goMod]goMod{}
	var lines []string
	for i := 0; i < n; i++ {
		l := lefts[c.N(len(lefts))]
		if _, ok := reps[l]; ok {
			c.Skip()
		}
		r := rights[c.N(len(rights))]
		if i == 2 && r.path != "example.com/fork" && r.path != goPaths[0] {
			c.Skip()
		}
		reps[l] = r
		lines = append(lines, fmt.Sprintf("replace %s => %s", l, r))
	}
	var rl []string
	for _, r := range reqs {
		rl = append(rl, "require "+r.String())
	}
	doc := "module example.com/root\n\ngo 1.21\n\n"
	if c.Bool() {
		doc += strings.Join(append(rl, lines...), "\n") + "\n"
	} else {
		doc += strings.Join(append(lines, rl...), "\n") + "\n"
	}
	lfCheck(c, "go.mod", doc, goResolve(reqs, reps), multi)
}

// c15Layout: blocks, comments, other directives, versions of every form.
func c15Layout(c *C) {
	v := Pick(c, "v1.0.0", "v0.0.0-20210101000000-abcdef123456", "v1.2.3-rc.1", "v2.0.0+incompatible", "v1.2.4-0.20210101000000-abcdef123456", "v0.1.0")
	p := Pick(c, "github.com/x/y", "gopkg.in/yaml.v3", "golang.org/x/mod", "github.com/X/Y-z_w~1", "example.com/v/w")
	if strings.HasPrefix(p, "gopkg.in") {
		if v != "v1.0.0" {
			c.Skip()
		}
		v = "v3.0.0-20210107192922-496545a6307b"
	}
	c.Split()
	other := goMod{"example.com/z", "v1.5.0"}
	indirect := Pick(c, "", " // indirect", " // a => b v1.0.0")
	reqs := []goMod{{p, v}, other}
	reps := map[goMod]goMod{}
	doc := ""
	switch c.N(3) {
	case 0:
		doc = fmt.Sprintf("require (\n\t%s %s%s\n\n\t// comment\n\t%s\n)\n", p, v, indirect, other)
	case 1:
		doc = fmt.Sprintf("require %s\nrequire %s %s%s\n", other, p, v, indirect)
	case 2:
		doc = fmt.Sprintf("require %s %s%s\n\nrequire (\n\t%s // indirect\n)\n", p, v, indirect, other)
	}
	rep := ""
	switch c.N(5) {
	case 1:
		reps[goMod{p, ""}] = goMod{"example.com/fork", "v1.2.0"}
		rep = fmt.Sprintf("replace %s => example.com/fork v1.2.0 // why\n", p)
	case 2:
		reps[goMod{p, v}] = goMod{"example.com/fork", "v1.2.0-rc.1"}
		rep = fmt.Sprintf("replace (\n\t%s %s => example.com/fork v1.2.0-rc.1\n\texample.com/nothere => example.com/other v1.0.0\n)\n", p, v)
	case 3:
		reps[goMod{p, ""}] = goMod{"../local", ""}
		rep = fmt.Sprintf("replace %s => ../local\n", p)
	case 4:
		reps[other] = goMod{p, v}
		rep = fmt.Sprintf("replace %s => %s %s\n", other, p, v)
	}
	head := Pick(c, "module example.com/root\n", "module example.com/root // c\n\ngo 1.21.5\n\ntoolchain go1.22.1\n")
	tail := Pick(c, "", "exclude example.com/z v1.4.0\n\nretract v1.0.0 // bad\n", "exclude (\n\texample.com/z v1.5.0\n)\n")
	parts := []string{doc, rep, tail}
	if c.Bool() {
		parts = []string{rep, tail, doc}
	}
	lfCheck(c, "go.mod", crlf(c.Bool(), head+"\n"+strings.Join(parts, "\n")), goResolve(reqs, reps), multi)
}

func c15Many(c *C) {
	n := Pick(c, 20, 200, 2000)
	every := Pick(c, 1, 2, 3)
	var reqs []goMod
	reps := map[goMod]goMod{}
	var a, b strings.Builder
	for i := 0; i < n; i++ {
		m := goMod{fmt.Sprintf("example.com/m%d", i), fmt.Sprintf("v1.%d.0", i)}
		reqs = append(reqs, m)
		fmt.Fprintf(&a, "\t%s\n", m)
		if i%every == 0 {
			l := m
			if i%2 == 0 {
				l.ver = ""
			}
			// chains: every module is replaced by the next one
			r := goMod{fmt.Sprintf("example.com/m%d", (i+1)%n), fmt.Sprintf("v1.%d.0", (i+1)%n)}
			reps[l] = r
			fmt.Fprintf(&b, "\t%s => %s\n", l, r)
		}
	}
	lfCheck(c, "go.mod", "module x\n\nrequire (\n"+a.String()+")\n\nreplace (\n"+b.String()+")\n", goResolve(reqs, reps), multi)
}

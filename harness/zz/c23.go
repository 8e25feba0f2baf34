package zzverif

import (
	"fmt"
	"os"
	"path/filepath"
	"slices"
	"strings"

	"github.com/g-rath/osv-detector/internal/zzsched"
	"github.com/g-rath/osv-detector/pkg/lockfile"
)

func init() {
	wrap := func(name string, run func(c *C)) Family {
		return Family{Name: "documents: " + name, Run: func(c *C) {
			lfHook = c23Parse
			defer func() { lfHook = nil }()
			run(c)
		}}
	}
	deep := func(f Family) Family { f.Thorough = true; return f }
	register("C23",
		Family{Name: "scans", Run: c23Scans},
		Family{Name: "update", Run: c23Update},
		Family{Name: "directory-order", Run: c23Dirs},
		Family{Name: "collisions", Run: c23Collisions},
		Family{Name: "arrival-order", Run: c23Arrival},
		Family{Name: "sorted", Run: c23Sorted},
		wrap("npm-v1", c11NpmV1), wrap("npm-v2-v3", c11NpmV2),
		wrap("pnpm-5", func(c *C) { c11Pnpm(c, 5) }), wrap("pnpm-6", func(c *C) { c11Pnpm(c, 6) }), wrap("pnpm-9", func(c *C) { c11Pnpm(c, 9) }),
		wrap("bun", c11Bun), wrap("yarn-classic", c11YarnClassic), wrap("yarn-berry", c11YarnBerry),
		wrap("poetry", c12Poetry), wrap("pdm", c12Pdm), wrap("uv", c12Uv), wrap("pylock", c12Pylock), wrap("pipenv", c12Pipenv),
		deep(wrap("pom", c14Pom)), wrap("pom-small", c23Pom), wrap("gradle", c14Gradle), deep(wrap("go", c15Replace)), wrap("go-small", c23Go),
		wrap("cargo", c16Cargo), wrap("composer", c16Composer), wrap("gemfile", c16Gemfile), wrap("mix", c16Mix),
		deep(wrap("nuget", c16Nuget)), wrap("nuget-small", c23Nuget), wrap("pubspec", c16Pub), wrap("renv", c16Renv),
	)
}

var mapsControlled = os.Getenv("VERIF_MAPS") == "controlled"

// orders of n keys that are explored at one map iteration: all of them for few keys.
func mapOrders(n int) [][]int {
	if v, ok := mapOrdersOf[n]; ok {
		return v
	}
	id := make([]int, n)
	for i := range id {
		id[i] = i
	}
	var out [][]int
	if n <= 4 {
		var rec func(cur []int, rest []int)
		rec = func(cur, rest []int) {
			if len(rest) == 0 {
				out = append(out, slices.Clone(cur))
			}
			for i := range rest {
				rec(append(slices.Clone(cur), rest[i]), append(slices.Clone(rest[:i]), rest[i+1:]...))
			}
		}
		rec(nil, id)
	} else {
		out = append(out, id)
		rev := slices.Clone(id)
		slices.Reverse(rev)
		out = append(out, rev)
		for r := 1; r < n; r++ {
			out = append(out, append(slices.Clone(id[r:]), id[:r]...))
		}
		for i := 0; i+1 < n; i++ {
			s := slices.Clone(id)
			s[i], s[i+1] = s[i+1], s[i]
			out = append(out, s)
		}
	}
	mapOrdersOf[n] = out
	return out
}

var mapOrdersOf = map[int][][]int{}

// underOrders runs f in the standard order and then, explored, with at most bound
// map iterations in another order (or all of them reversed). f gives what must not change.
func (c *C) underOrders(bound int, f func() string) string {
	if !mapsControlled {
		base := f()
		for i := 0; i < 12; i++ {
			if got := f(); got != base {
				c.Fail("two runs differ:\n%s\n--- and\n%s", clip(base, 3000), clip(got, 3000))
			}
		}
		return base
	}
	zzsched.MapHook = nil
	base := f()
	reversed := c.N(2) == 1
	left := bound
	points := 0
	var sites []string
	var bad any
	zzsched.MapHook = func(site string, n int) []int {
		os := mapOrders(n)
		points++
		if bad != nil {
			return nil
		}
		if reversed {
			r := slices.Clone(os[0])
			slices.Reverse(r)
			sites = append(sites, site+" reversed")
			return r
		}
		if left == 0 {
			return nil
		}
		k := 0
		func() {
			defer func() {
				if r := recover(); r != nil {
					bad = r
				}
			}()
			k = c.N(len(os))
		}()
		if k > 0 {
			left--
			sites = append(sites, fmt.Sprintf("%s %v", site, os[k]))
		}
		return os[k]
	}
	defer func() { zzsched.MapHook = nil }()
	got := f()
	zzsched.MapHook = nil
	if bad != nil {
		panic(bad)
	}
	if reversed && points == 0 {
		c.Skip()
	}
	c.AddTransitions(int64(points))
	if got != base {
		c.Fail("the order of map iteration shows (%s):\n%s\n--- instead of\n%s", strings.Join(sites, "; "), clip(got, 3000), clip(base, 3000))
	}
	return base
}

func c23Show(l lockfile.Lockfile, err error) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%s as %s: %v\n", l.FilePath, l.ParsedAs, err)
	for _, p := range l.Packages {
		b.WriteString(pkgLine(p) + "\n")
	}
	return b.String()
}

// sortedByName is whether packages are listed by name and then version.
func c23SortCheck(c *C, ps []mPkg) {
	for i := 1; i < len(ps); i++ {
		a, b := ps[i-1], ps[i]
		if a.Name > b.Name || a.Name == b.Name && a.Version > b.Version {
			c.Fail("packages are not listed by name and version: %s before %s", pkgLine(a), pkgLine(b))
		}
	}
}

func c23Parse(c *C, path string) {
	var last lockfile.Lockfile
	c.underOrders(c.Q(1, 2), func() string {
		l, err := lockfile.Parse(path, "")
		last = l
		return c23Show(l, err)
	})
	c23SortCheck(c, last.Packages)
	if len(last.Packages) > 1 {
		c.Nontrivial()
	}
}

// c23Collisions: entries that a parser may take for the same package although they differ.
func c23Collisions(c *C) {
	git := "git+ssh://git@github.com/o/r.git#"
	menu := []string{
		`"node_modules/%s": {"version": "1.0.0", "resolved": "` + git + sha1x + `"}`,
		`"node_modules/%s": {"version": "1.0.1", "resolved": "` + git + sha1x + `"}`,
		`"node_modules/%s": {"resolved": "` + git + sha1x + `"}`,
		`"node_modules/%s": {"version": "` + sha1x + `"}`,
		`"node_modules/%s": {"version": "1.0.0"}`,
		`"node_modules/%s": {"version": "1.0.0", "resolved": "` + git + sha1y + `"}`,
		`"node_modules/%s": {"name": "a", "version": "1.0.1", "resolved": "https://codeload.github.com/o/r/tar.gz/` + sha1x + `"}`,
	}
	keys := []string{"a", "x/node_modules/a", "y/node_modules/a"}
	var es []string
	for _, k := range keys {
		i := c.N(len(menu) + 1)
		if i > 0 {
			es = append(es, fmt.Sprintf(menu[i-1], k))
		}
	}
	lfHook = c23Parse
	defer func() { lfHook = nil }()
	lfCheck(c, "package-lock.json", `{"lockfileVersion": 3, "packages": {"": {}, `+strings.TrimSuffix(strings.Join(append(es, ""), ", "), ", ")+`}}`, nil, set)
}

// c23World has several lockfiles, configs and databases.
func c23World(k int) *world {
	w := newWorld()
	all := []mPkg{pd("npm", "npm", "p", "1.0.0"), pd("npm", "npm", "q", "2.0.0"), pd("npm", "npm", "q", "1.0.0")}
	var advs []mAdv
	for i, n := range []string{"p", "q"} {
		for j := 0; j < 3; j++ {
			advs = append(advs, on(fmt.Sprintf("N-%d-%d", i, 2-j), "npm", n))
		}
	}
	advs = append(advs, on("Z-1", "npm", "p", "N-0-1"), on("Y-1", "npm", "p", "CVE-5"), on("X-1", "npm", "p", "CVE-5"))
	w.ecoDB("npm", advs...)
	w.ecoDB("PyPI", on("P-2", "PyPI", "r"), on("P-1", "PyPI", "r"), on("P-3", "PyPI", "s"))
	w.ecoDB("crates.io", on("K-1", "crates.io", "k"))
	a := w.dirDB("a", on("A-2", "npm", "p", "CVE-5"), on("A-1", "npm", "p"), on("A-3", "PyPI", "r", "P-1"))
	b := w.dirDB("b", on("B-1", "npm", "p", "A-1"), on("B-2", "PyPI", "r", "P-2"))
	w.lock("d0/package-lock.json", all...)
	w.lock("d1/requirements.txt", pd("PyPI", "PyPI", "r", "1.0"), pd("PyPI", "PyPI", "s", "1.0"))
	w.lock("d1/package-lock.json", all[0])
	w.lock("d2/Cargo.lock", pd("crates.io", "crates.io", "k", "1.0.0"))
	if k&1 == 1 {
		w.conf("d0/.osv-detector.yml", mConf{ignore: []string{"N-0-0", "A-1"}, dbs: []mDBRef{a, b}})
		w.conf("d2/.osv-detector.yml", mConf{dbs: []mDBRef{b}})
	}
	if k&2 == 2 {
		w.conf("d1/.osv-detector.yml", mConf{ignore: []string{"P-3"}, dbs: []mDBRef{b, a}})
	}
	w.api(apiURL, advs...)
	// every package with an ecosystem of its own, whose databases know the same findings by other names
	w.ecoDB("Go", on("G-1", "Go", "p", "CVE-5"), on("G-2", "npm", "p", "A-1"))
	w.ecoDB("Hex", on("H-1", "Hex", "p", "CVE-5"), on("H-2", "npm", "p", "A-1"))
	w.files["m/own.csv"] = "npm,,p,1.0.0\nPyPI,,r,1.0\nGo,,p,1.0.0\nHex,,p,1.0.0\n"
	w.files["m/two.csv"] = "Hex,,p,1.0.0\nGo,,p,1.0.0\nGo,,q,1.0.0\n"
	return w
}

func c23Run(w *world, args []string) string {
	net.reset(w.serve())
	r := cli(args...)
	// cached copies make no difference either, but start alike
	must(removeTmp())
	return fmt.Sprintf("exit %d\n%s\n--- stderr\n%s", r.Code, r.Out, r.Err)
}

// c23Scans: whole scans under explored map orders.
func c23Scans(c *C) {
	w := c23World(c.N(4))
	var args []string
	switch c.N(5) {
	case 0:
		args = []string{"--json"}
	case 1:
		args = []string{}
	case 2:
		args = []string{"--list-packages"}
	case 3:
		args = []string{"--json", "--list-packages"}
	case 4:
		args = []string{"--use-api", "--json", "--batch-size", "2"}
	}
	dirs := Pick(c, []string{"d0", "d1", "d2"}, []string{"d1", "d0"}, []string{"d1"}, []string{"d2", "d1", "d0", "d1"}, []string{"d0"}, []string{"d0", "--gone--"}, []string{"csv-file:m/own.csv"}, []string{"csv-file:m/two.csv", "d1", "csv-file:m/own.csv"}, []string{"csv-file:m"}, []string{"--parse-as"})
	if dirs[0] == "--parse-as" {
		args = append([]string{"--parse-as", "nothing"}, args...)
		dirs = []string{"d0"}
	}
	args = append(args, dirs...)
	c.Split()
	c.Leaf(w.key(mFlags{}, args))
	w.setup()
	c.underOrders(c.Q(1, 2), func() string { return c23Run(w, args) })
	c.Nontrivial()
}

// c23Update: the configs an update writes, under explored map orders.
func c23Update(c *C) {
	w := c23World(1 + c.N(3))
	dirs := Pick(c, []string{"d0", "d1", "d2"}, []string{"d1", "d0"}, []string{"d0"}, []string{"d1", "d2"})
	js := c.Bool()
	args := []string{"--update-config-ignores"}
	if js {
		args = append(args, "--json")
	}
	args = append(args, dirs...)
	c.Split()
	c.Leaf(w.key(mFlags{}, args))
	c.underOrders(c.Q(1, 2), func() string {
		d := w.setup()
		out := c23Run(w, args)
		tree := readTree(d)
		for n := range tree {
			if !strings.Contains(n, ".osv-detector") {
				delete(tree, n)
			}
		}
		return tree.key() + out
	})
	c.Nontrivial()
}

// c23Dirs: the order in which directory entries were created makes no difference.
func c23Dirs(c *C) {
	names := []string{"package-lock.json", "requirements.txt", "Cargo.lock", "yarn.lock", "go.mod"}
	n := c.Q(4, 5)
	perm := c.Perm(n)
	what := c.N(3)
	args := [][]string{{"--json", "d"}, {"d"}, {"--list-packages", "d"}}[what]
	c.Leaf(fmt.Sprintf("%v %v", perm, args))
	do := func(order []int) string {
		d := caseDir()
		must(os.MkdirAll(filepath.Join(d, "d"), 0o755))
		must(os.MkdirAll(filepath.Join(d, "db"), 0o755))
		must(os.WriteFile(filepath.Join(d, "d", ".osv-detector.yml"), []byte("extra-databases:\n  - url: file:/db\n"), 0o644))
		for _, i := range order {
			must(os.WriteFile(filepath.Join(d, "d", names[i]), []byte(formatOf(names[i]).doc(0)), 0o644))
			// linked through a common alias: which of them is shown depends on their order
			id := fmt.Sprintf("D-%d", i)
			must(os.WriteFile(filepath.Join(d, "db", id+".json"), []byte(on(id, "npm", "a0", "CVE-1").json()), 0o644))
		}
		net.reset(nil)
		r := cli(append([]string{"--use-dbs=false"}, args...)...)
		return fmt.Sprintf("exit %d\n%s\n--- stderr\n%s", r.Code, r.Out, r.Err)
	}
	id := make([]int, n)
	for i := range id {
		id[i] = i
	}
	base := do(id)
	if got := do(perm); got != base {
		c.Fail("the order of directory entries shows:\n%s\n--- instead of\n%s", clip(got, 3000), clip(base, 3000))
	}
	c.Nontrivial()
}

// c23Arrival: concurrent API responses in every order.
func c23Arrival(c *C) {
	w := newWorld()
	w.api(apiURL, on("N-2", "npm", "p"), on("N-1", "npm", "p"), on("N-3", "npm", "q"), on("N-0", "npm", "q", "N-3"))
	w.lock("d0/package-lock.json", pd("npm", "npm", "p", "1.0.0"), pd("npm", "npm", "q", "2.0.0"))
	args := []string{"--use-api", "--use-dbs=false", "--batch-size", Pick(c, "1", "2"), "d0"}
	if c.Bool() {
		args = append([]string{"--json"}, args...)
	}
	c.Leaf(w.key(mFlags{}, args))
	w.setup()
	base := c23Run(w, args)
	var got string
	_, p := c.controlled(-1, func() {
		net.mu.Lock()
		net.handler, net.reqs = w.serve(), nil
		net.mu.Unlock()
		r := cli(args...)
		got = fmt.Sprintf("exit %d\n%s\n--- stderr\n%s", r.Code, r.Out, r.Err)
	})
	must(removeTmp())
	if p != nil {
		panic(p)
	}
	if got != base {
		c.Fail("the order of responses shows:\n%s\n--- instead of\n%s", clip(got, 3000), clip(base, 3000))
	}
	c.Nontrivial()
}

// c23Sorted: packages come out by name and version, for every order in the file.
func c23Sorted(c *C) {
	f := Pick(c, "requirements.txt", "Cargo.lock", "package-lock.json", "csv")
	names := []string{"a", "b", "A", "a-1", "a1"}
	vers := []string{"1.0.0", "10.0.0", "2.0.0"}
	n := 3
	var ps []mPkg
	eco := map[string]string{"requirements.txt": "PyPI", "Cargo.lock": "crates.io", "package-lock.json": "npm", "csv": "npm"}[f]
	if f == "requirements.txt" {
		names = []string{"a", "b", "c", "a-1", "a1"}
	}
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		k := c.N(len(names) * len(vers))
		nm, v := names[k%len(names)], vers[k/len(names)]
		if seen[nm+v] || f == "package-lock.json" && seen[nm] {
			c.Skip()
		}
		seen[nm+v], seen[nm] = true, true
		ps = append(ps, pk(eco, nm, v, "")...)
	}
	if f != "csv" {
		text := lockText(f, ps)
		lfHook = c23Parse
		defer func() { lfHook = nil }()
		lfCheck(c, f, text, nil, set)
		return
	}
	var rows []string
	for _, p := range ps {
		rows = append(rows, fmt.Sprintf("%s,,%s,%s", p.Ecosystem, p.Name, p.Version))
	}
	c.Leaf(strings.Join(rows, "\n"))
	caseDir()
	net.reset(nil)
	r := cli(append([]string{"--json", "--use-dbs=false", "--no-config", "--parse-as", "csv-row"}, rows...)...)
	rep, err := r.report()
	if err != nil || len(rep.Results) != 1 {
		c.Fail("%v\n%s", err, r)
	}
	c23SortCheck(c, rep.Results[0].details())
	c.Nontrivial()
}

func c23Pom(c *C) {
	dep := func() string {
		return fmt.Sprintf("<dependency><groupId>g</groupId><artifactId>%s</artifactId><version>%s</version></dependency>", Pick(c, "a", "b", "c"), Pick(c, "1", "${v}", "2-${w}", "[1,2)"))
	}
	n := c.N(4)
	doc := "<project><properties><v>1.0</v><w>2.0</w><x>3</x></properties><dependencies>"
	for i := 0; i < n; i++ {
		doc += dep()
	}
	doc += "</dependencies><dependencyManagement><dependencies>"
	for i := 0; i < 3-n; i++ {
		doc += dep()
	}
	lfCheck(c, "pom.xml", doc+"</dependencies></dependencyManagement></project>", nil, set)
}

func c23Go(c *C) {
	doc := "module m\n\ngo 1.21\n"
	seen := map[string]bool{}
	for i := 0; i < 3; i++ {
		n, v := Pick(c, "example.com/a", "example.com/b", "example.com/c"), Pick(c, "v1.0.0", "v1.1.0")
		if seen[n+v] {
			c.Skip()
		}
		seen[n+v] = true
		doc += "require " + n + " " + v + "\n"
	}
	seen = map[string]bool{}
	for i := c.N(3); i > 0; i-- {
		l := Pick(c, "example.com/a", "example.com/a v1.0.0", "example.com/b", "example.com/c v1.1.0")
		if seen[l] {
			c.Skip()
		}
		seen[l] = true
		doc += "replace " + l + " => " + Pick(c, "example.com/x v2.0.0", "example.com/b v1.0.0", "./local") + "\n"
	}
	lfCheck(c, "go.mod", doc, nil, set)
}

func c23Nuget(c *C) {
	var fws []string
	for _, fw := range []string{"net6.0", "net7.0"} {
		var ps []string
		for _, n := range []string{"a", "A", "b"} {
			if k := c.N(3); k > 0 {
				ps = append(ps, fmt.Sprintf(`"%s":{"type":"Direct","resolved":"%d.0.0"}`, n, k))
			}
		}
		fws = append(fws, fmt.Sprintf(`"%s":{%s}`, fw, strings.Join(ps, ",")))
	}
	lfCheck(c, "packages.lock.json", `{"version":1,"dependencies":{`+strings.Join(fws, ",")+"}}", nil, set)
}

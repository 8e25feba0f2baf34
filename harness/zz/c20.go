package zzverif

import (
	"encoding/json"
	"fmt"
	"path/filepath"
	"slices"
	"strings"
)

func init() {
	for _, p := range []string{"C01", "C02", "C20"} {
		register(p, Family{Name: "cli-names", Run: cliNames})
	}
	register("C20", Family{Name: "configs-databases-flags", Run: c20}, Family{Name: "three-dirs", Run: c20Three}, Family{Name: "database-order", Run: c20Order}, Family{Name: "many", Run: c20Many}, Family{Name: "raw-results", Run: c20Raw}, Family{Name: "csv-ecosystems", Run: c20CSV}, Family{Name: "ecosystems", Run: c20Ecos})
}

// on is an advisory for one package, whatever the database it is in.
func on(id, eco, name string, aliases ...string) mAdv {
	return mAdv{id: id, aliases: aliases, summary: "about " + id, entries: []mEntry{{eco: eco, name: name, ranges: openRange()}}}
}

var c20All = [][2]string{{"npm", "p"}, {"PyPI", "r"}, {"crates.io", "k"}}

// everywhere makes one advisory per package of the world, so that using a
// database a lockfile should not be checked against always shows.
func everywhere(prefix string) []mAdv {
	var out []mAdv
	for _, x := range c20All {
		out = append(out, on(prefix+"-"+x[1], x[0], x[1]))
	}
	return out
}

const zipB = "https://dbs.test/b.zip"
const apiC = "https://other.test/v1"

func c20World() (*world, map[string]mDBRef) {
	w := newWorld()
	for _, e := range []string{"npm", "PyPI", "crates.io"} {
		w.ecoDB(e, append(everywhere("ECO-"+strings.ToUpper(e[:2])), on("GHSA-1", "npm", "p", "CVE-1"))...)
	}
	w.api(apiURL, append(everywhere("API"), on("API-1", "npm", "p", "CVE-1"))...)
	m := map[string]mDBRef{}
	m["A"] = w.dirDB("a", append(everywhere("A"), on("A-1", "npm", "p", "X-9"), on("A-2", "PyPI", "r", "X-8"))...)
	m["B"] = w.zipDB(zipB, append(everywhere("B"), on("B-1", "npm", "p", "X-9"), on("B-2", "PyPI", "r", "X-8"))...)
	s := w.sources[zipB]
	s.wds = map[string][]mAdv{"sub": append(everywhere("BS"), on("BS-1", "npm", "p", "X-9"))}
	// without a working directory everything in the archive is loaded
	s.advs = append(s.advs, s.wds["sub"]...)
	w.sources[zipB] = s
	m["Bs"] = mDBRef{url: zipB, wd: "sub"}
	m["Bn"] = mDBRef{url: zipB, name: "my B"}
	m["Bz"] = mDBRef{url: zipB, typ: "zip"}
	m["C"] = w.api(apiC, append(everywhere("C"), on("C-1", "npm", "p", "X-9"))...)
	m["bad"] = mDBRef{url: "nonsense", invalid: true}
	m["badtype"] = mDBRef{url: "https://x.test/y", typ: "file", invalid: true}
	m["gone"] = mDBRef{url: "file:/not/there"}
	return w, m
}

type c20Conf struct {
	name string
	put  func(w *world, m map[string]mDBRef, d string)
}

func cfg(name, ext string, ign []string, dbs ...string) c20Conf {
	return c20Conf{name, func(w *world, m map[string]mDBRef, d string) {
		cf := mConf{ignore: ign}
		for _, n := range dbs {
			cf.dbs = append(cf.dbs, m[n])
		}
		w.conf(d+"/.osv-detector."+ext, cf)
	}}
}

var c20Confs = []c20Conf{
	{"none", func(*world, map[string]mDBRef, string) {}},
	cfg("ignores", "yml", []string{"GHSA-1", "ECO-NP-p", "A-r"}),
	cfg("A", "yml", nil, "A"),
	cfg("B,A", "yml", nil, "B", "A"),
	cfg("A,B+ign", "yml", []string{"A-1", "B-1", "ECO-PY-r"}, "A", "B"),
	cfg("yaml A", "yaml", []string{"A-p"}, "A"),
	{"yml and yaml", func(w *world, m map[string]mDBRef, d string) {
		w.conf(d+"/.osv-detector.yml", mConf{dbs: []mDBRef{m["C"]}})
		w.conf(d+"/.osv-detector.yaml", mConf{dbs: []mDBRef{m["A"]}, ignore: []string{"C-1"}})
	}},
	{"broken", func(w *world, m map[string]mDBRef, d string) { w.conf(d+"/.osv-detector.yml", mConf{broken: true}) }},
	{"broken yml, good yaml", func(w *world, m map[string]mDBRef, d string) {
		w.conf(d+"/.osv-detector.yml", mConf{broken: true})
		w.conf(d+"/.osv-detector.yaml", mConf{dbs: []mDBRef{m["A"]}})
	}},
	{"good yml, broken yaml", func(w *world, m map[string]mDBRef, d string) {
		w.conf(d+"/.osv-detector.yml", mConf{dbs: []mDBRef{m["A"]}})
		w.conf(d+"/.osv-detector.yaml", mConf{broken: true})
	}},
	{"empty", func(w *world, m map[string]mDBRef, d string) {
		w.conf(d+"/.osv-detector.yml", mConf{})
		w.conf(d+"/.osv-detector.yaml", mConf{dbs: []mDBRef{m["A"]}})
	}},
	cfg("Bs,Bn,B,Bz", "yml", nil, "Bs", "Bn", "B", "Bz"),
	cfg("bad,A,badtype", "yml", nil, "bad", "A", "badtype"),
	cfg("C,Bs", "yml", nil, "C", "Bs"),
	cfg("gone,A", "yml", nil, "gone", "A"),
	{"directory instead of yml, good yaml", func(w *world, m map[string]mDBRef, d string) {
		w.files[d+"/.osv-detector.yml/"] = ""
		w.confs[filepath.Clean(d+"/.osv-detector.yml")] = mConf{broken: true}
		w.conf(d+"/.osv-detector.yaml", mConf{dbs: []mDBRef{m["A"]}})
	}},
}

func c20Lock(w *world, k int, d string) {
	p, r, k8 := pd("npm", "npm", "p", "1.0.0"), pd("PyPI", "PyPI", "r", "1.0"), pd("crates.io", "crates.io", "k", "1.0.0")
	switch k {
	case 0:
		w.lock(d+"/package-lock.json", p)
	case 1:
		w.lock(d+"/requirements.txt", r)
	case 2:
		w.lock(d+"/package-lock.json", p)
		w.lock(d+"/requirements.txt", r)
	case 3:
		w.lock(d + "/package-lock.json")
	case 4:
		w.badLock(d + "/package-lock.json")
		w.lock(d+"/requirements.txt", r)
	case 5:
		w.lock(d+"/Cargo.lock", k8)
	}
}

const c20FlagKinds = 14

func c20Flags(w *world, m map[string]mDBRef, k int) mFlags {
	f := mFlags{json: true}
	w.conf("g.yml", mConf{ignore: []string{"PYSEC-1", "B-p", "ECO-PY-r"}, dbs: []mDBRef{m["B"], m["A"]}})
	w.conf("gbroken.yml", mConf{broken: true})
	switch k {
	case 1:
		f.noConfig = true
	case 2:
		f.config = "g.yml"
	case 3:
		f.noConfigDbs = true
	case 4:
		f.noConfigIgnores = true
	case 5:
		f.useAPI = bptr(true)
	case 6:
		f.useDBs = bptr(false)
	case 7:
		f.useDBs, f.useAPI = bptr(false), bptr(true)
	case 8:
		f.config, f.noConfigDbs = "g.yml", true
	case 9:
		f.config, f.noConfig, f.useAPI = "g.yml", true, bptr(true)
	case 10:
		f.config = "gbroken.yml"
	case 11:
		f.config, f.noConfigIgnores, f.ignores = "g.yml", true, []string{"A-p"}
	case 12:
		f.noConfig, f.ignores = true, []string{"ECO-NP-p"}
	case 13:
		f.noConfigDbs, f.useAPI = true, bptr(true)
	}
	return f
}

func c20Check(c *C, w *world, f mFlags, args []string) {
	c.Leaf(w.key(f, args))
	w.setup()
	e := w.expect(f, args)
	r := cli(append(f.args(), args...)...)
	w.compareJSON(c, r, e)
	w.compareReqs(c, r, e)
	for _, q := range r.Reqs {
		if strings.HasPrefix(q.URL, apiURL) && (f.useAPI == nil || !*f.useAPI) {
			c.Fail("the osv.dev API was queried although it is not enabled\n  command: %s", strings.Join(r.Args, " "))
		}
	}
	c.Count(fmt.Sprintf("exit %d", e.code))
	n := 0
	for _, x := range e.results {
		for _, p := range x.pkgs {
			n += len(p.vulns) + len(p.ignord)
		}
	}
	if n > 0 {
		c.Nontrivial()
	}
	if !c.Thorough() {
		return
	}
	// the same lockfile alone
	if len(e.results) < 2 {
		return
	}
	for i, x := range e.results {
		w.setup()
		ra := cli(append(f.args(), x.path)...)
		ea := w.expect(f, []string{x.path})
		rep := w.compareJSON(c, ra, ea)
		full, _ := r.report()
		if js(rep.Results[0].Packages) != js(full.Results[i].Packages) {
			c.Fail("%s gives %s alone and %s together with others\n  command: %s", x.path, js(rep.Results[0].Packages), js(full.Results[i].Packages), strings.Join(r.Args, " "))
		}
	}
}

func c20(c *C) {
	w, m := c20World()
	k0 := c.N(len(c20Confs))
	k1 := c.N(len(c20Confs))
	c20Confs[k0].put(w, m, "d0")
	c20Confs[k1].put(w, m, "d1")
	c.Split()
	fk := c.N(c20FlagKinds)
	f := c20Flags(w, m, fk)
	c20Lock(w, Pick(c, 0, 2), "d0")
	c20Lock(w, c.N(c.Q(5, 6)), "d1")
	if fk == 0 && c.Bool() {
		// a config further up is nobody's config
		w.conf(".osv-detector.yml", mConf{ignore: []string{"GHSA-1", "ECO-NP-p", "ECO-PY-r"}, dbs: []mDBRef{m["C"]}})
	}
	args := Pick(c, []string{"d0", "d1"}, []string{"d1", "d0"})
	c20Check(c, w, f, args)
}

// c20CSV: packages of all kinds of ecosystems, with suffixes and without any, in one or two files.
func c20CSV(c *C) {
	w, m := c20World()
	menu := []mPkg{pd("npm", "npm", "p", "1.0.0"), pd("Debian:11", "Debian", "p", "1.0"), pd("Debian:12", "npm", "p", "1.0.0"), pd("Debian", "Debian", "q", "1.0"), pd("PyPI", "npm", "r", "1.0.0"), pd("Odd", "npm", "p", "1.0.0"), {Name: "g", Commit: sha1x}}
	for _, e := range []string{"Debian:11", "Debian:12", "Debian", "Odd"} {
		w.ecoDB(e, on("E-"+e, e, "p"), on("Q-"+e, e, "q"))
	}
	if c.Bool() {
		w.conf(".osv-detector.yml", mConf{dbs: []mDBRef{m["A"]}})
	}
	f := c20Flags(w, m, Pick(c, 0, 3, 5, 6, 7, 13))
	var args []string
	for i := 0; i < 2; i++ {
		d := []string{"", "d1/"}[i]
		var ps []mPkg
		for _, k := range c.Subset(len(menu), c.Q(2, 3)) {
			ps = append(ps, menu[k])
		}
		w.lock(d+"csv", ps...)
		args = append(args, "csv-file:"+d+"csv")
		if i == 0 {
			c.Split()
		}
	}
	c20Check(c, w, f, args)
}

// c20Ecos: one to many ecosystems in one file, of all kinds of names; each has its database.
func c20Ecos(c *C) {
	w, m := c20World()
	all := []string{"Red Hat", "GitHub Actions", "Rocky Linux:8", "npm", "PyPI", "Alpine:v3.18", "Debian:11", "Ubuntu:22.04:LTS", "Ubuntu:Pro:18.04:LTS", "Odd", "crates.io", "Go", "Maven", "RubyGems", "Packagist", "NuGet", "Hex", "Pub", "ConanCenter", "CRAN", "Bitnami", "SwiftURL", "Linux", "OSS-Fuzz", "GHC", "Hackage", "Wolfi", "Chainguard", "Mageia:9", "openSUSE:Leap 15.5", "SUSE:Linux Enterprise Server 15 SP5", "Android", "Photon OS:3.0", "npm2", "NPM"}
	n := Pick(c, 1, 2, 3, 7, 8, 9, 10, 11, 16, 17, 20, 32, 35)
	off := c.N(len(all))
	c.Split()
	step := 1
	if c.Thorough() && c.Bool() {
		step = 3
	}
	var ps []mPkg
	for i := 0; i < n; i++ {
		e := all[(off+i*step)%len(all)]
		if slices.ContainsFunc(ps, func(p mPkg) bool { return string(p.Ecosystem) == e }) {
			c.Skip()
		}
		ps = append(ps, pd(e, "npm", "p", fmt.Sprintf("1.%d.0", 10+i)), pd(e, "npm", fmt.Sprintf("o%d", i), "1.0.0"))
		w.ecoDB(e, on("E-"+e, e, "p"), on("Q-"+e, e, "q"))
	}
	w.lock("csv", ps...)
	c20Check(c, w, c20Flags(w, m, Pick(c, 0, 3, 13)), []string{"csv-file:csv"})
}

// cliNames: packages whose names have capitals, dots and other marks, through the whole program: the advisories are
// found by exactly the names that are theirs.
func cliNames(c *C) {
	w, m := c20World()
	menu := []mPkg{
		pd("npm", "npm", "JSONStream", "1.0.0"), pd("npm", "npm", "@S/P.q_r", "1.0.0"), pd("Go", "Go", "github.com/Azure/X", "1.0.0"), pd("Maven", "Maven", "Org.X:Art_y", "1.0"),
		pd("RubyGems", "RubyGems", "RedCloth", "1.0.0"), pd("NuGet", "NuGet", "Newtonsoft.Json", "1.0.0"), pd("PyPI", "PyPI", "Zope.Interface__x", "1.0.0"), pd("PyPI", "PyPI", "a-b", "1.0.0"),
		pd("Packagist", "Packagist", "Vendor/Pkg", "1.0.0"), pd("Debian:11", "Debian", "libX11.6", "1.0"), pd("CRAN", "CRAN", "R.oo", "1.0.0"), {Name: "Gx", Commit: sha1x}, pd("npm", "npm", "jsonstream", "1.0.0"), pd("npm", "npm", "ÉÀ", "1.0.0"),
	}
	var ps []mPkg
	for _, k := range c.Subset(len(menu), c.Q(2, 3)) {
		ps = append(ps, menu[k])
	}
	if len(ps) == 0 {
		c.Skip()
	}
	var all []mAdv
	for i, p := range menu {
		e := string(p.Ecosystem)
		all = append(all, on(fmt.Sprintf("E-%d", i), e, p.Name), on(fmt.Sprintf("L-%d", i), e, strings.ToLower(p.Name)), on(fmt.Sprintf("U-%d", i), e, strings.ToUpper(p.Name)),
			on(fmt.Sprintf("M-%d", i), e, strings.NewReplacer(".", "-", "_", ".").Replace(p.Name)))
	}
	c.Split()
	kind := Pick(c, "eco", "dir", "zip", "dir+api")
	f := c20Flags(w, m, 0)
	for _, p := range menu {
		if e := string(p.Ecosystem); e != "" {
			var of []mAdv
			for _, a := range all {
				if kind == "eco" && strings.Split(a.entries[0].eco, ":")[0] == strings.Split(e, ":")[0] {
					of = append(of, a)
				}
			}
			w.ecoDB(e, of...)
		}
	}
	switch kind {
	case "dir":
		w.conf(".osv-detector.yml", mConf{dbs: []mDBRef{w.dirDB("names", all...)}})
	case "zip":
		w.conf(".osv-detector.yml", mConf{dbs: []mDBRef{w.zipDB("https://names.test/all.zip", all...)}})
	case "dir+api":
		w.conf(".osv-detector.yml", mConf{dbs: []mDBRef{w.dirDB("names", all...)}})
		w.api(apiURL, all...)
		f.useAPI = bptr(true)
	}
	w.lock("csv", ps...)
	c20Check(c, w, f, []string{"csv-file:csv"})
}

// c20Three: three directories, so that leaks past the neighbour show too.
func c20Three(c *C) {
	w, m := c20World()
	confs := []int{0, 1, 2, 4, 7, 10}
	for i := 0; i < 3; i++ {
		c20Confs[confs[c.N(len(confs))]].put(w, m, fmt.Sprintf("d%d", i))
	}
	c.Split()
	ls := Pick(c, []int{0, 1, 5}, []int{0, 0, 0}, []int{1, 0, 4}, []int{2, 5, 0})
	for i, k := range ls {
		c20Lock(w, k, fmt.Sprintf("d%d", i))
	}
	f := c20Flags(w, m, Pick(c, 0, 1, 2, 3, 4, 9))
	args := Pick(c, []string{"d0", "d1", "d2"}, []string{"d2", "d0", "d1"}, []string{"d0", "d1", "d0"})
	c20Check(c, w, f, args)
}

// c20Order: which database comes first for a lockfile is decided by its own config.
func c20Order(c *C) {
	w, m := c20World()
	names := []string{"A", "B", "Bs", "C"}
	for i := 0; i < 2; i++ {
		cf := mConf{}
		n := c.N(4)
		seen := map[int]bool{}
		for j := 0; j < n; j++ {
			k := c.N(len(names))
			if seen[k] {
				c.Skip()
			}
			seen[k] = true
			cf.dbs = append(cf.dbs, m[names[k]])
		}
		w.conf(fmt.Sprintf("d%d/.osv-detector.yml", i), cf)
	}
	c.Split()
	w.lock("d0/package-lock.json", pd("npm", "npm", "p", "1.0.0"))
	c20Lock(w, c.N(2), "d1")
	f := mFlags{json: true}
	if c.Bool() {
		f.useAPI = bptr(true)
	}
	c20Check(c, w, f, Pick(c, []string{"d0", "d1"}, []string{"d1", "d0"}))
}

// c20Many: many lockfiles in one run.
func c20Many(c *C) {
	w, m := c20World()
	n := Pick(c, 5, 9, 17)
	stride := 1 + c.N(4)
	var args []string
	for i := 0; i < n; i++ {
		d := fmt.Sprintf("d%02d", i)
		c20Confs[(i*stride)%7].put(w, m, d)
		c20Lock(w, []int{0, 1, 5, 2, 3, 4}[(i/stride)%6], d)
		args = append(args, d)
	}
	f := c20Flags(w, m, c.N(c20FlagKinds))
	if c.Bool() {
		for i, j := 0, len(args)-1; i < j; i, j = i+1, j-1 {
			args[i], args[j] = args[j], args[i]
		}
	}
	c20Check(c, w, f, args)
}

// c20Raw: the whole of what is printed for a lockfile is the same alone and among others, in every order,
// also when the others ask the same advisories about the same packages under other version orderings.
func c20Raw(c *C) {
	type in struct{ path, text string }
	menu := []in{
		{"a/package-lock.json", lockText("package-lock.json", []mPkg{pd("npm", "npm", "p", "1.0.0")})},
		{"b/yarn.lock", lockText("yarn.lock", []mPkg{pd("npm", "npm", "p", "1.0.0-1"), pd("npm", "npm", "q", "2.0.0")})},
		{"c/one.csv", "npm,PyPI,p,1.0.0\n"},
		{"d/two.csv", "npm,Maven,p,1.0.0-1\nnpm,,q,1.0.0\n"},
		{"e/three.csv", "npm,Debian,p,1.0.0-1\nPyPI,npm,r,1.0.0\n"},
		{"f/requirements.txt", "r==1.0.0.post1\np==1.0.0\n"},
		{"g/four.csv", "PyPI,RubyGems,r,1.0.0-1\nnpm,npm,p,3.0.0\n"},
	}
	mk := func(id, eco, name string, evs ...mEvent) mAdv {
		return mAdv{id: id, aliases: []string{"CVE-" + id}, summary: "s", entries: []mEntry{{eco: eco, name: name, versions: []string{"3.0.0", "1.0.0"}, ranges: []mRange{{"ECOSYSTEM", evs}}}}}
	}
	evs := [][]mEvent{
		{{"fixed", "2.0.0"}, {"introduced", "0"}},
		{{"fixed", "1.0.0-1"}, {"introduced", "0.5.0"}, {"introduced", "1.0.0"}},
		{{"introduced", "1.0.0"}, {"fixed", "1.0.0-1"}, {"introduced", "0"}},
		{{"last_affected", "1.0.0"}, {"introduced", "1.0.0-1"}, {"fixed", "4.0.0"}, {"introduced", "1.0.0"}},
	}
	e := evs[c.N(len(evs))]
	var dbs Files = Files{
		"db/1.json": mk("N-1", "npm", "p", e...).json(),
		"db/2.json": mk("N-2", "npm", "q", e...).json(),
		"db/3.json": mk("P-1", "PyPI", "r", e...).json(),
		"c.yml":     "ignore: [N-2]\nextra-databases:\n  - url: file:/db\n",
	}
	n := 2 + c.N(c.Q(2, 3))
	var picked []in
	used := map[int]bool{}
	for i := 0; i < n; i++ {
		k := c.N(len(menu))
		if used[k] {
			c.Skip()
		}
		used[k] = true
		picked = append(picked, menu[k])
		if i == 0 {
			c.Split()
		}
	}
	arg := func(x in) string {
		if strings.HasSuffix(x.path, ".csv") {
			return "csv-file:" + x.path
		}
		return x.path
	}
	args := []string{"--json", "--use-dbs=false", "--config", "c.yml"}
	all := args
	for _, x := range picked {
		all = append(all[:len(all):len(all)], arg(x))
	}
	c.Leaf(fmt.Sprint(e, all))
	d := caseDir()
	dbs.write(d)
	for _, x := range picked {
		Files{x.path: x.text}.write(d)
	}
	net.reset(nil)
	raw := func(a []string) (Run, []json.RawMessage) {
		r := cli(a...)
		var v struct{ Results []json.RawMessage }
		if err := json.Unmarshal([]byte(r.Out), &v); err != nil {
			c.Fail("%v: %s", err, r)
		}
		return r, v.Results
	}
	r, together := raw(all)
	if len(together) != n {
		c.Fail("%d results for %d lockfiles\n%s", len(together), n, r)
	}
	for i, x := range picked {
		_, alone := raw(append(args[:len(args):len(args)], arg(x)))
		if len(alone) != 1 || string(alone[0]) != string(together[i]) {
			c.Fail("%s gives alone\n%s\nand among others\n%s\n  command: %s", x.path, alone, together[i], strings.Join(all, " "))
		}
	}
	c.Nontrivial()
}

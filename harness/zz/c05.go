package zzverif

import (
	"fmt"
	"strings"
)

func init() {
	register("C05", Family{Name: "inputs", Run: c05Inputs}, Family{Name: "databases", Run: c05DBs})
	register("C22", Family{Name: "both-modes", Run: c22Both}, Family{Name: "early-exits", Run: c22Early}, Family{Name: "findings", Run: c22Findings}, Family{Name: "shared-findings", Run: c22Shared}, Family{Name: "numbers", Run: c22Numbers})
}

var inputKinds = []string{"clean", "vulnerable", "ignored", "malformed", "missing", "empty-dir", "dir-mixed", "dir-malformed", "unknown-name", "broken-config", "invalid-db", "pypi-vulnerable", "no-packages", "missing-dir-db", "vulnerable-extra-db", "dir-with-subdir"}

// addInput puts one kind of input into its own directory and returns the argument for it.
func addInput(w *world, k int, d string) string {
	p, s := pd("npm", "npm", "p", "1.0.0"), pd("npm", "npm", "s", "1.0.0")
	l := d + "/package-lock.json"
	switch inputKinds[k] {
	case "clean":
		w.lock(l, s)
		return l
	case "vulnerable":
		w.lock(l, p, s)
		return l
	case "ignored":
		w.lock(l, p)
		w.conf(d+"/.osv-detector.yml", mConf{ignore: []string{"GHSA-1"}})
		return l
	case "malformed":
		w.badLock(l)
		return l
	case "missing":
		return d + "/nope/package-lock.json"
	case "empty-dir":
		w.dir(d)
		return d
	case "dir-mixed":
		w.lock(l, p)
		w.lock(d+"/requirements.txt", pd("PyPI", "PyPI", "z", "1.0"))
		return d
	case "dir-malformed":
		w.badLock(l)
		w.lock(d+"/requirements.txt", pd("PyPI", "PyPI", "z", "1.0"))
		return d + "/"
	case "unknown-name":
		w.files[d+"/what.txt"] = "hello\n"
		w.dirs[d] = true
		return d + "/what.txt"
	case "broken-config":
		w.lock(l, p)
		w.conf(d+"/.osv-detector.yml", mConf{broken: true})
		return l
	case "invalid-db":
		w.lock(l, s)
		w.conf(d+"/.osv-detector.yml", mConf{dbs: []mDBRef{{url: "nonsense", invalid: true}}})
		return l
	case "pypi-vulnerable":
		w.lock(d+"/requirements.txt", pd("PyPI", "PyPI", "r", "1.0"))
		return d + "/requirements.txt"
	case "no-packages":
		w.lock(l)
		return l
	case "missing-dir-db":
		w.lock(l, s)
		w.conf(d+"/.osv-detector.yml", mConf{dbs: []mDBRef{{url: "file:/not/there"}}})
		return l
	case "vulnerable-extra-db":
		w.lock(l, s)
		w.conf(d+"/.osv-detector.yml", mConf{dbs: []mDBRef{w.dirDB("x", mAdv{id: "X-1", entries: []mEntry{{eco: "npm", name: "s", ranges: openRange()}}})}})
		return l
	case "dir-with-subdir":
		w.lock(d+"/sub/package-lock.json", p)
		w.files[d+"/readme.md"] = "x"
		w.dir(d)
		return d
	}
	panic("kind")
}

func baseDBs(w *world) {
	w.ecoDB("npm", npmAdv("GHSA-1", "CVE-1"))
	w.ecoDB("PyPI", mAdv{id: "PYSEC-1", summary: "py", entries: []mEntry{{eco: "PyPI", name: "r", ranges: openRange()}}})
	w.api(apiURL, npmAdv("GHSA-1", "CVE-1"), npmAdv("API-1"))
}

func c05Inputs(c *C) {
	w := newWorld()
	baseDBs(w)
	n := c.N(4)
	var args []string
	for i := 0; i < n; i++ {
		args = append(args, addInput(w, c.N(len(inputKinds)), fmt.Sprintf("d%d", i)))
		if i == 1 {
			c.Split()
		}
	}
	f := mFlags{json: true}
	if n < 3 || c.Thorough() {
		switch c.N(7) {
		case 1:
			f.noConfig = true
		case 2:
			f.noConfigIgnores, f.noConfigDbs = true, true
		case 3:
			f.useAPI = bptr(true)
		case 4:
			f.offline = true
		case 5:
			f.useDBs, f.useAPI = bptr(false), bptr(true)
		case 6:
			f.useDBs = bptr(false)
		}
	} else {
		f.useAPI = bptr(c.Bool())
	}
	c05Check(c, w, f, args)
}

func c05Check(c *C, w *world, f mFlags, args []string) {
	c.Leaf(w.key(f, args))
	w.setup()
	e := w.expect(f, args)
	r := cli(append(f.args(), args...)...)
	w.compareJSON(c, r, e)
	if e.problem && strings.TrimSpace(r.Err) == "" {
		c.Fail("something failed to load but standard error is empty\n  command: %s", strings.Join(r.Args, " "))
	}
	c.Count(fmt.Sprintf("exit %d", e.code))
	if e.code != 0 {
		c.Nontrivial()
	}
}

// c05DBs: every outcome of every database with inputs that need one, both or none of them.
func c05DBs(c *C) {
	w := newWorld()
	baseDBs(w)
	hows := []string{"", "500", "conn", "404", "garbage", "empty", "cut", "401", "304"}
	for _, u := range []string{fmt.Sprintf(ecoURL, "npm"), fmt.Sprintf(ecoURL, "PyPI"), apiURL} {
		s := w.sources[u]
		k := 0
		if u == apiURL {
			k = c.N(c.Q(6, len(hows)))
		} else {
			k = c.N(len(hows))
		}
		if k > 0 {
			s.fail, s.how = true, hows[k]
		}
		w.sources[u] = s
	}
	var args []string
	in := Pick(c, []int{0}, []int{1}, []int{11}, []int{0, 1}, []int{1, 11}, []int{11, 0}, []int{2, 11}, []int{3, 1}, []int{6}, []int{12}, []int{14, 13})
	for i, k := range in {
		args = append(args, addInput(w, k, fmt.Sprintf("d%d", i)))
	}
	f := mFlags{json: true}
	switch c.N(5) {
	case 1:
		f.useAPI = bptr(true)
	case 2:
		f.useAPI, f.useDBs = bptr(true), bptr(false)
	case 3:
		f.noConfigDbs = true
	case 4: // an API cannot be used offline
		for _, s := range w.sources {
			if s.fail {
				c.Skip()
			}
		}
		f.offline = true
		f.useAPI = Pick(c, bptr(true), nil)
		f.useDBs = Pick(c, bptr(false), nil)
	}
	c05Check(c, w, f, args)
}

// ---- C22 -----------------------------------------------------------------------------

func bothModes(c *C, w *world, f mFlags, args []string) mExpect {
	c.Leaf(w.key(f, args))
	w.setup()
	e := w.expect(f, args)
	f.json = true
	r1 := cli(append(f.args(), args...)...)
	w.compareJSON(c, r1, e)
	// text mode prints the same; a fresh world so that caches play no part
	w.setup()
	f.json = false
	r2 := cli(append(f.args(), args...)...)
	w.compareText(c, r2, e, f.list)
	if r1.Code != r2.Code {
		c.Fail("exit codes differ: %d with --json, %d without", r1.Code, r2.Code)
	}
	if (strings.TrimSpace(r2.Err) != "") != e.problem {
		c.Fail("standard error in text mode is %q, problems expected: %v\n  command: %s", r2.Err, e.problem, strings.Join(r2.Args, " "))
	}
	if strings.Contains(r2.Out, `{"results"`) {
		c.Fail("text mode printed JSON")
	}
	return e
}

func c22Both(c *C) {
	w := newWorld()
	baseDBs(w)
	n := c.N(c.Q(3, 4))
	var args []string
	for i := 0; i < n; i++ {
		args = append(args, addInput(w, c.N(len(inputKinds)), fmt.Sprintf("d%d", i)))
	}
	f := mFlags{}
	switch c.N(5) {
	case 1:
		f.list = true
	case 2:
		f.useAPI = bptr(true)
	case 3:
		f.offline = true
	case 4:
		u := fmt.Sprintf(ecoURL, "npm")
		s := w.sources[u]
		s.fail, s.how = true, Pick(c, "500", "garbage")
		w.sources[u] = s
	}
	e := bothModes(c, w, f, args)
	c.Count(fmt.Sprintf("exit %d", e.code))
	if len(e.results) > 0 {
		c.Nontrivial()
	}
}

// c22Findings: numbers of findings and ignored findings over several packages.
func c22Findings(c *C) {
	w := newWorld()
	n := 1 + c.N(3)
	var pkgs []mPkg
	var advs []mAdv
	var ign []string
	texts := []struct{ s, d string }{
		{"a summary", "x"}, {"", "details of: several words"}, {"", ""}, {"sum: with colon (and parens)", ""},
		{"", strings.Repeat("long words ", 20)}, {"", strings.Repeat("x", 200)}, {"100% %s %d", ""}, {"", "first line\n\nsecond {\"results\": line"},
	}
	k := 0
	for i := 0; i < n; i++ {
		name := fmt.Sprintf("p%d", i)
		pkgs = append(pkgs, pd("npm", "npm", name, "1.0.0"))
		for j := c.N(3); j > 0; j-- {
			id := fmt.Sprintf("%s-%d", Pick(c, "GHSA", "OSV"), k)
			t := texts[(k*3+c.N(c.Q(2, 8)))%len(texts)]
			advs = append(advs, mAdv{id: id, summary: t.s, entries: []mEntry{{eco: "npm", name: name, ranges: openRange()}}})
			if t.d != "" && t.s == "" {
				advs[len(advs)-1].summary = ""
			}
			if c.Bool() {
				ign = append(ign, id)
			}
			k++
		}
		if i == 0 {
			c.Split()
		}
	}
	w.lock("package-lock.json", pkgs...)
	w.ecoDB("npm", advs...)
	f := mFlags{ignores: ign}
	e := bothModes(c, w, f, []string{"package-lock.json"})
	c.Count(fmt.Sprintf("exit %d", e.code))
	if k > 0 {
		c.Nontrivial()
	}
}

// c22Numbers: every number of findings and ignored ones over every number of packages, with names, paths
// and texts that mean something to printf, to JSON and to terminals.
func c22Numbers(c *C) {
	w := newWorld()
	np := 1 + c.N(5)
	n := c.N(c.Q(7, 12))
	ig := c.N(n + 1)
	first := c.Bool() // the ignored ones come first
	dir := Pick(c, "d", "50%", "%s", "a\"b", "{}")
	text := Pick(c, "plain", "ends with 100%", "%s %d %v %!", "quote\" and \\", "<&>\u2028", "tab\tand \x1b[31m")
	var pkgs []mPkg
	for i := 0; i < np; i++ {
		pkgs = append(pkgs, pd("npm", "npm", fmt.Sprintf("p%d%%d", i), "1.0.0"))
	}
	var advs []mAdv
	f := mFlags{}
	for i := 0; i < n; i++ {
		id := fmt.Sprintf("ID-%d-%%", i)
		advs = append(advs, mAdv{id: id, summary: text, entries: []mEntry{{eco: "npm", name: pkgs[i%np].Name, ranges: openRange()}}})
		if first && i < ig || !first && i >= n-ig {
			f.ignores = append(f.ignores, id)
		}
	}
	w.lock(dir+"/package-lock.json", pkgs...)
	w.ecoDB("npm", advs...)
	e := bothModes(c, w, f, []string{dir + "/package-lock.json"})
	c.Count(fmt.Sprintf("exit %d", e.code))
	c.Nontrivial()
}

// c22Early: --json is one valid document however early the run ends.
func c22Early(c *C) {
	w := newWorld()
	baseDBs(w)
	w.lock("a/package-lock.json", pd("npm", "npm", "p", "1.0.0"))
	w.conf("bad.yml", mConf{broken: true})
	w.conf("good.yml", mConf{ignore: []string{"GHSA-1"}})
	w.dir("empty")
	args := Pick(c,
		[]string{"--json"}, []string{"--version", "--json"}, []string{"--list-ecosystems", "--json"},
		[]string{"--json", "--parse-as", "nope", "a"}, []string{"--json", "nope"}, []string{"--json", "empty"},
		[]string{"--json", "--config", "bad.yml", "a"}, []string{"--json", "--config", "missing.yml", "a"}, []string{"--json", "--config", "good.yml", "a"},
		[]string{"--json", "--list-packages", "empty", "nope"}, []string{"--json", "--list-packages", "--version"}, []string{"--json", "--parse-as", "csv-row", "npm,,p,1.0.0"},
		[]string{"--json", "--parse-as", "csv-row", "bad"}, []string{"--json", "--parse-as", "csv-row"})
	c.Leaf(strings.Join(args, " "))
	w.setup()
	r := cli(args...)
	if _, err := r.report(); err != nil {
		c.Fail("%v\n  command: %s\n  stdout: %q", err, strings.Join(args, " "), r.Out)
	}
	var plain []string
	for _, a := range args {
		if a != "--json" {
			plain = append(plain, a)
		}
	}
	r2 := cli(plain...)
	if r.Code != r2.Code {
		c.Fail("exit codes differ: %d with --json, %d without (%s)", r.Code, r2.Code, strings.Join(plain, " "))
	}
	c.Count(fmt.Sprintf("exit %d", r.Code))
	c.Nontrivial()
}

// c22Shared: advisories that affect any of the packages, in one or two lockfiles, one of them ignored.
func c22Shared(c *C) {
	np := 1 + c.N(3)
	na := 1 + c.N(c.Q(3, 4))
	w := newWorld()
	var pkgs []mPkg
	for i := 0; i < np; i++ {
		pkgs = append(pkgs, pd("npm", "npm", fmt.Sprintf("p%d", i), "1.0.0"))
	}
	var advs []mAdv
	for k := 0; k < na; k++ {
		a := mAdv{id: fmt.Sprintf("GHSA-%d", k), summary: "s"}
		for i := 0; i < np; i++ {
			if c.Bool() {
				a.entries = append(a.entries, mEntry{eco: "npm", name: pkgs[i].Name, ranges: openRange()})
			}
		}
		advs = append(advs, a)
		if k == 0 {
			c.Split()
		}
	}
	args := []string{"a"}
	w.lock("a/package-lock.json", pkgs...)
	if c.Bool() {
		w.lock("b/yarn.lock", pkgs[:1]...)
		args = append(args, "b")
	}
	w.ecoDB("npm", advs...)
	f := mFlags{}
	if k := c.N(na + 1); k > 0 {
		f.ignores = []string{fmt.Sprintf("GHSA-%d", k-1)}
	}
	e := bothModes(c, w, f, args)
	c.Count(fmt.Sprintf("exit %d", e.code))
	if e.code == 1 {
		c.Nontrivial()
	}
}

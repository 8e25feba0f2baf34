package zzverif

import (
	"fmt"
	"path/filepath"
	"slices"
	"strings"
)

func init() {
	register("C25", Family{Name: "formats", Run: c25Formats}, Family{Name: "packages", Run: c25Packages}, Family{Name: "inputs", Run: c25Inputs})
	register("C26", Family{Name: "inputs", Run: c26Inputs}, Family{Name: "databases", Run: c26DBs})
}

// deaf is a network on which every request fails.
func deaf(*Req) Resp { return Resp{Err: errNet} }

// listArgs: flags that make no difference when listing.
var listFlags = [][]string{
	{}, {"--offline"}, {"--use-api"}, {"--use-dbs=false"}, {"--use-api", "--use-dbs=false", "--batch-size", "1"}, {"--config", "missing.yml"}, {"--config", "broken.yml"},
	{"--no-config"}, {"--update-config-ignores"}, {"--update-config-ignores", "--config", "ok.yml"}, {"--no-config-ignores", "--no-config-databases"}, {"--ignore", "X"},
}

// c25Check lists the packages of the inputs in both modes and compares with what
// is expected; nothing may be written, no request made.
func c25Check(c *C, w *world, flags, args []string, e mExpect) {
	d := w.setup()
	must(removeTmp())
	net.reset(deaf)
	before := readTree(d).key()
	check := func(r Run) {
		if len(r.Reqs) > 0 {
			c.Fail("listing packages made requests: %v\n  command: %s", r.urls(), strings.Join(r.Args, " "))
		}
		if after := readTree(d).key(); after != before {
			c.Fail("listing packages changed files\n  command: %s\n  before:\n%s\n  after:\n%s", strings.Join(r.Args, " "), before, after)
		}
		if t := readTree(tmpDir()); len(t) > 0 {
			c.Fail("listing packages wrote %v\n  command: %s", sortedKeys(t), strings.Join(r.Args, " "))
		}
	}
	r := cli(append(append([]string{"--list-packages", "--json"}, flags...), args...)...)
	w.compareJSON(c, r, e)
	check(r)
	r = cli(append(append([]string{"--list-packages"}, flags...), args...)...)
	w.compareText(c, r, e, true)
	check(r)
}

func listWorld() *world {
	w := newWorld()
	baseDBs(w)
	w.files["broken.yml"] = confText(mConf{broken: true})
	w.files["ok.yml"] = "ignore:\n  - OLD\n"
	return w
}

// c25Formats: every format, one or two lockfiles, compared with what a scan reports.
func c25Formats(c *C) {
	w := listWorld()
	n := 1 + c.N(2)
	var args []string
	var e mExpect
	for i := 0; i < n; i++ {
		k := c.N(len(formats) + 1)
		dir := fmt.Sprintf("d%d", i)
		var r mResult
		if k == len(formats) {
			doc, pkgs := csvSample(i)
			w.files[dir+"/x.csv"] = doc
			r = mResult{path: dir + "/x.csv", parsedAs: "csv-file"}
			for _, p := range pkgs {
				r.pkgs = append(r.pkgs, mFinding{pkg: p})
			}
			args = append(args, "csv-file:"+r.path)
		} else {
			f := formats[k]
			w.files[dir+"/"+f.name] = f.doc(i)
			r = mResult{path: dir + "/" + f.name, parsedAs: f.name}
			for _, p := range f.want(i) {
				r.pkgs = append(r.pkgs, mFinding{pkg: p})
			}
			args = append(args, r.path)
		}
		e.results = append(e.results, r)
	}
	broken := c.Bool()
	if broken {
		w.files["d0/.osv-detector.yml"] = confText(mConf{broken: true})
	}
	var flags []string
	if n == 1 || c.Thorough() {
		flags = listFlags[c.N(len(listFlags))]
	}
	c.Leaf(w.files.key() + fmt.Sprint(flags, args))
	c25Check(c, w, flags, args, e)
	// the same packages are what is scanned
	if !broken {
		r := cli(append([]string{"--json", "--use-dbs=false"}, args...)...)
		w.compareJSON(c, r, e)
	}
	c.Nontrivial()
}

// c25Packages: packages with and without versions, commits and ecosystems.
func c25Packages(c *C) {
	w := listWorld()
	ecos := []string{"npm", "PyPI", "", "Debian:11", "Other Thing"}
	names := []string{"p", "@s/p", "g:a", "p q", "100%d", "é"}
	vers := []string{"1.0.0", "", "v2 (x)", "%s"}
	n := 1 + c.N(c.Q(2, 3))
	var pkgs []mPkg
	for i := 0; i < n; i++ {
		p := mPkg{Name: names[c.N(len(names))]}
		v := vers[c.N(len(vers))]
		ec := ecos[c.N(len(ecos))]
		if ec == "" {
			if v == "" {
				c.Skip()
			}
			p.Commit = v
		} else {
			p = pd(ec, ec, p.Name, v)
		}
		if slices.Contains(pkgs, p) || slices.ContainsFunc(pkgs, func(o mPkg) bool { return o.Name == p.Name && o.Version == p.Version }) {
			c.Skip()
		}
		pkgs = append(pkgs, p)
	}
	var b strings.Builder
	var rows []string
	for _, p := range pkgs {
		row := fmt.Sprintf("%s,,%s,%s", p.Ecosystem, p.Name, p.Version+p.Commit)
		rows = append(rows, row)
		b.WriteString(row + "\n")
	}
	r := mResult{path: "x.csv", parsedAs: "csv-file"}
	for _, p := range sortPkgs(pkgs) {
		r.pkgs = append(r.pkgs, mFinding{pkg: p})
	}
	var flags, args []string
	if c.Bool() {
		r.path, r.parsedAs = "-", "csv-row"
		flags, args = []string{"--parse-as", "csv-row"}, rows
	} else {
		w.files["x.csv"] = b.String()
		args = []string{"csv-file:x.csv"}
	}
	c.Leaf(fmt.Sprintf("%v %q", flags, rows))
	c25Check(c, w, flags, args, mExpect{results: []mResult{r}})
	c.Nontrivial()
}

// c25Inputs: inputs of every kind, good or not, with every flag that makes no difference.
func c25Inputs(c *C) {
	w := listWorld()
	n := c.N(c.Q(3, 4))
	var args []string
	for i := 0; i < n; i++ {
		args = append(args, addInput(w, c.N(len(inputKinds)), fmt.Sprintf("d%d", i)))
	}
	flags := listFlags[c.N(len(listFlags))]
	f := mFlags{list: true}
	e := w.expect(f, args)
	c.Leaf(w.files.key() + fmt.Sprint(flags, args))
	c25Check(c, w, flags, args, e)
	c.Count(fmt.Sprintf("exit %d", e.code))
	if len(e.results) > 0 {
		c.Nontrivial()
	}
}

// ---- C26 -------------------------------------------------------------------------

// c26Check scans twice (the second time with what the first left in the cache): the
// files of the world are as before, only archives that were fetched are cached, and
// only the databases in effect are asked.
func c26Check(c *C, w *world, f mFlags, args []string, allowed []string, caches int) {
	d := w.setup()
	must(removeTmp())
	before := readTree(d).key()
	for i := 0; i < 2; i++ {
		r := cli(append(f.args(), args...)...)
		if after := readTree(d).key(); after != before {
			c.Fail("the scan changed files\n  command: %s\n  before:\n%s\n  after:\n%s", strings.Join(r.Args, " "), before, after)
		}
		for _, x := range r.Reqs {
			ok := false
			for _, u := range allowed {
				ok = ok || x.URL == u || strings.HasPrefix(x.URL, u+"/") && !strings.HasSuffix(u, ".zip")
			}
			if !ok {
				c.Fail("request to %s %s, which none of the lockfiles is checked against (%v)\n  command: %s", x.Method, x.URL, allowed, strings.Join(r.Args, " "))
			}
		}
		t := readTree(tmpDir())
		n := 0
		for _, k := range sortedKeys(t) {
			if !strings.HasSuffix(k, "/") {
				n++
			}
		}
		if n > caches {
			c.Fail("%d files left in the temporary directory, expected at most the cached copies of %d archives: %v\n  command: %s", n, caches, sortedKeys(t), strings.Join(r.Args, " "))
		}
		if f.offline && len(r.Reqs) > 0 {
			c.Fail("requests were made although --offline is set: %v", r.urls())
		}
	}
}

// dbsInEffect: the addresses that a run may ask, and how many archives it may cache.
func dbsInEffect(w *world, f mFlags, args []string) (urls []string, caches int) {
	e := w.expect(f, args)
	for _, u := range sortedKeys(e.zipGets) {
		urls = append(urls, u)
		caches++
	}
	if f.offline || f.list || e.stopped {
		return nil, 0
	}
	if f.useAPI != nil && *f.useAPI {
		urls = append(urls, apiURL)
	}
	if !f.noConfigDbs && !f.noConfig {
		for _, p := range sortedKeys(w.confs) {
			for _, d := range w.confs[p].dbs {
				if d.inferred() == "api" && !d.invalid {
					urls = append(urls, d.url)
				}
			}
		}
	}
	return urls, caches
}

func scanFlags(c *C) mFlags {
	f := mFlags{json: c.Bool()}
	switch c.N(9) {
	case 1:
		f.noConfig = true
	case 2:
		f.noConfigIgnores = true
	case 3:
		f.useAPI = bptr(true)
	case 4:
		f.offline = true
	case 5:
		f.useDBs, f.useAPI = bptr(false), bptr(true)
	case 6:
		f.useDBs = bptr(false)
	case 7:
		f.list = true
	case 8:
		f.noConfigDbs = true
	}
	return f
}

func c26Inputs(c *C) {
	w := newWorld()
	baseDBs(w)
	n := c.N(c.Q(3, 4))
	var args []string
	for i := 0; i < n; i++ {
		args = append(args, addInput(w, c.N(len(inputKinds)), fmt.Sprintf("d%d", i)))
	}
	f := scanFlags(c)
	if c.Bool() {
		f.ignores = []string{"GHSA-1"}
	}
	c.Leaf(w.key(f, args))
	u, k := dbsInEffect(w, f, args)
	c26Check(c, w, f, args, u, k)
	if len(u) > 0 {
		c.Nontrivial()
	}
}

// c26DBs: databases of every kind, working or failing, in configs that are or are not used.
func c26DBs(c *C) {
	w := newWorld()
	baseDBs(w)
	fails := []string{"", "cut", "garbage", "conn", "500"}
	zip := "https://x.test/extra.zip"
	w.zipDB(zip, npmAdv("Z-1"))
	w.api("https://api2.test/v1", npmAdv("B-1"))
	s := w.sources[zip]
	if k := c.N(c.Q(3, len(fails))); k > 0 {
		s.fail, s.how = true, fails[k]
	}
	w.sources[zip] = s
	npm := fmt.Sprintf(ecoURL, "npm")
	s = w.sources[npm]
	if k := c.N(c.Q(3, len(fails))); k > 0 {
		s.fail, s.how = true, fails[k]
	}
	w.sources[npm] = s
	dbs := []mDBRef{{url: zip}, {url: "https://api2.test/v1"}, w.dirDB("x", npmAdv("D-1")), {url: zip, wd: "sub"}, {url: "file:/not/there"}}
	pick := func() (out []mDBRef) {
		for _, i := range c.Subset(len(dbs), 2) {
			out = append(out, dbs[i])
		}
		return out
	}
	w.lock("a/package-lock.json", pd("npm", "npm", "p", "1.0.0"))
	w.lock("b/requirements.txt", pd("PyPI", "PyPI", "r", "1.0"))
	bad := c.Bool()
	if bad {
		w.badLock("a/package-lock.json")
	}
	w.conf("a/.osv-detector.yml", mConf{dbs: pick()})
	cb := mConf{dbs: pick()}
	if c.Bool() {
		w.conf("b/.osv-detector.yml", cb)
	}
	args := Pick(c, []string{"a"}, []string{"b"}, []string{"a", "b"})
	f := scanFlags(c)
	f.json = false
	// only the configs beside lockfiles that are checked count
	v := *w
	v.confs = map[string]mConf{}
	for p, cf := range w.confs {
		if slices.Contains(args, filepath.Dir(p)) && !(bad && filepath.Dir(p) == "a") {
			v.confs[p] = cf
		}
	}
	c.Leaf(w.key(f, args))
	u, k := dbsInEffect(&v, f, args)
	c26Check(c, w, f, args, u, k)
	if len(u) > 0 {
		c.Nontrivial()
	}
}

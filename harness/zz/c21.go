package zzverif

import (
	"fmt"
	"os"
	"path/filepath"
	"slices"
	"strings"

	"gopkg.in/yaml.v3"
)

func init() {
	register("C21", Family{Name: "single-update", Run: c21}, Family{Name: "histories", Run: c21Histories}, Family{Name: "ids", Run: c21IDs}, Family{Name: "many", Run: c21Many}, Family{Name: "spellings", Run: c21Spellings}, Family{Name: "links", Run: c21Links})
}

type c21File struct {
	Ignore *[]string `yaml:"ignore"`
	DBs    []struct {
		URL  string `yaml:"url"`
		Name string `yaml:"name"`
		Type string `yaml:"type"`
		WD   string `yaml:"working-directory"`
	} `yaml:"extra-databases"`
}

// c21Step runs one command and checks the files it leaves; the model's configs
// follow the update.
func c21Step(c *C, w *world, d string, f mFlags, args []string) (changed bool) {
	before := readTree(d)
	e := w.expect(f, args)
	r := cli(append(f.args(), args...)...)
	if f.json {
		w.compareJSON(c, r, e)
	} else {
		w.compareText(c, r, e, f.list)
	}
	after := readTree(d)
	fail := func(s string, a ...any) { c.Fail("%s\n%s", fmt.Sprintf(s, a...), r.String()) }
	complete := !e.stopped && e.errors == 0
	for p := range after {
		if _, ok := before[p]; !ok {
			fail("%s was created", p)
		}
	}
	for p, b := range before {
		a, ok := after[p]
		if !ok {
			fail("%s was removed", p)
		}
		ids, used := e.updated[filepath.Clean(p)]
		if !used || !f.update {
			if a != b {
				fail("%s changed from %q to %q although it is not a config that was updated", p, b, a)
			}
			continue
		}
		cf := w.confs[filepath.Clean(p)]
		var got c21File
		dec := yaml.NewDecoder(strings.NewReader(a))
		dec.KnownFields(true)
		if err := dec.Decode(&got); err != nil {
			fail("%s is not a valid config after the update: %v\n%s", p, err, a)
		}
		if len(got.DBs) != len(cf.dbs) {
			fail("%s lists %d databases after the update, expected %d\n%s", p, len(got.DBs), len(cf.dbs), a)
		}
		for i, x := range cf.dbs {
			g := got.DBs[i]
			if g.URL != x.url || g.Name != x.name || g.Type != x.typ || g.WD != x.wd {
				fail("%s: database %d is %+v after the update, expected %+v\n%s", p, i, g, x, a)
			}
		}
		if !complete {
			continue
		}
		if got.Ignore == nil {
			fail("%s has no list of ignores after the update:\n%s", p, a)
		}
		if !slices.Equal(*got.Ignore, ids) && len(*got.Ignore)+len(ids) > 0 {
			fail("%s ignores %q after the update, expected %q", p, *got.Ignore, ids)
		}
		changed = changed || !slices.Equal(cf.ignore, ids)
		cf.ignore = slices.Clone(ids)
		w.confs[filepath.Clean(p)] = cf
		w.files[p] = a
	}
	if len(e.updated) > 0 {
		c.Nontrivial()
	}
	c.AddTransitions(1)
	c.Count(fmt.Sprintf("exit %d", e.code))
	if !complete || !f.update || f.list || f.noConfig || len(e.updated) == 0 || e.problem {
		return changed
	}
	// scanning again gives nothing new where a config was used
	g := f
	g.update, g.noConfigIgnores, g.json = false, false, true
	e2 := w.expect(g, args)
	for _, x := range e2.results {
		cp := filepath.Clean(f.config)
		if f.config == "" {
			cp = ""
			for _, n := range []string{".osv-detector.yml", ".osv-detector.yaml"} {
				if _, ok := w.confs[filepath.Join(filepath.Dir(x.path), n)]; ok && cp == "" {
					cp = filepath.Join(filepath.Dir(x.path), n)
				}
			}
		}
		if cp == "" {
			continue
		}
		for _, p := range x.pkgs {
			if len(p.vulns) > 0 {
				theEngine.fatal("model: findings left after an update")
			}
		}
	}
	w.compareJSON(c, cli(append(g.args(), args...)...), e2)
	// and updating again changes nothing
	mid := readTree(d)
	cli(append(f.args(), args...)...)
	if x := readTree(d); x.key() != mid.key() {
		fail("updating again changed the files:\n%s\nto\n%s", mid.key(), x.key())
	}
	return changed
}

func c21World() (*world, map[string]mDBRef) {
	w, m := c20World()
	return w, m
}

var c21Confs = []int{0, 1, 2, 4, 5, 6, 10, 11, 12, 13, 7}

func c21(c *C) {
	w, m := c21World()
	c20Confs[c21Confs[c.N(len(c21Confs))]].put(w, m, "d0")
	c20Confs[c21Confs[c.N(c.Q(8, len(c21Confs)))]].put(w, m, "d1")
	c.Split()
	fk := c.N(c20FlagKinds + 1)
	var f mFlags
	if fk == c20FlagKinds {
		f = mFlags{list: true}
	} else {
		f = c20Flags(w, m, fk)
	}
	f.update = true
	f.json = c.Bool()
	c20Lock(w, Pick(c, 0, 2), "d0")
	c20Lock(w, Pick(c, 1, 2, 3, 4), "d1")
	args := Pick(c, []string{"d0", "d1"}, []string{"d1", "d0"}, []string{"d0"})
	c.Leaf(w.key(f, args))
	d := w.setup()
	c21Step(c, w, d, f, args)
}

// c21Histories: sequences of updates, scans and changes.
func c21Histories(c *C) {
	w, m := c21World()
	c20Confs[Pick(c, 0, 1, 4, 6)].put(w, m, "d0")
	c20Confs[Pick(c, 0, 4, 5)].put(w, m, "d1")
	c20Lock(w, 2, "d0")
	c20Lock(w, 0, "d1")
	c20Flags(w, m, 0)
	n := c.Q(3, 4)
	ops := c.SeqN(9, n)
	if !slices.ContainsFunc(ops, func(o int) bool { return o < 5 }) {
		c.Skip()
	}
	c.Leaf(fmt.Sprintf("ops %v\n%s", ops, w.key(mFlags{}, nil)))
	d := w.setup()
	for _, o := range ops {
		f := mFlags{update: true, json: true}
		args := []string{"d0", "d1"}
		switch o {
		case 0:
		case 1:
			args = []string{"d0/package-lock.json"}
		case 2:
			f.config = "g.yml"
		case 3:
			f.noConfigIgnores, f.useAPI, f.json = true, bptr(true), false
		case 4:
			f.noConfigDbs, f.ignores = true, []string{"A-p", "ECO-NP-p"}
		case 5:
			f.update = false
		case 6: // a dependency is removed
			w.lock("d0/package-lock.json")
			w.files.write(d)
			continue
		case 7: // and another added
			w.lock("d1/Cargo.lock", pd("crates.io", "crates.io", "k", "1.0.0"))
			w.files.write(d)
			continue
		case 8: // a new advisory is published
			w.ecoDB("npm", append(everywhere("ECO-NEW"), on("GHSA-1", "npm", "p", "CVE-1"))...)
			net.reset(w.serve())
			continue
		}
		c21Step(c, w, d, f, args)
		must(removeTmp())
	}
}

var c21Names = []string{
	"GHSA-1", "yes", "null", "~", "1.0", "0x1F", "2024-01-01", "a: b", "#c", "- x", "\"quoted\"", "it's", " lead", "trail ", "[x]", "{x}",
	"é-1", "a\tb", "!tag", "&a", "*a", "%x", "@x", "a\\nb", "true", "|", ">", "a#b", "a # b", "-", "?", ":", ",", "CVE-2020-1", "cve-2020-1", "<<", "=",
}

// c21IDs: ids that need care in YAML.
func c21IDs(c *C) {
	i := c.N(len(c21Names))
	j := c.N(len(c21Names))
	w := newWorld()
	advs := []mAdv{on(c21Names[i], "npm", "p")}
	if i != j {
		advs = append(advs, on(c21Names[j], "npm", "p"))
	}
	w.ecoDB("npm", advs...)
	cf := mConf{}
	if c.Bool() {
		cf.ignore = []string{c21Names[j]}
	}
	w.conf("d0/.osv-detector.yml", cf)
	w.lock("d0/package-lock.json", pd("npm", "npm", "p", "1.0.0"))
	f := mFlags{update: true, json: true}
	c.Leaf(w.key(f, []string{"d0"}))
	d := w.setup()
	c21Step(c, w, d, f, []string{"d0"})
}

func c21Many(c *C) {
	w := newWorld()
	n := Pick(c, 1, 2, 3, 10, 40)
	share := c.N(3)
	var advs []mAdv
	var pk []mPkg
	for i := 0; i < n; i++ {
		nm := fmt.Sprintf("p%02d", (i*7)%n)
		pk = append(pk, pd("npm", "npm", nm, "1.0.0"))
		for j := 0; j < 3; j++ {
			advs = append(advs, on(fmt.Sprintf("X-%d-%d", j, i), "npm", nm))
		}
		advs = append(advs, mAdv{id: "COMMON", entries: []mEntry{{eco: "npm", name: nm, ranges: openRange()}}})
	}
	if share == 2 {
		// one advisory affecting them all
		a := mAdv{id: "ALL"}
		for i := 0; i < n; i++ {
			a.entries = append(a.entries, mEntry{eco: "npm", name: fmt.Sprintf("p%02d", i), ranges: openRange()})
		}
		advs = append(advs, a)
	}
	w.ecoDB("npm", advs...)
	f := mFlags{update: true, json: c.Bool()}
	if share > 0 {
		f.config = "g.yml"
		w.conf("g.yml", mConf{ignore: []string{"STALE", "X-0-0"}})
	}
	var args []string
	k := c.N(2)
	for i := 0; i < n; i++ {
		dir := fmt.Sprintf("d%d", i%Pick(c, 1, 3, n)) // how lockfiles are spread
		p := dir + "/package-lock.json"
		l := w.locks[p]
		w.lock(p, append(slices.Clone(l.pkgs), pk[i])...)
		w.conf(dir+"/.osv-detector.yml", mConf{ignore: []string{"OLD"}})
		if !slices.Contains(args, dir) {
			args = append(args, dir)
		}
		if i > 0 {
			break
		}
	}
	for i := 2; i < n; i++ {
		dir := fmt.Sprintf("d%d", i%(3+k))
		p := dir + "/package-lock.json"
		l := w.locks[p]
		w.lock(p, append(slices.Clone(l.pkgs), pk[i])...)
		w.conf(dir+"/.osv-detector.yml", mConf{ignore: []string{"OLD"}})
		if !slices.Contains(args, dir) {
			args = append(args, dir)
		}
	}
	c.Leaf(w.key(f, args))
	d := w.setup()
	c21Step(c, w, d, f, args)
}

// c21Spellings: several spellings of the path of one config.
func c21Spellings(c *C) {
	w, m := c21World()
	c20Confs[Pick(c, 1, 4, 5)].put(w, m, "d0")
	w.lock("d0/package-lock.json", pd("npm", "npm", "p", "1.0.0"))
	w.lock("d0/requirements.txt", pd("PyPI", "PyPI", "r", "1.0"))
	w.dir("d0/sub")
	sp := []string{"d0/", "./d0/", "d0/sub/../", "d0//", "$PWD/d0/"}
	a, b := c.N(len(sp)), c.N(len(sp))
	sw := c.Bool()
	key := fmt.Sprintf("%s + %s swapped=%v\n%s", sp[a], sp[b], sw, w.key(mFlags{}, nil))
	c.Leaf(key)
	d := w.setup()
	args := []string{strings.ReplaceAll(sp[a], "$PWD", d) + "package-lock.json", strings.ReplaceAll(sp[b], "$PWD", d) + "requirements.txt"}
	if sw {
		args[0], args[1] = args[1], args[0]
	}
	e := w.expect(mFlags{update: true}, []string{"d0"})
	var want []string
	for _, ids := range e.updated {
		want = ids
	}
	for i := 0; i < 4; i++ { // hash map order, should the implementation depend on it
		must(removeTmp())
		w.files.write(d)
		r := cli(append([]string{"--json", "--update-config-ignores"}, args...)...)
		for p := range w.confs {
			if !strings.HasPrefix(p, "d0") {
				continue
			}
			var got c21File
			if err := yaml.Unmarshal([]byte(readTree(d)[p]), &got); err != nil || got.Ignore == nil {
				c.Fail("bad config after the update: %v\n%s", err, r.String())
			}
			if !slices.Equal(*got.Ignore, want) {
				c.Fail("%s ignores %q after the update, expected %q\n%s", p, *got.Ignore, want, r.String())
			}
		}
	}
	c.Nontrivial()
}

// c21Links: configs that are links, to files of their own or to a shared one, and directories that are links.
func c21Links(c *C) {
	w, m := c21World()
	kind := c.N(5)
	ext := Pick(c, "yml", "yaml")
	abs := c.Bool()
	json := c.Bool()
	swap := c.Bool()
	locks := c.N(4)
	c.Leaf(fmt.Sprintf("kind %d %s absolute %v json %v swapped %v lockfiles %d", kind, ext, abs, json, swap, locks))
	npm, pypi := pd("npm", "npm", "p", "1.0.0"), pd("PyPI", "PyPI", "r", "1.0")
	w.lock("d0/package-lock.json", npm)
	if locks&1 != 0 {
		w.lock("d0/requirements.txt", pypi)
	}
	if kind != 4 {
		w.lock("d1/requirements.txt", pypi)
		if locks&2 != 0 {
			w.lock("d1/package-lock.json", npm)
		}
	}
	// what a scan finds, without any config but with the databases of the shared one
	cf := mConf{ignore: []string{"OLD-1"}, dbs: []mDBRef{m["A"]}}
	for _, d := range []string{"d0", "d1"} {
		if kind == 4 && d == "d1" {
			continue
		}
		w.conf(d+"/.osv-detector."+ext, cf)
	}
	ids := map[string]map[string]bool{"d0": {}, "d1": {}}
	dirs := []string{"d0", "d1"}
	if kind == 4 {
		dirs = dirs[:1]
	}
	e := w.expect(mFlags{update: true}, dirs)
	for p, l := range e.updated {
		for _, id := range l {
			ids[filepath.Dir(p)][id] = true
		}
	}
	d := w.setup()
	link := func(at, to string) {
		_ = os.RemoveAll(filepath.Join(d, at))
		if abs {
			to = filepath.Join(d, filepath.Dir(at), to)
		}
		must(os.Symlink(to, filepath.Join(d, at)))
	}
	text := w.files["d0/.osv-detector."+ext]
	must(os.WriteFile(filepath.Join(d, "shared.yml"), []byte(text), 0o644))
	must(os.WriteFile(filepath.Join(d, "other.yml"), []byte(text), 0o644))
	want := map[string][]string{} // file: directories whose lockfiles use it
	cfg := "/.osv-detector." + ext
	switch kind {
	case 0: // one link, one file
		link("d0"+cfg, "../shared.yml")
		want["shared.yml"], want["d1"+cfg] = []string{"d0"}, []string{"d1"}
	case 1: // two links to different files
		link("d0"+cfg, "../shared.yml")
		link("d1"+cfg, "../other.yml")
		want["shared.yml"], want["other.yml"] = []string{"d0"}, []string{"d1"}
	case 2: // two links to one file
		link("d0"+cfg, "../shared.yml")
		link("d1"+cfg, "../shared.yml")
		want["shared.yml"] = []string{"d0", "d1"}
	case 3: // a link to the config of the other directory
		link("d0"+cfg, "../d1"+cfg)
		want["d1"+cfg] = []string{"d0", "d1"}
	case 4: // the same directory twice
		link("d1", "d0")
		want["d0"+cfg] = []string{"d0"}
	}
	args := []string{"d0", "d1"}
	if swap {
		args = []string{"d1", "d0"}
	}
	args = append([]string{"--update-config-ignores"}, args...)
	if json {
		args = append([]string{"--json"}, args...)
	}
	for i := 0; i < 3; i++ { // hash map order, should the implementation depend on it
		r := cli(args...)
		for p, ds := range want {
			all := map[string]bool{}
			for _, x := range ds {
				for id := range ids[x] {
					all[id] = true
				}
			}
			b, _ := os.ReadFile(filepath.Join(d, p))
			var got c21File
			if err := yaml.Unmarshal(b, &got); err != nil || got.Ignore == nil {
				c.Fail("bad config %s after the update: %v\n%s", p, err, r.String())
			}
			if !slices.Equal(*got.Ignore, sortedKeys(all)) {
				c.Fail("%s ignores %q after the update, expected %q\n%s", p, *got.Ignore, sortedKeys(all), r.String())
			}
			if len(got.DBs) != 1 {
				c.Fail("%s lost its databases\n%s", p, r.String())
			}
		}
		if i, err := os.Lstat(filepath.Join(d, "d0"+cfg)); kind < 4 && (err != nil || i.Mode()&os.ModeSymlink == 0) {
			c.Fail("the link to the config is no link any more\n%s", r.String())
		}
	}
	c.Nontrivial()
}

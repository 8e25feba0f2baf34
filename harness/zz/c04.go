package zzverif

import (
	"fmt"
)

func init() {
	register("C04", Family{Name: "configs-and-flags", Run: c04}, Family{Name: "aliases", Run: c04Alias}, Family{Name: "scale", Run: c04Scale}, Family{Name: "near-misses", Run: c04Near})
}

func npmAdv(id string, aliases ...string) mAdv {
	return mAdv{id: id, aliases: aliases, summary: "about " + id, entries: []mEntry{{eco: "npm", name: "p", ranges: openRange()}}}
}

// c04: which ids are ignored for which lockfile, under every mix of configs and flags.
func c04(c *C) {
	w := newWorld()
	p, s := pd("npm", "npm", "p", "1.0.0"), pd("npm", "npm", "s", "1.0.0")
	w.lock("a/package-lock.json", p, s)
	w.lock("b/package-lock.json", p)
	sub := mAdv{id: "GHSA-2", entries: []mEntry{{eco: "npm", name: "s", ranges: openRange()}, {eco: "npm", name: "p", versions: []string{"1.0.0"}}}}
	w.ecoDB("npm", npmAdv("GHSA-1", "CVE-1"), npmAdv("GHSA-11"), npmAdv("OSV-3"), sub)
	menu := []string{"GHSA-1", "CVE-1", "GHSA-11", "ghsa-1", "GHSA-", "GHSA-2", "GHSA-1 ", "*"}
	ca := c.N(2)
	if ca == 1 {
		cf := mConf{ignore: []string{}}
		for _, i := range c.Subset(len(menu), c.Q(3, 4)) {
			cf.ignore = append(cf.ignore, menu[i])
		}
		w.conf("a/.osv-detector.yml", cf)
	}
	c.Split()
	switch c.N(4) {
	case 1:
		w.conf("b/.osv-detector.yml", mConf{ignore: []string{"GHSA-1", "GHSA-1"}})
	case 2:
		w.conf("b/.osv-detector.yaml", mConf{ignore: []string{"GHSA-11", "OSV-3"}})
	case 3:
		w.conf("b/.osv-detector.yml", mConf{ignore: []string{"OSV-3", "GHSA-2", "GHSA-1", "GHSA-11"}})
		w.conf("b/.osv-detector.yaml", mConf{ignore: []string{"NONE"}})
	}
	w.conf("g.yml", mConf{ignore: []string{"GHSA-2", "OSV-3"}})
	f := mFlags{json: true}
	f.ignores = Pick(c, nil, []string{"GHSA-1"}, []string{"GHSA-11", "CVE-1"}, []string{"OSV-3", "GHSA-2", "GHSA-1", "GHSA-11"})
	switch c.N(5) {
	case 1:
		f.noConfig = true
	case 2:
		f.noConfigIgnores = true
	case 3:
		f.config = "g.yml"
	case 4:
		f.config, f.noConfigIgnores = "g.yml", true
	}
	args := Pick(c, []string{"a", "b"}, []string{"b", "a"}, []string{"a", "a/package-lock.json", "b"})
	c.Leaf(w.key(f, args))
	w.setup()
	e := w.expect(f, args)
	w.compareJSON(c, cli(append(f.args(), args...)...), e)
	f.json = false
	w.compareText(c, cli(append(f.args(), args...)...), e, false)
	c.Count(fmt.Sprintf("exit %d", e.code))
	ig := 0
	for _, r := range e.results {
		for _, p := range r.pkgs {
			ig += len(p.ignord)
		}
	}
	if ig > 0 {
		c.Nontrivial()
	}
}

// c04Alias: ignoring goes by the reported id only, however the findings are linked.
func c04Alias(c *C) {
	w := newWorld()
	w.lock("package-lock.json", pd("npm", "npm", "p", "1.0.0"))
	ids := []string{"GHSA-1", "CVE-1", "PYSEC-1"}
	var d0, d1 []mAdv
	perm := c.Perm(3)
	for _, i := range perm {
		var as []string
		for _, j := range c.Subset(3, 2) {
			if j != i {
				as = append(as, ids[j])
			}
		}
		if c.Bool() {
			d0 = append(d0, npmAdv(ids[i], as...))
		} else {
			d1 = append(d1, npmAdv(ids[i], as...))
		}
	}
	cf := mConf{dbs: []mDBRef{w.dirDB("d0", d0...), w.dirDB("d1", d1...)}}
	f := mFlags{json: true, useDBs: bptr(false)}
	for _, i := range c.Subset(3, 3) {
		if c.Bool() {
			f.ignores = append(f.ignores, ids[i])
		} else {
			cf.ignore = append(cf.ignore, ids[i])
		}
	}
	w.conf(".osv-detector.yml", cf)
	args := []string{"package-lock.json"}
	c.Leaf(w.key(f, args))
	w.setup()
	e := w.expect(f, args)
	w.compareJSON(c, cli(append(f.args(), args...)...), e)
	c.Count(fmt.Sprintf("exit %d", e.code))
	if len(e.results[0].pkgs[0].ignord) > 0 {
		c.Nontrivial()
	}
}

// c04Near: values that are not quite the id of a finding, or that only hold one.
func c04Near(c *C) {
	w := newWorld()
	w.lock("package-lock.json", pd("npm", "npm", "p", "1.0.0"))
	w.ecoDB("npm", npmAdv("GHSA-1", "CVE-1"), npmAdv("OSV-3"), npmAdv("OSV-3.1"), npmAdv("A,B"), npmAdv("A"), npmAdv("x y"))
	menu := []string{"GHSA-1", "GHSA-1,OSV-3", "GHSA-1, OSV-3", "GHSA-1 OSV-3", " GHSA-1", "GHSA-1 ", "GHSA-1\n", "ghsa-1", "Ghsa-1", "GHSA-", "SA-1", "GHSA-1*", "*", ".*", "OSV-3?", "", "CVE-1", "OSV-3", "OSV_3", "npm:GHSA-1", "GHSA-1#note", "A,B", "A", "B", "x y", "x", "\"GHSA-1\"", "GHSA-1;OSV-3", "GHSA-1|OSV-3", "https://github.com/advisories/GHSA-1"}
	f := mFlags{json: true}
	cf := mConf{}
	for i := 0; i < 2; i++ {
		k := c.N(len(menu) + 1)
		if k == len(menu) {
			continue
		}
		if c.Bool() {
			f.ignores = append(f.ignores, menu[k])
		} else {
			cf.ignore = append(cf.ignore, menu[k])
		}
		if i == 0 {
			c.Split()
		}
	}
	if len(cf.ignore) > 0 {
		w.conf(".osv-detector.yml", cf)
	}
	args := []string{"package-lock.json"}
	c.Leaf(w.key(f, args))
	w.setup()
	e := w.expect(f, args)
	w.compareJSON(c, cli(append(f.args(), args...)...), e)
	c.Count(fmt.Sprintf("exit %d", e.code))
	c.Nontrivial()
}

// c04Scale: every number of findings with every prefix and every stride of them ignored.
func c04Scale(c *C) {
	n := c.N(c.Q(14, 40))
	k := c.N(n + 1)
	stride := 1 + c.N(3)
	inConf := c.Bool()
	w := newWorld()
	w.lock("package-lock.json", pd("npm", "npm", "p", "1.0.0"))
	var advs []mAdv
	var ign []string
	for i := 0; i < n; i++ {
		advs = append(advs, npmAdv(fmt.Sprintf("ID-%d", i)))
		if i < k && i%stride == 0 {
			ign = append(ign, fmt.Sprintf("ID-%d", i))
		}
	}
	w.ecoDB("npm", advs...)
	f := mFlags{json: true}
	if inConf {
		w.conf(".osv-detector.yml", mConf{ignore: ign})
	} else {
		f.ignores = ign
	}
	args := []string{"package-lock.json"}
	c.Leaf(w.key(f, args))
	w.setup()
	e := w.expect(f, args)
	w.compareJSON(c, cli(append(f.args(), args...)...), e)
	f.json = false
	w.compareText(c, cli(append(f.args(), args...)...), e, false)
	if len(ign) > 0 {
		c.Nontrivial()
	}
}

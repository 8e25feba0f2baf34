package zzverif

import (
	"fmt"
)

func init() {
	register("C03",
		Family{Name: "three-findings", Run: func(c *C) { c03Run(c, 3) }},
		Family{Name: "four-findings", Run: func(c *C) { c03Run(c, 4) }},
		Family{Name: "mixed-databases", Run: c03Mixed},
		Family{Name: "many-findings", Run: c03Many},
		Family{Name: "many-aliases", Run: c03Aliases},
		Family{Name: "similar-ids", Run: c03Similar},
	)
}

var c03IDs = []string{"GHSA-1", "GHSA-2", "CVE-3", "PYSEC-4"}

func c03Run(c *C, n int) {
	var ids []string
	used := 0
	for i := 0; i < n; i++ {
		k := c.N(used + 1)
		if k == used {
			used++
		}
		ids = append(ids, c03IDs[k])
	}
	// how the findings are spread over databases in order: cut points
	var cuts []bool
	for i := 1; i < n; i++ {
		cuts = append(cuts, c.Bool())
	}
	al := []string{"GHSA-1", "GHSA-2", "CVE-3", "X-0"}
	c.Split()
	advs := make([]mAdv, n)
	for i := range advs {
		var as []string
		if n == 3 {
			for _, j := range c.Subset(len(al), c.Q(2, 4)) {
				as = append(as, al[j])
			}
		} else {
			if k := c.N(len(al) + 1); k > 0 {
				as = []string{al[k-1]}
			}
		}
		advs[i] = mAdv{id: ids[i], aliases: as, summary: fmt.Sprintf("finding %d", i), entries: []mEntry{
			{eco: "npm", name: "p", ranges: openRange()}, {eco: "npm", name: "q", ranges: openRange()}}}
	}
	ign := ""
	if n == 3 || c.Thorough() {
		ign = Pick(c, "", "GHSA-1", "GHSA-2", "X-0")
	} else {
		ign = Pick(c, "", "GHSA-1")
	}
	w := newWorld()
	w.lock("package-lock.json", pd("npm", "npm", "p", "1.0.0"), pd("npm", "npm", "p", "2.0.0"), pd("npm", "npm", "q", "1.0.0"))
	cf := mConf{}
	cur := []mAdv{advs[0]}
	nd := 0
	flush := func() {
		cf.dbs = append(cf.dbs, w.dirDB(fmt.Sprintf("d%d", nd), cur...))
		nd++
		cur = nil
	}
	for i := 1; i < n; i++ {
		if cuts[i-1] {
			flush()
		}
		cur = append(cur, advs[i])
	}
	flush()
	w.conf(".osv-detector.yml", cf)
	f := mFlags{json: true, useDBs: bptr(false)}
	if ign != "" {
		f.ignores = []string{ign}
	}
	c.Leaf(w.key(f, []string{"package-lock.json"}))
	w.setup()
	e := w.expect(f, []string{"package-lock.json"})
	r := cli(append(f.args(), "package-lock.json")...)
	rep := w.compareJSON(c, r, e)
	// the entry shown is the earliest of its group, with its own details
	var order []mAdv
	for _, d := range cf.dbs {
		order = append(order, perDB(w.sources[d.url], pd("npm", "npm", "p", "1.0.0"))...)
	}
	for _, p := range rep.Results[0].Packages {
		for _, v := range append(append([]jVuln{}, p.Vulnerabilities...), p.Ignored...) {
			for _, k := range greedy(order) {
				if k.id == v.ID && k.summary != v.Summary {
					c.Fail("%s shown for %s@%s carries %q, expected %q", v.ID, p.Name, p.Version, v.Summary, k.summary)
				}
			}
		}
	}
	if len(e.results[0].pkgs[0].vulns)+len(e.results[0].pkgs[0].ignord) < n {
		c.Nontrivial()
		c.Count("merged")
	} else {
		c.Count("all distinct")
	}
}

// c03Mixed: findings spread over a config database, an archive database, the API and the ecosystem database.
func c03Mixed(c *C) {
	n := 3 + c.N(c.Q(1, 2))
	var advs []mAdv
	where := make([]int, n)
	for i := 0; i < n; i++ {
		where[i] = c.N(4)
		if i == 1 {
			c.Split()
		}
		id := Pick(c, c03IDs[i], "GHSA-1")
		var as []string
		if k := c.N(3); k > 0 {
			as = []string{[]string{"GHSA-1", "X-0"}[k-1]}
		}
		names := Pick(c, "p", "pq")
		a := mAdv{id: id, aliases: as, summary: fmt.Sprintf("finding %d", i)}
		for _, nm := range names {
			a.entries = append(a.entries, mEntry{eco: "npm", name: string(nm), ranges: openRange()})
		}
		if n == 4 && i >= 2 && (names == "pq" || len(as) > 0 && as[0] == "X-0") {
			c.Skip()
		}
		advs = append(advs, a)
	}
	w := newWorld()
	w.lock("package-lock.json", pd("npm", "npm", "p", "1.0.0"), pd("npm", "npm", "q", "1.0.0"))
	by := make([][]mAdv, 4)
	for i, a := range advs {
		// one database never holds two documents of one id
		for _, o := range by[where[i]] {
			if o.id == a.id {
				c.Skip()
			}
		}
		by[where[i]] = append(by[where[i]], a)
	}
	cf := mConf{dbs: []mDBRef{w.dirDB("d", by[0]...), w.zipDB("https://example.com/extra.zip", by[1]...)}}
	w.conf(".osv-detector.yml", cf)
	w.api(apiURL, by[2]...)
	w.ecoDB("npm", by[3]...)
	f := mFlags{json: true, useAPI: bptr(true)}
	c.Leaf(w.key(f, []string{"package-lock.json"}))
	w.setup()
	e := w.expect(f, []string{"package-lock.json"})
	r := cli(append(f.args(), "package-lock.json")...)
	w.compareJSON(c, r, e)
	tot := 0
	for _, p := range e.results[0].pkgs {
		tot += len(p.vulns)
	}
	if tot < 2*n {
		c.Nontrivial()
	}
	c.Count(fmt.Sprintf("%d shown", tot))
}

// c03Many: a database with many findings, any of them ignored, and a second one that repeats
// some of them (under the same id or linked by an alias) between new ones.
func c03Many(c *C) {
	n := 1 + c.N(c.Q(5, 7))
	var first, second []mAdv
	var ign []string
	mk := func(id string, as ...string) mAdv {
		return mAdv{id: id, aliases: as, summary: "about " + id, entries: []mEntry{{eco: "npm", name: "p", ranges: openRange()}}}
	}
	for i := 0; i < n; i++ {
		first = append(first, mk(fmt.Sprintf("A-%d", i), fmt.Sprintf("CVE-%d", i)))
		if c.Bool() {
			ign = append(ign, fmt.Sprintf("A-%d", i))
		}
	}
	c.Split()
	linked := c.N(3)
	for k := 0; k < 3; k++ {
		j := c.N(n + 2)
		switch {
		case j < n && linked == 0:
			second = append(second, mk(fmt.Sprintf("A-%d", j)))
		case j < n && linked == 1:
			second = append(second, mk(fmt.Sprintf("B-%d-%d", j, k), fmt.Sprintf("CVE-%d", j)))
		case j < n:
			second = append(second, mk(fmt.Sprintf("B-%d-%d", j, k), fmt.Sprintf("A-%d", j)))
		default:
			second = append(second, mk(fmt.Sprintf("N-%d", k)))
			if j == n+1 {
				ign = append(ign, fmt.Sprintf("N-%d", k))
			}
		}
	}
	w := newWorld()
	w.lock("package-lock.json", pd("npm", "npm", "p", "1.0.0"), pd("npm", "npm", "q", "1.0.0"))
	w.conf(".osv-detector.yml", mConf{ignore: ign, dbs: []mDBRef{w.dirDB("one", first...), w.dirDB("two", second...)}})
	f := mFlags{json: true, useDBs: bptr(false)}
	c.Leaf(w.key(f, []string{"package-lock.json"}))
	w.setup()
	e := w.expect(f, []string{"package-lock.json"})
	w.compareJSON(c, cli(append(f.args(), "package-lock.json")...), e)
	c.Count(fmt.Sprintf("exit %d", e.code))
	c.Nontrivial()
}

// c03Aliases: two findings of many aliases each, of which one (or none) links them, among others.
func c03Aliases(c *C) {
	n := Pick(c, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 17, 20, 32, 33, 50, 64, 65, 100, 101, 128, 129)
	i := []int{0, n / 2, n - 1}[c.N(min(n, 3))]
	j := []int{0, n / 2, n - 1, n}[c.N(4)]
	direct := c.N(3) // by a common alias, by the id of the other, in either direction
	apart := c.Bool()
	others := Pick(c, 0, 1, 40)
	mk := func(id string) mAdv {
		a := mAdv{id: id, summary: "about " + id, entries: []mEntry{{eco: "npm", name: "p", ranges: openRange()}}}
		for k := 0; k < n; k++ {
			a.aliases = append(a.aliases, fmt.Sprintf("%s-alias-%d", id, k))
		}
		return a
	}
	x, y := mk("X-1"), mk("Y-1")
	if j < n {
		switch direct {
		case 0:
			x.aliases[i], y.aliases[j] = "CVE-0", "CVE-0"
		case 1:
			x.aliases[i] = "Y-1"
		case 2:
			y.aliases[j] = "X-1"
		}
	}
	first, second := []mAdv{x}, []mAdv{}
	for k := 0; k < others; k++ {
		o := mk(fmt.Sprintf("O-%d", k))
		o.aliases = o.aliases[:1]
		first = append(first, o)
	}
	if apart {
		second = append(second, y)
	} else {
		first = append(first, y)
	}
	w := newWorld()
	w.lock("package-lock.json", pd("npm", "npm", "p", "1.0.0"), pd("npm", "npm", "q", "1.0.0"))
	w.conf(".osv-detector.yml", mConf{dbs: []mDBRef{w.dirDB("one", first...), w.dirDB("two", second...)}})
	f := mFlags{json: true, useDBs: bptr(false)}
	c.Leaf(fmt.Sprintf("%d aliases, %d %d %d, apart %v, %d others", n, i, j, direct, apart, others))
	w.setup()
	e := w.expect(f, []string{"package-lock.json"})
	w.compareJSON(c, cli(append(f.args(), "package-lock.json")...), e)
	if j < n {
		c.Nontrivial()
	}
}

// c03Similar: ids and aliases that are nearly the same are not the same.
func c03Similar(c *C) {
	ids := []string{"GHSA-1", "ghsa-1", "GHSA-10", "GHSA-1-1", "GHSA_1", "XGHSA-1"}
	al := append([]string{"CVE-1", "cve-1", "CVE-10"}, ids...)
	n := 2 + c.N(c.Q(1, 2))
	w := newWorld()
	w.lock("package-lock.json", pd("npm", "npm", "p", "1.0.0"))
	var advs []mAdv
	for i := 0; i < n; i++ {
		a := on(ids[c.N(len(ids))], "npm", "p")
		if k := c.N(len(al) + 1); k > 0 {
			a.aliases = []string{"Z-" + fmt.Sprint(i), al[k-1]}
		}
		advs = append(advs, a)
		if i == 0 {
			c.Split()
		}
	}
	cf := mConf{}
	if k := c.N(n + 1); k == 0 || k == n {
		cf.dbs = []mDBRef{w.dirDB("d", advs...)}
		if k == n {
			c.Skip()
		}
	} else {
		cf.dbs = []mDBRef{w.dirDB("d", advs[:k]...), w.dirDB("e", advs[k:]...)}
	}
	w.conf(".osv-detector.yml", cf)
	f := mFlags{json: true, useDBs: bptr(false), ignores: Pick(c, nil, []string{"ghsa-1"}, []string{"CVE-1"})}
	c.Leaf(w.key(f, []string{"package-lock.json"}))
	w.setup()
	e := w.expect(f, []string{"package-lock.json"})
	w.compareJSON(c, cli(append(f.args(), "package-lock.json")...), e)
	c.Nontrivial()
}

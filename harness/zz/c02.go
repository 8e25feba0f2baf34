package zzverif

import (
	"fmt"
	"slices"
	"strings"

	"github.com/g-rath/osv-detector/internal"
	"github.com/g-rath/osv-detector/pkg/database"
)

func init() {
	register("C02",
		Family{Name: "sets", Run: func(c *C) { c02Sets(c, c02Menu, c02Pkgs, c.Q(5, 6)) }},
		Family{Name: "special-packages", Run: func(c *C) { c02Sets(c, c02Menu2, c02Pkgs2, c.Q(4, 5)) }},
		Family{Name: "entries", Run: c02Entries},
		Family{Name: "scale", Run: c02Scale},
	)
}

func openRange() []mRange { return []mRange{{"ECOSYSTEM", []mEvent{{"introduced", "0"}}}} }

var c02Menu = []mAdv{
	{id: "A-npm-all", entries: []mEntry{{eco: "npm", name: "p", ranges: openRange()}}},
	{id: "B-npm-v1", aliases: []string{"CVE-1"}, entries: []mEntry{{eco: "npm", name: "p", versions: []string{"1.0.0"}}}},
	{id: "C-npm-v1-dup", aliases: []string{"CVE-1", "X-9"}, entries: []mEntry{{eco: "npm", name: "p", ranges: []mRange{{"SEMVER", []mEvent{{"fixed", "1.9.0"}, {"introduced", "0.9.0"}}}}}}},
	{id: "X-9", entries: []mEntry{{eco: "npm", name: "p", versions: []string{"1.0.0", "2.0.0"}}}},
	{id: "D-withdrawn", withdrawn: true, aliases: []string{"CVE-1"}, entries: []mEntry{{eco: "npm", name: "p", ranges: openRange()}}},
	{id: "E-two", entries: []mEntry{{eco: "npm", name: "q", ranges: openRange()}, {eco: "npm", name: "p", versions: []string{"2.0.0"}}}},
	{id: "F-twice", entries: []mEntry{{eco: "npm", name: "p", versions: []string{"0.9.0"}}, {eco: "npm", name: "p", ranges: []mRange{{"SEMVER", []mEvent{{"last_affected", "2.0.0"}, {"introduced", "1.9.0"}}}}}}},
	{id: "G-py", entries: []mEntry{{eco: "PyPI", name: "My_Pkg", ranges: openRange()}}},
	{id: "H-deb", entries: []mEntry{{eco: "Debian:11", name: "p", ranges: openRange()}}},
	{id: "I-deb-any", entries: []mEntry{{eco: "Debian", name: "p", versions: []string{"1.0"}}}},
	{id: "J-dash", entries: []mEntry{{eco: "npm", name: "x-p", ranges: openRange()}, {eco: "npm-x", name: "p", ranges: openRange()}}},
	{id: "K-none", entries: []mEntry{}},
	{id: "A-npm-all", summary: "other document, same id", entries: []mEntry{{eco: "npm", name: "q", ranges: openRange()}}},
	{id: "L-go", entries: []mEntry{{eco: "Go", name: "example.com/P", ranges: openRange()}}},
}

var c02Pkgs = []internal.PackageDetails{
	pd("npm", "npm", "p", "1.0.0"),
	pd("npm", "npm", "p", "2.0.0"),
	pd("npm", "npm", "q", "1.0.0"),
	pd("PyPI", "PyPI", "my.PKG", "1.0"),
	pd("Debian:11", "Debian", "p", "1.0"),
	pd("Debian:12", "Debian", "p", "1.0"),
	pd("npm", "npm", "p", ""),
	pd("npm", "npm", "x-p", "1.0.0"),
	pd("Go", "Go", "example.com/P", "1.0.0"),
}

func linked(a, b mAdv) bool {
	if a.id == b.id || slices.Contains(a.aliases, b.id) || slices.Contains(b.aliases, a.id) {
		return true
	}
	for _, x := range a.aliases {
		if slices.Contains(b.aliases, x) {
			return true
		}
	}
	return false
}

// greedy is the model of merging: in order, skip what is linked to something kept.
func greedy(in []mAdv) []mAdv {
	var out []mAdv
next:
	for _, a := range in {
		for _, k := range out {
			if linked(a, k) {
				continue next
			}
		}
		out = append(out, a)
	}
	return out
}

func expectFor(advs []mAdv, p internal.PackageDetails) []mAdv {
	var hit []mAdv
	for _, a := range advs {
		if !a.withdrawn && covers(a, p) {
			hit = append(hit, a)
		}
	}
	return hit
}

func idsOf(vs database.Vulnerabilities) []string {
	out := []string{}
	for _, v := range vs {
		out = append(out, v.ID)
	}
	return out
}

func advIDs(as []mAdv) []string {
	out := []string{}
	for _, a := range as {
		out = append(out, a.id)
	}
	return out
}

// maximal checks got against the hits: only hits, pairwise unlinked, every hit represented.
func maximal(hits []mAdv, got []string) string {
	var kept []mAdv
	for _, id := range got {
		found := false
		for _, h := range hits {
			if h.id == id && !found {
				kept = append(kept, h)
				found = true
			}
		}
		if !found {
			return "unexpected finding " + id
		}
	}
	for i := range kept {
		for j := 0; j < i; j++ {
			if linked(kept[i], kept[j]) {
				return fmt.Sprintf("%s and %s are the same finding", kept[j].id, kept[i].id)
			}
		}
	}
	for _, h := range hits {
		ok := false
		for _, k := range kept {
			ok = ok || linked(h, k)
		}
		if !ok {
			return "missing finding " + h.id
		}
	}
	return ""
}

type checker interface {
	Check(pkgs []internal.PackageDetails) ([]database.Vulnerabilities, error)
}

func loadAdvs(c *C, kind int, advs []mAdv, names []string) (checker, func(bool) []database.OSV, int) {
	if kind == 0 {
		f := Files{}
		var order []string
		for i, a := range advs {
			n := fmt.Sprintf("%c/%d.json", 'z'-i%20, i)
			f[n] = a.json()
			order = append(order, n)
		}
		url := "https://example.com/db.zip"
		net.reset(static(map[string]string{url: mkZipOrdered(f, order)}))
		db, err := database.NewZippedDB(database.Config{Name: "z", Type: "zip", URL: url}, false, names)
		if err != nil {
			c.Fail("loading failed: %v", err)
		}
		return db, db.Vulnerabilities, db.VulnerabilitiesCount
	}
	db, err := database.NewDirDB(database.Config{Name: "d", Type: "dir", URL: "file:/db"}, false, names)
	if err != nil {
		c.Fail("loading failed: %v", err)
	}
	return db, db.Vulnerabilities, db.VulnerabilitiesCount
}

func writeDir(dir string, advs []mAdv) {
	f := Files{"db/": ""}
	for i, a := range advs {
		f[fmt.Sprintf("db/%04d.json", i)] = a.json()
	}
	f.write(dir)
}

func verifyCheck(c *C, what string, db checker, advs []mAdv, pkgs []internal.PackageDetails, memo map[string][]string) {
	res, err := db.Check(pkgs)
	if err != nil {
		c.Fail("%s: %v", what, err)
	}
	if len(res) != len(pkgs) {
		c.Fail("%s: %d result lists for %d packages", what, len(res), len(pkgs))
	}
	for i, p := range pkgs {
		hits := expectFor(advs, p)
		got := idsOf(res[i])
		if m := maximal(hits, got); m != "" {
			c.Fail("%s: package %d (%s %s@%s) of %v: %s; got %v, affected by %v", what, i, p.Ecosystem, p.Name, p.Version, pkgs, m, got, advIDs(hits))
		}
		k := fmt.Sprint(p)
		if old, ok := memo[k]; ok && !slices.Equal(old, got) {
			c.Fail("%s: package %v gave %v before and %v now", what, p, old, got)
		}
		memo[k] = got
		if len(hits) > 0 {
			c.Count("hit")
		} else {
			c.Count("miss")
		}
	}
}

// c02Menu2 and c02Pkgs2: packages that are compared as something else, have only a commit or similar names, and
// advisories that share an id or name a package more than once.
var c02Menu2 = []mAdv{
	{id: "A", entries: []mEntry{{eco: "npm", name: "p", versions: []string{"1.0.0"}}}},
	{id: "A", entries: []mEntry{{eco: "npm", name: "p", versions: []string{"2.0.0"}}}},
	{id: "B", entries: []mEntry{{eco: "PyPI", name: "p", ranges: openRange()}, {eco: "npm", name: "P", ranges: openRange()}}},
	{id: "C", entries: []mEntry{{eco: "npm", name: "q", versions: []string{"9"}}, {eco: "npm", name: "p", versions: []string{"9"}}, {eco: "npm", name: "p", versions: []string{"2.0.0"}}, {eco: "npm", name: "q", versions: []string{"2.0.0"}}}},
	{id: "D", entries: []mEntry{{eco: "PyPI", name: "a__b", ranges: openRange()}}},
	{id: "E", entries: []mEntry{{eco: "PyPI", name: "a-b", versions: []string{"2.0.0"}}, {eco: "npm", name: "a__b", ranges: openRange()}}},
	{id: "F", entries: []mEntry{{eco: "Go", name: "p", ranges: openRange()}}},
	{id: "G", entries: []mEntry{{eco: "", name: "p", ranges: openRange()}}},
	{id: "H", entries: []mEntry{{eco: "npm:x", name: "p", ranges: openRange()}}},
	{id: "I", entries: []mEntry{{eco: "npm:y", name: "p", versions: []string{"1.0.0"}}, {eco: "npm:x", name: "p", versions: []string{"2.0.0"}}}},
}

var c02Pkgs2 = []internal.PackageDetails{
	pd("npm", "Go", "p", "1.0.0"),
	pd("npm", "PyPI", "p", "2.0.0"),
	pd("PyPI", "npm", "P", "1.0.0"),
	pd("PyPI", "PyPI", "A_-.B", "2.0.0"),
	pd("npm", "npm", "P", "1.0.0"),
	pd("npm", "npm", "a__b", "1.0.0"),
	pd("Go", "npm", "p", "1.0.0"),
	pd("npm:x", "npm", "p", "1.0.0"),
	pd("npm:y", "npm", "p", "2.0.0"),
	pd("npm", "npm", "q", "2.0.0"),
	{Name: "p", Commit: sha1x},
	{Name: "a-b", Ecosystem: "PyPI", CompareAs: "PyPI", Commit: sha1x},
}

func c02Sets(c *C, menu []mAdv, pkgs []internal.PackageDetails, max int) {
	kind := c.N(2)
	n := c.N(max)
	rest := make([]int, len(menu))
	for i := range rest {
		rest[i] = i
	}
	var advs []mAdv
	for i := 0; i < n; i++ {
		k := c.N(len(rest))
		advs = append(advs, menu[rest[k]])
		rest = slices.Delete(rest, k, k+1)
		if i == 1 {
			c.Split()
		}
	}
	c.Leaf(fmt.Sprint(kind, advIDs(advs), advs))
	if kind == 1 {
		writeDir(caseDir(), advs)
	} else {
		caseDir()
	}
	db, all, _ := loadAdvs(c, kind, advs, nil)
	memo := map[string][]string{}
	hitAny := false
	// every pair of packages in both orders, then the whole list, on one database
	np := len(pkgs)
	verifyCheck(c, "empty list", db, advs, nil, memo)
	for i := 0; i < np; i++ {
		for j := 0; j < np; j++ {
			verifyCheck(c, "pair", db, advs, []internal.PackageDetails{pkgs[i], pkgs[j]}, memo)
		}
	}
	rev := slices.Clone(pkgs)
	slices.Reverse(rev)
	verifyCheck(c, "reversed list", db, advs, rev, memo)
	verifyCheck(c, "whole list", db, advs, append(slices.Clone(pkgs), pkgs...), memo)
	// the advisories a database holds
	for _, incl := range []bool{false, true} {
		var want, got []string
		for _, a := range advs {
			if (incl || !a.withdrawn) && len(a.entries) > 0 && !slices.Contains(want, a.id) {
				want = append(want, a.id)
			}
		}
		for _, v := range all(incl) {
			got = append(got, v.ID)
		}
		slices.Sort(want)
		slices.Sort(got)
		if !slices.Equal(want, got) {
			c.Fail("database holds %v, loaded %v (withdrawn included: %v)", got, want, incl)
		}
	}
	// restricting loading to the names being checked changes nothing
	lists := [][]internal.PackageDetails{pkgs, pkgs[:1], pkgs[2:4], pkgs[7:8], {pkgs[4], pkgs[0]}, pkgs[5:7]}
	for _, l := range lists {
		var names []string
		for _, p := range l {
			names = append(names, p.Name)
			if m := modelName(string(p.Ecosystem), p.Name); m != p.Name {
				names = append(names, m)
			}
		}
		fdb, _, _ := loadAdvs(c, kind, advs, names)
		verifyCheck(c, "filtered load", fdb, advs, l, memo)
		for _, p := range l {
			hitAny = hitAny || len(expectFor(advs, p)) > 0
		}
	}
	if hitAny {
		c.Nontrivial()
	}
}

// c02Scale: every number of advisories and packages up to the bound.
func c02Scale(c *C) {
	kind := c.N(2)
	na, np := c.N(c.Q(41, 130)), c.N(c.Q(41, 130))
	mode := c.N(3)
	c.Leaf(fmt.Sprint(kind, na, np, mode))
	var advs []mAdv
	for i := 0; i < na; i++ {
		name := "p"
		switch mode {
		case 1:
			name = fmt.Sprintf("p%d", i)
		case 2:
			name = fmt.Sprintf("p%d", i%7)
		}
		advs = append(advs, mAdv{id: fmt.Sprintf("ID-%d", i), aliases: []string{fmt.Sprintf("CVE-%d", i)}, entries: []mEntry{{eco: "npm", name: name, versions: []string{fmt.Sprintf("%d.0.0", i%5+1)}, ranges: []mRange{{"SEMVER", []mEvent{{"introduced", "6.0.0"}}}}}}})
	}
	var pkgs []internal.PackageDetails
	var names []string
	for i := 0; i < np; i++ {
		name := "p"
		if mode > 0 {
			name = fmt.Sprintf("p%d", (i*3)%50)
		}
		pkgs = append(pkgs, pd("npm", "npm", name, fmt.Sprintf("%d.0.0", i%7+1)))
		names = append(names, name)
	}
	if kind == 1 {
		writeDir(caseDir(), advs)
	} else {
		caseDir()
	}
	memo := map[string][]string{}
	db, _, cnt := loadAdvs(c, kind, advs, names)
	if cnt != na {
		c.Fail("%d advisories counted, %d loaded", cnt, na)
	}
	verifyCheck(c, "scale", db, advs, pkgs, memo)
	if na > 0 && np > 0 {
		c.Nontrivial()
	}
	_ = strings.Contains
}

// c02Entries: advisories with entries for packages of several ecosystems in every order, loaded for some of the names.
func c02Entries(c *C) {
	kind := c.N(2)
	menu := []mEntry{
		{eco: "npm", name: "p", ranges: openRange()},
		{eco: "npm", name: "q", ranges: openRange()},
		{eco: "PyPI", name: "p", ranges: openRange()},
		{eco: "PyPI", name: "A_b", ranges: openRange()},
		{eco: "Debian:11", name: "p", ranges: openRange()},
		{eco: "Debian:12", name: "q", ranges: openRange()},
		{eco: "npm", name: "p", versions: []string{"9.0.0"}},
		{eco: "Go", name: "z", ranges: openRange()},
		{eco: "", name: "", ranges: []mRange{{"GIT", []mEvent{{"introduced", "0"}}}}},
	}
	var advs []mAdv
	a := mAdv{id: "A"}
	for i, n := 0, 1+c.N(c.Q(3, 4)); i < n; i++ {
		a.entries = append(a.entries, menu[c.N(len(menu))])
		if i == 0 {
			c.Split()
		}
	}
	advs = append(advs, a, mAdv{id: "B", entries: []mEntry{menu[7], menu[c.N(4)]}})
	pkgs := []internal.PackageDetails{
		pd("npm", "npm", "p", "1.0.0"), pd("npm", "npm", "q", "1.0.0"), pd("PyPI", "PyPI", "p", "1.0.0"),
		pd("PyPI", "PyPI", "a.B", "1.0.0"), pd("Debian:11", "Debian", "p", "1.0"), pd("Debian:12", "Debian", "q", "1.0"), pd("npm", "npm", "p", "9.0.0"),
	}
	c.Leaf(fmt.Sprint(kind, advs))
	dir := caseDir()
	if kind == 1 {
		writeDir(dir, advs)
	}
	memo := map[string][]string{}
	db, _, n := loadAdvs(c, kind, advs, nil)
	if n != len(advs) {
		c.Fail("%d advisories counted, %d loaded", n, len(advs))
	}
	verifyCheck(c, "whole list", db, advs, pkgs, memo)
	for i := range pkgs {
		for _, j := range []int{i, (i + 1) % len(pkgs), (i + 3) % len(pkgs)} {
			l := []internal.PackageDetails{pkgs[i], pkgs[j]}
			var names []string
			for _, p := range l {
				names = append(names, p.Name)
				if m := modelName(string(p.Ecosystem), p.Name); m != p.Name {
					names = append(names, m)
				}
			}
			fdb, _, _ := loadAdvs(c, kind, advs, names)
			verifyCheck(c, fmt.Sprintf("loaded for %q", names), fdb, advs, l, memo)
			if len(expectFor(advs, pkgs[i])) > 0 {
				c.Nontrivial()
			}
		}
	}
}

package zzverif

import (
	"encoding/json"
	"fmt"
	"os"
	"slices"
	"sort"
	"strings"

	"github.com/g-rath/osv-detector/internal"
	"github.com/g-rath/osv-detector/pkg/database"
)

func init() {
	register("C01",
		Family{Name: "one-range", Run: c01Range},
		Family{Name: "long-range", Run: c01Long},
		Family{Name: "two-ranges", Run: c01TwoRanges},
		Family{Name: "same-version", Run: c01Ties},
		Family{Name: "entries", Run: c01Entries},
		Family{Name: "names", Run: c01Names},
		Family{Name: "near-misses", Run: c01Near},
		Family{Name: "through-db", Run: c01DB},
		Family{Name: "limits", Run: c01Limits},
		Family{Name: "many-parts", Run: c01Many},
	)
}

func decodeAdv(c *C, doc string) *database.OSV {
	var o database.OSV
	if err := json.Unmarshal([]byte(doc), &o); err != nil {
		c.Fail("a valid OSV document was refused: %v", err)
	}
	return &o
}

func pd(eco, cmp, name, ver string) internal.PackageDetails {
	return internal.PackageDetails{Name: name, Version: ver, Ecosystem: internal.Ecosystem(eco), CompareAs: internal.Ecosystem(cmp)}
}

func checkCovers(c *C, a mAdv, pkgs []internal.PackageDetails) {
	checkDocCovers(c, a.json(), a, pkgs)
}

// checkDocCovers: the document is to be understood as the advisory.
func checkDocCovers(c *C, doc string, a mAdv, pkgs []internal.PackageDetails) {
	o := decodeAdv(c, doc)
	yes, no := 0, 0
	// every package, twice: the answer may not depend on earlier questions
	for pass := 0; pass < 2; pass++ {
		for i := range pkgs {
			p := pkgs[i]
			if pass == 1 && len(pkgs) > 6 && i%4 != 1 {
				continue
			}
			if pass == 1 {
				p = pkgs[len(pkgs)-1-i]
			}
			want := covers(a, p)
			if got := o.IsAffected(p); got != want {
				c.Fail("advisory says affected=%v for %s@%s (ecosystem %s compared as %s), expected %v\n%s", got, p.Name, p.Version, p.Ecosystem, p.CompareAs, want, doc)
			}
			if want {
				yes++
			} else {
				no++
			}
		}
	}
	if yes > 0 && no > 0 {
		c.Nontrivial()
	}
	switch {
	case no == 0:
		c.Count("all affected")
	case yes == 0:
		c.Count("none affected")
	default:
		c.Count("some affected")
	}
}

func allVersions(eco string) []string {
	var out []string
	for _, g := range ranks[eco] {
		out = append(out, g...)
	}
	return out
}

var ecoNames = func() []string {
	out := sortedKeys(ranks)
	sort.Strings(out)
	return out
}()

var kinds = []string{"introduced", "fixed", "last_affected"}

// genRange chooses up to max events with distinct versions, in every order.
func genRange(c *C, cmp string, maxEv int, evRanks []int) []mEvent {
	n := 1 + c.N(maxEv)
	var evs []mEvent
	if c.Bool() {
		evs = append(evs, mEvent{"introduced", "0"})
	}
	// choose an increasing set of ranks
	lo := 0
	for len(evs) < n {
		left := len(evRanks) - lo - (n - len(evs)) + 1
		if left <= 0 {
			c.Skip()
		}
		lo += c.N(left)
		g := ranks[cmp][evRanks[lo]]
		evs = append(evs, mEvent{kinds[c.N(3)], g[len(g)-1]})
		lo++
	}
	c.Split()
	perm := c.Perm(len(evs))
	out := make([]mEvent, len(evs))
	for i, j := range perm {
		out[i] = evs[j]
	}
	return out
}

func c01Range(c *C) {
	cmp := ecoNames[c.N(len(ecoNames))]
	eco := cmp
	evRanks := []int{1, 2, 3, 4, 6}
	max := 4
	if c.Thorough() {
		evRanks = []int{1, 2, 3, 4, 5, 6, 7}
	}
	if cmp == "npm" || c.Thorough() {
		max = 5
	} else if cmp != "PyPI" && cmp != "Maven" && !c.Thorough() {
		evRanks = []int{1, 3, 4, 6}
	}
	evs := genRange(c, cmp, max, evRanks)
	typ := "ECOSYSTEM"
	// the range type and a foreign ecosystem name vary with the shape, not independently
	switch len(evs) {
	case 1, 2:
		typ = Pick(c, "ECOSYSTEM", "SEMVER", "GIT", "")
		eco = Pick(c, cmp, cmp+":rel", "Custom")
	case 3:
		typ = Pick(c, "ECOSYSTEM", "SEMVER")
	}
	a := mAdv{id: "A-1", entries: []mEntry{{eco: eco, name: "p", ranges: []mRange{{typ, evs}}}}}
	c.Leaf(eco + "/" + cmp + a.json())
	var pkgs []internal.PackageDetails
	for _, v := range allVersions(cmp) {
		pkgs = append(pkgs, pd(eco, cmp, "p", v))
	}
	checkCovers(c, a, pkgs)
}

// c01Long: ranges with many events (alternating, all-introduced, all-fixed …) written in many orders.
func c01Long(c *C) {
	cmp := Pick(c, "npm", "PyPI", "Maven", "Debian", "RubyGems", "CRAN")
	n := 5 + c.N(c.Q(26, 60))
	pattern := c.N(5)
	order := c.N(6)
	from0 := c.Bool()
	var evs []mEvent
	for i := 0; i < n; i++ {
		k := ""
		switch pattern {
		case 0:
			k = []string{"introduced", "fixed"}[i%2]
		case 1:
			k = []string{"introduced", "last_affected"}[i%2]
		case 2:
			k = []string{"introduced", "fixed", "introduced", "last_affected"}[i%4]
		case 3:
			k = []string{"introduced", "introduced", "fixed"}[i%3]
		case 4:
			k = []string{"fixed", "introduced"}[i%2]
		}
		v := fmt.Sprintf("%d.0.0", 2*(i+1))
		if i == 0 && from0 {
			k, v = "introduced", "0"
		}
		evs = append(evs, mEvent{k, v})
	}
	out := make([]mEvent, 0, n)
	switch order {
	case 0:
		out = evs
	case 1:
		for i := n - 1; i >= 0; i-- {
			out = append(out, evs[i])
		}
	case 2: // terminators first
		for _, e := range evs {
			if e.kind != "introduced" {
				out = append(out, e)
			}
		}
		for _, e := range evs {
			if e.kind == "introduced" {
				out = append(out, e)
			}
		}
	case 3: // rotated
		out = append(append(out, evs[n/2:]...), evs[:n/2]...)
	case 4: // lexicographic by version, as naive tools write them
		out = append(out, evs...)
		sort.SliceStable(out, func(i, j int) bool { return out[i].ver < out[j].ver })
	case 5: // bit-reversed like shuffle: stride
		s := 7
		for n%s == 0 {
			s += 2
		}
		for i := 0; i < n; i++ {
			out = append(out, evs[(i*s)%n])
		}
	}
	a := mAdv{id: "A-1", entries: []mEntry{{eco: cmp, name: "p", ranges: []mRange{{"ECOSYSTEM", out}}}}}
	c.Leaf(cmp + a.json())
	var pkgs []internal.PackageDetails
	for i := 1; i <= 2*n+2; i++ {
		pkgs = append(pkgs, pd(cmp, cmp, "p", fmt.Sprintf("%d.0.0", i)))
	}
	checkCovers(c, a, pkgs)
}

// c01Ties: ranges whose first affected version is also their last (also written differently), with the events
// written in every order. Ranges that overlap or are empty are left out: what they mean is not settled.
func c01Ties(c *C) {
	cmp := ecoNames[c.N(len(ecoNames))]
	n := 2 + c.N(c.Q(3, 4))
	at := []int{2, 4, 6}
	if n > 3 {
		at = []int{2, 4}
	}
	var evs []mEvent
	for len(evs) < n {
		k := c.N(3)
		r := c.N(len(at) + 1)
		if r == len(at) {
			if k != 0 {
				c.Skip()
			}
			evs = append(evs, mEvent{"introduced", "0"})
			continue
		}
		g := ranks[cmp][at[r]]
		evs = append(evs, mEvent{kinds[k], g[c.N(min(2, len(g)))]})
		if len(evs) == 1 {
			c.Split()
		}
	}
	rank := func(e mEvent, o int) int {
		if e.kind == "introduced" && e.ver == "0" {
			return 0
		}
		for i, g := range ranks[cmp] {
			if slices.Contains(g, e.ver) {
				return 3*i + 1 + o
			}
		}
		panic(e.ver)
	}
	sorted := slices.Clone(evs)
	key := func(e mEvent) int {
		return rank(e, map[string]int{"fixed": 0, "introduced": 0, "last_affected": 1}[e.kind])
	}
	sort.SliceStable(sorted, func(i, j int) bool { return key(sorted[i]) < key(sorted[j]) })
	ties := false
	for i, e := range sorted {
		if (e.kind == "introduced") != (i%2 == 0) || i > 0 && key(e) == key(sorted[i-1]) {
			c.Skip()
		}
		ties = ties || i > 0 && rank(e, 0) == rank(sorted[i-1], 0)
	}
	if !ties {
		c.Skip()
	}
	a := mAdv{id: "A-1", entries: []mEntry{{eco: cmp, name: "p", ranges: []mRange{{"ECOSYSTEM", evs}}}}}
	c.Leaf(cmp + a.json())
	var pkgs []internal.PackageDetails
	for _, v := range allVersions(cmp) {
		pkgs = append(pkgs, pd(cmp, cmp, "p", v))
	}
	checkCovers(c, a, pkgs)
}

// c01TwoRanges: the union over ranges of one entry, over mixed range types.
func c01TwoRanges(c *C) {
	cmp := Pick(c, "npm", "PyPI")
	n := 2 + c.N(2)
	V := func(i int) string { return ranks[cmp][i][0] }
	menu := []mRange{
		{"SEMVER", []mEvent{{"introduced", V(1)}, {"fixed", V(3)}}},
		{"ECOSYSTEM", []mEvent{{"fixed", V(6)}, {"introduced", V(4)}}},
		{"ECOSYSTEM", []mEvent{{"introduced", "0"}, {"last_affected", V(2)}}},
		{"SEMVER", []mEvent{{"introduced", V(7)}}},
		{"GIT", []mEvent{{"introduced", "0"}, {"fixed", "deadbeef"}}},
		{"GIT", []mEvent{{"introduced", "0"}}},
		{"OTHER", []mEvent{{"introduced", "0"}}},
		{"ECOSYSTEM", []mEvent{}},
		{"SEMVER", []mEvent{{"fixed", V(5)}}},
	}
	var rs []mRange
	for i := 0; i < n; i++ {
		rs = append(rs, menu[c.N(len(menu))])
	}
	vs := Pick(c, nil, []string{}, []string{V(5)}, []string{V(0), V(5), V(3)})
	a := mAdv{id: "A-1", entries: []mEntry{{eco: cmp, name: "p", ranges: rs, versions: vs}}}
	c.Leaf(cmp + a.json())
	var pkgs []internal.PackageDetails
	for _, v := range allVersions(cmp) {
		pkgs = append(pkgs, pd(cmp, cmp, "p", v))
	}
	pkgs = append(pkgs, pd(cmp, cmp, "p", ""))
	checkCovers(c, a, pkgs)
}

// entryMenu describes affected entries of an advisory for one of three worlds.
func genEntry(c *C, world int) mEntry {
	var e mEntry
	in := mRange{"ECOSYSTEM", []mEvent{{"introduced", "0"}, {"fixed", "1.9"}}}
	late := mRange{"ECOSYSTEM", []mEvent{{"introduced", "1.9"}}}
	git := mRange{"GIT", []mEvent{{"introduced", "0"}}}
	if world == 0 {
		in.events[1].ver, late.events[0].ver = "1.9.0", "1.9.0"
	}
	switch world {
	case 0:
		e.eco = Pick(c, "npm", "PyPI", "npm:x")
		e.name = Pick(c, "pkg", "Pkg", "pkg-2")
		e.versions = Pick(c, nil, []string{"1.0.0"}, []string{"2.0.0", "1.0.1"})
	case 1:
		e.eco = Pick(c, "PyPI", "npm")
		e.name = Pick(c, "my-pkg", "My_Pkg", "my..pkg", "mypkg")
		e.versions = Pick(c, nil, []string{"1.0"}, []string{"1.0.0", "1.10"})
	case 2:
		e.eco = Pick(c, "Debian", "Debian:11", "Debian:12", "Ubuntu:11")
		e.name = Pick(c, "pkg", "Pkg")
		e.versions = Pick(c, nil, []string{"1.0"})
	}
	switch c.N(6) {
	case 0:
	case 1:
		e.ranges = []mRange{in}
	case 2:
		e.ranges = []mRange{late}
	case 3:
		e.ranges = []mRange{git}
	case 4:
		e.ranges = []mRange{git, in}
	case 5:
		e.ranges = []mRange{}
	}
	return e
}

func worldPkgs(world int) []internal.PackageDetails {
	var out []internal.PackageDetails
	switch world {
	case 0:
		for _, v := range []string{"", "0.9.0", "1.0.0", "1.0.1", "1.9.0", "2.0.0"} {
			for _, n := range []string{"pkg", "Pkg", "pkg-2", "pk"} {
				out = append(out, pd("npm", "npm", n, v))
			}
			out = append(out, pd("PyPI", "npm", "pkg", v), pd("npm:x", "npm", "pkg", v), pd("npm:y", "npm", "pkg", v))
		}
	case 1:
		for _, v := range []string{"", "0.9", "1.0", "1.0.0", "1.9", "1.10"} {
			for _, n := range []string{"my-pkg", "My.Pkg", "my_pkg", "mypkg", "my--pkg"} {
				out = append(out, pd("PyPI", "PyPI", n, v))
			}
		}
	case 2:
		for _, v := range []string{"", "0.9", "1.0", "1.9", "1.10"} {
			for _, ec := range []string{"Debian", "Debian:11", "Debian:12", "Debian:1", "Ubuntu:11"} {
				out = append(out, pd(ec, "Debian", "pkg", v))
			}
		}
	}
	return out
}

func c01Entries(c *C) {
	world := c.N(3)
	n := c.N(3)
	a := mAdv{id: "A-1", entries: []mEntry{}}
	for i := 0; i < n; i++ {
		a.entries = append(a.entries, genEntry(c, world))
	}
	if n == 2 && c.Thorough() && world != 0 && c.Bool() {
		a.entries = append(a.entries, genEntry(c, world))
	}
	c.Leaf(fmt.Sprint(world) + a.json())
	checkCovers(c, a, worldPkgs(world))
}

// c01Names: every pair of short names over an alphabet of separators and cases.
func c01Names(c *C) {
	eco := Pick(c, "PyPI", "npm", "PyPI:x")
	al := []string{"a", "B", "-", "_", "."}
	gen := func() string {
		var b strings.Builder
		b.WriteString(Pick(c, "a", "A"))
		for _, i := range c.SeqN(len(al), 1+c.N(2)) {
			b.WriteString(al[i])
		}
		b.WriteString("b")
		return b.String()
	}
	an, pn := gen(), gen()
	base, _, _ := strings.Cut(eco, ":")
	a := mAdv{id: "A-1", entries: []mEntry{{eco: eco, name: an, versions: []string{"1.0"}}}}
	c.Leaf(eco + " " + an + " " + pn)
	checkCovers(c, a, []internal.PackageDetails{pd(eco, base, pn, "1.0"), pd(eco, base, pn, "2.0"), pd(eco, base, pn, "")})
}

// c01Near: versions, names and ecosystems that are almost, but not, the same.
func c01Near(c *C) {
	if c.Bool() {
		vs := []string{"1.0.0", "1.0", "1", "v1.0.0", "V1.0.0", "1.0.0 ", " 1.0.0", "=1.0.0", "==1.0.0", "1.0.0+b", "1.0.0-rc", "1.0.0-RC", "01.0.0", "1.0.0.0", "1.0.00", "10.0", "1_0_0", "1.0.0~", "1:1.0.0", "1.0.0-1", "1.0.0,2.0.0", "*", "0", "x"}
		cmp := Pick(c, "npm", "PyPI", "Maven", "Go", "Debian", "RubyGems", "Packagist")
		list := []string{vs[c.N(len(vs))]}
		if c.Bool() {
			list = append(list, Pick(c, "1.0.0", "9.9", "v1.0.0"))
		}
		a := mAdv{id: "A-1", entries: []mEntry{{eco: cmp, name: "p", versions: list, ranges: Pick(c, nil, []mRange{{"GIT", []mEvent{{"introduced", "0"}}}})}}}
		c.Leaf(cmp + a.json())
		var pkgs []internal.PackageDetails
		for _, v := range vs {
			pkgs = append(pkgs, pd(cmp, cmp, "p", v))
		}
		checkCovers(c, a, pkgs)
		return
	}
	ecos := []string{"npm", "NPM", "npm ", "crates.io", "crates", "Go", "GO", "PyPI", "pypi", "Debian", "Debian:", "Debian:11", "Debian:11 ", "Debian:11:x", "debian:11", ":11", "", "Alpine:v3.18", "Alpine:3.18", "Alpine:v3.1", "Maven", "Pub", "GitHub Actions"}
	names := []string{"pkg", "Pkg", "pkg ", " pkg", "@s/pkg", "s/pkg", "@S/pkg", "pkg/v2", "g:pkg", "pkg:", "p%6bg", "pkg.", "pkg_", "рkg"}
	ae, an := ecos[c.N(len(ecos))], names[c.N(len(names))]
	a := mAdv{id: "A-1", entries: []mEntry{{eco: ae, name: an, versions: []string{"1.0.0"}}}}
	c.Leaf(a.json())
	var pkgs []internal.PackageDetails
	for _, pe := range ecos {
		for _, pn := range names {
			pkgs = append(pkgs, pd(pe, "npm", pn, "1.0.0"))
		}
	}
	checkCovers(c, a, pkgs)
}

// c01DB: the same question asked of a loaded database and of the command line.
func c01DB(c *C) {
	cmp := ecoNames[c.N(len(ecoNames))]
	V := func(i int) string { g := ranks[cmp][i]; return g[len(g)-1] }
	shapes := [][]mEvent{
		{{"introduced", "0"}},
		{{"introduced", "0"}, {"fixed", V(3)}},
		{{"fixed", V(5)}, {"introduced", V(2)}},
		{{"last_affected", V(3)}, {"introduced", V(1)}},
		{{"introduced", V(5)}, {"fixed", V(2)}, {"introduced", "0"}, {"last_affected", V(6)}},
		{{"introduced", V(4)}},
	}
	evs := shapes[c.N(len(shapes))]
	a := mAdv{id: "A-1", summary: "s", withdrawn: c.Bool(), entries: []mEntry{{eco: cmp, name: "p", ranges: []mRange{{Pick(c, "ECOSYSTEM", "SEMVER", "GIT"), evs}}, versions: Pick(c, nil, []string{V(7)})}}}
	c.Leaf(cmp + a.json())
	dir := caseDir()
	Files{"db/a.json": a.json()}.write(dir)
	var rows []string
	for _, v := range append(allVersions(cmp), "") {
		rows = append(rows, fmt.Sprintf("%s,,p,%s", cmp, v))
	}
	Files{".osv-detector.yml": "extra-databases:\n  - url: file:/db\n", "csv": strings.Join(rows, "\n") + "\n"}.write(dir)
	net.reset(nil)
	r := cli("--json", "--use-dbs=false", "csv-file:csv")
	rep, err := r.report()
	if err != nil || len(rep.Results) != 1 {
		c.Fail("no usable report: %v (exit %d)\n%s\n%s", err, r.Code, r.Out, r.Err)
	}
	any := false
	got := map[string]int{}
	for _, p := range rep.Results[0].Packages {
		got[p.Version]++
		want := !a.withdrawn && covers(a, pd(cmp, cmp, "p", p.Version))
		any = any || want
		if (len(p.Vulnerabilities) > 0) != want {
			c.Fail("report for %s@%s: %d findings, expected affected=%v\n%s", p.Name, p.Version, len(p.Vulnerabilities), want, a.json())
		}
	}
	if len(got) != len(rows) {
		c.Fail("%d of %d rows reported", len(got), len(rows))
	}
	wantCode := 0
	if any {
		wantCode = 1
		c.Nontrivial()
		c.Count("cli: findings")
	} else {
		c.Count("cli: clean")
	}
	if r.Code != wantCode {
		c.Fail("exit code %d, expected %d\n%s", r.Code, wantCode, r.Err)
	}
	_ = os.Stdout
}

// c01Limits: events that only say that there is no limit, at every position of the others.
func c01Limits(c *C) {
	cmp := ecoNames[c.N(len(ecoNames))]
	evs := genRange(c, cmp, 3, []int{1, 3, 4, 6})
	at := c.N(len(evs) + 1)
	typ := Pick(c, "ECOSYSTEM", "SEMVER")
	with := slices.Insert(slices.Clone(evs), at, mEvent{"limit", "*"})
	a := mAdv{id: "A-1", entries: []mEntry{{eco: cmp, name: "p", ranges: []mRange{{typ, evs}}}}}
	d := mAdv{id: "A-1", entries: []mEntry{{eco: cmp, name: "p", ranges: []mRange{{typ, with}}}}}
	c.Leaf(cmp + d.json())
	var pkgs []internal.PackageDetails
	for _, v := range allVersions(cmp) {
		pkgs = append(pkgs, pd(cmp, cmp, "p", v))
	}
	checkDocCovers(c, d.json(), a, pkgs)
}

// c01Many: advisories of many entries, ranges or versions, of which one (or none) covers the package.
func c01Many(c *C) {
	n := Pick(c, 2, 3, 4, 5, 7, 8, 9, 10, 11, 15, 16, 17, 20, 31, 32, 33, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 500, 512, 513, 1000, 1001, 1024, 1025)
	at := []int{0, 1, n / 2, n - 2, n - 1, n}[c.N(6)]
	what := c.N(5)
	down := c.Bool()
	v := func(i int) string {
		if down {
			i = n - i
		}
		return fmt.Sprintf("%d.0.0", 10*(i+1))
	}
	one := func(x string) []mRange {
		return []mRange{{"ECOSYSTEM", []mEvent{{"introduced", x}, {"last_affected", x}}}}
	}
	a := mAdv{id: "A-1"}
	e := mEntry{eco: "npm", name: "p"}
	for i := 0; i < n; i++ {
		x := v(i)
		if i == at {
			x = "5.0.0"
		}
		switch what {
		case 0:
			e.versions = append(e.versions, x)
		case 1:
			e.ranges = append(e.ranges, one(x)...)
		case 2:
			a.entries = append(a.entries, mEntry{eco: "npm", name: "p", ranges: one(x)})
		case 3:
			name := fmt.Sprintf("p%d", i)
			if i == at {
				name = "p"
			}
			a.entries = append(a.entries, mEntry{eco: "npm", name: name, versions: []string{"5.0.0"}})
		case 4:
			e.versions = append(e.versions, v(i))
			e.ranges = append(e.ranges, mRange{"GIT", []mEvent{{"introduced", "0"}}})
			if i == at {
				e.ranges = append(e.ranges, one("5.0.0")...)
			}
		}
	}
	if what != 2 && what != 3 {
		a.entries = append(a.entries, e)
	}
	c.Leaf(fmt.Sprintf("%d parts of kind %d, the one in question at %d, descending %v", n, what, at, down))
	checkCovers(c, a, []internal.PackageDetails{pd("npm", "npm", "p", "5.0.0"), pd("npm", "npm", "p", "6.0.0"), pd("npm", "npm", "p", v(0)), pd("npm", "npm", "p", v(n-1)), pd("npm", "npm", "q", "5.0.0"), pd("npm", "npm", "p", "4.0.0")})
}

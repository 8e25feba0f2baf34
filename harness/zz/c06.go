package zzverif

import (
	"encoding/json"
	"fmt"
	"os"
	"slices"
	"sort"
	"strings"

	"github.com/g-rath/osv-detector/internal"
	"github.com/g-rath/osv-detector/pkg/database"
)

func init() {
	register("C06",
		Family{Name: "arrival-orders", Run: c06Orders},
		Family{Name: "batching", Run: c06Batching},
		Family{Name: "scale", Run: c06Scale},
		Family{Name: "sizes", Run: c06Sizes},
		Family{Name: "command-line", Run: c06CLI},
	)
	register("C06s", Family{Name: "interleavings", Run: c06Sched}, Family{Name: "interleavings-cli", Run: c06SchedCLI, Thorough: true})
	register("C06r", Family{Name: "concurrent", Run: c06Race})
}

// apiWorld is an API: what it answers for each package, and the details it serves.
type apiWorld struct {
	base    string
	answers map[string][]string // by query
	detail  map[string]string   // by id
}

func qkey(p mPkg) string {
	if p.Name != "" && p.Ecosystem != "" && p.Version != "" {
		return "pkg " + string(p.Ecosystem) + " " + p.Name + " " + p.Version
	}
	return "commit " + p.Commit
}

func (x apiQ) qkey() string {
	if x.Commit != "" {
		if x.Package.Name != "" || x.Version != "" || x.Package.Ecosystem != "" {
			return fmt.Sprintf("mixed %+v", x)
		}
		return "commit " + x.Commit
	}
	return "pkg " + x.Package.Ecosystem + " " + x.Package.Name + " " + x.Version
}

func (a *apiWorld) split() (string, string) {
	b, qs, _ := strings.Cut(a.base, "?")
	if qs != "" {
		qs = "?" + qs
	}
	return strings.TrimSuffix(b, "/"), qs
}

func (a *apiWorld) serve(r *Req) Resp {
	b, qs := a.split()
	if r.Method == "POST" && r.URL == b+"/querybatch"+qs {
		xs, err := parseBatch(r.Body)
		if err != nil {
			return Resp{Code: 400, Body: "{}"}
		}
		var out []string
		for _, x := range xs {
			var vs []string
			for _, id := range a.answers[x.qkey()] {
				vs = append(vs, fmt.Sprintf(`{"id":%s,"modified":"2024-01-01T00:00:00Z"}`, q(id)))
			}
			if len(vs) == 0 {
				out = append(out, "{}")
			} else {
				out = append(out, `{"vulns":[`+strings.Join(vs, ",")+`]}`)
			}
		}
		return Resp{Body: `{"results":[` + strings.Join(out, ",") + `]}`}
	}
	if r.Method == "GET" && strings.HasPrefix(r.URL, b+"/vulns/") {
		id := strings.TrimSuffix(strings.TrimPrefix(r.URL, b+"/vulns/"), qs)
		if d, ok := a.detail[id]; ok {
			return Resp{Body: d}
		}
	}
	return Resp{Code: 404, Body: "{}"}
}

// checkRequests: every package is asked about exactly once, in requests of at most size packages.
func (a *apiWorld) checkRequests(c *C, reqs []Req, pkgs []mPkg, size int) {
	var got, want []string
	n := 0
	for _, r := range reqs {
		if r.Method != "POST" {
			continue
		}
		b, qs := a.split()
		if r.URL != b+"/querybatch"+qs {
			c.Fail("a query was sent to %s", r.URL)
		}
		xs, err := parseBatch(r.Body)
		if err != nil {
			c.Fail("a query is not JSON: %v", err)
		}
		n++
		if len(xs) > size {
			c.Fail("a request asks about %d packages, with a batch size of %d", len(xs), size)
		}
		for _, x := range xs {
			got = append(got, x.qkey())
		}
	}
	for _, p := range pkgs {
		want = append(want, qkey(p))
	}
	sort.Strings(got)
	sort.Strings(want)
	if !slices.Equal(got, want) {
		c.Fail("the API was asked about\n  %s\nexpected\n  %s", strings.Join(got, "\n  "), strings.Join(want, "\n  "))
	}
	c.Count(fmt.Sprintf("%d requests", min(n, 9)))
}

// checkResults: what was found for each package is what the API said about it.
func (a *apiWorld) checkResults(c *C, got []database.Vulnerabilities, err error, pkgs []mPkg, tr []string) {
	t := ""
	if len(tr) > 0 {
		t = "\nschedule:\n  " + strings.Join(tr, "\n  ")
	}
	if err != nil {
		c.Fail("unexpected error: %v%s", err, t)
	}
	if len(got) != len(pkgs) {
		c.Fail("%d results for %d packages%s", len(got), len(pkgs), t)
	}
	for i, p := range pkgs {
		var ids []string
		for _, v := range got[i] {
			ids = append(ids, v.ID)
		}
		want := a.answers[qkey(p)]
		if !slices.Equal(ids, want) && len(ids)+len(want) > 0 {
			c.Fail("package %d (%s): got %v, the API said %v%s", i, qkey(p), ids, want, t)
		}
		for _, v := range got[i] {
			var d database.OSV
			if json.Unmarshal([]byte(a.detail[v.ID]), &d) == nil && js(d) != js(v) {
				c.Fail("package %d: %s has details %s, the API serves %s%s", i, v.ID, js(v), js(d), t)
			}
		}
	}
}

func apiDetail(id string) string {
	return fmt.Sprintf(`{"id":%s,"aliases":[%s],"summary":%s,"details":"about it","modified":"2024-01-01T00:00:00Z","affected":[{"package":{"ecosystem":"npm","name":"x"},"versions":["1"],"ranges":[]}],"references":[{"type":"WEB","url":"https://x.test"}]}`, q(id), q("CVE-"+id), q("summary of "+id))
}

func quoteAll(in []string) []string {
	var out []string
	for _, s := range in {
		out = append(out, q(s))
	}
	return out
}

// c06Pkgs chooses packages and what the API says about them.
func c06World(kinds []int, ans [][]string) ([]mPkg, *apiWorld) {
	a := &apiWorld{base: "https://api.test/v1", answers: map[string][]string{}, detail: map[string]string{}}
	var pkgs []mPkg
	for i, k := range kinds {
		var p mPkg
		switch k {
		case 0:
			p = pd("npm", "npm", fmt.Sprintf("p%d", i), "1.0.0")
		case 1:
			p = mPkg{Name: fmt.Sprintf("c%d", i), Ecosystem: "npm", CompareAs: "npm", Commit: fmt.Sprintf("%040d", i)}
		case 2: // a version and a commit
			p = pd("PyPI", "PyPI", fmt.Sprintf("b%d", i), "2.0")
			p.Commit = fmt.Sprintf("%040d", i)
		case 3: // the same package as before
			if i == 0 {
				p = pd("npm", "npm", "p0", "1.0.0")
			} else {
				p = pkgs[i-1]
			}
		case 4: // same name, other version
			p = pd("npm", "npm", "p0", fmt.Sprintf("2.0.%d", i))
		case 5: // same name and version, other ecosystem
			p = pd("PyPI", "PyPI", "p0", "1.0.0")
		case 6:
			p = mPkg{Name: "", Ecosystem: "", CompareAs: "", Commit: fmt.Sprintf("%040d", i)}
		}
		pkgs = append(pkgs, p)
		if _, ok := a.answers[qkey(p)]; !ok {
			a.answers[qkey(p)] = ans[i]
		}
	}
	var all []string
	for _, ids := range a.answers {
		all = append(all, ids...)
	}
	slices.Sort(all)
	all = slices.Compact(all)
	for i, id := range all {
		// each is an alias of the others, which makes no difference to what belongs to an id
		a.detail[id] = strings.Replace(apiDetail(id), `"aliases":[`, `"aliases":[`+strings.Join(append(quoteAll(all[:i]), append(quoteAll(all[i+1:]), "")...), ","), 1)
	}
	return pkgs, a
}

func c06DB(a *apiWorld, size int) *database.APIDB {
	db, err := database.NewAPIDB(database.Config{Name: "x", Type: "api", URL: a.base}, false, size)
	must(err)
	return db
}

func c06Key(pkgs []mPkg, a *apiWorld, size int) string {
	var b strings.Builder
	fmt.Fprintf(&b, "batch size %d, base %s\n", size, a.base)
	for _, p := range pkgs {
		fmt.Fprintf(&b, "%s: %v\n", qkey(p), a.answers[qkey(p)])
	}
	return b.String()
}

func clonePkgs(in []mPkg) []internal.PackageDetails { return slices.Clone(in) }

// c06Orders: all orders in which the responses can arrive.
func c06Orders(c *C) {
	shapes := []struct {
		kinds []int
		ans   [][]string
		size  int
	}{
		{[]int{0, 0}, [][]string{{"A"}, {"B"}}, 1},
		{[]int{0, 0, 0}, [][]string{{"A"}, {"B"}, {"C"}}, 1},
		{[]int{0, 0, 0}, [][]string{{"B", "A"}, {}, {"B"}}, 1},
		{[]int{0, 1, 2, 0}, [][]string{{"A"}, {"B"}, {"A"}, {"C"}}, 1},
		{[]int{0, 0, 0, 0}, [][]string{{"D"}, {"A", "C"}, {"B"}, {}}, 1},
		{[]int{0, 0, 0, 0, 0}, [][]string{{"A"}, {}, {"B"}, {}, {}}, 1},
		{[]int{0, 0, 0, 0, 0}, [][]string{{"A"}, {"A", "B"}, {"B"}, {"C"}, {}}, 2},
		{[]int{0, 0, 0, 0, 0, 0}, [][]string{{"A"}, {}, {"B"}, {"C"}, {"D"}, {}}, 2},
		{[]int{0, 3, 0, 3, 4, 5}, [][]string{{"A"}, {"A"}, {"B"}, {"B"}, {"C"}, {"D"}}, 2},
		{[]int{0, 0, 0, 0, 0, 0, 0}, [][]string{{"A"}, {}, {"B"}, {"C"}, {}, {}, {"A"}}, 3},
		{[]int{0, 0}, [][]string{{"E", "D", "C"}, {"B", "A"}}, 2},
		{[]int{0, 0, 0}, [][]string{{"C"}, {"B"}, {"A"}}, 3},
		{[]int{0, 0, 0, 0, 0, 0}, [][]string{{"A"}, {}, {}, {}, {}, {"B"}}, 1},
	}
	n := len(shapes)
	if !c.Thorough() {
		n--
	}
	s := shapes[c.N(n)]
	pkgs, a := c06World(s.kinds, s.ans)
	net.reset(a.serve)
	c.Leaf("orders of " + c06Key(pkgs, a, s.size))
	var got []database.Vulnerabilities
	var err error
	in := clonePkgs(pkgs)
	tr, pan := c.controlled(-1, func() { got, err = c06DB(a, s.size).Check(in) })
	if pan != nil {
		c.Fail("panic: %v", pan)
	}
	a.checkRequests(c, net.take(), pkgs, s.size)
	a.checkResults(c, got, err, pkgs, tr.trace)
	if !slices.Equal(in, pkgs) {
		c.Fail("the list of packages was changed: %v to %v", pkgs, in)
	}
	c.Nontrivial()
	c.AddTraces(1)
}

// c06Batching: every number of packages and batch size, every mix of packages and answers.
func c06Batching(c *C) {
	n := c.N(c.Q(8, 10))
	size := 1 + c.N(n+2)
	if c.Bool() && n > 0 {
		// many packages, simple answers
		pat := c.N(4)
		var kinds []int
		var ans [][]string
		for i := 0; i < n; i++ {
			kinds = append(kinds, 0)
			switch pat {
			case 0:
				ans = append(ans, []string{fmt.Sprintf("V-%d", i)})
			case 1:
				ans = append(ans, []string{"SHARED"})
			case 2:
				ans = append(ans, [][]string{{}, {"X", fmt.Sprintf("V-%d", n-i)}}[i%2])
			case 3:
				ans = append(ans, [][]string{{"Z", "Y"}, {"Y", "Z"}, {}}[i%3])
			}
		}
		c06Sync(c, kinds, ans, size, c.N(4))
		return
	}
	if n > c.Q(3, 4) {
		c.Skip()
	}
	kinds := c.SeqN(7, n)
	var ans [][]string
	for i := 0; i < n; i++ {
		ans = append(ans, Pick(c, []string{}, []string{"A"}, []string{"GHSA-b2f8-mx_q.z", "a", "A"}, []string{fmt.Sprintf("V-%d", i)}))
	}
	c06Sync(c, kinds, ans, size, 0)
}

func c06Sync(c *C, kinds []int, ans [][]string, size, base int) {
	pkgs, a := c06World(kinds, ans)
	a.base = []string{"https://api.test/v1", "https://api.test/v1/", "https://api.test:8443/a/b", "https://api.test/v1?key=z"}[base]
	c.Leaf(c06Key(pkgs, a, size))
	net.reset(a.serve)
	in := clonePkgs(pkgs)
	db := c06DB(a, size)
	got, err := db.Check(in)
	a.checkRequests(c, net.take(), pkgs, size)
	a.checkResults(c, got, err, pkgs, nil)
	if !slices.Equal(in, pkgs) {
		c.Fail("the list of packages was changed: %v to %v", pkgs, in)
	}
	if len(pkgs) > 0 {
		c.Nontrivial()
	}
	// the same database again
	got, err = db.Check(in)
	a.checkRequests(c, net.take(), pkgs, size)
	a.checkResults(c, got, err, pkgs, nil)
}

// c06Scale: more batches and advisories than the code handles at once.
func c06Scale(c *C) {
	n := Pick(c, 99, 100, 101, 102, 199, 200, 201, 202, 250, 401)
	size := Pick(c, 1, 2, 7, 100, 1000)
	pat := c.N(3)
	order := c.N(3)
	kinds := make([]int, n)
	var ans [][]string
	for i := range kinds {
		switch pat {
		case 0:
			ans = append(ans, []string{fmt.Sprintf("V-%03d", (i*37)%n)})
		case 1:
			ans = append(ans, []string{fmt.Sprintf("V-%03d", i/2), fmt.Sprintf("W-%03d", n-i)})
		case 2:
			ans = append(ans, [][]string{{}, {fmt.Sprintf("V-%03d", i)}}[i%2])
		}
	}
	pkgs, a := c06World(kinds, ans)
	c.Leaf(fmt.Sprintf("%d packages, pattern %d, batch size %d, order %d", n, pat, size, order))
	net.reset(a.serve)
	var got []database.Vulnerabilities
	var err error
	_, pan := c.forced(order, func() { got, err = c06DB(a, size).Check(clonePkgs(pkgs)) })
	if pan != nil {
		c.Fail("panic: %v", pan)
	}
	a.checkRequests(c, net.take(), pkgs, size)
	a.checkResults(c, got, err, pkgs, nil)
	c.Nontrivial()
}

// c06Sizes: responses of every magnitude.
func c06Sizes(c *C) {
	bits := 8 + c.N(c.Q(15, 18))
	size := 1<<bits + Pick(c, -1, 0, 1)
	what := c.N(4)
	_, a := c06World(nil, nil)
	pkgs := []mPkg{{Name: "p", Version: "1", Ecosystem: "npm", CompareAs: "npm"}, {Name: "q", Version: "1", Ecosystem: "npm", CompareAs: "npm"}, {Name: "r", Version: "1", Ecosystem: "npm", CompareAs: "npm"}}
	a.base = "https://api.test/v1"
	a.answers = map[string][]string{qkey(pkgs[0]): {"A-1"}, qkey(pkgs[1]): {"A-2", "A-1"}, qkey(pkgs[2]): {"A-3"}}
	a.detail = map[string]string{"A-1": apiDetail("A-1"), "A-2": apiDetail("A-2"), "A-3": apiDetail("A-3")}
	c.Leaf(fmt.Sprintf("%d bytes, kind %d", size, what))
	pad := func(s string) string { return strings.Repeat("x", max(size-len(s), 0)) }
	d := a.detail["A-2"]
	switch what {
	case 1:
		a.detail["A-2"] = strings.Replace(d, "about it", "about it"+pad(d), 1)
	case 2:
		d = strings.Replace(d, `"versions":["1"]`, `"versions":["1"$]`, 1)
		a.detail["A-2"] = strings.Replace(d, "$", strings.Repeat(`,"1.0"`, max(size-len(d), 0)/6), 1)
	}
	net.reset(func(r *Req) Resp {
		p := a.serve(r)
		switch {
		case r.Method == "POST" && what == 0:
			p.Body = `{"next":"` + pad(p.Body) + `",` + p.Body[1:]
		case r.Method == "GET" && what == 3:
			p.Body = p.Body[:len(p.Body)-1] + strings.Repeat(" \n", max(size-len(p.Body), 0)/2) + "}"
		}
		return p
	})
	db := c06DB(a, 2)
	got, err := db.Check(clonePkgs(pkgs))
	a.checkRequests(c, net.take(), pkgs, 2)
	a.checkResults(c, got, err, pkgs, nil)
	c.Nontrivial()
}

// forced runs f with the responses arriving first to last (0), last to first (1)
// or from the middle (2) of those outstanding.
func (c *C) forced(order int, f func()) (*sched, any) {
	d := &C{eng: c.eng, fam: c.fam, force: func(n int) int { return []int{0, n - 1, n / 2}[order] }}
	return d.controlled(-1, f)
}

// c06CLI: the same through the command line.
func c06CLI(c *C) {
	n := c.N(6)
	size := Pick(c, 0, 1, 2, 3, 5, 1000, -1)
	pat := c.N(3)
	ord := c.N(2)
	w := newWorld()
	var pk []mPkg
	var advs []mAdv
	for i := 0; i < n; i++ {
		nm := fmt.Sprintf("p%d", (i*3)%7)
		pk = append(pk, pd("npm", "npm", nm, fmt.Sprintf("1.0.%d", i)))
		switch pat {
		case 0:
			advs = append(advs, on("V-"+nm, "npm", nm))
		case 1:
			if i%2 == 0 {
				advs = append(advs, on(fmt.Sprintf("V-%d", 9-i), "npm", nm), on(fmt.Sprintf("W-%d", i), "npm", nm))
			}
		}
	}
	if pat == 2 {
		a := mAdv{id: "ALL", summary: "all"}
		for i := 0; i < n; i++ {
			a.entries = append(a.entries, mEntry{eco: "npm", name: fmt.Sprintf("p%d", (i*3)%7), ranges: openRange()})
		}
		advs = append(advs, a)
	}
	w.api(apiURL, advs...)
	w.lock("d/package-lock.json", pk...)
	args := []string{"--json", "--use-api", "--use-dbs=false"}
	if size != 0 {
		args = append(args, fmt.Sprintf("--batch-size=%d", size))
	} else {
		size = 1000
	}
	args = append(args, "d")
	f := mFlags{json: true, useAPI: bptr(true), useDBs: bptr(false)}
	c.Leaf(fmt.Sprintf("%v %d\n%s", args, ord, w.key(f, nil)))
	w.setup()
	var r Run
	_, pan := c.forced(ord, func() { r = cli(args...) })
	if pan != nil {
		c.Fail("panic: %v", pan)
	}
	if size < 1 {
		if r.Code != 127 {
			c.Fail("exit code %d with an invalid batch size\n%s", r.Code, r)
		}
		return
	}
	e := w.expect(f, []string{"d"})
	w.compareJSON(c, r, e)
	(&apiWorld{base: apiURL}).checkRequests(c, r.Reqs, pk, size)
	if n > 0 {
		c.Nontrivial()
	}
}

// ---- instrumented build -----------------------------------------------------------

// c06Sched: interleavings of the statements of concurrent work.
func c06Sched(c *C) {
	if os.Getenv("VERIF_SCHED") != "stmt" {
		c.Count("not instrumented")
	}
	shapes := []struct {
		kinds []int
		ans   [][]string
		size  int
	}{
		{[]int{0, 0}, [][]string{{"A"}, {"B"}}, 1},
		{[]int{0, 0, 0}, [][]string{{"A"}, {"B", "A"}, {}}, 2},
		{[]int{0}, [][]string{{"B", "A"}}, 1},
		{[]int{0, 0, 0}, [][]string{{}, {"A"}, {}}, 1},
		{[]int{0, 0, 0}, [][]string{{"A"}, {"B"}, {"C"}}, 1},
	}
	k := c.N(c.Q(4, 5))
	s := shapes[k]
	pkgs, a := c06World(s.kinds, s.ans)
	net.reset(a.serve)
	ph := c.N(32)
	c.Leaf(fmt.Sprintf("interleavings (part %d) of %s", ph, c06Key(pkgs, a, s.size)))
	var got []database.Vulnerabilities
	var err error
	b := c.Q(1, 2)
	tr, pan := c.controlledPhase(b, ph, 32, func() { got, err = c06DB(a, s.size).Check(clonePkgs(pkgs)) })
	if pan != nil {
		c.Fail("panic: %v\nschedule:\n%s", pan, strings.Join(tr.trace, "\n"))
	}
	a.checkRequests(c, net.take(), pkgs, s.size)
	a.checkResults(c, got, err, pkgs, tr.trace)
	c.Nontrivial()
	c.AddTraces(1)
	c.Count(fmt.Sprintf("%d preemptions", tr.switches))
}

func c06SchedCLI(c *C) {
	w := newWorld()
	w.api(apiURL, on("A", "npm", "p"), on("B", "npm", "r"))
	w.lock("d/package-lock.json", pd("npm", "npm", "p", "1.0.0"), pd("npm", "npm", "r", "1.0.0"))
	c.Leaf("command line, batch size 1")
	w.setup()
	var r Run
	_, pan := c.controlled(1, func() { r = cli("--json", "--use-api", "--use-dbs=false", "--batch-size=1", "d") })
	if pan != nil {
		c.Fail("panic: %v", pan)
	}
	w.compareJSON(c, r, w.expect(mFlags{json: true, useAPI: bptr(true), useDBs: bptr(false)}, []string{"d"}))
	c.Nontrivial()
	c.AddTraces(1)
}

// c06Race runs under the race detector with all requests outstanding at once.
func c06Race(c *C) {
	n := 1 + c.N(6)
	size := 1 + c.N(3)
	pat := c.N(3)
	rep := c.N(4)
	kinds := make([]int, n)
	var ans [][]string
	for i := range kinds {
		ans = append(ans, [][][]string{{{fmt.Sprintf("V-%d", i)}}, {{"A", "B"}, {}}, {{fmt.Sprintf("V-%d", i), fmt.Sprintf("W-%d", i)}, {"A"}}}[pat][i%min(2, 1+pat)])
	}
	pkgs, a := c06World(kinds, ans)
	c.Leaf(fmt.Sprintf("%d %s", rep, c06Key(pkgs, a, size)))
	net.reset(a.serve)
	got, err := c06DB(a, size).Check(clonePkgs(pkgs))
	a.checkRequests(c, net.take(), pkgs, size)
	a.checkResults(c, got, err, pkgs, nil)
	c.Nontrivial()
}

package zzverif

import (
	"fmt"
	"slices"
	"strings"

	"github.com/g-rath/osv-detector/pkg/database"
)

func init() {
	register("C07",
		Family{Name: "batch-failures", Run: c07Batch},
		Family{Name: "broken-bodies", Run: c07Bodies},
		Family{Name: "detail-failures", Run: c07Details},
		Family{Name: "command-line", Run: c07CLI},
		Family{Name: "two-apis", Run: c07Two},
		Family{Name: "scale", Run: c07Scale},
	)
	register("C07s", Family{Name: "interleavings", Run: c07Sched})
}

// apiFault makes an answer of the API fail; n is how many packages were asked about.
type apiFault struct {
	name string
	make func(good string, n int) Resp
}

func countBody(n int) string {
	return `{"results":[` + strings.TrimSuffix(strings.Repeat("{},", max(n, 0)), ",") + `]}`
}

var apiFaults = func() []apiFault {
	out := []apiFault{
		{"connection refused", func(string, int) Resp { return Resp{Err: errNet} }},
		{"cut at the start", func(g string, n int) Resp { return Resp{Body: g, Cut: true, CutAt: 0} }},
		{"cut in the middle", func(g string, n int) Resp { return Resp{Body: g, Cut: true, CutAt: len(g) / 2} }},
		{"cut after everything", func(g string, n int) Resp { return Resp{Body: g, Cut: true, CutAt: len(g)} }},
		{"cut, no length", func(g string, n int) Resp { return Resp{Body: g, Cut: true, CutAt: len(g) - 1, NoLength: true} }},
		{"one result missing", func(g string, n int) Resp { return Resp{Body: countBody(n - 1)} }},
		{"no results", func(g string, n int) Resp { return Resp{Body: `{"results":[]}`} }},
		{"results null", func(g string, n int) Resp { return Resp{Body: `{"results":null}`} }},
		{"one result too many", func(g string, n int) Resp { return Resp{Body: countBody(n + 1)} }},
		{"twice the results", func(g string, n int) Resp { return Resp{Body: countBody(2 * n)} }},
		{"empty object", func(g string, n int) Resp { return Resp{Body: `{}`} }},
		{"error object", func(g string, n int) Resp { return Resp{Body: `{"code":3,"message":"Invalid query."}`} }},
		{"empty body", func(g string, n int) Resp { return Resp{Body: ""} }},
		{"html", func(g string, n int) Resp { return Resp{Body: "<html>busy</html>"} }},
		{"truncated JSON", func(g string, n int) Resp { return Resp{Body: g[:len(g)-1]} }},
		{"trailing garbage", func(g string, n int) Resp { return Resp{Body: g + "x"} }},
		{"null", func(g string, n int) Resp { return Resp{Body: "null"} }},
		{"list", func(g string, n int) Resp { return Resp{Body: "[" + g + "]"} }},
		{"string", func(g string, n int) Resp { return Resp{Body: `"ok"`} }},
		{"results is an object", func(g string, n int) Resp { return Resp{Body: `{"results":{}}`} }},
		{"results of strings", func(g string, n int) Resp {
			return Resp{Body: `{"results":[` + strings.TrimSuffix(strings.Repeat(`"x",`, n), ",") + `]}`}
		}},
		{"vulns is a string", func(g string, n int) Resp {
			return Resp{Body: `{"results":[` + strings.TrimSuffix(strings.Repeat(`{"vulns":"x"},`, n), ",") + `]}`}
		}},
		{"ids are numbers", func(g string, n int) Resp {
			return Resp{Body: `{"results":[` + strings.TrimSuffix(strings.Repeat(`{"vulns":[{"id":1}]},`, n), ",") + `]}`}
		}},
	}
	for _, code := range []int{201, 202, 203, 204, 206, 304, 400, 401, 403, 404, 408, 409, 413, 429, 500, 501, 502, 503, 504} {
		out = append(out, apiFault{fmt.Sprintf("status %d with results", code), func(g string, n int) Resp { return Resp{Code: code, Body: g} }})
		out = append(out, apiFault{fmt.Sprintf("status %d with an error", code), func(g string, n int) Resp {
			return Resp{Code: code, Body: `{"code":1,"message":"no"}`}
		}})
		out = append(out, apiFault{fmt.Sprintf("status %d, empty", code), func(g string, n int) Resp { return Resp{Code: code} }})
	}
	return out
}()

// failing serves a, failing the batches that contain the packages named in bad.
func (a *apiWorld) failing(bad map[string]apiFault) func(*Req) Resp {
	return func(r *Req) Resp {
		g := a.serve(r)
		if r.Method != "POST" {
			return g
		}
		xs, _ := parseBatch(r.Body)
		for _, x := range xs {
			if f, ok := bad[x.qkey()]; ok {
				return f.make(g.Body, len(xs))
			}
		}
		return g
	}
}

func c07Expect(c *C, got []database.Vulnerabilities, err error, tr *sched) {
	if err == nil {
		s := ""
		if tr != nil {
			s = "\nschedule:\n  " + strings.Join(tr.trace, "\n  ")
		}
		c.Fail("a failed query gave no error, but results %s%s", js(got), s)
	}
	for _, v := range got {
		if len(v) > 0 {
			c.Fail("a failed query gave partial results %s beside the error %v", js(got), err)
		}
	}
	if err.Error() == "" {
		c.Fail("an error without a text")
	}
}

// c07Batch: which batch fails, how, and in which order the responses arrive.
func c07Batch(c *C) {
	n := 1 + c.N(c.Q(4, 5))
	size := 1 + c.N(2)
	batches := (n + size - 1) / size
	at := c.N(batches)
	f := apiFaults[c.N(len(apiFaults))]
	two := batches > 1 && c.Bool()
	vuln := c.N(3)
	kinds := make([]int, n)
	var ans [][]string
	for i := range kinds {
		switch vuln {
		case 0:
			ans = append(ans, []string{})
		case 1:
			ans = append(ans, []string{fmt.Sprintf("V-%d", i)})
		case 2:
			ans = append(ans, [][]string{{"A", "B"}, {}}[i%2])
		}
	}
	pkgs, a := c06World(kinds, ans)
	bad := map[string]apiFault{qkey(pkgs[at*size]): f}
	if two {
		bad[qkey(pkgs[((at+1)%batches)*size])] = apiFaults[0]
	}
	net.reset(a.failing(bad))
	c.Leaf(fmt.Sprintf("batch %d fails: %s, two=%v\n%s", at, f.name, two, c06Key(pkgs, a, size)))
	var got []database.Vulnerabilities
	var err error
	tr, pan := c.controlled(-1, func() { got, err = c06DB(a, size).Check(clonePkgs(pkgs)) })
	if pan != nil {
		c.Fail("panic: %v", pan)
	}
	c07Expect(c, got, err, tr)
	c.Nontrivial()
	c.AddTraces(1)
	c.Count(f.name)
}

// c07Bodies: every truncation of a good body is an error, however it is delivered.
func c07Bodies(c *C) {
	pkgs, a := c06World([]int{0, 1}, [][]string{{"A", "B"}, {"C"}})
	good := ""
	net.reset(func(r *Req) Resp {
		p := a.serve(r)
		if r.Method == "POST" {
			good = p.Body
		}
		return p
	})
	if _, err := c06DB(a, 5).Check(clonePkgs(pkgs)); err != nil || good == "" {
		c.Fail("a good query failed: %v", err)
	}
	i := c.N(len(good))
	cut := c.Bool()
	code := Pick(c, 200, 500)
	c.Leaf(fmt.Sprintf("%d of %d bytes, cut=%v, status %d", i, len(good), cut, code))
	net.reset(func(r *Req) Resp {
		p := a.serve(r)
		if r.Method == "POST" {
			if cut {
				p.Cut, p.CutAt, p.Code = true, i, code
			} else {
				p.Body, p.Code = p.Body[:i], code
			}
		}
		return p
	})
	got, err := c06DB(a, 5).Check(clonePkgs(pkgs))
	c07Expect(c, got, err, nil)
	c.Nontrivial()
}

var detailFaults = []apiFault{
	{"ok", nil},
	{"connection refused", func(g string, n int) Resp { return Resp{Err: errNet} }},
	{"404", func(g string, n int) Resp { return Resp{Code: 404, Body: `{"code":5,"message":"Bug not found."}`} }},
	{"500 with details", func(g string, n int) Resp { return Resp{Code: 500, Body: g} }},
	{"cut", func(g string, n int) Resp { return Resp{Body: g, Cut: true, CutAt: len(g) / 2} }},
	{"cut after everything", func(g string, n int) Resp { return Resp{Body: g, Cut: true, CutAt: len(g)} }},
	{"html", func(g string, n int) Resp { return Resp{Body: "<html>"} }},
	{"empty", func(g string, n int) Resp { return Resp{Body: ""} }},
	{"null", func(g string, n int) Resp { return Resp{Body: "null"} }},
	{"empty object", func(g string, n int) Resp { return Resp{Body: "{}"} }},
	{"list", func(g string, n int) Resp { return Resp{Body: "[]"} }},
	{"bad date", func(g string, n int) Resp { return Resp{Body: strings.ReplaceAll(g, "2024-01-01T", "x")} }},
	{"truncated JSON", func(g string, n int) Resp { return Resp{Body: g[:len(g)-1]} }},
	{"aliases is a string", func(g string, n int) Resp { return Resp{Body: `{"id":"OTHER","aliases":"x"}`} }},
	{"other advisory", func(g string, n int) Resp { return Resp{Body: apiDetail("OTHER")} }},
	{"503", func(g string, n int) Resp { return Resp{Code: 503, Body: ""} }},
	{"204", func(g string, n int) Resp { return Resp{Code: 204, Body: ""} }},
}

// c07Details: details that cannot be fetched never hide a finding.
func c07Details(c *C) {
	shapes := [][][]string{{{"A"}}, {{"A", "B"}}, {{"B"}, {"A"}}, {{"A"}, {"A", "B"}, {}}, {{"C"}, {"B", "A"}}, {{"A"}, {"B"}, {"C"}}}
	ans := shapes[c.N(len(shapes))]
	pkgs, a := c06World(make([]int, len(ans)), ans)
	ids := sortedKeys(a.detail)
	fs := map[string]apiFault{}
	key := ""
	for i, id := range ids {
		f := detailFaults[c.N(len(detailFaults))]
		if i == 2 && len(ids) == 3 && !c.Thorough() {
			f = detailFaults[c.N(2)]
		}
		fs[id] = f
		key += id + ": " + f.name + "\n"
	}
	order := c.N(2)
	c.Leaf(fmt.Sprintf("%sorder %d\n%s", key, order, c06Key(pkgs, a, 2)))
	net.reset(func(r *Req) Resp {
		p := a.serve(r)
		if r.Method == "GET" {
			id := r.URL[strings.LastIndexByte(r.URL, '/')+1:]
			if f := fs[id]; f.make != nil {
				return f.make(p.Body, 0)
			}
		}
		return p
	})
	var got []database.Vulnerabilities
	var err error
	_, pan := c.forced(order, func() { got, err = c06DB(a, 2).Check(clonePkgs(pkgs)) })
	if pan != nil {
		c.Fail("panic: %v", pan)
	}
	b := *a
	b.detail = map[string]string{}
	for id, f := range fs {
		if f.make == nil {
			b.detail[id] = a.detail[id]
		}
	}
	b.checkResults(c, got, err, pkgs, nil)
	c.Nontrivial()
}

// c07CLI: the command line shows API failures and keeps what other databases say.
func c07CLI(c *C) {
	w, m := c20World()
	f := apiFaults[c.N(len(apiFaults))]
	n := c.N(4) // findings elsewhere
	det := c.N(3)
	js, text := c.Bool(), ""
	shape := c.N(3)
	s := w.sources[apiURL]
	s.fail, s.how = det != 2, "fault"
	if det == 2 {
		// nothing but the ids is known, so nothing can be merged by alias
		s.advs = slices.Clone(s.advs)
		for i := range s.advs {
			s.advs[i].aliases = nil
		}
	}
	w.sources[apiURL] = s
	fl := mFlags{json: js, useAPI: bptr(true)}
	c20Lock(w, 2, "d0")
	if shape > 0 {
		c20Lock(w, Pick(c, 1, 3), "d1")
	}
	switch n {
	case 0:
		fl.useDBs = bptr(false)
	case 1: // the ecosystem databases
	case 2:
		fl.useDBs = bptr(false)
		w.conf("d0/.osv-detector.yml", mConf{dbs: []mDBRef{m["A"]}})
	case 3: // everything else is ignored
		w.conf("d0/.osv-detector.yml", mConf{ignore: []string{"ECO-NP-p", "ECO-PY-r", "GHSA-1", "API-p", "API-r", "API-1"}})
	}
	args := []string{"d0"}
	if shape == 1 {
		args = []string{"d0", "d1"}
	} else if shape == 2 {
		args = []string{"d1", "d0"}
	}
	c.Leaf(fmt.Sprintf("fault %s, details %d\n%s", f.name, det, w.key(fl, args)))
	w.setup()
	inner := w.serve()
	net.reset(func(r *Req) Resp {
		if !strings.HasPrefix(r.URL, apiURL+"/") {
			return inner(r)
		}
		t := w.sources[apiURL]
		xs, _ := parseBatch(r.Body)
		if r.Method == "POST" && t.fail && (det == 0 || len(xs) == 0 || xs[0].Package.Ecosystem == "npm") {
			return f.make(apiAnswer(t.advs, r.Body), len(xs))
		}
		if r.Method == "POST" {
			return Resp{Body: apiAnswer(t.advs, r.Body)}
		}
		return f.make("{}", 0) // the details are not there either
	})
	r := cli(append(fl.args(), args...)...)
	e := w.expect(fl, args)
	if det == 1 {
		// only the queries with npm packages fail
		t := w.sources[apiURL]
		t.fail = false
		for i := range t.advs {
			t.advs[i].aliases = nil // the details cannot be fetched
		}
		w.sources[apiURL] = t
		found := false
		for i, x := range w.expect(fl, args).results {
			if strings.HasSuffix(x.path, "requirements.txt") {
				e.results[i] = x
			}
			for _, p := range e.results[i].pkgs {
				found = found || len(p.vulns) > 0
			}
		}
		if found {
			e.code = 1
		}
	}
	if js {
		w.compareJSON(c, r, e)
	} else {
		w.compareText(c, r, e, false)
	}
	if det != 2 && (!e.problem || r.Code == 0 || !strings.Contains(strings.ToLower(r.Err+text), "error")) {
		c.Fail("the failure is not shown\n%s", r)
	}
	c.Nontrivial()
	c.Count(fmt.Sprintf("exit %d", r.Code))
}

// c07Two: several APIs, any of which may fail.
func c07Two(c *C) {
	w, m := c20World()
	mask := c.N(8)
	var kinds = []string{"conn", "404", "garbage", "empty", "401", "500"}
	how := kinds[c.N(len(kinds))]
	const apiD = "https://third.test/v9"
	m["D"] = w.api(apiD, append(everywhere("D"), on("D-1", "npm", "p", "X-9"))...)
	for i, u := range []string{apiURL, apiC, apiD} {
		if mask&(1<<i) != 0 {
			s := w.sources[u]
			s.fail, s.how = true, how
			w.sources[u] = s
		}
	}
	dbs := [][]string{{"C"}, {"C", "D"}, {"D", "A", "C"}, {"C", "B"}}[c.N(4)]
	cf := mConf{}
	for _, d := range dbs {
		cf.dbs = append(cf.dbs, m[d])
	}
	w.conf("d0/.osv-detector.yml", cf)
	c20Lock(w, 2, "d0")
	c20Lock(w, c.N(4), "d1")
	f := mFlags{json: true, useAPI: bptr(c.Bool()), useDBs: bptr(c.Bool())}
	args := Pick(c, []string{"d0", "d1"}, []string{"d1", "d0"})
	c.Leaf(w.key(f, args))
	w.setup()
	r := cli(append(f.args(), args...)...)
	e := w.expect(f, args)
	w.compareJSON(c, r, e)
	c.Nontrivial()
	c.Count(fmt.Sprintf("exit %d", r.Code))
}

// c07Scale: one failing batch among very many.
func c07Scale(c *C) {
	n := Pick(c, 50, 101, 120, 230)
	at := Pick(c, 0, 1, 49, 100, 119, 229)
	if at >= n {
		c.Skip()
	}
	f := apiFaults[Pick(c, 0, 2, 5, 8, 12, 20)]
	ord := c.N(3)
	kinds := make([]int, n)
	var ans [][]string
	for i := range kinds {
		ans = append(ans, []string{fmt.Sprintf("V-%d", i%3)})
	}
	pkgs, a := c06World(kinds, ans)
	c.Leaf(fmt.Sprintf("%d batches, %d fails (%s), order %d", n, at, f.name, ord))
	net.reset(a.failing(map[string]apiFault{qkey(pkgs[at]): f}))
	var got []database.Vulnerabilities
	var err error
	_, pan := c.forced(ord, func() { got, err = c06DB(a, 1).Check(clonePkgs(pkgs)) })
	if pan != nil {
		c.Fail("panic: %v", pan)
	}
	c07Expect(c, got, err, nil)
	c.Nontrivial()
}

// c07Sched: failures with every interleaving of statements.
func c07Sched(c *C) {
	f := apiFaults[Pick(c, 0, 5)]
	ph := c.N(16)
	mask := 1 + c.N(3)
	pkgs, a := c06World([]int{0, 0}, [][]string{{"A"}, {"B"}})
	bad := map[string]apiFault{}
	for i := range pkgs {
		if mask&(1<<i) != 0 {
			bad[qkey(pkgs[i])] = f
		}
	}
	net.reset(a.failing(bad))
	c.Leaf(fmt.Sprintf("interleavings (part %d), failing %v: %s", ph, sortedKeys(bad), f.name))
	var got []database.Vulnerabilities
	var err error
	tr, pan := c.controlledPhase(c.Q(1, 2), ph, 16, func() { got, err = c06DB(a, 1).Check(clonePkgs(pkgs)) })
	if pan != nil {
		c.Fail("panic: %v", pan)
	}
	c07Expect(c, got, err, tr)
	c.Nontrivial()
	c.AddTraces(1)
}

var _ = slices.Equal[[]int]

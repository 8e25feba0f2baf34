package zzverif

import (
	"fmt"
	"net/http"
	"os"
	"slices"
	"sort"
	"strings"
	"time"

	"github.com/g-rath/osv-detector/pkg/database"
)

func init() {
	register("C08",
		Family{Name: "histories", Run: c08Histories},
		Family{Name: "urls", Run: c08URLs},
		Family{Name: "failures", Run: c08Failures},
		Family{Name: "command-line", Run: c08CLI},
	)
}

// zipServer is a host of archives: versions, validators and a clock.
type zipServer struct {
	now     time.Time
	ver     map[string]int
	lastMod map[string]time.Time
	mode    int  // 0 etag+date, 1 etag, 2 date, 3 neither
	always  bool // answers 200 even when unchanged
	fault   func(good Resp, conditional bool) *Resp
	quiet   bool
	last    int // status of the last response
}

func newZipServer(urls ...string) *zipServer {
	s := &zipServer{now: time.Date(2026, 1, 1, 0, 0, 0, 0, time.UTC), ver: map[string]int{}, lastMod: map[string]time.Time{}}
	for _, u := range urls {
		s.ver[u] = 1
		s.lastMod[u] = s.now
	}
	s.tick()
	return s
}

func (s *zipServer) tick() { s.now = s.now.Add(time.Hour) }

func (s *zipServer) publish(u string) {
	s.ver[u]++
	s.lastMod[u] = s.now
	s.tick()
}

// archiveIDs is what version v of an archive says about package p, by working directory.
func archiveIDs(u string, v int) (top, sub []string) {
	t := fmt.Sprintf("%x", hashStr(u)%0xffff)
	return []string{fmt.Sprintf("T-%s-v%d", t, v), "T-" + t}, []string{fmt.Sprintf("S-%s-v%d", t, v)}
}

var archiveCache = map[string]string{}

func archive(u string, v int) string {
	k := fmt.Sprintf("%s %d", u, v)
	if b, ok := archiveCache[k]; ok {
		return b
	}
	f := Files{}
	top, sub := archiveIDs(u, v)
	for _, id := range top {
		f[id+".json"] = on(id, "npm", "p").json()
	}
	for _, id := range sub {
		f["sub/"+id+".json"] = on(id, "npm", "p").json()
	}
	// odd versions are longer than even ones
	f["README.md"] = strings.Repeat("x", 1+v%2*150)
	b := mkZip(f)
	archiveCache[k] = b
	return b
}

func hashStr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

func (s *zipServer) serve(r *Req) Resp {
	v, ok := s.ver[r.URL]
	if !ok || r.Method != "GET" {
		s.last = 404
		return Resp{Code: 404, Body: "not found"}
	}
	etag := fmt.Sprintf("\"%s-%d\"", r.URL, v)
	h := map[string]string{}
	if s.mode == 0 || s.mode == 1 {
		h["ETag"] = etag
	}
	if s.mode == 0 || s.mode == 2 {
		h["Date"] = s.now.Format(http.TimeFormat)
	}
	inm := r.Header.Get("If-None-Match")
	ims := r.Header.Get("If-Modified-Since")
	same := false
	if s.mode != 3 {
		if inm != "" {
			same = (s.mode == 0 || s.mode == 1) && inm == etag
		} else if ims != "" {
			t, err := http.ParseTime(ims)
			same = err == nil && !s.lastMod[r.URL].After(t)
		}
	}
	good := Resp{Code: 200, Header: h, Body: archive(r.URL, v)}
	if s.fault != nil {
		if p := s.fault(good, inm+ims != ""); p != nil {
			s.last = p.Code
			return *p
		}
	}
	if same && !s.always {
		s.last = 304
		return Resp{Code: 304, Header: h}
	}
	s.last = 200
	return good
}

// loadZip loads an archive database and returns the ids it knows for package p.
func loadZip(u, wd string, offline bool) ([]string, error) {
	db, err := database.NewZippedDB(database.Config{Name: "x", Type: "zip", URL: u, WorkingDirectory: wd}, offline, nil)
	if err != nil {
		return nil, err
	}
	return dbIDs(db)
}

func dbIDs(db database.DB) ([]string, error) {
	vs, err := db.Check([]mPkg{pd("npm", "npm", "p", "1.0.0")})
	if err != nil {
		return nil, err
	}
	if len(vs) != 1 {
		return nil, fmt.Errorf("%d results for one package", len(vs))
	}
	out := []string{}
	for _, v := range vs[0] {
		out = append(out, v.ID)
	}
	sort.Strings(out)
	return out, nil
}

func wantIDs(u, wd string, v int) []string {
	top, sub := archiveIDs(u, v)
	out := slices.Clone(sub)
	if wd == "" {
		out = append(out, top...)
	}
	sort.Strings(out)
	return out
}

const zipA, zipC = "https://dbs.test/a.zip", "https://dbs.test/a.zip?x=1"

// cacheModel is which versions an offline load of a URL may give (0: none cached).
type cacheModel map[string][]int

func (m cacheModel) get(u string) []int {
	if v, ok := m[u]; ok {
		return v
	}
	return []int{0}
}

// c08Load performs one load and judges it.
func c08Load(c *C, s *zipServer, m cacheModel, u, wd string, offline bool, what string) {
	net.reset(s.serve)
	s.last = 0
	got, err := loadZip(u, wd, offline)
	reqs := net.take()
	if offline {
		if len(reqs) > 0 {
			c.Fail("%s: an offline load made a request: %s %s", what, reqs[0].Method, reqs[0].URL)
		}
		if err != nil {
			if !slices.Contains(m.get(u), 0) {
				c.Fail("%s: offline load of %s failed although version %v is cached: %v", what, u, m.get(u), err)
			}
			return
		}
		for _, v := range m.get(u) {
			if v > 0 && slices.Equal(got, wantIDs(u, wd, v)) {
				return
			}
		}
		c.Fail("%s: offline load of %s (%q) gave %v, cached is version %v", what, u, wd, got, m.get(u))
	}
	if len(reqs) == 0 {
		c.Fail("%s: an online load of %s made no request", what, u)
	}
	for _, r := range reqs {
		if r.URL != u {
			c.Fail("%s: an online load of %s requested %s", what, u, r.URL)
		}
	}
	failed := s.fault != nil && (s.last != 200 && s.last != 304 || s.last == 0)
	if failed {
		if err == nil {
			c.Fail("%s: a failed request for %s gave %v instead of an error", what, u, got)
		}
		return
	}
	if err != nil {
		c.Fail("%s: online load of %s failed: %v", what, u, err)
	}
	if want := wantIDs(u, wd, s.ver[u]); !slices.Equal(got, want) {
		c.Fail("%s: online load of %s (%q) gave %v, the server has %v (it answered %d)", what, u, wd, got, want, s.last)
	}
	switch {
	case s.last == 304:
		m[u] = []int{s.ver[u]}
	case s.mode == 3:
		// nothing identifies this download: it may or may not be kept
		m[u] = append(slices.Clone(m.get(u)), s.ver[u])
	default:
		m[u] = []int{s.ver[u]}
	}
}

var c08Faults = []struct {
	name string
	f    func(good Resp, cond bool) *Resp
}{
	{"connection", func(g Resp, cond bool) *Resp { return &Resp{Err: errNet, Code: 1} }},
	{"404", func(g Resp, cond bool) *Resp { return &Resp{Code: 404, Header: g.Header, Body: "<html>"} }},
	{"500 with archive", func(g Resp, cond bool) *Resp { return &Resp{Code: 500, Header: g.Header, Body: g.Body} }},
	{"206 with archive", func(g Resp, cond bool) *Resp { return &Resp{Code: 206, Header: g.Header, Body: g.Body} }},
	{"cut", func(g Resp, cond bool) *Resp {
		return &Resp{Code: 2, Header: g.Header, Body: g.Body, Cut: true, CutAt: len(g.Body) / 2}
	}},
	{"304 to an unconditional request", func(g Resp, cond bool) *Resp {
		if cond {
			return nil
		}
		return &Resp{Code: 3, Header: g.Header}
	}},
	{"garbage", func(g Resp, cond bool) *Resp { return &Resp{Code: 4, Header: g.Header, Body: "<html>welcome</html>"} }},
	{"empty", func(g Resp, cond bool) *Resp { return &Resp{Code: 5, Header: g.Header} }},
	{"403", func(g Resp, cond bool) *Resp { return &Resp{Code: 403, Header: g.Header, Body: "no"} }},
	{"502", func(g Resp, cond bool) *Resp { return &Resp{Code: 502, Body: ""} }},
	{"429", func(g Resp, cond bool) *Resp { return &Resp{Code: 429, Header: g.Header, Body: ""} }},
	{"204", func(g Resp, cond bool) *Resp { return &Resp{Code: 204, Header: g.Header, Body: ""} }},
	{"401 with archive", func(g Resp, cond bool) *Resp { return &Resp{Code: 401, Header: g.Header, Body: g.Body} }},
	{"503 with archive", func(g Resp, cond bool) *Resp { return &Resp{Code: 503, Header: g.Header, Body: g.Body} }},
	{"201 with archive", func(g Resp, cond bool) *Resp { return &Resp{Code: 201, Header: g.Header, Body: g.Body} }},
}

// fix up: the pseudo codes above mark failing answers; this is what is sent.
func wireCode(p *Resp) *Resp {
	if p == nil {
		return nil
	}
	q := *p
	return &q
}

func (s *zipServer) withFault(k int) {
	f := c08Faults[k].f
	s.fault = func(g Resp, cond bool) *Resp { return wireCode(f(g, cond)) }
}

// the pseudo codes become real ones on the wire
func init() {
	pseudo := map[int]int{1: 0, 2: 200, 3: 304, 4: 200, 5: 200}
	net.rewrite = func(p Resp) Resp {
		if w, ok := pseudo[p.Code]; ok {
			p.Code = w
		}
		return p
	}
}

// operations of a history
func c08Op(c *C, op int, s *zipServer, m cacheModel, i int) {
	what := fmt.Sprintf("step %d (%s)", i, c08OpNames[op])
	s.fault = nil
	switch op {
	case 0:
		c08Load(c, s, m, zipA, "", false, what)
	case 1:
		c08Load(c, s, m, zipA, "", true, what)
	case 2:
		s.publish(zipA)
	case 3:
		c08Load(c, s, m, zipA, "sub", false, what)
	case 4:
		c08Load(c, s, m, zipA, "sub", true, what)
	case 5:
		c08Load(c, s, m, zipC, "", false, what)
	case 6:
		c08Load(c, s, m, zipC, "", true, what)
	case 7:
		s.mode = (s.mode + 1) % 4
	case 8:
		s.always = !s.always
	case 9, 10, 11, 12:
		s.withFault([]int{0, 2, 4, 6}[op-9])
		c08Load(c, s, m, zipA, "", false, what)
		s.fault = nil
	case 13: // the temporary directory is cleaned up
		must(removeTmp())
		for k := range m {
			delete(m, k)
		}
	}
	s.tick()
}

var c08OpNames = []string{"load", "load offline", "publish", "load sub", "load sub offline", "load other", "load other offline", "other validators", "no conditional answers", "load, connection fails", "load, status 500", "load, cut", "load, garbage", "clean"}

func c08Histories(c *C) {
	n := c.Q(5, 6)
	mode := c.N(4)
	c.Split()
	ops := make([]int, n)
	for i := range ops {
		ops[i] = c.N(len(c08OpNames))
	}
	// only histories that end in a load say something new
	if o := ops[n-1]; o == 2 || o == 7 || o == 8 || o == 13 {
		c.Skip()
	}
	// cleaning, or changing the server, twice in a row is the same as once or not at all
	for i := 1; i < n; i++ {
		if ops[i] == ops[i-1] && (ops[i] == 8 || ops[i] == 13) {
			c.Skip()
		}
	}
	var names []string
	for _, o := range ops {
		names = append(names, c08OpNames[o])
	}
	c.Leaf(fmt.Sprintf("validators %d: %s", mode, strings.Join(names, "; ")))
	must(os.Setenv("TMPDIR", tmpDir()))
	must(removeTmp())
	s := newZipServer(zipA, zipC)
	s.mode = mode
	m := cacheModel{}
	for i, o := range ops {
		c08Op(c, o, s, m, i+1)
	}
	c.Nontrivial()
	c.AddTransitions(int64(n))
}

// c08URLs: caches of similar URLs stay apart, whatever the order of loads.
func c08URLs(c *C) {
	urls := []string{"https://dbs.test/a.zip", "https://dbs.test/A.zip", "http://dbs.test/a.zip", "https://dbs.test/a.zip?x=1", "https://dbs.test/a.zip?x=2", "https://dbs.test/a/b.zip", "https://dbs.test/a-b.zip", "https://dbs.test/a%2Fb.zip", "https://dbs.test:443/a.zip", "https://other.test/a.zip", "https://dbs.test/" + strings.Repeat("x", 300) + "1.zip", "https://dbs.test/" + strings.Repeat("x", 300) + "2.zip"}
	i, j := c.N(len(urls)), c.N(len(urls))
	if i == j {
		c.Skip()
	}
	mode := c.N(3)
	sameTag := c.Bool()
	c.Leaf(fmt.Sprintf("%s then %s, validators %d, same tag %v", urls[i], urls[j], mode, sameTag))
	caseDir()
	s := newZipServer(urls...)
	s.mode = mode
	m := cacheModel{}
	handler := s.serve
	_ = handler
	for step, x := range []struct {
		u   string
		off bool
	}{{urls[i], false}, {urls[j], true}, {urls[j], false}, {urls[i], true}, {urls[j], true}, {urls[i], false}, {urls[j], false}} {
		c08Load(c, s, m, x.u, "", x.off, fmt.Sprintf("step %d", step))
		s.tick()
	}
	c.Nontrivial()
}

// c08Failures: every way a request can fail, with and without a cached copy, old or current.
func c08Failures(c *C) {
	k := c.N(len(c08Faults))
	mode := c.N(4)
	st := c.N(3) // nothing cached, current, outdated
	wd := Pick(c, "", "sub")
	k2 := c.N(len(c08Faults))
	c.Leaf(fmt.Sprintf("%s then %s, validators %d, cache state %d, working directory %q", c08Faults[k].name, c08Faults[k2].name, mode, st, wd))
	caseDir()
	s := newZipServer(zipA, zipC)
	s.mode = mode
	m := cacheModel{}
	if st > 0 {
		c08Load(c, s, m, zipA, wd, false, "first load")
	}
	s.tick()
	if st == 2 {
		s.publish(zipA)
	}
	for _, f := range []int{k, k2} {
		s.withFault(f)
		c08Load(c, s, m, zipA, wd, false, "failing load ("+c08Faults[f].name+")")
		s.fault = nil
		c08Load(c, s, m, zipA, wd, true, "offline after "+c08Faults[f].name)
		s.tick()
	}
	c08Load(c, s, m, zipA, wd, false, "last load")
	c08Load(c, s, m, zipA, wd, true, "last offline load")
	c.Nontrivial()
}

// c08CLI: histories of whole scans.
func c08CLI(c *C) {
	n := c.Q(4, 5)
	ops := c.SeqN(7, n)
	if ops[n-1] == 2 || ops[n-1] == 6 {
		c.Skip()
	}
	mode := c.N(2)
	c.Leaf(fmt.Sprintf("mode %d: %v", mode, ops))
	d := caseDir()
	Files{
		"d0/package-lock.json": lockText("package-lock.json", []mPkg{pd("npm", "npm", "p", "1.0.0")}),
		"d1/package-lock.json": lockText("package-lock.json", []mPkg{pd("npm", "npm", "p", "1.0.0")}),
		"d1/.osv-detector.yml": "extra-databases:\n  - url: " + zipA + "\n    working-directory: sub\n",
		"d2/package-lock.json": lockText("package-lock.json", []mPkg{pd("npm", "npm", "p", "1.0.0")}),
		"d2/.osv-detector.yml": "extra-databases:\n  - url: " + zipA + "\n  - url: " + zipA + "\n    working-directory: sub\n    name: two\n",
	}.write(d)
	npm := fmt.Sprintf(ecoURL, "npm")
	s := newZipServer(npm, zipA)
	s.mode = mode * 2
	cached := map[string]int{}
	for i, o := range ops {
		args := []string{"--json"}
		type use struct{ u, wd string }
		var uses []use
		off := false
		s.fault = nil
		switch o {
		case 0:
			args = append(args, "d0")
			uses = []use{{npm, ""}}
		case 1:
			args = append(args, "d1", "--use-dbs=false")
			args = []string{"--json", "--use-dbs=false", "d1"}
			uses = []use{{zipA, "sub"}}
		case 2:
			s.publish(npm)
			s.publish(zipA)
			continue
		case 3:
			args = []string{"--json", "--offline", "d0"}
			uses, off = []use{{npm, ""}}, true
		case 4:
			args = []string{"--json", "--offline", "--use-dbs=false", "d2"}
			uses, off = []use{{zipA, ""}, {zipA, "sub"}}, true
		case 5:
			args = []string{"--json", "d2"}
			uses = []use{{zipA, ""}, {zipA, "sub"}, {npm, ""}}
		case 6:
			s.withFault(2)
			args = []string{"--json", "d0"}
			uses = []use{{npm, ""}}
		}
		net.reset(s.serve)
		r := cli(args...)
		if off && len(r.Reqs) > 0 {
			c.Fail("step %d: an offline scan made requests %v\n%s", i, r.urls(), r)
		}
		rep, err := r.report()
		if err != nil {
			c.Fail("step %d: %v\n%s", i, err, r)
		}
		var want []string
		bad := o == 6
		for _, u := range uses {
			v := s.ver[u.u]
			if off {
				if v = cached[u.u]; v == 0 {
					bad = true
					continue
				}
			} else if o != 6 {
				cached[u.u] = v
			}
			if o == 6 {
				continue
			}
			for _, id := range wantIDs(u.u, u.wd, v) {
				if !slices.Contains(want, id) {
					want = append(want, id)
				}
			}
		}
		sort.Strings(want)
		if len(rep.Results) != 1 || len(rep.Results[0].Packages) != 1 {
			c.Fail("step %d: unexpected results\n%s", i, r)
		}
		got := vids(rep.Results[0].Packages[0].Vulnerabilities)
		sort.Strings(got)
		if !slices.Equal(got, want) && len(got)+len(want) > 0 {
			c.Fail("step %d: found %v, expected %v (cached %v, server %v)\n%s", i, got, want, cached, s.ver, r)
		}
		code := 1
		if bad {
			code = 127
		}
		if r.Code != code {
			c.Fail("step %d: exit code %d, expected %d\n%s", i, r.Code, code, r)
		}
		s.tick()
	}
	c.Nontrivial()
}

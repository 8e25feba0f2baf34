package zzverif

import (
	"encoding/json"
	"fmt"
	"path/filepath"
	"slices"
	"sort"
	"strings"

	"github.com/g-rath/osv-detector/internal"
)

// ---- reference model of a whole run of the command line ----------------------------

type mPkg = internal.PackageDetails

// mLock is a lockfile of the world: what the model expects of it.
type mLock struct {
	pkgs []mPkg
	err  bool // cannot be parsed
}

// mDBRef is a database as a config names it.
type mDBRef struct {
	name, typ, url, wd string
	invalid            bool // the entry itself is invalid
}

type mConf struct {
	ignore []string
	dbs    []mDBRef
	broken bool
}

// mSource is what is behind a database address.
type mSource struct {
	advs []mAdv
	fail bool              // loading (or, for an API, querying) fails
	wds  map[string][]mAdv // by working directory, when used
	api  bool
	how  string // how a failing source fails
}

func (s mSource) failure() Resp {
	switch s.how {
	case "conn":
		return Resp{Err: errNet}
	case "404":
		return Resp{Code: 404, Body: "<html>"}
	case "304":
		return Resp{Code: 304}
	case "garbage":
		return Resp{Body: "this is not an archive or JSON", Header: map[string]string{"Date": "Thu, 01 Jan 2026 00:00:00 GMT"}}
	case "empty":
		return Resp{Body: ""}
	case "cut":
		b := mkZip(Files{"a.json": "{}"})
		return Resp{Body: b, Cut: true, CutAt: len(b) / 2}
	case "401":
		return Resp{Code: 401, Body: "{}"}
	}
	return Resp{Code: 500, Body: "no"}
}

type world struct {
	files   Files              // what is on disk
	dirs    map[string]bool    // directories of the world
	locks   map[string]mLock   // lockfiles by clean path
	confs   map[string]mConf   // configs by clean path
	sources map[string]mSource // by url
	posts   int
}

func newWorld() *world {
	return &world{files: Files{}, dirs: map[string]bool{}, locks: map[string]mLock{}, confs: map[string]mConf{}, sources: map[string]mSource{}}
}

func (w *world) dir(p string) {
	w.files[p+"/"] = ""
	w.dirs[filepath.Clean(p)] = true
}

// lock adds a lockfile; the format follows from the base name.
func (w *world) lock(path string, pkgs ...mPkg) {
	w.files[path] = lockText(filepath.Base(path), pkgs)
	w.locks[filepath.Clean(path)] = mLock{pkgs: sortPkgs(pkgs)}
	w.dirs[filepath.Dir(filepath.Clean(path))] = true
}

func (w *world) badLock(path string) {
	w.files[path] = "{ this is not <a> lockfile = \n\"'[[: \n"
	w.locks[filepath.Clean(path)] = mLock{err: true}
	w.dirs[filepath.Dir(filepath.Clean(path))] = true
}

func sortPkgs(in []mPkg) []mPkg {
	out := slices.Clone(in)
	sort.SliceStable(out, func(i, j int) bool {
		if out[i].Name != out[j].Name {
			return out[i].Name < out[j].Name
		}
		return out[i].Version < out[j].Version
	})
	return out
}

func lockText(base string, pkgs []mPkg) string {
	var b strings.Builder
	switch base {
	case "package-lock.json":
		b.WriteString(`{"name":"root","lockfileVersion":2,"packages":{"":{"name":"root","version":"9.9.9"}`)
		for i, p := range pkgs {
			at := "node_modules/" + p.Name
			for j := 0; j < i; j++ {
				if pkgs[j].Name == p.Name {
					at = fmt.Sprintf("node_modules/n%d/", i) + at
				}
			}
			fmt.Fprintf(&b, `,%s:{"version":%s}`, q(at), q(p.Version))
		}
		b.WriteString("}}")
	case "requirements.txt":
		for _, p := range pkgs {
			fmt.Fprintf(&b, "%s==%s\n", p.Name, p.Version)
		}
	case "composer.lock":
		b.WriteString(`{"packages":[`)
		for i, p := range pkgs {
			if i > 0 {
				b.WriteByte(',')
			}
			fmt.Fprintf(&b, `{"name":%s,"version":%s,"dist":{"reference":""}}`, q(p.Name), q(p.Version))
		}
		b.WriteString(`],"packages-dev":[]}`)
	case "Cargo.lock":
		for _, p := range pkgs {
			fmt.Fprintf(&b, "[[package]]\nname = %s\nversion = %s\n\n", q(p.Name), q(p.Version))
		}
	case "gradle.lockfile":
		for _, p := range pkgs {
			fmt.Fprintf(&b, "%s:%s=cp\n", p.Name, p.Version)
		}
		b.WriteString("empty=x\n")
	case "pubspec.lock":
		b.WriteString("packages:\n")
		for _, p := range pkgs {
			fmt.Fprintf(&b, "  %s:\n    version: %s\n", p.Name, q(p.Version))
		}
	case "yarn.lock":
		b.WriteString("# yarn lockfile v1\n\n")
		for _, p := range pkgs {
			fmt.Fprintf(&b, "%s@^%s:\n  version %s\n  resolved \"https://registry.yarnpkg.com/x/-/x.tgz#aa\"\n\n", p.Name, p.Version, q(p.Version))
		}
	case "csv":
		for _, p := range pkgs {
			fmt.Fprintf(&b, "%s,%s,%s,%s\n", p.Ecosystem, p.CompareAs, p.Name, p.Version+p.Commit)
		}
	default:
		theEngine.fatal("lockText: " + base)
	}
	return b.String()
}

func confText(cf mConf) string {
	if cf.broken {
		return "ignore: [unclosed\n  - : ]\n"
	}
	var b strings.Builder
	if cf.ignore != nil {
		b.WriteString("ignore:")
		if len(cf.ignore) == 0 {
			b.WriteString(" []")
		}
		b.WriteString("\n")
		for _, i := range cf.ignore {
			fmt.Fprintf(&b, "  - %s\n", q(i))
		}
	}
	if len(cf.dbs) > 0 {
		b.WriteString("extra-databases:\n")
		for _, d := range cf.dbs {
			fmt.Fprintf(&b, "  - url: %s\n", q(d.url))
			if d.name != "" {
				fmt.Fprintf(&b, "    name: %s\n", q(d.name))
			}
			if d.typ != "" {
				fmt.Fprintf(&b, "    type: %s\n", d.typ)
			}
			if d.wd != "" {
				fmt.Fprintf(&b, "    working-directory: %s\n", q(d.wd))
			}
		}
	}
	return b.String()
}

func (w *world) conf(path string, cf mConf) {
	w.files[path] = confText(cf)
	w.confs[filepath.Clean(path)] = cf
}

func (d mDBRef) inferred() string {
	switch {
	case d.typ != "":
		return d.typ
	case strings.HasPrefix(d.url, "file:/"):
		return "dir"
	case strings.HasSuffix(d.url, ".zip"):
		return "zip"
	}
	return "api"
}

func (d mDBRef) id() string { return d.inferred() + "|" + d.url + "|" + d.wd }

// dirDB adds a directory database to the world.
func (w *world) dirDB(name string, advs ...mAdv) mDBRef {
	w.files["dbs/"+name+"/"] = ""
	for i, a := range advs {
		w.files[fmt.Sprintf("dbs/%s/%04d.json", name, i)] = a.json()
	}
	u := "file:/dbs/" + name
	w.sources[u] = mSource{advs: advs}
	return mDBRef{url: u}
}

func (w *world) zipDB(url string, advs ...mAdv) mDBRef {
	w.sources[url] = mSource{advs: advs}
	return mDBRef{url: url}
}

// ecoAddr is where the database of an ecosystem is, as it is requested.
func ecoAddr(eco string) string {
	return fmt.Sprintf(ecoURL, strings.ReplaceAll(eco, " ", "%20"))
}

func (w *world) ecoDB(eco string, advs ...mAdv) {
	w.sources[ecoAddr(eco)] = mSource{advs: advs}
}

func (w *world) api(url string, advs ...mAdv) mDBRef {
	w.sources[url] = mSource{advs: advs, api: true}
	return mDBRef{url: url}
}

type mFlags struct {
	json, offline, noConfig, noConfigIgnores, noConfigDbs, update, list bool
	useDBs, useAPI                                                      *bool
	parseAs, config                                                     string
	ignores                                                             []string
}

func bptr(b bool) *bool { return &b }

func (f mFlags) args() []string {
	var a []string
	add := func(on bool, s string) {
		if on {
			a = append(a, s)
		}
	}
	add(f.json, "--json")
	add(f.offline, "--offline")
	add(f.noConfig, "--no-config")
	add(f.noConfigIgnores, "--no-config-ignores")
	add(f.noConfigDbs, "--no-config-databases")
	add(f.update, "--update-config-ignores")
	add(f.list, "--list-packages")
	if f.useDBs != nil {
		a = append(a, fmt.Sprintf("--use-dbs=%v", *f.useDBs))
	}
	if f.useAPI != nil {
		a = append(a, fmt.Sprintf("--use-api=%v", *f.useAPI))
	}
	if f.parseAs != "" {
		a = append(a, "--parse-as", f.parseAs)
	}
	if f.config != "" {
		a = append(a, "--config", f.config)
	}
	for _, i := range f.ignores {
		a = append(a, "--ignore", i)
	}
	return a
}

type mFinding struct {
	pkg           mPkg
	vulns, ignord []string
}

type mResult struct {
	path, parsedAs string
	pkgs           []mFinding
}

type mExpect struct {
	code    int
	results []mResult
	errors  int // lockfiles that give an error
	zipGets map[string]int
	apiUsed bool
	updated map[string][]string // config -> ignores after an update
	stopped bool                // ended before scanning
	problem bool                // something was reported as an error
}

// expectPkg merges what the databases report for one package.
func expectPkg(p mPkg, dbs []mSource, ignores []string) mFinding {
	f := mFinding{pkg: p, vulns: []string{}, ignord: []string{}}
	var all []mAdv
	for _, d := range dbs {
		all = append(all, perDB(d, p)...)
	}
	for _, a := range greedy(all) {
		if slices.Contains(ignores, a.id) {
			f.ignord = append(f.ignord, a.id)
		} else {
			f.vulns = append(f.vulns, a.id)
		}
	}
	return f
}

// perDB reflects that an archive or directory database already merges its own
// findings before the databases are merged with each other.
func perDB(d mSource, p mPkg) []mAdv {
	var hit []mAdv
	for _, a := range d.advs {
		if covers(a, p) && (d.api || !a.withdrawn) {
			hit = append(hit, a)
		}
	}
	if !d.api {
		hit = greedy(hit)
	}
	return hit
}

// source finds what is behind a database reference.
func (w *world) source(d mDBRef) mSource {
	s, ok := w.sources[d.url]
	if !ok {
		return mSource{fail: true}
	}
	if d.wd != "" {
		s.advs = s.wds[d.wd]
	}
	return s
}

var supported = []string{
	"bun.lock", "Cargo.lock", "composer.lock", "Gemfile.lock", "go.mod", "mix.lock", "package-lock.json",
	"packages.lock.json", "pdm.lock", "pnpm-lock.yaml", "poetry.lock", "pylock.toml", "Pipfile.lock", "pom.xml",
	"pubspec.lock", "renv.lock", "requirements.txt", "yarn.lock", "uv.lock", "gradle.lockfile", "buildscript-gradle.lockfile",
}

// expect computes what a run must give.
func (w *world) expect(f mFlags, args []string) mExpect {
	e := mExpect{zipGets: map[string]int{}, updated: map[string][]string{}}
	type item struct{ as, path string }
	var items []item
	errored := false
	if f.parseAs == "csv-row" {
		theEngine.fatal("model: csv-row not modelled here")
	}
	if f.parseAs != "" && f.parseAs != "csv-file" && !slices.Contains(supported, f.parseAs) {
		e.code, e.stopped, e.problem = 127, true, true
		return e
	}
	for _, a := range args {
		as, path := "", a
		if i := strings.Index(a, ":"); i >= 0 {
			as, path = a[:i], a[i+1:]
		}
		if as == "" {
			as = f.parseAs
		}
		cp := filepath.Clean(path)
		if w.dirs[cp] {
			var names []string
			for k := range w.files {
				if strings.HasSuffix(k, "/") {
					continue
				}
				ck := filepath.Clean(k)
				if filepath.Dir(ck) == cp {
					names = append(names, filepath.Base(ck))
				}
			}
			sort.Strings(names)
			for _, n := range names {
				ok := as == "csv-file" || slices.Contains(supported, as) || as == "" && slices.Contains(supported, n)
				if ok {
					items = append(items, item{as, filepath.Join(cp, n)})
				}
			}
			continue
		}
		if _, ok := w.files[cp]; !ok {
			errored = true
			continue
		}
		items = append(items, item{as, cp})
	}
	if len(items) == 0 {
		e.stopped, e.problem = true, true
		e.code = 127
		if len(args) > 0 && !errored {
			e.code = 128
		}
		return e
	}
	var global *mConf
	globalPath := ""
	local := !f.noConfig && !f.list
	problem := errored
	if local && f.config != "" {
		cf, ok := w.confs[filepath.Clean(f.config)]
		if !ok || cf.broken {
			e.code, e.stopped, e.problem = 127, true, true
			return e
		}
		global, globalPath, local = &cf, filepath.Clean(f.config), false
		for _, d := range cf.dbs {
			problem = problem || d.invalid
		}
	}
	type file struct {
		item
		lock mLock
		conf *mConf
		cpth string
		dbs  []mDBRef
		err  bool
	}
	var files []*file
	for _, it := range items {
		fl := &file{item: it}
		files = append(files, fl)
		if local {
			for _, n := range []string{".osv-detector.yml", ".osv-detector.yaml"} {
				p := filepath.Join(filepath.Dir(it.path), n)
				if cf, ok := w.confs[p]; ok {
					if cf.broken {
						fl.err = true
					}
					fl.conf, fl.cpth = &cf, p
					break
				}
			}
			if fl.conf != nil && !fl.err {
				for _, d := range fl.conf.dbs {
					problem = problem || d.invalid
				}
			}
		} else if global != nil {
			fl.conf, fl.cpth = global, globalPath
		}
		if fl.err {
			continue
		}
		lk, ok := w.locks[it.path]
		base := filepath.Base(it.path)
		if !ok || it.as != "" && it.as != base && it.as != "csv-file" {
			// a file that is no lockfile, or a lockfile read as another format
			if !ok && it.as == "" {
				fl.err = true
				continue
			}
			theEngine.fatal("model: unmodelled parse of " + it.path + " as " + it.as)
		}
		fl.lock = lk
		fl.err = lk.err
	}
	var order []mDBRef
	loaded := map[string]mSource{}
	for _, fl := range files {
		if fl.err {
			continue
		}
		var dbs []mDBRef
		add := func(d mDBRef) {
			if !slices.ContainsFunc(dbs, func(x mDBRef) bool { return x.id() == d.id() }) {
				dbs = append(dbs, d)
			}
		}
		if fl.conf != nil && !f.noConfigDbs {
			for _, d := range fl.conf.dbs {
				if !d.invalid {
					add(d)
				}
			}
		}
		if f.useAPI != nil && *f.useAPI {
			add(mDBRef{name: "osv.dev v1 API", typ: "api", url: apiURL})
		}
		if f.useDBs == nil || *f.useDBs {
			var ecos []string
			for _, p := range fl.lock.pkgs {
				if p.Ecosystem != "" && !slices.Contains(ecos, string(p.Ecosystem)) {
					ecos = append(ecos, string(p.Ecosystem))
				}
			}
			sort.Strings(ecos)
			for _, ec := range ecos {
				add(mDBRef{name: ec, typ: "zip", url: ecoAddr(ec)})
			}
		}
		fl.dbs = dbs
		for _, d := range dbs {
			if _, ok := loaded[d.id()]; !ok {
				order = append(order, d)
				loaded[d.id()] = w.source(d)
			}
		}
	}
	if f.list {
		order = nil
	}
	dbErr := false
	for _, d := range order {
		s := loaded[d.id()]
		switch d.inferred() {
		case "zip":
			if f.offline {
				s.fail = true // no cache in these worlds
			} else {
				e.zipGets[d.url]++
			}
		case "api":
			if f.offline {
				s.fail = true
			}
		}
		if s.fail && (d.inferred() != "api" || f.offline) {
			dbErr = true
		}
		loaded[d.id()] = s
	}
	found := false
	for _, fl := range files {
		if fl.err {
			e.errors++
			continue
		}
		r := mResult{path: fl.path, parsedAs: fl.as}
		if r.parsedAs == "" {
			r.parsedAs = filepath.Base(fl.path)
		}
		var ign []string
		if fl.conf != nil && !f.noConfigIgnores {
			ign = append(ign, fl.conf.ignore...)
		}
		ign = append(ign, f.ignores...)
		var srcs []mSource
		for _, d := range fl.dbs {
			s := loaded[d.id()]
			if s.fail {
				if d.inferred() == "api" && !f.offline && len(fl.lock.pkgs) > 0 && !f.list {
					problem = true
				}
				continue
			}
			srcs = append(srcs, s)
		}
		for _, p := range fl.lock.pkgs {
			if f.list {
				r.pkgs = append(r.pkgs, mFinding{pkg: p})
				continue
			}
			x := expectPkg(p, srcs, ign)
			found = found || len(x.vulns) > 0
			r.pkgs = append(r.pkgs, x)
			if f.update && fl.cpth != "" {
				for _, id := range append(slices.Clone(x.vulns), x.ignord...) {
					if !slices.Contains(e.updated[fl.cpth], id) {
						e.updated[fl.cpth] = append(e.updated[fl.cpth], id)
					}
				}
			}
		}
		if f.update && fl.cpth != "" && !f.list && e.updated[fl.cpth] == nil {
			e.updated[fl.cpth] = []string{}
		}
		e.results = append(e.results, r)
	}
	for _, ids := range e.updated {
		sort.Strings(ids)
	}
	problem = problem || e.errors > 0 || dbErr
	switch {
	case e.errors > 0 || dbErr:
		e.code = 127
	case found:
		e.code = 1
	case problem:
		e.code = 127
	}
	e.problem = problem
	return e
}

// serve is the network of this world.
func (w *world) serve() func(*Req) Resp {
	zips := map[string]string{}
	return func(r *Req) Resp {
		if s, ok := w.sources[r.URL]; ok && !s.api && r.Method == "GET" {
			if s.fail {
				return s.failure()
			}
			body, ok := zips[r.URL]
			if !ok {
				f := Files{}
				for i, a := range s.advs {
					f[fmt.Sprintf("%04d.json", i)] = a.json()
				}
				for wd, advs := range s.wds {
					for i, a := range advs {
						f[fmt.Sprintf("%s/%04d.json", wd, i)] = a.json()
					}
				}
				body = mkZip(f)
				zips[r.URL] = body
			}
			return Resp{Body: body, Header: map[string]string{"ETag": "\"e\"", "Date": "Thu, 01 Jan 2026 00:00:00 GMT"}}
		}
		for u, s := range w.sources {
			if !s.api || !strings.HasPrefix(r.URL, u+"/") {
				continue
			}
			rest := strings.TrimPrefix(r.URL, u+"/")
			if s.fail {
				return s.failure()
			}
			if rest == "querybatch" && r.Method == "POST" {
				return Resp{Body: apiAnswer(s.advs, r.Body)}
			}
			if id, ok := strings.CutPrefix(rest, "vulns/"); ok {
				for _, a := range s.advs {
					if a.id == id {
						return Resp{Body: a.json()}
					}
				}
				return Resp{Code: 404, Body: "{}"}
			}
		}
		return Resp{Err: errNet}
	}
}

type apiQ struct {
	Commit  string `json:"commit"`
	Version string `json:"version"`
	Package struct {
		Name      string `json:"name"`
		Ecosystem string `json:"ecosystem"`
	} `json:"package"`
}

func parseBatch(body string) ([]apiQ, error) {
	var b struct {
		Queries []apiQ `json:"queries"`
	}
	err := json.Unmarshal([]byte(body), &b)
	return b.Queries, err
}

func apiAnswer(advs []mAdv, body string) string {
	qsx, err := parseBatch(body)
	if err != nil {
		return "bad request"
	}
	out := []string{}
	for _, x := range qsx {
		ids := []string{}
		eco, _, _ := strings.Cut(x.Package.Ecosystem, ":")
		for _, a := range advs {
			p := pd(x.Package.Ecosystem, eco, x.Package.Name, x.Version)
			if x.Commit != "" {
				p = pd("GIT", "GIT", x.Commit, "")
			}
			if x.Package.Name == "" && x.Commit == "" {
				continue
			}
			if covers(a, p) {
				ids = append(ids, fmt.Sprintf(`{"id":%s,"modified":"2024-01-01T00:00:00Z"}`, q(a.id)))
			}
		}
		if len(ids) == 0 {
			out = append(out, "{}")
		} else {
			out = append(out, `{"vulns":[`+strings.Join(ids, ",")+`]}`)
		}
	}
	return `{"results":[` + strings.Join(out, ",") + `]}`
}

func (w *world) key(f mFlags, args []string) string {
	var b strings.Builder
	fmt.Fprintf(&b, "osv-detector %s\n%s", strings.Join(append(f.args(), args...), " "), w.files.key())
	for _, u := range sortedKeys(w.sources) {
		s := w.sources[u]
		if strings.HasPrefix(u, "file:") {
			continue
		}
		fmt.Fprintf(&b, "=== %s fail=%v %s\n", u, s.fail, s.how)
		for _, a := range s.advs {
			b.WriteString(a.json() + "\n")
		}
	}
	return b.String()
}

// setup lays the world out in a fresh directory.
func (w *world) setup() string {
	d := caseDir()
	w.files.write(d)
	net.reset(w.serve())
	return d
}

// compareJSON checks a --json run against the expectation.
func (w *world) compareJSON(c *C, r Run, e mExpect) jReport {
	fail := func(f string, a ...any) {
		c.Fail("%s\n  command: %s\n  exit %d\n  stdout: %s\n  stderr: %s", fmt.Sprintf(f, a...), strings.Join(r.Args, " "), r.Code, clip(r.Out, 1500), clip(r.Err, 1200))
	}
	if r.SOut != "" {
		fail("written to the real standard output: %q", clip(r.SOut, 300))
	}
	rep, err := r.report()
	if err != nil {
		fail("%v", err)
	}
	if len(rep.Results) != len(e.results) {
		fail("%d results, expected %d", len(rep.Results), len(e.results))
	}
	for i, x := range e.results {
		g := rep.Results[i]
		if g.FilePath != x.path || g.ParsedAs != x.parsedAs {
			fail("result %d is %s (%s), expected %s (%s)", i, g.FilePath, g.ParsedAs, x.path, x.parsedAs)
		}
		if len(g.Packages) != len(x.pkgs) {
			fail("%s: %d packages, expected %d", x.path, len(g.Packages), len(x.pkgs))
		}
		for j, p := range x.pkgs {
			h := g.Packages[j]
			if h.Name != p.pkg.Name || h.Version != p.pkg.Version || h.Commit != p.pkg.Commit || h.Ecosystem != string(p.pkg.Ecosystem) || h.CompareAs != string(p.pkg.CompareAs) {
				fail("%s: package %d is %+v, expected %+v", x.path, j, h, p.pkg)
			}
			if !slices.Equal(vids(h.Vulnerabilities), p.vulns) && len(vids(h.Vulnerabilities))+len(p.vulns) > 0 {
				fail("%s: %s@%s has vulnerabilities %v, expected %v", x.path, h.Name, h.Version, vids(h.Vulnerabilities), p.vulns)
			}
			if !slices.Equal(vids(h.Ignored), p.ignord) && len(vids(h.Ignored))+len(p.ignord) > 0 {
				fail("%s: %s@%s has ignored %v, expected %v", x.path, h.Name, h.Version, vids(h.Ignored), p.ignord)
			}
		}
	}
	if r.Code != e.code {
		fail("exit code %d, expected %d", r.Code, e.code)
	}
	return rep
}

func (w *world) compareReqs(c *C, r Run, e mExpect) {
	got := map[string]int{}
	for _, x := range r.Reqs {
		if strings.HasSuffix(x.URL, ".zip") {
			got[x.URL]++
		}
	}
	for u, n := range e.zipGets {
		if got[u] != n {
			c.Fail("%d requests for %s, expected %d\n  command: %s", got[u], u, n, strings.Join(r.Args, " "))
		}
	}
	for u, n := range got {
		if e.zipGets[u] != n {
			c.Fail("%d requests for %s, expected %d\n  command: %s", n, u, e.zipGets[u], strings.Join(r.Args, " "))
		}
	}
}

func vids(vs []jVuln) []string {
	out := []string{}
	for _, v := range vs {
		out = append(out, v.ID)
	}
	return out
}

// ---- text reports ----------------------------------------------------------------

type tResult struct {
	path     string
	count    string   // number of packages announced
	findings []string // "name@version id" in order
	summary  string
	listed   []string
}

// parseText reads the text report back.
func parseText(out string) (res []tResult) {
	pkg := ""
	for _, l := range strings.Split(out, "\n") {
		if !strings.HasPrefix(l, " ") {
			if i := strings.LastIndex(l, ": found "); i >= 0 {
				res = append(res, tResult{path: l[:i], count: strings.Fields(l[i+8:])[0]})
			}
			continue
		}
		if len(res) == 0 {
			continue
		}
		r := &res[len(res)-1]
		switch {
		case strings.HasPrefix(l, "    "):
			id, _, ok := strings.Cut(strings.TrimPrefix(l, "    "), ": ")
			if ok && pkg != "" {
				r.findings = append(r.findings, pkg+" "+id)
			}
		case strings.HasSuffix(l, " is affected by the following vulnerabilities:"):
			pkg = strings.TrimSuffix(strings.TrimPrefix(l, "  "), " is affected by the following vulnerabilities:")
		case strings.HasPrefix(l, "  Using "):
			pkg = ""
		case strings.Contains(l, "vulnerabilit"):
			r.summary = strings.TrimSpace(l)
			pkg = ""
		default:
			r.listed = append(r.listed, strings.TrimSpace(l))
		}
	}
	return res
}

// compareText checks a text run against the expectation.
func (w *world) compareText(c *C, r Run, e mExpect, list bool) {
	fail := func(f string, a ...any) {
		c.Fail("%s\n  command: %s\n  exit %d\n  stdout: %s\n  stderr: %s", fmt.Sprintf(f, a...), strings.Join(r.Args, " "), r.Code, clip(r.Out, 1500), clip(r.Err, 800))
	}
	if r.Code != e.code {
		fail("exit code %d, expected %d", r.Code, e.code)
	}
	got := parseText(r.Out)
	if len(got) != len(e.results) {
		fail("%d results in the text, expected %d", len(got), len(e.results))
	}
	for i, x := range e.results {
		g := got[i]
		if g.path != x.path || g.count != fmt.Sprint(len(x.pkgs)) {
			fail("text result %d is %s with %s packages, expected %s with %d", i, g.path, g.count, x.path, len(x.pkgs))
		}
		if list {
			var want []string
			for _, p := range x.pkgs {
				ec := string(p.pkg.Ecosystem)
				if ec == "" {
					ec = "<unknown>"
				}
				s := ec + ": " + p.pkg.Name
				if p.pkg.Version != "" {
					s += "@" + p.pkg.Version
				}
				if p.pkg.Commit != "" {
					s += " (" + p.pkg.Commit + ")"
				}
				want = append(want, s)
			}
			if !slices.Equal(want, g.listed) {
				fail("%s lists %v, expected %v", x.path, g.listed, want)
			}
			continue
		}
		var want []string
		ign := 0
		for _, p := range x.pkgs {
			for _, id := range p.vulns {
				want = append(want, p.pkg.Name+"@"+p.pkg.Version+" "+id)
			}
			ign += len(p.ignord)
		}
		if !slices.Equal(want, g.findings) {
			fail("%s: text findings %v, expected %v", x.path, g.findings, want)
		}
		word, suffix := "known", ""
		if ign > 0 {
			word = "new"
			suffix = fmt.Sprintf(" (%d were ignored)", ign)
			if ign == 1 {
				suffix = " (1 was ignored)"
			}
		}
		sum := fmt.Sprintf("no %s vulnerabilities found%s", word, suffix)
		if len(want) == 1 {
			sum = fmt.Sprintf("1 %s vulnerability found in %s%s", word, x.path, suffix)
		} else if len(want) > 1 {
			sum = fmt.Sprintf("%d %s vulnerabilities found in %s%s", len(want), word, x.path, suffix)
		}
		if g.summary != sum {
			fail("%s: summary %q, expected %q", x.path, g.summary, sum)
		}
	}
}

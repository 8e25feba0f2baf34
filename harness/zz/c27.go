package zzverif

import (
	"bytes"
	"encoding/json"
	"fmt"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"slices"
	"strings"
)

func init() {
	register("C27", Family{Name: "kinds", Run: c27Kinds}, Family{Name: "defaults", Run: c27Defaults}, Family{Name: "batch-sizes", Run: c27Batch})
	children["c27"] = c27Child
}

// ---- which kind of database a config entry is ----------------------------------------

const c27Host = "https://db.test/"

// c27Menu: addresses and what there is behind them. dir, zip and api are the advisories
// found when the address is used as that kind (nil: using it so is an error).
type c27Addr struct {
	url           string
	kind          string // without a type
	dir, zip, api bool
}

func c27Addrs(abs string) []c27Addr {
	return []c27Addr{
		{"file:/dbs/a", "dir", true, false, false},
		{"file:/./dbs/../dbs/a", "dir", true, false, false},
		{"file:/../c/dbs/a", "dir", true, false, false},
		{"file:///" + abs + "/dbs/a", "dir", true, false, false},
		{"file:/dbs/a.zip", "dir", true, false, false}, // a directory of that name
		{"file:/dbs/none", "dir", false, false, false},
		{c27Host + "v1", "api", false, true, true},
		{c27Host + "deep/er/v1", "api", false, true, true},
		{c27Host + "a.zip", "zip", false, true, true},
		{c27Host + "x/file:/a.zip", "zip", false, true, true},
		{c27Host + "x.zip/v1", "api", false, true, true},
		{c27Host + "a.ZIP", "api", false, true, true},
		{c27Host + "azip", "api", false, true, true},
		{c27Host + "file:/x", "api", false, true, true},
		{"http://db.test/plain.zip", "zip", false, true, true},
		{"http://db.test:8080/v1", "api", false, true, true},
		{c27Host + "gone.zip", "zip", false, false, false},
		{c27Host + "gone", "api", false, false, false},
		{"", "", false, false, false},
		{"dbs/a", "", false, false, false},
		{"db.test", "", false, false, false},
		{"https://%zz", "", false, false, false},
	}
}

var c27Types = []string{"", "dir", "zip", "api", "ZIP", "directory"}

func c27Adv(id string) mAdv {
	return mAdv{id: id, summary: "about " + id, entries: []mEntry{{eco: "npm", name: "p", ranges: openRange()}}}
}

// c27Kinds: configs of one or two databases of every type and address.
func c27Kinds(c *C) {
	d := caseDir()
	addrs := c27Addrs(d)
	type entry struct {
		c27Addr
		typ, wd, name string
	}
	n := 1 + c.N(2)
	var es []entry
	for i := 0; i < n; i++ {
		e := entry{c27Addr: addrs[c.N(len(addrs))]}
		if i == 0 || c.Thorough() {
			e.typ = c27Types[c.N(len(c27Types))]
			e.wd = Pick(c, "", "w")
			e.name = Pick(c, "", "a name")
		}
		es = append(es, e)
	}
	if n == 2 && es[0].url == es[1].url {
		c.Skip()
	}
	global := c.Bool()
	cf := "extra-databases:\n"
	for _, e := range es {
		cf += fmt.Sprintf("  - url: %s\n", q(e.url))
		if e.typ != "" {
			cf += "    type: " + e.typ + "\n"
		}
		if e.wd != "" {
			cf += "    working-directory: " + e.wd + "\n"
		}
		if e.name != "" {
			cf += "    name: " + e.name + "\n"
		}
	}
	c.Leaf(strings.ReplaceAll(cf, d, "ROOT") + fmt.Sprint(global))
	files := Files{"package-lock.json": lockText("package-lock.json", []mPkg{pd("npm", "npm", "p", "1.0.0")})}
	for _, n := range []string{"a", "a.zip"} {
		files["dbs/"+n+"/1.json"] = c27Adv("DIR-" + n).json()
		files["dbs/"+n+"/w/1.json"] = c27Adv("DIRW-" + n).json()
	}
	files["file:/x/1.json"] = c27Adv("TRAP-1").json()
	files["v1/1.json"] = c27Adv("TRAP-2").json()
	args := []string{"--json", "--use-dbs=false", "package-lock.json"}
	if global {
		files["conf.yml"] = cf
		args = append([]string{"--config", "conf.yml"}, args...)
	} else {
		files[".osv-detector.yml"] = cf
	}
	files.write(d)
	// every address on the network answers both as an archive and as an API
	tag := func(u string) string { return strings.NewReplacer("/", "-", ":", "-").Replace(u) }
	net.reset(func(r *Req) Resp {
		u := r.URL
		if strings.Contains(u, "gone") || !strings.Contains(u, "://db.test") {
			return Resp{Err: errNet}
		}
		if r.Method == "POST" {
			b, ok := strings.CutSuffix(u, "/querybatch")
			if !ok {
				return Resp{Code: 404}
			}
			return Resp{Body: fmt.Sprintf(`{"results":[{"vulns":[{"id":%s}]}]}`, q("API-"+tag(b)))}
		}
		if _, id, ok := strings.Cut(u, "/vulns/"); ok {
			return Resp{Body: c27Adv(id).json()}
		}
		return Resp{Header: map[string]string{"ETag": "\"1\""}, Body: mkZip(Files{"1.json": c27Adv("ZIP-" + tag(u)).json(), "w/1.json": c27Adv("ZIPW-" + tag(u)).json()})}
	})
	r := cli(args...)
	var want []string
	var urls []string
	loadErr, problem := false, false
	for _, e := range es {
		kind := e.kind
		if kind == "" { // no address
			problem = true
			continue
		}
		if e.typ != "" {
			kind = e.typ
		}
		switch kind {
		case "dir":
			if !e.dir {
				loadErr = true
				continue
			}
			n := filepath.Base(e.url)
			if e.wd == "" {
				want = append(want, "DIR-"+n)
			}
			want = append(want, "DIRW-"+n)
		case "zip":
			urls = append(urls, e.url)
			if !e.zip {
				loadErr = true
				continue
			}
			if e.wd == "" {
				want = append(want, "ZIP-"+tag(e.url))
			}
			want = append(want, "ZIPW-"+tag(e.url))
		case "api":
			urls = append(urls, e.url+"/querybatch")
			if !e.api {
				problem = true
				continue
			}
			want = append(want, "API-"+tag(e.url))
			urls = append(urls, e.url+"/vulns/API-"+tag(e.url))
		default:
			problem = true
		}
	}
	fail := func(f string, a ...any) {
		c.Fail("%s\n  config:\n%s\n  %s\n  stderr: %s", fmt.Sprintf(f, a...), cf, r, clip(r.Err+r.SErr, 800))
	}
	rep, err := r.report()
	if err != nil || len(rep.Results) != 1 || len(rep.Results[0].Packages) != 1 {
		fail("not a report of one package (%v)", err)
	}
	got := vids(rep.Results[0].Packages[0].Vulnerabilities)
	slices.Sort(got)
	slices.Sort(want)
	want = slices.Compact(want)
	if !slices.Equal(got, want) {
		fail("reported %v, but the databases hold %v", got, want)
	}
	var asked []string
	for _, x := range r.Reqs {
		if strings.Contains(x.URL, "db.test") && !slices.Contains(asked, x.URL) {
			asked = append(asked, x.URL)
		}
	}
	urls = slices.DeleteFunc(urls, func(u string) bool { return !strings.Contains(u, "db.test") })
	slices.Sort(asked)
	slices.Sort(urls)
	if !slices.Equal(asked, urls) {
		fail("the requests are %v instead of %v", asked, urls)
	}
	code := 0
	switch {
	case loadErr:
		code = 127
	case len(want) > 0:
		code = 1
	case problem:
		code = 127
	}
	if r.Code != code {
		fail("exit code %d, expected %d", r.Code, code)
	}
	if (loadErr || problem) && strings.TrimSpace(r.Err+r.SErr) == "" {
		fail("nothing on standard error about the unusable database")
	}
	c.Nontrivial()
}

// ---- which databases are used without a config -----------------------------------------

func c27World() *world {
	w := newWorld()
	w.lock("package-lock.json", pd("npm", "npm", "p", "1.0.0"))
	w.ecoDB("npm", c27Adv("DB-1"))
	w.api(apiURL, c27Adv("API-1"))
	x := w.dirDB("x", c27Adv("X-1"))
	w.conf("d/.osv-detector.yml", mConf{dbs: []mDBRef{x}})
	w.lock("d/package-lock.json", pd("npm", "npm", "p", "1.0.0"), pd("npm", "npm", "q", "1.0.0"))
	return w
}

type c27Out struct {
	cliOut
	URLs []string
}

func c27Child() {
	var j cliJob
	if json.Unmarshal([]byte(os.Getenv("VERIF_JOB")), &j) != nil {
		os.Exit(5)
	}
	http.DefaultTransport = net
	net.reset(c27World().serve())
	var o, e bytes.Buffer
	code := runCLI(j.Args, &o, &e)
	out := c27Out{cliOut: cliOut{code, o.String(), e.String()}}
	for _, r := range net.take() {
		out.URLs = append(out.URLs, r.URL)
	}
	fmt.Printf("\n@@@%s", js(out))
	os.Exit(0)
}

// c27Run runs the command line in a process of its own.
func c27Run(args []string, env ...string) (r Run, urls []string) {
	cmd := exec.Command(os.Getenv("VERIF_SELF"))
	for _, v := range os.Environ() {
		if !strings.HasPrefix(v, "OSV_DETECTOR_PREFER_API=") {
			cmd.Env = append(cmd.Env, v)
		}
	}
	cmd.Env = append(cmd.Env, env...)
	cmd.Env = append(cmd.Env, "VERIF_WORKER=child:c27", "VERIF_JOB="+js(cliJob{args}))
	var b, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &b, &e
	err := cmd.Run()
	out, rest, ok := strings.Cut(b.String(), "\n@@@")
	var co c27Out
	if !ok || json.Unmarshal([]byte(rest), &co) != nil {
		theEngine.fatal(fmt.Sprintf("child: %v %s", err, e.String()))
	}
	return Run{Args: args, Code: co.Code, Out: co.Out, Err: co.Err, SOut: out, SErr: e.String()}, co.URLs
}

// c27Defaults: the environment and the flags, in every combination.
func c27Defaults(c *C) {
	env := Pick(c, "unset", "", "true", "false", "TRUE", "1", "true ", "yes")
	c.Split()
	type opt struct {
		args []string
		val  *bool
	}
	opts := func(n string) []opt {
		return []opt{
			{nil, nil}, {[]string{"--" + n}, bptr(true)}, {[]string{"--" + n + "=true"}, bptr(true)}, {[]string{"--" + n + "=false"}, bptr(false)},
			{[]string{"-" + n + "=0"}, bptr(false)}, {[]string{"--" + n + "=false", "--" + n}, bptr(true)}, {[]string{"--" + n, "--" + n + "=f"}, bptr(false)},
		}
	}
	dbs := opts("use-dbs")[c.N(7)]
	api := opts("use-api")[c.N(7)]
	offline := c.Bool()
	path := Pick(c, "package-lock.json", "d", "package-lock.json d")
	swap := c.Bool()
	if swap && (dbs.args == nil || api.args == nil) {
		c.Skip()
	}
	args := append(slices.Clone(dbs.args), api.args...)
	if swap {
		args = append(slices.Clone(api.args), dbs.args...)
	}
	prefer := env == "true"
	f := mFlags{json: true, offline: offline, useDBs: bptr(!prefer), useAPI: bptr(prefer)}
	if dbs.val != nil {
		f.useDBs = dbs.val
	}
	if api.val != nil {
		f.useAPI = api.val
	}
	args = append(args, "--json")
	if offline {
		args = append(args, "--offline")
	}
	args = append(args, strings.Fields(path)...)
	c.Leaf(fmt.Sprintf("OSV_DETECTOR_PREFER_API=%q %v", env, args))
	w := c27World()
	w.setup()
	must(removeTmp())
	var vars []string
	if env != "unset" {
		vars = []string{"OSV_DETECTOR_PREFER_API=" + env}
	}
	r, urls := c27Run(args, vars...)
	r.Args = append([]string{fmt.Sprintf("[OSV_DETECTOR_PREFER_API=%q]", env)}, r.Args...)
	e := w.expect(f, strings.Fields(path))
	w.compareJSON(c, r, e)
	for _, u := range urls {
		r.Reqs = append(r.Reqs, Req{URL: u})
	}
	w.compareReqs(c, r, e)
	asked := slices.ContainsFunc(urls, func(u string) bool { return strings.HasPrefix(u, apiURL) })
	if asked != (*f.useAPI && !offline) {
		c.Fail("the API was asked: %v (%s)\n  requests: %v", asked, strings.Join(r.Args, " "), urls)
	}
	c.Nontrivial()
}

// c27Batch: the size of the batches, with and without an API.
func c27Batch(c *C) {
	size := Pick(c, "-1", "0", "1", "2", "3", "4", "5", "1000", "+2", "0x1")
	eq := c.Bool()
	useAPI := c.Bool()
	useDBs := c.Bool()
	npk := c.N(5)
	text := c.Bool()
	w := newWorld()
	var pkgs []mPkg
	for i := 0; i < npk; i++ {
		pkgs = append(pkgs, pd("npm", "npm", fmt.Sprintf("p%d", i), "1.0.0"))
	}
	w.lock("package-lock.json", pkgs...)
	w.ecoDB("npm", on("DB-1", "npm", "p0"))
	w.api(apiURL, on("API-1", "npm", "p0"), on("API-2", "npm", "p3"))
	f := mFlags{json: !text, useAPI: &useAPI, useDBs: &useDBs, offline: c.Bool()}
	args := append(f.args(), "--batch-size="+size, "package-lock.json")
	if !eq {
		args = append(f.args(), "--batch-size", size, "package-lock.json")
	}
	c.Leaf(fmt.Sprint(args, npk))
	w.setup()
	must(removeTmp())
	r := cli(args...)
	var sizes []int
	for _, x := range r.Reqs {
		if x.URL == apiURL+"/querybatch" {
			qs, err := parseBatch(x.Body)
			if err != nil {
				c.Fail("a request that is not one: %s", clip(x.Body, 300))
			}
			sizes = append(sizes, len(qs))
		}
	}
	n := map[string]int{"-1": -1, "0": 0, "1": 1, "2": 2, "3": 3, "4": 4, "5": 5, "1000": 1000, "+2": 2, "0x1": 1}[size]
	if useAPI && n < 1 {
		if r.Code != 127 || strings.TrimSpace(r.Err+r.SErr) == "" {
			c.Fail("exit code %d for a batch size of %d\n  %s", r.Code, n, r)
		}
		if len(sizes) > 0 {
			c.Fail("the API was asked with a batch size of %d: %v", n, sizes)
		}
		c.Nontrivial()
		return
	}
	e := w.expect(f, []string{"package-lock.json"})
	if text {
		w.compareText(c, r, e, false)
	} else {
		w.compareJSON(c, r, e)
	}
	sum := 0
	for _, s := range sizes {
		sum += s
		if s < 1 || s > n {
			c.Fail("a request of %d packages with a batch size of %d", s, n)
		}
	}
	want, calls := 0, 0
	if useAPI && !f.offline {
		want = npk
		calls = (npk + n - 1) / max(n, 1)
		if n > npk && npk > 0 {
			calls = 1
		}
	}
	if sum != want || len(sizes) != calls {
		c.Fail("%v packages asked for, expected %d in %d requests\n  %s", sizes, want, calls, r)
	}
	c.Nontrivial()
}

package zzverif

import (
	"fmt"
	"slices"
	"strings"
)

func init() {
	register("C20", Family{Name: "identities", Run: c20Identities})
}

// c20Identities: databases whose addresses and working directories are easily
// mistaken for one another, in one config or in two.
func c20Identities(c *C) {
	adv := func(id string) mAdv {
		return mAdv{id: id, summary: "about " + id, entries: []mEntry{{eco: "npm", name: "p", ranges: openRange()}}}
	}
	type db struct {
		ref mDBRef
		ids []string
	}
	w := newWorld()
	for _, x := range []struct{ path, id string }{{"dbs/a/1.json", "A-1"}, {"dbs/a/b/1.json", "AB-1"}, {"dbs/a/c/1.json", "AC-1"}, {"dbs/a#b/1.json", "HASH-1"}, {"dbs/a#b/c/1.json", "HASHC-1"}, {"dbs/a#b#c/1.json", "HASH2-1"}, {"dbs/a/b#c/1.json", "BHASH-1"}, {"dbs/A/1.json", "UP-1"}, {"dbs/a b/1.json", "SP-1"}} {
		w.files[x.path] = adv(x.id).json()
	}
	zip := "https://x.test/a.zip"
	zip2 := "https://x.test/a.zip?v=2"
	menu := []db{
		{mDBRef{url: "file:/dbs/a"}, []string{"A-1", "AB-1", "AC-1", "BHASH-1"}},
		{mDBRef{url: "file:/dbs/a", wd: "b"}, []string{"AB-1"}},
		{mDBRef{url: "file:/dbs/a", wd: "c"}, []string{"AC-1"}},
		{mDBRef{url: "file:/dbs/a#b"}, []string{"HASH-1", "HASHC-1"}},
		{mDBRef{url: "file:/dbs/a#b", wd: "c"}, []string{"HASHC-1"}},
		{mDBRef{url: "file:/dbs/a#b#c"}, []string{"HASH2-1"}},
		{mDBRef{url: "file:/dbs/a", wd: "b#c"}, []string{"BHASH-1"}},
		{mDBRef{url: "file:/dbs/A"}, []string{"UP-1"}},
		{mDBRef{url: "file:/dbs/a%20b"}, []string{"SP-1"}},
		{mDBRef{url: zip}, []string{"Z-1", "ZB-1"}},
		{mDBRef{url: zip, wd: "b"}, []string{"ZB-1"}},
		{mDBRef{url: zip2, typ: "zip"}, []string{"Z2-1"}},
		{mDBRef{url: "https://x.test/a.zip", typ: "api"}, []string{"API-1"}},
		{mDBRef{url: "https://x.test/a.zip", name: "file:/dbs/a", wd: "b"}, []string{"ZB-1"}},
		{mDBRef{url: zip + "/", typ: "zip"}, []string{"Z3-1"}},
		{mDBRef{url: "file:/dbs/a/c", name: "same"}, []string{"AC-1"}},
		{mDBRef{url: zip2, name: "same", typ: "zip"}, []string{"Z2-1"}},
		{mDBRef{url: "file:/dbs/a", name: "same", wd: "b"}, []string{"AB-1"}},
	}
	n := 2 + c.N(c.Q(1, 2))
	var picked []db
	for i := 0; i < n; i++ {
		k := c.N(len(menu))
		if slices.ContainsFunc(picked, func(o db) bool { return o.ref == menu[k].ref }) {
			c.Skip()
		}
		picked = append(picked, menu[k])
	}
	two := c.Bool()
	conf := [2]mConf{}
	for i, p := range picked {
		k := 0
		if two && i > 0 {
			k = 1
		}
		conf[k].dbs = append(conf[k].dbs, p.ref)
	}
	w.lock("d0/package-lock.json", pd("npm", "npm", "p", "1.0.0"))
	w.conf("d0/.osv-detector.yml", conf[0])
	args := []string{"d0"}
	if two {
		w.lock("d1/package-lock.json", pd("npm", "npm", "p", "1.0.0"))
		w.conf("d1/.osv-detector.yml", conf[1])
		args = append(args, "d1")
		if c.Bool() {
			slices.Reverse(args)
		}
	}
	c.Leaf(fmt.Sprintf("%v %+v %+v", args, conf[0], conf[1]))
	w.setup()
	body := mkZip(Files{"1.json": adv("Z-1").json(), "b/1.json": adv("ZB-1").json()})
	body2 := mkZip(Files{"1.json": adv("Z2-1").json()})
	body3 := mkZip(Files{"1.json": adv("Z3-1").json()})
	net.reset(func(r *Req) Resp {
		switch {
		case r.URL == zip:
			return Resp{Body: body, Header: map[string]string{"ETag": "\"1\""}}
		case r.URL == zip2:
			return Resp{Body: body2, Header: map[string]string{"ETag": "\"2\""}}
		case r.URL == zip+"/":
			return Resp{Body: body3, Header: map[string]string{"ETag": "\"3\""}}
		case r.URL == zip+"/querybatch":
			return Resp{Body: `{"results":[{"vulns":[{"id":"API-1"}]}]}`}
		case r.URL == zip+"/vulns/API-1":
			return Resp{Body: adv("API-1").json()}
		}
		return Resp{Err: errNet}
	})
	r := cli(append([]string{"--json", "--use-dbs=false"}, args...)...)
	rep, err := r.report()
	if err != nil || len(rep.Results) != len(args) || r.Code != 1 {
		c.Fail("not a report of %d lockfiles (%v)\n%s", len(args), err, r)
	}
	for i, a := range args {
		var want []string
		for j, p := range picked {
			if !two || (j > 0) == (a == "d1") {
				for _, id := range p.ids {
					if !slices.Contains(want, id) {
						want = append(want, id)
					}
				}
			}
		}
		got := vids(rep.Results[i].Packages[0].Vulnerabilities)
		slices.Sort(want)
		slices.Sort(got)
		if !slices.Equal(want, got) {
			c.Fail("%s is reported to have %v, but its databases give %v\n  databases: %+v\n%s", a, got, want, picked, clip(strings.TrimSpace(r.Err), 600))
		}
	}
	c.Nontrivial()
}

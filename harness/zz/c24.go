package zzverif

import (
	"encoding/json"
	"fmt"
	"reflect"
	"strings"
	"time"
	"unicode"
	"unicode/utf8"
)

func init() {
	register("C24", Family{Name: "details", Run: c24Details}, Family{Name: "ids", Run: c24IDs}, Family{Name: "breaks", Run: c24Breaks}, Family{Name: "data", Run: c24Data})
}

// c24Adv is an advisory document for package p, written out by hand.
type c24Adv struct{ id, summary, details string }

func (a c24Adv) json() string {
	s := `{"id":` + q(a.id) + `,"modified":"2024-02-01T00:00:00Z","published":"2024-01-01T00:00:00Z"`
	if a.summary != "" {
		s += `,"summary":` + q(a.summary)
	}
	if a.details != "" {
		s += `,"details":` + q(a.details)
	}
	return s + `,"affected":[{"package":{"ecosystem":"npm","name":"p"},"ranges":[{"type":"SEMVER","events":[{"introduced":"0"}]}]}]}`
}

const descLimit = 80

// describes checks a printed description against the advisory it is meant to describe.
func (a c24Adv) describes(got string) string {
	link := ""
	if strings.HasPrefix(a.id, "GHSA") {
		link = " (https://github.com/advisories/" + a.id + ")"
	}
	text, ok := strings.CutSuffix(got, link)
	if !ok {
		return fmt.Sprintf("does not end in %q", link)
	}
	if !utf8.ValidString(text) {
		return "is not valid text: a character was cut in two"
	}
	switch {
	case a.summary != "":
		if text != a.summary {
			return "is not the summary"
		}
		return ""
	case a.details == "":
		if text != "(no details available)" {
			return "should say that there are no details"
		}
		return ""
	}
	n := utf8.RuneCountInString(a.details)
	if n < descLimit || n == descLimit && text == a.details {
		if text != a.details {
			return "is not the (short) details"
		}
		return ""
	}
	p, ok := strings.CutSuffix(text, "...")
	if !ok {
		return "is too long, or not marked as shortened"
	}
	if !strings.HasPrefix(a.details, p) {
		return "is not the start of the details"
	}
	rs := []rune(a.details)
	k := utf8.RuneCountInString(p)
	if k > descLimit {
		return "is longer than the limit"
	}
	// at the last space within the limit, if there is one
	last := -1
	for i, r := range rs[:descLimit] {
		if unicode.IsSpace(r) && (i > 0) {
			last = i
		}
	}
	if last < 0 && unicode.IsSpace(rs[0]) && k == 0 {
		return ""
	}
	if last >= 0 {
		if k != last {
			return fmt.Sprintf("is not cut at the last space before the limit (%d), but at %d", last, k)
		}
		return ""
	}
	if k < descLimit-1 {
		return fmt.Sprintf("is cut after %d characters already", k)
	}
	return ""
}

// c24Texts scans package p with these advisories and reads the descriptions back.
func c24Texts(c *C, advs []c24Adv, pkg mPkg) {
	w := newWorld()
	w.lock("package-lock.json", pkg)
	f := Files{}
	for i, a := range advs {
		d := a.json()
		if pkg.Name != "p" {
			d = strings.ReplaceAll(d, `"name":"p"`, `"name":`+q(pkg.Name))
		}
		f[fmt.Sprintf("%05d.json", i)] = d
	}
	w.setup()
	zip := mkZip(f)
	net.reset(func(r *Req) Resp {
		if r.URL == fmt.Sprintf(ecoURL, "npm") {
			return Resp{Body: zip, Header: map[string]string{"ETag": "\"e\""}}
		}
		return Resp{Err: errNet}
	})
	r := cli("package-lock.json")
	fail := func(f string, a ...any) {
		c.Fail("%s\n  exit %d\n  stdout: %s\n  stderr: %s", fmt.Sprintf(f, a...), r.Code, clip(r.Out, 3000), clip(r.Err, 500))
	}
	if r.Code != 1 {
		fail("exit code %d, expected 1", r.Code)
	}
	head := "  " + pkg.Name + "@" + pkg.Version + " is affected by the following vulnerabilities:\n"
	_, rest, ok := strings.Cut(r.Out, head)
	if !ok {
		fail("no line %q", head)
	}
	for i, a := range advs {
		if rest, ok = strings.CutPrefix(rest, "    "+a.id+": "); !ok {
			fail("no finding %s where it is expected, at %q", a.id, clip(rest, 100))
		}
		next := fmt.Sprintf("\n\n  %d known vulnerabilit", len(advs))
		if i+1 < len(advs) {
			next = "\n    " + advs[i+1].id + ": "
		}
		k := strings.Index(rest, next)
		if k < 0 {
			fail("nothing after finding %s, expected %q", a.id, next)
		}
		if why := a.describes(rest[:k]); why != "" {
			fail("the description of %s %s:\n  description: %q\n  summary: %q\n  details: %q", a.id, why, rest[:k], a.summary, a.details)
		}
		rest = rest[k+1:]
	}
	c.AddStates(int64(len(advs)))
}

// c24Details: details of every length around the limit, of narrow and wide
// characters, with up to two spaces anywhere.
func c24Details(c *C) {
	fills := []string{"x", "é", "€", "😀"}
	a := c.N(len(fills))
	b := c.N(len(fills))
	var ns []int
	for n := 0; n <= c.Q(6, 20); n++ {
		ns = append(ns, n)
	}
	for n := c.Q(74, 60); n <= c.Q(86, 100); n++ {
		ns = append(ns, n)
	}
	ns = append(ns, 159, 160, 161, 400)
	n := ns[c.N(len(ns))]
	sw := 0 // where the filling changes
	if a != b {
		sw = 1 + c.N(c.Q(3, 5))
		sw = []int{0, 1, 40, 79, 26, 78}[sw]
		if sw >= n {
			c.Skip()
		}
	}
	first := c.N(c.Q(14, 50)) // the first space; 0 for none
	pos := []int{-1, 0, 1, 2, 19, 20, 26, 27, 39, 40, 41, 77, 78, 79, 80, 81, 3, 4, 5, 13, 14, 15, 16, 17, 18, 21, 22, 23, 24, 25, 28, 29, 30, 31, 50, 51, 52, 53, 54, 55, 60, 65, 70, 72, 73, 74, 75, 76, 82, 83}[first]
	if pos >= n {
		c.Skip()
	}
	sp := " "
	if c.Thorough() {
		sp = Pick(c, " ", "\t", "\u00a0", "\n")
	}
	c.Leaf(fmt.Sprintf("details of %d characters (%s, %s from %d), a space (%q) at %d and anywhere", n, fills[a], fills[b], sw, sp, pos))
	var advs []c24Adv
	for second := -1; second < n && second <= 90; second++ {
		var s strings.Builder
		for i := 0; i < n; i++ {
			switch {
			case i == pos || i == second:
				s.WriteString(sp)
			case i < sw:
				s.WriteString(fills[a])
			default:
				s.WriteString(fills[b])
			}
		}
		advs = append(advs, c24Adv{id: fmt.Sprintf("X-%03d", second+1), details: s.String()})
	}
	if n >= descLimit {
		c.Nontrivial()
	}
	c24Texts(c, advs, pd("npm", "npm", "p", "1.0.0"))
}

// c24Breaks: details of several lines, paragraphs and headings, as advisories mostly have them.
func c24Breaks(c *C) {
	seps := []string{" ", "\n", "\n\n", "\r\n", "\t", "  ", "\n\n\n", " \n", ". ", ": ", "\u2028", "\v", "\f"}
	words := []string{"word", "### Impact", "`code`", "<b>", "- item", strings.Repeat("w", 30), "日本語"}
	s1 := seps[c.N(len(seps))]
	s2 := seps[c.N(len(seps))]
	c.Split()
	w1 := words[c.N(len(words))]
	lead := Pick(c, "", "\n", " ")
	tail := Pick(c, "", "\n", "\n\n")
	c.Leaf(fmt.Sprintf("%q %q %q %q %q", lead, w1, s1, s2, tail))
	var advs []c24Adv
	for n := 1; n <= 24; n++ {
		for _, w2 := range words {
			s := lead + w1
			for i := 1; i < n; i++ {
				if i%2 == 1 {
					s += s1 + w2
				} else {
					s += s2 + w1
				}
				if utf8.RuneCountInString(s) > 200 {
					break
				}
			}
			advs = append(advs, c24Adv{id: fmt.Sprintf("X-%03d", len(advs)), details: s + tail})
		}
	}
	c24Texts(c, advs, pd("npm", "npm", "p", "1.0.0"))
	c.Nontrivial()
}

// c24IDs: ids, summaries, packages.
func c24IDs(c *C) {
	id := Pick(c, "GHSA-aaaa-bbbb-cccc", "GHSA", "OSV-1", "CVE-2020-1", "ghsa-1", "XGHSA-1", "PYSEC-100%d", "A%s", "MAL-GHSA-2", "GHSA-%d")
	sum := Pick(c, "", "a summary", "100% %s %d", strings.Repeat("long summary ", 40), strings.Repeat("y", 200), "s: (x) https://github.com/advisories/GHSA-q", strings.Repeat("日本", 70), "multi\nline")
	det := Pick(c, "", "the details", "50% %v", strings.Repeat("words and ", 30), strings.Repeat("ab", 60), strings.Repeat("本", 100))
	name := Pick(c, "p", "@s/p", "p%d", "a b", "日")
	ver := Pick(c, "1.0.0", "1.0.0-%s.1", "2.0.0+x")
	c.Leaf(fmt.Sprintf("%q %q %q %q@%q", id, sum, det, name, ver))
	c24Texts(c, []c24Adv{{id, sum, det}, {"Z-1", det, sum}}, pd("npm", "npm", name, ver))
	c.Nontrivial()
}

// c24Data: the JSON report carries the advisory's data, whatever kind of database it is from.
func c24Data(c *C) {
	kind := Pick(c, "zip", "dir", "api")
	var fields []string
	add := func(f string, a ...any) { fields = append(fields, fmt.Sprintf(f, a...)) }
	add(`"id":"T-1"`)
	add(`"modified":%q`, Pick(c, "2024-02-01T00:00:00Z", "2024-02-01T03:04:05.678901234Z", "2024-02-01T03:04:05+02:00"))
	add(`"published":%q`, Pick(c, "2021-01-01T00:00:00Z", "1999-12-31T23:59:59.9-11:30"))
	if al := Pick(c, "", `[]`, `["CVE-1"]`, `["GHSA-b","CVE-2","GHSA-a"]`); al != "" {
		add(`"aliases":%s`, al)
	}
	texts := []string{"", `"plain"`, `"<b>&amp;</b> \u2028 \u0000 \"q\" \\ 100%"`, `"日本 😀\nnext"`, q(strings.Repeat("long ", 100))}
	if t := texts[c.N(len(texts))]; t != "" {
		add(`"summary":%s`, t)
	}
	if t := texts[c.N(len(texts))]; t != "" {
		add(`"details":%s`, t)
	}
	vers := Pick(c, "", `"versions":[],`, `"versions":["2.0.0","1.0.0",`+strings.Repeat(`"0.1","0.2",`, 70)+`"1.0.0"],`)
	evs := Pick(c, `{"introduced":"0"}`, `{"fixed":"2.0.0"},{"introduced":"0.5.0"}`, `{"last_affected":"1.0.0"},{"introduced":"1.0.0"}`, `{"introduced":"1.0.0"},{"fixed":"1.5.0"},{"introduced":"2"},{"last_affected":"3"}`)
	others := Pick(c, nil, []string{`{"package":{"ecosystem":"PyPI","name":"Other_Name"},"versions":["9"],"ranges":[{"type":"GIT","events":[{"introduced":"0"},{"fixed":"abc"}]}]}`}, []string{`{"package":{"ecosystem":"npm","name":"p"},"versions":["7.0.0"]}`})
	aff := append([]string{`{"package":{"ecosystem":"npm","name":"p"},` + vers + `"ranges":[{"type":"GIT","events":[{"introduced":"0"}]},{"type":"SEMVER","events":[` + evs + `]}]}`}, others...)
	if len(aff) > 1 && c.Bool() {
		aff[0], aff[1] = aff[1], aff[0]
	}
	add(`"affected":[%s]`, strings.Join(aff, ","))
	doc := "{" + strings.Join(fields, ",") + "}"
	ign := c.Bool()
	c.Leaf(fmt.Sprintf("%s ignored=%v %s", kind, ign, doc))
	w := newWorld()
	w.lock("package-lock.json", pd("npm", "npm", "p", "1.0.0"))
	args := []string{"--json", "--use-dbs=false", "package-lock.json"}
	switch kind {
	case "zip":
		args[1] = "--use-dbs"
	case "api":
		args[1] = "--use-api"
		args = append([]string{"--use-dbs=false"}, args...)
	case "dir":
		w.files["dbs/d/x.json"] = doc
		w.conf(".osv-detector.yml", mConf{dbs: []mDBRef{{url: "file:/dbs/d"}}})
	}
	if ign {
		args = append([]string{"--ignore", "T-1"}, args...)
	}
	w.setup()
	zip := mkZip(Files{"x.json": doc})
	net.reset(func(r *Req) Resp {
		switch {
		case r.URL == fmt.Sprintf(ecoURL, "npm"):
			return Resp{Body: zip}
		case r.URL == apiURL+"/querybatch":
			return Resp{Body: `{"results":[{"vulns":[{"id":"T-1","modified":"2024-01-01T00:00:00Z"}]}]}`}
		case r.URL == apiURL+"/vulns/T-1":
			return Resp{Body: doc}
		}
		return Resp{Err: errNet}
	})
	r := cli(args...)
	var rep struct {
		Results []struct {
			Packages []struct {
				Vulnerabilities []map[string]any `json:"vulnerabilities"`
				Ignored         []map[string]any `json:"ignored"`
			} `json:"packages"`
		} `json:"results"`
	}
	fail := func(f string, a ...any) {
		c.Fail("%s\n  exit %d\n  stdout: %s\n  stderr: %s\n  advisory: %s", fmt.Sprintf(f, a...), r.Code, clip(r.Out, 2500), clip(r.Err, 500), doc)
	}
	if err := json.Unmarshal([]byte(r.Out), &rep); err != nil || len(rep.Results) != 1 || len(rep.Results[0].Packages) != 1 {
		fail("not a report of one package: %v", err)
	}
	got := rep.Results[0].Packages[0].Vulnerabilities
	if ign {
		got = rep.Results[0].Packages[0].Ignored
	}
	if len(got) != 1 {
		fail("%d findings, expected the advisory", len(got))
	}
	var want map[string]any
	must(json.Unmarshal([]byte(doc), &want))
	if why := sameData("", want, got[0]); why != "" {
		fail("the finding differs from its advisory: %s", why)
	}
	// and the other way round: nothing is made up
	if why := sameData("", got[0], want); why != "" {
		fail("the finding has what its advisory has not: %s", why)
	}
	c.Nontrivial()
}

// sameData: everything that want says, got says as well; absent and empty are the same.
func sameData(at string, want, got any) string {
	switch x := want.(type) {
	case map[string]any:
		y, ok := got.(map[string]any)
		if !ok {
			return fmt.Sprintf("%s: %v", at, got)
		}
		for _, k := range sortedKeys(x) {
			if why := sameData(at+"/"+k, x[k], y[k]); why != "" {
				return why
			}
		}
		return ""
	case []any:
		y, ok := got.([]any)
		if !ok && got != nil || len(x) != len(y) {
			return fmt.Sprintf("%s: %v, not %v", at, got, want)
		}
		for i := range x {
			if why := sameData(fmt.Sprintf("%s/%d", at, i), x[i], y[i]); why != "" {
				return why
			}
		}
		return ""
	case string:
		y, _ := got.(string)
		if x == y {
			return ""
		}
		if strings.HasSuffix(at, "/published") || strings.HasSuffix(at, "/modified") {
			a, e1 := time.Parse(time.RFC3339Nano, x)
			b, e2 := time.Parse(time.RFC3339Nano, y)
			if e1 == nil && e2 == nil && a.Equal(b) {
				return ""
			}
		}
		return fmt.Sprintf("%s: %q, not %q", at, y, x)
	case nil:
		if got == nil || reflect.ValueOf(got).Kind() == reflect.Slice && reflect.ValueOf(got).Len() == 0 || got == "" {
			return ""
		}
	}
	if reflect.DeepEqual(want, got) {
		return ""
	}
	return fmt.Sprintf("%s: %v, not %v", at, got, want)
}

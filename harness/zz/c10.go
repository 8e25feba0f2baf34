package zzverif

import (
	"archive/zip"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"path"
	"regexp"
	"slices"
	"sort"
	"strconv"
	"strings"

	"github.com/g-rath/osv-detector/pkg/database"
)

func init() {
	register("C10",
		Family{Name: "trees", Run: c10Trees},
		Family{Name: "bad-files", Run: c10Bad},
		Family{Name: "archives", Run: c10Archives},
		Family{Name: "scale", Run: c10Scale},
		Family{Name: "sizes", Run: c10Sizes},
		Family{Name: "roots", Run: c10Roots},
		Family{Name: "command-line", Run: c10CLI},
		Family{Name: "odd-advisories", Run: c10Odd},
		Family{Name: "linked-files", Run: c10Links},
	)
}

// c10Under is whether a file is within a working directory.
func c10Under(name, wd string) bool {
	var dir []string
	for _, s := range strings.Split(wd, "/") {
		if s != "" && s != "." {
			dir = append(dir, s)
		}
	}
	segs := strings.Split(name, "/")
	return len(segs) >= len(dir) && slices.Equal(segs[:len(dir)], dir)
}

// c10Exists is whether the working directory is there (as a directory or a file).
func c10Exists(f Files, wd string) bool {
	for n := range f {
		if c10Under(n, wd) {
			return true
		}
	}
	return false
}

// c10Expect is the ids that a tree of files gives.
func c10Expect(f Files, wd string) (out []string, count int) {
	for _, n := range sortedKeys(f) {
		if !c10Under(n, wd) || !strings.HasSuffix(n, ".json") {
			continue
		}
		var v struct {
			ID        string  `json:"id"`
			Withdrawn *string `json:"withdrawn"`
			Affected  []struct {
				Package struct {
					Ecosystem string `json:"ecosystem"`
					Name      string `json:"name"`
				} `json:"package"`
			} `json:"affected"`
		}
		if json.Unmarshal([]byte(f[n]), &v) != nil || strings.HasPrefix(strings.TrimSpace(f[n]), "[") {
			continue
		}
		count++
		if v.Withdrawn != nil {
			continue
		}
		for _, a := range v.Affected {
			if a.Package.Ecosystem == "npm" && a.Package.Name == "p" {
				out = append(out, v.ID)
				break
			}
		}
	}
	sort.Strings(out)
	return out, count
}

// c10Damaged is an entry of the archive at hand that cannot be read.
var c10Damaged string

func c10Check(c *C, what string, db database.DB, err error, count int, f Files, wd string) {
	said := takeStray(strayErr)
	if err != nil {
		c.Fail("%s: loading failed: %v", what, err)
	}
	got, err := dbIDs(db)
	if err != nil {
		c.Fail("%s: %v", what, err)
	}
	want, n := c10Expect(f, wd)
	if !slices.Equal(got, want) && len(got)+len(want) > 0 {
		c.Fail("%s: working directory %q gave %v, expected %v", what, wd, got, want)
	}
	for _, name := range append(sortedKeys(f), c10Damaged) {
		if !c10Under(name, wd) || !strings.HasSuffix(name, ".json") {
			continue
		}
		var v database.OSV
		if t, ok := f[name]; ok && json.Unmarshal([]byte(t), &v) == nil {
			continue
		}
		if !strings.Contains(said, path.Base(name)) {
			c.Fail("%s: working directory %q: %s was skipped without a word about it (%q)", what, wd, name, clip(said, 300))
		}
	}
	if count != n {
		c.Fail("%s: working directory %q: reported count %d, loaded %d", what, wd, count, n)
	}
}

func c10Load(c *C, f Files, z string, wd, root string, names []string) {
	takeStray(strayErr)
	dd, err := database.NewDirDB(database.Config{Name: "d", Type: "dir", URL: "file:/" + root, WorkingDirectory: wd}, false, names)
	n := 0
	if err == nil {
		n = dd.VulnerabilitiesCount
	}
	c10Check(c, "directory", dd, err, n, f, wd)
	c10LoadZip(c, f, z, wd, names)
}

func c10LoadZip(c *C, f Files, z string, wd string, names []string) {
	takeStray(strayErr)
	net.reset(static(map[string]string{zipA: z}))
	zd, err := database.NewZippedDB(database.Config{Name: "z", Type: "zip", URL: zipA, WorkingDirectory: wd}, false, names)
	n := 0
	if err == nil {
		n = zd.VulnerabilitiesCount
	}
	c10Check(c, "archive", zd, err, n, f, wd)
	net.reset(nil)
	zd, err = database.NewZippedDB(database.Config{Name: "z", Type: "zip", URL: zipA, WorkingDirectory: wd}, true, names)
	n = 0
	if err == nil {
		n = zd.VulnerabilitiesCount
	}
	c10Check(c, "cached archive", zd, err, n, f, wd)
}

var c10Paths = []string{"1.json", "a/1.json", "a/b/1.json", "ab/1.json", "a/x.txt", "a/X.JSON", "a/.json", "c.json", "a/d.json/1.json", "b/a/1.json", "a/1.json.bak", "A/1.json", "a b/\u00fc.json", "a/json", "a/b/c/d/e.json", ".h/1.json", "a/.git/2.json", "a/node_modules/_t/~1.json", "a/CVE-2024-1.json"}
var c10WDs = []string{"", ".", "a", "a/", "./a", "/a", "a/b", "a//b", "a/./b/", "/", "ab", "c.json", "a/d.json", "b", "a b", "A", "a/1.json", ".h", "a/.git/"}
var c10BadTexts = []string{"", "{", "null,", "[]", `{"id": 5}`, `{"affected": {}}`, "not json", `{"id":"BAD","affected":[{"package":{"ecosystem":"npm","name":"p"},"versions":["1.0.0"`, "[{}]", `"x"`}

func c10Adv(i int) string {
	return on(fmt.Sprintf("F-%02d", i), "npm", "p").json()
}

// c10Trees: all small trees, all working directories.
func c10Trees(c *C) {
	sub := c.Subset(len(c10Paths), c.Q(4, 5))
	if len(sub) == 0 {
		c.Skip()
	}
	c.Split()
	f := Files{}
	for _, i := range sub {
		f[c10Paths[i]] = c10Adv(i)
	}
	wd := c10WDs[c.N(len(c10WDs))]
	if !c10Exists(f, wd) {
		c.Skip()
	}
	root := Pick(c, "db", "up/my db")
	c.Leaf(fmt.Sprintf("%s working directory %q, in %q", strings.Join(sortedKeys(f), " "), wd, root))
	d := caseDir()
	f.write(path.Join(d, root))
	esc := strings.ReplaceAll(root, " ", "%20")
	c10Load(c, f, mkZip(f), wd, esc, nil)
	c10Load(c, f, mkZip(f), wd, esc, []string{"p"})
	c.Nontrivial()
}

// c10Bad: files that cannot be parsed, anywhere, hide nothing.
func c10Bad(c *C) {
	names := []string{"1.json", "a/2.json", "a/b/3.json", "z.json"}
	f := Files{}
	bad := 0
	for i, n := range names {
		k := c.N(len(c10BadTexts) + 3)
		switch {
		case k == 0:
			f[n] = c10Adv(i)
		case k == 1:
			a := on(fmt.Sprintf("W-%02d", i), "npm", "p")
			a.withdrawn = true
			f[n] = a.json()
		case k == 2:
			f[n] = on(fmt.Sprintf("Q-%02d", i), "npm", "q").json()
		default:
			f[n] = c10BadTexts[k-3]
			bad++
		}
		if bad > c.Q(2, 3) {
			c.Skip()
		}
	}
	wd := Pick(c, "", "a")
	c.Leaf(f.key() + wd)
	d := caseDir()
	f.write(path.Join(d, "db"))
	var order []string
	if bad%2 == 0 {
		order = sortedKeys(f)
	} else {
		order = sortedKeys(f)
		slices.Reverse(order)
	}
	c10Load(c, f, mkZipOrdered(f, order), wd, "db", nil)
	c10Load(c, f, mkZipOrdered(f, order), wd, "db", []string{"p"})
	c.Nontrivial()
}

// c10Odd: advisories that say little, or a lot, are advisories like any others.
func c10Odd(c *C) {
	menu := []func(id string) string{
		func(id string) string { return on(id, "npm", "p").json() },
		func(id string) string { return `{"id":"` + id + `"}` },
		func(id string) string { return `{"id":"` + id + `","affected":[]}` },
		func(id string) string { return `{"id":"` + id + `","affected":null,"aliases":null}` },
		func(id string) string {
			return `{"affected":[{"package":{"ecosystem":"npm","name":"p"},"versions":["1.0.0"]}],"id":"` + id + `"}`
		},
		func(id string) string {
			return `{"id":"` + id + `","schema_version":"9.9.9","new":{"x":[1]},"severity":[],"credits":null,"affected":[{"package":{"ecosystem":"npm","name":"q","purl":"pkg:npm/q"}},{"package":{"ecosystem":"npm","name":"p"},"versions":["1.0.0"],"ecosystem_specific":{},"database_specific":[1]},{"package":{"ecosystem":"npm","name":"p"},"ranges":[{"type":"SEMVER","events":[{"introduced":"0"}]}]}]}`
		},
		func(id string) string { return "\n\t " + on(id, "npm", "p").json() + "\n\n" },
		func(id string) string { return on(id, "PyPI", "p").json() },
	}
	f := Files{}
	names := []string{"1.json", "a/2.json", "a/3.json"}
	var ks []int
	for i, n := range names {
		k := c.N(len(menu))
		ks = append(ks, k)
		f[n] = menu[k](fmt.Sprintf("O-%d", i))
	}
	wd := Pick(c, "", "a")
	c.Leaf(fmt.Sprint(ks, wd))
	f.write(path.Join(caseDir(), "db"))
	c10Load(c, f, mkZip(f), wd, "db", nil)
	c10Load(c, f, mkZip(f), wd, "db", []string{"p"})
	c.Nontrivial()
}

// c10Links: files of a directory database that are links are read as what they lead to; one
// that leads nowhere is named and skipped.
func c10Links(c *C) {
	f := Files{}
	type link struct{ at, to string }
	var links []link
	for i, n := range []string{"1.json", "a/2.json", "a/b/3.json"} {
		switch k := c.N(5); k {
		case 0:
			f[n] = c10Adv(i)
		case 1: // to a file outside of the database
			f[n] = c10Adv(i)
			links = append(links, link{n, fmt.Sprintf("outside/%d", i)})
		case 2: // to a file in the database that does not count itself
			f[n] = c10Adv(i)
			links = append(links, link{n, fmt.Sprintf("db/data/%d.txt", i)})
		case 3: // to nothing
			f[n] = "{"
			links = append(links, link{n, ""})
		}
	}
	wd := Pick(c, "", "a")
	if !c10Exists(f, wd) {
		c.Skip()
	}
	abs := c.Bool()
	c.Leaf(fmt.Sprint(sortedKeys(f), links, wd, abs))
	d := caseDir()
	linked := map[string]bool{}
	for _, l := range links {
		linked[l.at] = true
		at := path.Join(d, "db", l.at)
		must(os.MkdirAll(path.Dir(at), 0o755))
		to := path.Join(d, "nowhere")
		if l.to != "" {
			to = path.Join(d, l.to)
			must(os.MkdirAll(path.Dir(to), 0o755))
			must(os.WriteFile(to, []byte(f[l.at]), 0o644))
		}
		if !abs {
			to = strings.Repeat("../", strings.Count(l.at, "/")+1) + strings.TrimPrefix(to, d+"/")
		}
		must(os.Symlink(to, at))
	}
	plain := Files{}
	for n, t := range f {
		if !linked[n] {
			plain[n] = t
		}
	}
	plain.write(path.Join(d, "db"))
	takeStray(strayErr)
	dd, err := database.NewDirDB(database.Config{Name: "d", Type: "dir", URL: "file:/db", WorkingDirectory: wd}, false, nil)
	n := 0
	if err == nil {
		n = dd.VulnerabilitiesCount
	}
	c10Check(c, "directory", dd, err, n, f, wd)
	c.Nontrivial()
}

// c10Archives: the ways an archive can be written.
func c10Archives(c *C) {
	names := []string{"1.json", "a/1.json", "a/2.json", "a/b/1.json"}
	perm := c.Perm(len(names))
	method := c.N(3) // store, deflate, mixed
	dirs := c.Bool() // entries for directories
	damaged := c.N(len(names)+1) - 1
	how := 0
	if damaged >= 0 {
		how = c.N(3) // checksum, unknown method, garbage in deflate
	}
	wd := Pick(c, "", "a", "a/b")
	c.Leaf(fmt.Sprintf("order %v method %d dirs %v damaged %d how %d wd %q", perm, method, dirs, damaged, how, wd))
	caseDir()
	f := Files{}
	var b bytes.Buffer
	w := zip.NewWriter(&b)
	if dirs {
		for _, n := range []string{"a/", "a/b/", "a/e.json/"} {
			_, err := w.Create(n)
			must(err)
		}
	}
	for k, i := range perm {
		m := []uint16{zip.Store, zip.Deflate, []uint16{zip.Store, zip.Deflate}[k%2]}[method]
		text := c10Adv(i)
		h := &zip.FileHeader{Name: names[i], Method: m}
		if i == damaged {
			h.CRC32 = 12345
			h.UncompressedSize64, h.CompressedSize64 = uint64(len(text)), uint64(len(text))
			h.Method = []uint16{zip.Store, 99, zip.Deflate}[how]
			x, err := w.CreateRaw(h)
			must(err)
			_, err = x.Write([]byte(text))
			must(err)
			continue
		}
		f[names[i]] = text
		x, err := w.CreateHeader(h)
		must(err)
		_, err = x.Write([]byte(text))
		must(err)
	}
	must(w.Close())
	c10Damaged = ""
	if damaged >= 0 {
		c10Damaged = names[damaged]
	}
	defer func() { c10Damaged = "" }()
	c10LoadZip(c, f, b.String(), wd, nil)
	c10LoadZip(c, f, b.String(), wd, []string{"p"})
	c.Nontrivial()
}

// c10Scale: many files and deep trees.
func c10Scale(c *C) {
	deep := c.Bool()
	n := c.N(c.Q(66, 300))
	if !deep && n > 60 {
		n = 60 + (n-60)*50
	}
	bad := c.N(3) // none, every third, all but the last
	wd := Pick(c, "", "d")
	c.Leaf(fmt.Sprintf("deep %v n %d bad %d wd %q", deep, n, bad, wd))
	dir := caseDir()
	f := Files{"d/z.json": c10Adv(0)}
	for i := 1; i <= n; i++ {
		p := fmt.Sprintf("d/%03d.json", i)
		if deep {
			p = "d/" + strings.Repeat("n/", i) + "x.json"
		}
		f[p] = on(fmt.Sprintf("N-%04d", i), "npm", "p").json()
		if bad == 1 && i%3 == 0 || bad == 2 && i < n {
			f[p] = "{"
		}
	}
	f.write(path.Join(dir, "db"))
	c10Load(c, f, mkZip(f), wd, "db", nil)
	c.Nontrivial()
}

// noise is text that compresses badly.
func noise(n int) string {
	const abc = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"
	b := make([]byte, n)
	x := uint64(88172645463325252)
	for i := range b {
		x ^= x << 13
		x ^= x >> 7
		x ^= x << 17
		b[i] = abc[x>>58]
	}
	return string(b)
}

// c10Sizes: files and archives of every magnitude.
func c10Sizes(c *C) {
	bits := 8 + c.N(c.Q(16, 18))
	size := 1<<bits + Pick(c, -1, 0, 1)
	what := c.N(4)
	c.Leaf(fmt.Sprintf("%d bytes, kind %d", size, what))
	dir := caseDir()
	f := Files{"d/a.json": on("N-a", "npm", "p").json(), "d/m.json": on("N-m", "npm", "p").json(), "d/z.json": on("N-z", "npm", "p").json()}
	m := f["d/m.json"]
	pad := max(size-len(m), 0)
	switch what {
	case 0: // a long text, which compresses badly
		f["d/m.json"] = `{"details":"` + noise(pad) + `",` + m[1:]
	case 1: // one that compresses well
		f["d/m.json"] = m[:len(m)-1] + `,"details":"` + strings.Repeat("x", pad) + `"}`
	case 2: // space
		f["d/m.json"] = m[:len(m)-1] + strings.Repeat(" ", pad) + "}"
	case 3: // another file
		f["d/m.txt"] = noise(size)
	}
	f.write(path.Join(dir, "db"))
	c10Load(c, f, mkZip(f), "", "db", nil)
	c.Nontrivial()
}

var c10Count = regexp.MustCompile(`(?m)^  (DIR|ZIP)[^(\n]*\((\d+) vulnerabilit`)

// c10CLI: the same through a config and the command line.
func c10CLI(c *C) {
	sub := c.Subset(len(c10Paths), c.Q(2, 3))
	if len(sub) == 0 {
		c.Skip()
	}
	f := Files{}
	for _, i := range sub {
		f[c10Paths[i]] = c10Adv(i)
	}
	bad := c.N(2)
	if bad == 1 {
		f["a/0.json"] = "{"
		f["a/zz.json"] = "[]"
		f["ww.json"] = func() string { a := on("W-1", "npm", "p"); a.withdrawn = true; return a.json() }()
		f["qq.json"] = on("Q-1", "npm", "q").json()
	}
	wd := Pick(c, "", "a", "./a/", "a/b")
	if !c10Exists(f, wd) {
		c.Skip()
	}
	c.Leaf(fmt.Sprintf("%s bad %d working directory %q", strings.Join(sortedKeys(f), " "), bad, wd))
	d := caseDir()
	f.write(path.Join(d, "db"))
	lock := lockText("package-lock.json", []mPkg{pd("npm", "npm", "p", "1.0.0")})
	Files{
		"dd/package-lock.json": lock,
		"dd/.osv-detector.yml": "extra-databases:\n  - name: DIR\n    url: file:/db\n    working-directory: '" + wd + "'\n",
		"zz/package-lock.json": lock,
		"zz/.osv-detector.yml": "extra-databases:\n  - name: ZIP\n    url: " + zipA + "\n    working-directory: '" + wd + "'\n",
	}.write(d)
	want, n := c10Expect(f, wd)
	h := static(map[string]string{zipA: mkZip(f)})
	net.reset(h)
	r := cli("--json", "--use-dbs=false", "dd", "zz")
	rep, err := r.report()
	if err != nil || len(rep.Results) != 2 {
		c.Fail("unexpected report: %v\n%s", err, r)
	}
	for _, res := range rep.Results {
		got := vids(res.Packages[0].Vulnerabilities)
		sort.Strings(got)
		if !slices.Equal(got, want) && len(got)+len(want) > 0 {
			c.Fail("%s: found %v, expected %v\n%s", res.FilePath, got, want, r)
		}
	}
	net.reset(h)
	r = cli("--use-dbs=false", "dd", "zz")
	m := c10Count.FindAllStringSubmatch(r.Out, -1)
	if len(m) != 2 {
		c.Fail("the databases are not described in the output\n%s", r)
	}
	for _, x := range m {
		if k, _ := strconv.Atoi(x[2]); k != n {
			c.Fail("%s database: %d advisories reported, %d loaded\n%s", x[1], k, n, r)
		}
	}
	_ = os.Chdir("/")
	c.Nontrivial()
}

// c10Roots: the ways the directory itself can be reached, links included.
func c10Roots(c *C) {
	f := Files{}
	for _, i := range c.Subset(5, 3) {
		f[c10Paths[i]] = c10Adv(i)
	}
	f["a/b/z.json"] = c10Adv(20)
	k := c.N(14)
	wd := ""
	if k < 9 {
		wd = Pick(c, "", "a", "a/b", "./a/")
	}
	abs := c.Bool()
	d := caseDir()
	link := func(to, at string) {
		if abs {
			to = path.Join(d, path.Dir(at), to)
		}
		must(os.MkdirAll(path.Join(d, path.Dir(at)), 0o755))
		must(os.Symlink(to, path.Join(d, at)))
	}
	root, bad := "", false
	want := wd
	setup := func() {
		f.write(path.Join(d, "real/db"))
		must(os.WriteFile(path.Join(d, "plain"), []byte("x"), 0o644))
		must(os.WriteFile(path.Join(d, "all.zip"), []byte(mkZip(f)), 0o644))
		switch k {
		case 0:
			root = "real/db"
		case 1:
			root = "real/db/"
		case 2:
			link("real/db", "l")
			root = "l"
		case 3:
			link("real/db", "l")
			root = "l/"
		case 4:
			link("real/db", "l")
			link("../l", "x/l2")
			root = "x/l2"
		case 5:
			link("real", "mid")
			root = "mid/db"
		case 6:
			link("real/db", "l.json")
			root = "l.json"
		case 7:
			root = "real/../real/./db"
		case 8:
			link("db/a", "real/sub")
			root, wd = "real", "sub/"+wd
			want = "a/" + want
			if !c10Exists(f, want) || want != "a/" && want != "a/./a/" {
				want = "a"
				wd = "sub"
			}
		case 9:
			link("nowhere", "dangling")
			root, bad = "dangling", true
		case 10:
			root, bad = "plain", true
		case 11:
			link("plain", "toplain")
			root, bad = "toplain", true
		case 12:
			root, bad = "all.zip", true
		case 13:
			link("loop", "loop")
			root, bad = "loop", true
		}
	}
	c.Leaf(fmt.Sprintf("root %d working directory %q absolute %v: %s", k, wd, abs, strings.Join(sortedKeys(f), " ")))
	d = caseDir()
	setup()
	dd, err := database.NewDirDB(database.Config{Name: "d", Type: "dir", URL: "file:/" + root, WorkingDirectory: wd}, false, nil)
	if bad {
		if err == nil {
			c.Fail("%s is no directory, but loading it gives no error (%d advisories)", root, dd.VulnerabilitiesCount)
		}
	} else {
		n := 0
		if err == nil {
			n = dd.VulnerabilitiesCount
		}
		c10Check(c, "directory "+root, dd, err, n, f, want)
	}
	// and through the command line
	must(os.WriteFile(path.Join(d, "c.yml"), []byte(confText(mConf{dbs: []mDBRef{{url: "file:/" + root, wd: wd}}})), 0o644))
	must(os.WriteFile(path.Join(d, "package-lock.json"), []byte(lockText("package-lock.json", []mPkg{pd("npm", "npm", "p", "1.0.0")})), 0o644))
	ids, _ := c10Expect(f, want)
	code := 0
	if bad {
		code = 127
	} else if len(ids) > 0 {
		code = 1
	}
	if r := cli("--use-dbs=false", "--config", "c.yml", "package-lock.json"); r.Code != code {
		c.Fail("exit code %d, expected %d\n%s", r.Code, code, r)
	}
	c.Nontrivial()
}

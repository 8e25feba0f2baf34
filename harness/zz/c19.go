package zzverif

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"slices"
	"sort"
	"strconv"
	"strings"
	"syscall"

	"github.com/g-rath/osv-detector/pkg/lockfile"
)

func init() {
	register("C19",
		Family{Name: "formats", Run: c19Formats}, Family{Name: "directory-contents", Run: c19Dirs}, Family{Name: "argument-lists", Run: c19Args}, Family{Name: "colons", Run: c19Colons}, Family{Name: "scan", Run: c19Scan}, Family{Name: "refusals", Run: c19Refuse}, Family{Name: "many-files", Run: c19Many}, Family{Name: "open-files", Run: c19Open})
}

// ---- the model: which files are read, and by which parser --------------------------

type c19File struct {
	path string
	as   string
}

// c19Tree is a directory tree: file contents by path; directories end in "/"; a
// value starting with "\x00link:" is a symbolic link.
type c19Tree map[string]string

func (t c19Tree) isDir(p string) bool {
	p = filepath.Clean(p)
	if p == "." {
		return true
	}
	for k := range t {
		if strings.HasPrefix(k, p+"/") {
			return true
		}
	}
	return false
}

func (t c19Tree) content(p string) (string, bool) {
	s, ok := t[filepath.Clean(p)]
	if ok && strings.HasPrefix(s, "\x00link:") {
		return t.content(filepath.Join(filepath.Dir(p), strings.TrimPrefix(s, "\x00link:")))
	}
	return s, ok
}

// entries are the direct entries that are not directories, by name.
func (t c19Tree) entries(p string) []string {
	p = filepath.Clean(p)
	var out []string
	for k := range t {
		if strings.HasSuffix(k, "/") {
			continue
		}
		if filepath.Dir(k) == p {
			out = append(out, filepath.Base(k))
		}
	}
	sort.Strings(out)
	return out
}

// c19Model gives the files in order; missing counts the arguments that cannot be read.
func c19Model(t c19Tree, root string, args []string, parseAs string) (files []c19File, missing int) {
	for _, a := range args {
		as, p := "", a
		if i := strings.IndexByte(a, ':'); i >= 0 {
			as, p = a[:i], a[i+1:]
		}
		if as == "" {
			as = parseAs
		}
		rel := strings.TrimPrefix(p, root+"/")
		if p == root {
			rel = "."
		}
		if t.isDir(rel) && p != "" {
			for _, e := range t.entries(rel) {
				if as == "" {
					if formatOf(e) == nil {
						continue
					}
				} else if as != "csv-file" && formatOf(as) == nil {
					continue
				}
				files = append(files, c19File{filepath.Join(p, e), as})
			}
			continue
		}
		if _, ok := t.content(rel); ok && !strings.HasSuffix(p, "/") {
			files = append(files, c19File{filepath.Clean(p), as})
			continue
		}
		missing++
	}
	return files, missing
}

func (t c19Tree) write(root string) {
	for _, k := range sortedKeys(t) {
		p := filepath.Join(root, k)
		if strings.HasSuffix(k, "/") {
			must(os.MkdirAll(p, 0o755))
			continue
		}
		must(os.MkdirAll(filepath.Dir(p), 0o755))
		if l, ok := strings.CutPrefix(t[k], "\x00link:"); ok {
			must(os.Symlink(l, p))
			continue
		}
		must(os.WriteFile(p, []byte(t[k]), 0o644))
	}
}

// c19Run runs --list-packages and compares with the model.
func c19Run(c *C, t c19Tree, args []string, parseAs string) {
	var key strings.Builder
	for _, k := range sortedKeys(t) {
		fmt.Fprintf(&key, "%s %x\n", k, fnv32(t[k]))
	}
	c.Leaf(fmt.Sprintf("args %q parse-as %q\n%s", args, parseAs, key.String()))
	root := caseDir()
	t.write(root)
	args = slices.Clone(args)
	for i := range args {
		args[i] = strings.ReplaceAll(args[i], "$ROOT", root)
	}
	net.reset(nil)
	fl := []string{"--list-packages", "--json"}
	if parseAs != "" {
		fl = append(fl, "--parse-as", parseAs)
	}
	r := cli(append(fl, args...)...)
	files, missing := c19Model(t, root, args, parseAs)

	type res struct {
		path, as string
		pkgs     []string
	}
	var want []res
	bad := 0
	for _, f := range files {
		name := f.as
		if name == "" {
			name = filepath.Base(f.path)
		}
		var ps []mPkg
		var err error
		if name == "csv-file" {
			var l lockfile.Lockfile
			l, err = lockfile.FromCSVFile(f.path, name)
			ps = l.Packages
		} else if fm := formatOf(name); fm != nil {
			ps, err = fm.parse(f.path)
		} else {
			err = lockfile.ErrParserNotFound
		}
		if err != nil {
			bad++
			continue
		}
		want = append(want, res{f.path, name, pkgLines(ps, false)})
	}
	code := 0
	if bad > 0 || missing > 0 {
		code = 127
	}
	if len(files) == 0 {
		code = 128
		if missing > 0 || len(args) == 0 {
			code = 127
		}
	}
	rep, err := r.report()
	if err != nil {
		c.Fail("%v\n%s", err, r)
	}
	var got []res
	for _, x := range rep.Results {
		got = append(got, res{x.FilePath, x.ParsedAs, pkgLines(x.details(), false)})
	}
	if fmt.Sprint(got) != fmt.Sprint(want) {
		c.Fail("read %v\nexpected %v\n%s", got, want, r)
	}
	if n := strings.Count(r.Err, "Error, "); n != bad {
		c.Fail("%d files should each give an error, %d errors\n%s", bad, n, r)
	}
	if n := strings.Count(r.Err, "Error reading "); n != missing {
		c.Fail("%d arguments cannot be read, %d errors\n%s", missing, n, r)
	}
	if r.Code != code {
		c.Fail("exit code %d, expected %d\n%s", r.Code, code, r)
	}
	if len(r.Reqs) > 0 {
		c.Fail("listing packages made requests\n%s", r)
	}
	if len(want) > 0 {
		c.Nontrivial()
	}
	c.Count(fmt.Sprintf("%d files read, %d errors", min(len(want), 4), min(bad+missing, 3)))
}

func fnv32(s string) uint32 {
	h := uint32(2166136261)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint32(s[i])) * 16777619
	}
	return h
}

// poly can be read by several of the JSON parsers, with different packages.
func poly(k int) string {
	return fmt.Sprintf(`{"version":1,"lockfileVersion":1,"dependencies":{"p":{"version":"1.0.%d","resolved":"2.0.%d"}},"default":{"r":{"version":"==3.0.%d"}},"Packages":{"s":{"Package":"s","Version":"4.0.%d"}}}`, k, k, k, k)
}

// ---- every format read by every parser, by name, prefix and flag ---------------------

func c19Formats(c *C) {
	i := c.N(len(formats) + 2)
	c.Split()
	var doc, name string
	switch {
	case i < len(formats):
		doc, name = formats[i].doc(1), formats[i].name
	case i == len(formats):
		doc, _ = csvSample(1)
		name = "x.csv"
	default:
		doc, name = poly(1), "poly.json"
	}
	all := append(append([]string{}, formatNames()...), "csv-file", "", "package-lock", "PACKAGE-LOCK.JSON", "npm")
	as := all[c.N(len(all))]
	base := name
	if c.Bool() {
		base = "renamed"
	}
	how := c.N(4)
	t := c19Tree{"d/" + base: doc}
	p := "d/" + base
	if how >= 2 {
		p = "d"
	}
	switch how % 2 {
	case 0: // prefix
		if as == "" {
			c19Run(c, t, []string{p}, "")
			return
		}
		c19Run(c, t, []string{as + ":" + p}, Pick(c, "", "Gemfile.lock"))
	case 1: // flag
		if as != "" && as != "csv-file" && formatOf(as) == nil {
			c.Skip() // refused: see the refusals family
		}
		c19Run(c, t, []string{p}, as)
	}
}

func formatNames() []string {
	var out []string
	for _, f := range formats {
		out = append(out, f.name)
	}
	return out
}

// ---- directory contents ---------------------------------------------------------------

func c19Dirs(c *C) {
	gl := formatOf("Gemfile.lock")
	rq := formatOf("requirements.txt")
	menu := []struct{ path, content string }{
		{"Gemfile.lock", gl.doc(1)},
		{"package-lock.json", poly(2)},
		{"requirements.txt", rq.doc(3)},
		{"package.json", poly(4)},
		{"gemfile.lock", gl.doc(5)},
		{"Gemfile.lock.bak", gl.doc(6)},
		{".Gemfile.lock", gl.doc(7)},
		{"my-Gemfile.lock", gl.doc(8)},
		{"yarn.lock/", ""},
		{"sub/Gemfile.lock", gl.doc(9)},
		{"Cargo.lock/Gemfile.lock", gl.doc(10)},
		{"composer.lock", "not json"},
		{"uv.lock", "\x00link:real/uv"},
		{"real/uv", formatOf("uv.lock").doc(11)},
		{"README.md", "# hello\n"},
	}
	t := c19Tree{"keep/x": ""}
	for _, i := range c.Subset(len(menu), c.Q(4, 6)) {
		t["d/"+menu[i].path] = menu[i].content
	}
	if strings.HasPrefix(t["d/uv.lock"], "\x00link:") && t["d/real/uv"] == "" {
		c.Skip()
	}
	if !t.isDir("d") {
		t["d/"] = ""
	}
	c.Split()
	as := Pick(c, "", "Gemfile.lock", "csv-file")
	arg := Pick(c, "d", "d/", "./d", "$ROOT/d", "d/../d")
	if as != "" && c.Bool() {
		c19Run(c, t, []string{as + ":" + arg}, "")
		return
	}
	c19Run(c, t, []string{arg}, as)
}

// ---- argument lists ----------------------------------------------------------------

func c19Args(c *C) {
	t := c19Tree{
		"one/Gemfile.lock": formatOf("Gemfile.lock").doc(1), "one/poetry.lock": formatOf("poetry.lock").doc(2), "one/notes.txt": "x==1\n",
		"two/requirements.txt": formatOf("requirements.txt").doc(3), "two/Cargo.lock": formatOf("Cargo.lock").doc(4),
		"Gemfile.lock": formatOf("Gemfile.lock").doc(5), "x.csv": "npm,,q,1.0\n", "odd:name/Gemfile.lock": formatOf("Gemfile.lock").doc(6), "broken/composer.lock": "{", "empty/": "", "other.txt": "o==2.0\n",
	}
	menu := []string{"one", "two/", "Gemfile.lock", "./one/poetry.lock", "$ROOT/two/requirements.txt", "requirements.txt:one/notes.txt", "requirements.txt:one", ":odd:name/Gemfile.lock", ":odd:name", "csv-file:x.csv", "missing", "missing/Gemfile.lock", "other.txt", "nope:Gemfile.lock", "nope:one", "broken", "empty", "requirements.txt:other.txt", ":Gemfile.lock", "Gemfile.lock/"}
	n := 1 + c.N(c.Q(2, 3))
	var args []string
	for i := 0; i < n; i++ {
		args = append(args, menu[c.N(len(menu))])
		if i == 0 {
			c.Split()
		}
	}
	as := Pick(c, "", "requirements.txt", "Gemfile.lock", "csv-file")
	if n == 3 && as != "" && as != "requirements.txt" {
		c.Skip()
	}
	c19Run(c, t, args, as)
}

// ---- colons in paths ------------------------------------------------------------------

func c19Colons(c *C) {
	gl := formatOf("Gemfile.lock")
	d := Pick(c, "a:b", ":lead", "Gemfile.lock:x", "c::d", "trail:", "go.mod")
	f := Pick(c, "Gemfile.lock", "x:Gemfile.lock", "requirements.txt", "weird:name.txt")
	content := Pick(c, gl.doc(1), formatOf("requirements.txt").doc(2))
	t := c19Tree{d + "/" + f: content, "Gemfile.lock": gl.doc(9), "b/Gemfile.lock": gl.doc(8), "x/Gemfile.lock": gl.doc(7)}
	pre := Pick(c, ":", "Gemfile.lock:", "requirements.txt:", "csv-file:", "bad:")
	arg := pre + Pick(c, d+"/"+f, d, "./"+d+"/"+f, "$ROOT/"+d)
	c19Run(c, t, []string{arg}, Pick(c, "", "Gemfile.lock", "requirements.txt"))
}

// ---- the same selection drives a scan -------------------------------------------------

func c19Scan(c *C) {
	// a scan reports the same files as a listing, in the same order
	t := c19Tree{"one/Gemfile.lock": formatOf("Gemfile.lock").doc(1), "one/notes.txt": "x==1\n", "two/requirements.txt": formatOf("requirements.txt").doc(3), "two/go.mod": formatOf("go.mod").doc(2), "broken/composer.lock": "{"}
	menu := []string{"one", "two", "requirements.txt:one/notes.txt", "one/Gemfile.lock", "broken", "missing", "two/go.mod", "requirements.txt:one"}
	n := 1 + c.N(3)
	var args []string
	for i := 0; i < n; i++ {
		args = append(args, menu[c.N(len(menu))])
	}
	c.Leaf(fmt.Sprintf("scan %q", args))
	root := caseDir()
	t.write(root)
	empty := mkZip(Files{})
	net.reset(func(r *Req) Resp { return Resp{Body: empty, Header: map[string]string{"ETag": "x"}} })
	l := cli(append([]string{"--list-packages", "--json"}, args...)...)
	s := cli(append([]string{"--json"}, args...)...)
	lr, err1 := l.report()
	sr, err2 := s.report()
	if err1 != nil || err2 != nil {
		c.Fail("%v %v\n%s\n%s", err1, err2, l, s)
	}
	show := func(r jReport) string {
		var b strings.Builder
		for _, x := range r.Results {
			fmt.Fprintln(&b, x.FilePath, x.ParsedAs, pkgLines(x.details(), false))
		}
		return b.String()
	}
	if show(lr) != show(sr) {
		c.Fail("a scan reports other files than a listing\n%s\n---\n%s\n%s\n%s", show(lr), show(sr), l, s)
	}
	if l.Code != s.Code {
		c.Fail("exit codes differ: %d, %d\n%s\n%s", l.Code, s.Code, l, s)
	}
	c.Nontrivial()
}

func c19Refuse(c *C) {
	as := Pick(c, "nope", "npm", "package-lock", "PACKAGE-LOCK.JSON", "Gemfile.lock ", " ", "csv", "csv-rows", "d/Gemfile.lock", "gemfile.lock", "-")
	arg := Pick(c, "d", "d/Gemfile.lock", "missing", "Gemfile.lock:d")
	json := c.Bool()
	c.Leaf(fmt.Sprintf("%q %q %v", as, arg, json))
	c19Tree{"d/Gemfile.lock": formatOf("Gemfile.lock").doc(1)}.write(caseDir())
	net.reset(nil)
	fl := []string{"--parse-as", as}
	if json {
		fl = append(fl, "--json")
	}
	r := cli(append(fl, arg)...)
	if r.Code != 127 {
		c.Fail("--parse-as %q must be refused with 127\n%s", as, r)
	}
	for _, f := range append(formatNames(), "csv-file", "csv-row") {
		if !strings.Contains(r.Err, "  "+f+"\n") {
			c.Fail("the supported value %s is not listed\n%s", f, r)
		}
	}
	if len(r.Reqs) > 0 || strings.Contains(r.Out, "Gemfile.lock") {
		c.Fail("the run went on\n%s", r)
	}
	c.Nontrivial()
}

func c19Many(c *C) {
	n := Pick(c, 3, 40, 400)
	t := c19Tree{}
	mode := c.N(3)
	if mode == 2 { // the lockfiles are lost in a directory of many other files
		for i := 0; i < 6*n; i++ {
			t[fmt.Sprintf("d/%s%04d.js", []string{"", "zz"}[i%2], i)] = "x"
		}
		for i, f := range formats {
			t["d/"+f.name] = f.doc(i)
		}
		c19Run(c, t, []string{"d"}, "")
		return
	}
	for i := 0; i < n; i++ {
		f := formats[i%len(formats)]
		if mode == 0 {
			t[fmt.Sprintf("d%03d/%s", i, f.name)] = f.doc(i)
		} else {
			t[fmt.Sprintf("d/f%03d.txt", (i*7)%n)] = formatOf("requirements.txt").doc(i)
		}
	}
	if mode == 1 {
		c19Run(c, t, []string{"requirements.txt:d"}, "")
		return
	}
	var args []string
	for i := n - 1; i >= 0; i-- {
		args = append(args, fmt.Sprintf("d%03d", i))
	}
	c19Run(c, t, args, "")
}

// c19Open: many inputs of every kind while the process may have only a few more files open: what is read is closed
// again, without waiting for the garbage collector.
func c19Open(c *C) {
	n := Pick(c, 20, 60, 150)
	kind := c.N(len(formats) + 6)
	c.Leaf(fmt.Sprint(n, kind))
	d := caseDir()
	f := Files{}
	args := []string{"--json", "--use-dbs=false"}
	want := n
	switch k := kind - len(formats); {
	case k < 0:
		for i := 0; i < n; i++ {
			p := fmt.Sprintf("d%03d/%s", i, formats[kind].name)
			f[p] = formats[kind].doc(i)
			args = append(args, p)
		}
	case k == 0: // directories
		for i := 0; i < n; i++ {
			f[fmt.Sprintf("d%03d/go.mod", i)] = formatOf("go.mod").doc(i)
			args = append(args, fmt.Sprintf("d%03d", i))
		}
	case k == 1: // one directory, forced
		for i := 0; i < n; i++ {
			f[fmt.Sprintf("d/%03d", i)] = formatOf("yarn.lock").doc(i)
		}
		args = append(args, "yarn.lock:d")
	case k == 2: // CSV files
		for i := 0; i < n; i++ {
			p := fmt.Sprintf("d%03d/x", i)
			f[p] = fmt.Sprintf("npm,,p%d,1.0.0\n", i)
			args = append(args, "csv-file:"+p)
		}
	case k == 3: // configs, rewritten
		args = append(args, "--update-config-ignores")
		for i := 0; i < n; i++ {
			p := fmt.Sprintf("d%03d/", i)
			f[p+"go.mod"] = formatOf("go.mod").doc(i)
			f[p+".osv-detector.yml"] = "ignore: [A]\n"
			args = append(args, p+"go.mod")
		}
	case k == 4: // files of a database
		for i := 0; i < n; i++ {
			f[fmt.Sprintf("db/s%d/%d.json", i%7, i)] = mAdv{id: fmt.Sprintf("A-%d", i), entries: []mEntry{{eco: "npm", name: fmt.Sprintf("p%d", i), versions: []string{"1.0.0"}}}}.json()
		}
		f["x.csv"] = "npm,,p0,1.0.0\n"
		f["c.yml"] = "extra-databases:\n  - url: file:/db\n"
		args = append(args, "--config", "c.yml", "csv-file:x.csv")
		want = 1
	case k == 5: // included files
		top := ""
		for i := 0; i < n; i++ {
			f[fmt.Sprintf("inc/%d.txt", i)] = fmt.Sprintf("p%d==1.0.0\n", i)
			top += fmt.Sprintf("-r inc/%d.txt\n", i)
		}
		f["requirements.txt"] = top
		args = append(args, "requirements.txt")
		want = 1
	}
	f.write(d)
	net.reset(nil)
	r := func() Run {
		defer fewFiles(16)()
		return cli(args...)
	}()
	rep, err := r.report()
	code := 0
	if kind-len(formats) == 4 {
		code = 1
	}
	if err != nil || len(rep.Results) != want || r.Code != code || strings.Contains(r.Err+r.SErr, "too many open") {
		c.Fail("%d inputs give %d results, exit code %d, with 16 more files allowed to be open: %v\n%s%s", n, len(rep.Results), r.Code, err, firstLines(r.Err), firstLines(r.SErr))
	}
	c.Nontrivial()
}

func firstLines(s string) string {
	l := strings.SplitAfterN(s, "\n", 4)
	return strings.Join(l[:min(3, len(l))], "")
}

// fewFiles allows only n more files to be open, and keeps finalizers from closing any.
func fewFiles(n int) func() {
	var old syscall.Rlimit
	must(syscall.Getrlimit(syscall.RLIMIT_NOFILE, &old))
	es, err := os.ReadDir("/proc/self/fd")
	must(err)
	used := map[string]bool{}
	for _, e := range es {
		used[e.Name()] = true
	}
	lim := 0
	for free := 0; free < n; lim++ {
		if !used[strconv.Itoa(lim)] {
			free++
		}
	}
	gc := debug.SetGCPercent(-1)
	must(syscall.Setrlimit(syscall.RLIMIT_NOFILE, &syscall.Rlimit{Cur: uint64(lim), Max: old.Max}))
	return func() {
		must(syscall.Setrlimit(syscall.RLIMIT_NOFILE, &old))
		debug.SetGCPercent(gc)
		runtime.GC()
	}
}

package zzverif

import (
	"fmt"
	"os"
	"path"
	"path/filepath"
	"strings"

	"github.com/g-rath/osv-detector/pkg/lockfile"
)

func init() {
	register("C13",
		Family{Name: "line", Run: c13Line}, Family{Name: "lines", Run: c13Lines}, Family{Name: "continuations", Run: c13Cont},
		Family{Name: "include-graphs", Run: c13Graph}, Family{Name: "include-lines", Run: c13Include}, Family{Name: "scale", Run: c13Scale})
}

type reqName struct{ written, norm string }

var reqNames = []reqName{
	{"a", "a"}, {"Flask", "flask"}, {"zope.interface", "zope-interface"}, {"A_b--C..d", "a-b-c-d"}, {"x1-2", "x1-2"},
	{"a[sec]", "a"}, {"Req_s[socks,sec]", "req-s"}, {"b [sec]", "b"}, {"r", "r"}, {"python_version", "python-version"}, {"http", "http"},
}

type reqSpec struct{ written, ver string }

var reqSpecs = []reqSpec{
	{"", "0.0.0"},
	{"==1.0", "1.0"}, {" == 1.0", "1.0"}, {"==  1.0", "1.0"}, {" ==1.0.post1", "1.0.post1"}, {"==1!2.0+local.1", "1!2.0+local.1"},
	{">=1.2.3", "1.2.3"}, {" >= 1.2.3", "1.2.3"}, {"~=2.1", "2.1"}, {" ~= 2.1rc1", "2.1rc1"},
	{"!=1.5", "0.0.0"}, {" != 1.5", "0.0.0"}, {"<2.0", "0.0.0"}, {" <= 2.0", "0.0.0"},
	{">=1.0,<2.0", "1.0"}, {" >= 1.0, < 2.0", "1.0"}, {"<2.0,>=1.0", "1.0"}, {">=1.0,!=1.5", "1.0"}, {"!=1.5,>=1.0", "1.0"}, {"~=1.1 , !=1.1.3", "1.1"}, {"!=1.5,!=1.6", "0.0.0"},
}

var reqTails = []string{
	"", " ", "\t", " # a comment", "  # pin ==9.9", "\t#x", " ; python_version >= \"3.6\"", "; sys_platform == 'win32' and python_version < '3'", " ; extra == 'x' # why",
	" --hash=sha256:0011223344", " --hash=sha256:00 --hash=sha256:11", " --global-option=\"--no-user-cfg\"", " ; python_version>='3' --hash=sha256:00",
}

var reqOthers = []string{
	"", "   ", "\t", "# comment", "   # comment with ==1.0", "#", "-e ./x", "-i https://pypi.org/simple", "--index-url https://x/==1", "--no-binary :all:", "-c constraints.txt", "--pre",
	"https://example.org/x==1.0.tar.gz", "http://example.org/x.whl", "./downloads/x-1.0.whl", "../x", "/abs/x-1.0.whl", ".", "-f https://x", "--extra-index-url https://y",
}

// c13Line: every requirement line alone, with another line around it.
func c13Line(c *C) {
	pos := c.N(2)
	n := reqNames[c.N(len(reqNames))]
	c.Split()
	s := reqSpecs[c.N(len(reqSpecs))]
	t := reqTails[c.N(len(reqTails))]
	lead := Pick(c, "", "  ", "\t")
	ls := []string{lead + n.written + s.written + t, "zz==0.1"}
	if pos == 1 {
		ls[0], ls[1] = ls[1], ls[0]
	}
	nl := Pick(c, "\n", "\r\n")
	doc := strings.Join(ls, nl)
	if c.Bool() {
		doc += nl
	}
	lfCheck(c, "requirements.txt", doc, append(py(n.norm, s.ver, ""), py("zz", "0.1", "")...), once)
}

// c13Lines: sequences of lines of every kind.
func c13Lines(c *C) {
	type ln struct {
		t string
		p []mPkg
	}
	var menu []ln
	for _, o := range reqOthers {
		menu = append(menu, ln{o, nil})
	}
	for i, n := range reqNames {
		s := reqSpecs[(i*5)%len(reqSpecs)]
		menu = append(menu, ln{n.written + s.written + reqTails[i%len(reqTails)], py(n.norm, s.ver, "")})
	}
	// the same package again, differently written or at another version
	menu = append(menu, ln{"A==2.0", py("a", "2.0", "")}, ln{"a == 2.0 # again", py("a", "2.0", "")}, ln{"a>=1.0", py("a", "1.0", "")})
	var ls []string
	var want []mPkg
	for k := c.Q(3, 4); k > 0; k-- {
		m := menu[c.N(len(menu))]
		if len(ls) == 0 {
			c.Split()
		}
		ls = append(ls, m.t)
		want = append(want, m.p...)
	}
	lfCheck(c, "requirements.txt", strings.Join(ls, "\n")+"\n", want, once)
}

// c13Cont: one logical line split over physical lines in every way.
func c13Cont(c *C) {
	type tok struct {
		logical string
		want    []mPkg
	}
	toks := []tok{
		{"aa==1.0 --hash=sha256:00", py("aa", "1.0", "")}, {"bb >= 2.1 # no", py("bb", "2.1", "")}, {"# comment cc==1", nil}, {"dd", py("dd", "0.0.0", "")}, {"-e ./zz==1", nil}, {"ee[x]~=1.2 ; python_version>='3'", py("ee", "1.2", "")},
	}
	t := toks[c.N(len(toks))]
	s := t.logical
	// up to two break points
	i := c.N(len(s) + 1)
	j := i + c.N(len(s)-i+1)
	nl := Pick(c, "\n", "\r\n")
	doc := s[:i] + "\\" + nl + s[i:j]
	if c.Bool() {
		doc += "\\" + nl
	}
	doc += s[j:]
	want := append([]mPkg{}, t.want...)
	switch c.N(3) {
	case 0:
		doc += nl + "zz==0.1" + nl
		want = append(want, py("zz", "0.1", "")...)
	case 1:
		doc += nl
	case 2:
		doc = "zz==0.1" + nl + doc
		want = append(want, py("zz", "0.1", "")...)
	}
	lfCheck(c, "requirements.txt", doc, want, once)
}

// reqTree writes a tree of requirement files and parses the first.
func reqTree(c *C, files map[string]string, root string, want []mPkg, wantErr bool) {
	var key strings.Builder
	for _, k := range sortedKeys(files) {
		fmt.Fprintf(&key, "=== %s\n%s\n", k, files[k])
	}
	c.Leaf("root " + root + "\n" + key.String())
	d := filepath.Join(theEngine.scratch, "req")
	must(os.RemoveAll(d))
	for k, v := range files {
		p := filepath.Join(d, k)
		must(os.MkdirAll(filepath.Dir(p), 0o755))
		must(os.WriteFile(p, []byte(v), 0o644))
	}
	l, err := lockfile.Parse(filepath.Join(d, root), "requirements.txt")
	if wantErr {
		c.Nontrivial()
		c.Count("missing include")
		if err == nil {
			c.Fail("a missing include was not reported as an error: %v\n%s", pkgLines(l.Packages, true), key.String())
		}
		return
	}
	lfCompare(c, "requirements.txt", key.String(), l, err, want, once)
	if len(files) > 1 {
		c.Nontrivial()
	}
}

// c13Graph: every include graph over a few files in nested directories.
func c13Graph(c *C) {
	n := c.Q(3, 4)
	missing := c.Bool()
	layouts := [][]string{
		{"requirements.txt", "b.txt", "c.txt", "d.txt"},
		{"requirements.txt", "sub/b.txt", "sub/deep/requirements.txt", "other/d.txt"},
		{"x/requirements.txt", "requirements.txt", "x/y/requirements.txt", "z/requirements.txt"},
	}
	li := c.N(len(layouts))
	names := layouts[li][:n]
	targets := n
	if missing {
		targets = n + 1 // one more file, which does not exist
	}
	// adjacency: subset of targets per file, in listed order; package line before, between or after
	adj := make([][]int, n)
	for i := range adj {
		if missing {
			adj[i] = c.Subset(targets, 2)
		} else {
			adj[i] = c.Subset(targets, targets)
		}
		if i == 0 {
			c.Split()
		}
	}
	style := c.N(3)
	rel := func(from, to int) string {
		name := "missing.txt"
		if to < n {
			name = names[to]
		}
		r, err := filepath.Rel(path.Dir(names[from]), name)
		must(err)
		if style == 1 {
			r = "./" + r
		}
		return r
	}
	files := map[string]string{}
	for i := range adj {
		var ls []string
		ls = append(ls, fmt.Sprintf("p%d==1.%d", i, i))
		for _, t := range adj[i] {
			ls = append(ls, "-r "+rel(i, t))
		}
		if style == 2 {
			// packages after the includes, one shared between files
			ls = append(ls[1:], ls[0], "shared==3.0", fmt.Sprintf("multi==%d", i))
		}
		files[names[i]] = strings.Join(ls, "\n") + "\n"
	}
	seen := map[int]bool{}
	todo := []int{0}
	bad := false
	var want []mPkg
	for len(todo) > 0 {
		x := todo[0]
		todo = todo[1:]
		if x >= n {
			bad = true
			continue
		}
		if seen[x] {
			continue
		}
		seen[x] = true
		want = append(want, py(fmt.Sprintf("p%d", x), fmt.Sprintf("1.%d", x), "")...)
		if style == 2 {
			want = append(want, py("shared", "3.0", "")...)
			want = append(want, py("multi", fmt.Sprint(x), "")...)
		}
		todo = append(todo, adj[x]...)
	}
	reqTree(c, files, names[0], want, bad)
}

// c13Include: how an include line is written, and where it stands.
func c13Include(c *C) {
	target := Pick(c, "other.txt", "sub/other.txt", "./other.txt", "./sub/../other.txt", "../up.txt", "sub/re quirements.txt", "other-requirements==1.txt", "requirements", ".hidden", "a-r b.txt")
	tail := Pick(c, "", " ", " # comment", "\t# -r nothing")
	lead := Pick(c, "", "  ", "\t")
	line := lead + "-r " + target + tail
	before := c.SeqN(4, 1)
	after := c.SeqN(4, 1)
	opts := []struct {
		t string
		p []mPkg
	}{{"", nil}, {"x==1.0", py("x", "1.0", "")}, {"# -r nowhere.txt", nil}, {"y==2 \\\n --hash=sha256:00", py("y", "2", "")}}
	var ls []string
	var want []mPkg
	for _, i := range before {
		ls = append(ls, opts[i].t)
		want = append(want, opts[i].p...)
	}
	ls = append(ls, line)
	for _, i := range after {
		ls = append(ls, opts[i].t)
		want = append(want, opts[i].p...)
	}
	want = append(want, py("inc", "4.2", "")...)
	inc := Pick(c, "inc==4.2\n", "Inc == 4.2", "# only\r\ninc==4.2\r\n")
	files := map[string]string{"dir/requirements.txt": strings.Join(ls, "\n"), path.Join("dir", target): inc}
	if !strings.HasPrefix(target, "sub/") {
		files["dir/sub/keep.txt"] = "never==1.0\n"
	}
	reqTree(c, files, "dir/requirements.txt", want, false)
}

func c13Scale(c *C) {
	n := Pick(c, 100, 1000, 5000)
	switch c.N(5) {
	case 3: // every file includes every file
		n = map[int]int{100: 8, 1000: 30, 5000: c.Q(60, 200)}[n]
		files := map[string]string{}
		var want []mPkg
		var b strings.Builder
		for i := 0; i < n; i++ {
			fmt.Fprintf(&b, "-r r%d.txt\n", i)
		}
		for i := 0; i < n; i++ {
			files[fmt.Sprintf("r%d.txt", i)] = fmt.Sprintf("%sp%d==1.0\n", b.String(), i)
			want = append(want, py(fmt.Sprintf("p%d", i), "1.0", "")...)
		}
		reqTree(c, files, "r0.txt", want, false)
	case 4: // layers, each file including all of the next layer
		n = map[int]int{100: 10, 1000: 40, 5000: c.Q(80, 300)}[n]
		width := 2 + c.N(2)
		files := map[string]string{}
		var want []mPkg
		for i := 0; i < n; i++ {
			for k := 0; k < width; k++ {
				t := fmt.Sprintf("p%d-%d==1.0\n", i, k)
				for j := 0; j < width && i+1 < n; j++ {
					t += fmt.Sprintf("-r r%d-%d.txt\n", i+1, j)
				}
				files[fmt.Sprintf("r%d-%d.txt", i, k)] = t
				if i > 0 || k == 0 {
					want = append(want, py(fmt.Sprintf("p%d-%d", i, k), "1.0", "")...)
				}
			}
		}
		reqTree(c, files, "r0-0.txt", want, false)
	case 0: // long file
		var b strings.Builder
		var want []mPkg
		for i := 0; i < n; i++ {
			fmt.Fprintf(&b, "p%d==%d.0 \\\n    --hash=sha256:%064d\n# via x\n", i, i, i)
			want = append(want, py(fmt.Sprintf("p%d", i), fmt.Sprintf("%d.0", i), "")...)
		}
		lfCheck(c, "requirements.txt", b.String(), want, once)
	case 1: // long chain of includes
		n = min(n, 1000)
		files := map[string]string{}
		var want []mPkg
		for i := 0; i < n; i++ {
			files[fmt.Sprintf("r%d.txt", i)] = fmt.Sprintf("-r r%d.txt\np%d==1.0\n", (i+1)%n, i)
			want = append(want, py(fmt.Sprintf("p%d", i), "1.0", "")...)
		}
		reqTree(c, files, "r0.txt", want, false)
	case 2: // wide
		n = min(n, 1000)
		files := map[string]string{}
		var want []mPkg
		var b strings.Builder
		for i := 1; i < n; i++ {
			fmt.Fprintf(&b, "-r d%d/r.txt\n", i)
			files[fmt.Sprintf("d%d/r.txt", i)] = fmt.Sprintf("p%d==1.0\n-r ../root.txt\n-r ../d%d/r.txt\n", i, max(1, i/2))
			want = append(want, py(fmt.Sprintf("p%d", i), "1.0", "")...)
		}
		files["root.txt"] = b.String()
		reqTree(c, files, "root.txt", want, false)
	}
}

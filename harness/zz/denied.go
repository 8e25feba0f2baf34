package zzverif

import (
	"fmt"
	"os"
	"path/filepath"
	"slices"
	"strings"
	"syscall"
)

func init() {
	for _, p := range []string{"C18", "C20"} {
		register(p, Family{Name: "denied", Run: denied})
	}
}

// unprivileged runs f without the right to read everything, in all threads; it says whether that was possible.
func unprivileged(f func()) bool {
	probe := filepath.Join(theEngine.scratch, "probe")
	if _, err := os.Stat(probe); err != nil {
		must(os.WriteFile(probe, nil, 0o600))
		must(os.Chmod(probe, 0))
	}
	set := func(id uintptr) bool {
		_, _, e := syscall.AllThreadsSyscall(syscall.SYS_SETFSUID, id, 0, 0)
		return e != syscall.ENOTSUP
	}
	if !set(65534) {
		return false
	}
	defer set(0)
	if h, err := os.Open(probe); err == nil {
		h.Close()
		return false
	}
	f()
	return true
}

// denied: files and directories that may not be read are errors, and never as if they were not there; what can be
// read is reported as ever.
func denied(c *C) {
	w := newWorld()
	w.ecoDB("npm", on("A", "npm", "p"), on("B", "npm", "q"))
	w.ecoDB("PyPI", on("C", "PyPI", "p"))
	w.lock("d0/package-lock.json", pd("npm", "npm", "p", "1.0.0"))
	w.lock("d2/package-lock.json", pd("npm", "npm", "q", "1.0.0"))
	w.files["d1/package-lock.json"] = lockText("package-lock.json", []mPkg{pd("npm", "npm", "p", "1.0.0")})
	f := mFlags{json: true}
	target, args := "", []string{"d0", "d1", "d2"}
	switch Pick(c, "lock", "yml", "yml and yaml", "yaml", "dir", "search", "include", "config", "lock twice", "csv", "nothing") {
	case "lock":
		target = "d1/package-lock.json"
	case "lock twice":
		target = "d1/package-lock.json"
		args = []string{"d0", "d1/package-lock.json", "d2", "d1"}
	case "yml":
		target = "d1/.osv-detector.yml"
		w.files[target] = "ignore: [A]\n"
	case "yml and yaml":
		target = "d1/.osv-detector.yml"
		w.files[target] = "ignore: []\n"
		w.files["d1/.osv-detector.yaml"] = "ignore: [A]\n"
	case "yaml":
		target = "d1/.osv-detector.yaml"
		w.files[target] = "ignore: [A]\n"
	case "dir", "search":
		target = "d1"
	case "include":
		target = "d1/more.txt"
		w.files[target] = "p==1.0.0\n"
		w.files["d1/requirements.txt"] = "p==2.0.0\n-r more.txt\n"
		args[1] = "d1/requirements.txt"
	case "csv":
		target = "d1/x.csv"
		w.files[target] = "npm,,p,1.0.0\n"
		args[1] = "csv-file:d1/x.csv"
	case "config":
		target = "g.yml"
		w.files[target] = "ignore: [A]\n"
		f.config = "g.yml"
	}
	switch c.N(3) {
	case 1:
		args = []string{args[1], args[0], args[2]}
	case 2:
		slices.Reverse(args)
	}
	f.json = c.Bool()
	f.noConfig = c.Bool()
	list := c.Bool()
	c.Leaf(fmt.Sprint(target, args, f, list, w.files))
	w.setup()
	if target != "" {
		must(os.Chmod(target, 0))
	}
	cmd := f.args()
	if list {
		cmd = append(cmd, "--list-packages")
	}
	var r Run
	ok := unprivileged(func() { r = cli(append(cmd, args...)...) })
	if target != "" {
		must(os.Chmod(target, 0o755))
	}
	if !ok {
		c.Count("not possible here")
		c.Nontrivial()
		return
	}
	bad := target != ""
	if (f.noConfig || list) && (strings.Contains(target, ".osv-detector") || target == "g.yml") {
		bad = false // configs are not read
	}
	want := 1
	if list {
		want = 0
	}
	if bad {
		want = 127
	}
	if r.Code != want && !(bad && target != "g.yml" && !list && r.Code == 1) { // there are findings too
		c.Fail("exit code %d, expected %d, with %q not readable: %s", r.Code, want, target, r)
	}
	if bad && target == "g.yml" {
		c.Nontrivial()
		return
	}
	var exp []string
	for _, a := range args {
		switch {
		case a == "d0" || a == "d2":
			exp = append(exp, a+"/package-lock.json")
		case bad:
		case a == "d1":
			exp = append(exp, "d1/package-lock.json")
		default:
			exp = append(exp, strings.TrimPrefix(a, "csv-file:"))
		}
	}
	if bad && strings.HasPrefix(target, "d1/") && !strings.Contains(r.Err, "d1/") && !strings.Contains(r.Err, target) {
		c.Fail("the error does not name what could not be read (%s): %s", target, r)
	}
	if !f.json {
		rest := r.Out
		for _, p := range exp {
			var found bool
			if _, rest, found = strings.Cut(rest, p+": found 1 package\n"); !found {
				c.Fail("%s is not reported where it should be: %s", p, r)
			}
		}
		c.Nontrivial()
		return
	}
	rep, err := r.report()
	if err != nil {
		c.Fail("%v: %s", err, r)
	}
	var got []string
	for _, x := range rep.Results {
		got = append(got, x.FilePath)
		id := map[string]string{"d0": "A", "d1": "A", "d2": "B"}[filepath.Dir(x.FilePath)]
		for _, p := range x.Packages {
			if !list && (len(p.Vulnerabilities) != 1 || p.Vulnerabilities[0].ID != id) {
				c.Fail("%s has findings %v, expected %s: %s", x.FilePath, p.Vulnerabilities, id, r)
			}
		}
	}
	if !slices.Equal(got, exp) {
		c.Fail("results for %v, expected %v: %s", got, exp, r)
	}
	c.Nontrivial()
}

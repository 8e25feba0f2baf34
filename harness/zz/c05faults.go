package zzverif

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"slices"
	"strconv"
	"strings"
	"syscall"
)

func init() {
	register("C05", Family{Name: "permissions", Run: c05Perms}, Family{Name: "io-faults", Run: c05Faults})
	children["cli"] = cliChild
}

// ---- whole scans while the operating system refuses something --------------------------

// faultWorld is a scan that touches every kind of file the detector reads.
func faultWorld(kind int) (*world, mFlags, []string) {
	w := newWorld()
	baseDBs(w)
	p, s := pd("npm", "npm", "p", "1.0.0"), pd("npm", "npm", "s", "1.0.0")
	w.lock("d0/package-lock.json", p, s)
	w.lock("d0/yarn.lock", s)
	w.lock("d1/requirements.txt", pd("PyPI", "PyPI", "r", "1.0"))
	w.files["d1/requirements.txt"] = "-r more/other.txt\n"
	w.files["d1/more/other.txt"] = "r==1.0\n"
	w.lock("d2/package-lock.json", s)
	w.lock("d3/gradle.lockfile", pd("Maven", "Maven", "g:a", "1.0.0"))
	w.files["d3/mix.lock"] = formatOf("mix.lock").doc(1)
	w.files["d3/go.mod"] = formatOf("go.mod").doc(1)
	db := w.dirDB("x", mAdv{id: "X-1", entries: []mEntry{{eco: "npm", name: "s", ranges: openRange()}}}, mAdv{id: "X-2", entries: []mEntry{{eco: "npm", name: "t", ranges: openRange()}}})
	w.files["dbs/x/deep/x3.json"] = mAdv{id: "X-3", entries: []mEntry{{eco: "npm", name: "s", ranges: openRange()}}}.json()
	w.files["dbs/x/readme.md"] = "x"
	w.conf("d2/.osv-detector.yml", mConf{ignore: []string{"X-2"}, dbs: []mDBRef{db}})
	w.conf("d0/.osv-detector.yaml", mConf{ignore: []string{"GHSA-1"}})
	w.files["rows.csv"] = "npm,,p,1.0.0\n"
	w.files["main.yml"] = "ignore:\n  - X-3\nextra-databases:\n  - url: file:/dbs/x\n    working-directory: deep\n"
	f := mFlags{json: true, useDBs: bptr(false)}
	args := []string{"d0", "d1/requirements.txt", "d2"}
	switch kind {
	case 1:
		args = []string{"d2/package-lock.json", "csv-file:rows.csv", "d0"}
	case 2:
		f.config = "main.yml"
		args = []string{"d2", "d0/package-lock.json"}
	case 3:
		f.useDBs = nil
	case 4:
		f.useDBs = nil
		f.offline = true
	case 5:
		f.list = true
		args = append(args, "d3")
	case 6:
		args = []string{"d2", "empty"}
		w.dir("empty")
		w.files["d2/package-lock.json"] = lockText("package-lock.json", nil)
	case 7:
		args = []string{"empty"}
		w.dir("empty")
		f.useDBs = nil
	}
	return w, f, args
}

// faultNodes lists the files and directories below a root.
func faultNodes(root string) (out []string) {
	_ = filepath.Walk(root, func(p string, _ os.FileInfo, err error) error {
		if err == nil && p != root {
			rel, _ := filepath.Rel(root, p)
			out = append(out, rel)
		}
		return nil
	})
	return out
}

// judgeFault: what is missing from the report has to show in the exit code and on standard error.
func judgeFault(c *C, what string, base, got Run, skippable bool) {
	bad := func(f string, a ...any) {
		c.Fail("%s: %s\n  command: %s\n  exit %d (normally %d)\n  stdout: %s\n  normally: %s\n  stderr: %s", what, fmt.Sprintf(f, a...), strings.Join(got.Args, " "), got.Code, base.Code, clip(got.Out, 1200), clip(base.Out, 1200), clip(got.Err+got.SErr, 800))
	}
	if !slices.Contains([]int{0, 1, 127, 128}, got.Code) {
		bad("exit code %d", got.Code)
	}
	rep, err := got.report()
	if err != nil {
		bad("%v", err)
	}
	if got.Out == base.Out {
		c.Count("same report")
		if got.Code != base.Code && got.Code != 127 {
			bad("the same report with another exit code")
		}
		if got.Code == 127 && strings.TrimSpace(got.Err+got.SErr) == "" {
			bad("nothing on standard error")
		}
		return
	}
	c.Count("other report")
	c.Nontrivial()
	if strings.TrimSpace(got.Err+got.SErr) == "" {
		bad("the report is incomplete and nothing on standard error says so")
	}
	found := false
	for _, r := range rep.Results {
		for _, p := range r.Packages {
			found = found || len(p.Vulnerabilities) > 0
		}
	}
	if skippable {
		if got.Code == 0 && found {
			bad("findings and exit code 0")
		}
		if name := filepath.Base(strings.Fields(what)[faultNameAt]); got.Code != 127 && !strings.Contains(got.Err+got.SErr, name) {
			bad("the report is incomplete and nothing on standard error names %s", name)
		}
		return
	}
	switch got.Code {
	case 0, 128:
		bad("the report is incomplete but the exit code says that everything was read")
	case 1:
		if !found {
			bad("exit code 1 without findings")
		}
	}
	// what could still be read is the same as ever
	brep, _ := base.report()
	for _, r := range rep.Results {
		i := slices.IndexFunc(brep.Results, func(b jResult) bool { return b.FilePath == r.FilePath })
		if i < 0 {
			bad("a result for %s, which is not part of the scan", r.FilePath)
		}
		if len(r.Packages) != len(brep.Results[i].Packages) {
			bad("%s has %d packages instead of %d", r.FilePath, len(r.Packages), len(brep.Results[i].Packages))
		}
		for j, p := range r.Packages {
			b := brep.Results[i].Packages[j]
			if p.Name != b.Name || p.Version != b.Version {
				bad("%s lists %s@%s instead of %s@%s", r.FilePath, p.Name, p.Version, b.Name, b.Version)
			}
			known := append(vids(b.Vulnerabilities), vids(b.Ignored)...)
			for _, id := range vids(p.Vulnerabilities) {
				if !slices.Contains(known, id) {
					bad("%s: %s is reported for %s", r.FilePath, id, p.Name)
				}
			}
		}
	}
}

// faultNameAt is where in the description of a fault the file is.
var faultNameAt = 0

// faultSkippable: single files of a directory database are skipped with a message (C10).
func faultSkippable(rel string) bool {
	return strings.HasPrefix(rel, "dbs/x/")
}

// c05Perms: one file or directory (thorough: two) may not be read.
func c05Perms(c *C) {
	kind := c.N(9)
	c.Split()
	w, f, args := faultWorld(min(kind, 7))
	if kind == 8 {
		w, f, args = faultWorld(6)
		f.update = true
	}
	d := w.setup()
	if f.offline {
		g := f
		g.offline = false
		cli(append(g.args(), args...)...)
	}
	base := cli(append(f.args(), args...)...)
	updated := faultConfigs()
	if f.update {
		w.setup()
	}
	nodes := faultNodes(d)
	for _, t := range faultNodes(tmpDir()) {
		nodes = append(nodes, "../t/"+t)
	}
	nodes = append(nodes, "../t")
	n := 1 + c.N(c.Q(1, 2))
	var which []string
	skippable := false
	from := 0
	modes := map[string]os.FileMode{}
	for i := 0; i < n; i++ {
		k := from + c.N(len(nodes)-from)
		from = k
		rel := nodes[k]
		m := Pick(c, os.FileMode(0), 0o300, 0o644)
		modes[rel] = m
		which = append(which, fmt.Sprintf("%s %#o", rel, m))
		// a database that can be listed but not searched: none of its files can be read
		skippable = skippable || faultSkippable(rel) || rel == "dbs/x" && m == 0o644
	}
	c.Leaf(fmt.Sprintf("scan %d, %v", kind, which))
	must(os.Chmod(theEngine.scratch, 0o755))
	must(os.Chmod(tmpDir(), 0o777))
	for rel, m := range modes {
		must(os.Chmod(filepath.Join(d, rel), m))
	}
	got, ok := asNobody(func() Run { return cli(append(f.args(), args...)...) })
	_ = filepath.Walk(theEngine.scratch, func(p string, i os.FileInfo, err error) error {
		if err == nil && i.IsDir() {
			_ = os.Chmod(p, 0o755)
		}
		return nil
	})
	if !ok {
		c.Count("the file system user cannot be changed here")
		c.Skip()
	}
	judgeFault(c, strings.Join(which, ", "), base, got, skippable)
	faultUpdate(c, got, f.update && !skippable, updated)
}

// faultConfigs gives the configs of the world as they are now.
func faultConfigs() string {
	t := readTree(filepath.Join(theEngine.scratch, "c"))
	for n := range t {
		if !strings.Contains(n, ".osv-detector") && n != "main.yml" {
			delete(t, n)
		}
	}
	return t.key()
}

// faultUpdate: a config that was not updated shows in the exit code.
func faultUpdate(c *C, got Run, update bool, want string) {
	if !update {
		return
	}
	if now := faultConfigs(); now != want && got.Code == 0 {
		c.Fail("a config was not updated but the exit code is 0\n  command: %s\n%s\n  normally: %s\n  stderr: %s", strings.Join(got.Args, " "), now, want, clip(got.Err+got.SErr, 800))
	}
}

// asNobody runs f with the file permissions of an unprivileged user.
func asNobody(f func() Run) (r Run, ok bool) {
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	const nobody = 65534
	set := func(id int) int {
		_, _, _ = syscall.RawSyscall(syscall.SYS_SETFSUID, uintptr(id), 0, 0)
		now, _, _ := syscall.RawSyscall(syscall.SYS_SETFSUID, ^uintptr(0), 0, 0)
		return int(now)
	}
	defer func() {
		if set(0) != 0 {
			theEngine.fatal("cannot get the file system user back")
		}
	}()
	if set(nobody) != nobody {
		return r, false
	}
	// is it enough to be refused?
	p := filepath.Join(theEngine.scratch, "c")
	if syscall.Access(p, 0) != nil {
		return r, false
	}
	return f(), true
}

// ---- a system call fails ----------------------------------------------------------------

type cliJob struct{ Args []string }

type cliOut struct {
	Code     int
	Out, Err string
}

func cliChild() {
	runtime.LockOSThread()
	var j cliJob
	if json.Unmarshal([]byte(os.Getenv("VERIF_JOB")), &j) != nil {
		os.Exit(5)
	}
	net.reset(nil)
	var o, e bytes.Buffer
	code := runCLI(j.Args, &o, &e)
	fmt.Printf("\n@@@%s", js(cliOut{code, o.String(), e.String()}))
	os.Exit(0)
}

func cliProc(args []string, prefix ...string) (r Run, state *os.ProcessState) {
	a := append(slices.Clone(prefix), os.Getenv("VERIF_SELF"))
	cmd := exec.Command(a[0], a[1:]...)
	cmd.Env = append(os.Environ(), "VERIF_WORKER=child:cli", "VERIF_JOB="+js(cliJob{args}), "GOMAXPROCS=1", "GOGC=off", "GODEBUG=asyncpreemptoff=1")
	var b, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &b, &e
	err := cmd.Run()
	if cmd.ProcessState == nil {
		theEngine.fatal("child: " + err.Error())
	}
	r.Args = args
	r.Code = -1
	out, rest, ok := strings.Cut(b.String(), "\n@@@")
	r.SOut, r.SErr = out, e.String()
	var co cliOut
	if ok && json.Unmarshal([]byte(rest), &co) == nil {
		r.Code, r.Out, r.Err = co.Code, co.Out, co.Err
	}
	return r, cmd.ProcessState
}

const faultSet = "openat,read,pread64,getdents64,fstat,newfstatat,lstat,stat,statx,readlinkat,write,pwrite64,lseek,ftruncate"

// faultPoints lists the system calls of a scan that touch the world or the temporary directory.
func faultPoints(log, root string) (out []c09Call) {
	b, _ := os.ReadFile(log)
	per := map[string]int{}
	seen := map[string]bool{}
	for _, l := range strings.Split(string(b), "\n") {
		pid, rest, ok := strings.Cut(l, " ")
		name, body, ok2 := strings.Cut(strings.TrimSpace(rest), "(")
		if _, err := strconv.Atoi(pid); !ok || !ok2 || err != nil || !slices.Contains(strings.Split(faultSet, ","), name) {
			continue
		}
		per[pid+name]++
		key := fmt.Sprintf("%s %d", name, per[pid+name])
		if !seen[key] && faultPath(body, root) != "" {
			seen[key] = true
			out = append(out, c09Call{name, per[pid+name]})
		}
	}
	return out
}

// faultPath gives the path below the root that a traced call is about.
func faultPath(body, root string) string {
	abs := ""
	if body != "" && body[0] >= '0' && body[0] <= '9' { // a descriptor
		_, rest, _ := strings.Cut(body, "<")
		abs, _, _ = strings.Cut(rest, ">")
	} else if i := strings.Index(body, `"`); i >= 0 {
		p, _, _ := strings.Cut(body[i+1:], `"`)
		if !filepath.IsAbs(p) {
			p = filepath.Join(root, "c", p)
		}
		abs = p
	}
	if rel, ok := strings.CutPrefix(abs, root+"/"); ok {
		return rel
	}
	return ""
}

func c05Faults(c *C) {
	kind := Pick(c, 0, 1, 2, 4, 5, 6)
	update := c.Bool()
	c.Split()
	w, f, args := faultWorld(kind)
	f.update = update
	prep := func() string {
		d := w.setup()
		if f.offline {
			g := f
			g.offline, g.update = false, false
			cli(append(g.args(), args...)...)
		}
		return d
	}
	prep()
	root := theEngine.scratch
	log := filepath.Join(root, "calls")
	all := append(f.args(), args...)
	base, ps := cliProc(all, "strace", "-f", "-y", "-qq", "-s", "300", "-o", log, "-e", "trace="+faultSet)
	if !ps.Success() || base.Code < 0 {
		c.Count("strace does not work here")
		c.Skip()
	}
	updated := faultConfigs()
	points := faultPoints(log, root)
	_ = os.Remove(log)
	if len(points) == 0 {
		c.Skip()
	}
	at := points[c.N(len(points))]
	errs := []string{"EIO", "EACCES"}
	if strings.Contains("openat getdents64 newfstatat", at.name) {
		errs = append(errs, "EMFILE", "ENOMEM")
	}
	e := errs[c.N(c.Q(1, len(errs)))]
	c.Leaf(fmt.Sprintf("scan %d, update %v, %s number %d fails with %s", kind, update, at.name, at.k, e))
	prep()
	got, _ := cliProc(all, "strace", "-f", "-y", "-qq", "-s", "300", "-o", log, "-e", "trace="+faultSet, "-e", fmt.Sprintf("inject=%s:error=%s:when=%d", at.name, e, at.k))
	b, _ := os.ReadFile(log)
	_ = os.Remove(log)
	rel, hit := "", false
	for _, l := range strings.Split(string(b), "\n") {
		if strings.Contains(l, "(INJECTED)") {
			_, body, _ := strings.Cut(l, "(")
			hit = true
			p := faultPath(body, root)
			if p == "" { // not about the scan
				c.Count("elsewhere")
				return
			}
			if rel == "" || !faultSkippable(strings.TrimPrefix(p, "c/")) {
				rel = strings.TrimPrefix(p, "c/")
			}
		}
	}
	if !hit {
		c.Count("not reached")
		return
	}
	what := fmt.Sprintf("%s on %s fails with %s", at.name, rel, e)
	faultNameAt = 2
	defer func() { faultNameAt = 0 }()
	if got.Code < 0 {
		c.Fail("%s: the scan crashed\n  command: %s\n  stderr: %s", what, strings.Join(all, " "), clip(got.SErr, 1500))
	}
	judgeFault(c, what, base, got, faultSkippable(rel))
	faultUpdate(c, got, update && !faultSkippable(rel), updated)
}

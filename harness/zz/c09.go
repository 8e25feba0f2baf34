package zzverif

import (
	"bytes"
	"encoding/json"
	"fmt"
	"net/http"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"runtime"
	"slices"
	"strconv"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"github.com/g-rath/osv-detector/pkg/database"
)

func init() {
	children["c09"] = c09Child
	register("C09",
		Family{Name: "download-cuts", Run: c09Cuts},
		Family{Name: "cuts-of-nested-archives", Run: c09Nested},
		Family{Name: "failed-writes", Run: c09FailedWrites},
		Family{Name: "killed-writes", Run: c09Killed},
		Family{Name: "killed-syscalls", Run: c09Syscalls},
		Family{Name: "unwritable", Run: c09Unwritable},
		Family{Name: "command-line", Run: c09CLI},
	)
}

// c09State brings the cache and the server into one of the starting states.
// 0: nothing cached, 1: version 1 cached and current, 2: version 1 cached, server at 2,
// 3: version 2 cached, server at 3 (longer than what is cached), 4: nothing cached, server at 2
func c09State(c *C, st, mode int) (*zipServer, cacheModel) {
	s := newZipServer(zipA, zipC)
	s.mode = mode
	m := cacheModel{}
	switch st {
	case 1, 2:
		c08Load(c, s, m, zipA, "", false, "setup")
		s.tick()
		if st == 2 {
			s.publish(zipA)
		}
	case 3:
		s.publish(zipA)
		c08Load(c, s, m, zipA, "", false, "setup")
		s.tick()
		s.publish(zipA)
	case 4:
		s.publish(zipA)
	}
	return s, m
}

// c09After checks what later loads give; m is what offline loads may give.
func c09After(c *C, s *zipServer, m cacheModel, order int, what string) {
	s.fault = nil
	s.tick()
	c08Load(c, s, cacheModel{}, zipC, "", false, what+": another database")
	if order != 1 {
		c08Load(c, s, m, zipA, "", true, what+": offline load")
		c08Load(c, s, m, zipA, "sub", true, what+": offline load")
	}
	if order == 2 {
		s.publish(zipA)
	}
	c08Load(c, s, m, zipA, "", false, what+": online load")
	c08Load(c, s, m, zipA, "", true, what+": offline load after an online load")
	s.tick()
	c08Load(c, s, m, zipA, "sub", false, what+": second online load")
}

// c09Cuts: a download that ends after k bytes, for every k.
func c09Cuts(c *C) {
	st := c.N(5)
	mode := c.N(3)
	if st == 1 {
		mode += 10 // the server sends the archive again although it has not changed
	}
	how := c.N(3) // connection error, too short for its length, clean end without a length
	order := c.N(3)
	c.Split()
	v := []int{1, 1, 2, 3, 2}[st]
	n := len(archive(zipA, v))
	at := c.N(n)
	c.Leaf(fmt.Sprintf("state %d, validators %d, cut %d of %d (%d), then order %d", st, mode, at, n, how, order))
	caseDir()
	s, m := c09State(c, st, mode%10)
	s.always = mode >= 10
	s.fault = func(g Resp, cond bool) *Resp {
		p := &Resp{Code: 2, Header: g.Header, Body: g.Body}
		switch how {
		case 0:
			p.Cut, p.CutAt, p.NoLength = true, at, true
		case 1:
			p.Cut, p.CutAt = true, at
		case 2:
			p.NoLength = true
			p.Body = g.Body[:at]
		}
		return p
	}
	c08Load(c, s, m, zipA, "", false, "cut download")
	s.always = false
	c09After(c, s, m, order, "after the cut")
	c.Nontrivial()
}

// c09Nested: an archive that holds another one looks complete right after that one.
func c09Nested(c *C) {
	inner := mkZip(Files{"1.json": on("INNER", "npm", "p").json()})
	outer := mkZipOrdered(Files{"0.json": on("OUTER-0", "npm", "p").json(), "backup.zip": inner, "z.json": on("OUTER-1", "npm", "p").json()}, []string{"0.json", "backup.zip", "z.json"})
	old := mkZip(Files{"1.json": on("OLD", "npm", "p").json()})
	cached := c.Bool()
	length := c.Bool()
	c.Split()
	at := c.N(len(outer))
	c.Leaf(fmt.Sprintf("cached %v, length %v, cut %d of %d", cached, length, at, len(outer)))
	caseDir()
	load := func(offline bool) string {
		db, err := database.NewZippedDB(database.Config{Name: "z", Type: "zip", URL: zipA}, offline, nil)
		if err != nil {
			return "error"
		}
		ids, err := dbIDs(db)
		return fmt.Sprint(ids, err)
	}
	want := "error"
	if cached {
		net.reset(static(map[string]string{zipA: old}))
		want = load(false)
	}
	net.reset(func(r *Req) Resp {
		return Resp{Body: outer, Cut: true, CutAt: at, NoLength: !length, Header: map[string]string{"ETag": "\"y\"", "Date": "Fri, 02 Jan 2026 00:00:00 GMT"}}
	})
	if got := load(false); got != "error" {
		c.Fail("a download that broke off after %d of %d bytes gives %s", at, len(outer), got)
	}
	if got := load(true); got != want {
		c.Fail("offline after a download that broke off after %d of %d bytes: %s, expected %s", at, len(outer), got, want)
	}
	net.reset(static(map[string]string{zipA: outer}))
	if got := load(false); got != "[OUTER-0 OUTER-1] <nil>" {
		c.Fail("online after a download that broke off after %d of %d bytes: %s", at, len(outer), got)
	}
	c.Nontrivial()
}

// withFileLimit runs f while no file can grow beyond n bytes: writes fail from there on.
func withFileLimit(n int, f func()) {
	signal.Ignore(syscall.SIGXFSZ)
	var old syscall.Rlimit
	must(syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old))
	lim := old
	lim.Cur = uint64(n)
	must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &lim))
	defer func() {
		must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old))
		signal.Reset(syscall.SIGXFSZ)
	}()
	f()
}

// cacheSize is how large the cache of a version of the archive gets.
func cacheSize(v, mode int) int {
	k := fmt.Sprint(v, mode)
	if n, ok := cacheSizes[k]; ok {
		return n
	}
	must(removeTmp())
	s := newZipServer(zipA)
	for s.ver[zipA] < v {
		s.publish(zipA)
	}
	s.mode = mode
	net.reset(s.serve)
	_, _ = loadZip(zipA, "", false)
	n := 0
	for _, b := range readTree(tmpDir()) {
		n = max(n, len(b))
	}
	cacheSizes[k] = n
	return n
}

var cacheSizes = map[string]int{}

// maybe extends what an offline load may give after an interrupted load
func (s *zipServer) interrupted(m cacheModel) {
	m[zipA] = append(slices.Clone(m.get(zipA)), s.ver[zipA])
}

// c09FailedWrites: the disk is full after k bytes of the cache, for every k.
func c09FailedWrites(c *C) {
	st := Pick(c, 0, 2, 3, 4)
	mode := c.N(3)
	order := c.N(3)
	c.Split()
	caseDir()
	v := map[int]int{0: 1, 2: 2, 3: 3, 4: 2}[st]
	n := cacheSize(v, mode) + 1
	at := c.N(n)
	c.Leaf(fmt.Sprintf("state %d, validators %d, files limited to %d bytes, then order %d", st, mode, at, order))
	caseDir()
	s, m := c09State(c, st, mode)
	takeStray(strayErr)
	before := m.get(zipA)
	withFileLimit(at, func() {
		// the scan itself is not affected
		c08Load(c, s, m, zipA, "", false, "load that cannot be cached")
	})
	m[zipA] = append(slices.Clone(before), s.ver[zipA])
	c09After(c, s, m, order, "after the failed write")
	c.Nontrivial()
}

type c09Job struct {
	Ver, Mode, Limit int
	Now, Mod         int64
	WD               string
	Kill             bool
}

// c09Child loads the database in a process of its own.
func c09Child() {
	runtime.LockOSThread()
	var j c09Job
	if json.Unmarshal([]byte(os.Getenv("VERIF_JOB")), &j) != nil {
		os.Exit(5)
	}
	http.DefaultTransport = net
	http.DefaultClient.Transport = nil
	s := newZipServer(zipA, zipC)
	s.ver[zipA] = j.Ver
	s.now, s.lastMod[zipA] = time.Unix(j.Now, 0).UTC(), time.Unix(j.Mod, 0).UTC()
	s.mode = j.Mode
	net.reset(s.serve)
	if j.Limit >= 0 {
		lim := syscall.Rlimit{Cur: uint64(j.Limit), Max: uint64(j.Limit)}
		if syscall.Setrlimit(syscall.RLIMIT_FSIZE, &lim) != nil {
			os.Exit(5)
		}
		// a write beyond the limit ends the process at once
		var dfl [4]uint64
		if _, _, e := syscall.RawSyscall6(syscall.SYS_RT_SIGACTION, uintptr(syscall.SIGXFSZ), uintptr(unsafe.Pointer(&dfl)), 0, 8, 0, 0); e != 0 {
			os.Exit(5)
		}
	}
	out, err := loadZip(zipA, j.WD, false)
	if err != nil {
		fmt.Printf("error: %v\n", err)
		os.Exit(0)
	}
	fmt.Printf("ids: %s\n", strings.Join(out, " "))
	os.Exit(0)
}

// c09Run runs the child; the prefix is what it is started through.
func c09Run(j c09Job, prefix ...string) (out string, state *os.ProcessState) {
	args := append(slices.Clone(prefix), os.Getenv("VERIF_SELF"))
	cmd := exec.Command(args[0], args[1:]...)
	cmd.Env = append(os.Environ(), "VERIF_WORKER=child:c09", "VERIF_JOB="+js(j), "GOMAXPROCS=1", "GOGC=off", "GODEBUG=asyncpreemptoff=1")
	var b, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &b, &e
	err := cmd.Run()
	if cmd.ProcessState == nil {
		theEngine.fatal("child: " + err.Error())
	}
	if cmd.ProcessState.ExitCode() == 5 {
		theEngine.fatal("child: bad job " + e.String())
	}
	return b.String(), cmd.ProcessState
}

func (s *zipServer) job(limit int) c09Job {
	return c09Job{Ver: s.ver[zipA], Mode: s.mode, Limit: limit, Now: s.now.Unix(), Mod: s.lastMod[zipA].Unix()}
}

// c09Killed: the process is killed when it has written k bytes of the cache.
func c09Killed(c *C) {
	st := Pick(c, 0, 2, 3)
	mode := Pick(c, 0, 2)
	order := c.N(c.Q(2, 3))
	c.Split()
	caseDir()
	v := map[int]int{0: 1, 2: 2, 3: 3}[st]
	n := cacheSize(v, mode) + 1
	at := c.N((n+c.Q(7, 1)-1)/c.Q(7, 1)) * c.Q(7, 1)
	if at > n-14 { // around the end every byte
		at = n - 14 + c.N(14)
	}
	second := c.N(2)
	c.Leaf(fmt.Sprintf("state %d, validators %d, killed after %d of %d bytes, then order %d, killed twice %d", st, mode, at, n, order, second))
	caseDir()
	s, m := c09State(c, st, mode)
	out, ps := c09Run(s.job(at))
	if ps.Success() {
		if want := "ids: " + strings.Join(wantIDs(zipA, "", s.ver[zipA]), " ") + "\n"; out != want {
			c.Fail("a load that was not interrupted gave %q, expected %q", out, want)
		}
		c.Count("finished")
	} else {
		c.Count("killed")
	}
	s.interrupted(m)
	if second == 1 {
		out, ps = c09Run(s.job(at / 2))
		if ps.Success() && out != "ids: "+strings.Join(wantIDs(zipA, "", s.ver[zipA]), " ")+"\n" {
			c.Fail("a load after a killed one gave %q", out)
		}
	}
	c09After(c, s, m, order, "after the kill")
	c.Nontrivial()
}

const c09Set = "openat,open,creat,write,pwrite64,writev,rename,renameat,renameat2,unlink,unlinkat,ftruncate,truncate,fsync,fdatasync,fchmod,fchmodat,close,link,linkat,symlinkat,mkdirat,mkdir,fallocate,copy_file_range,sendfile"

type c09Call struct {
	name string
	k    int
}

// c09Calls lists the system calls of an uninterrupted load, as name and occurrence.
func c09Calls(j c09Job) (out []c09Call) {
	log := filepath.Join(theEngine.scratch, "calls")
	_, ps := c09Run(j, "strace", "-f", "-qq", "-o", log, "-e", "trace="+c09Set)
	b, err := os.ReadFile(log)
	_ = os.Remove(log)
	if err != nil || !ps.Success() {
		return nil
	}
	// strace counts occurrences per thread and call
	per := map[string]int{}
	most := map[string]int{}
	for _, l := range strings.Split(string(b), "\n") {
		pid, rest, ok := strings.Cut(l, " ")
		name, _, ok2 := strings.Cut(strings.TrimSpace(rest), "(")
		if _, err := strconv.Atoi(pid); ok && ok2 && err == nil && slices.Contains(strings.Split(c09Set, ","), name) {
			per[pid+name]++
			most[name] = max(most[name], per[pid+name])
		}
	}
	for _, n := range sortedKeys(most) {
		for k := 1; k <= most[n]+1; k++ {
			out = append(out, c09Call{n, k})
		}
	}
	return out
}

// c09Syscalls: the process is killed right before its k-th system call that touches files.
func c09Syscalls(c *C) {
	st := Pick(c, 0, 1, 2, 3)
	mode := Pick(c, 0, 2)
	c.Split()
	caseDir()
	s, _ := c09State(c, st, mode)
	calls := c09Calls(s.job(-1))
	if len(calls) == 0 {
		c.Count("strace does not work here")
		c.Skip()
	}
	at := calls[c.N(len(calls))]
	order := c.N(3)
	c.Leaf(fmt.Sprintf("state %d, validators %d, killed before %s number %d, then order %d", st, mode, at.name, at.k, order))
	caseDir()
	s, m := c09State(c, st, mode)
	out, ps := c09Run(s.job(-1), "strace", "-f", "-qq", "-o", "/dev/null", "-e", "trace="+c09Set, "-e", fmt.Sprintf("inject=%s:signal=KILL:when=%d", at.name, at.k))
	if ps.Success() {
		c.Count("finished")
		if want := "ids: " + strings.Join(wantIDs(zipA, "", s.ver[zipA]), " ") + "\n"; out != want {
			c.Fail("a load that was not interrupted gave %q, expected %q", out, want)
		}
	} else {
		c.Count("killed")
	}
	s.interrupted(m)
	c09After(c, s, m, order, "after the kill")
	c.Nontrivial()
}

// c09Unwritable: where the cache should go cannot be written; results are unaffected.
func c09Unwritable(c *C) {
	kind := c.N(5)
	mode := c.N(4)
	wd := Pick(c, "", "sub")
	st := c.N(2)
	c.Leaf(fmt.Sprintf("unwritable %d, validators %d, working directory %q, state %d", kind, mode, wd, st))
	caseDir()
	s := newZipServer(zipA, zipC)
	s.mode = 0
	net.reset(s.serve)
	if _, err := loadZip(zipA, "", false); err != nil {
		c.Fail("load failed: %v", err)
	}
	names := readTree(tmpDir())
	s.tick()
	s.mode = mode
	if st == 1 {
		s.publish(zipA)
	}
	t := tmpDir()
	switch kind {
	case 0: // no temporary directory
		must(os.RemoveAll(t))
	case 1: // a file instead of it
		must(os.RemoveAll(t))
		must(os.WriteFile(t, []byte("x"), 0o644))
	case 2: // directories where the files were
		for f := range names {
			must(os.RemoveAll(filepath.Join(t, f)))
			must(os.MkdirAll(filepath.Join(t, f, "x"), 0o755))
		}
	case 3: // links to nowhere
		for f := range names {
			must(os.RemoveAll(filepath.Join(t, f)))
			must(os.Symlink(filepath.Join(t, "none", "f"), filepath.Join(t, f)))
		}
	case 4: // a name that is too long
		must(os.Setenv("TMPDIR", filepath.Join(t, strings.Repeat("d", 300))))
	}
	net.reset(s.serve)
	got, err := loadZip(zipA, wd, false)
	if err != nil {
		c.Fail("a load failed because the cache cannot be written: %v", err)
	}
	if want := wantIDs(zipA, wd, s.ver[zipA]); !slices.Equal(got, want) {
		c.Fail("load gave %v, expected %v", got, want)
	}
	net.reset(s.serve)
	if got, err := loadZip(zipA, wd, true); err == nil && !slices.Equal(got, wantIDs(zipA, wd, s.ver[zipA])) {
		c.Fail("an offline load without a cache gave %v", got)
	}
	// the directory comes back
	must(os.RemoveAll(t))
	must(os.Mkdir(t, 0o755))
	must(os.Setenv("TMPDIR", t))
	m := cacheModel{}
	c08Load(c, s, m, zipA, wd, false, "later online load")
	c08Load(c, s, m, zipA, wd, true, "later offline load")
	c.Nontrivial()
}

// c09CLI: whole scans with broken downloads, full disks and unwritable caches give the same reports.
func c09CLI(c *C) {
	js_ := c.Bool()
	kind := c.N(3) // disk full, no temporary directory, download cut
	st := c.N(2)   // cached or not
	at := c.N(c.Q(40, 400))
	c.Leaf(fmt.Sprintf("json %v kind %d state %d at %d", js_, kind, st, at))
	d := caseDir()
	Files{
		"d0/package-lock.json": lockText("package-lock.json", []mPkg{pd("npm", "npm", "p", "1.0.0")}),
		"d1/package-lock.json": lockText("package-lock.json", []mPkg{pd("npm", "npm", "p", "1.0.0")}),
		"d1/.osv-detector.yml": "extra-databases:\n  - url: " + zipA + "\n    working-directory: sub\n",
	}.write(d)
	npm := fmt.Sprintf(ecoURL, "npm")
	s := newZipServer(npm, zipA)
	args := []string{"d0", "d1"}
	if js_ {
		args = []string{"--json", "d0", "d1"}
	}
	run := func() Run {
		net.reset(s.serve)
		return cli(args...)
	}
	if st == 1 {
		run()
	}
	s.tick()
	s.publish(npm)
	s.publish(zipA)
	saved := readTree(tmpDir())
	want := run()
	if want.Code != 1 {
		c.Fail("exit code %d\n%s", want.Code, want)
	}
	must(removeTmp())
	saved.write(tmpDir())
	var got Run
	size := cacheSizeOf(saved)
	if size == 0 {
		size = 1500
	}
	switch kind {
	case 0:
		withFileLimit(at*size/c.Q(40, 400), func() { got = run() })
	case 1:
		if at > 0 {
			c.Skip()
		}
		must(os.RemoveAll(tmpDir()))
		got = run()
		must(removeTmp())
	case 2:
		s.fault = func(g Resp, cond bool) *Resp {
			return &Resp{Code: 2, Header: g.Header, Body: g.Body, Cut: true, CutAt: at * len(g.Body) / c.Q(40, 400)}
		}
		got = run()
		s.fault = nil
		if got.Code != 127 {
			c.Fail("a scan whose downloads broke off exits with %d\n%s", got.Code, got)
		}
		got = run()
	}
	if got.Code != want.Code || got.Out != want.Out {
		c.Fail("the scan gave\n%s\ninstead of\n%s", got, want)
	}
	after := run()
	if after.Code != want.Code || after.Out != want.Out {
		c.Fail("the scan after it gave\n%s\ninstead of\n%s", after, want)
	}
	c.Nontrivial()
}

func cacheSizeOf(f Files) int {
	n := 0
	for _, b := range f {
		n = max(n, len(b))
	}
	return n
}

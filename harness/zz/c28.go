package zzverif

import (
	"bytes"
	"encoding/json"
	"fmt"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"slices"
	"strconv"
	"strings"
	"syscall"
	"time"
)

func init() {
	register("C28", Family{Name: "two-scans", Run: c28Two})
	children["c28"] = c28Child
}

// ---- processes that are stopped after one of their system calls --------------------------

type c28Job struct {
	Ver, Mode int
	Now, Mod  int64
	WD        string
	Offline   bool
}

func c28Child() {
	runtime.LockOSThread()
	var j c28Job
	if json.Unmarshal([]byte(os.Getenv("VERIF_JOB")), &j) != nil {
		os.Exit(5)
	}
	http.DefaultTransport = net
	s := newZipServer(zipA)
	s.ver[zipA] = j.Ver
	s.now, s.lastMod[zipA] = time.Unix(j.Now, 0).UTC(), time.Unix(j.Mod, 0).UTC()
	s.mode = j.Mode
	net.reset(s.serve)
	out, err := loadZip(zipA, j.WD, j.Offline)
	if j.Offline && len(net.take()) > 0 {
		fmt.Print("an offline load made a request")
		os.Exit(0)
	}
	if err != nil {
		fmt.Printf("error: %v\n", err)
		os.Exit(0)
	}
	fmt.Printf("ids: %s\n", strings.Join(out, " "))
	os.Exit(0)
}

const c28Set = c09Set + ",read,pread64,fstat,newfstatat,statx,lseek"

// slow is a process that stops itself after the given system calls.
type slow struct {
	cmd  *exec.Cmd
	log  string
	out  bytes.Buffer
	errs bytes.Buffer
	done chan struct{}
	seen int // stops so far
}

// startSlow starts a load that stops after a system call (once; name "" for never).
func startSlow(n int, j c28Job, at c09Call) *slow {
	p := &slow{log: filepath.Join(theEngine.scratch, fmt.Sprintf("slow%d", n)), done: make(chan struct{})}
	_ = os.Remove(p.log)
	args := []string{"-f", "-y", "-qq", "-s", "0", "-o", p.log, "-e", "trace=" + c28Set}
	if at.name != "" {
		args = append(args, "-e", fmt.Sprintf("inject=%s:signal=STOP:when=%d", at.name, at.k))
	}
	p.cmd = exec.Command("strace", append(args, os.Getenv("VERIF_SELF"))...)
	p.cmd.Env = append(os.Environ(), "VERIF_WORKER=child:c28", "VERIF_JOB="+js(j), "GOMAXPROCS=1", "GOGC=off", "GODEBUG=asyncpreemptoff=1")
	p.cmd.Stdout, p.cmd.Stderr = &p.out, &p.errs
	p.cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	if err := p.cmd.Start(); err != nil {
		return nil
	}
	go func() { _ = p.cmd.Wait(); close(p.done) }()
	return p
}

// wait waits until the process has stopped once more or ended.
func (p *slow) wait() (stopped bool) {
	for t := time.Now(); time.Since(t) < 60*time.Second; time.Sleep(300 * time.Microsecond) {
		select {
		case <-p.done:
			return false
		default:
		}
		b, _ := os.ReadFile(p.log)
		if n := strings.Count(string(b), ", si_code=SI_KERNEL} ---\n"); n > p.seen && strings.Contains(string(b), "--- stopped by SIGSTOP") {
			p.seen = n
			return true
		}
	}
	p.kill()
	theEngine.fatal("a process neither stopped nor ended")
	return false
}

func (p *slow) pids() (out []int) {
	b, _ := os.ReadFile(p.log)
	for _, l := range strings.Split(string(b), "\n") {
		f, _, _ := strings.Cut(l, " ")
		if n, err := strconv.Atoi(f); err == nil && !slices.Contains(out, n) {
			out = append(out, n)
		}
	}
	return out
}

// finish lets the process run to its end.
func (p *slow) finish() string {
	for t := time.Now(); ; {
		for _, pid := range p.pids() {
			_ = syscall.Kill(pid, syscall.SIGCONT)
		}
		select {
		case <-p.done:
			return p.out.String()
		case <-time.After(5 * time.Millisecond):
		}
		if time.Since(t) > 60*time.Second {
			p.kill()
			theEngine.fatal("a process does not end: " + p.errs.String())
		}
	}
}

func (p *slow) kill() {
	for _, pid := range p.pids() {
		_ = syscall.Kill(pid, syscall.SIGKILL)
	}
	_ = p.cmd.Process.Kill()
	<-p.done
}

// points are the system calls of a finished process on the temporary directory.
func (p *slow) points() (out []c09Call) {
	b, _ := os.ReadFile(p.log)
	per := map[string]int{}
	names := strings.Split(c28Set, ",")
	for _, l := range strings.Split(string(b), "\n") {
		pid, rest, ok := strings.Cut(l, " ")
		name, body, ok2 := strings.Cut(strings.TrimSpace(rest), "(")
		if _, err := strconv.Atoi(pid); !ok || !ok2 || err != nil || !slices.Contains(names, name) {
			continue
		}
		per[pid+name]++
		if strings.Contains(body, tmpDir()) {
			out = append(out, c09Call{name, per[pid+name]})
		}
	}
	return out
}

// c28Two: two loads of the same archive; the first stops after any of its system calls on
// the cache, the second runs up to any of its own or to its end, the first ends, the second ends.
func c28Two(c *C) {
	start := c.N(c.Q(2, 4)) // which version is cached at first
	type kind struct{ v1, v2 int }
	k := Pick(c, kind{1, 1}, kind{1, 2}, kind{2, 1}, kind{2, 2}, kind{2, 3}, kind{3, 1}, kind{0, 2}, kind{2, 0}, kind{0, 0}) // 0: offline
	if start == 0 && k.v1 == 0 && k.v2 == 0 {
		c.Skip()
	}
	mode := Pick(c, 0, 2)
	if !c.Thorough() && mode != 0 && k.v2 != 2 {
		c.Skip()
	}
	wd := ""
	if c.Thorough() {
		wd = Pick(c, "", "sub")
	}
	c.Split()
	now := time.Date(2026, 3, 1, 0, 0, 0, 0, time.UTC)
	job := func(v int, wd string) c28Job {
		j := c28Job{Ver: max(v, 1), Mode: mode, WD: wd, Offline: v == 0}
		// version v is an hour newer than the one before
		j.Mod = now.Add(time.Duration(v) * time.Hour).Unix()
		j.Now = j.Mod + 60
		return j
	}
	prep := func() {
		caseDir()
		must(removeTmp())
		if start > 0 {
			j := job(start, "")
			s := newZipServer(zipA)
			s.ver[zipA], s.mode = start, mode
			s.now, s.lastMod[zipA] = time.Unix(j.Now, 0).UTC(), time.Unix(j.Mod, 0).UTC()
			net.reset(s.serve)
			if _, err := loadZip(zipA, "", false); err != nil {
				c.Fail("a plain load failed: %v", err)
			}
		}
	}
	j1, j2 := job(k.v1, wd), job(k.v2, "")
	alone := func(n int, j c28Job) []c09Call {
		p := startSlow(n, j, c09Call{})
		if p == nil {
			return nil
		}
		p.finish()
		return p.points()
	}
	prep()
	first := alone(1, j1)
	if len(first) == 0 {
		c.Count("strace does not work here")
		c.Skip()
	}
	second := alone(2, j2) // after the first
	prep()
	for _, x := range alone(2, j2) {
		if !slices.Contains(second, x) {
			second = append(second, x)
		}
	}
	a := first[c.N(len(first))]
	b := c09Call{}
	if i := c.N(len(second) + 1); i > 0 {
		b = second[i-1]
	}
	c.Leaf(fmt.Sprintf("version %d is cached; a load (version %d) pauses after %s number %d, another one (version %d) %s, validators %d, working directory %q", start, k.v1, a.name, a.k, k.v2, c28Says(b), mode, wd))
	prep()
	p1 := startSlow(1, j1, a)
	s1 := p1.wait()
	p2 := startSlow(2, j2, b)
	s2 := p2.wait()
	o1 := p1.finish()
	o2 := p2.finish()
	if s1 {
		c.Nontrivial()
	} else {
		c.Count("not reached by the first")
	}
	if !s2 && b.name != "" {
		c.Count("not reached by the second")
	}
	history := fmt.Sprintf("cached: version %d, the server has version %d and later %d (0: offline)\n  first:\n%s\n  second:\n%s", start, k.v1, k.v2, c28Trace(p1.log), c28Trace(p2.log))
	var vers []int
	for _, v := range []int{start, k.v1, k.v2} {
		if v > 0 {
			vers = append(vers, v)
		}
	}
	ids := func(wd string, v int) string { return "ids: " + strings.Join(wantIDs(zipA, wd, v), " ") + "\n" }
	judge := func(which string, j c28Job, o string) {
		if !j.Offline {
			if o != ids(j.WD, j.Ver) {
				c.Fail("%s: an online load gave %q, the server has %q\n  %s", which, o, ids(j.WD, j.Ver), history)
			}
			return
		}
		for _, v := range vers {
			if o == ids(j.WD, v) {
				return
			}
		}
		if start == 0 && strings.HasPrefix(o, "error: ") && strings.Contains(o, "no offline version") {
			return // nothing was cached yet when it looked
		}
		c.Fail("%s: an offline load gave %q\n  %s", which, o, history)
	}
	judge("the first load", j1, o1)
	judge("the second load", j2, o2)
	// afterwards: offline, then online, then offline
	m := cacheModel{zipA: vers}
	s := newZipServer(zipA)
	s.mode = mode
	s.ver[zipA] = max(1, start, k.v1, k.v2)
	j := job(s.ver[zipA], "")
	s.now, s.lastMod[zipA] = time.Unix(j.Now, 0).UTC(), time.Unix(j.Mod, 0).UTC()
	c08Load(c, s, m, zipA, "", true, "an offline load after both ("+history+")")
	c08Load(c, s, m, zipA, "", false, "an online load after both ("+history+")")
	c08Load(c, s, m, zipA, "", true, "an offline load after that ("+history+")")
}

func c28Says(b c09Call) string {
	if b.name == "" {
		return "runs to its end"
	}
	return fmt.Sprintf("runs until %s number %d", b.name, b.k)
}

// c28Trace is what a process did with the temporary directory.
func c28Trace(log string) string {
	b, _ := os.ReadFile(log)
	var out []string
	for _, l := range strings.Split(string(b), "\n") {
		if strings.Contains(l, tmpDir()) || strings.Contains(l, "stopped by") {
			_, l, _ = strings.Cut(l, " ")
			out = append(out, "    "+strings.ReplaceAll(clip(strings.TrimSpace(l), 160), tmpDir(), "TMP"))
		}
	}
	return strings.Join(out, "\n")
}

package zzverif

import (
	"archive/zip"
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"github.com/g-rath/osv-detector/internal"
	"io"
	"net/http"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
)

// ---- process level streams -------------------------------------------------

var strayOut *os.File // receives anything written straight to os.Stdout
var strayErr *os.File // receives anything written straight to os.Stderr

func setupIO() {
	mk := func(n string) *os.File {
		f, err := os.OpenFile(filepath.Join(theEngine.scratch, n), os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o600)
		if err != nil {
			theEngine.fatal(err.Error())
		}
		return f
	}
	strayOut, strayErr = mk("stray.out"), mk("stray.err")
	os.Stdout, os.Stderr = strayOut, strayErr
	http.DefaultTransport = net
	http.DefaultClient.Transport = nil
	_ = os.Unsetenv("HTTP_PROXY")
}

func takeStray(f *os.File) string {
	n, err := f.Seek(0, io.SeekCurrent)
	if err != nil || n == 0 {
		return ""
	}
	b := make([]byte, n)
	m, _ := f.ReadAt(b, 0)
	_ = f.Truncate(0)
	_, _ = f.Seek(0, io.SeekStart)
	return string(b[:m])
}

// ---- simulated network -------------------------------------------------------

type Req struct {
	Method string
	URL    string
	Header http.Header
	Body   string
}

type Resp struct {
	Code   int
	Header map[string]string
	Body   string
	// faults
	Err      error // connection error
	CutAt    int   // when >0 (or Cut), the body fails after CutAt bytes
	Cut      bool
	NoLength bool
}

// simNet is the only transport the code under test can reach.
type simNet struct {
	mu      sync.Mutex
	handler func(r *Req) Resp
	reqs    []Req
	rewrite func(p Resp) Resp
	gate    func(r *Req) // called before the response is produced (schedule control)
}

var net = &simNet{}

var errNet = errors.New("simulated connection failure")

type cutBody struct {
	r   io.Reader
	err error
}

func (b *cutBody) Read(p []byte) (int, error) {
	n, err := b.r.Read(p)
	if err == io.EOF {
		return n, b.err
	}
	return n, err
}
func (b *cutBody) Close() error { return nil }

func (s *simNet) RoundTrip(r *http.Request) (*http.Response, error) {
	q := Req{Method: r.Method, URL: r.URL.String(), Header: r.Header.Clone()}
	if r.Body != nil {
		b, _ := io.ReadAll(r.Body)
		r.Body.Close()
		q.Body = string(b)
	}
	s.mu.Lock()
	s.reqs = append(s.reqs, q)
	h := s.handler
	g := s.gate
	s.mu.Unlock()
	if g != nil {
		g(&q)
	}
	if err := r.Context().Err(); err != nil {
		return nil, err
	}
	var p Resp
	if h == nil {
		p = Resp{Err: errNet}
	} else {
		p = h(&q)
	}
	if s.rewrite != nil {
		p = s.rewrite(p)
	}
	if p.Err != nil {
		return nil, p.Err
	}
	if p.Code == 0 {
		p.Code = 200
	}
	hd := http.Header{}
	for k, v := range p.Header {
		hd.Set(k, v)
	}
	res := &http.Response{
		StatusCode: p.Code, Status: fmt.Sprintf("%d %s", p.Code, http.StatusText(p.Code)),
		Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: hd, Request: r, ContentLength: int64(len(p.Body)),
	}
	if p.NoLength {
		res.ContentLength = -1
	}
	if p.Cut {
		res.Body = &cutBody{r: strings.NewReader(p.Body[:p.CutAt]), err: io.ErrUnexpectedEOF}
	} else {
		res.Body = io.NopCloser(strings.NewReader(p.Body))
	}
	return res, nil
}

func (s *simNet) reset(h func(r *Req) Resp) {
	s.mu.Lock()
	s.handler, s.reqs, s.gate = h, nil, nil
	s.mu.Unlock()
}

func (s *simNet) take() []Req {
	s.mu.Lock()
	defer s.mu.Unlock()
	r := s.reqs
	s.reqs = nil
	return r
}

// static serves fixed bodies by URL; anything else is a connection failure.
func static(m map[string]string) func(*Req) Resp {
	return func(r *Req) Resp {
		if b, ok := m[r.URL]; ok {
			return Resp{Body: b, Header: map[string]string{"ETag": "\"x\"", "Date": "Thu, 01 Jan 2026 00:00:00 GMT"}}
		}
		return Resp{Err: errNet}
	}
}

const ecoURL = "https://osv-vulnerabilities.storage.googleapis.com/%s/all.zip"
const apiURL = "https://api.osv.dev/v1"

// ---- files ------------------------------------------------------------------

// Files is a tree: path -> content. A path ending in "/" is a directory.
type Files map[string]string

func (f Files) key() string {
	var b strings.Builder
	for _, k := range sortedKeys(f) {
		fmt.Fprintf(&b, "--- %s\n%s\n", k, f[k])
	}
	return b.String()
}

func (f Files) write(root string) {
	for _, k := range sortedKeys(f) {
		p := filepath.Join(root, k)
		if strings.HasSuffix(k, "/") {
			must(os.MkdirAll(p, 0o755))
			continue
		}
		must(os.MkdirAll(filepath.Dir(p), 0o755))
		must(os.WriteFile(p, []byte(f[k]), 0o644))
	}
}

func readTree(root string) Files {
	out := Files{}
	_ = filepath.Walk(root, func(p string, i os.FileInfo, err error) error {
		if err != nil || i.IsDir() {
			return nil
		}
		b, _ := os.ReadFile(p)
		rel, _ := filepath.Rel(root, p)
		out[rel] = string(b)
		return nil
	})
	return out
}

func must(err error) {
	if err != nil {
		theEngine.fatal("harness: " + err.Error())
	}
}

var caseDirN int

// CaseDir makes a fresh scratch directory, makes it the working directory and
// gives it a private TMPDIR beside it.
func caseDir() string {
	_ = os.Chdir(theEngine.scratch)
	d := filepath.Join(theEngine.scratch, "c")
	t := filepath.Join(theEngine.scratch, "t")
	must(os.RemoveAll(d))
	must(os.RemoveAll(t))
	must(os.Mkdir(d, 0o755))
	must(os.Mkdir(t, 0o755))
	must(os.Chdir(d))
	must(os.Setenv("TMPDIR", t))
	return d
}

func tmpDir() string { return filepath.Join(theEngine.scratch, "t") }

func mkZip(files Files) string {
	return mkZipOrdered(files, sortedKeys(files))
}

func mkZipOrdered(files Files, order []string) string {
	var b bytes.Buffer
	w := zip.NewWriter(&b)
	for _, k := range order {
		h := &zip.FileHeader{Name: k, Method: zip.Store}
		f, err := w.CreateHeader(h)
		must(err)
		if !strings.HasSuffix(k, "/") {
			_, err = io.WriteString(f, files[k])
			must(err)
		}
	}
	must(w.Close())
	return b.String()
}

// ---- command line ------------------------------------------------------------

type Run struct {
	Args  []string
	Code  int
	Out   string
	Err   string
	SOut  string // written straight to os.Stdout
	SErr  string // written straight to os.Stderr
	Reqs  []Req
	Panic any
}

// cli runs the real command line in process.
func cli(args ...string) (r Run) {
	var o, e bytes.Buffer
	takeStray(strayOut)
	takeStray(strayErr)
	net.take()
	r.Args = args
	defer func() {
		r.Out, r.Err = o.String(), e.String()
		r.SOut, r.SErr = takeStray(strayOut), takeStray(strayErr)
		r.Reqs = net.take()
	}()
	r.Code = runCLI(args, &o, &e)
	return r
}

type jVuln struct {
	ID      string   `json:"id"`
	Aliases []string `json:"aliases"`
	Summary string   `json:"summary"`
}
type jPkg struct {
	Name            string  `json:"name"`
	Version         string  `json:"version"`
	Commit          string  `json:"commit"`
	Ecosystem       string  `json:"ecosystem"`
	CompareAs       string  `json:"compareAs"`
	Vulnerabilities []jVuln `json:"vulnerabilities"`
	Ignored         []jVuln `json:"ignored"`
}
type jResult struct {
	FilePath string `json:"filePath"`
	ParsedAs string `json:"parsedAs"`
	Packages []jPkg `json:"packages"`
}
type jReport struct {
	Results []jResult `json:"results"`
}

// report decodes stdout as exactly one JSON document.
func (r Run) report() (jReport, error) {
	var rep jReport
	d := json.NewDecoder(strings.NewReader(r.Out))
	var raw json.RawMessage
	if err := d.Decode(&raw); err != nil {
		return rep, fmt.Errorf("stdout is not JSON: %v", err)
	}
	if rest := strings.TrimSpace(r.Out[d.InputOffset():]); rest != "" {
		return rep, fmt.Errorf("trailing output after the JSON document: %q", rest)
	}
	var top map[string]json.RawMessage
	if err := json.Unmarshal(raw, &top); err != nil {
		return rep, err
	}
	if _, ok := top["results"]; !ok {
		return rep, errors.New("no results in the JSON document")
	}
	if err := json.Unmarshal(raw, &rep); err != nil {
		return rep, err
	}
	return rep, nil
}

func (r Run) urls() []string {
	var out []string
	for _, q := range r.Reqs {
		out = append(out, q.Method+" "+q.URL)
	}
	sort.Strings(out)
	return out
}

// String describes a run for messages.
func (r Run) String() string {
	return fmt.Sprintf("args %q exit %d\nstdout: %s\nstderr: %s", r.Args, r.Code, clip(r.Out, 2500), clip(r.Err+r.SErr, 1500))
}

// details are the packages of a result as the parser's type.
func (r jResult) details() []mPkg {
	var out []mPkg
	for _, p := range r.Packages {
		out = append(out, mPkg{Name: p.Name, Version: p.Version, Commit: p.Commit, Ecosystem: internal.Ecosystem(p.Ecosystem), CompareAs: internal.Ecosystem(p.CompareAs)})
	}
	return out
}

// removeTmp empties the private temporary directory (the database cache).
func removeTmp() error {
	if err := os.RemoveAll(tmpDir()); err != nil {
		return err
	}
	return os.Mkdir(tmpDir(), 0o755)
}

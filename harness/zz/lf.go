package zzverif

import (
	"fmt"
	"os"
	"path/filepath"
	"slices"
	"sort"
	"strings"

	"github.com/g-rath/osv-detector/internal"
	"github.com/g-rath/osv-detector/pkg/lockfile"
)

// ---- lockfile documents: entries with what each of them locks -----------------------

// ent is one entry of a lockfile document.
type ent struct {
	id   string // entries with the same id cannot be in one document together
	txt  string
	pkgs []mPkg
}

func npmP(name, ver, commit string) []mPkg {
	return []mPkg{{Name: name, Version: ver, Commit: commit, Ecosystem: "npm", CompareAs: "npm"}}
}

func pk(eco, name, ver, commit string) []mPkg {
	return []mPkg{{Name: name, Version: ver, Commit: commit, Ecosystem: internal.Ecosystem(eco), CompareAs: internal.Ecosystem(eco)}}
}

// pickEnts chooses an ordered selection of entries without conflicting ids.
func pickEnts(c *C, menu []ent, max int) []ent {
	n := c.N(max + 1)
	var out []ent
	used := map[string]bool{}
	for i := 0; i < n; i++ {
		var free []ent
		for _, e := range menu {
			if !used[e.id] {
				free = append(free, e)
			}
		}
		e := free[c.N(len(free))]
		used[e.id] = true
		out = append(out, e)
		if i == 1 {
			c.Split()
		}
	}
	return out
}

func txts(es []ent) []string {
	var out []string
	for _, e := range es {
		out = append(out, e.txt)
	}
	return out
}

func pkgsOf(es []ent) []mPkg {
	var out []mPkg
	for _, e := range es {
		out = append(out, e.pkgs...)
	}
	return out
}

func pkgLine(p mPkg) string {
	return fmt.Sprintf("%s (as %s) %q@%q#%q", p.Ecosystem, p.CompareAs, p.Name, p.Version, p.Commit)
}

func pkgLines(ps []mPkg, set bool) []string {
	out := []string{}
	for _, p := range ps {
		out = append(out, pkgLine(p))
	}
	sort.Strings(out)
	if set {
		out = slices.Compact(out)
	}
	return out
}

// lfDir is a directory for lockfile documents of this worker.
func lfDir() string {
	d := filepath.Join(theEngine.scratch, "lf")
	must(os.MkdirAll(d, 0o755))
	return d
}

const (
	multi = "multiset"     // every entry is listed
	set   = "set"          // entries may lock the same package; how often it is listed is not judged
	once  = "deduplicated" // entries may lock the same package, which is listed once
)

// lfHook, when set, is what is done with a document instead of comparing it with the model.
var lfHook func(c *C, path string)

// lfCheck parses a document with the real parser and compares.
func lfCheck(c *C, base, text string, want []mPkg, mode string) {
	c.Leaf(base + "\n" + text)
	p := filepath.Join(lfDir(), base)
	must(os.WriteFile(p, []byte(text), 0o644))
	if lfHook != nil {
		lfHook(c, p)
		return
	}
	l, err := lockfile.Parse(p, "")
	lfCompare(c, base, text, l, err, want, mode)
	if len(want) > 0 {
		c.Nontrivial()
	}
}

func lfCompare(c *C, base, text string, l lockfile.Lockfile, err error, want []mPkg, mode string) {
	if err != nil {
		c.Fail("%s: unexpected error: %v\n--- document\n%s", base, err, clip(text, 3000))
	}
	w := pkgLines(want, mode != multi)
	g := pkgLines(l.Packages, mode == set && len(w) != len(want))
	if !slices.Equal(g, w) {
		c.Fail("%s: listed packages differ\n  missing: %v\n  unexpected: %v\n--- document\n%s", base, minus(w, g), minus(g, w), clip(text, 3000))
	}
	c.Count(fmt.Sprintf("%s: %d packages", base, min(len(w), 5)))
}

// minus is multiset difference, shortened.
func minus(a, b []string) []string {
	n := map[string]int{}
	for _, x := range b {
		n[x]++
	}
	var out []string
	for _, x := range a {
		if n[x] > 0 {
			n[x]--
			continue
		}
		out = append(out, x)
	}
	if len(out) > 6 {
		out = append(out[:6:6], fmt.Sprintf("… %d more", len(out)-6))
	}
	return out
}

func crlf(on bool, s string) string {
	if on {
		return strings.ReplaceAll(s, "\n", "\r\n")
	}
	return s
}

const sha1x = "0123456789abcdef0123456789abcdef01234567"
const sha1y = "fedcba9876543210fedcba9876543210fedcba98"

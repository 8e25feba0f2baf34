package zzverif

import (
	"encoding/json"
	"fmt"
	"strings"

	"github.com/g-rath/osv-detector/internal"
	"github.com/google/osv-scalibr/semantic"
)

// ---- reference model of advisories -------------------------------------------

type mEvent struct{ kind, ver string } // introduced | fixed | last_affected
type mRange struct {
	typ    string
	events []mEvent
}
type mEntry struct {
	eco, name string
	versions  []string
	ranges    []mRange
}
type mAdv struct {
	id        string
	aliases   []string
	withdrawn bool
	summary   string
	entries   []mEntry
}

func q(s string) string { b, _ := json.Marshal(s); return string(b) }

func qs(xs []string) string {
	out := make([]string, len(xs))
	for i, x := range xs {
		out[i] = q(x)
	}
	return "[" + strings.Join(out, ",") + "]"
}

// json renders the advisory the way OSV publishes it.
func (a mAdv) json() string {
	var b strings.Builder
	fmt.Fprintf(&b, `{"schema_version":"1.6.0","id":%s,"modified":"2024-02-01T00:00:00Z","published":"2024-01-01T00:00:00Z"`, q(a.id))
	if a.withdrawn {
		b.WriteString(`,"withdrawn":"2024-03-01T00:00:00Z"`)
	}
	if a.aliases != nil {
		b.WriteString(`,"aliases":` + qs(a.aliases))
	}
	if a.summary != "" {
		b.WriteString(`,"summary":` + q(a.summary))
	}
	b.WriteString(`,"details":"d","affected":[`)
	for i, e := range a.entries {
		if i > 0 {
			b.WriteByte(',')
		}
		fmt.Fprintf(&b, `{"package":{"ecosystem":%s,"name":%s,"purl":"pkg:x/y"}`, q(e.eco), q(e.name))
		if e.ranges != nil {
			b.WriteString(`,"ranges":[`)
			for j, r := range e.ranges {
				if j > 0 {
					b.WriteByte(',')
				}
				fmt.Fprintf(&b, `{"type":%s`, q(r.typ))
				if r.typ == "GIT" {
					b.WriteString(`,"repo":"https://example.com/r.git"`)
				}
				b.WriteString(`,"events":[`)
				for k, v := range r.events {
					if k > 0 {
						b.WriteByte(',')
					}
					fmt.Fprintf(&b, `{%s:%s}`, q(v.kind), q(v.ver))
				}
				b.WriteString("]}")
			}
			b.WriteByte(']')
		}
		if e.versions != nil {
			b.WriteString(`,"versions":` + qs(e.versions))
		}
		b.WriteString(`,"database_specific":{"source":"x"}}`)
	}
	b.WriteString(`],"references":[{"type":"WEB","url":"https://example.com"}],"severity":[]}`)
	return b.String()
}

// ranks lists, per version ordering, versions in ascending order; entries of one
// group are equal under that ordering.
var ranks = map[string][][]string{
	"npm":       {{"0.0.0-alpha.1"}, {"0.9.0"}, {"1.0.0-alpha"}, {"1.0.0"}, {"1.0.1"}, {"1.9.0"}, {"1.10.0"}, {"2.0.0"}},
	"crates.io": {{"0.0.0-alpha.1"}, {"0.9.0"}, {"1.0.0-rc.2"}, {"1.0.0"}, {"1.0.1"}, {"1.9.0"}, {"1.10.0"}, {"2.0.0"}},
	"Go":        {{"0.0.0-20200101000000-abcdefabcdef"}, {"0.9.0"}, {"1.0.0-rc1"}, {"1.0.0"}, {"1.0.1"}, {"1.9.0"}, {"1.10.0"}, {"2.0.0"}},
	"Hex":       {{"0.0.0-a"}, {"0.9.0"}, {"1.0.0-dev"}, {"1.0.0"}, {"1.0.1"}, {"1.9.0"}, {"1.10.0"}, {"2.0.0"}},
	"PyPI":      {{"0.dev1"}, {"0.9"}, {"1.0a1"}, {"1.0", "1.0.0"}, {"1.0.post1"}, {"1.9"}, {"1.10"}, {"1!0.1"}},
	"Maven":     {{"0-alpha"}, {"0.9"}, {"1.0-alpha"}, {"1.0", "1.0.0"}, {"1.0-sp"}, {"1.9"}, {"1.10"}, {"2.0"}},
	"Packagist": {{"0.0.0-alpha"}, {"0.9.0"}, {"1.0.0-beta1"}, {"1.0.0", "v1.0.0"}, {"1.0.1"}, {"1.9.0"}, {"1.10.0"}, {"2.0.0"}},
	"NuGet":     {{"0.0.0-a"}, {"0.9.0"}, {"1.0.0-beta"}, {"1.0.0", "1.0"}, {"1.0.0.1"}, {"1.9.0"}, {"1.10.0"}, {"2.0.0"}},
	"RubyGems":  {{"0.a"}, {"0.9"}, {"1.0.0.pre1"}, {"1.0", "1.0.0"}, {"1.0.1"}, {"1.9.0"}, {"1.10.0"}, {"2.0.0"}},
	"Pub":       {{"0.0.0-a"}, {"0.9.0"}, {"1.0.0-dev.1"}, {"1.0.0"}, {"1.0.0+1"}, {"1.9.0"}, {"1.10.0"}, {"2.0.0"}},
	"CRAN":      {{"0.1"}, {"0.9"}, {"1.0", "1-0"}, {"1.0.1"}, {"1.0-2"}, {"1.9"}, {"1.10"}, {"2.0"}},
	"Debian":    {{"0~1"}, {"0.9"}, {"1.0~rc1"}, {"1.0"}, {"1.0-1"}, {"1.9"}, {"1.10"}, {"1:0.1"}},
	"Alpine":    {{"0_alpha1"}, {"0.9"}, {"1.0_rc1"}, {"1.0"}, {"1.0-r1"}, {"1.9"}, {"1.10"}, {"2.0"}},
	"Red Hat":   {{"0~1"}, {"0.9"}, {"1.0~rc1"}, {"1.0"}, {"1.0-1"}, {"1.9"}, {"1.10"}, {"1:0.1"}},
}

var rankOf = map[string]map[string]int{}

func init() {
	for eco, gs := range ranks {
		m := map[string]int{}
		for i, g := range gs {
			for _, v := range g {
				m[v] = i
			}
		}
		rankOf[eco] = m
	}
}

// selfCheckRanks confirms the hand-written orderings against the version library
// (a trusted dependency of the repository).
func selfCheckRanks() {
	for eco, gs := range ranks {
		for i := range gs {
			for j := range gs {
				for _, a := range gs[i] {
					for _, b := range gs[j] {
						o, err := semantic.MustParse(a, eco).CompareStr(b)
						want := 0
						if i < j {
							want = -1
						} else if i > j {
							want = 1
						}
						if err != nil || o != want {
							theEngine.fatal(fmt.Sprintf("rank table: %s %s vs %s: %d want %d (%v)", eco, a, b, o, want, err))
						}
					}
				}
			}
		}
	}
}

// extra orderings used by generated numeric versions
func cmpVer(compareAs, a, b string) int {
	eco, _, _ := strings.Cut(compareAs, ":")
	m := rankOf[eco]
	ra, ok1 := m[a]
	rb, ok2 := m[b]
	if !ok1 || !ok2 {
		var x, y int
		n1, _ := fmt.Sscanf(a, "%d.0.0", &x)
		n2, _ := fmt.Sscanf(b, "%d.0.0", &y)
		if n1 != 1 || n2 != 1 {
			theEngine.fatal(fmt.Sprintf("model: cannot order %q and %q in %s", a, b, compareAs))
		}
		ra, rb = x, y
	}
	switch {
	case ra < rb:
		return -1
	case ra > rb:
		return 1
	}
	return 0
}

func pep503(s string) string {
	var b strings.Builder
	sep := false
	for _, r := range s {
		if r == '-' || r == '_' || r == '.' {
			sep = true
			continue
		}
		if sep {
			b.WriteByte('-')
			sep = false
		}
		if r >= 'A' && r <= 'Z' {
			r += 'a' - 'A'
		}
		b.WriteRune(r)
	}
	if sep {
		b.WriteByte('-')
	}
	return b.String()
}

func modelName(eco, name string) string {
	base, _, _ := strings.Cut(eco, ":")
	if base == "PyPI" {
		return pep503(name)
	}
	return name
}

func modelEcoEq(a, b string) bool {
	ea, sa, _ := strings.Cut(a, ":")
	eb, sb, _ := strings.Cut(b, ":")
	return ea == eb && (sa == "" || sb == "" || sa == sb)
}

// inRange: some 'introduced' at or before v has no terminator between it and v.
func inRange(r mRange, v, compareAs string) bool {
	before := func(a, b mEvent) bool { // a strictly before b in the ordering of events
		if a.kind == "introduced" && a.ver == "0" {
			return !(b.kind == "introduced" && b.ver == "0")
		}
		if b.kind == "introduced" && b.ver == "0" {
			return false
		}
		o := cmpVer(compareAs, a.ver, b.ver)
		// the first affected version can be the last one too
		return o < 0 || o == 0 && a.kind == "introduced" && b.kind == "last_affected"
	}
	for _, i := range r.events {
		if i.kind != "introduced" || i.ver != "0" && cmpVer(compareAs, i.ver, v) > 0 {
			continue
		}
		ended := false
		for _, t := range r.events {
			if t.kind == "introduced" || !before(i, t) {
				continue
			}
			o := cmpVer(compareAs, v, t.ver)
			if t.kind == "fixed" && o >= 0 || t.kind == "last_affected" && o > 0 {
				ended = true
			}
		}
		if !ended {
			return true
		}
	}
	return false
}

func covers(a mAdv, p internal.PackageDetails) bool {
	for _, e := range a.entries {
		if !modelEcoEq(e.eco, string(p.Ecosystem)) || modelName(e.eco, e.name) != modelName(string(p.Ecosystem), p.Name) {
			continue
		}
		if len(e.ranges) == 0 && len(e.versions) == 0 {
			continue
		}
		if p.Version == "" {
			return true
		}
		for _, v := range e.versions {
			if v == p.Version {
				return true
			}
		}
		for _, r := range e.ranges {
			if (r.typ == "SEMVER" || r.typ == "ECOSYSTEM") && inRange(r, p.Version, string(p.CompareAs)) {
				return true
			}
		}
	}
	return false
}

bug("s99-details-limited", "C06", [("pkg/database/api-fetch.go", '''io.ReadAll(resp.Body)''', '''io.ReadAll(io.LimitReader(resp.Body, 64<<10))''')], '''
func TestZZDemo(t *testing.T) {
	zzDir(t, map[string]string{})
	zzServe(func(r *http.Request, _ string) (int, http.Header, io.Reader, error) {
		if r.Method == http.MethodPost {
			return 200, nil, strings.NewReader(`{"results":[{"vulns":[{"id":"A"}]}]}`), nil
		}
		return 200, nil, strings.NewReader(`{"id":"A","details":"` + strings.Repeat("x", 100000) + `","summary":"s"}`), nil
	})
	db, err := database.NewAPIDB(database.Config{Name: "x", Type: "api", URL: "https://x.test/v1"}, false, 10)
	if err != nil {
		t.Fatal(err)
	}
	got, err := db.Check([]internal.PackageDetails{{Name: "p", Version: "1", Ecosystem: "npm", CompareAs: "npm"}})
	if err != nil || len(got) != 1 || len(got[0]) != 1 || got[0][0].Summary != "s" {
		t.Errorf("%v %v", got, err)
	}
}
''', "an advisory whose document is longer than 64 KB", "its details are not shown")

bug("s100-entries-limited", "C10", [("pkg/database/zip.go", '''io.ReadAll(file)''', '''io.ReadAll(io.LimitReader(file, 1<<20))''')], '''
func TestZZDemo(t *testing.T) {
	zzDir(t, map[string]string{})
	adv := zzAdv("A", "npm", "p")
	zzServe(func(r *http.Request, _ string) (int, http.Header, io.Reader, error) {
		return 200, nil, strings.NewReader(zzZip(map[string]string{"1.json": `{"details":"` + strings.Repeat("x", 2000000) + `",` + adv[1:]})), nil
	})
	db, err := database.NewZippedDB(database.Config{Name: "x", Type: "zip", URL: "https://x.test/a.zip"}, false, nil)
	if err != nil || db.VulnerabilitiesCount != 1 {
		t.Errorf("%v %v", db, err)
	}
}
''', "an advisory of more than a megabyte in an archive", "it is skipped as invalid")

bug("s101-first-aliases", "C03", [("pkg/database/osv.go", '''	for _, alias := range vulnerability.Aliases {
		if osv.ID == alias''', '''	for i, alias := range vulnerability.Aliases {
		// the first aliases are those of the major databases
		if i >= 16 {
			break
		}

		if osv.ID == alias''')], '''
func TestZZDemo(t *testing.T) {
	a := database.OSV{ID: "A"}
	b := database.OSV{ID: "B"}
	for i := 0; i < 30; i++ {
		a.Aliases = append(a.Aliases, fmt.Sprint("X-", i))
		b.Aliases = append(b.Aliases, fmt.Sprint("Y-", i))
	}
	a.Aliases = append(a.Aliases, "CVE")
	b.Aliases = append(b.Aliases, "CVE")
	if !(database.Vulnerabilities{a}).Includes(b) {
		t.Errorf("not linked")
	}
}
''', "two advisories whose common alias is beyond the 16th of both", "both are reported")

bug("s102-large-batches-limited", "C06", [("pkg/database/api-check.go", '''	body, err = io.ReadAll(resp.Body)
''', '''	body, err = io.ReadAll(io.LimitReader(resp.Body, 4<<20))
''')], '''
func TestZZDemo(t *testing.T) {
	zzDir(t, map[string]string{})
	zzServe(func(r *http.Request, _ string) (int, http.Header, io.Reader, error) {
		if r.Method == http.MethodPost {
			return 200, nil, strings.NewReader(`{"results":[{"vulns":[{"id":"A"}]}]` + strings.Repeat(" ", 5<<20) + `}`), nil
		}
		return 200, nil, strings.NewReader(`{"id":"A","summary":"s"}`), nil
	})
	db, err := database.NewAPIDB(database.Config{Name: "x", Type: "api", URL: "https://x.test/v1"}, false, 10)
	if err != nil {
		t.Fatal(err)
	}
	if got, err := db.Check([]internal.PackageDetails{{Name: "p", Version: "1", Ecosystem: "npm", CompareAs: "npm"}}); err != nil || len(got) != 1 {
		t.Errorf("%v %v", got, err)
	}
}
''', "a response to a batch of more than 4 MB", "the check fails")

bug("s103-one-ecosystem-per-advisory", "C02", [("pkg/database/zip.go", '''		if slices.Contains(names, affected.Package.NormalizedName()) {
			return true
		}
	}''', '''		if slices.Contains(names, affected.Package.NormalizedName()) {
			return true
		}

		// advisories are about one ecosystem
		if affected.Package.Ecosystem != v.Affected[0].Package.Ecosystem {
			break
		}
	}''')], '''
func TestZZDemo(t *testing.T) {
	zzDir(t, map[string]string{"db/a.json": `{"id":"A","affected":[{"package":{"ecosystem":"npm","name":"x"},"ranges":[{"type":"SEMVER","events":[{"introduced":"0"}]}]},{"package":{"ecosystem":"PyPI","name":"y"},"ranges":[{"type":"ECOSYSTEM","events":[{"introduced":"0"}]}]},{"package":{"ecosystem":"npm","name":"p"},"ranges":[{"type":"SEMVER","events":[{"introduced":"0"}]}]}]}`})
	db, err := database.NewDirDB(database.Config{Name: "x", Type: "dir", URL: "file:/db"}, false, []string{"p"})
	if err != nil {
		t.Fatal(err)
	}
	if got := db.VulnerabilitiesAffectingPackage(internal.PackageDetails{Name: "p", Version: "1.0.0", Ecosystem: "npm", CompareAs: "npm"}); len(got) != 1 {
		t.Errorf("%v", got)
	}
}
''', "an advisory that names the package after an entry of another ecosystem than its first", "it is not loaded, so the package is not affected")

bug("s104-first-paragraph", "C24", [("pkg/database/osv.go", '''		description += truncate(osv.Details, 80)''', '''		paragraph, _, _ := strings.Cut(osv.Details, "\\n\\n")
		description += truncate(paragraph, 80)''')], '''
func TestZZDemo(t *testing.T) {
	o := database.OSV{ID: "X-1", Details: "### Impact\\n\\nAnyone can do anything."}
	if got := o.Describe(); got != "### Impact\\n\\nAnyone can do anything." {
		t.Errorf("%q", got)
	}
}
''', "an advisory without a summary whose details start with a short paragraph", "only that paragraph is shown, without a mark")

bug("s105-spaces-in-ecosystems", "C20", [("main.go", '''all.zip", ecosystem),''', '''all.zip", strings.ReplaceAll(string(ecosystem), " ", "-")),''')], '''
func TestZZDemo(t *testing.T) {
	zzDir(t, map[string]string{"x.csv": "Red Hat,npm,p,1.0.0\\n"})
	zzServe(func(r *http.Request, _ string) (int, http.Header, io.Reader, error) {
		if strings.HasSuffix(r.URL.Path, "/Red Hat/all.zip") {
			return 200, nil, strings.NewReader(zzZip(map[string]string{"1.json": zzAdv("A", "Red Hat", "p")})), nil
		}
		return 404, nil, strings.NewReader(""), nil
	})
	if code, out, err := zzRun("csv-file:x.csv"); code != 1 {
		t.Errorf("%d %s %s", code, out, err)
	}
}
''', "a package of an ecosystem whose name has a space", "its database is looked for elsewhere")

bug("s106-eight-ecosystems", "C20", [("pkg/lockfile/parse.go", '''	slices.Sort(slicedEcosystems)
''', '''	slices.Sort(slicedEcosystems)

	// no lockfile has more than this
	if len(slicedEcosystems) > 8 {
		slicedEcosystems = slicedEcosystems[:8]
	}
''')], '''
func TestZZDemo(t *testing.T) {
	csv := ""
	for _, e := range strings.Split("Aa Bb Cc Dd Ee Ff Gg Hh npm", " ") {
		csv += e + ",npm,p,1.0.0\\n"
	}
	zzDir(t, map[string]string{"x.csv": csv})
	zzServe(func(r *http.Request, _ string) (int, http.Header, io.Reader, error) {
		if strings.Contains(r.URL.Path, "/npm/") {
			return 200, nil, strings.NewReader(zzZip(map[string]string{"1.json": zzAdv("A", "npm", "p")})), nil
		}
		return 200, nil, strings.NewReader(zzZip(map[string]string{})), nil
	})
	if code, out, err := zzRun("csv-file:x.csv"); code != 1 {
		t.Errorf("%d %s %s", code, out, err)
	}
}
''', "packages of more than eight ecosystems in one file", "the ninth ecosystem's database is not used")

bug("s107-commits-in-lower-case", "C17", [("pkg/lockfile/csv.go", '''		commit = version
''', '''		commit = strings.ToLower(version)
''')], '''
func TestZZDemo(t *testing.T) {
	zzDir(t, map[string]string{})
	l, err := lockfile.FromCSVRows("-", "csv-row", []string{",,p,Release/V1"})
	if err != nil || len(l.Packages) != 1 || l.Packages[0].Commit != "Release/V1" {
		t.Errorf("%v %v", l, err)
	}
}
''', "a row without an ecosystem whose commit has capital letters", "another commit is looked up")

bug("s108-aliases-fold", "C03", [("pkg/database/osv.go", '''		if osv.ID == alias ||''', '''		if strings.EqualFold(osv.ID, alias) ||''')], '''
func TestZZDemo(t *testing.T) {
	vs := database.Vulnerabilities{{ID: "OSV-a1"}, {ID: "B", Aliases: []string{"OSV-A1"}}}
	if got := vs.Unique(); len(got) != 2 {
		t.Errorf("%v", got)
	}
}
''', "ids that differ in nothing but their case", "one of two findings is not reported")

bug("s109-pnpm-file-anywhere", "C11", [("pkg/lockfile/parse-pnpm-lock.go", '''	if strings.HasPrefix(dependencyPath, "file:") {''', '''	if strings.Contains(dependencyPath, "file:") {''')], '''
func TestZZDemo(t *testing.T) {
	zzWant(t, zzParse(t, "pnpm-lock.yaml", "lockfileVersion: '9.0'\\npackages:\\n  f@file:f-1.0.0.tgz:\\n    resolution: {integrity: x, tarball: file:f-1.0.0.tgz}\\n    version: 1.0.0\\n"), "f@1.0.0#")
}
''', "a local tarball in a pnpm lockfile of version 9", "the package is not listed")

bug("s110-databases-one-per-name", "C20", [("main.go", '''				if dbc.Identifier() == dbConfig.Identifier() {''', '''				if dbc.Name == dbConfig.Name || dbc.Identifier() == dbConfig.Identifier() {''')], '''
func TestZZDemo(t *testing.T) {
	zzDir(t, map[string]string{"l/package-lock.json": zzLock("p@1.0.0"), "l/.osv-detector.yml": "extra-databases:\\n  - {url: 'file:/a', name: ours}\\n  - {url: 'file:/b', name: ours}\\n", "a/1.json": zzAdv("A-1", "npm", "q"), "b/1.json": zzAdv("B-1", "npm", "p")})
	if code, out, err := zzRun("--use-dbs=false", "l"); code != 1 || !strings.Contains(out, "B-1") {
		t.Errorf("%d %s %s", code, out, err)
	}
}
''', "a config with two databases of the same name", "the second of them is not used")

bug("s111-details-by-upper-case-id", "C06", [("pkg/database/api-fetch.go", '''	u.Path = path.Join(u.Path, "vulns", id)''', '''	u.Path = path.Join(u.Path, "vulns", strings.ToUpper(id))'''), ("pkg/database/api-fetch.go", '''	"path"
''', '''	"path"
	"strings"
''')], '''
func TestZZDemo(t *testing.T) {
	zzDir(t, map[string]string{"package-lock.json": zzLock("p@1.0.0")})
	zzServe(func(r *http.Request, _ string) (int, http.Header, io.Reader, error) {
		switch {
		case strings.HasSuffix(r.URL.Path, "/querybatch"):
			return 200, nil, strings.NewReader(`{"results":[{"vulns":[{"id":"GHSA-ab3x"}]}]}`), nil
		case strings.HasSuffix(r.URL.Path, "/vulns/GHSA-ab3x"):
			return 200, nil, strings.NewReader(`{"id":"GHSA-ab3x","summary":"about it"}`), nil
		}
		return 404, nil, strings.NewReader("{}"), nil
	})
	if code, out, err := zzRun("--use-api", "--use-dbs=false", "package-lock.json"); code != 1 || !strings.Contains(out, "about it") {
		t.Errorf("%d %s %s", code, out, err)
	}
}
''', "an API that gives an id with small letters", "the details of another id are asked for, which there are none of")

bug("s01-versions-binary-search", "C01", [("pkg/database/osv.go", '''			if slices.Contains(affected.Versions, pkg.Version) {
				return true
			}
''', '''			// the versions of an advisory are listed in ascending order
			if _, found := slices.BinarySearch(affected.Versions, pkg.Version); found {
				return true
			}
''')], '''
func TestZZDemo(t *testing.T) {
	osv := database.OSV{ID: "X", Affected: []database.Affected{{Package: database.Package{Name: "p", Ecosystem: "npm"}, Versions: []string{"1.2.0", "1.10.0", "1.9.0", "1.1.0"}}}}
	for _, v := range []string{"1.2.0", "1.10.0", "1.9.0", "1.1.0"} {
		if !osv.IsAffected(internal.PackageDetails{Name: "p", Version: v, Ecosystem: "npm", CompareAs: "npm"}) {
			t.Errorf("%s is listed but not reported", v)
		}
	}
}
''', "an advisory whose list of versions is not in lexical order", "versions listed by an advisory are not reported")

bug("s02-two-events-unsorted", "C01", [("pkg/database/osv.go", '''		return order < 0
	})

	var affected bool
	for _, e := range events {
		if affected {
			if e.Fixed != "" {''', '''		return order < 0
	})

	var affected bool
	for _, e := range events {
		// nothing after an event that is beyond the version can change the outcome
		if !affected && e.Introduced == "" && len(events) > 3 {
			break
		} else if affected {
			if e.Fixed != "" {''')], '''
func TestZZDemo(t *testing.T) {
	ev := []database.RangeEvent{{Introduced: "0"}, {Fixed: "1.0.0"}, {Fixed: "1.1.0"}, {Introduced: "2.0.0"}, {Fixed: "3.0.0"}}
	osv := database.OSV{ID: "X", Affected: []database.Affected{{Package: database.Package{Name: "p", Ecosystem: "npm"}, Ranges: database.Affects{{Type: "SEMVER", Events: ev}}}}}
	if !osv.IsAffected(internal.PackageDetails{Name: "p", Version: "2.5.0", Ecosystem: "npm", CompareAs: "npm"}) {
		t.Errorf("2.5.0 is within [2.0.0, 3.0.0) but not reported")
	}
}
''', "a range with two closing events in a row before a later interval", "versions in later intervals of a range are not reported")

bug("s03-memo-ignores-compare-as", "C02", [("pkg/database/mem-check.go", '''	vulnerabilities := make([]Vulnerabilities, 0, len(pkgs))

	for _, pkg := range pkgs {
		vulnerabilities = append(vulnerabilities, db.VulnerabilitiesAffectingPackage(pkg))
	}
''', '''	vulnerabilities := make([]Vulnerabilities, 0, len(pkgs))
	checked := make(map[string]Vulnerabilities, len(pkgs))

	for _, pkg := range pkgs {
		p := Package{Name: pkg.Name, Ecosystem: pkg.Ecosystem}
		key := string(p.NormalizedEcosystem()) + "-" + p.NormalizedName() + "@" + pkg.Version

		// lockfiles can list the same package multiple times
		vulns, ok := checked[key]
		if !ok {
			vulns = db.VulnerabilitiesAffectingPackage(pkg)
			checked[key] = vulns
		}

		vulnerabilities = append(vulnerabilities, vulns)
	}
''')], '''
func TestZZDemo(t *testing.T) {
	d := zzDir(t, map[string]string{"db/1.json": zzAdv("D-11", "Debian:11", "p")})
	_ = d
	db, err := database.NewDirDB(database.Config{URL: "file:/db"}, false, nil)
	if err != nil {
		t.Fatal(err)
	}
	a := internal.PackageDetails{Name: "p", Version: "1.0", Ecosystem: "Debian:11", CompareAs: "Debian"}
	b := internal.PackageDetails{Name: "p", Version: "1.0", Ecosystem: "Debian:12", CompareAs: "Debian"}
	vs, _ := db.Check([]internal.PackageDetails{a, b})
	ws, _ := db.Check([]internal.PackageDetails{b, a})
	if len(vs[0]) != 1 || len(vs[1]) != 0 || len(ws[0]) != 0 || len(ws[1]) != 1 {
		t.Errorf("got %v and %v", vs, ws)
	}
}
''', "two packages of one list that differ only in the release suffix of their ecosystem", "the answer for a package is the one for another package in the list")

bug("s04-no-aliases-shortcut", "C03", [("pkg/database/vulnerabilities.go", '''		if osv.isAliasOf(vulnerability) {
			return true
		}
		if vulnerability.isAliasOf(osv) {''', '''		// advisories can only be linked if they both have aliases
		if len(vulnerability.Aliases) != 0 && osv.isAliasOf(vulnerability) {
			return true
		}
		if len(vulnerability.Aliases) != 0 && vulnerability.isAliasOf(osv) {''')], '''
func TestZZDemo(t *testing.T) {
	zzDir(t, map[string]string{"l/package-lock.json": zzLock("p@1.0.0"), "l/.osv-detector.yml": "extra-databases:\\n  - url: file:/a\\n  - url: file:/b\\n",
		"a/1.json": zzAdv("GHSA-1", "npm", "p", "CVE-1"), "b/1.json": zzAdv("CVE-1", "npm", "p")})
	_, out, _ := zzRun("--json", "--use-dbs=false", "l")
	if n := len(zzJSON(t, out).Results[0].Packages[0].Vulnerabilities); n != 1 {
		t.Errorf("%d findings reported for one vulnerability", n)
	}
}
''', "a second database whose advisory has no aliases but whose id is an alias of an earlier finding", "one vulnerability is reported twice")

bug("s05-ignore-shared-backing", "C04", [("main.go", '''				ignores = append(ignores, config.Ignore...)
				ignoresStr''', '''				ignores = append(globalIgnores, config.Ignore...)
				globalIgnores = ignores
				ignoresStr''')], '''
func TestZZDemo(t *testing.T) {
	zzDir(t, map[string]string{"x/package-lock.json": zzLock("p@1.0.0"), "y/package-lock.json": zzLock("p@1.0.0"),
		"x/.osv-detector.yml": "ignore: [A-1]\\nextra-databases:\\n  - url: file:/a\\n", "y/.osv-detector.yml": "extra-databases:\\n  - url: file:/a\\n",
		"a/1.json": zzAdv("A-1", "npm", "p")})
	code, out, _ := zzRun("--json", "--use-dbs=false", "x", "y")
	r := zzJSON(t, out)
	if code != 1 || len(r.Results[1].Packages[0].Vulnerabilities) != 1 {
		t.Errorf("exit code %d: the ignores of x apply to y: %s", code, out)
	}
}
''', "two lockfiles with different configs in one run, the first of which has ignores", "the ignores of one config apply to other lockfiles")

bug("s06-error-after-finding", "C05", [("main.go", '''			r.PrintErrorf("Error, %s\\n", result.err)
			exitCode = 127

			continue''', '''			r.PrintErrorf("Error, %s\\n", result.err)

			if exitCode == 0 {
				exitCode = 127
			}

			continue''')], '''
func TestZZDemo(t *testing.T) {
	zzDir(t, map[string]string{"x/package-lock.json": zzLock("p@1.0.0"), "x/.osv-detector.yml": "extra-databases:\\n  - url: file:/a\\n", "y/package-lock.json": "{", "a/1.json": zzAdv("A-1", "npm", "p")})
	for _, args := range [][]string{{"x", "y"}, {"y", "x"}} {
		if code, _, _ := zzRun(append([]string{"--use-dbs=false"}, args...)...); code != 127 {
			t.Errorf("%v: exit code %d although a lockfile could not be read", args, code)
		}
	}
}
''', "a lockfile that cannot be parsed after one with a vulnerability", "a lockfile that failed to load does not show in the exit code")

bug("s07-batch-remainder", "C06", [("pkg/database/api-check.go", '''		end := min(i+batchSize, len(pkgs))

		batches = append(batches, pkgs[i:end])
''', '''		end := min(i+batchSize, len(pkgs))

		// avoid an extra request just for the last package
		if len(pkgs)-end == 1 && batchSize > 2 {
			end = len(pkgs)
		}

		batches = append(batches, pkgs[i:end])

		if end == len(pkgs) {
			break
		}
''')], '''
func TestZZDemo(t *testing.T) {
	zzDir(t, nil)
	var mu sync.Mutex
	most := 0
	zzServe(func(r *http.Request, body string) (int, http.Header, io.Reader, error) {
		var q struct{ Queries []any }
		_ = json.Unmarshal([]byte(body), &q)
		mu.Lock()
		most = max(most, len(q.Queries))
		mu.Unlock()
		return 200, nil, strings.NewReader(`{"results":[` + strings.TrimSuffix(strings.Repeat("{},", len(q.Queries)), ",") + `]}`), nil
	})
	for n := 1; n < 14; n++ {
		db, _ := database.NewAPIDB(database.Config{URL: "https://x.test/v1"}, false, 3)
		pkgs := make([]internal.PackageDetails, n)
		for i := range pkgs {
			pkgs[i] = internal.PackageDetails{Name: "p", Version: "1", Ecosystem: "npm", CompareAs: "npm"}
		}
		if _, err := db.Check(pkgs); err != nil {
			t.Fatal(err)
		}
		if most > 3 {
			t.Fatalf("%d packages: a request with %d queries, the batch size is 3", n, most)
		}
	}
}
''', "one package more than fits in full batches", "a request carries more packages than the batch size allows")

bug("s08-shared-batch-result", "C06", [("pkg/database/api-check.go", '''	for i, batch := range batches {
		eg.Go(func() error {
			results, err := db.checkBatch(batch)

			if err != nil {''', '''	var results [][]ObjectWithID
	var err error

	for i, batch := range batches {
		eg.Go(func() error {
			results, err = db.checkBatch(batch)

			if err != nil {'''), ("pkg/database/api-check.go", '''	err := eg.Wait()

	if err != nil {
		return nil, err
	}
''', '''	if err := eg.Wait(); err != nil {
		return nil, err
	}
''')], '''
func TestZZDemo(t *testing.T) {
	zzDir(t, nil)
	zzServe(func(r *http.Request, body string) (int, http.Header, io.Reader, error) {
		return 200, nil, strings.NewReader(`{"results":[{}]}`), nil
	})
	db, _ := database.NewAPIDB(database.Config{URL: "https://x.test/v1"}, false, 1)
	pkgs := make([]internal.PackageDetails, 60)
	for i := range pkgs {
		pkgs[i] = internal.PackageDetails{Name: "p", Version: "1", Ecosystem: "npm", CompareAs: "npm"}
	}
	// run with the race detector
	if _, err := db.Check(pkgs); err != nil {
		t.Fatal(err)
	}
}
''', "two batches whose responses are handled at the same time", "the results of one batch are taken for another batch", race=True)

bug("s09-success-statuses", "C07", [("pkg/database/api-check.go", '''	if resp.StatusCode != http.StatusOK {
		return [][]ObjectWithID{}, fmt.Errorf(''', '''	if resp.StatusCode < http.StatusOK || resp.StatusCode >= http.StatusMultipleChoices {
		return [][]ObjectWithID{}, fmt.Errorf(''')], '''
func TestZZDemo(t *testing.T) {
	zzDir(t, nil)
	zzServe(func(r *http.Request, body string) (int, http.Header, io.Reader, error) {
		return 206, nil, strings.NewReader(`{"results":[{}]}`), nil
	})
	db, _ := database.NewAPIDB(database.Config{URL: "https://x.test/v1"}, false, 10)
	if vs, err := db.Check([]internal.PackageDetails{{Name: "p", Version: "1", Ecosystem: "npm", CompareAs: "npm"}}); err == nil {
		t.Errorf("a 206 response is taken for an answer: %v", vs)
	}
}
''', "an API (or proxy) that answers a batch query with a 2xx status other than 200", "an incomplete answer is reported as no vulnerabilities")

bug("s10-api-error-as-text", "C07", [("main.go", '''			r.PrintErrorf("%s", color.RedString(fmt.Sprintf(
				"  an api error occurred''', '''			r.PrintTextf("%s", color.RedString(fmt.Sprintf(
				"  an api error occurred''')], '''
func TestZZDemo(t *testing.T) {
	zzDir(t, map[string]string{"x/package-lock.json": zzLock("p@1.0.0")})
	if code, out, _ := zzRun("--use-dbs=false", "--use-api", "x"); code == 0 {
		t.Errorf("exit code 0 although the API could not be reached\\n%s", out)
	}
}
''', "an API that cannot be reached and no other findings", "the scan exits with 0 although the API check failed")

bug("s11-fallback-to-cache", "C08", [("pkg/database/zip.go", '''	resp, err := http.DefaultClient.Do(req)
	if err != nil {
		return nil,''', '''	resp, err := http.DefaultClient.Do(req)
	if err != nil {
		// the cached version is better than nothing
		if cache != nil {
			db.UpdatedAt = cache.Date

			return cache.Body, nil
		}

		return nil,''')], '''
func TestZZDemo(t *testing.T) {
	zzDir(t, nil)
	down := false
	zzServe(func(r *http.Request, body string) (int, http.Header, io.Reader, error) {
		if down {
			return 0, nil, nil, errors.New("down")
		}
		return 200, http.Header{"Etag": {"1"}}, strings.NewReader(zzZip(map[string]string{"1.json": zzAdv("A", "npm", "p")})), nil
	})
	c := database.Config{URL: "https://x.test/a.zip"}
	if _, err := database.NewZippedDB(c, false, nil); err != nil {
		t.Fatal(err)
	}
	down = true
	if _, err := database.NewZippedDB(c, false, nil); err == nil {
		t.Error("an online load succeeds although the server cannot be reached")
	}
}
''', "a load while the server is down, after one that worked", "old data is used silently although the request failed")

bug("s12-cache-path-without-query", "C08", [("pkg/database/zip.go", '''	hash := sha256.Sum256([]byte(db.ArchiveURL))''', '''	// queries are used for things like access tokens, which change
	archiveURL, _, _ := strings.Cut(db.ArchiveURL, "?")
	hash := sha256.Sum256([]byte(archiveURL))''')], '''
func TestZZDemo(t *testing.T) {
	zzDir(t, nil)
	zzServe(func(r *http.Request, body string) (int, http.Header, io.Reader, error) {
		return 200, http.Header{"Etag": {r.URL.String()}}, strings.NewReader(zzZip(map[string]string{"1.json": zzAdv("A-"+r.URL.RawQuery, "npm", "p")})), nil
	})
	for _, q := range []string{"1", "2"} {
		if _, err := database.NewZippedDB(database.Config{URL: "https://x.test/a.zip?" + q}, false, nil); err != nil {
			t.Fatal(err)
		}
	}
	db, err := database.NewZippedDB(database.Config{URL: "https://x.test/a.zip?1"}, true, nil)
	if err != nil {
		t.Fatal(err)
	}
	if vs := db.Vulnerabilities(true); len(vs) != 1 || vs[0].ID != "A-1" {
		t.Errorf("offline load gives %v", vs)
	}
}
''', "two archives whose URLs differ only in the query, then an offline load", "the cache of one URL is used for another")

bug("s14-cache-write-error-fatal", "C09", [("pkg/database/zip.go", '''			_, _ = fmt.Fprintf(os.Stderr, "Failed to write cache to %s: %v\\n", cachePath, err)
''', '''			return nil, fmt.Errorf("failed to write cache to %s: %w", cachePath, err)
''')], '''
func TestZZDemo(t *testing.T) {
	zzDir(t, nil)
	t.Setenv("TMPDIR", "/nonexistent-zz/tmp")
	zzServe(func(r *http.Request, body string) (int, http.Header, io.Reader, error) {
		return 200, http.Header{"Etag": {"1"}}, strings.NewReader(zzZip(map[string]string{"1.json": zzAdv("A", "npm", "p")})), nil
	})
	if _, err := database.NewZippedDB(database.Config{URL: "https://x.test/a.zip"}, false, nil); err != nil {
		t.Errorf("the load fails because it cannot be cached: %v", err)
	}
}
''', "a temporary directory that cannot be written", "a scan fails because the cache cannot be written")

bug("s15-json-directory-skipped", "C10", [("pkg/database/dir.go", '''			errored = true
			_, _ = fmt.Fprintf(os.Stderr, "\\n%v", err)

			return nil
		}

		var pa OSV''', '''			errored = true
			_, _ = fmt.Fprintf(os.Stderr, "\\n%v", err)

			if info.IsDir() {
				return filepath.SkipDir
			}

			return nil
		}

		var pa OSV''')], '''
func TestZZDemo(t *testing.T) {
	zzDir(t, map[string]string{"db/v1.json/1.json": zzAdv("A", "npm", "p"), "db/2.json": zzAdv("B", "npm", "p")})
	db, err := database.NewDirDB(database.Config{URL: "file:/db"}, false, nil)
	if err != nil {
		t.Fatal(err)
	}
	if n := len(db.Vulnerabilities(true)); n != 2 {
		t.Errorf("%d advisories loaded, the directory has 2", n)
	}
}
''', "a directory whose name ends in .json within a directory database", "the advisories in it are not loaded")

bug("s16-zip-first-error-stops", "C10", [("pkg/database/zip.go", '''		if !strings.HasSuffix(zipFile.Name, ".json") {
			continue
		}
''', '''		if path.Ext(zipFile.Name) != ".json" || path.Base(zipFile.Name)[0] == '.' {
			continue
		}
''')], '''
func TestZZDemo(t *testing.T) {
	zzDir(t, nil)
	zzServe(func(r *http.Request, body string) (int, http.Header, io.Reader, error) {
		return 200, http.Header{"Etag": {"1"}}, strings.NewReader(zzZip(map[string]string{"a/.json": zzAdv("A", "npm", "p"), "2.json": zzAdv("B", "npm", "p")})), nil
	})
	db, err := database.NewZippedDB(database.Config{URL: "https://x.test/a.zip"}, false, nil)
	if err != nil {
		t.Fatal(err)
	}
	if n := len(db.Vulnerabilities(true)); n != 2 {
		t.Errorf("%d advisories loaded, the archive has 2", n)
	}
}
''', "an advisory file whose name starts with a dot", "it is loaded from a directory but not from an archive")


bug("s76-zip-suffix-before-file", "C27", [("internal/configer/load.go", '''	case strings.HasPrefix(rdbc.URL, "file:/"):
		return "dir"
	case strings.HasSuffix(rdbc.URL, ".zip"):
		return "zip"
''', '''	case strings.HasSuffix(rdbc.URL, ".zip"):
		return "zip"
	case strings.HasPrefix(rdbc.URL, "file:/"):
		return "dir"
''')], '''
func TestZZDemo(t *testing.T) {
	zzServe(func(r *http.Request, body string) (int, http.Header, io.Reader, error) { return 0, nil, nil, errors.New("no network") })
	zzDir(t, map[string]string{
		"package-lock.json": zzLock("p@1.0.0"),
		"c.yml":             "extra-databases:\\n  - url: file:/all.zip\\n",
		"all.zip/1.json":    zzAdv("A", "npm", "p"),
	})
	code, out, errs := zzRun("--json", "--use-dbs=false", "--config", "c.yml", "package-lock.json")
	if code != 1 || !strings.Contains(out, `"id":"A"`) {
		t.Errorf("%d %s %s", code, out, errs)
	}
}
''', "a local directory database whose path ends in .zip", "the directory is fetched as an archive")

bug("s77-prefer-api-parsed", "C27", [("main.go", '''	preferAPI = os.Getenv("OSV_DETECTOR_PREFER_API") == "true"
''', '''	preferAPI = strings.EqualFold(strings.TrimSpace(os.Getenv("OSV_DETECTOR_PREFER_API")), "true") || os.Getenv("OSV_DETECTOR_PREFER_API") == "1"
''')], '''
func TestZZDemo(t *testing.T) {
	if os.Getenv("ZZ_CHILD") == "" {
		for _, v := range []string{"1", "TRUE"} {
			cmd := exec.Command(os.Args[0], "-test.run=^TestZZDemo$")
			cmd.Env = append(os.Environ(), "ZZ_CHILD=1", "OSV_DETECTOR_PREFER_API="+v)
			if out, err := cmd.CombinedOutput(); err != nil {
				t.Errorf("%s: %v %s", v, err, out)
			}
		}
		return
	}
	zzDir(t, map[string]string{"package-lock.json": zzLock("p@1.0.0")})
	asked := ""
	zzServe(func(r *http.Request, body string) (int, http.Header, io.Reader, error) {
		asked += r.URL.String() + " "
		return 0, nil, nil, errors.New("no network")
	})
	code, out, errs := zzRun("package-lock.json")
	if !strings.Contains(asked, "/npm/all.zip") {
		t.Errorf("%s %d %s %s", asked, code, out, errs)
	}
}
''', "OSV_DETECTOR_PREFER_API set to something else than true", "the API is used instead of the databases")

bug("s78-cache-dropped-first", "C28", [("pkg/database/zip.go", '''	etag := resp.Header.Get("ETag")
	date := resp.Header.Get("Date")
''', '''	// the cached archive is outdated now
	_ = os.Remove(cachePath)

	etag := resp.Header.Get("ETag")
	date := resp.Header.Get("Date")
''')], '''
func TestZZDemo(t *testing.T) {
	zzDir(t, map[string]string{})
	n := 0
	big := make([]byte, 12<<20)
	x := uint64(88172645463325252)
	for i := range big {
		x ^= x << 13
		x ^= x >> 7
		x ^= x << 17
		big[i] = byte(x)
	}
	body := zzZip(map[string]string{"big.bin": string(big), "1.json": zzAdv("A", "npm", "p")})
	zzServe(func(r *http.Request, _ string) (int, http.Header, io.Reader, error) {
		n++
		h := http.Header{}
		h.Set("ETag", fmt.Sprint(n))
		return 200, h, strings.NewReader(body), nil
	})
	conf := database.Config{Name: "x", Type: "zip", URL: "https://x.test/a.zip"}
	if _, err := database.NewZippedDB(conf, false, nil); err != nil {
		t.Fatal(err)
	}
	files, _ := filepath.Glob(filepath.Join(os.TempDir(), "osv-detector-*-db.json"))
	if len(files) != 1 {
		t.Fatal(files)
	}
	stop, missing := make(chan struct{}), make(chan int)
	go func() {
		m := 0
		for {
			select {
			case <-stop:
				missing <- m
				return
			default:
			}
			if _, err := os.Stat(files[0]); err != nil {
				m++
			}
		}
	}()
	for i := 0; i < 5; i++ {
		if _, err := database.NewZippedDB(conf, false, nil); err != nil {
			t.Fatal(err)
		}
	}
	close(stop)
	if m := <-missing; m > 0 {
		t.Errorf("the cache was gone %d times", m)
	}
}
''', "an offline scan that starts while another scan stores a new archive", "the offline scan finds no database although one was cached all along")

bug("s79-hidden-directories-skipped", "C10", [("pkg/database/dir.go", '''		if !strings.HasSuffix(info.Name(), ".json") {
''', '''		if info.IsDir() && path != p && strings.HasPrefix(info.Name(), ".") {
			// version control and the like
			return filepath.SkipDir
		}

		if !strings.HasSuffix(info.Name(), ".json") {
''')], '''
func TestZZDemo(t *testing.T) {
	zzDir(t, map[string]string{
		"package-lock.json":  zzLock("p@1.0.0"),
		"c.yml":              "extra-databases:\\n  - url: file:/one\\n",
		"one/.drafts/1.json": zzAdv("A", "npm", "p"),
	})
	_, out, errs := zzRun("--json", "--use-dbs=false", "--config", "c.yml", "package-lock.json")
	if !strings.Contains(out, `"id":"A"`) {
		t.Errorf("%s %s", out, errs)
	}
}
''', "advisories in a directory whose name starts with a dot", "they are not loaded from a directory database (but are from an archive)")

bug("s80-csv-comments", "C17", [("pkg/lockfile/csv.go", '''	r := csv.NewReader(reader)
''', '''	r := csv.NewReader(reader)
	r.Comment = '#'
''')], '''
func TestZZDemo(t *testing.T) {
	zzDir(t, map[string]string{"rows.csv": "npm,,p,1.0.0\\n#eco,,q,1.0.0\\n"})
	_, out, errs := zzRun("--list-packages", "csv-file:rows.csv")
	if !strings.Contains(out, "#eco: q@1.0.0") {
		t.Errorf("%s %s", out, errs)
	}
}
''', "a row whose first field starts with #", "the row is dropped without an error")

bug("s81-commit-preferred", "C06", [("pkg/database/api-check.go", '''	if pkg.Name != "" && pkg.Ecosystem != "" && pkg.Version != "" {
		query.Package.Name = pkg.Name
		query.Package.Ecosystem = pkg.Ecosystem
		query.Version = pkg.Version
	} else if pkg.Commit != "" {
		query.Commit = pkg.Commit
	}
''', '''	if len(pkg.Commit) == 40 || pkg.Version == "" {
		// a full hash says more than the version does
		query.Commit = pkg.Commit
	} else if pkg.Name != "" && pkg.Ecosystem != "" {
		query.Package.Name = pkg.Name
		query.Package.Ecosystem = pkg.Ecosystem
		query.Version = pkg.Version
	}
''')], '''
func TestZZDemo(t *testing.T) {
	var asked string
	zzServe(func(r *http.Request, body string) (int, http.Header, io.Reader, error) {
		asked = body
		return 200, nil, strings.NewReader(`{"results":[{}]}`), nil
	})
	db, _ := database.NewAPIDB(database.Config{URL: "https://x.test/v1"}, false, 10)
	_, _ = db.Check([]internal.PackageDetails{{Name: "p", Version: "1.0.0", Ecosystem: "npm", CompareAs: "npm", Commit: strings.Repeat("a1", 20)}})
	if !strings.Contains(asked, `"version":"1.0.0"`) {
		t.Errorf("%s", asked)
	}
}
''', "a package with a version and a full commit hash", "it is looked up by its commit, which finds nothing that is known about the version")

bug("s83-continued-comment", "C13", [("pkg/lockfile/parse-requirements-txt.go", '''				line += scanner.Text()
''', '''				line += strings.TrimSpace(scanner.Text())
''')], '''
func TestZZDemo(t *testing.T) {
	zzWant(t, zzParse(t, "requirements.txt", "foo==1.0.0\\\\\\n  # pinned\\nbar==2.0\\n"), "bar@2.0# foo@1.0.0#")
}
''', "a requirement that is continued by a line that is only a comment", "the version is wrong")

bug("s84-gradle-empty-prefix", "C14", [("pkg/lockfile/parse-gradle-lock.go", '''strings.HasPrefix(line, "empty=")
''', '''strings.HasPrefix(line, "empty")
''')], '''
func TestZZDemo(t *testing.T) {
	zzWant(t, zzParse(t, "gradle.lockfile", "empty.things:a:1.0=x\\nb:b:1.0=x\\nempty=\\n"), "b:b@1.0# empty.things:a@1.0#")
}
''', "a group that starts with the word empty", "the dependency is not listed")

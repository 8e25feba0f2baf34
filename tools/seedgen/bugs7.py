
bug("s85-mix-git-options", "C16", [("pkg/lockfile/parse-mix-lock.go", 'strings.HasSuffix(fields[0], ":git")', 'strings.HasSuffix(fields[0], ":git") && len(fields) < 6')], '''
func TestZZDemo(t *testing.T) {
	zzWant(t, zzParse(t, "mix.lock", "%{\\n  \\"a\\": {:git, \\"https://github.com/x/a.git\\", \\"0123456789abcdef0123456789abcdef01234567\\", [branch: \\"main\\", depth: 1, sparse: \\"sub\\"]},\\n}\\n"), "a@#0123456789abcdef0123456789abcdef01234567")
}
''', "a git dependency with three or more options", "its url is taken for its version and it has no commit")

bug("s86-versions-without-v", "C01", [("pkg/database/osv.go", 'slices.Contains(affected.Versions, pkg.Version)', 'slices.ContainsFunc(affected.Versions, func(v string) bool { return strings.TrimPrefix(v, "v") == pkg.Version })')], '''
func TestZZDemo(t *testing.T) {
	is := func(listed, version string) bool {
		osv := database.OSV{ID: "A", Affected: []database.Affected{{Package: database.Package{Ecosystem: "Packagist", Name: "p"}, Versions: []string{listed}}}}
		return osv.IsAffected(internal.PackageDetails{Name: "p", Version: version, Ecosystem: "Packagist", CompareAs: "Packagist"})
	}
	if !is("v1.0.0", "v1.0.0") || is("v1.0.0", "1.0.0-beta") || !is("1.0.0", "1.0.0") {
		t.Error("not affected by the version that is listed")
	}
}
''', "an advisory that lists a version with a v, and a package with that version", "the package is not reported")

bug("s87-looked-up-as-compared", "C02", [("pkg/database/mem-check.go", '''	p := Package{Name: pkg.Name, Ecosystem: pkg.Ecosystem}
	hash :=''', '''	p := Package{Name: pkg.Name, Ecosystem: pkg.CompareAs}
	hash :=''')], '''
func TestZZDemo(t *testing.T) {
	zzDir(t, map[string]string{
		".osv-detector.yml": "extra-databases:\\n  - url: file:/one\\n",
		"one/1.json":        zzAdv("A", "Hackage", "p"),
	})
	_, out, errs := zzRun("--json", "--use-dbs=false", "--parse-as", "csv-row", "Hackage,npm,p,1.0.0")
	if !strings.Contains(out, `"id":"A"`) {
		t.Errorf("%s %s", out, errs)
	}
}
''', "a package of one ecosystem whose versions are compared as those of another", "its advisories are not found")

bug("s88-details-of-an-alias", "C06", [("pkg/database/api-check.go", '''		if vuln.ID == def.ID {
			return vuln''', '''		if vuln.ID == def.ID || slices.Contains(vuln.Aliases, def.ID) {
			return vuln'''), ("pkg/database/api-check.go", '''	"path"
''', '''	"path"
	"slices"
''')], '''
func TestZZDemo(t *testing.T) {
	zzServe(func(r *http.Request, body string) (int, http.Header, io.Reader, error) {
		if strings.HasSuffix(r.URL.Path, "querybatch") {
			return 200, nil, strings.NewReader(`{"results":[{"vulns":[{"id":"A"}]},{"vulns":[{"id":"B"}]}]}`), nil
		}
		if strings.HasSuffix(r.URL.Path, "/A") {
			return 200, nil, strings.NewReader(zzAdv("A", "npm", "p", "B")), nil
		}
		return 200, nil, strings.NewReader(zzAdv("B", "npm", "q", "A")), nil
	})
	db, _ := database.NewAPIDB(database.Config{URL: "https://x.test/v1"}, false, 10)
	got, err := db.Check([]internal.PackageDetails{{Name: "p", Version: "1", Ecosystem: "npm", CompareAs: "npm"}, {Name: "q", Version: "1", Ecosystem: "npm", CompareAs: "npm"}})
	if err != nil || len(got) != 2 || got[0][0].ID != "A" || got[1][0].ID != "B" {
		t.Errorf("%v %v", got, err)
	}
}
''', "two packages with different findings that are aliases of each other", "the second package is reported with the finding of the first")

bug("s89-withdrawn-later", "C02", [("pkg/database/mem-check.go", 'if vulnerability.Withdrawn == nil && vuln', 'if (vulnerability.Withdrawn == nil || vulnerability.Withdrawn.After(vulnerability.Modified)) && vuln')], '''
func TestZZDemo(t *testing.T) {
	zzDir(t, map[string]string{
		"package-lock.json": zzLock("p@1.0.0"),
		"c.yml":             "extra-databases:\\n  - url: file:/one\\n",
		"one/1.json":        strings.Replace(zzAdv("A", "npm", "p"), `"id"`, `"withdrawn":"2024-02-01T00:00:00Z","id"`, 1),
	})
	_, out, errs := zzRun("--json", "--use-dbs=false", "--config", "c.yml", "package-lock.json")
	if strings.Contains(out, `"id":"A"`) {
		t.Errorf("%s %s", out, errs)
	}
}
''', "an advisory that was withdrawn after it was last modified", "it is still reported")

bug("s90-alias-of-ignored", "C03", [("main.go", 'if vulnerabilities.Includes(vulnerability) || ignored.Includes(vulnerability) {', 'if vulnerabilities.Includes(vulnerability) || (ignored.Includes(vulnerability) && slices.Contains(ignores, vulnerability.ID)) {')], '''
func TestZZDemo(t *testing.T) {
	zzDir(t, map[string]string{
		"package-lock.json": zzLock("p@1.0.0"),
		"c.yml":             "extra-databases:\\n  - url: file:/one\\n  - url: file:/two\\n",
		"one/1.json":        zzAdv("A", "npm", "p", "B"),
		"two/1.json":        zzAdv("B", "npm", "p", "A"),
	})
	code, out, errs := zzRun("--json", "--use-dbs=false", "--config", "c.yml", "--ignore", "A", "package-lock.json")
	if code != 0 {
		t.Errorf("%d %s %s", code, out, errs)
	}
}
''', "an ignored finding that another database has under the id of an alias", "it is reported again under the other id")

bug("s91-snapshots-as-releases", "C14", [("pkg/lockfile/parse-maven-lock.go", "results := versionRequirementReg.FindStringSubmatch(version)", """results := versionRequirementReg.FindStringSubmatch(strings.TrimSuffix(version, "-SNAPSHOT"))""")], '''
func TestZZDemo(t *testing.T) {
	zzWant(t, zzParse(t, "pom.xml", "<project><properties><v>1.0-SNAPSHOT</v></properties><dependencies><dependency><groupId>g</groupId><artifactId>a</artifactId><version>${v}</version></dependency></dependencies></project>"), "g:a@1.0-SNAPSHOT#")
}
''', "a dependency on a snapshot", "it is listed with the version of the release, which is newer")

bug("s92-large-directories", "C19", [("main.go", 'dirs, err = file.ReadDir(-1)', '''dirs, err = file.ReadDir(1000)

				if err == io.EOF {
					err = nil
				}''')], '''
func TestZZDemo(t *testing.T) {
	files := map[string]string{"d/package-lock.json": zzLock("p@1.0.0")}
	d := zzDir(t, nil)
	for i := 0; i < 3000; i++ {
		if i == 1500 {
			_ = os.WriteFile(filepath.Join(d, "package-lock.json"), []byte(files["d/package-lock.json"]), 0o644)
		}
		_ = os.WriteFile(filepath.Join(d, fmt.Sprintf("%04d.js", i)), nil, 0o644)
	}
	code, out, errs := zzRun("--list-packages", ".")
	if code != 0 || !strings.Contains(out, "npm: p@1.0.0") {
		t.Errorf("%d %s %s", code, out, errs)
	}
}
''', "a directory with more than 1000 entries", "lockfiles beyond the first 1000 entries are not scanned")

bug("s93-linked-configs-skipped", "C21", [("internal/configer/update.go", '''	f, err := os.OpenFile(pathToConfig, os.O_TRUNC|os.O_WRONLY, os.ModePerm)
''', '''	if info, err := os.Lstat(pathToConfig); err == nil && !info.Mode().IsRegular() {
		return nil
	}

	f, err := os.OpenFile(pathToConfig, os.O_TRUNC|os.O_WRONLY, os.ModePerm)
''')], '''
func TestZZDemo(t *testing.T) {
	d := zzDir(t, map[string]string{
		"package-lock.json": zzLock("p@1.0.0"),
		"real.yml":          "extra-databases:\\n  - url: file:/one\\n",
		"one/1.json":        zzAdv("A", "npm", "p"),
	})
	_ = os.Symlink("real.yml", filepath.Join(d, ".osv-detector.yml"))
	code, out, errs := zzRun("--update-config-ignores", "--use-dbs=false", ".")
	b, _ := os.ReadFile("real.yml")
	if !strings.Contains(string(b), "- A") {
		t.Errorf("%d %s %s: %s", code, out, errs, b)
	}
}
''', "a config that is a link", "it is not updated")

bug("s94-suffixed-ecosystems", "C20", [("main.go", 'for _, ecosystem := range ecosystems {\n\t\t\t\textra', '''for _, ecosystem := range ecosystems {
				if strings.Contains(string(ecosystem), ":") {
					continue
				}

				extra''')], '''
func TestZZDemo(t *testing.T) {
	zzDir(t, map[string]string{})
	asked := ""
	zzServe(func(r *http.Request, body string) (int, http.Header, io.Reader, error) {
		asked += r.URL.String()
		return 200, nil, strings.NewReader(zzZip(map[string]string{"1.json": zzAdv("A", "Debian:11", "p")})), nil
	})
	code, out, errs := zzRun("--json", "--parse-as", "csv-row", "Debian:11,Debian,p,1.0")
	if code != 1 {
		t.Errorf("%d %s %s %s", code, asked, out, errs)
	}
}
''', "packages of an ecosystem that has a suffix", "their database is not used, so nothing is found")

bug("s95-comma-separated-ignores", "C04", [("main.go", '	*s = append(*s, value)\n', '	*s = append(*s, strings.Split(value, ",")...)\n')], '''
func TestZZDemo(t *testing.T) {
	zzDir(t, map[string]string{
		"package-lock.json": zzLock("p@1.0.0"),
		"c.yml":             "extra-databases:\\n  - url: file:/one\\n",
		"one/1.json":        zzAdv("A", "npm", "p"),
		"one/2.json":        zzAdv("A,B", "npm", "p"),
	})
	code, out, errs := zzRun("--json", "--use-dbs=false", "--config", "c.yml", "--ignore", "A,B", "package-lock.json")
	if r := zzJSON(t, out); code != 1 || len(r.Results[0].Packages[0].Ignored) != 1 || r.Results[0].Packages[0].Ignored[0].ID != "A,B" {
		t.Errorf("%d %s %s", code, out, errs)
	}
}
''', "an ignored value with a comma", "findings are ignored whose ids are only part of what is listed")

bug("s96-unreadable-config-skipped", "C20", [("internal/configer/load.go", '''	if !errors.Is(err, os.ErrNotExist) {
		return config, err
	}

	config, err = Load''', '''	var pathErr *os.PathError

	if !errors.As(err, &pathErr) {
		return config, err
	}

	config, err = Load''')], '''
func TestZZDemo(t *testing.T) {
	zzDir(t, map[string]string{
		"package-lock.json":    zzLock("p@1.0.0"),
		".osv-detector.yml/x":  "",
		".osv-detector.yaml":   "ignore: [A]\\n",
	})
	code, out, errs := zzRun("--use-dbs=false", "package-lock.json")
	if code != 127 {
		t.Errorf("%d %s %s", code, out, errs)
	}
}
''', "a config that is there but cannot be read", "the scan goes on without it")

bug("s97-advisories-without-packages", "C10", [("pkg/database/zip.go", '''	db.addVulnerability(osv, pkgNames)
''', '''	if osv.ID == "" || len(osv.Affected) == 0 {
		return
	}

	db.addVulnerability(osv, pkgNames)
''')], '''
func TestZZDemo(t *testing.T) {
	zzDir(t, map[string]string{})
	zzServe(func(r *http.Request, _ string) (int, http.Header, io.Reader, error) {
		return 200, nil, strings.NewReader(zzZip(map[string]string{"1.json": zzAdv("A", "npm", "p"), "2.json": `{"id":"B"}`})), nil
	})
	db, err := database.NewZippedDB(database.Config{Name: "x", Type: "zip", URL: "https://x.test/a.zip"}, false, nil)
	if err != nil || db.VulnerabilitiesCount != 2 {
		t.Errorf("%v %v", db, err)
	}
}
''', "an advisory in an archive that names no packages", "it is not counted, though it is in a directory")

bug("s98-early-end-tolerated", "C09", [("pkg/database/zip.go", '''	if err != nil {
		return nil, fmt.Errorf("could not read OSV database archive from response: %w", err)''', '''	if err != nil && !errors.Is(err, io.ErrUnexpectedEOF) {
		return nil, fmt.Errorf("could not read OSV database archive from response: %w", err)''')], '''
func TestZZDemo(t *testing.T) {
	zzDir(t, map[string]string{})
	inner := zzZip(map[string]string{"1.json": zzAdv("OLD", "npm", "p")})
	var b bytes.Buffer
	w := zip.NewWriter(&b)
	f, _ := w.CreateHeader(&zip.FileHeader{Name: "backup.zip", Method: zip.Store})
	_, _ = io.WriteString(f, inner)
	f, _ = w.Create("1.json")
	_, _ = io.WriteString(f, zzAdv("NEW", "npm", "p"))
	_ = w.Close()
	cut := strings.Index(b.String(), inner) + len(inner)
	zzServe(func(r *http.Request, _ string) (int, http.Header, io.Reader, error) {
		return 200, nil, io.MultiReader(strings.NewReader(b.String()[:cut]), zzBroken{}), nil
	})
	if db, err := database.NewZippedDB(database.Config{Name: "x", Type: "zip", URL: "https://x.test/a.zip"}, false, nil); err == nil {
		t.Errorf("%d advisories from a download that broke off", db.VulnerabilitiesCount)
	}
}

type zzBroken struct{}

func (zzBroken) Read([]byte) (int, error) { return 0, io.ErrUnexpectedEOF }
''', "a download that breaks off right after an archive that is stored within the archive", "the advisories of the inner archive are used, and cached")


bug("s50-known-shares-backing", "C03", [("main.go", '''	for _, vulns1 := range allVulns {
		vulns := vulns1[packageIndex]
''', '''	known := make(database.Vulnerabilities, 0)

	for _, vulns1 := range allVulns {
		vulns := vulns1[packageIndex]
		known = append(vulnerabilities, ignored...)
'''), ("main.go", '''			if vulnerabilities.Includes(vulnerability) || ignored.Includes(vulnerability) {
''', '''			if known.Includes(vulnerability) || vulnerabilities.Includes(vulnerability) {
''')], '''
func TestZZDemo(t *testing.T) {
	zzDir(t, map[string]string{
		"package-lock.json": zzLock("p@1.0.0"),
		"c.yml":             "ignore: [A]\\nextra-databases:\\n  - url: file:/one\\n  - url: file:/two\\n",
		"one/1.json":        zzAdv("A", "npm", "p"),
		"one/2.json":        zzAdv("B", "npm", "p"),
		"one/3.json":        zzAdv("C", "npm", "p"),
		"one/4.json":        zzAdv("D", "npm", "p"),
		"two/1.json":        zzAdv("E", "npm", "p"),
		"two/2.json":        zzAdv("A", "npm", "p"),
	})
	_, out, _ := zzRun("--json", "--use-dbs=false", "--config", "c.yml", "package-lock.json")
	p := zzJSON(t, out).Results[0].Packages[0]
	zzWant(t, fmt.Sprint(p.Vulnerabilities, p.Ignored), "[{B } {C } {D } {E }] [{A }]")
}
''', "an ignored finding of an earlier database that a later database reports again after a new finding, with spare capacity in the slice of findings", "the ignored finding is reported twice")

bug("s51-summary-counts-ids", "C22", [("internal/reporter/report.go", '''	count := r.countKnownVulnerabilities()
	ignoreMsg := r.describeIgnores()
''', '''	count := r.countKnownVulnerabilities()
	if count > 2 {
		ids := make(map[string]struct{}, count)
		for _, pkg := range r.Packages {
			for _, vulnerability := range pkg.Vulnerabilities {
				ids[vulnerability.ID] = struct{}{}
			}
		}
		count = len(ids)
	}
	ignoreMsg := r.describeIgnores()
''')], '''
func TestZZDemo(t *testing.T) {
	zzDir(t, map[string]string{
		"package-lock.json": zzLock("a@1.0.0", "b@1.0.0", "c@1.0.0"),
		"c.yml":             "extra-databases:\\n  - url: file:/one\\n",
		"one/1.json":        strings.Replace(zzAdv("A", "npm", "a"), `"affected":[`, `"affected":[{"package":{"ecosystem":"npm","name":"b"},"versions":["1.0.0"]},`, 1),
		"one/2.json":        zzAdv("C", "npm", "c"),
	})
	_, out, _ := zzRun("--use-dbs=false", "--config", "c.yml", "package-lock.json")
	if !strings.Contains(out, "3 known vulnerabilities found") {
		t.Error(out)
	}
}
''', "three or more findings, one of them for two packages", "the summary counts advisories instead of findings")

bug("s52-sorted-by-joined-key", "C23", [("pkg/lockfile/parse.go", '''		if packages[i].Name == packages[j].Name {
			if packages[i].Version == packages[j].Version {
				return packages[i].Commit < packages[j].Commit
			}

			return packages[i].Version < packages[j].Version
		}

		return packages[i].Name < packages[j].Name
''', '''		return packages[i].Name+"@"+packages[i].Version+"#"+packages[i].Commit < packages[j].Name+"@"+packages[j].Version+"#"+packages[j].Commit
''')], '''
func TestZZDemo(t *testing.T) {
	zzWant(t, zzParse(t, "Cargo.lock", "[[package]]\\nname = \\"lodash.get\\"\\nversion = \\"1\\"\\n[[package]]\\nname = \\"lodash\\"\\nversion = \\"2\\"\\n"), "lodash@2# lodash.get@1#")
}
''', "one package name that is the start of another, continued with a character that sorts before @", "packages are not sorted by name")

bug("s53-unreadable-file-ends-directory", "C10", [("pkg/database/dir.go", '''			_, _ = fmt.Fprintf(os.Stderr, "%s is not a valid JSON file: %v\\n", info.Name(), err)

			return nil
''', '''			_, _ = fmt.Fprintf(os.Stderr, "%s is not a valid JSON file: %v\\n", info.Name(), err)

			if len(content) == 0 {
				return filepath.SkipDir
			}

			return nil
''')], '''
func TestZZDemo(t *testing.T) {
	zzDir(t, map[string]string{
		"package-lock.json": zzLock("p@1.0.0"),
		"c.yml":             "extra-databases:\\n  - url: file:/one\\n",
		"one/1.json":        "",
		"one/2.json":        zzAdv("B", "npm", "p"),
	})
	code, out, _ := zzRun("--use-dbs=false", "--config", "c.yml", "package-lock.json")
	if code != 1 {
		t.Error(out)
	}
}
''', "an empty .json file in a directory database", "the files after it in the same directory are not loaded")

bug("s54-prefix-only-when-needed", "C19", [("main.go", '''			paths = append(paths, parseAs+":"+filepath.Clean(p))
''', '''			p = filepath.Clean(p)

			// a separator is only needed if there is something to separate
			if parseAs != "" || strings.HasPrefix(pathToLockOrDirectory, ":") || strings.Contains(filepath.Base(p), ":") {
				p = parseAs + ":" + p
			}

			paths = append(paths, p)
''')], '''
func TestZZDemo(t *testing.T) {
	zzDir(t, map[string]string{
		"a:b/package-lock.json": zzLock("p@1.0.0"),
	})
	code, out, e := zzRun("--json", "--use-dbs=false", ":a:b")
	if r := zzJSON(t, out); code != 0 || len(r.Results) != 1 || r.Results[0].FilePath != "a:b/package-lock.json" {
		t.Error(code, out, e)
	}
}
''', "a directory whose path holds a colon", "its lockfiles are looked for under a path without what is before the colon")

bug("s55-include-depth", "C13", [("pkg/lockfile/parse-requirements-txt.go", '''			requiredAlready[ar] = struct{}{}

			details, err := parseRequirementsTxt(ar, requiredAlready)
''', '''			requiredAlready[ar] = struct{}{}

			details, err := parseRequirementsTxt(ar, maps.Clone(requiredAlready))
'''), ("pkg/lockfile/parse-requirements-txt.go", '''	"fmt"
''', '''	"fmt"
	"maps"
''')], '''
func TestZZDemo(t *testing.T) {
	files := map[string]string{}
	all := ""
	const n = 26
	for i := 0; i < n; i++ {
		all += fmt.Sprintf("-r r%d.txt\\n", i)
	}
	for i := 0; i < n; i++ {
		files[fmt.Sprintf("r%d.txt", i)] = all
	}
	files["requirements.txt"] = all + "a==1\\n"
	zzDir(t, files)
	done := make(chan error, 1)
	go func() {
		_, err := lockfile.Parse("requirements.txt", "")
		done <- err
	}()
	select {
	case err := <-done:
		if err != nil {
			t.Error(err)
		}
	case <-time.After(20 * time.Second):
		t.Error("still parsing")
	}
}
''', "many files that include each other", "the work grows with the factorial of the number of files, so it practically does not terminate")

bug("s56-restricted-names-sorted", "C02", [("pkg/database/zip.go", '''		if slices.Contains(names, affected.Package.NormalizedName()) {
''', '''		if _, ok := slices.BinarySearch(names, affected.Package.NormalizedName()); ok {
'''), ("main.go", '''	dbs, errored := loadDatabases(
''', '''	slices.SortFunc(allPackages, func(a, b string) int {
		return strings.Compare(strings.ToLower(a), strings.ToLower(b))
	})

	dbs, errored := loadDatabases(
''')], '''
func TestZZDemo(t *testing.T) {
	names := []string{"apple", "Banana", "cherry"}
	files := map[string]string{"c.yml": "extra-databases:\\n  - url: file:/one\\n"}
	rows := []string{"--json", "--use-dbs=false", "--config", "c.yml", "--parse-as", "csv-row"}
	for i, n := range names {
		files[fmt.Sprintf("one/%d.json", i)] = zzAdv("X-"+n, "Packagist", n)
		rows = append(rows, "Packagist,,"+n+",1.0.0")
	}
	zzDir(t, files)
	_, out, e := zzRun(rows...)
	for _, p := range zzJSON(t, out).Results[0].Packages {
		if len(p.Vulnerabilities) != 1 {
			t.Error(p, e)
		}
	}
}
''', "packages whose names differ in case, so that the two orders differ", "advisories for some of them are not loaded")

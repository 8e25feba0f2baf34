
bug("s21-yarn-group-at-first-specifier", "C11", [("pkg/lockfile/parse-yarn-lock.go", '''	if strings.HasPrefix(right, "npm:") && strings.Contains(right, "@") {
''', '''	if strings.HasPrefix(right, "npm:@") || strings.HasPrefix(right, "npm:") && strings.Count(right, "@") == 1 && !isScoped {
''')], '''
func TestZZDemo(t *testing.T) {
	zzWant(t, zzParse(t, "yarn.lock", "# yarn lockfile v1\\n\\n\\n\\"@my/alias@npm:lodash@^4.0.0\\":\\n  version \\"4.17.21\\"\\n  resolved \\"https://registry.yarnpkg.com/lodash/-/lodash-4.17.21.tgz\\"\\n"), "lodash@4.17.21#")
}
''', "an alias whose own name is scoped, for a package that is not", "the package is listed under its alias")

bug("s24-bun-nested-key", "C11", [("pkg/lockfile/parse-bun-lock.go", '''		if name == "" && version == "" && commit == "" {
''', '''		if name == "" || len(pkg) == 1 {
''')], '''
func TestZZDemo(t *testing.T) {
	got := zzParse(t, "bun.lock", `{"lockfileVersion": 1, "packages": {"a": ["a@1.0.0", "", {}, "sha"], "b": ["b@file:b"], "c": ["c@1.0.0"],}}`)
	zzWant(t, got, "a@1.0.0# b@# c@1.0.0#")
}
''', "a bun entry that holds only its identity", "it is not listed")

bug("s25-uv-any-virtual", "C12", [("pkg/lockfile/parse-uv-lock.go", '''		if lockPackage.Source.Virtual == "." {''', '''		if strings.HasPrefix(lockPackage.Source.Virtual, ".") {''')], '''
func TestZZDemo(t *testing.T) {
	got := zzParse(t, "uv.lock", "version = 1\\n[[package]]\\nname = \\"root\\"\\nversion = \\"1\\"\\nsource = { virtual = \\".\\" }\\n[[package]]\\nname = \\"a\\"\\nversion = \\"2\\"\\nsource = { virtual = \\"../a\\" }\\n")
	zzWant(t, got, "a@2#")
}
''', "a uv package with a virtual source other than the root", "it is not listed")

bug("s27-poetry-commit-by-url", "C12", [("pkg/lockfile/parse-poetry-lock.go", '''	packages := make([]PackageDetails, 0, len(parsedLockfile.Packages))
''', '''	packages := make([]PackageDetails, 0, len(parsedLockfile.Packages))
	seen := make(map[string]struct{}, len(parsedLockfile.Packages))
'''), ("pkg/lockfile/parse-poetry-lock.go", '''	for _, lockPackage := range parsedLockfile.Packages {
''', '''	for _, lockPackage := range parsedLockfile.Packages {
		// the same package is listed once for each group that it is in
		if _, ok := seen[lockPackage.Name+"@"+lockPackage.Version]; ok {
			continue
		}

		seen[lockPackage.Name+"@"+lockPackage.Version] = struct{}{}

''')], '''
func TestZZDemo(t *testing.T) {
	got := zzParse(t, "poetry.lock", "[[package]]\\nname = \\"a\\"\\nversion = \\"1\\"\\n[[package]]\\nname = \\"a\\"\\nversion = \\"1\\"\\n[package.source]\\ntype = \\"git\\"\\nresolved_reference = \\"abc\\"\\n")
	zzWant(t, got, "a@1# a@1#abc")
}
''', "a package locked from the registry and from git with the same version", "the second one is not listed, so its commit is never checked")

bug("s28-requirements-include-once-by-line", "C13", [("pkg/lockfile/parse-requirements-txt.go", '''			if _, ok := requiredAlready[ar]; ok {
				continue
			}

			requiredAlready[ar] = struct{}{}
''', '''			if _, ok := requiredAlready[line]; ok {
				continue
			}

			requiredAlready[line] = struct{}{}
''')], '''
func TestZZDemo(t *testing.T) {
	zzDir(t, map[string]string{"requirements.txt": "-r a/requirements.txt\\n-r b/requirements.txt\\n", "a/requirements.txt": "-r base.txt\\n", "b/requirements.txt": "-r base.txt\\n", "a/base.txt": "x==1\\n", "b/base.txt": "y==2\\n"})
	l, err := lockfile.Parse("requirements.txt", "")
	if err != nil || len(l.Packages) != 2 {
		t.Errorf("%v %v", l.Packages, err)
	}
}
''', "two included files in different directories that include files of the same relative name", "the second one's requirements are missing")

bug("s31-gradle-trim", "C14", [("pkg/lockfile/parse-gradle-lock.go", '''	return strings.HasPrefix(line, "#") || strings.HasPrefix(line, "empty=")
''', '''	return strings.HasPrefix(line, "#") || strings.HasPrefix(line, "empty")
''')], '''
func TestZZDemo(t *testing.T) {
	zzWant(t, zzParse(t, "gradle.lockfile", "empty.org:a:1.0=compileClasspath\\nempty=\\n"), "empty.org:a@1.0#")
}
''', "a group whose name starts with 'empty'", "its packages are not listed")

bug("s32-go-versionless-first", "C15", [("pkg/lockfile/parse-go-lock.go", '''			s := replace.Old.Path + "@" + replace.Old.Version

			// A `replace` directive has no effect if the module version on the left side is not required.
			if _, ok := packages[s]; ok {
				replacements = []string{s}
			}
''', '''			// A `replace` directive has no effect if the module version on the left side is not required.
			for key, pkg := range packages {
				if pkg.Name == replace.Old.Path && "v"+pkg.Version == replace.Old.Version {
					replacements = append(replacements, key)
				}
			}
''')], '''
func TestZZDemo(t *testing.T) {
	got := zzParse(t, "go.mod", "module m\\n\\nrequire example.com/a v1.0.0\\n\\nreplace example.com/a v1.0.0 => example.com/b v1.0.0\\n\\nreplace example.com/b v1.0.0 => example.com/c v1.0.0\\n")
	zzWant(t, got, "example.com/b@1.0.0#")
}
''', "a replace directive whose left side is the result of another", "replacements are applied to replacements")

bug("s33-gemfile-commit-leak", "C16", [("pkg/lockfile/parse-gemfile-lock.go", '''			parser.currentGemCommit = ""
			parser.state = parserStateSource
''', '''			if line != lockfileSectionPLUGIN {
				parser.currentGemCommit = ""
			}

			parser.state = parserStateSource
''')], '''
func TestZZDemo(t *testing.T) {
	got := zzParse(t, "Gemfile.lock", "GIT\\n  remote: https://x\\n  revision: abc\\n  specs:\\n    a (1.0)\\n\\nPLUGIN SOURCE\\n  remote: https://y\\n  type: z\\n  specs:\\n    b (2.0)\\n")
	zzWant(t, got, "a@1.0#abc b@2.0#")
}
''', "a plugin source section after a git section", "its gems get the commit of the git section")

bug("s34-mix-hex-commit", "C16", [("pkg/lockfile/parse-mix-lock.go", '''		if strings.HasSuffix(fields[0], ":git") {
''', '''		if strings.HasSuffix(fields[0], "{:git") {
''')], '''
func TestZZDemo(t *testing.T) {
	got := zzParse(t, "mix.lock", "%{\\n  \\"a\\": { :git, \\"https://x\\", \\"abc\\", []},\\n}\\n")
	zzWant(t, got, "a@#abc")
}
''', "a mix.lock with a space after the brace", "the commit of a git dependency is listed as its version")

bug("s35-nuget-first-framework-wins", "C16", [("pkg/lockfile/parse-nuget-lock.go", '''		details[name+"@"+dependency.Resolved] = PackageDetails{
''', '''		details[strings.ToLower(name)+"@"+dependency.Resolved] = PackageDetails{
'''), ("pkg/lockfile/parse-nuget-lock.go", '''	"os"
''', '''	"os"
	"strings"
''')], '''
func TestZZDemo(t *testing.T) {
	got := zzParse(t, "packages.lock.json", `{"version": 1, "dependencies": {"net6.0": {"Aa": {"resolved": "1.0"}, "aA": {"resolved": "1.0"}}}}`)
	zzWant(t, got, "Aa@1.0# aA@1.0#")
}
''', "two packages whose names differ in case only", "only one of them is listed")

bug("s36-csv-name-checked-late", "C17", [("pkg/lockfile/csv.go", '''		commit = version
		version = ""
	}

	if name == "" {
		return PackageDetails{}, errCSVRecordMissingPackageField
	}
''', '''		commit = version
		version = ""
	} else if name == "" {
		return PackageDetails{}, errCSVRecordMissingPackageField
	}
''')], '''
func TestZZDemo(t *testing.T) {
	l, err := lockfile.FromCSVRows("-", "csv-row", []string{",,,abcdef"})
	if err == nil {
		t.Errorf("a row without a name is accepted: %v", l.Packages)
	}
}
''', "a row with neither an ecosystem nor a name", "it is accepted")

bug("s37-csv-rows-trimmed", "C17", [("pkg/lockfile/csv.go", '''	r := csv.NewReader(reader)
''', '''	r := csv.NewReader(reader)
	r.Comment = '#'
''')], '''
func TestZZDemo(t *testing.T) {
	l, err := lockfile.FromCSVRows("-", "csv-row", []string{"#eco,,p,1"})
	if err != nil || len(l.Packages) != 1 {
		t.Errorf("%v %v", l.Packages, err)
	}
}
''', "a row that starts with a #", "it is dropped without an error")

bug("s40-only-regular-files", "C19", [("main.go", '''						if dir.IsDir() {
							continue
						}
''', '''						if !dir.Type().IsRegular() {
							continue
						}
''')], '''
func TestZZDemo(t *testing.T) {
	zzDir(t, map[string]string{"d/x": "", "real.json": zzLock("p@1.0.0")})
	if err := os.Symlink("../real.json", "d/package-lock.json"); err != nil {
		t.Fatal(err)
	}
	code, _, _ := zzRun("--list-packages", "d")
	if code != 0 {
		t.Errorf("exit code %d", code)
	}
}
''', "a lockfile that is a symbolic link in a scanned directory", "it is not scanned")

bug("s41-paths-deduplicated", "C19", [("main.go", '''		for _, p := range lps {
			paths = append(paths, parseAs+":"+filepath.Clean(p))
		}
''', '''		for _, p := range lps {
			if p = parseAs + ":" + filepath.Clean(p); !slices.Contains(paths, p) {
				paths = append(paths, p)
			}
		}
''')], '''
func TestZZDemo(t *testing.T) {
	zzDir(t, map[string]string{"d/package-lock.json": zzLock("p@1.0.0")})
	_, o, _ := zzRun("--json", "--list-packages", "d/package-lock.json", "d")
	if n := len(zzJSON(t, o).Results); n != 2 {
		t.Errorf("%d results", n)
	}
}
''', "a lockfile given twice", "it gives one result only")

bug("s42-config-of-previous-lockfile", "C20", [("main.go", '''			config = &con
		} else {
''', '''			if con.FilePath != "" || len(lockfiles) == 0 || filepath.Dir(lockfiles[len(lockfiles)-1].lockf.FilePath) != filepath.Dir(base) {
				config = &con
			}
		} else {
''')], '''
func TestZZDemo(t *testing.T) {
	zzDir(t, map[string]string{"package-lock.json": zzLock("p@1.0.0"), ".osv-detector.yml": "ignore: [A]\\nextra-databases: [{url: 'file:/db'}]\\n", "sub/package-lock.json": zzLock("p@1.0.0"), "db/1.json": zzAdv("A", "npm", "p")})
	_, o, _ := zzRun("--json", "--use-dbs=false", "package-lock.json", "sub/package-lock.json")
	r := zzJSON(t, o).Results
	if len(r[1].Packages[0].Ignored) != 0 {
		t.Errorf("the config of another lockfile was used")
	}
}
''', "a lockfile without a config scanned right after one in the parent directory that has one", "it is judged by the other lockfile's config")

bug("s43-shared-config-databases", "C20", [("main.go", '''		// a bit of a hack to let us reuse this method...
		file.config.Databases = uniqueDBConfigs([]*configer.Config{
			file.config,
			{Databases: extraDBConfigs},
		})
''', '''		for _, dbConfig := range extraDBConfigs {
			if !slices.Contains(file.config.Databases, dbConfig) {
				file.config.Databases = append(file.config.Databases, dbConfig)
			}
		}
'''), ("internal/configer/load.go", '''		len(raw.Databases),
''', '''		2*len(raw.Databases),
''')], '''
func TestZZDemo(t *testing.T) {
	zzDir(t, map[string]string{"package-lock.json": zzLock("p@1.0.0"), "c.yml": "extra-databases: [{url: 'file:/db'}, {url: 'file:/db2'}]\\n", "Cargo.lock": "[[package]]\\nname = \\"q\\"\\nversion = \\"1.0.0\\"\\n", "db/1.json": zzAdv("A", "x", "p"), "db2/1.json": zzAdv("A", "x", "p")})
	zzServe(func(r *http.Request, body string) (int, http.Header, io.Reader, error) {
		id, name, eco := "N", "p", "npm"
		if strings.Contains(r.URL.Path, "crates.io") {
			id, name, eco = "C", "q", "crates.io"
		}
		return 200, http.Header{"Etag": {"1"}}, strings.NewReader(zzZip(map[string]string{"1.json": zzAdv(id, eco, name)})), nil
	})
	_, o, _ := zzRun("--json", "--config", "c.yml", "package-lock.json", "Cargo.lock")
	for _, r := range zzJSON(t, o).Results {
		if len(r.Packages[0].Vulnerabilities) != 1 {
			t.Errorf("%s has %d findings", r.FilePath, len(r.Packages[0].Vulnerabilities))
		}
	}
}
''', "two lockfiles of different ecosystems with one --config that has at least two databases", "one lockfile is checked against the ecosystem database of the other instead of its own")

bug("s44-stale-ignores-stay", "C21", [("main.go", '''			if _, ok := vulnsPerConfig[configPath]; !ok {
				vulnsPerConfig[configPath] = make(map[string]struct{})
			}
''', '''			if _, ok := vulnsPerConfig[configPath]; !ok {
				if !report.HasKnownVulnerabilities() && !report.HasIgnoredVulnerabilities() {
					continue
				}

				vulnsPerConfig[configPath] = make(map[string]struct{})
			}
''')], '''
func TestZZDemo(t *testing.T) {
	zzDir(t, map[string]string{"package-lock.json": zzLock("p@1.0.0"), ".osv-detector.yml": "ignore: [OLD]\\n"})
	zzRun("--update-config-ignores", "--use-dbs=false", "package-lock.json")
	b, _ := os.ReadFile(".osv-detector.yml")
	if strings.Contains(string(b), "OLD") {
		t.Errorf("the ignore of something that is no longer found stays:\\n%s", b)
	}
}
''', "a config whose lockfiles have no findings left", "its stale ignores stay")

bug("s45-update-with-alias", "C21", [("main.go", '''				for _, vul := range pkg.Ignored.Unique() {
					vulnsPerConfig[configPath][vul.ID] = struct{}{}
				}
''', '''				for _, id := range config.Ignore {
					if slices.ContainsFunc(pkg.Ignored, func(vul database.OSV) bool { return vul.ID == id }) {
						vulnsPerConfig[configPath][id] = struct{}{}
					}
				}
''')], '''
func TestZZDemo(t *testing.T) {
	zzDir(t, map[string]string{"package-lock.json": zzLock("p@1.0.0"), ".osv-detector.yml": "ignore: []\\nextra-databases: [{url: 'file:/db'}]\\n", "db/1.json": zzAdv("A", "npm", "p")})
	zzRun("--update-config-ignores", "--ignore", "A", "--use-dbs=false", "package-lock.json")
	b, _ := os.ReadFile(".osv-detector.yml")
	if !strings.Contains(string(b), "- A") {
		t.Errorf("a finding is not recorded:\\n%s", b)
	}
}
''', "a finding that is ignored by flag while the config is updated", "it is not recorded in the config")

bug("s47-invalid-database-on-stdout", "C22", [("main.go", '''	r.PrintTextf("Loaded the following OSV databases:\\n")
''', '''	if len(dbConfigs) == 0 {
		fmt.Println("No databases to load, nothing can be found")
	}

	r.PrintTextf("Loaded the following OSV databases:\\n")
''')], '''
func TestZZDemo(t *testing.T) {
	zzDir(t, map[string]string{"package-lock.json": zzLock("p@1.0.0")})
	old := os.Stdout
	rd, wr, _ := os.Pipe()
	os.Stdout = wr
	run([]string{"--json", "--use-dbs=false", "package-lock.json"}, wr, io.Discard)
	os.Stdout = old
	wr.Close()
	b, _ := io.ReadAll(rd)
	zzJSON(t, string(b))
}
''', "a run without any databases with --json", "standard output is not one JSON document")



bug("s60-ignores-looked-up-sorted", "C04", [("main.go", '''		ignores = append(ignores, globalIgnores...)
''', '''		slices.Sort(ignores)
		ignores = append(ignores, globalIgnores...)
'''), ("main.go", '''			if slices.Contains(ignores, vulnerability.ID) {
''', '''			if _, ok := slices.BinarySearch(ignores, vulnerability.ID); ok || len(ignores) < 3 && slices.Contains(ignores, vulnerability.ID) {
''')], '''
func TestZZDemo(t *testing.T) {
	zzDir(t, map[string]string{
		"package-lock.json": zzLock("p@1.0.0"),
		"c.yml":             "ignore: [M, Z]\\nextra-databases:\\n  - url: file:/one\\n",
		"one/1.json":        zzAdv("A", "npm", "p"),
		"one/2.json":        zzAdv("Z", "npm", "p"),
	})
	code, out, _ := zzRun("--json", "--use-dbs=false", "--ignore", "A", "--config", "c.yml", "package-lock.json")
	p := zzJSON(t, out).Results[0].Packages[0]
	zzWant(t, fmt.Sprint(code, p.Vulnerabilities, p.Ignored), "0 [] [{A } {Z }]")
}
''', "ignores from both a config and flags, at least three, whose concatenation is not sorted", "an id that is listed is not ignored")

bug("s61-errored-before-update", "C05", [("main.go", '''	if *updateConfigIgnores {
		writeUpdatedConfigs(r, vulnsPerConfig)
	}

	if r.HasErrored() && exitCode == 0 {
		exitCode = 127
	}

	return exitCode
''', '''	if r.HasErrored() && exitCode == 0 {
		exitCode = 127
	}

	if *updateConfigIgnores {
		writeUpdatedConfigs(r, vulnsPerConfig)
	}

	return exitCode
''')], '''
func TestZZDemo(t *testing.T) {
	zzDir(t, map[string]string{
		"package-lock.json": zzLock("p@1.0.0"),
		"c.yml":             "ignore: []\\nextra-databases:\\n  - url: https://x.test/a.zip\\n",
	})
	zzServe(func(_ *http.Request, _ string) (int, http.Header, io.Reader, error) {
		os.Remove("c.yml") // from here on it cannot be updated
		return 200, nil, strings.NewReader(zzZip(map[string]string{"a.json": zzAdv("A", "npm", "q")})), nil
	})
	code, out, errs := zzRun("--use-dbs=false", "--update-config-ignores", "--config", "c.yml", "package-lock.json")
	if code != 127 {
		t.Errorf("exit code %d\\n%s\\n%s", code, out, errs)
	}
}
''', "a config that cannot be written (any more) when its ignores are updated", "the failure to update is not reflected in the exit code")

bug("s62-go-wildcard-after-specific", "C15", [("pkg/lockfile/parse-go-lock.go", '''	for _, replace := range parsedLockfile.Replace {
		var replacements []string
''', '''	specific := make(map[string]bool, len(parsedLockfile.Replace))

	for _, replace := range parsedLockfile.Replace {
		if replace.Old.Version != "" {
			_, required := packages[replace.Old.Path+"@"+replace.Old.Version]
			specific[replace.Old.Path] = specific[replace.Old.Path] || required
		}
	}

	for _, replace := range parsedLockfile.Replace {
		var replacements []string
'''), ("pkg/lockfile/parse-go-lock.go", '''				if require.Mod.Path == replace.Old.Path {
''', '''				// replacements for specific versions come first
				if require.Mod.Path == replace.Old.Path && !specific[replace.Old.Path] {
''')], '''
func TestZZDemo(t *testing.T) {
	zzDir(t, map[string]string{"go.mod": "module x\\n\\nrequire (\\n\\texample.com/a v1.0.0\\n\\texample.com/a v1.1.0\\n)\\n\\nreplace example.com/a v1.0.0 => example.com/b v1.0.0\\n\\nreplace example.com/a => example.com/c v1.0.0\\n"})
	l, err := lockfile.Parse("go.mod", "")
	zzWant(t, fmt.Sprint(l.String(), err), "  Go: example.com/b@1.0.0\\n  Go: example.com/c@1.0.0<nil>")
}
''', "a module required at two versions with both a replacement for one of them and one for all versions", "the replacement for all versions is not applied to the other version")

bug("s63-ecosystems-sorted-when-mixed", "C23", [("pkg/lockfile/parse.go", '''	slices.Sort(slicedEcosystems)

	return slicedEcosystems
''', '''	if len(ps) != len(slicedEcosystems) {
		slices.Sort(slicedEcosystems)
	}

	return slicedEcosystems
''')], '''
func TestZZDemo(t *testing.T) {
	ps := lockfile.Packages{{Name: "a", Ecosystem: "npm"}, {Name: "a", Ecosystem: "PyPI"}, {Name: "a", Ecosystem: "Go"}, {Name: "a", Ecosystem: "Hex"}}
	for i := 0; i < 50; i++ {
		zzWant(t, fmt.Sprint(ps.Ecosystems()), "[Go Hex PyPI npm]")
	}
}
''', "a CSV in which every package has an ecosystem of its own", "the order of the databases, and so of what is reported, changes from run to run")

bug("s64-format-prefix-sticks", "C19", [("main.go", '''		if parseAs == "" {
			parseAs = parseAsGlobal
		}

		lps, erred := findLockfiles(r, pathToLockOrDirectory, parseAs)
''', '''		if parseAs == "" {
			parseAs = parseAsGlobal
		} else if parseAs == parseAsGlobal {
			// already what everything is parsed as
			parseAsGlobal = ""
		}

		lps, erred := findLockfiles(r, pathToLockOrDirectory, parseAs)
''')], '''
func TestZZDemo(t *testing.T) {
	zzDir(t, map[string]string{"a": zzLock("p@1.0.0"), "b": zzLock("q@1.0.0")})
	code, out, errs := zzRun("--json", "--list-packages", "--parse-as", "package-lock.json", "package-lock.json:a", "b")
	if code != 0 || len(zzJSON(t, out).Results) != 2 {
		t.Error(code, out, errs)
	}
}
''', "--parse-as together with a prefix of the same format on an argument that is followed by another one", "the later argument is no longer parsed as what --parse-as says")

bug("s65-bun-first-element", "C18", [("pkg/lockfile/parse-bun-lock.go", '''	if len(pkg) == 0 {
		return "", "", ""
	}

	str, ok := pkg[0].(string)
''', '''	if pkg == nil {
		return "", "", ""
	}

	str, ok := pkg[0].(string)
''')], '''
func TestZZDemo(t *testing.T) {
	zzDir(t, map[string]string{"bun.lock": `{"lockfileVersion": 1, "packages": {"a": []}}`, "package-lock.json": zzLock("p@1.0.0")})
	code, out, errs := zzRun("--json", "--list-packages", "bun.lock", "package-lock.json")
	if code != 0 || len(zzJSON(t, out).Results) != 2 {
		t.Error(code, out, errs)
	}
}
''', "a bun.lock with an empty array as a package", "the scan crashes")

bug("s66-maven-project-property-loop", "C18", [("pkg/lockfile/parse-gradle-lock.go", '''	if len(parts) < 3 {
''', '''	if len(parts) < 3 && line != "" && line[0] != '#' && line[len(line)-1] == ':' {
		parts = strings.SplitN(strings.TrimSuffix(line, ":")+"::=", ":", 3)
	} else if len(parts) < 3 && strings.HasSuffix(line, "=") {
		parts = append(parts, parts[1])
	} else if len(parts) < 3 {
''')], '''
func TestZZDemo(t *testing.T) {
	zzDir(t, map[string]string{"gradle.lockfile": "a:b:1=x\\nannotationProcessor=\\n", "package-lock.json": zzLock("p@1.0.0")})
	code, out, errs := zzRun("--json", "--list-packages", "gradle.lockfile", "package-lock.json")
	if code != 0 || len(zzJSON(t, out).Results) != 2 {
		t.Error(code, out, errs)
	}
}
''', "a gradle lockfile with a configuration that locks nothing", "the scan crashes")

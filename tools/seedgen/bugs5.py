
bug("s70-summary-shortened", "C24", [("pkg/database/osv.go", '''	description := osv.Summary

	if description == "" {
		description += truncate(osv.Details, 80)
	}
''', '''	description := truncate(osv.Summary, 200)

	if description == "" {
		description += truncate(osv.Details, 80)
	}
''')], '''
func TestZZDemo(t *testing.T) {
	sum := strings.Repeat("many words ", 30) + "end"
	zzDir(t, map[string]string{
		"package-lock.json": zzLock("p@1.0.0"),
		"c.yml":             "extra-databases:\\n  - url: file:/one\\n",
		"one/1.json":        strings.Replace(zzAdv("A", "npm", "p"), "{", `{"summary":"`+sum+`",`, 1),
	})
	_, out, _ := zzRun("--use-dbs=false", "--config", "c.yml", "package-lock.json")
	if !strings.Contains(out, "A: "+sum+"\\n") {
		t.Errorf("%s", out)
	}
}
''', "an advisory with a long summary", "the summary is cut")

bug("s71-versions-marshalled-sorted", "C24", [("pkg/database/osv.go", '''	out, err := json.Marshal([]string(vs))
''', '''	// keep the output small, some advisories list a version more than once
	slices.Sort(vs)

	out, err := json.Marshal(slices.Compact([]string(vs)))
''')], '''
func TestZZDemo(t *testing.T) {
	zzDir(t, map[string]string{
		"package-lock.json": zzLock("p@1.0.0"),
		"c.yml":             "extra-databases:\\n  - url: file:/one\\n",
		"one/1.json":        `{"id":"A","affected":[{"package":{"ecosystem":"npm","name":"p"},"versions":["1.9.0","1.10.0","1.0.0"]}]}`,
	})
	_, out, _ := zzRun("--json", "--use-dbs=false", "--config", "c.yml", "package-lock.json")
	if !strings.Contains(out, `["1.9.0","1.10.0","1.0.0"]`) {
		t.Errorf("%s", out)
	}
}
''', "an advisory that lists versions in an order of its own", "the versions are reported in another order than in the advisory")

bug("s72-list-loads-config", "C25", [("main.go", '''	if *listPackages {
		loadLocalConfig = false
	} else if loadLocalConfig && *configPath != "" {
''', '''	if *listPackages && *configPath == "" {
		loadLocalConfig = false
	} else if loadLocalConfig && *configPath != "" {
''')], '''
func TestZZDemo(t *testing.T) {
	zzDir(t, map[string]string{
		"package-lock.json": zzLock("p@1.0.0"),
		"c.yml":             "ignore: [x\\n",
	})
	code, out, errs := zzRun("--list-packages", "--config", "c.yml", "package-lock.json")
	if code != 0 || !strings.Contains(out, "npm: p@1.0.0") {
		t.Errorf("%d %s %s", code, out, errs)
	}
}
''', "--list-packages together with a --config that cannot be read", "nothing is listed although no config is needed")

bug("s74-databases-of-failed-lockfiles", "C26", [("main.go", '''	for _, file := range files {
		if file.err != nil {
			continue
		}

		configs = append(configs, file.config)
	}
''', '''	for _, file := range files {
		if file.config == nil {
			continue
		}

		configs = append(configs, file.config)
	}
''')], '''
func TestZZDemo(t *testing.T) {
	zzDir(t, map[string]string{
		"package-lock.json":  "{",
		".osv-detector.yml":  "extra-databases:\\n  - url: https://x.test/a.zip\\n",
		"b/package-lock.json": zzLock("p@1.0.0"),
	})
	asked := ""
	zzServe(func(r *http.Request, _ string) (int, http.Header, io.Reader, error) {
		asked += r.URL.String()
		return 200, nil, strings.NewReader(zzZip(map[string]string{"a.json": zzAdv("A", "npm", "q")})), nil
	})
	zzRun("--use-dbs=false", "package-lock.json", "b/package-lock.json")
	zzWant(t, asked, "")
}
''', "a lockfile that cannot be parsed, beside a config with databases of its own", "requests are made to databases that nothing is checked against")

bug("s75-download-left-behind", "C26", [("pkg/database/zip.go", '''	body, err = io.ReadAll(resp.Body)

	if err != nil {
		return nil, fmt.Errorf("could not read OSV database archive from response: %w", err)
	}
''', '''	download, err := os.CreateTemp("", "osv-detector-download-*.zip")

	if err != nil {
		return nil, fmt.Errorf("could not retrieve OSV database archive: %w", err)
	}

	_, err = io.Copy(download, resp.Body)
	download.Close()

	if err != nil {
		return nil, fmt.Errorf("could not read OSV database archive from response: %w", err)
	}

	body, err = os.ReadFile(download.Name())

	if err != nil {
		return nil, fmt.Errorf("could not read OSV database archive from response: %w", err)
	}

	os.Remove(download.Name())
''')], '''
type zzCut struct{}

func (zzCut) Read([]byte) (int, error) { return 0, io.ErrUnexpectedEOF }

func TestZZDemo(t *testing.T) {
	d := zzDir(t, map[string]string{
		"package-lock.json": zzLock("p@1.0.0"),
		"tmp/x":             "",
	})
	t.Setenv("TMPDIR", d+"/tmp")
	zzServe(func(_ *http.Request, _ string) (int, http.Header, io.Reader, error) {
		return 200, nil, io.MultiReader(strings.NewReader("PK"), zzCut{}), nil
	})
	zzRun("package-lock.json")
	es, _ := os.ReadDir(d + "/tmp")
	if len(es) != 1 {
		t.Errorf("left behind: %v", es)
	}
}
''', "a download that breaks off", "an unfinished download stays in the temporary directory")

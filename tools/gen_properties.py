#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text is reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                          "mechanism": [dict(name=n, where=w) for n, w in mech],
                          "observe_at": observe or [], "hook_needed": None}})

p("C01", "A package is flagged exactly when an advisory covers its version",
  "An advisory is reported for a package that has a version exactly when one of its affected entries names the package's ecosystem (a ':release' suffix counts only when both sides have one) and name (PyPI names compared in normalised form) and either lists that exact version or has a SEMVER/ECOSYSTEM range containing it under the version ordering the package is compared with: at or after an 'introduced' ('0' means from the start) and not yet ended by the next 'fixed' (exclusive) or 'last_affected' (inclusive, and possibly the very version that was introduced). "
  "The order in which events, ranges, versions and affected entries are written never matters, ranges of other types neither add nor hide a match, and withdrawn advisories are never reported from an archive or directory database. "
  "A package without a version is covered by every advisory entry that names it and has at least one range or version.",
  ["inputs"], "Every advisory (affected entries, ranges, events in any order, versions) and every package version, for every supported version ordering.",
  "Unit tests cover a few dozen hand-picked range/version pairs, always built as Go structs; event permutations, mixed range types, several ranges or entries together, and the JSON decoding of advisories are not covered systematically.",
  ["pkg/database/osv.go", "pkg/database/mem-check.go"],
  [("event sort and affected/not-affected sweep", "pkg/database/osv.go containsVersion"), ("ecosystem, name and version tests", "pkg/database/osv.go IsAffected"), ("range union", "pkg/database/osv.go affectsVersion")],
  observe=["OSV.IsAffected", "database Check() results", "CLI JSON report"])

p("C02", "Database lookups return exactly the advisories that match, per package",
  "Checking any list of packages against a loaded file-based database gives one result list per package, in the same order as the packages, containing exactly the loaded non-withdrawn advisories that affect that package (up to merging of aliases). "
  "The answer for a package does not depend on the other packages in the list, their order or repetition, on the order advisories were loaded in, on earlier checks of the same database, or on restricting loading to the names of the packages being checked.",
  ["inputs", "histories"], "Every set of advisories in every load order, every list of packages, every sequence of checks on one database.",
  "Tests check single lookups on a fresh database; they never permute loading order, repeat checks on one database, or compare filtered with unfiltered loading.",
  ["pkg/database/mem-check.go", "pkg/database/zip.go", "pkg/database/dir.go"],
  [("index by ecosystem and normalised name", "pkg/database/mem-check.go addVulnerability"), ("lookup", "pkg/database/mem-check.go VulnerabilitiesAffectingPackage"), ("name prefilter", "pkg/database/zip.go mightAffectPackages")],
  state=[("vulnerabilities", "advisories by ecosystem-name key", "pkg/database/mem-check.go memDB")],
  observe=["database Check()", "Vulnerabilities()"])

p("C03", "Every finding is reported once per package, merging databases and aliases",
  "For each package, the union of what all databases used for its lockfile report appears exactly once: no two reported entries (counting vulnerabilities and ignored together) share an id or are linked as aliases (one's id among the other's aliases, or a common alias), and every finding of every database is present itself or linked, directly or through other findings for that package, to an entry that is. "
  "When several linked findings exist, the one from the earliest database (and earliest within it) is the one shown; unlinked findings are never merged.",
  ["inputs", "configurations"], "Every assignment of ids and aliases to findings, spread over every number and order of databases and packages.",
  "Tests check the merging helper on a handful of pairs; merging across several databases with ignores only runs in end-to-end tests that need the network.",
  ["main.go", "pkg/database/vulnerabilities.go", "pkg/database/osv.go"],
  [("cross-database merge", "main.go transposePkgResults"), ("alias test", "pkg/database/vulnerabilities.go Includes, pkg/database/osv.go isAliasOf")],
  observe=["CLI JSON report"])

p("C04", "Ignores hide exactly the listed ids and nothing else",
  "A finding is moved from 'vulnerabilities' to 'ignored' exactly when its own id is listed by an --ignore flag or by the config in effect for that lockfile (unless config ignores are disabled by flag), compared exactly; nothing is dropped from the report by ignoring. "
  "Ignored findings do not affect the exit code and are not listed in the text output, and the ignores of one lockfile's config never apply to another lockfile.",
  ["inputs", "configurations"], "Every combination of findings, ignore flags, per-directory and global configs, and config-disabling flags.",
  "The tests that exercise ignores end to end need the network and fail offline; no test combines several configs and flags exhaustively.",
  ["main.go", "internal/reporter/report.go", "internal/configer/load.go"],
  [("ignore list assembly", "main.go run"), ("partition", "main.go transposePkgResults"), ("known count", "internal/reporter/report.go HasKnownVulnerabilities")],
  observe=["exit code", "CLI JSON report", "CLI text report"])

p("C05", "The exit code tells the truth about the scan",
  "Exit code 0 means every given path was read, every needed database answered and no non-ignored vulnerability was found; 1 means at least one non-ignored vulnerability was reported and every lockfile, config and database loaded; 128 means only readable directories were given and none held a recognised lockfile. "
  "If any path, lockfile, config or database fails to load, or a config that was to be updated could not be, the exit code is never 0 (127 for lockfile and database load failures), whatever the other inputs are and in whatever order they are given.",
  ["inputs", "configurations", "fault_sequences"], "Every sequence of inputs (clean, vulnerable, ignored-only, malformed, missing, empty directory) and every database outcome.",
  "Tests sample a few one- or two-path command lines, most of which need the network; the interplay of several failures and findings in different orders is not covered.",
  ["main.go", "internal/reporter/reporter.go"],
  [("exitCode updates", "main.go run"), ("hasErrored", "internal/reporter/reporter.go PrintErrorf")],
  observe=["exit code", "stderr"])

p("C06", "API results stay matched to their packages under any batching and timing",
  "When packages are checked through an OSV API, every package is queried exactly once (by name, ecosystem and version when all three are known, otherwise by commit), every request carries at most the configured number of packages, and the findings the API gives for the k-th package are reported for exactly the k-th package with the details the API serves for each id. "
  "This holds for every number of packages and batch size, whatever order concurrent responses arrive in and however concurrent work is interleaved.",
  ["schedules", "inputs"], "Every package count and batch size within the bound; every completion order of batch and detail requests; every interleaving of the worker goroutines up to the preemption bound.",
  "Tests use a local server with whatever timing happens; they never control response order, so order- or interleaving-dependent misattribution is not reachable on demand.",
  ["pkg/database/api-check.go", "pkg/database/api-fetch-all.go", "pkg/database/api-fetch.go", "pkg/database/api.go"],
  [("batch split", "pkg/database/api-check.go batchPkgs"), ("indexed result slots", "pkg/database/api-check.go Check"), ("parallel detail fetch", "pkg/database/api-fetch-all.go FetchAll")],
  state=[("batchResults", "results by batch index", "pkg/database/api-check.go Check"), ("osvs", "details by position", "pkg/database/api-fetch-all.go FetchAll")],
  observe=["APIDB.Check", "HTTP requests seen by the API"])

p("C07", "API failures are never mistaken for 'no vulnerabilities'",
  "If any batch query fails in any way (connection error, non-200 status, unreadable or non-JSON body, wrong number of results), checking through that API reports an error instead of partial or empty results, the command line shows the error and exits non-zero, and findings from the other databases are still reported. "
  "If only fetching an advisory's details fails, the finding is still reported with its id.",
  ["fault_sequences", "schedules"], "Every assignment of outcomes to the batch and detail requests, in every completion order.",
  "Tests inject one failure kind into a single request at a time; combinations of failing and succeeding batches and of failing detail fetches, and their completion orders, are not covered.",
  ["pkg/database/api-check.go", "pkg/database/api-fetch.go", "pkg/database/api-fetch-all.go", "main.go"],
  [("error group", "pkg/database/api-check.go Check"), ("count check", "pkg/database/api-check.go checkBatch"), ("fallback to id", "pkg/database/api-check.go findOrDefault"), ("error reporting", "main.go check")],
  observe=["APIDB.Check", "exit code", "stderr", "CLI JSON report"])

p("C08", "Archive databases: always current online, last cached copy offline",
  "An online load that succeeds uses exactly the advisories in the archive the server currently has, whether it was downloaded or confirmed unchanged; a failed request is an error and never silently falls back to old data. "
  "An offline load makes no network request and uses exactly the most recent archive the detector cached for that URL, or fails when there is none; caches of different URLs never mix and databases differing only in working directory share one.",
  ["histories", "fault_sequences"], "Every sequence of online/offline loads, server content and header changes, error responses and cache corruption, up to the depth bound.",
  "Tests check one load against one prepared cache file; multi-step histories (cache, server change, failure, offline) are never run.",
  ["pkg/database/zip.go"],
  [("conditional request", "pkg/database/zip.go fetchZip"), ("cache file per URL hash", "pkg/database/zip.go cachePath")],
  state=[("cache file", "last archive with ETag and Date", "TMPDIR/osv-detector-<sha256>-db.json")],
  observe=["NewZippedDB", "HTTP requests", "cache file"])

p("C09", "A crash or failed write or download never corrupts later scans",
  "Whatever point the detector is killed at while fetching or caching a database archive, however much of the cache file was written, and wherever a download breaks off, a broken download is reported as an error and does not disturb the cached copy, and every later online load gives exactly the server's current advisories. "
  "A later offline load gives exactly a previously downloaded complete archive, the one that was cached before or the one that was being cached, and reports that there is none only if none was cached before; it never uses partial data. A failure to write the cache does not change the results of the scan itself.",
  ["crash_points", "fault_sequences"], "Every kill point at a file operation, every torn length of the cache file, every cut-off point of a download.",
  "No test crashes the process or tears a cache file; one test uses a single non-JSON cache file.",
  ["pkg/database/zip.go"],
  [("whole-file JSON cache validated on read", "pkg/database/zip.go fetchZip"), ("read body fully before caching", "pkg/database/zip.go fetchZip")],
  state=[("cache file", "last archive with ETag and Date", "TMPDIR/osv-detector-<sha256>-db.json")],
  observe=["exit code and report of later runs", "cache file"])

p("C10", "File databases load every advisory under the working directory, and only those",
  "For the same tree of files, a local directory database and a zip archive database load the same advisories: every file whose name ends in .json, at any depth under the configured working directory, and nothing outside it. "
  "A file that cannot be read or parsed is named on standard error and skipped without hiding any other advisory, and the reported advisory count is the number loaded. A directory that is reached through a link loads like any other, and a path that is not there or is no directory of advisories is an error.",
  ["inputs"], "Every small tree of files (names, depths, extensions, broken files) and every working directory choice.",
  "Tests use one fixed directory tree and a few fixed archives.",
  ["pkg/database/zip.go", "pkg/database/dir.go", "pkg/database/mem-check.go"],
  [("directory walk", "pkg/database/dir.go load"), ("archive filter", "pkg/database/zip.go load")],
  observe=["database Check()", "VulnerabilitiesCount"])

p("C11", "JavaScript lockfiles: every locked package is listed, with its true identity",
  "For every package-lock.json (lockfile versions 1 to 3), yarn.lock (classic and berry), pnpm-lock.yaml (5.x, 6.x, 9.0) and bun.lock, the listed packages are exactly the distinct packages the file locks, at any nesting depth, each with its real (un-aliased, scope included) name, its locked version without peer or patch decoration, and its git commit when it comes from git. "
  "Several versions of one package are all listed, workspace roots and metadata are not, and the order of entries in the file makes no difference.",
  ["inputs"], "Every lockfile built from the entry alphabet (plain, scoped, aliased, nested, git by each URL form, tarball, file, peer-suffixed, workspace, optional/dev) up to the entry bound, in every order.",
  "Tests parse one fixture per feature; combinations and orders of features, and duplicates across features, are not covered.",
  ["pkg/lockfile/parse-npm-lock.go", "pkg/lockfile/parse-yarn-lock.go", "pkg/lockfile/parse-pnpm-lock.go", "pkg/lockfile/parse-bun-lock.go"],
  [("recursive v1 and flat v2 walk", "pkg/lockfile/parse-npm-lock.go"), ("group scanner", "pkg/lockfile/parse-yarn-lock.go"), ("dependency path decoding", "pkg/lockfile/parse-pnpm-lock.go"), ("tuple decoding", "pkg/lockfile/parse-bun-lock.go")],
  observe=["lockfile.Parse", "--list-packages"])

p("C12", "Python lockfiles: every locked package is listed, with its true identity",
  "For every poetry.lock, pdm.lock, uv.lock, pylock.toml and Pipfile.lock, the listed packages are exactly the packages the file locks (all groups, default and develop), each with its locked version and, when it comes from version control, its commit. "
  "The project's own root entry (uv virtual '.', pylock directory '.' without a version) and Pipfile entries without a version are not listed; nothing else is left out and the order of entries makes no difference.",
  ["inputs"], "Every lockfile built from the entry alphabet up to the entry bound, in every order.",
  "Tests parse one fixture per feature; three of the pylock tests are skipped.",
  ["pkg/lockfile/parse-poetry-lock.go", "pkg/lockfile/parse-pdm-lock.go", "pkg/lockfile/parse-uv-lock.go", "pkg/lockfile/parse-pylock.go", "pkg/lockfile/parse-pipenv-lock.go"],
  [("TOML decoding and entry filters", "pkg/lockfile/parse-*.go")],
  observe=["lockfile.Parse", "--list-packages"])

p("C13", "requirements.txt: each requirement at its lowest version, includes followed",
  "For every requirements file, each requirement line gives one package with its normalised name (extras dropped) at the version after the ==, >= or ~= among its comma-separated specifiers, or 0.0.0 when it has none of those (unconstrained, or only !=, < or <=); environment markers, per-requirement options, comments, blank lines, '-' flags, http(s) URLs and ./, ../ or / paths add nothing, and backslash continuations join lines. "
  "The result is the union over all files reachable through -r lines, resolved relative to the including file; every include graph, cyclic or not, terminates, and a missing include is an error.",
  ["inputs"], "Every file built from the line alphabet up to the length bound, and every include graph over a bounded number of files in nested directories.",
  "Tests parse fixed fixtures including three cyclic ones; the space of include graphs and line combinations is not covered.",
  ["pkg/lockfile/parse-requirements-txt.go"],
  [("include recursion with visited set", "pkg/lockfile/parse-requirements-txt.go parseRequirementsTxt"), ("line parser", "pkg/lockfile/parse-requirements-txt.go parseLine")],
  state=[("requiredAlready", "files already included", "pkg/lockfile/parse-requirements-txt.go")],
  observe=["lockfile.Parse", "--list-packages"])

p("C14", "Maven and Gradle: every dependency listed at its resolved lowest version",
  "For every pom.xml, each dependency and managed dependency gives one package group:artifact whose version has ${property} references resolved from <properties>, whose values can refer to other properties, and ranges reduced to their lower bound ('0' when there is none, or when a property is unknown or leads back to itself); whitespace around values makes no difference; a direct dependency takes precedence over a managed one unless it has no version of its own, in which case it has the managed version, and a later duplicate takes precedence over an earlier one. "
  "For every gradle.lockfile, each group:artifact:version line gives one package, and comments, the empty= line and malformed lines are skipped without affecting the others.",
  ["inputs"], "Every pom/lockfile built from the declaration alphabet up to the bound, in every order of sections and entries.",
  "Tests parse one fixture per feature; combinations of properties, ranges, duplicates and section order are not covered.",
  ["pkg/lockfile/parse-maven-lock.go", "pkg/lockfile/parse-gradle-lock.go"],
  [("interpolation and range reduction", "pkg/lockfile/parse-maven-lock.go ResolveVersion"), ("precedence by map overwrite", "pkg/lockfile/parse-maven-lock.go ParseMavenLock"), ("line parser", "pkg/lockfile/parse-gradle-lock.go")],
  observe=["lockfile.Parse", "--list-packages"])

p("C15", "go.mod: requirements listed with replace directives applied as Go does",
  "For every go.mod, the listed packages are the required modules with each replace directive applied: a directive with a version on the left replaces only that required version, one without replaces every required version of that path, and directives for modules that are not required change nothing. "
  "Replacements are not applied to the result of another replacement, versions are listed without the leading 'v', identical results are listed once, and the order of directives makes no difference.",
  ["inputs"], "Every go.mod with bounded numbers of require and replace directives over a small set of modules and versions, in every order.",
  "Tests parse one fixture per replace form; interactions between several replace directives are not covered.",
  ["pkg/lockfile/parse-go-lock.go"],
  [("replace application", "pkg/lockfile/parse-go-lock.go ParseGoLock"), ("deduplication", "pkg/lockfile/parse-go-lock.go deduplicatePackages")],
  observe=["lockfile.Parse", "--list-packages"])

p("C16", "Cargo, Composer, Bundler, Mix, NuGet, Pub and renv: all locked packages listed",
  "For every Cargo.lock, composer.lock, Gemfile.lock, mix.lock, packages.lock.json, pubspec.lock and renv.lock, the listed packages are exactly the packages the file locks (dev and every framework or source section included), each under the name of the package (not what a dependency may be called locally) with its locked version and, where the format records one for that package (Cargo's sources aside), its own git commit. "
  "Entries of sections that list no locked packages (Bundler platforms/dependencies/versions, indented sub-dependencies) and renv packages from repositories other than CRAN are not listed; a commit never leaks from one section to another and the order of entries makes no difference.",
  ["inputs"], "Every lockfile built from the entry alphabet of its format up to the entry bound, in every order.",
  "Tests parse one fixture per feature; section orders, mixed sources and repeated packages are not covered.",
  ["pkg/lockfile/parse-cargo-lock.go", "pkg/lockfile/parse-composer-lock.go", "pkg/lockfile/parse-gemfile-lock.go", "pkg/lockfile/parse-mix-lock.go", "pkg/lockfile/parse-nuget-lock.go", "pkg/lockfile/parse-pubspec-lock.go", "pkg/lockfile/parse-renv-lock.go"],
  [("section state machine", "pkg/lockfile/parse-gemfile-lock.go"), ("format decoders", "pkg/lockfile/parse-*.go")],
  state=[("state, currentGemCommit", "current Gemfile.lock section and its git revision", "pkg/lockfile/parse-gemfile-lock.go")],
  observe=["lockfile.Parse", "--list-packages"])

p("C17", "CSV rows and files: every row becomes the package it describes, or an error",
  "Every CSV row with at least four fields and a name gives one package: ecosystem from field 1, version ordering from field 2 or else field 1, name, and version; a row without an ecosystem carries a commit instead of a version. "
  "Rows that are too short, differ in their number of fields, have no name, or have neither ecosystem nor commit make the input an error naming the row, and so does text that is not CSV; rows given on the command line and the same rows in a file give the same packages, sorted by name then version.",
  ["inputs"], "Every list of rows over the field alphabet (empty and non-empty values, quoting, extra fields) up to the bound.",
  "Tests check fixed rows; combinations of empty fields and several rows are not covered.",
  ["pkg/lockfile/csv.go", "main.go"],
  [("record decoding", "pkg/lockfile/csv.go fromCSVRecord"), ("row loop", "pkg/lockfile/csv.go fromCSV")],
  observe=["lockfile.FromCSVRows", "lockfile.FromCSVFile", "--list-packages"])

p("C18", "No input content can crash the scan or hide the other lockfiles",
  "Whatever a lockfile contains (truncated, structurally damaged, values of the wrong type, missing or null parts, versions the ecosystem cannot parse), the detector does not crash or hang: it lists what it can or reports an error for that file with a non-zero exit code. "
  "All other lockfiles of the same run are still checked and reported exactly as without the bad file.",
  ["inputs"], "Every single-point damage of a valid document of every format (truncation at every byte, every value replaced by every alternative kind, every element removed), and every such damage combined with healthy neighbours.",
  "Tests use one not-a-lockfile text per format; structured damage inside otherwise valid documents is not covered.",
  ["pkg/lockfile/parse.go", "pkg/lockfile/parse-*.go", "pkg/database/osv.go", "main.go"],
  [("parse errors carried per file", "main.go readAllLockfiles"), ("decoder errors", "pkg/lockfile/parse-*.go")],
  observe=["process survival", "exit code", "CLI JSON report"])

p("C19", "Exactly the intended files are scanned, with the intended parser",
  "A directory argument contributes exactly its direct, non-directory entries whose file name belongs to a supported format (every one of them if a parser is forced for it), in name order; a file argument contributes itself; and every contributed file gives one result or one error, in argument order, however many there are. "
  "The parser is the one named by a 'format:' prefix on that argument, else by --parse-as, else by the file's base name; a leading ':' only escapes colons in the path, an unsupported --parse-as is refused, and a file no parser fits is an error rather than being skipped.",
  ["inputs", "configurations"], "Every combination of directory contents, argument lists, prefixes and --parse-as values within the bound.",
  "Tests cover single arguments on fixed directories; most need the network.",
  ["main.go", "pkg/lockfile/parse.go"],
  [("directory listing and filtering", "main.go findLockfiles"), ("prefix split", "main.go parseLockfilePathWithParseAs"), ("parser table", "pkg/lockfile/parse.go FindParser")],
  observe=["--list-packages --json output", "exit code"])

p("C20", "Each lockfile is judged by its own config and databases, independent of the rest",
  "The result for a lockfile is the same whether it is scanned alone or together with others in any order: its config is the --config file if given, else .osv-detector.yml or .yaml beside it, else none, and configs, ignores and databases of other lockfiles never leak into it. "
  "It is checked against exactly its config's databases (unless disabled by flag), the API if enabled, and, if enabled, the ecosystem databases of the packages it contains, each loaded at most once per run; a broken local config makes only the lockfiles beside it errors, a broken --config file stops the run.",
  ["configurations", "inputs"], "Every set of lockfiles over directories with and without configs, in every order, under every combination of the config and database flags.",
  "The config tests need the network for anything beyond empty lockfiles; no test compares scanning alone with scanning together.",
  ["main.go", "internal/configer/load.go", "pkg/database/config.go"],
  [("per-file config", "main.go readAllLockfiles"), ("database choice", "main.go adjustExtraDatabases, forConfigs, uniqueDBConfigs"), ("identifier", "pkg/database/config.go Identifier")],
  state=[("config.Databases", "databases for a lockfile", "main.go lockfileAndConfigOrErr")],
  observe=["CLI JSON report", "HTTP requests"])

p("C21", "Updating config ignores records exactly the current findings and nothing else",
  "After a run with --update-config-ignores in which everything loaded, each config that was used lists exactly the ids of the findings (ignored or not) in all lockfiles that used it (by whatever path or link), sorted and without duplicates, keeps its extra databases, and no other file changes; where no config exists none is created. "
  "Scanning again then reports nothing new for those lockfiles, and updating again changes nothing.",
  ["histories", "configurations"], "Every assignment of lockfiles to configs, every prior ignore list, and repeated runs.",
  "The update tests need the network; repeated runs are never tested.",
  ["main.go", "internal/configer/update.go", "internal/configer/load.go"],
  [("collection per config path", "main.go run"), ("rewrite", "internal/configer/update.go UpdateWithIgnores")],
  state=[("config file", "ignores and extra databases", ".osv-detector.yml")],
  observe=["config file content", "exit code of later runs"])

p("C22", "JSON and text output agree, and JSON output is always one valid document",
  "With --json, standard output is exactly one JSON document with one result per successfully read lockfile in order, whatever succeeds or fails, and everything else goes to standard error; without it, the same findings are printed as text. "
  "Both modes give the same exit code and the same findings per package, and the text summary count equals the number of non-ignored findings.",
  ["inputs", "configurations"], "Every world of lockfiles, findings, ignores and failures within the bound, in both modes.",
  "Tests compare a few snapshots; most need the network.",
  ["internal/reporter/reporter.go", "internal/reporter/report.go", "main.go"],
  [("result buffering", "internal/reporter/reporter.go PrintResult, PrintJSONResults"), ("text rendering", "internal/reporter/report.go String")],
  observe=["stdout", "stderr", "exit code"])

p("C23", "The same input always gives the same output",
  "Scanning the same files against the same databases always prints the same report, byte for byte, and the same exit code, no matter in which order hash maps are iterated or directory entries are returned. "
  "Packages are listed sorted by name and then version.",
  ["schedules", "inputs"], "Every iteration order of every hash map used while parsing, loading, checking and reporting, up to the deviation bound, for every lockfile format.",
  "Go randomises map iteration, so a test sees one arbitrary order per run and compares package lists as sets.",
  ["pkg/lockfile/parse.go", "pkg/lockfile/parse-*.go", "pkg/database/mem-check.go", "main.go"],
  [("sort after parsing", "pkg/lockfile/parse.go Parse"), ("sorted ecosystems, ignores and update lines", "pkg/lockfile/parse.go Ecosystems, main.go writeUpdatedConfigs")],
  observe=["stdout", "lockfile.Parse"])

p("C24", "Findings are described with their advisory's own data",
  "In the text report every finding is shown under its package's name@version with the advisory's id followed by its whole summary or, when it has none, its details: in full when they are shorter than 80 characters and otherwise cut within the first 80 characters, at the last space there if there is one, never inside a character, with '...' after it. "
  "An advisory with neither is said to have no details, and exactly the ids starting with GHSA come with a link to that advisory. In the JSON report a finding (ignored or not) has the id, aliases, summary, details, dates and affected entries (packages, versions, ranges and events in their order) its advisory has, no matter whether it is from an archive, a directory or an API.",
  ["inputs"], "Every length, character width and placement of spaces around the limit; every combination of fields of an advisory from every kind of database.",
  "Tests describe a handful of ASCII texts and never compare the data of a reported finding.",
  ["pkg/database/osv.go", "internal/reporter/report.go", "pkg/database/api-fetch.go"],
  [("description", "pkg/database/osv.go Describe, truncate, Link"), ("text rendering", "internal/reporter/report.go formatLineByLine"), ("advisory fields", "pkg/database/osv.go OSV")],
  observe=["stdout"])

p("C25", "Listing packages shows exactly what a scan would check, and nothing else happens",
  "With --list-packages every lockfile that can be read is listed with exactly the packages a scan of it reports on (in the same order, with ecosystem, name, version and commit, the same ones in text and JSON), whatever other flags are given. "
  "No config or database is read, no request is made and no file is written, so a broken config or an unreachable database makes no difference; the exit code is 0 when every path could be read and 127 otherwise (128 if there is nothing to list).",
  ["inputs", "configurations"], "Every format, every kind of package (with and without ecosystem, version, commit) and every combination of inputs and flags within the bound.",
  "Tests list a few fixtures with default flags.",
  ["main.go", "pkg/lockfile/parse.go"],
  [("listing", "main.go run, loadDatabases"), ("text form", "pkg/lockfile/parse.go Lockfile.String")],
  observe=["stdout", "exit code", "requests", "files"])

p("C26", "Scanning only reads: no file is touched and nobody else is asked",
  "Without --update-config-ignores a scan leaves every lockfile, config and database as it was and creates nothing beside them; the only files it writes are the cached copies of the archives it fetched, one per archive. "
  "Requests go only to the databases in effect for the lockfiles that are scanned (their configs' unless disabled, the API and the ecosystem archives if enabled), never to one that only a config of another directory names, and there are none with --offline. This holds whatever fails during the scan.",
  ["inputs", "configurations", "faults"], "Every combination of inputs, flags, configs and database failures within the bound, with and without a warm cache.",
  "No test looks at the file system or the requests after a scan.",
  ["main.go", "pkg/database/zip.go", "pkg/database/api-check.go", "internal/configer/update.go"],
  [("databases in effect", "main.go adjustExtraDatabases, uniqueDBConfigs"), ("cache", "pkg/database/zip.go"), ("update guard", "main.go run, writeUpdatedConfigs")],
  observe=["files", "requests"])

p("C27", "The databases that are used are the ones that flags, environment and config name",
  "An extra database is of the kind its type says or, without a type, a local directory if its url starts with file:/, an archive if it ends in .zip and an API otherwise; file:/ paths are relative to the working directory of the run and file://// paths absolute. It is used as exactly that kind, and an entry with an unknown type or an unusable url is reported and fails the run (unless something is found) without keeping the others from being used. "
  "By default the ecosystem archives are used and the osv.dev API is not; OSV_DETECTOR_PREFER_API=true (exactly that) swaps these defaults, and explicit --use-dbs and --use-api flags win over both, independently of each other. Requests to an API never hold more than --batch-size packages, and a batch size below 1 is an error when an API is used.",
  ["inputs", "configurations"], "Every combination of type, url, working directory, environment value and flag spelling within the bound.",
  "Tests infer the kind of three urls, never set the environment variable and never look at what is asked for.",
  ["main.go", "internal/configer/load.go", "pkg/database/config.go", "pkg/database/dir.go", "pkg/database/api.go"],
  [("kind of a database", "internal/configer/load.go inferDBType, toConfig"), ("defaults", "main.go preferAPI, run"), ("batch size", "pkg/database/api.go NewAPIDB")],
  observe=["stdout", "exit code", "requests"])

p("C28", "Scans that run at the same time do not disturb each other's cached archives",
  "When two runs of the detector use the same cached archive at the same time, every online load gives exactly the advisories its server has and every offline load exactly a complete archive that was downloaded before (the one cached at first or by the other run), or reports that there is none if none was cached when it started; neither ever uses a partly written or mixed one. "
  "Once both have ended, an offline load still finds a complete archive that one of them (or an earlier run) cached. This holds for every interleaving of the two.",
  ["schedules"], "Every pair of positions at which the two runs can be stopped while they read and write the cache.",
  "No test runs two scans at once.",
  ["pkg/database/zip.go"],
  [("reading and writing the cache", "pkg/database/zip.go fetchZip, cachePath")],
  observe=["findings", "files"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))

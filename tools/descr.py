SETUP = "tools/setup.sh"
NOTES = ("bin/check ID [quick|thorough] explores, bin/check --replay FILE re-executes one recorded case. Every check builds a worker "
         "from /repo's current tree through a build overlay (nothing of the harness is in /repo, so there are no hooks there). "
         "VERIF_FAMILY=name explores one family only, VERIF_BUDGET_S limits the time.")
NA = []
T = "explicit-state exploration of the real code against a reference model"
META = {}


def d(pid, rule, note, assume, technique=T, level="model_checking", **kw):
    META[pid] = dict(level=level, technique=technique, rule=rule, level_note=note, assumptions=assume, **kw)


COMMON = ["the version comparison library (osv-scalibr/semantic), the yaml, toml, json, zip and go.mod libraries are trusted",
          "the network is the simulated transport installed as http.DefaultTransport; files are real files in a private scratch directory"]

d("C01", "Every advisory entry over the alphabet (event lists in every written order, one or two ranges, other range types, version lists, two entries, name and ecosystem spellings) against every package version of the ordering; one state per distinct (advisory, package) pair, transitions are choices. Non-trivial: the advisory names the package.",
  "All event sequences up to length 4 (every order) over 8 ranked versions of 14 version orderings, alternating sequences up to 31 (60) events, ranges of a single version with their events in every order, pairs of ranges, pairs of entries, all name/ecosystem spellings; judged by an independent model of coverage over ranks. Holds for everything in the alphabet; says nothing about version strings outside it.",
  COMMON + ["ranges that are empty or overlap (a 'fixed' at the very version of an 'introduced', an 'introduced' inside a range that is still open at that version) are outside the alphabet: OSV leaves their meaning open"])
d("C02", "Every set of advisories from a menu of 14 (aliases, withdrawn, several entries, same id twice, release suffixes, odd names), loaded in every order, checked with every package list from the menu, repeatedly, with and without name restriction, from directory and archive. Non-trivial: at least one advisory matches.",
  "All advisory sequences up to length 4 (5) in every load order x all package lists; sizes up to 40 (130) advisories and packages in the scale family. Every spelling of a name from the command line down to the lookup (cli-names).",
  COMMON)
d("C03", "Every assignment of ids and alias sets to three (four) findings, spread over databases in every way, through the command line. Non-trivial: at least two findings are linked.",
  "All alias graphs over 3 findings with up to 2 (4) aliases each, distributed over up to 3 databases; 4 findings with a smaller alphabet; config database, API and ecosystem database mixed. Oracle: no two reported entries linked, every finding connected to a reported one, earliest wins, unlinked never merged. Ids and aliases that differ only in case, a prefix, a suffix or surrounding characters (similar-ids) are never taken for one another.",
  COMMON + ["API findings carry the aliases of the details document"])
d("C04", "Every combination of ignore lists (config of each lockfile, flags, --no-config-ignores, --config, --no-config), findings and directories, both output modes. Non-trivial: at least one id is listed.",
  "All subsets up to 3 (4) of a menu with exact, prefix, differently cased, aliased and unknown ids, for two lockfiles with different configs, x all flags; compared with a model of the whole report.",
  COMMON)
d("C05", "Every list of arguments over good, vulnerable, ignored, broken, missing, empty and unreadable inputs in every order, every outcome of every database, with every relevant flag. Non-trivial: more than one thing can influence the exit code.",
  "All argument lists up to length 3 (4) over 12 kinds of arguments; all outcomes of up to three databases; the exit code is predicted by the model from what failed and what was found. Faults of the operating system: in 8 whole scans that read every kind of file (directories, lockfiles, includes, configs, CSV, directory and archive databases, online, offline and listing) every file and directory in turn (thorough: every pair) is made unreadable, unlistable or unsearchable, with the scan running under an unprivileged file system user; and in 12 scans of a process of its own every system call that touches the scanned files (open, read, pread, getdents, stat, write, ...) in turn fails (strace injection; EIO, thorough also EACCES, EMFILE, ENOMEM). Whatever is then missing from the report must show in the exit code and on standard error. Single files of a directory database may be skipped with a message, as for files that cannot be parsed.",
  COMMON)
d("C06", "Arrival orders: all orders in which concurrent responses arrive. Interleavings: the package is instrumented with a scheduling point before every statement and inside assignments, and all schedules up to the preemption bound are executed. One state per distinct input, traces are executions (schedules). Non-trivial: several requests in flight.",
  "Every number of packages up to 7 (9) x every batch size x all result shapes; all arrival orders for up to 3 (4) concurrent requests; all schedules with at most 1 (2) preemptions between any two statements; a separate free-running race-detector run of the same bodies.",
  COMMON + ["sync.Mutex, RWMutex and Once are replaced by models whose waiting the scheduler sees; other blocking is channels, which testing/synctest sees"],
  technique="stateless model checking of the real code: all response orders, all schedules up to a preemption bound", budget=500,
  parts=[{"kind": "plain"}, {"kind": "sched", "worker": "C06s"}, {"kind": "race", "worker": "C06r"}])
d("C07", "Every way each request of a check can fail (connection, each class of status, cut at every byte, every malformed or mis-sized body), at every request, in combination, in every order of arrival. Non-trivial: at least one request fails.",
  "All single failures and all pairs at every request for up to 4 (5) batches; bodies cut at every byte; result lists of every wrong size; details failing for every subset of ids; through the library and the command line with other databases present; 1 (2) preemptions.",
  COMMON, technique="fault enumeration over all requests and schedules of the real code", budget=500,
  parts=[{"kind": "plain"}, {"kind": "sched", "worker": "C07s"}])
d("C08", "All histories of loads (online, offline, other working directory, other URL), publications, changes of the server's validators, failing requests and cleaned caches, up to the depth; the model tracks the server and which version may be cached. Transitions are operations. Non-trivial: the history ends in a load.",
  "All histories of length 5 (6) over 14 operations x 4 validator modes; all pairs of similar URLs; all pairs of failures in every cache state; all scan histories of length 4 (5) through the command line.",
  COMMON + ["the server's validators identify versions (ETag changes whenever the archive does; Last-Modified semantics per RFC 9110)", "a download that carries neither ETag nor Date may or may not be kept for offline use"], budget=600)
d("C09", "Every byte at which a download can end (three kinds of ends), every byte at which writing the cache can fail or the process be killed, every file system call before which it can be killed, every kind of unwritable cache; from every starting state of the cache, followed by every order of later loads. Non-trivial: every case.",
  "Complete over byte positions (in quick every 7th byte and the last 14 for kills, every byte for failed writes and downloads), over the file system calls the load makes (counted on each run), 5 starting states, 3 validator modes, 3 continuations; two consecutive kills.",
  COMMON + ["crashes are process crashes: what was written before the kill is there afterwards, nothing else is lost"],
  technique="crash and fault enumeration: real process killed at every byte and system call, every download cut", level="fault_enumeration", budget=500)
d("C10", "Every small tree of files (names that end in .json or nearly so, at several depths, sibling directories with a common prefix), every working directory spelling, every placement of files that cannot be parsed; the same tree as a directory and as an archive (fresh and cached). Non-trivial: every tree with at least one file.",
  "All subsets up to 4 (5) of 15 paths x 17 working directories; all placements of 10 kinds of broken files among 4; all archive layouts (entry order, compression, directory entries, damaged entries); up to 300 files and depth 65; 14 ways to reach the directory (links, chains of links, links as working directory; dangling links, files).",
  COMMON + ["symbolic links below the directory, '..' in working directories and working directories that do not exist are outside the alphabet"])
PARSER = ("Documents are built from a menu of entries, each with the packages it locks: every ordered selection without conflicting keys up to the bound, in every layout of the format. Non-trivial: the document locks a package.")
PX = COMMON + ["documents have the shape the package manager writes; what malformed documents do is C18"]
d("C11", PARSER, "All ordered selections of up to 3 (4) entries from menus of 9 to 20 per format (scopes, aliases, git sources of every host, peers, patches, workspaces, nested dependencies up to depth 3/4), all formats and versions; all names x versions; sizes up to thousands of entries. All pairs and orders of packages whose names, versions or commits differ in one component only; lines longer than the buffers of the line readers. Keys longer than yarn writes in the plain form (explicit keys) and every single entry kind in every position.", PX)
d("C12", PARSER, "All ordered selections of up to 3 (4) entries per format; names x versions; sizes; all pairs and orders of packages differing in one component only.", PX)
d("C13", PARSER + " Include graphs: every directed graph over the files, with every placement in directories.", "Every line of name x specifier x tail; all files of up to 3 (4) lines from the menu; all placements of continuations; all include graphs over 3 (4) files in nested directories, cyclic ones included, and missing includes; all pairs of packages differing in one component only; over-long lines.", PX + ["=== and > specifiers, PEP 508 direct references and VCS URLs are outside the alphabet"])
d("C14", PARSER, "All version expressions (literals, ranges, properties, combinations); all poms of up to 3 (4) declarations in every placement; all gradle files of up to 4 (5) lines; all pairs of packages differing in one component only; over-long lines; all assignments of 8 (9) values to 3 properties that refer to each other; chains of up to 12 (40) properties; whitespace around every value.", PX)
d("C15", PARSER, "All go.mod files of up to 2 (3) requirements and 3 replace directives over colliding paths and versions, in every order and layout.", PX)
d("C16", PARSER, "All ordered selections of up to 4 (5) entries per format (2+2 for two-section formats); all source sections of Gemfile.lock in every order; names x versions; sizes; all pairs of packages differing in one component only; over-long lines.", PX)
d("C17", "Every row over the alphabet of fields, every list of rows up to the bound, given as a file and on the command line. Non-trivial: at least one row.", "All rows of up to 6 fields over empty and non-empty values with quoting; all lists of up to 4 (5) rows; sizes up to 3000 rows.", COMMON)
d("C18", "Starting from a valid document of every format: cut at every byte, every byte replaced, inserted or removed, every value of the parsed structure replaced by every other type or removed, pairs of those, all very short files, extreme sizes, versions that cannot be parsed; alone and among good lockfiles. Non-trivial: the document differs from the valid one.",
  "Complete over positions and structural edits of the 22 sample documents; all texts up to length 2 (3) over each format's characters; a worker that dies, runs out of memory (8 GB) or hangs (60 s) is a violation. Files and directories that the user may not read (denied), as an unprivileged user of the file system.",
  COMMON + ["duplicate keys by the tens of thousands in YAML (quadratic in the yaml library) are outside the alphabet"], budget=500)
d("C19", "Every directory content, argument list, prefix and --parse-as value over the alphabet, including every known file name and near misses of it. Non-trivial: at least one file is scanned or refused.",
  "All formats x ways of naming them; all directory contents of up to 4 (6) entries; all argument lists of up to 2 (3); all placements of colons; up to 400 inputs of mixed formats; up to 150 inputs of every kind while only 16 more files may be open.", COMMON)
d("C20", "Every combination of configs (15 kinds), lockfiles and flags for two directories, and for three with a smaller alphabet, in every order; the requests made are compared as well. Non-trivial: more than one lockfile.",
  "15 x 15 configs x lockfile kinds x flags; all database orders; compared with the model of the whole run and with scanning each lockfile alone; byte for byte for up to 3 (4) lockfiles that put the same packages to the same advisories under different version orderings; all pairs (triples) of 14 databases whose addresses and working directories resemble one another, in one config or two. Configs, lockfiles and directories that the user may not read (denied); every spelling of the names (cli-names); databases easily mistaken for one another, by address, working directory or name (identities).", COMMON, budget=500)
d("C21", "Every world of configs, lockfiles and databases, followed by every history of updates, scans, new advisories and changed lockfiles; the whole tree is compared before and after. Non-trivial: a config is rewritten.",
  "All worlds of two directories x 8 (15) configs each; all histories of length 3 (4); every spelling of paths that reach one config.", COMMON, budget=500)
d("C22", "The worlds of C05 in text and JSON mode, every early exit, every shape of findings. Non-trivial: output in both modes.",
  "Both modes of each run are compared with each other and with the model.", COMMON, budget=500)
d("C23", "The sources are instrumented so that the order of every map iteration is chosen by the explorer: for every document and scan, the sorted order, the reversed order, and every execution in which at most the bound of iterations has any other order. Directory entries are created in every order, API responses arrive in every order. Non-trivial: at least two packages.",
  "At most 1 (2) map iterations deviate, all permutations up to 4 keys (rotations, swaps and reversal above); all documents of the C11, C12, C14 to C16 alphabets up to their bounds; scans with configs, updates and every output mode, compared byte for byte.",
  COMMON + ["map iteration inside the standard library and dependencies is not controlled"], technique="stateless model checking of the real code with controlled map iteration order", budget=500,
  parts=[{"kind": "maps"}])
d("C24", "Every text of details over character widths, lengths around the limit and placements of up to two spaces, every id, summary and package spelling, printed by a scan and read back; every combination of the fields of an advisory, from each kind of database, compared field by field with the JSON report. Non-trivial: the text reaches the limit, or data is compared.",
  "All lengths 0 to 6 (20) and 74 to 86 (60 to 100) and some longer ones, of one or two of four character widths, a space at each of 14 (50) positions and another one anywhere; 10 ids x 8 summaries x 6 details x 15 packages; all field combinations (18 000) x 3 kinds of database x ignored or not.", COMMON + ["what is done with details of exactly 80 characters (shown in full or cut) is left open, as is a text whose only space is its first character"])
d("C25", "Every format alone and every pair of formats, every list of packages over the alphabet as CSV, and every list of inputs, each listed in both modes with flags that must make no difference, on a network that fails every request; the files are compared before and after. Non-trivial: something is listed.",
  "21 formats and CSV alone x 12 flag sets and in all pairs; all lists of up to 2 (3) packages from 5 ecosystems x 6 names x 4 versions; all lists of up to 2 (3) inputs of 16 kinds x 12 flag sets.", COMMON)
d("C26", "Every list of inputs of 16 kinds and every assignment of databases to two configs, with every outcome of the archives, under every flag; each scan is run twice (cold and warm cache); all files and all requests are compared with what the model allows. Non-trivial: at least one database is in effect.",
  "All lists of up to 2 (3) inputs x 18 flag sets; all pairs of configs with up to 2 of 5 databases x 3 (5) outcomes of two archives x 9 flag sets.", COMMON)
d("C27", "Every config of one or two databases over types, urls, working directories and names, where each url answers both as an archive and as an API; every value of the environment variable with every spelling of the two flags, each in a process of its own; every batch size. What is asked for and reported is compared with the model. Non-trivial: every case.",
  "22 urls x 6 types x working directory x name, alone and followed by each other url (thorough: by every other entry); 8 values of the variable x 7 x 7 flag spellings in both orders x offline x 3 inputs; 10 batch sizes x 5 numbers of packages x flags.", COMMON + ["urls of the form file://host/path are outside the alphabet"])
d("C28", "Two real processes load the same archive; strace stops the first after each of its system calls on the cache, then the second runs until each of its own (or to its end), then the first ends, then the second; both results and those of later loads are judged. Non-trivial: the first was stopped on its way.",
  "All pairs of stopping points (at most two preemptions) at the granularity of system calls; 2 (4) initial caches x 9 pairs of loads (three versions of the archive of different lengths, offline) x 2 kinds of validators.",
  COMMON + ["a single system call is taken to be atomic", "without a working strace the interleavings are skipped (and counted as such)"], technique="stateless model checking of real processes under a controlled scheduler (strace)", budget=500)

#!/usr/bin/env python3
"""Writes ../properties.jsonl (kept as a script so the statements are easy to edit and to validate)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files, "state": state or [], "mechanism": [{"name": n, "where": w} for n, w in mech],
                  "observe_at": observe or ["CLI stdout (--json / --list-packages --json / text)", "exit code"], "hook_needed": None}})
LF="pkg/lockfile/"; DB="pkg/database/"

prop("C01","JavaScript lockfiles: exactly the locked packages are listed",
 "For every well-formed package-lock.json (v1, v2, v3), yarn.lock (classic and berry), pnpm-lock.yaml (v5, v6, v9) and bun.lock, the packages listed are exactly the third-party packages recorded in the file - nested, scoped, aliased, peer-suffixed, file and git ones included - each with its real (un-aliased) name, its locked version and, for git dependencies, its commit. None is dropped, invented or given another package's version or commit, repeated entries of the same package in package-lock.json are listed once, and the project itself is not listed. If the file cannot be read completely the scan reports an error rather than a partial list.",
 ["inputs"],"all well-formed JavaScript lockfiles: any number, nesting, order and mix of registry, aliased, scoped, peer, git, tarball and file packages",
 "The tests sample a few dozen fixture files with one feature each; combinations (aliased + scoped + nested, scoped peers, commits shared by versions, very long lines) are unbounded.",
 [LF+"parse-npm-lock.go",LF+"parse-yarn-lock.go",LF+"parse-pnpm-lock.go",LF+"parse-bun-lock.go",LF+"parse.go"],
 [("ParseNpmLock","pkg/lockfile/parse-npm-lock.go"),("ParseYarnLock + tryExtractCommit","pkg/lockfile/parse-yarn-lock.go"),("ParsePnpmLock","pkg/lockfile/parse-pnpm-lock.go"),("ParseBunLock","pkg/lockfile/parse-bun-lock.go")])
prop("C02","Python lockfiles: exactly the locked packages are listed",
 "For every well-formed poetry.lock, Pipfile.lock, pdm.lock, uv.lock, pylock.toml and requirements.txt, the packages listed are exactly the packages the file records with a version, in every group or section (default and develop in Pipfile.lock), with the version recorded and, where the format records one, the git commit; the root project is not listed. For requirements.txt, extras, markers, comments, options and line continuations never change a package's name or version, files included with -r are followed once each relative to the including file (a missing one is an error), and a non-exact requirement is listed at its lower bound or 0.0.0.",
 ["inputs"],"all well-formed Python lockfiles and requirements files, including include graphs with sharing and cycles",
 "Fixtures hold one or two packages per feature; the requirement-line grammar and include graphs are unbounded.",
 [LF+"parse-requirements-txt.go",LF+"parse-poetry-lock.go",LF+"parse-pipenv-lock.go",LF+"parse-pdm-lock.go",LF+"parse-uv-lock.go",LF+"parse-pylock.go"],
 [("parseLine/parseRequirementsTxt",LF+"parse-requirements-txt.go"),("TOML/JSON decoders",LF+"parse-{poetry,pipenv,pdm,uv}-lock.go, parse-pylock.go")])
prop("C03","JVM, .NET and PHP files: exactly the declared packages are listed",
 "For every well-formed pom.xml, gradle.lockfile, buildscript-gradle.lockfile, packages.lock.json and composer.lock, the packages listed are exactly those the file declares (managed and direct, every configuration, every target framework, dev included), each once per version, with the version recorded and, for composer, the commit reference. In pom.xml properties are substituted, a version range is listed at its lower bound (0 when it has none or the property is unknown) and a direct dependency's own version takes precedence over the managed one.",
 ["inputs"],"all well-formed pom.xml, gradle, NuGet and composer lock files",
 "Tests sample one interpolation and one dependencyManagement fixture; the combinations of property, range and precedence are unbounded.",
 [LF+"parse-maven-lock.go",LF+"parse-gradle-lock.go",LF+"parse-nuget-lock.go",LF+"parse-composer-lock.go"],
 [("ResolveVersion",LF+"parse-maven-lock.go"),("parseGradleLine",LF+"parse-gradle-lock.go"),("parseNuGetLock",LF+"parse-nuget-lock.go"),("extractCommit",LF+"parse-composer-lock.go")])
prop("C04","Ruby, Go, Rust, Elixir, Dart and R files: exactly the locked packages",
 "For every well-formed Gemfile.lock, go.mod, Cargo.lock, mix.lock, pubspec.lock and renv.lock, the packages listed are exactly the packages the file locks, with the version recorded (platform suffixes of gems and the leading v of Go versions removed) and, for git-sourced gems, hex packages and pub packages, the recorded commit of that package and of no other. In go.mod, replace directives are applied to exactly the required module versions they name, and in renv.lock packages from repositories other than CRAN are left out.",
 ["inputs"],"all well-formed lockfiles of these six formats, any number and order of sections, sources and directives",
 "Fixtures fix the order of sections and directives; leaks of state between sections or directives depend on order and combination.",
 [LF+"parse-gemfile-lock.go",LF+"parse-go-lock.go",LF+"parse-cargo-lock.go",LF+"parse-mix-lock.go",LF+"parse-pubspec-lock.go",LF+"parse-renv-lock.go"],
 [("gemfileLockfileParser state machine",LF+"parse-gemfile-lock.go"),("replace handling",LF+"parse-go-lock.go"),("line scanner",LF+"parse-mix-lock.go")],
 state=[{"name":"currentGemCommit","meaning":"commit of the section being parsed","where":LF+"parse-gemfile-lock.go"}])
prop("C05","CSV rows and files: every row becomes exactly the package it describes",
 "Every CSV row given as an argument or in a file (blank lines are not rows) yields exactly one package with the given ecosystem, name and version, compared as the second field or, when that is empty, as its own ecosystem; when the ecosystem is empty the fourth field is a commit and there is no version. Rows and files with the same content give the same packages, and a row with fewer than four fields, no name, or neither ecosystem nor commit is reported as an error naming the row, never skipped silently.",
 ["inputs"],"all CSV texts, including quoting, embedded commas, quotes and newlines, extra fields, empty fields, blank lines",
 "The tests cover a handful of rows; quoting and field combinations are unbounded.",
 [LF+"csv.go","main.go"],[("fromCSVRecord",LF+"csv.go"),("FromCSVRows/FromCSVFile",LF+"csv.go")])
prop("C06","A package is reported for an advisory if and only if it is affected",
 "A package is reported as affected by an advisory of a loaded dir or zip database exactly when the advisory is not withdrawn and one of its affected entries has the same ecosystem (a suffix such as Debian:10 matters only when both sides have one), the same name (PyPI names compared in PEP 503 normal form) and either lists the exact version, or has a SEMVER or ECOSYSTEM range whose introduced, fixed and last_affected events contain it (events at the same version being taken in the order written); a package without a version is affected by any entry with versions or ranges. The order of advisories, affected entries, ranges and events, and the presence of other packages, entries or GIT ranges, never otherwise changes the outcome.",
 ["inputs"],"all sets of packages and advisories, any number and order of affected entries, ranges, events and versions",
 "Unit tests evaluate fixed advisories; interaction of several affected entries, ranges in any order, interleaved events and names shared across ecosystems is combinatorial.",
 [DB+"osv.go",DB+"mem-check.go",DB+"zip.go","main.go"],
 [("OSV.IsAffected / containsVersion",DB+"osv.go"),("hash lookup and name prefilter",DB+"mem-check.go, zip.go:mightAffectPackages")])
prop("C07","Range boundaries follow the version ordering of the compared-as ecosystem",
 "Whether a version lies inside an affected range is decided by the version ordering of the ecosystem the package is compared as: a version is affected iff it is not lower than introduced, lower than fixed, and not higher than last_affected, with versions that the ecosystem considers equal treated alike however they are spelt. This holds for every ecosystem whose versions the detector can compare, and when a version cannot be compared the package is reported rather than silently passed or the program crashing.",
 ["inputs"],"all versions and range bounds in every comparable ecosystem (npm, PyPI, Maven, NuGet, RubyGems, Packagist, Go, crates.io, Hex, Pub, CRAN, Debian, Alpine, Red Hat ...)",
 "Comparison is exercised in the tests only through a few semver-like versions; pre-releases, epochs, numeric-vs-text segments, padding zeros and boundary equality per ecosystem are not.",
 [DB+"osv.go",LF+"csv.go"],[("containsVersion using semantic.Parse with CompareAs",DB+"osv.go")])
prop("C08","Aliased advisories are reported once per package and never lost",
 "For each package, no two reported advisories have the same ID, name each other as an alias or share an alias, within one database or across databases; every advisory affecting the package is either reported itself or linked by aliases to one that is reported (directly within one database, possibly through a chain of advisories affecting the package across databases); and nothing else is reported. When databases disagree on which ID to report, the one from the database listed first is used.",
 ["inputs","configurations"],"all alias graphs and their distribution over one or more databases",
 "The tests hold two or three hand-written advisories; alias graphs (chains, stars, one-sided aliases, shared third IDs) split across databases are combinatorial.",
 [DB+"vulnerabilities.go",DB+"osv.go",DB+"mem-check.go","main.go"],[("Vulnerabilities.Includes / isAliasOf",DB+"vulnerabilities.go, osv.go"),("transposePkgResults","main.go")])
prop("C09","Ignoring moves exactly the named advisories and nothing else",
 "Running with any set of ignored IDs (flags and config combined) reports for each package the same advisories as running without, split so that those whose ID is exactly an ignored ID are listed as ignored and all others as vulnerabilities. Ignored ones do not count towards exit code 1 or the vulnerability count, --no-config-ignores and --no-config disable the config's list but never the flags, and an ignore list only applies to lockfiles using that config.",
 ["inputs","configurations"],"all scans and all ignore lists, including IDs that are prefixes, case variants or aliases of reported ones",
 "The tests ignore one or two fixed IDs in one lockfile; the partition law must hold for every combination of flags, configs, packages and databases.",
 ["main.go","internal/configer/load.go","internal/reporter/report.go"],[("transposePkgResults and ignores assembly","main.go"),("config.Ignore","internal/configer/load.go")])
prop("C10","Each lockfile is checked under exactly its own config and databases",
 "A lockfile is checked with the ignores and extra databases of the .osv-detector.yml (or, only if there is none, .osv-detector.yaml) in its own directory, or of the --config file when given, or of none with --no-config; --no-config-databases drops only the extra databases. Settings never leak between lockfiles in one run, the same database used by several lockfiles is loaded once, an unreadable or invalid config is an error for the lockfiles using it instead of a silent fallback, and an invalid database entry is reported while the valid ones stay in use.",
 ["configurations","inputs"],"all directory layouts, config contents, flag combinations and orders of lockfiles in a run",
 "Tests use one config at a time; leakage between lockfiles appears only for particular orders and combinations of configured and unconfigured directories.",
 ["main.go","internal/configer/load.go",DB+"config.go"],[("readAllLockfiles/adjustExtraDatabases/forConfigs","main.go"),("configer.Find/Load","internal/configer/load.go"),("Config.Identifier",DB+"config.go")])
prop("C11","--update-config-ignores records exactly the found advisories",
 "After a scan with --update-config-ignores, each config used by at least one successfully checked lockfile has as its ignore list exactly the sorted, duplicate-free IDs of all advisories (new or already ignored) found in the lockfiles using it, with its extra-databases entries unchanged, and no other file is modified or created. Repeating the scan then reports nothing new from those lockfiles, exits without code 1 and leaves the config bytes unchanged; without the flag configs are never written, and a failure to write is reported with a non-zero exit.",
 ["inputs","histories","fault_sequences"],"all scans, initial config contents and sequences of updates and lockfile changes, including write failures",
 "The unit tests call the update helper on fixed lists; which IDs reach which file over several lockfiles, configs and runs is not covered offline.",
 ["main.go","internal/configer/update.go"],[("vulnsPerConfig / writeUpdatedConfigs","main.go"),("UpdateWithIgnores","internal/configer/update.go")],observe=["config files on disk","exit code","CLI stdout"])
prop("C12","Databases load every advisory file, and the same from a dir or a zip",
 "A dir or zip database consists of every .json file at any depth below its working directory (and of nothing outside it): the same tree of files gives the same findings and the same advisory count whether read from a directory or a zip archive, whatever the file order, names or nesting. A file that is not a valid advisory is reported on stderr and skipped without affecting any other, a missing directory or unreadable archive is an error, and which packages are being checked never changes what is found for another package.",
 ["inputs","configurations"],"all trees of files, file orders, working directories and mixes of valid and invalid files",
 "Tests use a few small fixture databases; equivalence of the two loaders and independence from bad neighbours is a relation over all trees.",
 [DB+"dir.go",DB+"zip.go",DB+"mem-check.go"],[("DirDB.load",DB+"dir.go"),("ZipDB.load / loadZipFile",DB+"zip.go"),("addVulnerability/mightAffectPackages",DB+"mem-check.go, zip.go")])
prop("C13","The zip cache never serves stale, foreign or corrupt data",
 "Over any history of runs against a database server: an online run's findings are those of the archive the server currently serves, with the stored ETag and Date sent as If-None-Match and If-Modified-Since exactly when a usable cache entry for that URL exists and the stored archive used only on 304; an offline run's findings are those of the archive last downloaded with a validator for that URL. Any other response, a broken transfer, or a corrupt cache entry leads to a fresh download or a reported error with a non-zero exit, never to a crash or to findings from a partial, old or other URL's archive.",
 ["histories","fault_sequences"],"all sequences of online/offline runs, archive updates, status codes, missing validators, interrupted transfers and corruptions of the cache file, over several URLs",
 "Tests check single requests against a stub; the protocol's correctness is over histories with faults.",
 [DB+"zip.go"],[("fetchZip",DB+"zip.go"),("cachePath",DB+"zip.go")],state=[{"name":"osv-detector-<sha256(url)>-db.json","meaning":"URL, ETag, Date and body last stored","where":"os.TempDir()"}],
 observe=["requests received by a recording HTTP proxy","cache file","CLI stdout","exit code"])
prop("C14","Offline mode and package listing never touch the network",
 "With --offline, or when only listing packages, parsers or versions, no network connection, name lookup or request is attempted, whatever lockfiles, configs, caches and other flags are given; databases that would need the network are reported as errors (non-zero exit) unless a cached copy exists, in which case the findings equal those of the cached archive. With --use-dbs=false, --use-api=false and --no-config-databases no connection is attempted either.",
 ["inputs","configurations"],"all combinations of flags, lockfiles, configs and cache states",
 "A test can only check that one call returned an error; absence of network activity must be observed on every path.",
 ["main.go",DB+"zip.go",DB+"api.go",DB+"config.go"],[("offline guards in NewAPIDB and fetchZip",DB+"api.go, zip.go"),("listPackages shortcut in loadDatabases","main.go")],
 observe=["requests received by a recording HTTP proxy","network system calls of the process (strace)"])
prop("C15","API checks: every package queried once, every answer on its package",
 "When an API database is used, each package of each lockfile is sent in exactly one query - by name, ecosystem and version when all three are known, otherwise by commit when it has one - in batches no larger than --batch-size and in an order that lets each answer be reported on the package it was asked for, whatever the order, speed or concurrency with which batches and details are answered. Advisory details are requested once per ID per lockfile; when details cannot be fetched the ID is still reported, and when any batch fails (bad status, unreadable or mis-sized answer, dropped connection) the failure is reported with a non-zero exit while other databases' findings remain.",
 ["schedules","inputs","fault_sequences"],"all package lists, batch sizes, completion orders and server faults",
 "Tests use an immediate stub server and one or two packages; misalignment and loss need several batches completing out of order or failing.",
 [DB+"api-check.go",DB+"api-fetch.go",DB+"api-fetch-all.go",DB+"api.go"],[("Check: batchPkgs, errgroup with indexed results",DB+"api-check.go"),("FetchAll/findOrDefault",DB+"api-fetch-all.go, api-check.go")],
 observe=["requests received by a recording HTTP proxy that permutes and delays answers","CLI stdout","exit code"])
prop("C16","No data races in concurrent API checks or concurrent library use",
 "No execution of the detector has a data race: API batches and detail requests answered in any order and at any speed, and concurrent use of the public packages (parsing lockfiles, loading databases, and checking packages against one shared loaded database from many goroutines), are free of unsynchronised conflicting accesses, and the concurrent results equal the sequential ones.",
 ["schedules"],"all interleavings of batch and detail goroutines and of concurrent library callers",
 "The test suite is not run under the race detector with concurrent batches; races are invisible to ordinary assertions.",
 [DB+"api-check.go",DB+"api-fetch-all.go",DB+"osv.go","internal/cachedregexp/regex.go"],[("per-index result slots under errgroup",DB+"api-check.go"),("sync.Map regexp cache","internal/cachedregexp/regex.go"),("events copied before sorting",DB+"osv.go")],
 observe=["Go race detector reports","results of concurrent versus sequential calls"])
prop("C17","The exit code never claims a clean scan that was not one",
 "Exit code 0 means that every path given was read, every lockfile parsed and checked against every database configured for it, and no un-ignored vulnerability was found; 1 means at least one un-ignored vulnerability was found; 127 means an error occurred; 128 means only readable directories without any lockfile were given. Any failure to read a path, parse a lockfile, load a config or database, or query an API gives a non-zero exit and a message on stderr (a single invalid advisory file inside a database is only reported on stderr), with 127 always used when a lockfile could not be parsed or a database could not be loaded, even if vulnerabilities were found.",
 ["inputs","configurations","fault_sequences"],"all combinations of clean, vulnerable, ignored and failing inputs, in every order",
 "Tests cover one failure at a time; which outcome wins depends on combination and order.",
 ["main.go","internal/reporter/reporter.go"],[("exitCode precedence in run","main.go"),("HasErrored","internal/reporter/reporter.go")],observe=["exit code","stderr"])
prop("C18","JSON and text output are well formed and agree with each other",
 "With --json, stdout is exactly one JSON document with a results array holding one entry per successfully parsed lockfile in the order they were checked - on every path, including errors - and everything else goes to stderr. The same scan without --json names the same packages, the same un-ignored advisories per package and matching totals (packages found, vulnerabilities found, ignored) with correct singular or plural wording, and both give the same exit code; packages are sorted by name and version, JSON advisories carry the database's data unaltered, and text shows each advisory's summary or, without one, the beginning of its details.",
 ["inputs","configurations"],"all scans and flag combinations, including error paths and names or summaries with special characters",
 "Snapshots pin a few outputs; agreement of two renderings is a relation over all scans.",
 ["internal/reporter/reporter.go","internal/reporter/report.go","main.go",DB+"vulnerabilities.go"],[("PrintTextf/PrintResult/PrintJSONResults","internal/reporter/reporter.go"),("Report.String","internal/reporter/report.go")],observe=["stdout","stderr","exit code"])
prop("C19","The same inputs always give byte-identical output",
 "Running the detector again on unchanged inputs gives byte-identical stdout and stderr and the same exit code, independent of map iteration, goroutine scheduling, processor count, directory enumeration order and the order in which API answers arrive.",
 ["schedules","inputs"],"all inputs, repeated under different schedules and processor counts",
 "A single test run sees one map order and one schedule.",
 ["main.go",LF+"parse.go",DB+"mem-check.go",DB+"api-check.go"],[("sorting of packages",LF+"parse.go, csv.go"),("sorting of lockfiles, ecosystems and ignores","main.go"),("indexed API results",DB+"api-check.go")],observe=["stdout","stderr","exit code"])
prop("C20","Hostile bytes in any input end in a report, never a crash or hang",
 "For arbitrary bytes in any input - lockfile of any format, CSV, config, advisory file, zip archive, cache file, API answer, path or flag value - the detector terminates with exit code 0, 1, 127 or 128 (2 with the usage for unknown flags or flag values of the wrong type) and never panics, aborts or loops forever, and still reports the other lockfiles given in the same run.",
 ["inputs"],"all byte strings in every input position",
 "Tests use well-formed or trivially malformed files; crashes hide in truncated, mistyped or deeply odd structures.",
 [LF+"*.go",DB+"*.go","internal/configer/load.go","main.go"],[("error returns of parsers and decoders","pkg/lockfile, pkg/database")],observe=["exit status","stderr (Go runtime panics)","CPU limit"])
prop("C21","The right files are checked with the right parser",
 "A file path is parsed by the parser named in its prefix (parser:path), else by --parse-as, else by its file name (a leading colon naming no parser, so that the path can have colons), and a file whose parser cannot be determined is an error; the result is labelled with the cleaned path given and the parser used. A directory contributes, in sorted order and without recursing, exactly its files whose name has a parser - or all its files when a parser was named - and every path given is processed in order.",
 ["inputs","configurations"],"all directory contents, path spellings, prefixes and flags",
 "Tests check a few fixture directories; the precedence rules and name sets combine freely.",
 ["main.go",LF+"parse.go"],[("findLockfiles/findAllLockfiles/parseLockfilePathWithParseAs","main.go"),("FindParser",LF+"parse.go")])
prop("C22","A run over many lockfiles is the sum of the runs over each",
 "Checking several lockfiles in one run gives, for each, the same packages, findings and ignores as checking it alone with the same flags; results appear in the order of the inputs. A lockfile that fails to parse, or whose config is invalid, does not change the outcome of any other, and the order of the paths only changes the order of the results.",
 ["inputs","configurations"],"all sequences of lockfiles, configs and flags, with failing members anywhere",
 "Tests check fixed pairs; interference (shared name filters, shared configs, shared databases, mutated advisories) depends on which inputs meet in a run.",
 ["main.go",DB+"mem-check.go",DB+"osv.go"],[("readAllLockfiles / loadDatabases with union of package names","main.go"),("DB.Check without side effects",DB+"osv.go")])
prop("C23","Scanning changes nothing but the cache and explicitly updated configs",
 "A run never creates, modifies, deletes, renames or changes the attributes of any file, except that remote zip databases are cached as one file per URL in the temporary directory, and that --update-config-ignores rewrites the config files in use. In particular lockfiles, local databases, the working directory and configs without the flag are left byte for byte as they were, on success and on every error path.",
 ["inputs","configurations","fault_sequences"],"all flags, inputs and error paths",
 "No test compares the file system before and after a run.",
 ["main.go","internal/configer/update.go",DB+"zip.go"],[("only two write sites","internal/configer/update.go, pkg/database/zip.go")],observe=["file system snapshots before and after","write-opening system calls (strace)"])
prop("C24","Exactly the osv.dev databases and API asked for are used",
 "By default (--use-dbs) each lockfile is also checked against the osv.dev database (https://osv-vulnerabilities.storage.googleapis.com/<ecosystem>/all.zip) of every ecosystem its packages belong to and of no other, each downloaded once per run however many lockfiles or configs use it; with --use-api each lockfile's packages are also checked by https://api.osv.dev/v1. OSV_DETECTOR_PREFER_API=true only swaps the two defaults, an explicit --use-dbs or --use-api always wins, and neither depends on configs or on --no-config and --no-config-databases. An osv.dev database that cannot be fetched is an error while the others stay in use.",
 ["inputs","configurations"],"all sets of lockfiles, ecosystems, flags and environment settings",
 "The tests that use osv.dev need the network and pin a few commands; which requests are made is not observed by any test.",
 ["main.go","pkg/lockfile/parse.go"],
 [("makeEcosystemDBConfig, makeAPIDBConfig, adjustExtraDatabases, collectEcosystems","main.go"),("Packages.Ecosystems","pkg/lockfile/parse.go")],observe=["requests at a fake osv.dev","CLI stdout (--json)","exit code"])
prop("C25","Every extra-databases entry is read from where and as what it says",
 "Each entry of extra-databases is used as its type says or, without one, as a directory when its url starts with file:/, as a zip archive when it ends in .zip and as an API otherwise. A file: url names a directory after unescaping (file:/x relative to the current directory, file:////x absolute), a working-directory limits a dir or zip database to the files below it, and entries that differ in type, url or working-directory are separate databases while repeated ones are loaded once. The databases are used in the order listed and shown under their name (or type#url#working-directory); an entry that cannot be used as its type is an error. However the YAML is written (block or flow, quoting, comments, order of keys, line endings) the same settings mean the same.",
 ["inputs","configurations"],"all lists of database entries: any mix of types, url forms, working directories, names and repetitions, in any YAML style",
 "The tests load a few fixed configs and compare structs; which files and servers an entry leads to is not observed.",
 ["internal/configer/load.go","pkg/database/config.go","pkg/database/dir.go","pkg/database/zip.go","pkg/database/api.go","main.go"],
 [("inferDBType, toConfig","internal/configer/load.go"),("Config.Identifier, Load","pkg/database/config.go"),("DirDB.load","pkg/database/dir.go"),("isInWorkingDirectory","pkg/database/zip.go"),("uniqueDBConfigs, forConfigs","main.go")],observe=["findings that only one source has","requests at fake servers","database names in the text output"])
here=os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here,'..','properties.jsonl'),'w') as f:
    for p in P: f.write(json.dumps(p)+'\n')
try:
    import jsonschema
    sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for p in P: jsonschema.validate(p,sch)
except ImportError: pass
print(len(P))

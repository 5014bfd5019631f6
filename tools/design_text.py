# -*- coding: utf-8 -*-
"""Texts of DESIGN.md per property: how it is decided, beyond what the tests reach, and what is not judged."""
D = {}
D["C01"] = dict(
how="Generated valid feeds (every table, extra columns, hostile text, zero values) are loaded or rebuilt through the "
    "API, optionally edited in memory, written to a zip, loaded and written again. Monitor: a canonical dictionary of "
    "every object read through public accessors, before and after (`harness/canon.py`); the recorder must see no new "
    "problem; the second writing must be equal to the first.",
why="the tests write one or two fixed feeds; losses hide in single columns (0, empty, unknown columns) and in the order of rows",
out="extra column names that are not ASCII (Python 2 csv header), quoted embedded line breaks (loader reads line by line by design)")
D["C02"] = dict(
how="One model feed is laid out three times in random physical styles (column and row order, quoting, padding, BOM, "
    "line ends, blank lines, empty or absent columns; zip path, file object, ZipFile, directory; memory or disk database) "
    "and every load is compared with the tables the model spells out; the temporary database file is watched until it goes.",
why="tests use a single layout per file",
out="the disappearance of the database is awaited (System.gc(), 30 s)")
D["C03"] = dict(
how="1–6 hostile edits of cells, rows, headers, bytes and files (`harness/mutate.py`) per feed, loaded with full "
    "validation and extension of each; any exception, a missing schedule, or a report that cannot be rendered is a violation.",
why="an input-space property; the tests hold ≈60 fixed bad feeds",
out="corruption of the zip container itself")
D["C04"] = dict(
how="A valid feed must load clean; then one defect at a time from a catalogue of some 200 (column, kind) combinations "
    "is planted at a random row. Oracle: the catalogue's expected (class, severity, file, row, column, value); exactly one "
    "report for the row, none for other rows except dangling references to what was lost.",
why="each defect is tried in every position and combination of tables; tests have one row each",
out="follow-up remarks without a row, e.g. unused stops; C04 was reworded twice when the first wording blamed legitimate follow-ups")
D["C05"] = dict(
how="References are made dangling by rewriting them or by dropping their targets; expected reports are computed by set "
    "difference over the model tables and compared as multisets; all remaining references are followed in memory.",
why="combinations of several dangling references, orders of rows, identifiers that look alike",
out="stop times whose trip and stop are both unknown need one report")
D["C06"] = dict(
how="Feeds with repeated definitions and sequences of `Add…Object` calls with repeats; a model of the first definition of "
    "each identifier predicts the duplicate reports and the contents.",
why="repeats of any kind at any distance, several at once", out="nothing")
D["C07"] = dict(
how="All 3 600 000 second counts 0–999:59:59 are formatted and parsed back on both tiers (exhaustive), then batches of "
    "random and damaged strings are given to the time, date, integer and float parsers with reference grammars of their own.",
why="exhaustive where possible; tests have a few strings", out="nothing")
D["C08"] = dict(
how="Random edit histories of service periods (or loaded calendars), queried for each date of a window; the model is the "
    "four-line GTFS definition (`harness/service.py`).",
why="sequences of edits (exceptions replaced, removed, reset), leap days, single days, empty ranges",
out="ranges of half-open or reversed calendars")
D["C09"] = dict(
how="Schedules of up to 5 services, recounted for each day by the model; gaps, expiry and start warnings are predicted "
    "from the recount for an assumed day passed to Validate.",
why="gaps at window borders, frequency runs, removed dates", out="the end of the window is taken as the code documents it (exclusive)")
D["C10"] = dict(
how="Trips with up to three planted defects; an independent reading of the stop times (own distances, own speeds) says "
    "which problems must and must not occur; values near the thresholds (±tolerance) are not generated as decisive.",
why="combinations of untimed stops, co-located stops, midnight, repeated and falling distances", out="a band around the speed limits")
D["C11"] = dict(
how="Interpolated times compared with exact proportions of independently computed distances, half a second tolerance at ties.",
why="arbitrary subsets of timed stops, co-located stops", out="stops with only one of arrival and departure")
D["C12"] = dict(
how="Random sequences of frequency calls; the model lists runs from the definition; expanded after every call, written, "
    "reloaded with malformed rows added.",
why="overlaps, ends not on a headway, zero headways, repeated calls", out="nothing")
D["C13"] = dict(
how="All pairs of trips are judged by interval overlap and shared active dates of the model calendar; reported pairs are "
    "compared as a multiset, so are duplicates and bus/subway stops.",
why="the block check is a sweep over sorted trips: errors only show with three or more trips", out="pairs of the same service without any active date")
D["C14"] = dict(
how="Clusters of stops anywhere on earth (poles, date line, equator); all pairs judged by a 3-d vector distance of its own.",
why="the check is a sweep over sorted latitudes with a window; only pairs far apart in sort order or at high latitudes expose mistakes",
out="a band of ±0.3 % around the limits (sphere radius and rounding)")
D["C15"] = dict(
how="Random histories of add/replace/clear over several trips and schedules (both databases), a plain list per trip as model; every accessor is observed after every operation.",
why="a state machine over an SQL table; tests do two or three operations", out="row counts of deletions, which the Jython SQLite driver misreports (the code no longer relies on them)")
D["C16"] = dict(
how="Pairs of generated feeds that share identifiers, contents or nothing, merged; the model pairs every merged entity with its sources and follows every reference to the representative.",
why="conservation over all references at once; tests check one entity kind at a time", out="feed_info (not carried over), renumbered stop sequences")
D["C17"] = dict(
how="For every shared identifier the model decides sameness from the contents; identifiers, reports and the HTML report are compared; self-merges.",
why="near-equality decisions around tolerances, missing versus empty values", out="values within rounding of the distance limits")
D["C18"] = dict(
how="Running trips of each date of both feeds compared before and after a cutoff merge; DisjointCalendars checker compared with date ranges.",
why="cutoff inside, at, before and after every calendar", out="trips that never run stay")
D["C19"] = dict(
how="Shapes filled in random order, observed after each point; positions at distances by own interpolation on the sphere; stops near to and far from the shape.",
why="orders of insertion, equal distances, clamping", out="mixed distance/no-distance shapes judged for order only; longitude 180")
D["C20"] = dict(
how="Geometry against double-precision 3-d formulas; closest points against dense sampling; shortest paths against Dijkstra on the same graph.",
why="random configurations including antipodal, collinear and coincident points", out="path from a node to itself; ties; greedy matching only where the choice is clear; polylines without a name")
D["C21"] = dict(
how="Random report sequences and validator runs, the HTML strictly parsed, totals, order and examples compared with what the recorder saw; also the limit accumulator with orderings.",
why="any mix of kinds, limits, significance, hostile text", out="row tables closed loosely (browser-tolerated end tags)")
D["C22"] = dict(
how="KML parsed by an XML parser and compared with the model for every export option, then imported; generated KML documents imported.",
why="options × feeds", out="control characters; other namespaces, multi-geometries")
D["C23"] = dict(
how="Routes with known pattern shares, filter run as class or command; types compared with the exact rational share; unused-stop filter likewise.",
why="shares at the threshold, several routes and types, override and quiet modes", out="shares within 1e-9; trips already typed when not overriding")
D["C24"] = dict(
how="The real threaded server on a loopback port, asked by sockets; every JSON answer compared with the tables; path traversal and malformed requests.",
why="no test starts the server", out="frequencies; a stay at a stop containing the asked time")
D["C25"] = dict(
how="Exhaustive two- and three-letter subtags and registry, generated and damaged tags; own grammar and own registry reader.",
why="the grammar has many branches; tests sample tags", out="several registered extlangs; naming of unknown subtags when repeated")
D["C26"] = dict(
how="Histories over up to three factories against a dictionary model; feeds with added tables and columns loaded with changed factories.",
why="histories of changes, isolation between factories", out="mappings without classes; clashing class names")
D["C27"] = dict(
how="About 130 rows per feed with independent good and bad values; predicate per column written from the GTFS reference; also objects with native values.",
why="columns × values × cross-field rules", out="odd spellings of numbers without a dedicated warning; several bad values in one row judged for at least one report")
D["C28"] = dict(
how="Random translated feeds upgraded by the command; every cell looked up in every language by the rules of both formats.",
why="lookups are all-pairs over tables and languages", out="untranslated text equal to a translated original; padded cells, short rows")
D["C29"] = dict(
how="Random stations and pathways, the DOT parsed by a reader of its own and compared with the tables.",
why="arbitrary trees of locations and selections", out="pathways at stations with boarding areas of their own; ids with commas for selection")
D["C30"] = dict(
how="Byte strings and files with random line ends, control characters, header and row anomalies; counting by a model over the raw bytes.",
why="combinations and counts", out="quoted line breaks; leading header spaces")
D["C31"] = dict(
how="15–70 random API calls against a relational model, then validation, writing and reading.",
why="order of calls, defaults, generated identifiers among given ones", out="several agencies without default")
D["C32"] = dict(
how="SVG parsed; station heights and trip polylines compared with the timetable scaled by the settings (±2 px).",
why="any number of stops, times, travelled distances", out="text strip of trip ids; trips of other patterns")
D["C33"] = dict(
how="Every tool run in-process (and partly as real programs) on generated files in scratch directories: exit status, outputs, console text and inputs' checksums compared with library results and independent readings; crash handler under injected errors.",
why="options × inputs", out="files left open are flushed by the harness as program end would; order of KML patterns; merges that are given up")
D["C34"] = dict(
how="Feeds decorated with extension columns must be clean, keep and write the values; single defects judged by an own table of the rules; hostile feeds loaded with and without the extension compared; trips on both sides of every speed limit.",
why="values × rows × interactions with base rules", out="location types above 2")
D["C35"] = dict(
how="Random objects of all kinds, their twins, twins altered in one field, and copies: == and != both ways, [] and attributes against the rows they were made from; columns of tables after adding and setting.",
why="fields × values × kinds; order of insertion", out="location_type unset against 0; extra columns of fares; services without dates")
D["C36"] = dict(
how="Trips in regions of their own; around each, whole lines that fit more or less, pieces that join or do not, backwards lines; layers delivered by a stand-in for ogr. Distances by 3-d vectors, shortest joins by construction; written feed compared with source plus expected points.",
why="geometry × candidates × names × options; untested tool", out="trips of fewer than two stops; fits within 2 m of the limit or each other")
D["C37"] = dict(
how="Random sessions of moves, refused moves, unknown stops, queries, pages and saves over sockets against the real handlers; after each step the stops in memory, after each save the file are compared with a model; starts of both programs with a stand-in for the server class.",
why="histories × feeds × hostile parameters; untested tool", out="feeds that are directories (the editor does not save them); crashes while saving")
D["C38"] = dict(
how="A random timetable written as an export (columns in any order, interleaved groups, bit masks over year ends, gaps, shared trip numbers), converted by the tool; all written values compared; positions by the official formula.",
why="inputs × options; untested tool", out="exports that contradict themselves; misc/sql_loop.py, traceplus and find_pytz_transition_times, which are no part of transitfeed's function (sql_loop needs sqlite3 and resource, absent in Jython)")
D["C39"] = dict(
how="Valid feeds given any number of such features at once, loaded with validation; the reports of these classes matched one to one with the expected ones, by class, severity, column and the identifiers named.",
why="combinations of features × feeds", out="the wording of the remarks")
D["C40"] = dict(
how="Random histories of reports (all 40 methods, texts in any script as Unicode or UTF-8), places and accumulators of one problem reporter; each delivered problem is judged by a table of what the report says, everything printed or raised by the stock accumulators by the words of the problem; comparisons and order keys pairwise.",
why="all kinds of report × places × texts × accumulators × histories", out="notices when warnings are raised; the wording beyond the values named")
D["C41"] = dict(
how="Two to four jobs per case (load, ask, change, validate, write, reload a feed of their own, valid or hostile, in memory or on disk, with or without the extension) run alone and are recorded step by step; then with steps shuffled, one inside a report of another, or in threads with delays injected at reports, then one again; every step's answers, problems and files must equal those alone.",
why="feeds × interleavings × process history", out="threads that share a schedule; generated identifiers, which are random on collision; interleavings inside a statement are left to the scheduler of the JVM")
HEAD = u'''# Design

Family: **runtime monitoring and sanitizers**. The repository is pure Python 2 run by Jython; it has no native code, no
shared mutable state between threads apart from the schedule viewer (one request at a time; C41 looks for state that
becomes shared by mistake), so compiler sanitizers and
race detectors have nothing to instrument. Every property is decided by *oracles observing executions of the real code*:
reference-model monitors over recorded problem reports, object states, written files, HTTP answers, console output and
exit statuses.

## Machinery

* `run.py ID` starts 8 Jython shards (`harness/shard.py` → `harness/core.py`) that import the code from /repo's working
  tree (no build product is used) and run `checks/cNN.py`, whose `run_case(ctx, rng, i)` is a pure function of
  (property, seed, case number): every violation is replayable with `run.py ID --replay FILE`.
* `VERIF_SEED` and `VERIF_TIER` choose workload; quick takes 5–45 s, thorough 10–60 min per property.
* Verdicts are three-valued: 0 held, 1 VIOLATION with replay file, 2 inconclusive (harness error, watchdog, or counters
  below `MINIMUM`, i.e. the monitors observed too little). A case that hangs in repo code is dumped and reported as a violation.
* An exception whose innermost frame is in /repo is a violation, one in the harness is inconclusive.
* `evidence/ID.json`: cases, distinct non-trivial cases, counters of what the monitors saw (reports by class, comparisons
  made, defects planted…), samples.
* Workload: `harness/feedgen.py` makes valid feeds as text tables with hostile but legal text; `render.py` lays them out;
  `mutate.py` damages them; `build.py` builds them through the API; `service.py`, `geo.py`, `tables.py`, `merges.py`,
  `page.py`, `dot.py`, `canon.py` are the independent models and readers. No model uses transitfeed code.
* No hooks in /repo were needed: all observation is at the public boundary (problem accumulators, accessors, files, sockets).
* `tools/plant.py` makes, verifies and catches planted bugs; `tools/mutants.py` makes small random changes and runs the
  checks on each (see "Mutation probing").

Bounds: all checks are sampled (evidence gives the counts) except C07's second counts and C25's subtags, which are
enumerated. "Held" means held on those executions.

'''
TAIL = u'''
## False alarms corrected while building

A report on the unchanged tree was first judged on paper. These were the checks' fault and were corrected in the check or in the wording:
C04 (follow-up reports blamed; wording now names them), C06 (column names of composite keys), C08/C13 (calendars without
dates), C09 (exclusive end of the window), C10/C14/C32 (tolerances), C11 (half-timed stops), C16 (feed_info, renumbering),
C18 (trips that never run), C19 (mixed distances), C20 (node to itself, greedy matching), C21 (browser-tolerated HTML),
C23 (types kept when not overriding: reworded), C24 (refusals by other means than a status), C25 (several extlangs),
C28 (ambiguous literals), C29 (stations' own boarding areas), C30 (skipped header spaces), C32 ("interpolated" was wrong: only
timed stops are drawn), C33 (unflushed files of programs that end, hash order), C34 (fares of multi-agency feeds, which the
extension documents to reject).

## Genuine defects

All are repaired in /repo by `fix:` commits and listed in `known_findings.txt` (`fixed:` lines). No finding is open, so no
check prints KNOWN-FINDING. Defects seen but outside of any property's wording, not repaired: `Stop._GetTripIndex` formats its
RuntimeError wrongly; `kmlwriter` refers to a style `stop_station` it never defines; `upgrade_translations.py` documents
another default output name than it uses; `--latest_version` with text ends in a crash report.

## Not applicable

None: every listed property concerns observable behaviour of executions.
'''

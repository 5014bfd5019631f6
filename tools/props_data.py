# -*- coding: utf-8 -*-
# Property records; see spec.py.
MON = "runtime monitoring: "
TRUST = ("Held on the executions of this run only; trusts the reference oracle "
         "in /verif, Jython 2.7 and the SQLite JDBC driver. ")

PROPS.append(P(
    "C01", "Writing a feed and loading it back loses nothing",
    "For every schedule that was loaded from a feed or built through the API without "
    "reported problems, writing it out and loading the result gives the same agencies, stops, "
    "routes, trips, stop times, calendars and date exceptions, fares and fare rules, "
    "frequencies, shapes, transfers and feed info, field for field and in the same stop and "
    "shape-point order, without new problems. This includes zero values, non-ASCII text, "
    "embedded commas and quotes, and unrecognised extra columns of agencies, stops, routes, "
    "trips, transfers and feed info (numbers to 9 significant decimals). Writing the reloaded "
    "schedule again changes nothing more.",
    ["inputs", "histories"],
    "all schedules without reported problems, loaded or built through the API",
    "Tests write a handful of fixed schedules and look at a few fields; they never compare "
    "whole feeds, zero values or extra columns over arbitrary content.",
    [TF + "schedule.py", TF + "loader.py", TF + "stoptime.py", TF + "gtfsobjectbase.py",
     TF + "serviceperiod.py", TF + "trip.py", TF + "shape.py", TF + "fareattribute.py",
     TF + "util.py"],
    [m("WriteGoogleTransitFeed", TF + "schedule.py"),
     m("GetFieldValuesTuple of each entity", TF + "stoptime.py, fareattribute.py, farerule.py"),
     m("table column bookkeeping", TF + "schedule.py AddTableColumn(s)"),
     m("CsvUnicodeWriter", TF + "util.py")],
    ["Schedule public accessors after reload", "bytes of the written zip"],
    MON + "generated feeds written and reloaded, reloaded contents compared by an offline "
    "conservation checker against an independent model",
    TRUST + "Values are generated inside the value ranges GTFS allows."))

PROPS.append(P(
    "C02", "Loading does not depend on how a feed is physically represented",
    "A valid feed loads to exactly the entities and field values its tables spell out, with no "
    "problem reported, whatever the order of its columns and rows, quoting of cells, padding of "
    "unquoted cells with spaces, LF or CRLF line ends, a missing final line end, blank lines, a "
    "UTF-8 byte order mark, optional columns absent or left empty, and whether it is given as zip "
    "path, file object, ZipFile or directory. The result is the same with the in-memory and the "
    "on-disk stop-time database, and the on-disk database file is gone after the schedule is.",
    ["inputs", "configurations"],
    "all valid feeds x all renderings x loader configurations",
    "Tests load a few sample directories, each in one rendering.",
    [TF + "loader.py", TF + "util.py", TF + "schedule.py"],
    [m("_ReadCsvDict/_ReadCSV", TF + "loader.py"), m("EndOfLineChecker", TF + "util.py"),
     m("ConnectDb/__del__", TF + "schedule.py")],
    ["Schedule public accessors", "problem accumulator", "temporary directory"],
    MON + "differential loading of one model feed in many renderings, each compared with the "
    "model; temp-file leak monitor",
    TRUST))

PROPS.append(P(
    "C03", "No feed content can crash loading and validation",
    "For any content of the feed files - corrupt bytes, broken CSV, wrong or missing columns, "
    "absurd values, duplicated, truncated, missing or unexpected files - loading with full "
    "validation and an accumulating reporter ends normally and returns a schedule. Everything "
    "found is delivered as problem reports, each of which can be rendered as text with its "
    "location.",
    ["inputs"],
    "all byte contents of all files of a feed",
    "Tests contain about a hundred hand-written bad feeds, each with one fault.",
    [TF + "loader.py", TF + "schedule.py", TF + "problems.py", TF + "trip.py",
     TF + "serviceperiod.py", TF + "shape.py", TF + "transfer.py", TF + "stop.py",
     TF + "route.py", TF + "fareattribute.py", TF + "util.py"],
    [m("Loader.Load", TF + "loader.py"), m("Schedule.Validate", TF + "schedule.py"),
     m("ExceptionWithContext.FormatProblem/FormatContext", TF + "problems.py")],
    ["exceptions escaping Loader.Load/Schedule.Validate", "formatted problems"],
    MON + "structure-aware mutation fuzzing of feeds with a crash and report-rendering monitor",
    TRUST))

PROPS.append(P(
    "C04", "Each defect is reported where it is, and nothing else is",
    "When one cell or row of an otherwise valid feed is made invalid in a way the validator "
    "knows - missing required value, malformed number, time, date, colour, URL, language, "
    "timezone, currency or enumeration value, text that is not UTF-8, superfluous cells, "
    "reference to an undefined object - exactly that defect is reported for the row, once, with "
    "the kind of problem, severity, file, row number (the header being row 1), column and "
    "offending value. No other row is blamed except for references to what the defect removed; "
    "remarks that follow for the feed as a whole name no row. The feed without the defect is "
    "reported clean.",
    ["inputs"],
    "all valid feeds x positions x kinds of single defects",
    "Tests inject each fault once, in one small feed, mostly without checking row numbers.",
    [TF + "loader.py", TF + "problems.py", TF + "util.py", TF + "stop.py", TF + "route.py",
     TF + "trip.py", TF + "agency.py", TF + "fareattribute.py", TF + "feedinfo.py",
     TF + "transfer.py", TF + "shapepoint.py", TF + "serviceperiod.py", TF + "stoptime.py",
     TF + "frequency.py"],
    [m("SetFileContext/ClearContext", TF + "loader.py"), m("Validate* of each entity", TF)],
    ["problem accumulator entries: class, type, file_name, row_num, column_name, value"],
    MON + "single-fault injection into generated feeds, recorded problem log compared with the "
    "injected fault",
    TRUST + "The fault catalogue is in checks/c04.py."))

PROPS.append(P(
    "C05", "Dangling references are reported exactly, valid ones never",
    "In every feed, each route, service, shape, stop, trip, agency, fare, fare-zone and "
    "parent-station reference that names an object the feed does not define is reported exactly "
    "once per referring row with the dangling value, and no reference to a defined object is "
    "reported. Rows with dangling references never change any other object, and every valid "
    "reference leads to exactly the object with that identifier.",
    ["inputs"],
    "all feeds and all subsets of dangling references",
    "Tests have one dangling reference per kind in one fixed feed.",
    [TF + "loader.py", TF + "schedule.py", TF + "trip.py", TF + "transfer.py",
     TF + "frequency.py", TF + "route.py", TF + "stop.py"],
    [m("_LoadStopTimes", TF + "loader.py"), m("AddFareRuleObject, AddRouteObject, ValidateStops",
       TF + "schedule.py"), m("Validate*Exists*", TF + "trip.py")],
    ["problem accumulator", "Route.trips, Trip stop times, Stop.GetTrips, fare rules"],
    MON + "random subsets of references broken; reported multiset and resulting object graph "
    "compared with a reference resolver",
    TRUST))

PROPS.append(P(
    "C06", "The first definition of an identifier wins and every repeat is reported",
    "When a feed or a sequence of additions defines the same agency, stop, route, trip, service, "
    "fare or shape-point sequence, or stop-time sequence identifier more than once, every repeat is reported once "
    "(of stop-time sequence numbers, every repeated number of a trip once) "
    "as a duplicate and, for the whole-object identifiers, the first definition stays in effect "
    "unchanged. Repeated transfers and calendar exceptions are reported as warnings, transfers "
    "all being kept and the last calendar exception for a date taking effect.",
    ["inputs", "histories"],
    "all feeds and addition sequences with any pattern of repeated identifiers",
    "Tests add one duplicate of some kinds and do not check what stays in effect.",
    [TF + "schedule.py", TF + "loader.py", TF + "serviceperiod.py", TF + "trip.py", TF + "shape.py"],
    [m("Add*Object duplicate checks", TF + "schedule.py"), m("_LoadCalendar", TF + "loader.py"),
     m("SetDateHasService", TF + "serviceperiod.py"),
     m("ValidateNoDuplicateStopSequences", TF + "trip.py")],
    ["problem accumulator", "Schedule accessors"],
    MON + "feeds and API histories with random repeats checked against a first-wins model",
    TRUST))

PROPS.append(P(
    "C07", "Clock times, dates and numbers are parsed exactly and formatted back",
    "A clock time is accepted exactly when it is H, HH or HHH hours, two-digit minutes and "
    "seconds 00-59, separated by colons, and is read as that number of seconds after midnight; "
    "formatting any number of seconds from 0 to 999:59:59 and parsing it gives the number back. "
    "A date is accepted exactly when it is eight digits naming a real calendar day. Decimal and "
    "non-negative integer fields yield the written number, or are rejected.",
    ["inputs"],
    "all strings and all second counts 0..3599999",
    "Tests check about a dozen strings.",
    [TF + "util.py"],
    [m("TimeToSecondsSinceMidnight/FormatSecondsSinceMidnight", TF + "util.py"),
     m("DateStringToDateObject, ValidateDate", TF + "util.py"),
     m("FloatStringToFloat, NonNegIntStringToInt", TF + "util.py")],
    ["return values and exceptions of the parsing functions"],
    MON + "exhaustive/strided enumeration of second counts and mutated strings against an "
    "independent hand-written recogniser",
    TRUST + "The second counts are enumerated completely at thorough tier."))

PROPS.append(P(
    "C08", "Service calendars answer date queries as GTFS defines",
    "After any sequence of calendar edits, or after loading, a service is active on a date "
    "exactly when the date has an added exception, or has no removed exception, lies between "
    "start and end date inclusive and falls on a selected weekday. The listed active dates are "
    "exactly those dates in ascending order, the date range covers the start, end and added "
    "dates, and per-day listings of active services over any date interval agree.",
    ["inputs", "histories"],
    "all edit histories and all dates",
    "Tests check single dates on three or four calendars.",
    [TF + "serviceperiod.py", TF + "schedule.py", TF + "loader.py"],
    [m("IsActiveOn, ActiveDates, GetDateRange, SetDateHasService", TF + "serviceperiod.py"),
     m("GetServicePeriodsActiveEachDate, GetDateRangeWithOrigins", TF + "schedule.py")],
    ["ServicePeriod and Schedule query results"],
    MON + "random edit histories checked step by step against a set-of-dates model",
    TRUST))

PROPS.append(P(
    "C09", "Daily service counts, gaps and expiry warnings match the timetable",
    "For every date the reported number of trips and departures equals the number implied by the "
    "active services, counting each frequency run as one trip and every stop but the last of a "
    "trip as a departure. A gap warning is given exactly for each maximal run of at least the configured number of "
    "days without trips in the window from shortly before today up to a year ahead and inside the service range, with its first and last day and "
    "length. Expiry, future-start, no-service and no-exceptions warnings are given exactly when "
    "the effective service range calls for them, with the right date and origin.",
    ["inputs", "configurations"],
    "all calendars, trips, today dates and gap thresholds",
    "Tests use one fixed feed with a few today values.",
    [TF + "schedule.py", TF + "serviceperiod.py", TF + "trip.py"],
    [m("GenerateDateTripsDeparturesList, ValidateServiceGaps, ValidateFeedStartAndExpirationDates, "
       "ValidateServiceExceptions, GetDateRangeWithOrigins", TF + "schedule.py")],
    ["GenerateDateTripsDeparturesList", "problem accumulator after Validate(today=...)"],
    MON + "generated calendars checked against a brute-force per-day counting oracle",
    TRUST))

PROPS.append(P(
    "C10", "Stop-time sequence problems are reported exactly when present",
    "For every trip, validation reports a repeated stop sequence number, a departure before its "
    "arrival, an arrival before the previous departure, a missing first or last time, a shape "
    "distance that does not grow or exceeds the shape, too fast travel for the route's vehicle "
    "type, more than five consecutive stops at the same time, and a trip with no or one stop, exactly "
    "when the trip has it, naming the trip and stop concerned. A trip with none of these is "
    "reported clean.",
    ["inputs"],
    "all stop-time sequences",
    "Tests have one short trip per kind of problem and no negative cases near thresholds.",
    [TF + "trip.py", TF + "stoptime.py", TF + "schedule.py"],
    [m("ValidateChildren and the checks it calls, _CheckSpeed", TF + "trip.py"),
     m("ValidateStopTimesForTrip, ValidateTripStopTimes", TF + "schedule.py"),
     m("StopTime.__init__ checks", TF + "stoptime.py")],
    ["problem accumulator"],
    MON + "random stop-time sequences (many near thresholds), reported multiset compared with an "
    "independent reference checker",
    TRUST + "Cases within 0.1% of a floating-point threshold are not judged."))

PROPS.append(P(
    "C11", "Interpolated stop times are exact at timepoints and follow distance",
    "For every trip with times at its first and last stop, the interpolated times list every stop "
    "once in travel order, give the stated time at each timed stop, and at each untimed stop the "
    "time that divides the interval between the surrounding timed stops in proportion to distance "
    "travelled, rounded to a second. They never decrease along the trip, co-located stops "
    "included; trips without a first or last time are refused. The times at which trips visit a stop, queried from the stop, are the same.",
    ["inputs"],
    "all trips and all patterns of untimed stops",
    "Tests interpolate one trip on a straight line.",
    [TF + "trip.py", TF + "stop.py", TF + "util.py"],
    [m("GetTimeInterpolatedStops", TF + "trip.py"), m("GetStopTimeTrips", TF + "stop.py"),
     m("ApproximateDistanceBetweenStops", TF + "util.py")],
    ["GetTimeInterpolatedStops, GetStopTimeTrips results"],
    MON + "random trips compared with an independent great-circle interpolation oracle",
    TRUST))

PROPS.append(P(
    "C12", "Frequency-based trips expand to exactly their runs",
    "For every trip with frequency periods, the run start times are exactly start, start+headway, "
    "... before the end of each period, in ascending order, and the expanded stop times of each run are the trip's stop times "
    "shifted so that the first arrival is the run's start, all other attributes unchanged. "
    "Malformed periods (missing or unreadable times or headway) are reported and ignored, periods without "
    "positive length are reported and have no runs, overlapping periods are reported exactly when two "
    "periods of a trip overlap, and periods are written out as they were given.",
    ["inputs"],
    "all period lists and stop patterns",
    "Tests expand one trip with two periods.",
    [TF + "trip.py", TF + "frequency.py"],
    [m("AddFrequency, GetFrequencyStartTimes, GetFrequencyStopTimes, ValidateFrequencies", TF + "trip.py"),
     m("Frequency", TF + "frequency.py")],
    ["GetFrequencyStartTimes, GetFrequencyStopTimes, GetFrequencyOutputTuples, accumulator"],
    MON + "random periods compared with a brute-force expansion",
    TRUST))

PROPS.append(P(
    "C13", "Overlapping trips in a block are reported exactly",
    "Two trips of the same block are reported as overlapping exactly when their time intervals "
    "(first arrival to last departure) overlap and their services share at least one active date. "
    "Each such pair is reported once with its block, trips of different blocks or without a block "
    "never, and a trip with an unknown service does not suppress other reports. Likewise a pair of "
    "trips with the same service, stops and start time is reported as duplicate when that check is "
    "enabled, and a stop served by both bus and subway routes is reported once.",
    ["inputs"],
    "all sets of trips, blocks, times and calendars",
    "Tests have two or three trips per case.",
    [TF + "schedule.py", TF + "serviceperiod.py"],
    [m("ValidateTrips, ValidateBlocks", TF + "schedule.py"), m("ActiveDates", TF + "serviceperiod.py")],
    ["problem accumulator"],
    MON + "random block assignments; reported pair set compared with brute force over all pairs",
    TRUST))

PROPS.append(P(
    "C14", "Stop location problems are found exactly, wherever on earth",
    "A pair of stops, of stations, or of a stop and a station that is not its parent is reported as "
    "too close exactly when they are less than two metres apart; a stop is reported too far from "
    "its parent station (warning above 100 m, error above 1000 m), as unused, as a used station, or "
    "as having a bad parent exactly when it is. Bounding box and nearest-stop queries return "
    "exactly the stops in the box and the n nearest in order.",
    ["inputs"],
    "all sets of stop positions and parent relations",
    "Tests place two or three stops at one place on the globe.",
    [TF + "schedule.py", TF + "util.py", TF + "stop.py"],
    [m("ValidateNearbyStops, ValidateStops, GetNearestStops, GetStopsInBoundingBox", TF + "schedule.py"),
     m("ApproximateDistance", TF + "util.py")],
    ["problem accumulator", "query results"],
    MON + "random stop constellations (clusters at many latitudes) against a brute-force "
    "all-pairs oracle with an independent distance formula",
    TRUST + "Pairs within 0.1% of a threshold are not judged."))

PROPS.append(P(
    "C15", "The stop-time store behaves as one ordered list per trip",
    "After any sequence of adding, replacing and clearing stop times of any trips of a schedule, "
    "each trip's stop times, count, first and last time, pattern and time tuples are those of the "
    "list that sequence defines, other trips being untouched, and each stop lists exactly the "
    "trips and positions that visit it. Stop times appended without sequence numbers are visited in the order added; "
    "replacing a stop time that does not exist is refused and changes nothing; out-of-order times are reported.",
    ["histories"],
    "all operation histories over several trips, in memory and on disk",
    "Tests apply one or two operations to one trip.",
    [TF + "trip.py", TF + "stop.py", TF + "stoptime.py", TF + "schedule.py"],
    [m("AddStopTimeObject, ReplaceStopTimeObject, ClearStopTimes, GetStopTimes, GetCountStopTimes, "
       "GetStartTime, GetEndTime, GetPattern", TF + "trip.py"),
     m("GetTrips, GetStopTimeTrips", TF + "stop.py")],
    ["Trip and Stop query results after every operation"],
    MON + "random operation histories checked after every step against a list-per-trip model",
    TRUST))

PROPS.append(P(
    "C16", "Merging feeds conserves every entity and rewires every reference",
    "The merged feed contains, for each input entity, exactly one entity that stands for it (shared "
    "only with one entity of the other feed it was merged with), with unchanged content apart from "
    "identifiers and the attributes merging defines, and nothing else. Every reference in it - "
    "trip to route, service, shape and block; route to agency; stop time to stop and trip; parent "
    "station; fare rule to fare, route and zone; transfer to stops - leads to the entity that "
    "stands for the originally referenced one, and distinct unmerged entities keep distinct "
    "identifiers.",
    ["inputs"],
    "all pairs of valid feeds with any overlap of identifiers",
    "Tests merge hand-made pairs that differ in one entity and check counts.",
    ["merge.py", TF + "schedule.py"],
    [m("DataSetMerger subclasses, FeedMerger.MergeSchedules", "merge.py")],
    ["merged schedule contents and merge maps"],
    MON + "pairs of generated feeds merged; conservation and reference-homomorphism checker over "
    "the merged schedule",
    TRUST))

PROPS.append(P(
    "C17", "Merging unifies exactly the entities that are the same",
    "Agencies, stops, routes, fares and shapes of two merged feeds with equal identifiers become one "
    "exactly when their content agrees (stops: same name but for case, zone and location type, within the stop "
    "distance; shapes: both ends within the shape distance; agencies, routes and fares: same defining "
    "attributes, a missing value being the same as an empty one), keeping that identifier, and otherwise both are "
    "kept under new distinct identifiers and the conflict is reported once, also on the report page; entities with an "
    "identifier of only one feed keep it and are never unified, and neither are services and trips. "
    "Merging a feed with an unchanged copy yields its agencies, stops, routes, fares and shapes once.",
    ["inputs"],
    "all pairs of feeds with shared, conflicting and disjoint identifiers",
    "Tests try one pair of entities per table.",
    ["merge.py"],
    [m("_MergeSameId, _MergeEntities, _Migrate of each merger", "merge.py")],
    ["merged schedule", "merge problem accumulator"],
    MON + "feed and mutated copy merged; unification decisions compared with an independent oracle",
    TRUST))

PROPS.append(P(
    "C18", "Merging with a cutoff date splits service exactly at the cutoff",
    "When two feeds are merged with a cutoff date, the merged feed runs on each date before the "
    "cutoff exactly the old feed's trips and on each date from the cutoff on exactly the new "
    "feed's trips, with calendars that stay valid. Without a cutoff, the check for disjoint calendars "
    "succeeds exactly when no service of the old feed has a date range that overlaps one of the new feed, and "
    "merging is refused with an error when it fails and is required.",
    ["inputs"],
    "all pairs of feeds, calendars with exceptions, cutoff dates",
    "Tests use two calendars and one cutoff.",
    ["merge.py", TF + "serviceperiod.py"],
    [m("ServicePeriodMerger.DisjoinCalendars, CheckDisjointCalendars", "merge.py")],
    ["active services and trips per date before and after merging"],
    MON + "random calendars merged at random cutoffs; per-date active trips compared with the inputs",
    TRUST))

PROPS.append(P(
    "C19", "Shapes keep point order and interpolate along it",
    "Whatever order a shape's points are added in, they are kept in ascending sequence order with "
    "their coordinates and distances, the maximum distance is that of the points, and repeated "
    "sequence numbers and decreasing distances are reported. The point at a travelled distance "
    "lies on the segment containing that distance in proportion to it, the ends being clamped; stops far from the corresponding shape point are "
    "reported exactly when farther than the limit.",
    ["inputs", "histories"],
    "all point insertion orders and query distances",
    "Tests use shapes of three or four points.",
    [TF + "shape.py", TF + "shapepoint.py", TF + "trip.py", TF + "loader.py"],
    [m("AddShapePointObjectUnsorted, GetPointWithDistanceTraveled", TF + "shape.py"),
     m("ValidateDistanceFromStopToShape", TF + "trip.py"), m("_LoadShapes", TF + "loader.py")],
    ["Shape.points, max_distance, query results, accumulator"],
    MON + "random insertion orders against a sorted-list model and a linear-scan interpolation oracle",
    TRUST))

PROPS.append(P(
    "C20", "Polyline geometry and graph search give true distances and shortest paths",
    "On the sphere, converting between coordinates and points is inverse, distances and lengths "
    "agree with great-circle distances, the closest point of a segment or polyline is no farther "
    "than any other point of it, and merging, cutting and joining polylines keeps their points in "
    "order. A collection keeps each distinct polyline it is given and finds by end points exactly those "
    "within the radius. A shortest path between two nodes of a polyline graph, or along a sequence "
    "of points, connects them along the graph's polylines with the least total "
    "length, and is reported missing exactly when no path exists.",
    ["inputs"],
    "all points, polylines and graphs",
    "Tests use axis-aligned points and a graph of five edges.",
    [TF + "shapelib.py"],
    [m("Point, Poly, PolyCollection, PolyGraph", TF + "shapelib.py")],
    ["return values of the geometry and graph functions"],
    MON + "random points, polylines and graphs against independent vector formulas, dense sampling "
    "and Dijkstra",
    TRUST + "Floating-point comparisons use relative tolerance 1e-6."))

PROPS.append(P(
    "C21", "The validation report counts and shows what was found",
    "The validator's totals equal the number of problems reported per severity and kind, its exit "
    "status is 1 exactly if there is an error or warning left after ignoring the kinds the user asked to ignore, and each kind shows at most the configured number of "
    "examples: the most significant ones where an order of significance exists, otherwise the first ones, in order. "
    "Every shown example carries its file, row, and text in both the HTML and the console "
    "report, also for non-ASCII and markup-like values, and the report page keeps its structure.",
    ["inputs", "configurations"],
    "all sequences of problems and report settings",
    "Tests feed a few problems and grep the output.",
    ["feedvalidator.py", TF + "problems.py"],
    [m("LimitPerTypeProblemAccumulator, BoundedProblemList, HTMLCountingProblemAccumulator, "
       "CountingConsoleProblemAccumulator, RunValidation", "feedvalidator.py")],
    ["report output, exit codes, problem lists"],
    MON + "random problem sequences pushed through the real accumulators, output parsed and compared "
    "with a counting model",
    TRUST))

PROPS.append(P(
    "C22", "KML export draws the feed and KML import reads it back",
    "The KML export of a feed is well-formed and contains one placemark per located stop, with its "
    "name and coordinates, and per route, trip and shape the line through exactly their points in "
    "order and in the route's colour, according to the export options; importing it returns the stops. Importing any KML document yields one stop "
    "per point placemark, with its name and coordinates, and one shape per line placemark with its points in order.",
    ["inputs", "configurations"],
    "all feeds and all export options",
    "Tests check single placemarks of two sample feeds.",
    ["kmlwriter.py", "kmlparser.py"],
    [m("KMLWriter", "kmlwriter.py"), m("KmlParser", "kmlparser.py")],
    ["parsed output KML", "parsed schedule"],
    MON + "generated feeds exported, output parsed independently and compared with the model; "
    "generated KML imported",
    TRUST))

PROPS.append(P(
    "C23", "Unusual-trip filtering marks exactly the infrequent trips",
    "The filter marks a trip as special exactly when its stop pattern accounts for less than the threshold "
    "share of its route's trips and the route is of the type the user restricted the filter to, if any; when "
    "asked to override, all other trips of those routes become regular, otherwise they keep their type; nothing "
    "else changes, in memory or in the written feed. Removing unused stops removes exactly the stops "
    "no trip visits, except the stations of visited stops.",
    ["inputs", "configurations"],
    "all feeds, thresholds and route-type restrictions",
    "Tests use one feed with a fixed threshold.",
    ["unusual_trip_filter.py", TF + "route.py", "examples/filter_unused_stops.py"],
    [m("UnusualTripFilter.filter", "unusual_trip_filter.py"),
     m("GetPatternIdTripDict", TF + "route.py")],
    ["trip_type of every trip before and after", "written feed"],
    MON + "random pattern distributions compared with direct counting",
    TRUST))

PROPS.append(P(
    "C24", "The schedule viewer answers queries as the feed says",
    "Every JSON query of the schedule viewer - routes, route details and patterns, trip rows, trip stop times, trip shapes, "
    "stops in a bounding box, stop search and next departures from a stop at a time and date - "
    "returns exactly the matching entities of the feed with the feed's values and services; "
    "the home page names its agencies and the box of its stops. Requests for "
    "static files never return anything from outside the viewer's file directory, and malformed "
    "requests are refused without stopping the server.",
    ["inputs", "histories"],
    "all feeds and request sequences",
    "No test issues a request to the viewer.",
    ["schedule_viewer.py", TF + "trip.py", TF + "stop.py", TF + "schedule.py"],
    [m("ScheduleRequestHandler handle_json_GET_*, handle_static_file_GET, do_GET", "schedule_viewer.py")],
    ["HTTP responses on the loopback interface"],
    MON + "live server on loopback driven with random requests, responses compared with a "
    "reference query evaluator; path containment monitor",
    TRUST))

PROPS.append(P(
    "C25", "Language tags are judged by the BCP 47 grammar and registry",
    "A language tag is found well-formed exactly when it follows the BCP 47 grammar, and valid exactly when in addition all its "
    "subtags are registered and no variant or extension singleton repeats, independent of letter case; the components "
    "are recognised as language, extlang, script, region, variants, extensions and private use "
    "as the grammar assigns them.",
    ["inputs"],
    "all tags",
    "Tests check a fixed list of tags.",
    ["extensions/googletransit/pybcp47/bcp47languageparser.py",
     "extensions/googletransit/pybcp47/testpybcp47.py"],
    [m("Bcp47LanguageParser.ParseLanguage", "extensions/googletransit/pybcp47/bcp47languageparser.py")],
    ["ParseLanguage results"],
    MON + "grammar-generated and mutated tags against an independent RFC 5646 recogniser over the "
    "same registry file",
    TRUST))

PROPS.append(P(
    "C26", "Extension mappings take effect for loading, and only consistently",
    "After any sequence of mapping additions, updates and removals on a factory, looking up a file or class name yields exactly "
    "what the sequence defines, invalid changes are refused and change nothing, the loading order lists "
    "exactly the loadable files in order, and a feed loaded with the factory produces objects of the mapped "
    "classes. One factory's changes never affect another factory.",
    ["histories"],
    "all histories of factory changes",
    "Tests make one change at a time.",
    [TF + "gtfsfactory.py", TF + "gtfsfactoryuser.py", TF + "loader.py"],
    [m("AddMapping, UpdateMapping, RemoveMapping, AddClass, UpdateClass, RemoveClass, "
       "GetLoadingOrder, GetKnownFilenames", TF + "gtfsfactory.py")],
    ["factory query results", "classes of loaded objects"],
    MON + "random change histories against a dictionary model, with loads at random points",
    TRUST))

PROPS.append(P(
    "C27", "Field validation accepts exactly the values GTFS allows",
    "For every field of agencies, stops, routes, trips, fares, transfers, feed info, frequencies, calendars and shape "
    "points, validation accepts exactly the allowed values and reports any other value with the right "
    "column and severity, independent of the other fields except for the documented cross-field "
    "rules (names, colours, parents, transfer times and distances, date order). Valid values are kept as given.",
    ["inputs"],
    "all values of all validated fields and their combinations",
    "Tests try one or two bad values per field.",
    [TF + "agency.py", TF + "stop.py", TF + "route.py", TF + "trip.py", TF + "fareattribute.py",
     TF + "transfer.py", TF + "feedinfo.py", TF + "shapepoint.py", TF + "serviceperiod.py", TF + "util.py"],
    [m("Validate*/ParseAttributes of each entity", TF), m("ISO639, ISO4217, IsValid*", TF + "util.py")],
    ["problem accumulator and attribute values after validation"],
    MON + "random field combinations validated, problem multiset compared with a table-driven "
    "reference decision procedure",
    TRUST))

PROPS.append(P(
    "C28", "Upgraded translations translate every text as before",
    "After upgrading a feed's translations to the new format, looking up any text that had translations, "
    "of any record in any language, by the new format's rules gives the same translation that the old "
    "format gave, and all tables are otherwise unchanged except that translated texts appear in the feed "
    "language. No translation row refers to a record, field or value that does not exist.",
    ["inputs"],
    "all feeds with old-format translations, context-dependent ones included",
    "Tests compare two sample feeds with stored output.",
    ["upgrade_translations.py"],
    [m("TranslationsConverter, TableTranslator, OldTranslations", "upgrade_translations.py")],
    ["files of the upgraded feed"],
    MON + "generated translated feeds upgraded, old-rule and new-rule lookups compared for every "
    "record, field and language",
    TRUST))

PROPS.append(P(
    "C29", "The pathway graph shows exactly the station's locations and pathways",
    "The graph drawn for a feed, or for chosen stops, contains exactly one node or cluster per "
    "location of the selected stations, inside its station and platform, and one edge per pathway between "
    "selected locations with its direction, mode and signs. The output is well-formed DOT for any identifiers "
    "and names.",
    ["inputs", "configurations"],
    "all stops and pathways tables and stop selections",
    "Tests compare two sample feeds with stored output.",
    ["visualize_pathways.py"],
    [m("gtfs_to_graphviz, choose_location_ids, GraphViz", "visualize_pathways.py")],
    ["DOT output"],
    MON + "generated stations rendered, DOT parsed independently and compared with the model",
    TRUST))

PROPS.append(P(
    "C30", "Line-end and header anomalies are reported exactly",
    "For every file, lines ending in neither LF nor CR LF, mixtures of both, and forbidden "
    "control or separator characters inside a line are reported exactly when present, with the line number and the "
    "right counts and examples, and the lines passed on are the file's lines without their ends. Duplicate, "
    "blank, space-trailed, unknown, deprecated and missing header columns and rows with too many or too few cells are each "
    "reported exactly when present, in every file, as are files that are empty, in UTF-16, with null bytes, or absent though required.",
    ["inputs"],
    "all file contents",
    "Tests contain one file per anomaly.",
    [TF + "util.py", TF + "loader.py"],
    [m("EndOfLineChecker", TF + "util.py"), m("_ReadCsvDict, _ReadCSV", TF + "loader.py")],
    ["problem accumulator", "lines yielded"],
    MON + "random line/ending/header sequences compared with an independent scanner",
    TRUST))

PROPS.append(P(
    "C31", "Building a schedule through the API yields a consistent feed",
    "In any sequence of API calls adding agencies, stops, routes, service periods, trips, stop times and fares, with identifiers "
    "given or left out, generated identifiers are new and unique, omitted agencies and services resolve to the schedule's defaults, each object is "
    "found under its identifier, and every trip belongs to its route and service. The schedule so built validates "
    "without errors about references, and attributes set before or after adding are what gets written.",
    ["histories"],
    "all API call sequences",
    "Tests build three small schedules.",
    [TF + "schedule.py", TF + "route.py", TF + "trip.py", TF + "gtfsobjectbase.py", TF + "util.py"],
    [m("AddStop, AddRoute, AddAgency, NewDefaultAgency, GetDefaultServicePeriod, AddTrip", TF + "schedule.py, route.py"),
     m("FindUniqueId", TF + "util.py"), m("__setattr__ column tracking", TF + "gtfsobjectbase.py")],
    ["Schedule accessors, written feed"],
    MON + "random API call histories against a relational model, then written and read independently",
    TRUST))

PROPS.append(P(
    "C32", "Marey graphs plot every stop and trip where the timetable puts it",
    "The Marey graph of a set of trips is well-formed SVG in which station lines lie at heights "
    "growing with travelled distance or time, every drawn trip is one polyline through exactly its timed "
    "stops, earlier times lying left of later ones, and rendering the same trips again gives the same graph. "
    "The viewer draws all trips of the pattern asked for, and no others.",
    ["inputs", "configurations"],
    "all trip lists and graph settings",
    "No test renders a graph.",
    ["gtfsscheduleviewer/marey_graph.py", "schedule_viewer.py"],
    [m("MareyGraph.Draw, _CalculateYLines, _DrawTrips", "gtfsscheduleviewer/marey_graph.py"),
     m("handle_GET_ttablegraph", "schedule_viewer.py")],
    ["SVG output"],
    MON + "random trips drawn, SVG parsed and compared with the expected coordinates",
    TRUST))

PROPS.append(P(
    "C33", "The command-line tools do what the library does",
    "Running the feed validator, merger, KML writer, unusual-trip filter and example converters as "
    "programs on files gives the same result as the library on the same data, with exit status and "
    "output files as documented, never modifying their inputs. A program that meets an unexpected error says so "
    "and leaves its crash report, never reporting success. A newer release, and only a newer one, is announced.",
    ["inputs", "configurations"],
    "all inputs and option combinations",
    "Tests run each tool once or twice on sample data.",
    ["feedvalidator.py", "merge.py", "kmlwriter.py", "unusual_trip_filter.py", "examples/table.py",
     "examples/small_builder.py", "examples/filter_unused_stops.py", TF + "util.py"],
    [m("main functions, RunWithCrashHandler", "feedvalidator.py, merge.py, " + TF + "util.py")],
    ["exit status, files written"],
    MON + "tools run in-process on generated files in scratch directories, outputs compared with "
    "library results and independent oracles",
    TRUST))

PROPS.append(P(
    "C34", "The googletransit extension adds its rules and changes nothing else",
    "With the googletransit extension, every valid feed using its columns (language tags, extended route types, "
    "vehicle_type, platform_code, entrances, co2_per_km, agency_id of fares) loads without problems, keeps these "
    "values in memory and when written, and each invalid value is reported once, with the documented class, severity "
    "and row. Speed limits follow the vehicle type. A feed that uses none of its columns is reported exactly as "
    "without the extension.",
    ["inputs"],
    "all feeds with and without the columns of the extension",
    "Tests load a handful of single-defect sample directories.",
    ["extensions/googletransit"],
    [m("Stop, Route, Agency, FareAttribute, Schedule, GetGtfsFactory", "extensions/googletransit")],
    ["problem reports, attribute values, written tables"],
    MON + "feeds with single injected defects judged against an independent table of the rules; differential loading "
    "with and without the extension; trips on both sides of every speed limit",
    TRUST))

PROPS.append(P(
    "C35", "Feed objects are equal, copied and indexed by their fields",
    "Two agencies, stops, routes, trips, transfers, feed infos, fares, fare rules, services or shapes are equal exactly "
    "when all their fields are (fares: and their rules; services: their exceptions; in any order of insertion); an unset "
    "field, None and the empty text are the same. Copies are equal and independent. Attributes, [] and iteration agree; "
    "unset known fields are None, unknown attributes raise AttributeError. What an object in a schedule sets becomes a "
    "column of its table, once, after the others; private attributes do not.",
    ["inputs"],
    "all values of the fields of all kinds of objects, and all alterations of them",
    "Tests compare a few fixed objects.",
    ["transitfeed/gtfsobjectbase.py", "transitfeed/fareattribute.py", "transitfeed/farerule.py",
     "transitfeed/serviceperiod.py", "transitfeed/shape.py", "transitfeed/stop.py", "transitfeed/route.py"],
    [m("GtfsObjectBase, __eq__ of FareAttribute, FareRule, ServicePeriod, Shape; Schedule.AddTableColumn",
       "transitfeed/gtfsobjectbase.py")],
    ["results of comparisons, item and attribute access, table columns"],
    MON + "twins, twins altered in one field and copies of random objects judged by comparing the rows they were made "
    "from",
    TRUST))

PROPS.append(P(
    "C36", "The shape importer gives trips the shapes that fit them",
    "shape_importer.py gives all trips of a stop pattern one new shape: the line that runs from the first to the last stop "
    "and fits all stops best, or the shortest way along pieces of lines that meet at the stops, or, where nothing is within "
    "the maximal distance, what they had. Lines may come from several files and extra shapes, under any names and key "
    "columns. Everything else in the feed, including its own shapes, stays as it is, and the counts reported are right.",
    ["inputs", "configurations"],
    "all feeds, layers of lines, extra shapes and options",
    "The tool has no tests.",
    ["shape_importer.py", "transitfeed/shapelib.py", "transitfeed/shapeloader.py"],
    [m("AddShapefile, GetMatchingShape, main; PolyGraph", "shape_importer.py, transitfeed/shapelib.py")],
    ["written feed, console output, exit status"],
    MON + "lines laid out around known stops (fitting, nearly fitting, in pieces, broken) delivered by a stand-in for "
    "ogr; the written feed compared with the source and the expected points",
    TRUST + " The stand-in offers the functions of ogr that the tool calls."))

PROPS.append(P(
    "C37", "The location editor moves the stops it is told to, and nothing else",
    "A move of a stop asked of location_editor.py takes effect at once for all later queries and is saved, with everything "
    "else in the feed unchanged, when and only when saving is asked for. Moves of unknown stops, and moves to something that "
    "is no location, change nothing and are refused. The plain viewer neither moves nor saves. Both programs serve the feed, "
    "port, host, key and files of their command line.",
    ["inputs", "histories", "configurations"],
    "all feeds and all sequences of moves, queries and saves",
    "The editor has no tests.",
    ["location_editor.py", "schedule_viewer.py"],
    [m("handle_json_GET_setstoplocation, handle_json_GET_savedata, AllowEditMode, main",
       "location_editor.py, schedule_viewer.py")],
    ["HTTP answers", "stops in memory", "saved feed"],
    MON + "random sessions over loopback sockets against the real server; memory judged after each step, the file after "
    "each save and at the end",
    TRUST))

PROPS.append(P(
    "C38", "The Zurich importer writes the timetable of the export",
    "misc/import_ch_zurich.py turns an export of the DIVA system into a feed with exactly its stations (name, city, "
    "converted position), lines, services with their days, and regular trips with their times and boarding rules at each "
    "stop; with --drop_unadvertised_lines only at the stops where the line is advertised.",
    ["inputs"],
    "all exports in the layout the importer reads",
    "The importer has no tests.",
    ["misc/import_ch_zurich.py"],
    [m("DivaImporter, ReadCSV, ConvertCH1903", "misc/import_ch_zurich.py")],
    ["written feed"],
    MON + "random exports written from a model of the timetable, converted by the tool, the written tables compared with "
    "the model",
    TRUST + " The layout of the export is known only from the importer."))

PROPS.append(P(
    "C39", "Remarks on the feed as a whole are given exactly when called for",
    "Loading with validation reports, and only when it is so: that agencies differ in time zone (once, naming all), that an "
    "agency's language is not that of the feed (per agency), each agency without an identifier among several, all routes that "
    "share both names with an earlier one (whatever letters' case, spaces and agencies), the shapes no trip uses (once, naming "
    "exactly these), and each trip of no or one stop, or with frequencies but no stop times; however many of these a feed has "
    "at once.",
    ["inputs"],
    "all feeds with any combination of these",
    "Tests look at one remark on one feed each.",
    [TF + "schedule.py"],
    [m("Schedule.Validate and the methods it calls", TF + "schedule.py")],
    ["problem reports"],
    MON + "feeds with many such features at once, the reports matched one to one with those a model expects",
    TRUST))

PROPS.append(P(
    "C40", "A reported problem is delivered once, where it is, readable, and in order",
    "Each report made through a ProblemReporter reaches the accumulator set last, once and at once, as a problem of that kind, "
    "severity and values, at the place given with it or else the place set last. Its words name what was reported and its place "
    "the file, row and column, for texts in any script; reading it changes nothing. Stock accumulators print every word on "
    "lines of at most 78 columns where blanks allow, and raise errors, or warnings too, only if asked to. Problems with a "
    "significance compare by it; order keys compare by severity, file and row.",
    ["inputs", "histories"],
    "all reports and histories of places and accumulators",
    "Tests look at a few problems at fixed places.",
    [TF + "problems.py"],
    [m("ProblemReporter, ExceptionWithContext, SimpleProblemAccumulator, ExceptionProblemAccumulator", TF + "problems.py")],
    ["delivered problems", "console output", "exceptions"],
    MON + "random histories of reports, places and accumulators of one reporter; each delivered problem and everything "
    "printed or raised judged by a table of what each report says",
    TRUST))

PROPS.append(P(
    "C41", "Schedules in one process do not influence one another",
    "What happens to a feed does not depend on what else the process does or did: loading, asking, changing, validating, "
    "writing and reloading it give the same answers, problems and files alone, in turns with the same done to other feeds "
    "(also hostile ones, with the same identifiers or other factories), inside a report about another feed, while other "
    "threads do this to feeds of their own, and afterwards.",
    ["schedules", "histories"],
    "all feeds and interleavings, with no schedule, factory or reporter shared",
    "Each test has one process state; pytest and nose run tests one after another.",
    [TF + "schedule.py", TF + "loader.py", TF + "problems.py"],
    [m("module and class state, caches and temporary databases", TF + "schedule.py"),
     m("memory_db, context of reports", TF + "loader.py")],
    ["objects in memory", "problem reports", "written feed"],
    MON + "two to four jobs run alone and recorded step by step, then with their steps shuffled, nested in a report, or in "
    "threads with delays injected at reports; every step's observations compared with those alone",
    TRUST))

"""The property table: one place for properties.jsonl and MANIFEST.json."""

NOTES = ("All checks run `run.py`, which imports the library from /repo's working tree "
         "(WELLENG_REPO overrides), forks pristine children for references and simulated runs, and "
         "writes evidence/<id>.json. `./run.py replay <file>` replays a violation exactly.")

SIMNOTE = ("Seeded search, not exhaustive: a violation needs to be reachable within the generated "
           "worlds, fault scripts and schedules. Trusts numpy/scipy/pandas/pyproj and CPython. ")
HISTNOTE = SIMNOTE + ("Oracle: the same operation run alone on freshly built inputs in a pristine forked "
                      "process (so a formula that is wrong in every context is out of scope).")

CLAIMED = [
 dict(id="P01", title="Survey headers stay correct through magnetic-service faults",
  statement="However the magnetic-field service misbehaves or the process is offline, building a survey "
  "header keeps every value the caller supplied (name, location, date, field values, angles in the units "
  "given), defaults an omitted date to the current date, and fills missing field values either entirely "
  "from a usable answer for this header's own location and date or entirely from the documented defaults. "
  "One header's lookup never affects another header, and a user interrupt reaches the caller.",
  over=["fault_sequences", "inputs", "schedules", "histories"],
  text="all combinations of supplied/omitted header values, locations and dates; all sequences of service "
  "answers and failures per request; all interleavings and orders of header constructions in one process",
  why="tests build one header with or without the network; no test scripts service failures, a second "
  "attempt, clock changes between requests, or several headers in flight",
  files=["welleng/survey.py"],
  mech=[("magnetic lookup with fallback", "welleng/survey.py SurveyHeader._get_mag_data"),
        ("date handling", "welleng/survey.py SurveyHeader._get_date / _validate_date")],
  obs=["attributes of the header object"],
  technique="scripted faulty service and simulated clock, seeded thread schedules, judged against the recorded request/answer history",
  note=SIMNOTE + "The service client's HTTP layer is a stub; the real client library code above it runs."),
 dict(id="P02", title="Map look-ups stay correct through magnetic-service faults",
  statement="Deriving survey parameters from map coordinates returns the coordinates given, the geographic "
  "position, convergence and scale factor of that projection at that point, and the date given (or the "
  "current date), whatever the magnetic-field service does. Magnetic values are those of a usable answer "
  "for this position and date, or absent when there was none; look-ups never mix.",
  over=["fault_sequences", "inputs", "schedules"],
  text="all positions, projections and dates; all service answer/failure sequences; sequential or "
  "interleaved look-ups on shared or separate converter objects",
  why="the only test of this path needs the network and one known location",
  files=["welleng/survey.py"],
  mech=[("parameters from map coordinates", "welleng/survey.py SurveyParameters.get_factors_from_x_y")],
  obs=["returned dictionary"],
  technique="scripted faulty service and simulated clock, seeded thread schedules, judged against the recorded request/answer history and a fault-free projection reference",
  note=SIMNOTE + "Projection values are compared with pyproj used directly in a pristine process."),
 dict(id="P03", title="Survey queries are read-only and independent of history",
  statement="Any query on a survey (interpolation, resampling, projection to bit or target, vertical "
  "section, tortuosity and difficulty indices, curvature, slicing, splicing, tables) returns what it "
  "would return for a freshly built survey, whatever ran before, and leaves every survey and header as "
  "it was. This includes earlier queries that failed or were interrupted, other surveys created and "
  "discarded in between, and callers who overwrite results handed to them.",
  over=["histories", "inputs", "fault_sequences"],
  text="all finite sequences of queries, failures and interruptions over all surveys in one process",
  why="each test asks one query of one fresh survey; none compares a query's answer before and after others",
  files=["welleng/survey.py", "welleng/utils.py", "welleng/node.py", "welleng/connector.py"],
  mech=[("derived surveys and nodes are built from copies", "welleng/survey.py Survey, interpolate_md, "
         "interpolate_survey, _interpolate_survey, get_node"),
        ("header kept for derived surveys", "welleng/survey.py get_grid_header")],
  obs=["return values", "public attributes of every survey and header"],
  technique="seeded histories with injected interrupts and result overwriting, refinement against each query alone in a pristine process",
  note=HISTNOTE),
 dict(id="P04", title="Surveys that share a header stay independent of each other",
  statement="Changing one survey (vertical section azimuth, re-computed error model) or building further "
  "surveys on the same header never changes any other survey or the header's survey, reference, magnetic "
  "and unit settings. A survey's state is determined by its own inputs and its own setters only; a setter "
  "that is rejected leaves the survey as it was.",
  over=["histories", "schedules", "inputs"],
  text="all sequences and interleavings of setters, constructions and queries over surveys sharing headers",
  why="tests give every survey its own header and never look at the others after a change",
  files=["welleng/survey.py", "welleng/error.py"],
  mech=[("header ownership", "welleng/survey.py Survey.__init__"),
        ("setters", "welleng/survey.py Survey.set_vertical_section, Survey.get_error")],
  obs=["public attributes of every survey and header"],
  technique="seeded histories and thread schedules over shared headers, refinement against each survey alone",
  note=HISTNOTE),
 dict(id="P06", title="Concurrent callers get the answers of sequential ones",
  statement="Threads that query shared surveys, build surveys and evaluate error models at the same time "
  "each get exactly the answer they would have got alone, and shared objects keep their content.",
  over=["schedules", "histories"],
  text="all interleavings, at line and bytecode granularity, of 2-3 threads with several operations each",
  why="the test suite is single-threaded",
  files=["welleng/survey.py", "welleng/error.py", "welleng/errors/tool_errors.py", "welleng/utils.py",
         "welleng/errors/interpreter.py"],
  mech=[("no shared mutable scratch state between calls", "welleng/survey.py, welleng/errors/tool_errors.py"),
        ("module level model index", "welleng/errors/tool_errors.py, welleng/error.py")],
  obs=["return values", "public attributes of shared objects"],
  technique="seeded preemptive thread schedules at line/bytecode level, refinement against each operation alone",
  note=HISTNOTE + " Preemption inside C calls is not simulated."),
 dict(id="P07", title="An error model evaluation depends on its survey and model only",
  statement="The position covariances, per-source errors and breakdowns of evaluating any tool error model "
  "on a survey depend only on that survey and that model. Evaluations done before or at the same time, of "
  "other models, other surveys, or surveys sharing a header or depths, never leak into it.",
  over=["histories", "schedules", "inputs"],
  text="all sequences and interleavings of evaluations over all shipped tool models and surveys",
  why="each test evaluates one model on one survey in a fixed order",
  files=["welleng/error.py", "welleng/errors/tool_errors.py", "welleng/errors/iscwsa_mwd.py",
         "welleng/errors/interpreter.py"],
  mech=[("error model evaluation", "welleng/error.py ErrorModel"),
        ("term evaluation and weighting functions", "welleng/errors/tool_errors.py ToolError")],
  obs=["covariance attributes and per-source errors"],
  technique="seeded histories and thread schedules of evaluations with interruptions, refinement against each evaluation alone",
  note=HISTNOTE),
 dict(id="P09", title="Internal failures never silently shrink an uncertainty",
  statement="If something fails while an error model is being evaluated (an allocation failure or user "
  "interrupt at any point), the evaluation raises or gives the exact full answer. It never returns "
  "covariances with missing or altered contributions, and evaluating again gives the exact answer.",
  over=["crash_points", "fault_sequences", "inputs"],
  text="every point of library code executed during an evaluation, for every model and survey",
  why="no test makes anything inside an evaluation fail",
  files=["welleng/error.py", "welleng/errors/tool_errors.py", "welleng/errors/interpreter.py"],
  mech=[("narrow handling of unsupported formulas", "welleng/errors/tool_errors.py _call_interpreter")],
  obs=["covariance attributes and per-source errors", "exceptions"],
  technique="seeded injection of one failure at a line-level point inside the evaluation, exact-or-raise oracle",
  note=HISTNOTE),
 dict(id="P10", title="Clearance and mesh analyses are isolated",
  statement="A clearance or mesh analysis between two wells gives the same separation factors, distances, "
  "ellipses and meshes whatever was analysed before or is analysed at the same time, and leaves both wells "
  "unchanged, so that every offset can be screened against the same reference.",
  over=["histories", "schedules", "inputs"],
  text="all sequences and interleavings of analyses and queries over a pad of wells, with interruptions",
  why="each test runs one analysis on wells built for it",
  files=["welleng/clearance.py", "welleng/mesh.py", "welleng/survey.py"],
  mech=[("analyses work on derived surveys", "welleng/clearance.py IscwsaClearance._get_ref/_get_off"),
        ("mesh construction", "welleng/mesh.py WellMesh")],
  obs=["analysis results", "public attributes of both wells"],
  technique="seeded histories, interrupts and thread schedules of analyses, refinement against each analysis alone",
  note=HISTNOTE),
 dict(id="P21", title="Interruption anywhere leaves inputs intact and retry is exact",
  statement="When a user interrupt or an allocation failure strikes at any point inside any survey "
  "operation, the caller sees it (an interrupt is never swallowed, a failure is never turned into a "
  "different answer), every existing survey and header keeps its content, and repeating the operation "
  "gives the exact answer.",
  over=["crash_points", "fault_sequences", "histories"],
  text="every line-level point of every operation, one or more interruptions per history",
  why="no test interrupts an operation",
  files=["welleng/survey.py", "welleng/clearance.py", "welleng/mesh.py", "welleng/error.py"],
  mech=[("state is published only when complete", "welleng/survey.py Survey.get_error, set_vertical_section"),
        ("derived objects", "welleng/survey.py, welleng/clearance.py")],
  obs=["exceptions", "return values", "public attributes"],
  technique="seeded interrupts and allocation failures at line-level points, exact-or-raise and unchanged-state oracles",
  note=HISTNOTE),
 dict(id="P05", title="Arguments belong to the caller",
  statement="No public function or class modifies what the caller passed in: arrays, lists, dictionaries, "
  "nodes, connectors, headers and surveys keep their content, also when the call fails or is interrupted "
  "and when two threads pass the same object. Passing an object to several calls therefore gives each "
  "call the answer it would give on fresh arguments.",
  over=["histories", "fault_sequences", "schedules", "inputs"],
  text="all sequences of public calls sharing arguments, with failures and interruptions at any point",
  why="tests build fresh arguments for each call and look only at what comes back",
  files=["welleng/utils.py", "welleng/survey.py", "welleng/node.py", "welleng/connector.py",
         "welleng/clearance.py", "welleng/mesh.py"],
  mech=[("utility functions work on copies", "welleng/utils.py get_nev, get_xyz, NEV_to_HLA, Arc.transform"),
        ("nodes and connectors copy their inputs", "welleng/node.py Node, welleng/connector.py Connector")],
  obs=["content of every argument after every call", "return values"],
  technique="seeded call histories over a shared pool of arguments with injected failures and thread schedules, refinement against each call alone",
  note=HISTNOTE),
 dict(id="P11", title="Well plans are reproducible",
  statement="Connecting points, nodes and targets, extending to a depth, dropping off, interpolating a "
  "plan and turning it into a survey give an answer determined by their arguments alone: not by what was "
  "planned before or at the same time, nor by the process's random generators, whose state they leave "
  "untouched. Nodes and connectors used in one plan stay valid for the next.",
  over=["histories", "schedules", "inputs"],
  text="all sequences and interleavings of planning calls, under every state of the global random generators",
  why="tests run one connection once and never compare two runs of the same plan",
  files=["welleng/connector.py", "welleng/node.py", "welleng/survey.py", "welleng/utils.py"],
  mech=[("connection search", "welleng/connector.py Connector"),
        ("plan to survey", "welleng/connector.py interpolate_well, welleng/survey.py from_connections")],
  obs=["connector attributes", "interpolated plans", "random generator state"],
  technique="seeded call histories, interrupts, thread schedules and differing global random state, refinement against each call alone",
  note=HISTNOTE),
 dict(id="P19", title="Strings and wellbores stay well formed",
  statement="A string or wellbore being assembled always holds contiguous, ordered sections between its "
  "top and bottom, each with the values given for it, and is marked complete exactly when it reaches its "
  "end. A rejected or interrupted addition leaves it as it was, and another string built meanwhile is "
  "unaffected.",
  over=["histories", "fault_sequences", "inputs"],
  text="all sequences of section additions, from the top or the bottom, valid or not, interrupted or not",
  why="the tests never build a string from the bottom or add an invalid section",
  files=["welleng/architecture.py"],
  mech=[("adding sections", "welleng/architecture.py String.add_section, add_section_top_down, add_section_bottom_up")],
  obs=["sections, top, bottom and complete attributes", "exceptions"],
  technique="seeded histories of additions with injected interrupts, refinement against a small list-based reference model",
  note=SIMNOTE + "Oracle: an independent model of the string, stepped along with the real one."),
 dict(id="P20", title="Torque, drag and fluid scenarios are independent",
  statement="Torque and drag, hook load and fluid density results depend on their own well, string, loads "
  "and fluid only. Running scenarios in any order, repeatedly, interrupted or concurrently on the same "
  "string and wellbore gives each the answer of a first run, and leaves string, wellbore, survey and fluid "
  "as they were.",
  over=["histories", "schedules", "fault_sequences", "inputs"],
  text="all sequences and interleavings of scenarios over shared strings, wellbores and surveys",
  why="each test runs one scenario on one fresh string",
  files=["welleng/torque_drag.py", "welleng/architecture.py", "welleng/fluid.py"],
  mech=[("string sampled along the survey", "welleng/torque_drag.py TorqueDrag"),
        ("hook load sweeps", "welleng/torque_drag.py HookLoad")],
  obs=["tension, torque, buoyed weight, hook loads, densities", "content of string, wellbore, survey, fluid"],
  technique="seeded histories, interrupts and thread schedules of scenarios on shared strings, refinement against each alone",
  note=HISTNOTE),
 dict(id="P08", title="Error model definitions survive storage trouble",
  statement="Evaluating an error model gives exactly the result of its published definition file or fails "
  "with an error: an unreadable, slow or reordered model directory never makes another definition, or a "
  "part of one, stand in. A failed evaluation leaves the survey as it was, a later attempt succeeds, every "
  "usable model evaluates, and its total is the sum of its error sources and of its propagation classes.",
  over=["fault_sequences", "histories", "inputs"],
  text="all models, surveys, and sequences of failing opens, reads and directory listings, short reads and "
  "listing orders during the evaluations",
  why="tests read the definitions from a healthy disk in one listing order, and sample few models",
  files=["welleng/error.py", "welleng/errors/tool_errors.py", "welleng/errors/conformance.py"],
  mech=[("definition look-up and loading", "welleng/errors/tool_errors.py ToolError, _resolve_json_model"),
        ("evaluation on a survey", "welleng/survey.py Survey.get_error")],
  obs=["covariances, per-source terms, model list", "exceptions", "survey attributes after a failure"],
  technique="storage faults scripted below the real file layers during evaluations, retries and listing shuffles, refinement against the evaluation alone on a healthy disk",
  note=HISTNOTE + " The numbers of a definition are those the healthy library gives."),
 dict(id="P12", title="Saving a well plan leaves the whole file or says it failed",
  statement="When saving well plans returns, the file holds the whole document, also if the process dies "
  "right afterwards; when it fails or crashes, the file holds its old content or a prefix of the new, and a "
  "retry writes the whole file. A plan that cannot be rendered leaves the existing file alone. Saving "
  "never changes the plan, and a document does not depend on what was saved or loaded before.",
  over=["fault_sequences", "crash_points", "histories", "schedules"],
  text="all sequences of saves over new and existing files, all points of failure, torn write or crash in them",
  why="tests write one file once on a healthy disk",
  files=["welleng/exchange/wbp.py"],
  mech=[("saving", "welleng/exchange/wbp.py save_to_file, export"), ("parent plans", "welleng/exchange/wbp.py WellPlan(parent_wbp_file)")],
  obs=["bytes on disk", "exceptions", "plan attributes"],
  technique="scripted disk faults and process crashes below the real file layers, durability and atomicity checks against the fault-free document",
  note=HISTNOTE + " A process crash keeps what was written; power loss is not modelled."),
 dict(id="P13", title="Loading a well plan file gives exactly its content",
  statement="Loading a .wbp file gives every plan, target, step, unit and location stated in it, each plan "
  "with targets of its own, or fails with an error. Read faults never give a partial plan, loads do not "
  "affect plans loaded earlier or at the same time, and interrupts reach the caller.",
  over=["inputs", "fault_sequences", "histories", "schedules"],
  text="all well-formed plan files, all sequences of loads with failing, short or interrupted reads",
  why="tests load one file; none holds several plans, geometry or blank lines, or fails to read",
  files=["welleng/exchange/wbp.py"],
  mech=[("parsing", "welleng/exchange/wbp.py WellPlan._process_wbp_data, load")],
  obs=["attributes of the loaded plans"],
  technique="read faults, interrupts and interleavings during loads, refinement against the model each file was written from",
  note=SIMNOTE + "Oracle: the generator's own model of the file."),
 dict(id="P14", title="A saved well plan loads back",
  statement="Loading a saved plan gives the plan that was saved to the printed precision: names, units, "
  "method, steps with their angles, rates and locations, and the targets' "
  "names, places and colours, for plans from surveys, several plans "
  "in one file and plans loaded from a file, also when the save was retried after a failure.",
  over=["inputs", "fault_sequences", "histories"],
  text="all plans and all sequences of saves, failures, retries and loads",
  why="the test compares one plan of one well without targets",
  files=["welleng/exchange/wbp.py"],
  mech=[("writing", "welleng/exchange/wbp.py export, add_header, add_turn_point"), ("reading", "welleng/exchange/wbp.py WellPlan._process_wbp_data")],
  obs=["attributes of the loaded plans"],
  technique="seeded histories of saves and loads with disk faults and crashes, round trip compared with the saved plan",
  note=SIMNOTE),
 dict(id="P15", title="Exporting a survey listing leaves the whole file or says it failed",
  statement="When exporting a survey to csv returns, the file holds the whole listing, also if the process "
  "dies right afterwards; when it fails or crashes, the file holds its old content or a prefix of the new, "
  "and a retry completes it. The survey is left as it was, and a listing depends on its survey and options only.",
  over=["fault_sequences", "crash_points", "histories", "schedules"],
  text="all sequences of exports, all points of failure, torn write or crash in them",
  why="no test exports a survey to a file",
  files=["welleng/exchange/csv.py", "welleng/survey.py"],
  mech=[("csv export", "welleng/exchange/csv.py export_csv")],
  obs=["bytes on disk", "returned table", "survey attributes"],
  technique="scripted disk faults and process crashes below the real file layers, durability checks against the fault-free listing",
  note=HISTNOTE),
 dict(id="P16", title="An EDM export opens whole or not at all",
  statement="Opening an EDM export gives every row of the file, or fails with an error: read faults and "
  "short reads never give a database that lacks rows, a file cut short is refused, and a failed opening "
  "does not affect a later one or a database already open.",
  over=["inputs", "fault_sequences", "histories"],
  text="all exports, including ones cut short at any byte, all read faults",
  why="no test opens an EDM file",
  files=["welleng/exchange/edm.py"],
  mech=[("opening", "welleng/exchange/edm.py EDM.__init__")],
  obs=["query results on the opened database", "exceptions"],
  technique="read faults, torn input files and interrupts while opening, refinement against the rows each file was written from",
  note=SIMNOTE + "Oracle: the generator's own rows."),
 dict(id="P17", title="EDM queries answer from the database alone",
  statement="Wells, sites, wellbores, parents, attributes, cases, hole sections and pressure profiles "
  "queried from an EDM database are those of its rows, in file order, without duplicates, whatever was "
  "queried before, whatever failed or was interrupted, and whatever other threads or databases are doing. "
  "Queries never change the database.",
  over=["inputs", "histories", "schedules", "fault_sequences"],
  text="all databases and sequences or interleavings of queries on databases and wells taken from them",
  why="no test queries an EDM file",
  files=["welleng/exchange/edm.py"],
  mech=[("queries", "welleng/exchange/edm.py EDM.get_attributes, get_parents, get_wellbore_data"),
        ("wellbores", "welleng/exchange/edm.py Wellbore")],
  obs=["query results"],
  technique="seeded query histories, interrupts and thread schedules, refinement against a small relational reference model and each query alone",
  note=SIMNOTE + "Oracle: reference model over the generated rows; spliced case surveys are compared with the query alone."),
 dict(id="P18", title="Clearance workbooks import whole or not at all",
  statement="Importing a collision data workbook gives every well and value in it, or fails with an error: "
  "read faults never give partial wells, a workbook cut short is refused, and a failed import does not "
  "affect the next one.",
  over=["inputs", "fault_sequences", "histories"],
  text="all workbooks of the layout, all read faults, all truncation points",
  why="tests import nothing; the data of the clearance tests come from a converted file",
  files=["welleng/io.py"],
  mech=[("import", "welleng/io.py import_iscwsa_collision_data")],
  obs=["returned wells and values", "exceptions"],
  technique="read faults, torn input files and interrupts during imports, refinement against the values each workbook was written from",
  note=SIMNOTE + "Oracle: the generator's own values."),
 dict(id="P22", title="Answers do not depend on the process environment",
  statement="For the same inputs every operation gives the same answer, in the same order, whatever the "
  "process's hash seed, locale, time zone, date, home or working directory, random generator state, garbage "
  "collector setting or calling thread. No operation, whether it succeeds, fails or is interrupted, leaves "
  "process-wide settings (random generators, numpy error and print settings, warning filters, environment, "
  "working directory), stray files or open files behind.",
  over=["inputs", "histories", "fault_sequences"],
  text="all operations on all inputs, executed in all pairs of process environments; interrupts at all points",
  why="the tests run in one environment, and each in a process of which nobody looks at the settings afterwards",
  files=["welleng/survey.py", "welleng/exchange/edm.py", "welleng/errors/tool_errors.py", "welleng/connector.py"],
  mech=[("definitions are read with a fixed encoding", "welleng/errors/tool_errors.py ToolError"),
        ("rows are listed in file order", "welleng/exchange/edm.py EDM, Well"),
        ("floating point warnings are silenced locally", "np.errstate blocks in connector, clearance, mesh, fluid")],
  obs=["return values and their order", "process-wide settings, descriptors and files before and after"],
  technique="every run executed in two differently started and differently disturbed interpreters, with "
  "interrupts and allocation failures injected, answers and process-wide state compared",
  note=SIMNOTE + "Numbers are compared to 1e-9 relative; locales are C and UTF-8 ones."),
 dict(id="P23", title="Example workbooks and diagnostic listings read whole or not at all",
  statement="Reading an ISCWSA example workbook gives every station, covariance and term value in it, and "
  "reading a diagnostics listing gives every station and sigma in it, or either fails with an error: read "
  "faults, short reads and files cut short never give an example that lacks rows or has other values, and "
  "validation never compares against such a part. Reading one file never affects another's content.",
  over=["inputs", "fault_sequences", "histories"],
  text="all workbooks and listings of the layout, all read faults and truncation points, all orders of reading",
  why="tests read one or two vendored files, without faults",
  files=["welleng/errors/iscwsa_ingest.py", "welleng/errors/copsegrove.py", "welleng/errors/copsegrove_validate.py"],
  mech=[("workbook reading", "welleng/errors/iscwsa_ingest.py load_iscwsa_example"),
        ("listing parser", "welleng/errors/copsegrove.py parse_copsegrove")],
  obs=["returned stations, terms and reports", "exceptions"],
  technique="read faults, short reads, torn input files and interrupts while files are read, refinement against "
  "the same call alone in a pristine process on the intact file",
  note=HISTNOTE),
 dict(id="P24", title="Converting tool model workbooks keeps every model and term",
  statement="Converting a tool model workbook writes one complete definition file per model, holding exactly "
  "the terms, values, units and metadata stated in the workbook, or fails with an error. Read and write "
  "faults never give a definition that lacks terms while conversion reports success; a retry completes it. "
  "What was converted before does not change the outcome.",
  over=["inputs", "fault_sequences", "histories"],
  text="all workbooks of the layout, all read and write faults, all orders of conversions and retries",
  why="no test runs the converter; its output files are vendored",
  files=["welleng/errors/tools/owsg_to_json.py"],
  mech=[("sheet conversion", "welleng/errors/tools/owsg_to_json.py convert_sheet, convert_workbook")],
  obs=["definition files written", "returned lists of written and skipped models", "exceptions"],
  technique="storage faults (errors, short writes, full disk, torn input) and interrupts during conversions, "
  "refinement against the same conversion alone and against what a retry writes",
  note=HISTNOTE),
]

_NA = ("a deterministic function of its arguments with no schedule, clock, I/O, randomness, fault or "
       "second party for it to depend on: a simulator has nothing to vary; deciding it needs numeric "
       "property-based testing or proof")

NOT_APPLICABLE = [
 dict(id="N01", title="Station positions follow the minimum curvature method",
  statement="The position, tangent vector, dogleg severity, build and turn rate of every station equal "
  "those of circular arcs joining the station tangents.",
  over=["inputs"], text="all depth/inclination/azimuth lists", why="tests compare a few published wells",
  files=["welleng/utils.py", "welleng/survey.py"], mech=[("minimum curvature", "welleng/utils.py MinCurve")],
  reason="minimum curvature is " + _NA),
 dict(id="N02", title="Interpolated stations lie on the surveyed path",
  statement="A station interpolated at any measured depth or true vertical depth lies on the arc between "
  "its neighbours and inserting it changes no other position.",
  over=["inputs"], text="all surveys and depths", why="tests interpolate at a handful of depths",
  files=["welleng/survey.py"], mech=[("interpolation", "welleng/survey.py interpolate_md, interpolate_tvd")],
  reason="the geometry of interpolation is " + _NA + " (its history independence is P03)"),
 dict(id="N03", title="Covariances are symmetric, positive semi-definite and conform to ISCWSA",
  statement="Every covariance produced by an error model is symmetric positive semi-definite and equals "
  "the published ISCWSA/OWSG definition of the model.",
  over=["inputs"], text="all wells and models", why="tests compare published diagnostic wells only",
  files=["welleng/error.py", "welleng/errors/tool_errors.py"], mech=[("error propagation", "welleng/error.py ErrorModel")],
  reason="conformance of the formulas is " + _NA + " (isolation, loading and failure behaviour are P07-P09)"),
 dict(id="N04", title="Separation factor never overstates the clearance",
  statement="The reported separation factor is the minimum over the offset path of the standard's formula.",
  over=["inputs"], text="all pairs of wells", why="tests use the published standard set of wells",
  files=["welleng/clearance.py"], mech=[("closest approach", "welleng/clearance.py IscwsaClearance")],
  reason="the formula and its optimisation are " + _NA + " (isolation is P10)"),
 dict(id="N05", title="A connector ends at its target within its dogleg limits",
  statement="A connector's path starts at the start state, reaches the target state and stays within the "
  "design dogleg severity or reports otherwise.",
  over=["inputs"], text="all start and target states", why="tests use a few fixed and random targets",
  files=["welleng/connector.py"], mech=[("section solver", "welleng/connector.py Connector")],
  reason="the geometric solver is " + _NA),
 dict(id="N06", title="Unit, angle and reference conversions invert each other",
  statement="Converting angles, vectors, azimuth references and units forth and back returns the input.",
  over=["inputs"], text="all values", why="tests use samples",
  files=["welleng/utils.py", "welleng/survey.py"], mech=[("conversions", "welleng/utils.py")],
  reason="conversion is " + _NA),
 dict(id="N07", title="Torque and drag satisfy the force balance",
  statement="Tension, torque and side forces along the string satisfy the soft-string equilibrium.",
  over=["inputs"], text="all wells, strings and loads", why="one published case is tested",
  files=["welleng/torque_drag.py"], mech=[("force balance", "welleng/torque_drag.py TorqueDrag")],
  reason="the force balance is " + _NA),
 dict(id="N08", title="Fluid density model reproduces its published correlation",
  statement="The density profile of a fluid equals the published compositional correlation.",
  over=["inputs"], text="all fluids, depths and temperatures", why="one case is tested",
  files=["welleng/fluid.py"], mech=[("density", "welleng/fluid.py Fluid")],
  reason="the correlation is " + _NA),
]

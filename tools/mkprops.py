import json
P=[]
def p(id,title,st,over,text,why,files,mech,obs,state=None):
    d={"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
       "anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":obs,"hook_needed":None}}
    if state: d["anchors"]["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    assert len(title)<=80,(id,len(title))
    P.append(d)
T="src/trace.rs"; C="src/controller.rs"
p("C01","Coverage along every relation is exact, in both directions",
 "For every project whose requirement ids are unique and every acyclic tracing graph, the exported trace lists requirement U as covered by requirement L along a relation exactly if U is in the relation's upper artefact, L is in one of its lower artefacts, and either L claims to cover U or U claims to depend on L, ids being compared exactly. Every reference that makes such a claim is listed, with the direction it was claimed in and the source location of that very reference. Nothing else is listed.",
 ["inputs","configurations"],"all sets of artefacts of every supported input format, all reference structures between them, all acyclic relation graphs (diamonds, several lower artefacts, several relations per artefact)",
 "The seven data tests contain at most a handful of requirements and one or two relations each; id near-misses, diamonds, repeated and mixed-direction references, and large projects are never traced.",
 [T,C,"src/models.rs"],[("per relation traversal of depends and covers references",T+": Tracer::trace_relation"),("index of covering requirements by target id",T+": Tracer::add_artefact")],
 ["Trace job, Json format: trace.traced_relations[].covered"])
p("C02","Uncovered requirements are reported exactly, per relation",
 "For every project with unique requirement ids, a requirement of a relation's upper artefact is reported as uncovered along that relation exactly if none of that relation's lower artefacts contains a requirement that covers it, by a claim in either direction. Being covered along another relation, or by a requirement outside the relation's lower artefacts, does not count.",
 ["inputs","configurations"],"all projects and relation graphs; requirements without any coverage, covered along a sibling relation only, or mentioned only by unrelated artefacts",
 "A requirement that wrongly counts as covered is the one mistake the tool exists to prevent; the tests check it for a few fixed requirements with one lower artefact.",
 [T],[("covered flag per upper requirement and relation",T+": Tracer::trace_relation")],
 ["Trace job, Json format: trace.traced_relations[].uncovered"])
p("C03","Derived requirements are reported exactly",
 "For every project with unique requirement ids, a requirement is reported as derived exactly if its artefact is not exempt and it covers no requirement along any relation, by its own claim or by the upper requirement's. An artefact is exempt if its configuration says so; if the configuration says nothing, exactly those artefacts are exempt that are not a lower artefact of any relation.",
 ["inputs","configurations"],"all projects, relation graphs and combinations of explicit, negated and missing exemption settings",
 "Tests use two artefacts where the upper one is the only root; leaves reached over several relations and explicit overrides of the default are not covered.",
 [T,C],[("derived set per artefact, reduced by every coverage",T+": Tracer::add_artefact, trace_relation"),("default exemption of root artefacts",C+": Controller::new")],
 ["Trace job, Json format: trace.derived, trace.artefacts[].ignore_derived_requirements"])
p("C04","References that lead nowhere are always reported, good ones never",
 "For every project with unique requirement ids, each claim to cover or to depend on an id that no relation establishes is reported as an error that names the claiming requirement, the id and the location of such a reference; that includes ids that do not exist, that differ in case or by a character, or that exist only in an artefact not directly above (for covering) or below (for depending). A claim that at least one relation establishes is never reported.",
 ["inputs","configurations"],"all placements of reference targets: missing, near-miss, in the own artefact, in the wrong direction, two levels away, reachable through only one of several relations",
 "One data test has one unknown target; whether a claim is settled depends on all relations together, which no fixed example explores.",
 [T],[("open links removed when a relation establishes them, rest reported",T+": add_artefact, trace_relation, validate_upwards, validate_downwards")],
 ["Trace job, Json format: trace.errors"],
 [("invalid_covers_links / invalid_depends_links","claims not yet established",T)])
p("C05","Titles used in references are verified exactly",
 "For every project with unique requirement ids, a reference that is established along a relation and gives a title is reported as an error, with the given title and the reference's location, exactly if the title differs in any character from that of the referenced requirement. A reference without title is reported exactly if the artefact of the referenced requirement demands titles, and a requirement without title is reported exactly if its own artefact demands them. A wrong or missing title never stops the reference from counting as coverage.",
 ["inputs","configurations"],"all titles (case, inner white space, prefixes, unicode, quotes), both directions, all input formats, all settings of the artefacts' title demand",
 "The reference_without_title data test has one reference per case; title near-misses and the direction-dependent choice of whose artefact demands titles are not sampled.",
 [T,C],[("comparison of reference title and requirement title",T+": Tracer::trace_relation"),("requirements without title",C+": Controller::new")],
 ["Trace job, Json format: trace.errors, trace.artefacts[].errors, trace.traced_relations[].covered"])
p("C06","Duplicate requirement ids are always reported and contained",
 "Whenever an id is defined more than once, in the same artefact or in different ones, every further definition is reported as an error that names the id and carries both definitions with their locations, and an id that is defined only once is never reported as duplicate. Within an artefact the first definition in file order is the one that is kept. Coverage, uncovered and derived results and dangling references of requirements with other ids are the same as without the further definition.",
 ["inputs","configurations"],"all projects with any number of repeated definitions in one artefact and across artefacts of all formats, including pairs of ids that differ only in case, by a suffix or by a character",
 "Two data tests contain one duplicate each; multiplicities, mixtures of both kinds and ids that are merely similar are not sampled.",
 [C,T],[("collection of an artefact's requirements",C+": parse_from_config"),("index of all requirements by id",T+": Tracer::add_artefact")],
 ["Trace job, Json format: trace.artefacts[].errors, trace.errors, trace.artefacts[].requirements"])
p("C07","A wrong configuration never goes unnoticed",
 "A run ends with exit status 2, a message on stderr and no report written if the configuration file is missing, malformed or of a newer version, a relation names an artefact that is not defined, an artefact id is defined twice, a requested job or default job does not exist, or no job is requested and none is the default; a job whose format is not available for its query also ends with status 2. An artefact with no path, or with several paths where its format takes one file, is reported as an input error. A relation along which nothing is covered is reported as an error in the trace, and any other relation never is.",
 ["configurations"],"all configurations: every kind of mistake at every position, combined with otherwise valid projects",
 "Tests only load valid configurations (one asserts the status of an unknown artefact-free setup); mistakes in one of many entries are not sampled.",
 [C,"src/main.rs","src/formatters/mod.rs",T],[("validation of relations and artefacts",C+": Controller::new, run_jobs"),("job lookup before any job runs",C+": run_jobs_by_name"),("config version",  "src/main.rs: get_config"),("unused relation",T+": trace_relation")],
 ["exit status, stderr and files after a CLI run","Trace job, Json format: trace.errors"])
p("C08","The exit status tells exactly whether problems were found",
 "For every project and every selection of jobs, the exit status is 1 exactly if at least one executed job that is allowed to set the status found a problem, and 0 if none did. A parsing job finds a problem if any input error occurred; a tracing job also if there is any tracing error, any uncovered or any derived requirement. Jobs are allowed to set the status unless configured otherwise, whatever their format, destination and order.",
 ["inputs","configurations"],"all projects with exactly one or many kinds of problems, or none; all lists of one to several jobs with and without permission to set the status",
 "One test checks the return code for three jobs on one project; each single cause in isolation, job order and mixtures of permissions are not sampled.",
 [C,"src/main.rs"],[("per job success",C+": Controller::run"),("combination over jobs",C+": Controller::run_jobs"),("exit code","src/main.rs: main_rc")],
 ["exit status of CLI runs"])
p("C09","No input crashes or hangs the tool",
 "For every content of the input files and of the configuration file (any bytes, of any supported format, with nesting of moderate depth), a run terminates with exit status 0, 1 or 2 and never with a panic, an abort or a hang. If the configuration was accepted, every requested report was written completely.",
 ["inputs"],"all byte strings as Markdown, single-requirement, Rust, Json and configuration files: random bytes, invalid UTF-8, truncated and spliced valid files, extreme line lengths and counts",
 "The tests contain only well-formed text files and one unreadable path.",
 ["src/parsers/markdown.rs","src/parsers/rust.rs","src/parsers/monoreq.rs",C,"src/main.rs"],[("lossy decoding, error collection","src/parsers/*.rs"),("state machine over lines","src/parsers/markdown.rs: parse_states")],
 ["wait status, stderr and report files of CLI runs under a CPU limit"])
p("C10","Every Markdown requirement heading becomes exactly one requirement",
 "For every Markdown file, each heading line of any level of the form ID, colon, title is imported as one requirement with exactly that id, the title without surrounding white space and its line number, unless a format error inside that requirement is reported; every other line starts none. This holds whatever surrounds the heading: start or end of file, other headings of any level, blank or missing blank lines, attributes, or errors in other requirements.",
 ["inputs"],"all Markdown files: heading levels, id alphabets, titles, neighbours, line endings, files of any length",
 "Unit tests parse a few fixed snippets and check the regular expression for a few headings.",
 ["src/parsers/markdown.rs"],[("requirement heading recognition","src/parsers/markdown.rs: REQUIREMENT_LINE, parse"),("commit of the requirement under construction","src/parsers/markdown.rs: add_req, end_req, maybe_commit_req, parse_state_eof")],
 ["Parse job, Json format: requirements[].id, title, location"])
p("C11","The content of Markdown requirements is imported completely and in place",
 "For every well-formed Markdown requirement, its Covers and Depends lists are imported with all ids, optional titles, order and line numbers, from comma separated as well as bulleted lists; the description is the text from the heading to the first attribute, deeper headings included with the requirement's heading marks removed, and every other attribute keeps its full text over all its paragraphs. An attribute or list that is given twice, text where an attribute is expected and a line in a list that is not a reference are reported as errors with their line number. Nothing of one requirement leaks into another.",
 ["inputs"],"all Markdown files built from descriptions, attributes, lists and headings in any order and number, well-formed and with errors",
 "Tests parse one or two documents; combinations of neighbouring elements decide the behaviour of the line based state machine.",
 ["src/parsers/markdown.rs"],[("line state machine","src/parsers/markdown.rs: parse_state_line, parse_state_empty, parse_state_heading"),("attributes and lists","src/parsers/markdown.rs: start_attribute, parse_link_attr, commit_attr, commit_link_attr")],
 ["Parse job, Json format: requirements[].covers, depends, attributes; errors"])
p("C12","Every coverage mark in Rust code is imported under its enclosing item",
 "For every Rust file that parses, each coverage mark used as a statement, expression or item inside functions, methods, trait methods, modules, implementations, closures and control flow is imported as a covers reference with its id, its title if given (the value of the string literal) and its line and column, under a requirement whose id is the path of enclosing modules, traits, implementations and functions and whose location is the innermost of these. Marks in the same item are collected in source order in one requirement; text that only looks like a mark (comments, strings, other macros) is none. A mark with missing or unsuitable arguments, a mark outside any such item, and a file that does not parse are reported as errors with their location, without affecting other marks and files.",
 ["inputs"],"all Rust source files: nesting of items, blocks and expressions, argument forms, literals, positions, several files and path patterns",
 "Two unit tests parse a single mark in a single function.",
 ["src/parsers/rust.rs",C],[("syntax tree visitor with scope stack","src/parsers/rust.rs: impl Visit for Parser"),("mark arguments","src/parsers/rust.rs: Parser::parse_macro"),("file patterns",C+": glob_paths, parse_multiple_files")],
 ["Parse job, Json format: requirements, errors"])
p("C13","A single-requirement file yields exactly one requirement with all its references",
 "For every readable file imported as a single requirement, exactly one requirement results, whose id is the file name without its last extension and whose title is the first line that contains word characters, with the non-word characters trimmed off both ends (none if there is no such line). Every later line that ends in a fat arrow followed by an id, optionally with colon and title, gives one depends reference with that id, title (without surrounding white space) and line number, in order, and no other line gives one.",
 ["inputs"],"all file names and text files: decorations around the title, blank lines, arrows in prose, line endings, encodings",
 "One unit test parses one small text, two more match one line each.",
 ["src/parsers/monoreq.rs",C],[("line scan","src/parsers/monoreq.rs: parse"),("reference at line end","src/parsers/monoreq.rs: REF_LINK_LINE")],
 ["Parse job, Json format: requirements"])
p("C14","Json export and import are lossless",
 "For every list of requirements in a Json artefact, plain or wrapped in an object with version 0, the Json report of a parsing job contains every requirement with all its fields unchanged (ids, titles, locations of every kind, references in order, tags, attributes, any unicode text and control characters), sorted by id, and importing that report again gives the same report. An entry with missing or ill-typed fields, an unknown version or text that is not Json is reported as an error of that file, never taken partially.",
 ["inputs"],"all requirement values representable in Json, alone and mixed with requirements exported from other formats",
 "The parse_all_artefacts test loads two files of a few requirements; nothing is ever read back.",
 [C,"src/models.rs","src/formatters/serialize.rs"],[("Json artefact import",C+": parse_json"),("serialization of models","src/models.rs: derives"),("export","src/formatters/serialize.rs: Requirements")],
 ["Parse job, Json format, and a second run importing it"])
p("C15","Errors in one input never cost the results of another",
 "Whatever is wrong with some input files (missing, unreadable, not decodable, malformed as a whole or in places), all other files and artefacts are imported and traced exactly as if those were fine, all requested jobs still run, and each problem is reported with the file it is in, all of them in the same run. Within a Markdown file, requirements before and after a malformed one are imported unchanged.",
 ["inputs","fault_sequences"],"all combinations of broken and intact inputs, any position of the broken ones, any parser",
 "One data test has one missing file and another one document with a few errors.",
 [C,"src/parsers/markdown.rs","src/parsers/rust.rs"],[("errors collected per artefact",C+": parse_from_config, parse_single_file, parse_multiple_files"),("resynchronisation at the next requirement","src/parsers/markdown.rs: parse_states")],
 ["Trace and Parse jobs, Json format: errors and requirements of the intact inputs"])
p("C16","The Markdown trace report tells the same as the machine readable trace",
 "For every project with unique ids, the Markdown report of a tracing job lists every requirement of every artefact once, with its artefact, location, title and attributes, and under it, per relation, exactly the requirements it covers and the ones it is covered by, each with the reference's location, as in the Json trace; it marks exactly the uncovered relations of a requirement as such, and marks as derived exactly the requirements that cover nothing. Its sections for input errors, tracing errors, uncovered and derived requirements contain exactly those of the Json trace. Every link to a requirement leads to the heading of that requirement (ASCII ids and titles, unless another heading has the same anchor).",
 ["inputs","configurations"],"all projects and relation graphs",
 "The data tests compare the report byte by byte for seven tiny projects.",
 ["src/aggregator.rs","src/formatters/markdown.rs"],[("cross reference of both directions","src/aggregator.rs: AggregatedGraph::new"),("report","src/formatters/markdown.rs: tracing, traced_requirement, err, requirement_link")],
 ["Trace job, Markdown format, against Trace job, Json format, of the same run"])
p("C17","The compiler-style report contains every problem with its location",
 "For every project, the error report of a tracing job contains, for each input error, tracing error, uncovered requirement (per relation) and derived requirement of the Json trace, a line that starts with the location of the problem in the form file:line or file:line:column as far as known, and names the requirement and what is wrong; for duplicates and wrong titles also a line with the location of the other definition. It contains no such line for anything else.",
 ["inputs","configurations"],"all projects with any number and mixture of problems of all kinds",
 "No test looks at this format at all.",
 ["src/formatters/gnuerr.rs","src/models.rs"],[("report","src/formatters/gnuerr.rs: errors, tracing"),("location text","src/models.rs: Display for Location")],
 ["Trace job, GnuError format, against Trace job, Json format, of the same run"])
p("C18","The tags export lists every located requirement, sorted",
 "For every project, the tags report of a parsing job contains exactly one entry for each requirement of each artefact whose line is known, with its id, file and line, and none for others. The whole file, header included, is sorted by bytes, so that binary search by editors works (ids that begin with a letter).",
 ["inputs"],"all projects: ids with common prefixes, case and unicode differences, all formats and location kinds",
 "One test compares the tags of one tiny project.",
 ["src/formatters/tags.rs"],[("tag lines sorted","src/formatters/tags.rs: requirements")],
 ["Parse job, Tags format"])
p("C19","Results depend only on the inputs",
 "Running the same jobs on unchanged inputs gives byte-identical reports and the same exit status every time, whether jobs run alone or together, in any order, named or as default jobs, repeatedly in one run, from any working directory with the same absolute base, and at any log level. The order in which artefacts, relations and jobs are written in the configuration changes nothing but the order in which relations are listed.",
 ["histories","configurations"],"all projects, all job lists and permutations of the configuration, repeated processes",
 "Each test runs its jobs once in one order in one process.",
 [C,"src/formatters/serialize.rs","src/formatters/markdown.rs",T],[("ordered collections",C+", "+T+": BTreeMap, sorting in formatters"),("jobs share one immutable graph",C+": Controller::run")],
 ["report files and exit status over repeated and permuted CLI runs"])
p("C20","A report that could not be written or an input not read is never a success",
 "If any operation needed to create, write or finish a report (creating directories, opening, writing any part of it, to a file or to standard output) fails, the exit status is 2 and the failure is described on stderr. If reading an input file, or a directory searched for input files, fails at any point, an error that names it is reported and the exit status is not 0. Short or interrupted but successful reads and writes change nothing in any report.",
 ["fault_sequences"],"every input and output operation of a run, with every error code, each failing alone, for files and standard output",
 "Tests never make an operation fail except opening a missing file.",
 [C,"src/main.rs","src/parsers/markdown.rs","src/parsers/rust.rs","src/parsers/monoreq.rs"],[("error propagation of writes and flush",C+": Controller::run"),("read errors collected",C+": parse_single_file, parse_multiple_files; src/parsers")],
 ["exit status, stderr and reports of CLI runs under an interposed C library"])
p("C21","Jobs write exactly their report to exactly their file",
 "After a run, every executed job's file contains exactly that job's report, nothing of its previous content however long it was; missing directories have been created, and relative names are resolved against the base directory, not the working directory. No other file is created, changed or removed, inputs least of all. A job whose file is a single dash writes its report, and nothing else, to standard output, in the order of the jobs.",
 ["histories","configurations"],"all job lists and destinations: existing longer or shorter files, nested missing directories, absolute and relative names, several jobs on standard output, any log level",
 "Tests check the content of one output file after one run in one directory.",
 [C],[("output opened with truncation",C+": Controller::run"),("base directory",C+": Controller::run, parse_single_file, glob_paths")],
 ["snapshot of all files and standard output before and after CLI runs"])
p("C22","Every consumed input file is reported, and only those",
 "For every project, the Json trace lists for each artefact exactly the input files that were opened for it, each once, including files that contain no requirements or could not be read, so that a build system knows all dependencies. A path pattern selects exactly the existing files that match it below the base directory, whatever characters the base directory's name contains.",
 ["inputs","configurations"],"all path patterns (literal names, wildcards, recursive, overlapping), directory trees and base directory names",
 "No test looks at the list of files with patterns; only single-file artefacts appear in expected outputs.",
 [C],[("pattern expansion",C+": glob_paths"),("files of an artefact",C+": parse_single_file, parse_multiple_files")],
 ["open calls recorded by an interposed C library against Trace job, Json format: trace.artefacts[].files"])
p("C23","Line endings, encoding damage and missing final newlines change nothing else",
 "Replacing all line feeds of a Markdown, single-requirement or Rust file by carriage return and line feed, adding or removing a final line end, and putting white space into blank lines leave all ids, titles, references, locations, attributes (up to the line ends and trailing white space in them), errors and trace results the same. A byte sequence in a Markdown or single-requirement file that is not UTF-8 is replaced where it stands and affects nothing else.",
 ["inputs"],"all well-formed and malformed Markdown, single-requirement and Rust files under these transformations, damage at every position",
 "All test files use line feeds, end in one and are valid UTF-8.",
 ["src/parsers/markdown.rs","src/parsers/monoreq.rs"],[("line reading and trimming","src/parsers/markdown.rs: parse; src/parsers/monoreq.rs: parse")],
 ["Parse and Trace jobs, Json format, on transformed projects"])
p("C24","The Markdown requirement report lists every requirement with its content",
 "For every project, the Markdown report of a parsing job contains every requirement of every artefact once, sorted by id, with its title, location, description, all Covers and Depends references in order with their titles, and all further attributes with text, and every input error under its artefact.",
 ["inputs"],"all projects, all mixtures of input formats, fields present and absent, any number of input errors",
 "No test uses the Markdown format for a parsing job.",
 ["src/formatters/markdown.rs"],[("report","src/formatters/markdown.rs: requirements, requirement, err")],
 ["Parse job, Markdown format, against Parse job, Json format, of the same run"])
p("C25","A message about what stopped a run names the cause",
 "Whenever a run ends with status 2, standard error names the cause. The path of the configuration file, as it was given, is named if that file is missing, cannot be read, is not UTF-8, is not valid TOML, has a value that is not acceptable or is of a newer version; a syntax error also with its line (file:line:), an unacceptable value or missing key and the version also with these. Every artefact id that is defined twice and every undefined artefact that a relation names is named, all of them in one run and as often as the mistake was made, and no other. A job that does not exist is named; for a format that is not available for a query, both are; and for a report that cannot be written its file, or the directory or file in the way.",
 ["configurations"],"all configurations with one or several mistakes, at every position, and all destinations that cannot be written",
 "The tests contain no wrong configuration and never look at a message.",
 ["src/main.rs","src/controller.rs","src/models.rs"],[("position of a syntax error","src/main.rs: get_config"),("collected configuration errors","src/controller.rs: Controller::new, run_jobs"),("path in write errors","src/controller.rs: Controller::run")],
 ["standard error and exit status of CLI runs"])
p("C26","Tracing exported artefacts gives the same result",
 "For every project, any of its artefacts can be replaced by the Json report of a parsing job over that artefact alone (also in several steps), and the requirements of every artefact, the coverage of every relation, uncovered and derived requirements and tracing errors are the same, order and locations included. If there are no input errors, exit status and all reports but the lists of input files are identical byte for byte.",
 ["inputs","histories"],"all projects, all subsets of artefacts replaced, one or more steps of export and import",
 "No test imports what the tool exported.",
 ["src/controller.rs","src/formatters/serialize.rs","src/models.rs","src/trace.rs"],[("export","src/formatters/serialize.rs: requirements"),("import","src/controller.rs: parse_json"),("tracing by id, not by format","src/trace.rs")],
 ["all reports of two CLI runs on the project and on its exported form"])
p("C27","Effort grows in proportion to the size of a project",
 "Eight times as many of anything a project can have thousands of (requirements, covered, uncovered or derived, references of one requirement or to one, lines, paragraphs, attributes, headings, characters in a line, coverage marks, functions, source files, path patterns, artefacts, relations, jobs, and problems of every kind) take all jobs together less than twenty times the CPU time, as long as the reports, too, grow in proportion.",
 ["inputs"],"all quantities of a project, all reports, with hundreds to a million of each",
 "The tests use projects of a few lines.",
 ["src/parsers/markdown.rs","src/parsers/rust.rs","src/parsers/monoreq.rs","src/controller.rs","src/trace.rs","src/aggregator.rs","src/formatters/markdown.rs"],[("look-up by id","src/trace.rs: maps of requirements by id"),("collected items","src/parsers/rust.rs: parse_macro"),("cross references","src/aggregator.rs")],
 ["CPU time (user and system) of CLI runs as told by the kernel"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x,s)
print(len(P))

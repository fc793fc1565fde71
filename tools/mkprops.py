#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the statements are easy to review)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, **kw):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    a.update(kw)
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

prop("C01", "A written command reads back to the same data",
 "For every kickstart version and every command it supports, if a command line is accepted, then the text rendered from the resulting data is accepted by the same version and reading it back gives data equal in every field. This covers every combination of options whose values are plain words (or, where the writer quotes the value, text with blanks), apart from settings the syntax itself makes meaningless in that combination and the listed findings.",
 ["inputs", "configurations"], "every version, every command, every accepted combination of options and plain values",
 "Each command has up to 40 options in 38 versions; tests render a few hand-picked combinations and cannot sample the 2^n option subsets times unbounded values.",
 ["pykickstart/commands/", "pykickstart/base.py", "pykickstart/options.py"],
 [("command and data __str__/_getArgsAsStr writers", "pykickstart/commands/*.py"), ("command parse methods and option tables", "pykickstart/commands/*.py")])

prop("C02", "Every option given on a command line sets its own field and no other",
 "For every version and command, after an accepted line each field tied to an option that was given holds that option's value (converted to the option's type), and each field whose options were not given keeps the value it had before (its documented default on a fresh object). Which options a version accepts, which field each sets, and the defaults are those of that version's syntax.",
 ["inputs", "configurations"], "every version, command, option and option value, in every combination accepted",
 "Tests compare a handful of rendered strings; they do not quantify over option values or check that untouched fields stay untouched.",
 ["pykickstart/commands/", "pykickstart/base.py", "pykickstart/options.py"],
 [("KickstartCommand.set_to_self/set_to_obj", "pykickstart/base.py"), ("_getParser option tables and parse methods", "pykickstart/commands/*.py")])

prop("C03", "A bad command line is always a kickstart error naming its line",
 "Whatever words follow a command name, processing that command either succeeds or raises a kickstart parse error that carries the line number of that line; no other exception type escapes, for any version and any command.",
 ["inputs", "configurations"], "every version, every command, every list of argument words and every line number",
 "Tests feed a few malformed lines per command and mostly assert that some parse error is raised, not its line number, nor that no other input crashes.",
 ["pykickstart/commands/", "pykickstart/options.py", "pykickstart/errors.py"],
 [("command parse methods and option type callbacks", "pykickstart/commands/*.py"), ("KSOptionParser.error", "pykickstart/options.py"), ("KickstartError line formatting", "pykickstart/errors.py")])

prop("C04", "Command lines are rejected exactly when the version's rules say so",
 "For every version and command, an argument list that the option grammar accepts is rejected exactly when it violates one of that command's stated rules (missing or conflicting options, values out of range or outside the allowed set, wrong number of arguments, conflicts with other commands already seen such as automatic partitioning against explicit partitions); otherwise it is accepted.",
 ["inputs", "configurations", "histories"], "every version, command, option combination, and combination of conflicting commands seen earlier",
 "The rules are predicates over many options and over which other commands were seen; tests probe single points on either side of some of them.",
 ["pykickstart/commands/", "pykickstart/options.py"],
 [("validation in parse methods", "pykickstart/commands/*.py"), ("option choices, types and required flags", "pykickstart/commands/*.py")])

prop("C05", "Deprecated commands only warn, removed commands always fail",
 "In every version, using a command that version marks deprecated issues exactly one deprecation warning that names the command and its line, changes no stored data and adds nothing to the output; using a command it marks removed always fails with a parse error carrying the line number. Which commands are deprecated or removed never reverts to active silently: the per-version status is fixed.",
 ["inputs", "configurations"], "every version, every deprecated or removed command, all arguments and line numbers",
 "Tests instantiate a few deprecated commands with a fixed argument; the guarantee is about all arguments, versions and line numbers.",
 ["pykickstart/base.py", "pykickstart/handlers/control.py", "pykickstart/commands/"],
 [("DeprecatedCommand, RemovedCommand", "pykickstart/base.py"), ("commandMap", "pykickstart/handlers/control.py")])

prop("C06", "Every command line is dispatched once, in order, with its line number",
 "Reading a kickstart text hands each non-blank, non-comment line outside sections to the command handler exactly once, in file order, split into words the way a shell would with comments dropped, and with that line's own number in its file; blank and comment lines are skipped but counted, a platform comment sets the platform, a section header opens its section with its own line number, and an include directive reads the named file at that point. (A line whose quotes are not closed is outside this: splitting it fails with the splitter's own ValueError, as the existing tests require.)",
 ["inputs", "histories"], "every sequence of input lines, of any length, and every registered set of sections",
 "Line accounting and dispatch depend on the whole preceding file (sections, includes, put-back lines); tests use a dozen short files.",
 ["pykickstart/parser.py"],
 [("KickstartParser._stateMachine", "pykickstart/parser.py"), ("KickstartParser._readSection", "pykickstart/parser.py"), ("PutBackIterator", "pykickstart/parser.py")])

prop("C07", "Section bodies are delivered verbatim and sections end where they should",
 "Inside a section every line up to its terminator reaches that section unchanged and in order (blank and comment lines only for sections that ask for all lines), lines starting with a percent sign that are not a known directive are body text, and the section is finished exactly once. From Fedora 8 on a section must be closed by its end marker and a new section header or the end of the file inside it is a parse error with a line number; in older versions those close the section and the header line is then processed as the next section. (A file included inside a section hands its lines to it, leading blank lines left out; a section opened in an included file has to end there.)",
 ["inputs", "histories", "configurations"], "every section body, every version, every registered section",
 "Bodies are arbitrary text and the termination rule depends on version and on nesting of includes; tests use a few fixed bodies.",
 ["pykickstart/parser.py", "pykickstart/sections.py"],
 [("KickstartParser._readSection/_finalize", "pykickstart/parser.py"), ("Section subclasses handleHeader/handleLine/finalize", "pykickstart/sections.py")])

prop("C08", "Errors are fatal or tolerated exactly as the parser was configured",
 "With fatal errors enabled the first failing command or section header stops reading with that same exception; with fatal errors disabled every such failure is counted and reported, and reading continues with the next line as if the failing line were absent (the body behind a failing section header still goes to that section). A missing include is fatal exactly when configured so, includes are skipped when they are not followed, an unknown section is an error or a warned-about pass-through section exactly as configured, and the error count equals the number of failures.",
 ["inputs", "histories", "configurations", "fault_sequences"], "every configuration of the four switches and every sequence of failing and succeeding lines",
 "It quantifies over which lines fail, with which exception, under each of 16 configurations.",
 ["pykickstart/parser.py"],
 [("KickstartParser._tryFunc", "pykickstart/parser.py"), ("KickstartParser._handleInclude/readKickstart", "pykickstart/parser.py"), ("KickstartParser._stateMachine", "pykickstart/parser.py")])

prop("C09", "Package selection keeps the last word on every package and group",
 "After any sequence of lines in the packages section, a package is in the selected list exactly when its last mention selected it and in the excluded list exactly when its last mention excluded it, so no package is in both and neither list has duplicates; a group is selected exactly when it was named and not excluded by its last mention, keeping the options of the mention that selected it, every group exclusion that no later mention takes back is recorded, and the environment is the last one named and not since excluded.",
 ["inputs", "histories"], "every sequence of package lines of any length and content",
 "The lists are a function of the whole history of mentions; tests use fixed short lists.",
 ["pykickstart/parser.py", "pykickstart/sections.py"],
 [("Packages.add/_processGroup", "pykickstart/parser.py"), ("PackageSection.handleLine", "pykickstart/sections.py")])

prop("C10", "Written sections read back: scripts, packages and passed-through sections",
 "For every version, rendering a handler and reading the text back with the same version gives the same scripts (kind, interpreter, chroot, log file, error policy and body), in the same order, the same package selection with its header options (the environment apart, when the default selection replaces it), and the same passed-through sections (for names without line ends that do not start with another line's marks; bodies up to their final line end, and before Fedora 8 up to blank lines at the end); header options a version accepts set the matching attribute and those it lacks are rejected.",
 ["inputs", "configurations"], "every version, script, packages selection and passed-through section",
 "Bodies, names and header option subsets are unbounded and version dependent; tests fix a few.",
 ["pykickstart/parser.py", "pykickstart/sections.py", "pykickstart/base.py"],
 [("Script.__str__, Packages.__str__, Group.__str__", "pykickstart/parser.py"), ("ScriptSection/PackageSection/NullSection", "pykickstart/sections.py"), ("BaseHandler.__str__", "pykickstart/base.py")])

prop("C11", "Version names, numbers and handlers agree",
 "Every supported version name maps to its own number and back in any letter case, and the long Fedora and Red Hat Enterprise Linux product names map to the same numbers; any other name or number raises a version error. The handler built for a version reports that version, the version recorded in a file is the first version line in it or the newest version if there is none, and a rendered file carries the version that wrote it.",
 ["inputs", "configurations"], "every string and number, and every file content",
 "The rejection half ranges over all strings; tests list a few names.",
 ["pykickstart/version.py", "pykickstart/base.py", "pykickstart/handlers/"],
 [("stringToVersion, versionToString, versionFromFile, returnClassForVersion, makeVersion", "pykickstart/version.py"), ("BaseHandler.__str__", "pykickstart/base.py")])

prop("C12", "The handler's command registry stays consistent",
 "After any sequence of registering and resetting commands, every registered name leads to a command object whose owner is that handler, names registered for the same command share one object, that object is the one reachable as the handler's attribute, and each command appears exactly once in the written output, ordered by priority and then by class name. Dispatching a line routes it to the object registered under its first word, records that word, the line and its number on it, and files the returned data object in that command's list once; an unknown first word is a parse error carrying the line number.",
 ["inputs", "histories", "configurations"], "every sequence of register/reset/dispatch operations, every version's command set and every custom mapping",
 "The registry invariant is about all operation sequences and all command sets; tests check single calls.",
 ["pykickstart/base.py", "pykickstart/handlers/control.py"],
 [("KickstartHandler._insertSorted/_setCommand/registerCommand/resetCommand/dispatcher", "pykickstart/base.py"), ("BaseHandler._registerCommands/maskAllExcept", "pykickstart/base.py")])

prop("C13", "Preprocessing splices appended files and changes nothing else",
 "Preprocessing returns the input with each append directive line replaced by the full contents of the file or URL it names and every other line unchanged and in order; a directive without a target is a parse error with its line number, and a file or URL that cannot be loaded is a kickstart error, never another exception and never silently skipped text.",
 ["inputs", "fault_sequences"], "every input text, every number and position of append directives, every load outcome",
 "It is about all texts and all load failures; tests try a few.",
 ["pykickstart/parser.py", "pykickstart/load.py"],
 [("_preprocessStateMachine and preprocess* functions", "pykickstart/parser.py"), ("load_to_str, load_to_file, _load_url, _load_file, _copy_file", "pykickstart/load.py")])

prop("C14", "Handlers are isolated and rendering is free of side effects",
 "Rendering a command, section or handler to text never changes its data, so rendering twice gives the same text; parsing with one handler or creating further handlers and parsers, of any version, never changes the data or the rendered text of another handler, nor the defaults of objects created later. (Script and Packages objects made directly, outside any handler, take the version of the last parser, as the existing tests require.)",
 ["inputs", "histories", "configurations"], "every sequence of operations on any number of handlers and every data content",
 "Aliasing and shared mutable defaults show only for particular sequences across objects.",
 ["pykickstart/base.py", "pykickstart/parser.py", "pykickstart/commands/"],
 [("__str__ writers and __init__ of commands and data", "pykickstart/commands/*.py"), ("KickstartParser.__init__, Packages, Script", "pykickstart/parser.py")])

prop("C15", "The command line tools report the truth and clean up",
 "The validator exits with status zero exactly when the file loads and reads without any error or warning under the chosen version, and leaves no temporary file behind on any outcome; the flattener writes text equivalent to the include-expanded input or fails with a non-zero status and a message; the version comparer lists exactly the commands and options added or removed between two versions and those the newer version deprecates.",
 ["inputs", "fault_sequences", "configurations"], "every input file, option set and failure outcome",
 "All failure points and all counts of errors cannot be sampled.",
 ["tools/ksvalidator.py", "tools/ksflatten.py", "tools/ksverdiff.py"],
 [("main, cleanup", "tools/ksvalidator.py"), ("main", "tools/ksflatten.py"), ("main, getOptSet", "tools/ksverdiff.py")])

prop("C16", "Option value converters accept and convert exactly the documented values",
 "Boolean options accept exactly on/yes/true/1 as true and off/no/false/0 as false in any letter case and reject everything else; comma lists split into their non-empty trimmed items in order; absolute mount points are normalised and everything else is kept; repeated list options accumulate in the order given, and a parse error from the option layer always carries the line number it was given.",
 ["inputs"], "every option value string and every list of repeated options",
 "The converters range over all strings.",
 ["pykickstart/options.py"],
 [("ksboolean, commaSplit, mountpoint, ExtendAction, ExtendConstAction, KSOptionParser.error", "pykickstart/options.py")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")

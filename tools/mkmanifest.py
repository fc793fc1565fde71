"""writes MANIFEST.json"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = ("Contracts on the real functions; the verification conditions are generated on every run from the AST of the functions in "
        "/repo's working tree and discharged by z3 (cvc5 second). ")
ENG = "Trusted: the VC generator pyvc, the solvers, and the contracts assumed on library functions (listed in the evidence). "
NOTES = {
 "C10": "For every version: the section headers against a specification, for all option words and prior states; scripts, package headers, package content, group lines and passed-through sections written symbolically and the written header words given to the real handleHeader again, field by field; the text of a handler as the concatenation of its parts; whole texts are bounded native round trips.",
 "C01": "For every distinct (command, version-class) group: parse(), the dispatcher's list, __str__ and a second parse() are composed symbolically for all plain option words (blanks where the writer quotes), one obligation per field; whole files are bounded native round trips.",
 "C02": "For every distinct (command, version-class) group: parse() of the real class against a per-class specification (ksspec), field by field, for all option words and all prior states.",
 "C03": "For every group: on every path of parse() the only exception that leaves is a KickstartParseError carrying the line number.",
 "C04": "For every group: accepted iff the specification accepts, as two implications over all option words and prior states.",
 "C16": "ksboolean, commaSplit, mountpoint, ExtendAction, ExtendConstAction and KSOptionParser.error/parse_args/parse_known_args/_parse_optional against their contracts for all arguments and namespaces; remove_argument bounded.",
 "C11": "stringToVersion, versionToString, versionToLongString, versionFromFile and returnClassForVersion against specification functions for all strings, numbers and file contents; the header of BaseHandler.__str__ for all contents; the finite name table exhaustively.",
 "C06": "One pass of the reading loop of KickstartParser._stateMachine over an arbitrary line, at an arbitrary state, is proved equal to the specification step (cut-point loop contract), and dispatch of an arbitrary command line; inclusion depth and whole files by induction over those steps, with a native search behind them.",
 "C07": "One pass of KickstartParser._readSection over an arbitrary line is proved equal to the specification step, with handleHeader/handleLine/finalize of the section classes under contract; _handleInclude, readKickstart* and PutBackIterator likewise.",
 "C08": "The same step contracts under every combination of errorsAreFatal, missingIncludeIsFatal, unknownSectionIsFatal and ignored commands.",
 "C13": "One pass of the loop of _preprocessStateMachine over an arbitrary line with an arbitrary text collected so far is proved equal to the specification step; the four preprocess functions and every function of load.py against contracts with every outside operation free to fail.",
 "C12": "_insertSorted (loop invariant, any strictly sorted list), _setCommand (any class name and priority) and the dispatcher are proved; sequences of registerCommand/resetCommand/_registerCommands/maskAllExcept are bounded native runs against a model of the registry, over every version's map and custom maps.",
 "C09": "One line of Packages.add, of every shape (package, excluded package, group, excluded group, environment, excluded environment) with an arbitrary selection before it: the sets after it are proved to be those of the specification for every name; _processGroup proved over an arbitrary group list; PackageSection.handleLine proved to hand the line on; whole sections are bounded native runs.",
 "C14": "Frame conditions on the real functions: for every (command, version-class) group parse() is proved to write to no object outside its own handler (and no class attribute, global or shared default) and __str__ to nothing that was there, after accepted and rejected lines alike; likewise section handlers, Packages.add/_processGroup, Script/Packages/handler writers; the text of a handler's scripts and packages is proved not to depend on the version later parsers leave on the classes. That handlers of all versions share no mutable object is evaluated on real ones; histories of several handlers are bounded native runs.",
 "C15": "The mains of ksvalidator and ksflatten and cleanup() are executed symbolically over every outcome of every outside operation they call (loading, preprocessing, reading, warnings, removing files: recorded, and each free to fail with any exception): status, message, removal of every temporary path, and order of the calls are postconditions. ksverdiff is evaluated exhaustively over all pairs of versions against sets computed from the real command maps and option parsers. End-to-end runs over the real file system are bounded.",
 "C05": "For every deprecated or removed (command, version): dispatch warns once and changes nothing / always raises with the line number.",
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NOTES:
        checks.append({"property": i, "quick_cmd": "python3-vt checks/run.py %s" % i,
                       "thorough_cmd": "env VERIF_TIER=thorough python3-vt checks/run.py %s" % i,
                       "technique": "contract-based deductive verification of the real functions (pyvc VC generator over /repo's AST, z3/cvc5)",
                       "level": "proof", "level_note": BASE + NOTES[i] + " " + ENG +
                       "Obligations outside the engine's reach are covered by a bounded native comparison, labelled bounded in the evidence and never counted as proved."})
    else:
        na.append({"property": i, "reason": "check under construction"})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
           "notes": "see DESIGN.md"}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)

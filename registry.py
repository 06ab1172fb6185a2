# Harness sources and, per property, what is run.
# h: harness, params: both tiers, quick/thorough: bounds per tier, qb/tb: seconds per tier,
# reach: labels some explored path must reach, must: an unreachable label is a violation.
# harness sources run with the scheduler of threads
THREADED = {"h_par"}
SOURCES = {
    "h_exec": ["team", "path", "instrumented"],
    "h_prog": ["execline", "execseq", "execsrc", "introns", "intronsagain", "identical", "copyprog", "copyline"],
    "h_mut": ["initline", "alterline", "initprog", "progstep", "mutateone", "mutateall"],
    "h_graph": ["graphstep", "graphmove"],
    "h_tpgmut": ["inittpg", "populate", "populatetwo", "populateempty", "mutateteam", "mutatedest", "mutateoutgoing", "addremove"],
    "h_archive": ["window", "probability", "unique"],
    "h_eval": ["plainresult", "classresult", "advresult", "mixedresult", "guesses", "f1table"],
    "h_data": ["readdouble", "readint", "readconstant", "readbyte", "address", "writecell", "hashdouble", "hashint", "hashconstant", "hashdiffers"],
    "h_datadbg": ["rejectdouble", "rejectint", "pointerhandler"],
    "h_learn": ["job", "jobend", "allroots", "decimate", "records", "keepbest", "startover", "generation", "classjob", "classdecimate"],
    "h_misc": ["environ", "policystats", "cycles"],
    "h_adv": ["advjobs", "advevaluate", "advagain"],
    "h_par": ["parevaluate", "parplain", "parplainclass", "partrainplain", "parclass", "paradversarial", "partrain", "partrainclass", "partrainadv", "parmutate"],
    "h_json": ["jsonround", "jsonkeys"],
    "h_dot": ["dot"],
    "h_codegen": ["codegen"],
    "h_beh": ["behaviour", "newbehaviours"],
    "h_stats": ["execstats"],
    "h_log": ["logged"],
    "h_rng": ["drawu64", "drawi32", "drawdouble", "seeds"],
}
UF = "instruction bodies are uninterpreted functions of their operands' bit patterns"
CHECKS = {
    "C01": {"harnesses": [
        {"h": "team", "quick": {"maxEdges": 4}, "thorough": {"maxEdges": 6}, "reach": ["first edge wins", "last edge wins"]},
        {"h": "path", "quick": {"rootEdges": 2}, "thorough": {"rootEdges": 3}, "reach": ["long path", "short path"]}],
        "bounds": "teams of up to 4 (thorough 6) edges and graphs of 2 teams, 2 actions; bids are arbitrary 64-bit double patterns",
        "stubs": "programs are one-line copies of a data cell"},
    "C02": {"harnesses": [
        {"h": "instrumented", "quick": {"rootEdges": 2}, "thorough": {"rootEdges": 3}, "qb": 120, "reach": []}],
        "bounds": "graphs of 2 teams, 2 actions, 2 (3) root edges; 2 executions; arbitrary bids"},
    "C03": {"harnesses": [
        {"h": "execline", "reach": ["end"]},
        {"h": "execseq", "quick": {"lines": 1}, "thorough": {"lines": 2}, "reach": ["end"], "tb": 600},
        {"h": "execsrc", "reach": ["end"]}],
        "bounds": "1 (2) lines, every instruction of the set, every operand source and location, arbitrary data bit patterns", "stubs": UF},
    "C04": {"harnesses": [
        {"h": "introns", "quick": {"lines": 2}, "thorough": {"lines": 3}, "reach": ["introns", "no introns"]},
        {"h": "introns", "quick": {"lines": 3, "minLines": 3, "regs": 2}, "thorough": {"lines": 3, "minLines": 3, "regs": 3}, "reach": ["introns", "no introns"], "qb": 90},
        {"h": "intronsagain", "quick": {"lines": 1}, "thorough": {"lines": 2}, "reach": ["end"]}],
        "bounds": "up to 3 lines over 2-3 registers, symbolic instructions, destinations, operands", "stubs": UF},
    "C05": {"harnesses": [{"h": "identical", "quick": {"lines": 1}, "thorough": {"lines": 2}, "reach": ["identical", "different"], "qb": 120}],
        "bounds": "programs of 1-2 lines (one extra intron), 2 constants", "stubs": UF},
    "C06": {"harnesses": [
        {"h": "copyprog", "quick": {"lines": 1}, "thorough": {"lines": 2}, "reach": ["end"]},
        {"h": "copyline", "reach": ["end"]},
        {"h": "hashdouble", "quick": {"steps": 1}, "thorough": {"steps": 2}, "reach": ["end"]}],
        "bounds": "programs of 1 (2) lines and 2 constants", "stubs": UF},
    "C07": {"harnesses": [
        {"h": "initline", "quick": {"all": 0}, "thorough": {"all": 1, "run": 1}, "reach": ["one operand", "two operands"]},
        {"h": "alterline", "quick": {"all": 0}, "thorough": {"all": 1, "run": 1}, "reach": ["instruction", "destination", "data source", "location", "operand redrawn"], "must": True, "qb": 100},
        {"h": "alterline", "params": {"all": 0, "regs": 1}, "reach": ["data source", "location"]}],
        "bounds": "environments of 4 (thorough 7) instructions of 1-2 operands, 5 data sources, 1 or 2 registers; an arbitrary valid line; every outcome of the generator",
        "stubs": "the random generator returns an arbitrary value in the requested bounds"},
    "C08": {"harnesses": [
        {"h": "initprog", "quick": {"lines": 2}, "thorough": {"lines": 3}, "reach": ["full", "not full"]},
        {"h": "progstep", "quick": {"lines": 3}, "thorough": {"lines": 4, "wide": 1}, "reach": ["nothing", "something", "altered", "constant"], "must": True},
        {"h": "mutateone", "quick": {}, "thorough": {"wide": 1}, "reach": ["nothing", "something", "altered"], "must": True},
        {"h": "mutateall", "quick": {"lines": 2}, "thorough": {"lines": 2, "wide": 1}, "reach": ["nothing", "something"], "qb": 100}],
        "bounds": "programs of up to 3 lines, maximum size 1 to 3, arbitrary constant range; every outcome of the generator",
        "stubs": "the random generator returns an arbitrary value in the requested bounds"},
    "C09": {"harnesses": [
        {"h": "graphstep", "quick": {"maxEdges": 2}, "thorough": {"minEdges": 3, "maxEdges": 3}, "reach": ["edge added", "edge rejected", "vertex removed", "team cloned", "destination changed", "source changed"], "must": True},
        {"h": "graphstep", "quick": {"maxEdges": 1, "steps": 2}, "thorough": {"maxEdges": 2, "steps": 2, "actions": 2}, "reach": ["edge added", "source changed"], "must": True}],
        "bounds": "any graph of 2 teams, 1 action and up to 2 (thorough 3) edges, one operation (two from smaller graphs) on any vertices and edges, those of another graph included"},
    "C10": {"harnesses": [
        {"h": "inittpg", "params": {"actions": 2}, "reach": ["rejected", "end"], "must": True},
        {"h": "inittpg", "params": {"actions": 3}, "reach": ["rejected", "end", "additional edge"], "must": True},
        {"h": "populateempty", "reach": ["end"], "must": True},
        {"h": "populate", "quick": {"draws": 7}, "thorough": {"draws": 10}, "reach": ["added", "more edges", "new edge to a team"], "must": True},
        {"h": "populate", "quick": {"draws": 7, "rootEdges": 1, "toActions": 1}, "thorough": {"draws": 9, "toActions": 1}, "reach": ["added"], "must": True},
        {"h": "populate", "quick": {"draws": 6, "rootEdges": 1, "rootAction": 1}, "thorough": {"draws": 8, "rootAction": 1}, "reach": ["added"], "must": True},
        {"h": "populatetwo", "quick": {"draws": 7, "rootEdges": 1}, "thorough": {"draws": 10, "rootEdges": 1}, "reach": ["added"], "must": True},
        {"h": "mutateteam", "quick": {"draws": 9}, "thorough": {"draws": 13}, "reach": ["grown", "same", "shrunk"], "must": True}],
        "bounds": "2-3 actions; graphs of 2 teams, 2 actions; up to 7 (thorough 10) probability draws of a population step, longer ones are cut",
        "stubs": "the random generator returns an arbitrary value in the requested bounds; the mutation of the lines of programs (C08) only counts its calls"},
    "C11": {"harnesses": [
        {"h": "mutatedest", "reach": ["first team", "second team", "third team"], "must": True},
        {"h": "mutateoutgoing", "reach": ["kept", "changed"], "must": True},
        {"h": "addremove", "reach": ["first", "second", "third", "first removed", "second removed"], "must": True}],
        "bounds": "1-3 actions, 1-3 existing teams, arbitrary probability; edge addition among up to 3 candidate edges",
        "stubs": "the random generator returns an arbitrary value in the requested bounds"},
    "C25": {"harnesses": [
        {"h": "policystats", "quick": {"edges": 3}, "thorough": {"edges": 4, "anyRoot": 1}, "reach": ["several teams", "deep"], "must": True},
        {"h": "policystats", "quick": {"lines": 1, "edges": 1}, "thorough": {"lines": 2, "edges": 1}},
        {"h": "policystats", "quick": {"teams": 3, "edges": 3}, "thorough": {"teams": 3, "edges": 4}, "thorough_only": True, "reach": ["several teams", "deep"]}],
        "bounds": "graphs of 2 (thorough 3) teams and 2 actions with any 3 (4) edges, cyclic ones included, carrying any of 2 programs; programs of up to 1 (2) arbitrary lines over 4 instructions, 4 data sources and every location"},
    "C26": {"harnesses": [
        {"h": "advjobs", "reach": ["one team", "several teams"], "must": True},
        {"h": "advjobs", "params": {"action": 1, "ratios": 1, "iterations": 2}, "reach": ["one team"]},
        {"h": "advevaluate", "quick": {"iterations": 2}, "thorough": {"iterations": 2, "roots": 3}, "reach": ["end"]},
        {"h": "advevaluate", "quick": {"iterations": 2, "roots": 3, "perJob": 1, "ratios": 2}, "thorough": {"iterations": 4, "roots": 3}, "reach": ["end"]},
        {"h": "advevaluate", "params": {"symScore": 0, "length": 1, "roots": 3, "action": 1}, "reach": ["end"]},
        {"h": "advevaluate", "params": {"symScore": 0, "length": 1, "roots": 2, "agents": 3, "validation": 1}, "reach": ["end"]},
        {"h": "advevaluate", "quick": {"symScore": 0, "symEnd": 1, "ratios": 0, "iterations": 1, "perJob": 1}, "thorough": {"symScore": 0, "symEnd": 1, "ratios": 0, "agents": 3, "iterations": 1, "perJob": 1}, "reach": ["end"]},
        {"h": "advagain", "reach": ["end"], "must": True}],
        "bounds": "1-3 agents, 1-3 roots (one of them possibly an action), 1-4 iterations, 1-2 iterations per job, 5 ratios, any champions, any choice of opponents; games of up to 6 actions; any scores among 16 values, or any ends of the games",
        "stubs": "random draws are arbitrary values in the requested bounds"},
    "C17": {"harnesses": [
        {"h": "parevaluate", "params": {"constants": 1, "noCopy": 1, "modes": 2}, "quick": {"archiving": 1, "archiveMin": 2, "archive": 2, "preemptions": 1}, "thorough": {"archiving": 2, "archiveMin": 1, "archive": 2, "records": 1}, "reach": ["several roots", "one root", "archived"], "must": True, "tb": 400},
        {"h": "parevaluate", "params": {"instrumented": 1, "inner": 1, "iterations": 2, "modes": 0, "symData": 1}, "quick": {"preemptions": 2, "minRoots": 2}, "thorough": {"preemptions": 3}, "reach": ["several roots", "visited"], "must": True, "tb": 400},
        {"h": "parevaluate", "params": {"roots": 3, "minRoots": 3, "threads": 3, "preemptions": 1, "archiving": 1}, "reach": ["several roots"], "thorough_only": True, "tb": 600},
        {"h": "parplain", "params": {"minThreads": 1, "modes": 2}, "quick": {"archiving": 1, "archiveMin": 2, "archive": 2, "preemptions": 0}, "thorough": {"archiving": 2, "archive": 2, "archiveMin": 1, "preemptions": 1, "iterations": 2, "records": 1}, "reach": ["several roots", "one root", "archived"], "must": True, "tb": 400},
        {"h": "parplainclass", "params": {"minThreads": 1}, "quick": {"preemptions": 0}, "thorough": {"preemptions": 1, "archiving": 1}, "reach": ["several roots", "archived"], "must": True, "tb": 300},
        {"h": "partrainplain", "params": {"minThreads": 1}, "quick": {"preemptions": 0, "seeds": 0, "validation": 1}, "thorough": {"preemptions": 1, "validation": 1, "generations": 2}, "reach": ["trained", "archived"], "must": True, "tb": 400},
        {"h": "parclass", "quick": {}, "thorough": {"preemptions": 3, "archiving": 1, "constants": 1}, "reach": ["several roots", "archived"], "must": True, "tb": 300},
        {"h": "paradversarial", "quick": {}, "thorough": {"preemptions": 3, "archiving": 1}, "reach": ["several roots", "archived"], "must": True, "tb": 300},
        {"h": "parmutate", "params": {"constants": 1, "forced": 1}, "quick": {}, "thorough": {"threads": 3, "programs": 3, "preemptions": 2}, "reach": ["several programs", "archive"], "must": True, "tb": 400},
        {"h": "partrain", "params": {"constants": 1, "instrumented": 1}, "quick": {"preemptions": 1, "validation": 1}, "thorough": {"generations": 2, "validation": 1, "nbRoots": 3, "threads": 3, "preemptions": 1}, "reach": ["trained", "archived", "visited"], "must": True, "tb": 600},
        {"h": "partrainclass", "params": {}, "quick": {"preemptions": 1}, "thorough": {"generations": 2, "preemptions": 1}, "reach": ["trained", "archived"], "must": True, "tb": 400},
        {"h": "partrainadv", "params": {}, "quick": {"preemptions": 1}, "thorough": {"generations": 2, "preemptions": 1}, "reach": ["trained", "archived"], "must": True, "tb": 400}],
        "bounds": "2 (thorough 3) threads, up to 2 (3) roots and 2 iterations, up to 2 new programs and 2 archived observations; every schedule with up to 2 (3) preemptions, threads being preempted when they take a mutex, start, end, are created or joined (not between other instructions: see C18); one (two) whole generations from 2 seeds; scores are arbitrary integers in -8..7, archiving decisions arbitrary",
        "stubs": "random draws are a fixed function of the seed of the generator and of the number of earlier draws; the environment is a deterministic one whose scores and data are arbitrary functions of the seed and actions"},
    "C18": {"harnesses": [
        {"h": "parevaluate", "params": {"constants": 1, "races": 1}, "quick": {"preemptions": 1, "archiving": 1, "archiveMin": 2, "archive": 2}, "thorough": {"archiving": 2, "archiveMin": 1, "archive": 2, "modes": 2}, "reach": ["several roots", "one root", "archived"], "must": True, "tb": 400},
        {"h": "parevaluate", "params": {"instrumented": 1, "inner": 1, "races": 1, "modes": 0, "symData": 1}, "quick": {}, "thorough": {"threads": 3, "roots": 3}, "reach": ["several roots", "visited"], "must": True, "tb": 400},
        {"h": "parclass", "params": {"races": 1}, "quick": {"preemptions": 1}, "thorough": {"constants": 1}, "reach": ["several roots", "archived"], "must": True, "tb": 300},
        {"h": "paradversarial", "params": {"races": 1}, "quick": {"preemptions": 1}, "thorough": {"constants": 1}, "reach": ["several roots", "archived"], "must": True, "tb": 300},
        {"h": "parmutate", "params": {"constants": 1, "races": 1, "forced": 1}, "quick": {}, "thorough": {"threads": 3, "preemptions": 2}, "reach": ["several programs", "archive"], "must": True, "tb": 400},
        {"h": "partrain", "params": {"constants": 1, "races": 1, "instrumented": 1}, "quick": {"preemptions": 1, "nbRoots": 3}, "thorough": {"nbRoots": 4, "forced": 1}, "reach": ["trained", "archived"], "must": True, "tb": 400},
        {"h": "partrainadv", "params": {"races": 1}, "quick": {"preemptions": 1, "seeds": 0}, "thorough": {"nbRoots": 3}, "reach": ["trained", "archived"], "must": True, "tb": 400}],
        "bounds": "as C17; for each explored schedule the solver decides over every order of the observed code segments that program order, thread creation and joining, and the observed order of mutexes and atomic operations allow, whether two conflicting accesses can be adjacent; accesses of the compiled library and harness code and of the trees of the C++ library are watched, other code inside the C++ library (iostreams, regex tables) is not",
        "stubs": "random draws and the environment as in C17; a reported race is replayed with ThreadSanitizer under the same schedule"},
    "C27": {"harnesses": [
        {"h": "behaviour", "params": {"instructions": 0, "mutations": 2, "records": 1}, "reach": ["forced", "mutated once", "mutated again"], "must": True},
        {"h": "behaviour", "quick": {"lines": 1}, "thorough": {"lines": 1, "anyResult": 1}, "reach": ["forced", "mutated once", "mutated again"], "must": True, "tb": 300},
        {"h": "behaviour", "params": {"lines": 1, "anyResult": 1, "records": 1, "mutations": 2}, "reach": ["forced", "mutated once", "mutated again"], "must": True},
        {"h": "behaviour", "params": {"instructions": 0, "mutations": 2}, "reach": ["forced"], "must": True, "thorough_only": True, "tb": 300},
        {"h": "newbehaviours", "reach": ["end"], "must": True}],
        "bounds": "programs of 1-2 lines, archives of up to 2 recordings, up to 3 successive mutations; sequential mutation",
        "stubs": "the outcome of a program's mutation is arbitrary (its content is the subject of C08); random draws are arbitrary values in the requested bounds"},
    "C28": {"harnesses": [
        {"h": "environ", "quick": {}, "thorough": {"second": 1}, "reach": ["instruction left out", "all kept", "rejected"], "must": True},
        {"h": "environ", "params": {"types": 0, "sources": 2}, "reach": ["instruction left out", "all kept", "rejected"], "must": True}],
        "bounds": "3 instructions, one of up to 2 operands of any of 7 types; up to 3 registers, 2 constants, 2 sources providing any set of types with address spaces 0, 1, 4, 2^33"},
    "C30": {"harnesses": [
        {"h": "cycles", "quick": {"edges": 3}, "thorough": {"edges": 4}, "reach": ["cycle", "no cycle"], "must": True, "tb": 300},
        {"h": "cycles", "quick": {"teams": 2, "edges": 4, "minEdges": 4, "again": 1}, "thorough": {"teams": 4, "edges": 4, "minEdges": 4, "actions": 0, "again": 1}, "reach": ["cycle", "no cycle"], "must": True, "tb": 300},
        {"h": "cycles", "params": {"quiet": 1, "actions": 0}, "quick": {"edges": 4, "minEdges": 4}, "thorough": {"edges": 5, "minEdges": 5}, "reach": ["cycle", "no cycle"], "must": True, "tb": 400}],
        "bounds": "every graph of 3 teams, 1 action and up to 3 (thorough 4) edges in any order, and of 2 (4) teams with 4 edges"},
    "C31": {"harnesses": [
        {"h": "graphmove", "quick": {"maxEdges": 1}, "thorough": {"maxEdges": 2}, "reach": ["constructed", "assigned", "swapped", "cloned after the move"], "must": True, "tb": 400}],
        "bounds": "every graph of 2 teams, 1 action and up to 1 (thorough 2) edges of 2 programs, plain or instrumented, moved by construction, assignment to another graph, or swap; then one addition, clone and removal of any vertex in both"},
    "C32": {"harnesses": [
        {"h": "execstats", "quick": {"runs": 1}, "thorough": {"runs": 1, "teams": 3}, "reach": ["end", "several teams"], "must": True, "tb": 300},
        {"h": "execstats", "params": {"loneAction": 1}, "quick": {"runs": 2, "kinds": 0}, "thorough": {"runs": 2, "kinds": 3}, "reach": ["end", "several teams", "action alone"], "must": True, "tb": 300},
        {"h": "execstats", "params": {"json": 1, "again": 1}, "quick": {"runs": 1, "kinds": 0}, "thorough": {"runs": 2, "kinds": 1}, "reach": ["written", "again"], "must": True, "tb": 300}],
        "bounds": "graphs of 2 (thorough 3) teams of 2 edges, 2 actions and a lone one, 2 programs of 1-3 lines with and without introns, identified or not; 1-2 inferences from any root on arbitrary inputs, then a reset and 1-2 more"},
    "C33": {"harnesses": [
        {"h": "logged", "quick": {"roots": 2}, "thorough": {"roots": 3}, "reach": ["end", "validated", "same best root", "new best root"], "must": True, "tb": 400}],
        "bounds": "two generations of 2 (thorough 3) roots, arbitrary integer scores in [-3, 4], with or without validation and decimation of one root; two recording loggers, the basic one and the one of policies",
        "stubs": "the mutation of the population (C10) adds teams of one edge; a number depending on the inputs is printed as a reference to it"},
    "C22": {"harnesses": [
        {"h": "dot", "quick": {"edges": 1, "teams": 1, "actions": 2, "lines": 1}, "thorough": {"edges": 1, "teams": 1, "actions": 2, "lines": 2}, "reach": ["end"], "must": True, "qb": 90},
        {"h": "dot", "quick": {"edges": 3, "actions": 1, "lines": 0, "consts": 1}, "thorough": {"edges": 3, "actions": 2, "lines": 0, "consts": 1}, "reach": ["shared program"], "must": True, "qb": 120},
        {"h": "dot", "params": {"lines": 0, "consts": 0}, "quick": {"edges": 2}, "thorough": {"edges": 3, "teams": 3}, "reach": ["shared program"], "must": True, "qb": 60},
        {"h": "dot", "params": {"lines": 0, "consts": 0, "sub": 1}, "quick": {"edges": 2}, "thorough": {"edges": 3, "teams": 3}, "reach": ["shared program"], "must": True, "qb": 60},
        {"h": "dot", "params": {"lines": 0, "consts": 0, "again": 1, "full": 1, "actionsFirst": 1}, "quick": {"edges": 2}, "thorough": {"edges": 3}, "reach": ["shared program"], "must": True, "qb": 90},
        {"h": "dot", "params": {"lines": 0, "consts": 0, "reuse": 1, "actionsFirst": 1}, "quick": {"edges": 2}, "thorough": {"edges": 3}, "reach": ["shared program"], "must": True, "qb": 90}],
        "bounds": "every graph of up to 2 (thorough 3) teams, 2 actions and 3 edges with any sharing of programs, programs of up to 1 (2) lines, 2 constants; every identifier of an action, constant, instruction, "
                  "destination, operand source and location; whole graphs and sub-graphs, a reused exporter, an importer filling a graph that is not empty. Outside: text lines of more than MAX_READ_SIZE (4096) characters, which "
                  "the importer refuses by design",
        "stubs": "a number that depends on symbolic inputs is written as a unique string of digits and read back as that number (conversions keep their range checks); formats, files and regular expressions are real",
        "assumptions": ["decimal text of a number is read back as that number"]},
    "C23": {"harnesses": [
        {"h": "jsonround", "reach": ["end"], "must": True},
        {"h": "jsonkeys", "quick": {"keys": 2}, "thorough": {"keys": 3}, "reach": ["end", "unknown key"], "must": True, "qb": 90, "tb": 1500}],
        "bounds": "every value of all 30 parameters together; files with any 2 (thorough 3) keys, known or not, over any previous values. Outside: the text itself, written and parsed by JsonCpp with 6 significant digits",
        "stubs": "the value JsonCpp is given to write is the value it parses",
        "assumptions": ["JsonCpp reads back the values it writes"]},
    "C24": {"harnesses": [
        {"h": "codegen", "reach": ["every operand", "random graph"], "must": True, "qb": 200, "tb": 2400}],
        "level": "translation_validation",
        "technique": "translation validation: the C code generated from a family of graphs and the execution of the graph are executed symbolically on the same arbitrary data, agreement decided with z3",
        "bounds": "150 (thorough 600) graphs: every place of every operand of 14 instructions (doubles, integers, constants, 1D and 2D windows, registers) with and without constants, and pseudo-random graphs of up to 3 teams, "
                  "9 edges and shared programs of up to 4 lines; both modes; every content of the 19 data cells (bit patterns, NaN included)",
        "stubs": "instruction bodies are uninterpreted functions of their operands' bit patterns in the library and in the generated code; multiplication by a constant and addition are real"},
    "C19": {"harnesses": [
        {"h": "drawu64", "quick": {"last": 8}, "thorough": {"last": 11}, "reach": ["width 1 value 1", "width 1 value 2", "width 2 value 3", "width 4 value 1", "width 4 value 5", "large range: first value", "large range: last value"], "must": True},
        {"h": "drawi32", "reach": ["first value", "last value", "negative"], "must": True},
        {"h": "drawdouble", "reach": ["lower half", "upper half", "single value"], "must": True},
        {"h": "seeds", "reach": ["end"]}],
        "bounds": "any two consecutive raw outputs of the 64-bit engine (two rejected draws, then fixed ones); 9 (thorough 12) widths with any lower bound; 6 widths x 5 lower bounds of 32-bit draws; 6 floating-point ranges; any 64-bit seed, up to 3 earlier draws"},
    "C12": {"harnesses": [
        {"h": "window", "quick": {"records": 4}, "thorough": {"records": 5, "contents": 2, "maxSize": 4}, "reach": ["oldest dropped", "end"]},
        {"h": "window", "quick": {"records": 3, "clear": 1}, "thorough": {"records": 4, "clear": 1}, "reach": ["oldest dropped", "end"]},
        {"h": "probability", "quick": {"records": 3}, "thorough": {"records": 5}, "reach": ["drawn", "not drawn"], "must": True},
        {"h": "unique", "quick": {"records": 2}, "thorough": {"records": 3}, "reach": ["unique", "present"], "must": True},
        {"h": "unique", "quick": {"records": 3, "third": 0, "tol": 0, "sym": 1}, "thorough": {"records": 4, "third": 0, "sym": 1}, "reach": ["unique", "present"], "must": True},
        {"h": "unique", "params": {"records": 3, "third": 0, "tol": 0, "sym": 1, "maxSize": 2}, "quick": {}, "thorough": {"clear": 1}, "reach": ["unique", "present", "oldest dropped"], "must": True},
        {"h": "unique", "params": {"records": 2, "third": 0, "tol": 0, "sym": 1, "clear": 1}, "reach": ["unique", "present"], "must": True}],
        "bounds": "up to 4 (thorough 5) recordings of 2 programs on 2 data sources with 2 (4) contents, arbitrary results; sizes 0 to 3; arbitrary probability, draws, expected results and tolerance",
        "stubs": "the random generator returns an arbitrary value in the requested bounds; hash collisions between the used contents are excluded by checking their hashes"},
    "C13": {"harnesses": [
        {"h": "plainresult", "quick": {"count": 2}, "thorough": {"count": 6}, "reach": ["evaluation added", "no evaluation added"]},
        {"h": "classresult", "quick": {"count": 2}, "thorough": {"count": 2, "classes": 3}, "reach": ["class without evaluation", "end"]},
        {"h": "advresult", "quick": {"count": 3}, "thorough": {"count": 6}, "reach": ["evaluation", "no evaluation"]},
        {"h": "mixedresult", "reach": ["accepted", "rejected"], "must": True}],
        "bounds": "scores of magnitude up to 1e6, up to 2-3 (thorough 6) evaluations each, 2 (3) classes; all pairs of kinds and sizes"},
    "C14": {"harnesses": [
        {"h": "decimate", "quick": {"teams": 3}, "thorough": {"teams": 3, "records": 1, "anyScore": 1}, "reach": ["removed", "nothing removed"], "must": True},
        {"h": "decimate", "quick": {"teams": 4, "minTeams": 4, "actions": 0}, "thorough": {"teams": 5, "minTeams": 4}, "reach": ["removed"]},
        {"h": "classdecimate", "quick": {"teams": 3}, "thorough": {"teams": 4}, "reach": ["removed"], "must": True},
        {"h": "classdecimate", "quick": {"teams": 4, "levels": 2}, "thorough": {"teams": 4, "levels": 3}, "reach": ["removed", "kept per class"], "must": True},
        {"h": "classdecimate", "quick": {"teams": 3, "levels": 2, "action": 1}, "thorough": {"teams": 3, "action": 1}, "reach": ["removed", "kept per class"], "must": True},
        {"h": "generation", "reach": ["end"]}],
        "bounds": "up to 4 (thorough 5) root teams and a root action, 7 ratios, populations of 1 to 4 roots, scores among 16 values (thorough: any number); classification with 2 classes and up to 4 roots",
        "stubs": "random draws are arbitrary values in the requested bounds"},
    "C15": {"harnesses": [
        {"h": "records", "quick": {"roots": 3}, "thorough": {"roots": 4}, "reach": ["new best", "kept"], "must": True},
        {"h": "records", "quick": {"roots": 1, "anyScore": 1}, "thorough": {"roots": 3, "anyScore": 1}, "reach": ["new best", "kept"]},
        {"h": "keepbest", "quick": {}, "thorough": {"records": 1}, "reach": ["end"], "must": True},
        {"h": "startover", "reach": ["end"], "must": True},
        {"h": "generation", "reach": ["end", "validated"], "must": True}],
        "bounds": "up to 3 (thorough 4) roots with or without earlier results, any former best root, scores among 16 values or any number; graphs of 4 teams with any acyclic edges; one generation of 3 roots",
        "stubs": "random draws are arbitrary values in the requested bounds"},
    "C16": {"harnesses": [
        {"h": "job", "quick": {"iterations": 2}, "thorough": {"iterations": 3}, "reach": ["skipped", "combined", "end"], "must": True},
        {"h": "jobend", "reach": ["end"], "must": True},
        {"h": "allroots", "reach": ["end"], "must": True},
        {"h": "generation", "reach": ["end", "validated"], "must": True}],
        "bounds": "up to 2 (thorough 3) iterations of at most 4 actions; any data, end and scores (16 values) given by the environment; 3 roots; modes, earlier results, one generation",
        "stubs": "random draws are arbitrary values in the requested bounds"},
    "C29": {"harnesses": [
        {"h": "guesses", "quick": {"guesses": 4}, "thorough": {"guesses": 6}, "reach": ["true positives", "no true positive"]},
        {"h": "guesses", "quick": {"classes": 3, "guesses": 4}, "thorough": {"classes": 3, "guesses": 5}, "reach": ["true positives", "no true positive"]},
        {"h": "f1table", "params": {"max": 1000000000}, "reach": ["true positives", "no true positive"]},
        {"h": "f1table", "params": {"classes": 3, "max": 1000000000}, "reach": ["true positives", "no true positive"]},
        {"h": "f1table", "quick": {"levels": 4}, "thorough": {"levels": 5}, "reach": ["true positives", "no true positive"]},
        {"h": "f1table", "quick": {"classes": 3, "levels": 2}, "thorough": {"classes": 3, "levels": 3}, "reach": ["true positives", "no true positive"]},
        {"h": "classjob", "quick": {"guesses": 1}, "thorough": {"guesses": 2}, "reach": ["end"]}],
        "bounds": "every sequence of up to 4 (thorough 6) guesses over 2-3 classes; tables of 2-3 classes with any counts up to 1e9, or counts among up to 5 values up to 2^40; jobs of up to 2 iterations of 1 (thorough 2) guesses"},
    "C20": {"harnesses": [
        {"h": "readdouble", "quick": {}, "thorough": {"width": 4, "height": 4}, "reach": ["end"], "must": True},
        {"h": "readint", "quick": {}, "thorough": {"width": 4, "height": 4}, "reach": ["end"]},
        {"h": "readconstant", "reach": ["end"]},
        {"h": "readbyte", "reach": ["end"]},
        {"h": "address", "quick": {}, "thorough": {"width": 4}, "reach": ["end"], "must": True},
        {"h": "writecell", "reach": ["end"], "must": True},
        {"h": "rejectdouble", "reach": ["declared type", "undeclared type"], "must": True},
        {"h": "rejectint", "reach": ["declared type", "undeclared type"], "must": True},
        {"h": "pointerhandler", "reach": ["end"], "must": True}],
        "bounds": "arrays of up to 3 (thorough 4) cells and 2-D arrays of up to 3x3 (4x4), 17 types, every address and any 64-bit location or address beyond, arbitrary contents; rejections also with the argument checks compiled in",
        "stubs": "the text of error messages is not examined"},
    "C21": {"harnesses": [
        {"h": "hashdouble", "quick": {"steps": 3}, "thorough": {"steps": 4}, "reach": ["write", "reset", "request", "assignment", "copy", "end"], "must": True},
        {"h": "hashint", "quick": {"steps": 2}, "thorough": {"steps": 3, "width": 3}, "reach": ["write", "assignment", "end"], "must": True},
        {"h": "hashdouble", "quick": {"steps": 1, "height": 2}, "thorough": {"steps": 3, "height": 2}, "reach": ["write", "end"]},
        {"h": "hashconstant", "quick": {"steps": 2}, "thorough": {"steps": 3}, "reach": ["end"]},
        {"h": "hashdiffers", "reach": ["end"]}],
        "bounds": "5 kinds of handlers of 1-2 cells (2x2 for short histories), up to 3 (thorough 4) operations among writes, resets, hash requests, assignments or pointer changes, and copies, arbitrary contents; difference of hashes on 6 sample values per cell"},
}

"""Case counts per shard (8 shards), what a case is, and what is assumed."""
PLAN = {
    "C01": {"quick": 1800, "thorough": 30000},
    "C02": {"quick": 1400, "thorough": 30000},
    "C03": {"quick": 1500, "thorough": 30000},
    "C04": {"quick": 1300, "thorough": 30000},
    "C05": {"quick": 5500, "thorough": 80000},
    "C11": {"quick": 60000, "thorough": 400000},
    "C16": {"quick": 2800, "thorough": 40000},
}
RULES = {
    "C01": "random well-typed terminating scalar programs (all statements of the fragment), executed by bash; non-trivial: at least one loop, switch or if is executed and something is printed",
    "C02": "random programs with functions over a tiny name pool; non-trivial: at least one user function is called and something is printed",
    "C03": "random programs over slices and strings; non-trivial: contains a slice or string operation and prints",
    "C04": "random programs whose operands are calls that print and change globals; one in three is an evaluation-hazard program (globals of every type read next to calls that change them, in every position of an expression, statement or header); non-trivial: a statement with two or more traced operands is executed",
}
RULES["C05"] = "random programs of the fragments of C01-C04 and evaluation-hazard programs (one in eight) with cmd-neutral strings, run under a model of cmd.exe with 32-bit arithmetic (one in eight also by bash); non-trivial: prints and executes a branch, loop, call or copy"
RULES["C16"] = "random programs of the whole language including input, file and command builtins, each with a random subset of the language; bash -n, use of every emitted Bash function, and a structural parse of the Batch script; non-trivial: has a builtin, loop, if or switch"
RULES["C11"] = "token lists rendered with random separators, comments and line ends (expected tokens known by construction) and random concatenations of lexical fragments (expected tokens from an independent lexer); non-trivial: at least three (two) tokens"
ASSUME = {
    "C05": ["the model of cmd.exe in harness/batchvm follows cmd.exe's documented rules"],
    "C16": ["the structural parser in harness/batchvm follows cmd.exe's documented rules"],
    "*": ["the Go toolchain, bash 5.2 and the reference models in /verif/harness are trusted",
          "exploration: only the generated cases are decided, nothing is proved for the rest"],
}
_EXEC = "random program generation (rapid, shrinking) against a reference interpreter; the emitted script is executed"
TECH = {"C01": _EXEC, "C02": _EXEC, "C03": _EXEC, "C04": _EXEC}
_BN = "No difference from an independent reference interpreter on the generated programs; trusts the interpreter, bash 5.2 and the stated exclusions (DESIGN.md)."
NOTE = {"C01": _BN, "C02": _BN, "C03": _BN, "C04": _BN}

TECH["C05"] = "random program generation (rapid, shrinking) against a reference interpreter; the emitted Batch script runs in a model of cmd.exe"
TECH["C16"] = "random program generation (rapid, shrinking); bash -n plus a structural validity predicate over the emitted Batch script"
NOTE["C05"] = "No difference on the generated programs under the model of cmd.exe (no Windows here); trusts that model, the reference interpreter and the stated exclusions (DESIGN.md)."
NOTE["C16"] = "No malformed script among the generated programs; trusts bash -n and the structural parser."

TECH["C11"] = "random token lists and fragment strings (rapid, shrinking) against expected tokens known by construction and an independent reference lexer with strconv.Unquote"
NOTE["C11"] = "No wrong token on the generated texts; a minus directly before a digit may belong to either token, columns may count bytes or characters."

PLAN["C09"] = {"quick": 1300, "thorough": 25000}
RULES["C09"] = "random multi-file programs (import graphs with shared files, several aliases, path spellings, equal names everywhere, unused functions), multi-file programs with one illegal reference, and content-equal files; executed by bash and partly under the cmd.exe model; non-trivial: a call into another file (or the illegal reference) is in the program"
ASSUME["C09"] = ["the model of cmd.exe in harness/batchvm follows cmd.exe's documented rules"]
TECH["C09"] = "random multi-file program generation (rapid, shrinking) against a module-aware reference interpreter, plus negative cases by construction"
NOTE["C09"] = "No difference on the generated import graphs (up to 5 files quick, 8 thorough); trusts the reference interpreter and bash."

PLAN["C12"] = {"quick": 5000, "thorough": 40000}
RULES["C12"] = "generated programs, multi-file programs, repository files and hand-written snippets, a quarter of them with token edits, each compared with a random re-layout of all its files for both targets; non-trivial: more than five tokens and the texts differ"
TECH["C12"] = "metamorphic testing with random re-layouts (rapid, shrinking): same acceptance and byte-identical scripts"
NOTE["C12"] = "No difference on the generated layout pairs; the pairs are checked to differ in layout only with an independent lexer."

PLAN["C13"] = {"quick": 6500, "thorough": 100000}
RULES["C13"] = "bytes, lexical fragments, token sequences, edited/truncated/spliced programs, syntactically plausible programs with random types, nesting and repetition up to 24 kB, import graphs with cycles, missing files, directories and links; each for both targets; non-trivial: at least 8 bytes"
ASSUME["C13"] = ["'bounded time' is decided as 20 s of CPU time or 3 GB of memory for inputs of at most 24 kB (about 60 files)"]
TECH["C13"] = "fuzzing with structured generators (rapid, shrinking) under recover, a CPU-time and memory watchdog and crash detection"
NOTE["C13"] = "No crash, hang, empty error or missing/extra script on the generated inputs."

PLAN["C14"] = {"quick": 380, "thorough": 6000}
RULES["C14"] = "one to three programs (multi-file, single-file, with the standard library, edited, near copies) transpiled repeatedly, in a random order on one transpiler object, at the same time, from a relocated or renamed copy, via relative paths and in fresh processes; non-trivial: several programs or files or a relocation"
TECH["C14"] = "metamorphic testing with random histories of transpilations (rapid, shrinking): byte equality with the program transpiled alone"
NOTE["C14"] = "No difference on the generated histories; concurrency only on separate transpiler objects."

PLAN["C15"] = {"quick": 1200, "thorough": 25000}
RULES["C15"] = "scripts of one to six calls of std/strings with literal, variable or forwarded ASCII arguments (no NUL; Repeat only with counts >= 0), many of them parts of each other, executed by bash and, for cmd-neutral text, under the cmd.exe model; non-trivial: every script prints results"
TECH["C15"] = "differential testing against Go's strings package with random arguments (rapid, shrinking)"
NOTE["C15"] = "No difference on the generated arguments (up to 7 characters quick, 12 thorough)."
ASSUME["C15"] = ["the model of cmd.exe in harness/batchvm follows cmd.exe's documented rules (one case in six)"]

PLAN["C08"] = {"quick": 5000, "thorough": 120000}
RULES["C08"] = "two string values (every printable ASCII character, tab and newline in tricky patterns; shell syntax, options, expansions, escapes; random) obtained from a literal, raw literal, file, standard input or a command's output and sent along one to four of 29 paths, top level or in a function, in a directory with bait files and a poisoned environment; non-trivial: a value contains a non-alphanumeric character"
TECH["C08"] = "random values x paths x origins (rapid, shrinking): identity of the value in output and files, no file appears, nothing on standard error"
NOTE["C08"] = "No value changed, expanded or executed on the generated combinations; executed with bash only."

PLAN["C06"] = {"quick": 18000, "thorough": 120000}
RULES["C06"] = "(1) the full table of 430 positions x 58 value forms and 1100 arity/multi-value statements, every entry in a random embedding (thorough: twelve) (top level, functions, locals, nested ifs, loops and switches); (2) nested typed expressions in 25 statement positions with no or exactly one wrong slot; (3) generated well-typed programs with one operand, argument, value, condition, index or element replaced by another type; (4) lists of 2 to 14 entries (arguments, results, definitions, assignments, elements, operands, branches, cases) with no or one entry wrong, missing or surplus; every case for both targets; non-trivial: all"
TECH["C06"] = "exhaustive position x type table plus random nested and corrupted programs (rapid, shrinking) against the type rules: acceptance and rejection, both targets"
NOTE["C06"] = "No wrong acceptance or rejection on the table and the generated programs; mixtures of error, nil and string and Go forms the README does not settle are not judged (DESIGN.md)."

PLAN["C07"] = {"quick": 20000, "thorough": 250000}
RULES["C07"] = "random programs of nested blocks, loops, switches, functions and imports over six names, built together with their own scope table; two thirds carry exactly one fault (use of a hidden or undefined name, redefinition, duplicate function or parameter, self-reference, call before definition, private or unaliased call, misplaced break/continue/return/func, reachable end); both targets; non-trivial: has a block"
TECH["C07"] = "random program generation with a scope table as reference (rapid, shrinking): acceptance and rejection, both targets"
NOTE["C07"] = "No wrong acceptance or rejection on the generated programs; break in a switch outside a loop and functions ending in a terminating if/else or endless loop are not judged."

PLAN["C10"] = {"quick": 1300, "thorough": 40000}
RULES["C10"] = "generated programs, multi-file programs and snippets covering every builtin, with their variables, parameters and functions renamed injectively to reserved words, environment variables, identifiers harvested from the emitted scripts, names shaped like mangled ones, case and underscore variants or permutations of their own names; original and renamed script are both executed (bash, or the cmd.exe model); non-trivial: the renamed program differs and is accepted"
ASSUME["C10"] = ["the model of cmd.exe in harness/batchvm follows cmd.exe's documented rules (Batch half)"]
TECH["C10"] = "metamorphic testing with random renamings (rapid, shrinking): same output, status, standard error and files, or rejection"
NOTE["C10"] = "No difference on the generated renamings; Batch behaviour is that of the cmd.exe model."

PLAN["C18"] = {"quick": 2200, "thorough": 60000}
RULES["C18"] = "scripts with one to three command calls of one to four stages: 20 stand-in program names (by PATH or path), 0 to 11 arguments of C08's alphabet in eight argument forms, reading or ignoring standard input, with output of any trailing shape and any exit status, captured or not, at top level, in functions and loops; the stand-ins record their arguments and input byte for byte; non-trivial: a special character, an empty argument or a pipe"
TECH["C18"] = "random command calls (rapid, shrinking) against recording stand-in programs: exact argument vectors, standard inputs, call counts, captured output and status"
NOTE["C18"] = "No difference on the generated calls; executed with bash only (there is no Windows here)."

PLAN["C17"] = {"quick": 1500, "thorough": 60000}
RULES["C17"] = "histories of 1 to 20 file operations (19 kinds: write, append with every form of flag, read, exists, copy, rewrite, kept values, reads and appends in one expression, through functions, loops over paths, ...) over one to five path spellings, several of them of the same file, with blanks, options, shell syntax, newlines, sub-directories, pre-existing files and bait files, at top level, in functions, with paths as parameters, in loops and ifs; non-trivial: more than one operation and a special character in a path or content"
TECH["C17"] = "stateful random operation histories (rapid, shrinking) against a map from files to bytes: output and the whole directory tree afterwards"
NOTE["C17"] = "No difference on the generated histories; executed with bash only; dangling links and files without a final newline are not generated."

PLAN["C19"] = {"quick": 1400, "thorough": 100000}
RULES["C19"] = "runs of the built tsh binary as an unprivileged user in a fresh tree: 37 input names (dots, no extension, blanks, options, non-ASCII), absolute/relative/detoured paths, options in any order and spelling, one to six (repeated) targets, stale or foreign files in the output directory, single- and multi-file, edited and rejected programs, and 22 faults (bad options and values, unreadable or missing input, unusable outputs, full disk, output equal to the input directly or by links); non-trivial: a fault, rejected program, unusual name or several targets"
TECH["C19"] = "random command lines and environments with injected faults (rapid, shrinking), differential against the library called in-process; the whole tree is compared before and after"
NOTE["C19"] = "No difference on the generated runs; an output that breaks off in the middle of a write is not judged (DESIGN.md)."

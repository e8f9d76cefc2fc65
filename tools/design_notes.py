INTRO = """
# Model checking SpacemanDMM

Every property is decided by exhaustive enumeration of a bounded space of inputs, programs, operation
sequences, configurations, message histories or schedules, executed on the real code and compared with an
independently written reference model. There is no sampling anywhere, and no verdict of a solver.

## Machinery

* `mc/common`: the exploration runner. A *suite* is a finite index space `0..n`; each index is decoded
  (mixed radix) into one case, so the space is covered exactly once and any case can be rerun alone. All
  cases run, spread over 8 threads, inside a child process; the parent attributes aborts, stack overflows
  and hangs (60 s per case) to the case that caused them, reruns that case alone and reports it as a
  violation. A panic in the code under test is a violation. States (distinct behaviours by hash),
  transitions (tokens, operations, evaluations performed by the real code), validated traces (cases whose
  real result was compared with the reference) and samples go to `evidence/<id>.json`. A violation writes a
  replay file with the input, the expected and actual result, and the command
  (`./check.sh ID quick --only suite:index`) that reruns exactly that case.
* **How the model is bound to the code.** There is no model that stands apart from the code: the space is a
  set of behaviours of the *implementation*, each of which is executed. What is modelled is the answer (the
  reference), written from the language's and the tool's documentation, on other data structures than the
  implementation's. Every case is therefore a conformance test of the reference against the code, and the
  number of them is reported as validated traces.
* `mc/<crate>`: harness crates, each with path dependencies on /repo's crates; debug assertions and
  overflow checks are on, so arithmetic overflow in the code under test is a violation. `mc/cli` and
  `mc/lsp` also build /repo's binaries (including the language server, which /opt/vp/build.sh does not
  build) and drive them as processes.
* Many checks of diagnostics put hundreds of small programs into one analysis (each with its own prefix for
  every name, and its own lines) and hand each diagnostic back to its program; a program that fails in the
  batch is confirmed alone.
* `check.sh` builds the harness against /repo's working tree (content-hashed, so stale builds are
  impossible) and runs one property. `tools/gen.py` writes properties.jsonl, checks.conf and MANIFEST.json
  from `tools/props.py`; `tools/design.py` writes this file. `tools/try_seed.sh` confirms a planted bug in a
  scratch worktree and runs checks on it.
* `known_findings.txt`: fixed defects and (exact-key) known findings.

No hooks in /repo are needed. Effects are kept in scratch folders under /dev/shm that a run creates and
removes. The quick tier is meant for every change; the thorough tier raises depths and widens alphabets.

What a reference must not decide: where documentation, the reference compiler and the code leave the
behaviour open, the check accepts either answer, and the case is listed below under *Left open*. That keeps
the checks quiet on edits that do not change behaviour anyone relies on.
"""

NOTES = {
"P01": {"oracle": "an ordered list of (range, values), with every query answered by a linear scan; tree height is bounded by that of an AVL tree of the size.",
        "corrected": "none."},
"P02": {"oracle": "a scanner written from the lexical grammar as one function of (bytes, position), with an explicit stack for nested interpolations.",
        "open": "the wording of diagnostics; only their place and existence are compared."},
"P03": {"oracle": "forests are generated first and rendered; the expected tokens come from the forest, not from the text. Raw line sequences use a reference on columns.",
        "open": "the placement (not the presence) of separators next to inconsistent indentation, and an explicit brace left open before a line indented less, which the indentation closes."},
"P04": {"oracle": "an interpreter of directives over a list of lines with its own stack of (taken, active), and an evaluator of conditions on integers."},
"P05": {"oracle": "a textbook rescanning expander over token lists with hide-free rescanning as the language has it, argument splitting, stringification and pasting; the history is a list of (from, to, definition).",
        "open": "macros with exponential self-expansion, # or ## in object-like bodies, and pasting a name with a following number (a##1)."},
"P06": {"oracle": "an interpreter that walks the same files with a set of included paths.",
        "open": "two spellings of one path (the two known findings)."},
"P07": {"oracle": "an operator-precedence parser over the generated token list, from the language's table."},
"P24": {"oracle": "the statement tree the text was rendered from.",
        "open": "`else if` on one line may appear as an arm or as a nested if; both are accepted where they mean the same."},
"P08": {"oracle": "a recursive evaluator in 32-bit floats, with the language's coercions.",
        "open": "bitwise operators on negative or fractional numbers, and paths written with a space after the slash (`/obj / null`)."},
"P09": {"oracle": "memoised evaluation over the graph of references, with circularity decided by depth-first search."},
"P15": {"oracle": "a class hierarchy built from the list of declarations, not from text.",
        "open": "which of several headers of one type is its location (the shortest, first among equals, is what is used and checked); a value of a variable declared again after it was assigned follows the tree builder."},
"P11": {"oracle": "the grid and dictionary the text was rendered from; damaged files are classified by a small reader.",
        "open": "values containing braces outside text, and the key `ymp`, the first of the reserved ones, which is accepted."},
"P12": {"oracle": "a layout computed from the list of states (offset = sum of directions times frames)."},
"P13": {"oracle": "the over operator in exact integer arithmetic, within one unit."},
"P14": {"oracle": "a painter: sort by plane, layer and order, then blend each pixel, clip, and crop.",
        "open": "the last bit of blends at very low alpha, where two roundings follow each other."},
"P10": {"oracle": "decimal expansion in exact integer arithmetic; the printed text is parsed and compared as a rational number.",
        "open": "exact ties between two six-digit decimals; numbers beginning with a dot, which are not one token in this grammar."},
"P22": {"oracle": "the table of options in CONFIGURING.md and the code raising each documented diagnostic.",
        "open": "default severities are those of a run without configuration; an unquoted `false`; relative types inside proc definitions, plain `var/x` and bare `x;` in code standards; numbers of files and folders in descriptions are masked."},
"P30": {"oracle": "a painter of solid tiles and a tile-by-tile comparison, run on the same maps the command is given.",
        "open": "a far corner given without a level; levels or regions that do not exist; maps of one name in different folders given to minimap (they overwrite each other's picture); chunks with min above max; the only-* passes are always disabled in the pass-flags suite, since they hide everything else."},
"P26": {"oracle": "reference tables of each pass, written from what its objects look like in the game.",
        "open": "random outcomes are compared only where chance cannot change the result."},
"P27": {"oracle": "joins computed on sets of directions, then a table from the set to the picture.",
        "open": "the single-ended diagonal picture of closed turfs."},
"P16": {"oracle": "reachability on the call graph of the generated program. Where each call by itself can reach a blocking override but no single object makes all of them, a report is allowed and not required (the code over-approximates, calls being followed independently)."},
"P33": {"oracle": "an effect table of operations and the same call-graph exploration.",
        "open": "locals initialised from outside values; overrides reached through typed variables; reassigned parameters; an impure override may be reported once per implementation."},
"P18": {"oracle": "a textbook may-reach analysis over the generated statement tree: a claim is true if no run can reach the statement when all unknown conditions may go either way.",
        "open": "labels are taken as reachable; goto only to labels in the same or enclosing blocks; code after a bare break or continue need not be reported; ranges with step 0."},
"P17": {"oracle": "the rules of the documentation applied along the generated chain.",
        "open": "whether the proc that sets should-call-parent must itself call its parent."},
"P34": {"oracle": "the relation of declaring, using and receiver type in the generated tree.",
        "open": "a private variable named without an object (or through src) in subtypes, and types above the nearest declaration."},
"P19": {"oracle": "a resolver working on the generated expression tree, with scopes as a stack of maps.",
        "open": "a path kept in a local that is reassigned keeps its first value in the checker; default values of parameters are not visited; annotations are not inherited by overrides; `x && new()` hints."},
"P31": {"oracle": "parameter lists as sets of names along the generated families."},
"P25": {"oracle": "each number of the range is tried against each label.",
        "open": "labels inside the range that take no whole number (1.5, 3 to 1); reversed or parenthesised rand(); whether the report stands on the label's line or the next."},
"P28": {"oracle": "an editor buffer in UTF-16 units; answers are compared with those of a second server that was given the same text whole.",
        "open": "positions inside a surrogate pair, opening a document twice, changes on disk while closed."},
"P29": {"oracle": "the generated program knows where each thing is declared; macro state is an interpreter over the steps in reading order.",
        "open": "the column within the line; a loop variable after its loop; the gap after an identifier; names in macro arguments; members after an index or call; the initialiser of `var/x = x`."},
"P32": {"oracle": "the generated program lists its uses by construction.",
        "open": "locals and parameters (not supported by the server), a loop variable after its loop, types of catch parameters (located at their `try`), operator procs, keyword arguments, inner path segments, `in` unparenthesised inside for headers."},
"P21": {"oracle": "absence of crashes and hangs, agreement of two analyses with independent hash seeds, the positions the text has, and the diagnostics of the surrounding procs, known by construction.",
        "open": "stack exhaustion by nesting beyond the depth; an unclosed brace before a line indented less."},
"P35": {"oracle": "the list of declarations the program was written from; the query is matched by a reference of a few lines; the outline is rebuilt from the steps.",
        "open": "types without entries in the outline; a macro after a block's last entry may be in or out; a block's symbol may begin at its header or first entry."},
"P36": {"oracle": "the nearest mention of each name along the chain of types, the set of open scopes with their declarations, and the stack of open calls.",
        "open": "a loop variable after its loop; parameters of a proc not yet parsed."},
"P37": {"oracle": "a stack of regions; a colour reader on the text; the file list.",
        "open": "alpha numbers beyond 255, identifiers ending in rgb; relative links when the server runs elsewhere than in the environment's folder."},
"P38": {"oracle": "the nearest mention along the chain, the rest of the chain for overrides, and a stack of macro definitions (undefining uncovers the previous one).",
        "open": "which of several documented mentions is quoted."},
"P20": {"oracle": "the generator knows for each place which declaration a comment there belongs to; the text is rebuilt from the pieces it was made of.",
        "open": "comments indented otherwise than the code around them (they open and close blocks); inner comments later in a block are dropped; an outer comment at the end of a line followed by an own-line inner one may be lost."},
"P23": {"oracle": "a server that only ever saw the last version, and the tool with one thread, under the usual schedule. The runtime (`mc/sched/runtime`) replaces `std` for dm-langserver, dmm-tools and a small rayon: one thread runs at a time, each operation on a lock, channel, atomic, stream or file asks the explorer which thread goes on, and every choice is recorded, so that a schedule is replayed by its list of choices.",
        "open": "weak memory; schedules with more departures than the bound; real rayon's splitting of work."},
"P39": {"oracle": "the set of documented items of the generated program, their texts and links; a reader of the few elements the pages consist of.",
        "open": "empty module comments; page name collisions (a type or module called index, a type /code/a beside a module code/a); git links, since the check runs outside a repository."},
"P40": {"oracle": "the harness is the editor (over the debug adapter protocol) and the game (over auxtools' or extools' own protocol); the model keeps the last request per file and for procs, and the table of the program's instructions.",
        "open": "a line and a function breakpoint whose proc is spelled in two ways (/ta/p, /ta/proc/p); conditions of several breakpoints at one instruction, of which the game can hold one; editors that send malformed requests."},
"P41": {"oracle": "a rendering written from the states the harness reports as the game.",
        "open": "extools with an empty call stack (the thread list fails); which of several suffixes a repeated name gets beyond being distinct and in order."},
"P42": {"oracle": "per request the one thing asked of the game and the one answer; per message of the game the one event. After each history an unknown request is refused, which shows that nothing else was under way.",
        "open": "games that never answer (auxtools gives up after 5 s); an editor that goes away while the game still talks."},
"P44": {"oracle": "every environment of a folder names itself: by a warning (checker), a documented type (documentation) or the colour it gives the only tile (map tool); folders differ in what they include, in the shade of the icon, and in the configuration. Folders are made in memory, where the order of listing follows the order of making.",
        "open": "which of several environments is found when none has the default name; a folder whose name ends like an environment's.",
        "corrected": "the documentation generator run from outside its project finds no Markdown files of it, but its documentation says to run it from within, so the other calls were dropped for it."},
"P43": {"oracle": "scripts of the harness that print, end, or wait; what they were given is what they print. The server runs as a user of its own (uid 61000 and up) in its own process group, so that what it kills can only be its own; where that user cannot be had the suites are empty and say so.",
        "open": "when the end of a session is announced for a game that was killed or left alone (the source's comment and its code disagree)."},
}

OUTRO = """
## Other notes

* Deciding steps are always enumeration. Nothing here uses fuzzing, random testing or symbolic execution.
* Compiling the harness takes most of the time of a first run; `setup.sh` builds all of it.
"""

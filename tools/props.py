HOOKS = {"guard": "none (no hook is needed: every check drives public interfaces)", "enable": "plain path dependencies on /repo's crates", "source_commits": []}
NOTES = "Every check enumerates a finite space exhaustively (no sampling) against the real code; see DESIGN.md."

DM = "crates/dreammaker/src/"
PROPS = []
NOT_CLAIMED = []


def P(id, crate, title, statement, over, text, why, files, mech, technique, note, observe=(), state=()):
    a = {"files": list(files), "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": list(observe), "hook_needed": False}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    PROPS.append(dict(id=id, crate=crate, title=title, statement=statement, quantifier={"over": list(over), "text": text},
                      why_tests_cant=why, anchors=a, technique=technique, level_note=note))


def NA(id, title, statement, over, text, why, files, mech, reason):
    NOT_CLAIMED.append(dict(id=id, title=title, statement=statement, quantifier={"over": list(over), "text": text}, why_tests_cant=why,
                            anchors={"files": list(files), "mechanism": [{"name": n, "where": w} for n, w in mech]}, reason=reason))


P("P01", "itree", "The interval tree answers every query exactly, after any edit history",
  "After any sequence of insertions, removals and merges, the interval map behaves like an ordered multimap keyed by (start, end): lookups, minimum and maximum, ordered iteration and consumption are exact, and a range query returns exactly the stored intervals that overlap the queried one, in order. Inserting at an existing interval adds a value after those already there, removal drops all values of that interval and of no other, merging adds the other map's values after this one's, and the tree's height stays that of a balanced tree.",
  ["histories", "inputs"], "every sequence of map operations, every set of intervals and every query interval",
  "The unit tests run a handful of fixed insertion orders; the property ranges over all histories, because rebalancing and the cached maxima only go wrong for particular shapes.",
  ["crates/interval-tree/src/lib.rs", "crates/interval-tree/src/node.rs", "crates/interval-tree/src/tree.rs", "crates/interval-tree/src/iterators.rs"],
  [("rotation and cached maximum upkeep", "crates/interval-tree/src/node.rs"), ("range iteration with subtree pruning", "crates/interval-tree/src/iterators.rs")],
  "explicit-state exploration of operation sequences on the real tree against an ordered-list model",
  "Exhaustive over all operation sequences and all insertion orders within the printed bounds; every query is asked in every reached state. Larger trees are assumed to add no new rotation case.",
  ["IntervalTree methods"], [("subtree maximum", "largest end point below a node; prunes queries", "node.rs")])

P("P02", "dm", "Source text is split into the right tokens at the right locations",
  "For every source text, the lexer yields exactly the tokens of the language's lexical grammar: longest-match punctuation, identifiers with their trailing-space flag, decimal, hexadecimal, octal-style, floating and special numeric literals, plain, raw, multi-line and interpolated strings with their escapes, resources, nested block comments, line continuations and doc comments. Every token carries the line and column where it starts, malformed input yields a diagnostic instead of a crash, and lexing always reaches the end of the input.",
  ["inputs"], "every byte string up to the bound, over alphabets that reach every lexer state",
  "The tests lex a few snippets; interactions such as a quote inside an interpolation inside a comment are a product of states that only enumeration reaches.",
  [DM + "lexer.rs", DM + "docs.rs"],
  [("tokenizer", DM + "lexer.rs"), ("string and interpolation stack", DM + "lexer.rs read_string"), ("location tracker", DM + "lexer.rs LocationTracker")],
  "exhaustive bounded input enumeration of the real lexer against a reference scanner",
  "Every string up to the printed lengths over several alphabets is compared token by token, with locations and diagnostics, against an independently written scanner.",
  ["Lexer iterator, Context errors"])

P("P03", "dm", "Indentation and braces describe the same block structure",
  "Indentation-based source yields one block opening per deeper level and one closing per level left, blocks always balance, and statement separators fall exactly between logical lines. Blank lines, comments and lines inside parentheses or brackets never change the structure, explicit braces and semicolons yield the structure they spell, and inconsistent indentation is diagnosed without losing tokens.",
  ["inputs", "programs"], "every forest of nested lines up to the bound, in every spelling (tabs, spaces, braces), and every raw indentation sequence",
  "The tests check a few hand-written files; block structure depends on the whole history of indentation, so each combination of levels, blank lines and open brackets is a separate case.",
  [DM + "indents.rs"], [("indentation stack", DM + "indents.rs IndentProcessor"), ("parenthesis depth", DM + "indents.rs")],
  "exhaustive enumeration of line structures on the real indent processor against a reference block builder",
  "All forests and all raw indentation sequences up to the printed sizes; the reference works on columns only and shares no code with the implementation.",
  ["IndentProcessor token stream"])

P("P04", "dm", "Conditional compilation keeps exactly the active branches",
  "For every nesting of #if, #ifdef, #ifndef, #elif, #else and #endif, exactly the tokens of the first branch whose condition holds survive, definitions made in inactive branches have no effect, and the recorded inactive regions cover exactly the skipped text. Conditions evaluate integer arithmetic, comparison and logical operators, macros and defined() as documented, and unbalanced directives are diagnosed.",
  ["programs"], "every directive skeleton up to the bound with every condition from the catalogue, and every condition expression up to the bound",
  "The tests cover single conditionals; correctness is over all nestings and all ways a definition inside one branch affects a later condition.",
  [DM + "preprocessor.rs"], [("conditional stack", DM + "preprocessor.rs Ifdef"), ("condition evaluation", DM + "preprocessor.rs evaluate, parser.rs, constants.rs")],
  "exhaustive enumeration of directive programs on the real preprocessor against a reference interpreter",
  "Every directive sequence up to the printed length; the reference evaluates conditions itself.",
  ["Preprocessor token stream, ifdef history, Context errors"])

P("P05", "dm", "Macros expand by rescanning, with exact arguments, pasting and history",
  "For every sequence of definitions, removals and uses, the preprocessor's output is the token sequence obtained by substituting parameters (by position, variadic tail included), stringifying with #, pasting with ##, and rescanning the result; removing a definition restores the previous one. A function-like name without an argument list is an ordinary identifier, wrong argument counts and unbounded recursion are diagnosed, and every produced token is located at the use site. The definition history lists each definition over exactly the region in which it is in force.",
  ["programs", "histories"], "every macro body, use and define/undef history up to the bounds",
  "The tests expand a few fixed macros; expansion is a rewriting system, whose errors appear for particular combinations of body, argument and rescanning context.",
  [DM + "preprocessor.rs"], [("expansion stack", DM + "preprocessor.rs IncludeStack"), ("argument substitution, pasting, stringification", DM + "preprocessor.rs real_next"), ("definition history", DM + "preprocessor.rs DefineMap, DefineHistory")],
  "exhaustive enumeration of macro programs on the real preprocessor against a reference rescanning expander",
  "Exhaustive within the printed bounds. Excluded, and said so in the evidence: macros with exponential self-expansion, and # or ## in object-like bodies.",
  ["Preprocessor token stream, DefineHistory, Context errors"])

P("P06", "dm", "Includes bring every file in once, in order, from the right place",
  "For every graph of include directives, an included file's text appears exactly at the directive, once per file however often it is included (unless it is marked as includable several times), and definitions and conditionals flow through files in that order. A path is looked for relative to the including file's folder and to the environment, icons, maps, scripts and skins are recorded instead of read, a missing file is diagnosed at the directive and processing goes on, and every token keeps the file and line it came from.",
  ["programs", "histories"], "every choice of directives up to the bound in an environment and the files it reaches, and every sequence of include paths from the catalogue",
  "The tests include nothing; whether a file is skipped, repeated or resolved depends on everything included before it, which only enumeration of graphs covers.",
  [DM + "preprocessor.rs", DM + "lib.rs"], [("include stack and include-once set", DM + "preprocessor.rs IncludeStack, include_locations"), ("path search", DM + "preprocessor.rs"), ("file table", DM + "lib.rs FileList")],
  "exhaustive enumeration of include graphs on real files, run through the real preprocessor and a reference interpreter",
  "All graphs over the directive catalogue within the printed bounds, on real files in memory-backed scratch folders. Two known findings about aliases of one path are listed by exact history.",
  ["Preprocessor token stream with locations, Context errors, recorded maps, scripts and skins"])

P("P07", "dm", "Expressions parse with the language's precedence and grouping",
  "For every expression, the parsed tree is the one given by the language's operator table: binary operators group by precedence and to the left (assignment and exponent as documented), the conditional operator and `in` bind at their own levels, unary operators bind tighter than binary ones, and member access, indexing, calls and postfix operators apply in written order to their operand. Parentheses override grouping and leave no other trace, and every kind of literal, list, new, input, pick, locate, prefab and interpolated string yields its own term with its operands intact.",
  ["inputs", "programs"], "every chain of operators up to the bound over decorated operands, every term form with every suffix chain, and every fully parenthesised tree",
  "The tests parse a few expressions; precedence bugs show only for a particular pair or triple of operators around particular operands.",
  [DM + "parser.rs", DM + "ast.rs"], [("operator table and precedence climbing", DM + "parser.rs BINARY_OPS, expression_part"), ("terms and follows", DM + "parser.rs term, follow")],
  "exhaustive enumeration of token-level expressions on the real parser against a tree built by a reference operator-precedence grammar",
  "All operator chains and term combinations within the printed bounds, rendered to S-expressions and compared.",
  ["parse_expression result"])

P("P24", "dm", "Procedure bodies parse to the statements they spell, in every block style",
  "For every procedure body, the statement tree holds exactly the statements written, in order, with each block's contents, conditions, loop variables, ranges, filters, cases, labels and settings. Indented, braced, braced on one line and single-statement forms of the same body give the same tree, an else, catch or while belongs to the statement it follows, and valid code of any nesting is accepted without a diagnostic.",
  ["programs"], "every sequence, nesting and adjacency up to the bound of every statement form, in every combination of block styles",
  "The tests parse a few bodies in one style; the separators synthesised by the indentation pass interact with every statement form differently.",
  [DM + "parser.rs", DM + "indents.rs", DM + "ast.rs"], [("statement grammar", DM + "parser.rs statement, block, for_range"), ("phantom semicolons", DM + "parser.rs skip_phantom_semicolons")],
  "exhaustive enumeration of statement trees, rendered in every block style, on the real parser against the tree they were rendered from",
  "All nestings three deep of all 47 block forms in all combinations of 4 styles, and all sequences of up to three simple statements.",
  ["Proc code of the object tree"])

P("P08", "dm", "Constant expressions fold to the value the language computes",
  "Every constant expression evaluates to the value of the language's own arithmetic: 32-bit floating-point numbers, comparisons yielding 1 or 0, && and || yielding the deciding operand, 24-bit bitwise operators, string concatenation, remainders, powers, angles in degrees, and a conditional that evaluates only the arm it chooses. rgb() gives the hexadecimal colour of its components, positional or named in any order, in each colour space, with alpha, and diagnoses components out of range or missing. An expression that is not constant is diagnosed, never folded to something else, and never crashes.",
  ["inputs"], "every expression tree up to the bound over a catalogue of values of every kind, and every rgb() argument list up to the bound",
  "The tests fold a few rgb() calls; an operator mistake shows only for particular operand kinds, signs or nestings.",
  [DM + "constants.rs"], [("constant folder", DM + "constants.rs ConstantFolder"), ("rgb", DM + "constants.rs rgb")],
  "exhaustive enumeration of expression trees and argument lists on the real folder against a reference evaluator",
  "All trees of up to two operators over 18 values and 21 operators, three operators over five values, all rgb argument lists to the printed length. Bitwise operators on negative or fractional numbers are not compared.",
  ["evaluate_str result"])

P("P09", "dm", "Constant variables evaluate the same in any declaration order",
  "For every web of variables whose initial values refer to each other, through inheritance, overrides, globals, type-scoped references or a global instance, each variable gets the value obtained by evaluating its references first, whatever the order of declaration. Exactly the variables that lie on or lead to a cycle are diagnosed as circular, exactly those that need something non-constant or undefined are diagnosed as such, at their own location, and all others keep their values.",
  ["programs", "schedules"], "every choice of expressions for every variable of the web, in every (or several) declaration orders",
  "The tests evaluate no such web; evaluation is lazy and recursive, so its result could depend on which variable is met first.",
  [DM + "constants.rs", DM + "objtree.rs"], [("lazy evaluation with in-progress marks", DM + "constants.rs constant_ident_lookup"), ("evaluation driver", DM + "constants.rs evaluate_all")],
  "exhaustive enumeration of reference graphs and declaration orders on the real evaluator against a memoised reference evaluation",
  "Two webs (4 and 6 variables) over catalogues of 10 and 13 expressions, all assignments, 24 and 4 orders.",
  ["constant and diagnostics of each variable"])

P("P15", "dm", "The object tree resolves every member through the inheritance chain",
  "After any sequence of declarations in any spelling (absolute, indented, braced), every type mentioned exists once, its ancestors are those given by parent_type or else its path, and each variable or procedure resolves to the nearest definition, the last one written winning within a type, with parent calls going to the next one outward. Descendants, overrides, subtype tests and relative paths agree with that hierarchy, and bad or circular parents, duplicate or misplaced definitions and assignments to undeclared variables are diagnosed at their line.",
  ["histories", "programs"], "every sequence of declarations up to the bound from a catalogue of types, variables, overrides, parents and procedures, in four spellings",
  "The tests build two small trees; member resolution depends on the interplay of every declaration with every other, including later ones.",
  [DM + "objtree.rs", DM + "parser.rs"], [("tree builder", DM + "objtree.rs ObjectTreeBuilder"), ("parent assignment", DM + "objtree.rs assign_parent_types"), ("lookups", DM + "objtree.rs TypeRef, ProcRef")],
  "explicit-state exploration of declaration histories on the real parser and tree against a reference class hierarchy",
  "All histories up to the printed length over 20 declarations; every query is asked of every type in every reached tree.",
  ["TypeRef and ProcRef queries, Context errors"])

P("P11", "map", "Map files survive loading and saving, in every layout",
  "Loading a map, saving it and loading the result gives the same size, the same key at every coordinate, and for every key the same objects in order with the same edited variables and values, to the six digits a map file holds. Rows on one line, columns, either line ending and comments all load to the same map, and coordinates count from 1 at the bottom left. A damaged file (cut short in a block, unknown or overlong keys, missing or repeated tiles, malformed coordinates) is reported as an error, never a crash and never a map with tiles missing.",
  ["inputs"], "every map of a few tiles over three keys, every dictionary key, every list of edited variables over 46 values, every text over the structural characters, every one-byte damage and truncation",
  "The tests load whole maps only when an external codebase is configured; a mistake shows for particular values, keys, shapes or damage.",
  ["crates/dmm-tools/src/dmm.rs", "crates/dmm-tools/src/dmm/read.rs", "crates/dmm-tools/src/dmm/save_tgm.rs", DM + "lexer.rs"], [("map reader", "crates/dmm-tools/src/dmm/read.rs parse_map"), ("map writer", "crates/dmm-tools/src/dmm/save_tgm.rs save_tgm"), ("keys and coordinates", "crates/dmm-tools/src/dmm.rs")],
  "exhaustive enumeration of maps, values, keys and damaged files on the real reader and writer against a reference map rendered in every layout",
  "All grids of up to eight tiles, all 65535 keys, all variable lists to the printed length, all texts of up to five characters over 15, all single-byte damages of four maps, all token sequences up to the bound. Values containing braces outside text are not generated.",
  ["loaded Map, saved text"])

P("P12", "map", "Icon sheets: every state, direction and frame is located and rendered right",
  "For every icon sheet, the metadata gives each state its written name, directions, frames, delays, loop, rewind and movement settings; repeated names are told apart by number, and a state's sprites follow those of the states before it, row by row, in the order south, north, east, west, southeast, southwest, northeast, northwest within each frame. Rendering a state gives exactly those pixels, as one strip per frame in playback order, as a still or an animation according to its frames and delays. Malformed metadata, or sprites beyond the sheet, are errors and never a crash, and rotating, flipping or splitting directions agrees with their geometry.",
  ["inputs"], "every list of up to three states over all directions, timings and flags, every sheet width, every order of attribute lines, every list of metadata lines, every one-byte damage",
  "The tests parse three small metadata texts; offsets depend on every earlier state, and a mistake shows for one combination of directions, frames and sheet width.",
  [DM + "dmi.rs", "crates/dmm-tools/src/dmi.rs", "crates/dmm-tools/src/dmi/render.rs"], [("metadata parser", DM + "dmi.rs parse_metadata"), ("sprite index", DM + "dmi.rs index_of_frame, rect_of"), ("renderer", "crates/dmm-tools/src/dmi/render.rs")],
  "exhaustive enumeration of sheets, generated as PNG files, on the real parser and renderer against a reference layout",
  "All lists of states within the printed bounds; animations are decoded again with the gif crate and compared frame by frame.",
  ["Metadata, rect_of, rendered images, PNG and GIF bytes"])

P("P13", "map", "Pixels blend by the over operator and images survive saving",
  "Drawing one image onto another changes only the target rectangle, and each pixel becomes source over destination with straight alpha: alpha adds up, colours are weighted by their share, an opaque source replaces, a clear source leaves the destination, and a tint multiplies each channel first. Saving an image as PNG and loading it gives the same pixels.",
  ["inputs"], "every pair of alphas with every pair of channel values, every tint of every channel, every placement and crop on small images",
  "The tests draw nothing; rounding or overflow in blending shows only for particular alphas and values.",
  ["crates/dmm-tools/src/dmi.rs"], [("composite", "crates/dmm-tools/src/dmi.rs composite"), ("PNG encoder", "crates/dmm-tools/src/dmi.rs to_write")],
  "exhaustive enumeration of all pixel pairs on the real compositor against exact arithmetic",
  "All 2^32 combinations of source and destination value and alpha, within one unit of the exact result.",
  ["Image pixels"])

P("P14", "map", "Minimaps show every object at its place, in depth order, in its colour",
  "Rendering any rectangle of a map gives an image of exactly that rectangle, equal to the same part of the whole map's image but for sprites reaching in from tiles outside it. Each object is drawn once with the icon, state, direction, pixel offset, colour and alpha given by its edited variables or else its type, bottom-left aligned to its tile, clipped at the edges, and stacked by plane, then layer, then map order. An icon or state that does not exist is left out and reported, and never prevents or moves the rest.",
  ["inputs", "programs"], "every scene up to the bound over objects of several planes, layers, sizes, offsets, directions, colours and alphas; every sub-rectangle; every float layer to 16 bits",
  "No test renders; depth order, clipping and inheritance interact per pixel.",
  ["crates/dmm-tools/src/minimap.rs", "crates/dmm-tools/src/icon_cache.rs"], [("scene and sorting", "crates/dmm-tools/src/minimap.rs generate"), ("clipping", "crates/dmm-tools/src/minimap.rs clip"), ("layers", "crates/dmm-tools/src/minimap.rs Layer")],
  "exhaustive enumeration of scenes on the real renderer against a reference painter",
  "All scenes within the printed bounds, compared pixel by pixel, allowing for 8-bit rounding of intermediate results.",
  ["generated Image"])

P("P10", "dm", "Numbers and constants print as the language prints them, and read back the same",
  "Every 32-bit number prints with the six significant digits nearest to it, without trailing zeros, in plain form or else with an exponent of at least three digits from a million up and below a ten-thousandth, and infinities and NaN in their own spelling. A decimal number is read as the 32-bit number nearest to it, and a whole number beyond the integer range raises a precision warning exactly when that number differs from it. Every constant (text in any quotes, raw text, resources, paths with edited variables, lists, calls) prints as source that evaluates to the same constant.",
  ["inputs"], "every sign and exponent with 8192 mantissas (thorough: all 2^32 numbers), every decimal of four digits at every exponent, integers around every power of two, every text of up to three pieces and raw text of up to five, every pair of constants in every container",
  "The tests print a dozen numbers; rounding and exponent mistakes show at particular magnitudes.",
  [DM + "lexer.rs", DM + "constants.rs"], [("number printing", DM + "lexer.rs FormatFloat"), ("quoting", DM + "lexer.rs Quote, QuoteResource"), ("number reading", DM + "lexer.rs read_number"), ("constant printing", DM + "constants.rs Display for Constant")],
  "exhaustive enumeration of numbers and constants through the real printer and reader against exact integer arithmetic",
  "All numbers and texts within the printed bounds; a number exactly halfway between two of six digits may print as either.",
  ["printed text, tokens, evaluated constants"])

P("P22", "cli", "The configuration decides which diagnostics appear, and at what severity",
  "Every diagnostic named in the configuration documentation takes exactly the severity given to its option in any of the documented spellings, vanishes when it is disabled, and keeps its default when the option is unset or absent; no option touches any other diagnostic. The error level then removes exactly the diagnostics below it, the code standards report exactly the relatively pathed definitions, and a file that is no configuration is reported once, as an error, and changes nothing else. The checker command prints exactly the diagnostics of severity info or above, counts them, fails if there are any, and finds the configuration beside the environment unless given another.",
  ["inputs", "programs"], "every option at every spelling under every error level, every two options at every two levels, all options at rotated levels, every beginning of a file, every pair of relative or absolute definitions, every kind of diagnostic through the command",
  "No test reads a configuration; an option that has no effect, or affects another, shows for that option alone.",
  [DM + "config.rs", DM + "error.rs", "crates/dreamchecker/src/main.rs", "CONFIGURING.md"], [("severity and threshold", DM + "config.rs set_configured_severity, registerable_error"), ("registration", DM + "error.rs register_error"), ("options", "each with_errortype call"), ("command", "crates/dreamchecker/src/main.rs")],
  "exhaustive enumeration of configurations over a program raising every documented diagnostic, on the real pipeline and command, against the documented mapping",
  "Every option alone, in pairs and all together; 49 pieces of code cover every place that raises a configurable diagnostic. Default severities are taken from the run without configuration. An unquoted false is left open.",
  ["Context errors, exit status, printed report"])

P("P30", "cli", "The map tool compares, describes and renders exactly what it is asked",
  "Comparing two maps lists exactly the coordinates, from 1 at the bottom left, at which their tiles differ within their common extent, whatever their layout and keys, and says whether their sizes differ; describing a map gives its size, key length and number of keys. Rendering writes, for every requested level and region (bounds inclusive and clamped to the map, missing ones taken from it), a picture of exactly that region, with any number of jobs; a map that cannot be loaded is reported in the exit status and does not stop the others. Batch rendering names one file for each requested region in order, each holding that region's picture, and the options to enable and disable passes and the configuration decide which passes run in that order.",
  ["inputs", "histories"], "every pair of 2x2 maps over five contents, every pair of sizes up to 3x3x2 with every single differing tile, every pair of corners inside and outside a map, every list of up to three files, chunks or entries, every pair of pass lists",
  "No test runs the command.",
  ["crates/dmm-tools-cli/src/main.rs", "crates/dmm-tools/src/minimap.rs", "crates/dmm-tools/src/icon_cache.rs"], [("comparison", "crates/dmm-tools-cli/src/main.rs DiffMaps"), ("regions", "crates/dmm-tools-cli/src/main.rs Minimap"), ("batches", "crates/dmm-tools-cli/src/main.rs render_many")],
  "exhaustive enumeration of command lines and requests on the real command against a reference painter and comparison",
  "All within the printed bounds, each run a process of the real command. A far corner given without a level, requests for levels or regions that do not exist, and maps of one name in different folders given to minimap are left open.",
  ["standard output, exit status, written PNG files"])

P("P20", "dm", "A documentation comment documents exactly the declaration it belongs to",
  "A documentation comment of the outer kind (before an item on its own line or earlier on its line) documents that item, wherever the item is a type, variable, proc, parameterless or parametrised macro, or a declaration in a block; one of the inner kind documents what it follows on the line, or the block or file it begins. Its text is what was written between the markers, line by line and without their own asterisks and common indentation; several line comments in a row are one paragraph, and comments of different kinds are separate ones, in the order they stand. Ordinary comments document nothing, and documentation never changes what is declared.",
  ["programs", "inputs"], "every placement of every kind of comment at every place around declarations in two (thorough: three) positions at once, every block comment of up to the length over markers, text, line ends and indentation, every sequence of kinds of comment",
  "A dozen tests look at single comments; which item a comment belongs to depends on everything around it.",
  [DM + "docs.rs", DM + "parser.rs", DM + "preprocessor.rs", DM + "lexer.rs"], [("text and merging", DM + "docs.rs DocComment, DocCollection"), ("holding comments back", DM + "preprocessor.rs docs_in, docs_out"), ("attachment", DM + "parser.rs doc_comment, block_doc_comments"), ("reading", DM + "lexer.rs comments")],
  "exhaustive enumeration of programs with comments placed in them, through the real preprocessor and parser, against the owner known by construction",
  "All within the printed bounds. Left open: a comment on its own line at another indentation than its neighbours, inner comments later in a block, an outer comment at the end of a line followed by an inner one.",
  ["documentation of every declaration, the declarations themselves"])

RP = "crates/dmm-tools/src/render_passes/"

P("P26", "map", "Render passes: which run, and what each hides, replaces, layers and adds",
  "A pass runs if the include list names it; failing that, not if the exclude list does; failing that, `all` in the include list, `all` in the exclude list, the configuration and its default decide in that order, and the chosen passes run in their listed order. Hiding passes drop exactly the objects they are for, with subtypes (space, areas, configured types, invisible objects and helpers, everything but cables or pipes), spawners become exactly the existing types of their list, and each object takes the depth configured for the longest matching type, else the game's. Objects with parts that depend on their variables (crates, closets, computers, airlocks, power controllers, dispensers, transit tubes, gravity generators) show exactly the parts for those values, and a type missing from the codebase never crashes the renderer.",
  ["inputs"], "every mention of any two passes in both lists and the configuration; every object of the catalogue under every short configuration; every combination of the variables of each object",
  "No test runs a render pass; precedence and combinations of variables show mistakes one combination at a time.",
  [RP + "mod.rs", RP + "structures.rs", RP + "transit_tube.rs", RP + "random.rs"], [("selection", RP + "mod.rs configure_list"), ("passes", RP + "mod.rs RenderPass implementations")],
  "exhaustive enumeration of selections, configurations and object states through the real renderer with a recording pass, against reference tables",
  "All combinations in the printed numbers. Passes are recognised by what they do to probe objects. Random choices are compared only where chance cannot change the outcome.",
  ["sprites reaching the renderer, with state, offset, plane, layer, colour"])

P("P27", "map", "Smoothed objects and cables join to exactly the neighbours they match",
  "A smoothed object joins a neighbouring tile if something there matches: one of the groups (or, in the 2016 system, types, and with the wider setting their subtypes) it may smooth with, else its own type; off the map or an empty tile counts only with the border setting, corners count only between two joined sides, and unanchored objects join nothing. It is drawn as four corner pieces, a diagonal pair, or the one picture numbered by the joined directions, with the diagonal form only when it joins exactly two sides at a right angle, over the open floor on its far side (or plating, or space if fixed so), in all three smoothing systems. A cable is drawn with exactly the directions in which a cable of its layer lies, save between storage and terminal, with a node when it meets a machine or bridge at a bend or crossing.",
  ["inputs"], "every choice of neighbours on all eight sides, every setting of every kind of source at every position of every map up to 3x3, every pair of stacked sources, every cable crossing",
  "No test runs a render pass; joining depends on all eight neighbours at once.",
  [RP + "icon_smoothing.rs", RP + "icon_smoothing_2020.rs", RP + "icon_smoothing_2025.rs", RP + "smart_cables.rs", "crates/dmm-tools/src/minimap.rs"], [("adjacency", RP + "icon_smoothing_2020.rs calculate_adjacencies"), ("neighbourhood", "crates/dmm-tools/src/minimap.rs Neighborhood"), ("cables", RP + "smart_cables.rs")],
  "exhaustive enumeration of neighbourhoods through the real renderer with a recording pass, against a reference written on sets of directions",
  "All 4^8 neighbourhoods of 16 sources per system; 9 M cases. The single-ended diagonal picture of closed turfs is left open.",
  ["sprites reaching the renderer"])

DC = "crates/dreamchecker/src/"

P("P16", "checker", "A proc that must not sleep is reported exactly when it can block",
  "The checker reports a proc set (or inheriting) SHOULD_NOT_SLEEP exactly once for each proc it can reach that blocks: one that calls sleep, input, alert, shell, winget and the like, in any statement, argument or expression. Calls are followed as they are dispatched on the receiver, so to inherited procs, overrides in subtypes, parent calls, constructors and typed variables, but not into spawn, procs with waitfor off, or procs set ALLOWED_TO_SLEEP, and not past a proc that blocks itself. What one restricted proc calls never hides or adds reports about another, in whatever order they are declared.",
  ["programs"], "every place a call can stand in; every blocking built-in; every family of types with declarations, overrides and settings; every call graph of up to four procs; every receiver and override",
  "The tests check a dozen programs; visited sets shared between procs, override resolution and settings interact.",
  [DC + "lib.rs"], [("call tree", DC + "lib.rs check_proc_call_tree"), ("violating procs", DC + "lib.rs ViolatingProcs, ViolatingOverrides")],
  "exhaustive enumeration of programs through the real checker against a reference call-graph exploration",
  "All programs of the printed bounds. A report is required when the concrete dispatch blocks and allowed when each call by itself can.",
  ["checker diagnostics"])

P("P33", "checker", "A proc declared pure is reported exactly when it has side effects",
  "The checker reports a proc set (or inheriting) SHOULD_BE_PURE for every impure thing it does itself, and for every impure proc it runs through calls: changing a variable, field or element that outlives the call, or performing output, input or another effect on the world, in any statement or expression. Changing its own locals or what it created itself is not reported, and impure overrides within the proc's own type and subtypes are. Throwing away the result of calling a pure proc is warned about, and only then.",
  ["programs"], "every operation on every kind of target in every place, every call graph and family of types with settings",
  "The tests check a few programs; an effect may hide in any construct or behind any chain of calls.",
  [DC + "lib.rs"], [("purity of operations", DC + "lib.rs AnalyzeProc"), ("call tree", DC + "lib.rs check_proc_call_tree")],
  "exhaustive enumeration of programs through the real checker against a reference effect analysis",
  "All programs of the printed bounds. Locals initialised from outside values, overrides reached through typed variables and reassigned parameters are left open.",
  ["checker diagnostics"])

P("P18", "checker", "Code called unreachable never runs, and what plainly never runs is reported",
  "Whatever the nesting of conditionals, switches, loops, spawn and try blocks, and wherever return, CRASH, break, continue (with or without a label) and goto stand, code the checker reports as unreachable, loop conditions as never reached and range loops as never run really are so in every run. Reported once are the code after a return or CRASH, or after an if or switch whose every branch including else ends so, unless a jump or label comes before it; arms after one that is always true; and whole-number ranges running against their step. A condition said to be always true or false, or static, is, and one made of literals is said to be.",
  ["programs"], "every proc body up to the bound over every kind of statement, every condition up to the depth, every chain of arms, every range and step",
  "The tests check six bodies; jumps out of nested branches and loops interact, and one wrong merge shows only for particular nestings.",
  [DC + "lib.rs", DM + "ast.rs"], [("control flow merging", DC + "lib.rs ControlFlow, visit_block"), ("truth of expressions", DM + "ast.rs is_truthy, is_static, valid_for_range")],
  "exhaustive enumeration of proc bodies through the real checker against a textbook reachability analysis",
  "All bodies of the printed numbers of statements (thorough: up to seven over loops and branches); claims must be true, and plain cases must be claimed.",
  ["checker diagnostics"])

P("P17", "checker", "Rules a proc sets for its overrides are enforced, and settings checked",
  "Along every inheritance chain, an override is reported exactly when it breaks a rule set above it: not calling the parent where the nearest should-call-parent setting demands it (an override may turn that off), calling the parent directly above when that parent forbids it (unless turned off), overriding a final or private proc, or redefining a proc on its own type without leave. Settings are reported when they are unknown, have an invalid value, stand anywhere but at the top of a proc, are repeated, contradict or needlessly disable a rule, or sit on global procs where they have no effect.",
  ["programs"], "every assignment of the settings and bodies to chains and trees of types and redefinitions, every setting with every value and place",
  "The tests pin one two-level example per setting; what is inherited, turned off or overridden again depends on the whole chain.",
  [DC + "lib.rs"], [("proc settings", DC + "lib.rs gather_settings, ProcDirective"), ("override rules", DC + "lib.rs AnalyzeProc::run")],
  "exhaustive enumeration of annotated override chains through the real checker against a model of the documented rules",
  "All chains up to three levels, all trees of five types, every setting, value and place; whether the proc that sets should-call-parent must call its own parent is left open.",
  ["checker diagnostics"])

P("P34", "checker", "Private, protected and final members are guarded exactly",
  "A private proc may be called only in code of exactly the type that declares it and on exactly that type, and never overridden; a protected proc only in code of its declaring type and subtypes; private and protected variables used through an object follow the same rules. Every other use is reported once, none of the allowed ones is, and so is every override of a private or final variable and every variable declared again on a subtype, while the rest of the code is checked as usual.",
  ["programs"], "every pair of declaring and using type in a tree, every receiver and way of access, every list of declarations and overrides down a chain",
  "The tests pin a handful of accesses; the rules relate three types (declaring, using, receiver) that can stand in any relation.",
  [DC + "lib.rs"], [("member access", DC + "lib.rs visit_follow, visit_call"), ("variable definitions", DC + "lib.rs check_var_defs")],
  "exhaustive enumeration of member accesses and declarations over a type tree through the real checker",
  "Six types, every receiver form; a private variable named without an object in a subtype is left open.",
  ["checker diagnostics"])

P("P19", "checker", "Names and members are resolved exactly, and mistakes with them reported",
  "Each name in a proc body means the innermost local declared before it, else the object's own or inherited variable, else a global; each value has the static type its declaration, container's element type, implied type or return type annotation (a path, a parameter's path or type, or a choice of these) gives it. Names that mean nothing, members that objects of the static type lack, access to members of untyped values, implicit new without a type, ..() without a parent, and looping or indexing over what cannot be are reported once each, wherever they stand, and nothing else is. Negation before & | ^, and anything but a plain value on the left of `in`, is reported as ambiguous.",
  ["programs"], "every chain of accesses up to the depth from every kind of value, every operator, every mistake in every place of a proc, all nestings of declarations and uses in blocks, every return annotation with every argument",
  "The tests pin a few accesses; scoping, inheritance, list elements and annotations combine, and a place that is never visited hides every mistake in it.",
  [DC + "lib.rs", DC + "type_expr.rs"], [("expression analysis", DC + "lib.rs visit_expression, visit_term, visit_follow"), ("scopes", DC + "lib.rs visit_block, visit_var"), ("return types", DC + "type_expr.rs")],
  "exhaustive enumeration of expressions, scopes and annotations through the real checker against a reference resolver",
  "Chains up to three (thorough: four) accesses; a path kept in a local that is reassigned, and annotations not repeated on an override, are left open.",
  ["checker diagnostics"])

P("P31", "checker", "Keyword arguments reach parameters that exist, overrides included",
  "A keyword argument that is no parameter of the proc called, and a positional argument after a keyword one, is reported once (animate's is exempt); arguments of arglist() excuse nothing else. Every override a call could reach, on subtypes of the type called on, that lacks a keyword used in such calls is reported once, listing exactly the missing keywords; calls that always reach one proc, such as ..(), new and global procs, demand nothing of overrides. filter() is checked against its documented types, parameters and flags, and list.Find() without arguments is reported.",
  ["programs"], "every parameter list and argument list up to the bound, every family of overrides over nested types with every kind of call, every filter type with every parameter and flag",
  "The tests pin one bad keyword; which overrides a call can reach depends on receiver, inheritance and redefinition together.",
  [DC + "lib.rs"], [("call checking", DC + "lib.rs visit_call"), ("overrides lacking keywords", DC + "lib.rs check_kwargs, finish_check_kwargs"), ("filter()", DC + "lib.rs check_filter_flag")],
  "exhaustive enumeration of calls and override families through the real checker against a reference model",
  "Families of up to four types and the printed numbers of parameters and arguments.",
  ["checker diagnostics"])

P("P25", "checker", "Switches on rand() are checked against the numbers it can draw",
  "For switch(rand(L, H)) with constant whole bounds, a case that no number drawn can take is reported, and when there is no else, numbers drawn that no case takes are reported, naming one that really is left over. Nothing is reported for cases and numbers that can occur, nor about leftovers when a bound or any case is not a constant number, at any magnitude of the numbers.",
  ["programs"], "every range in a window with every list of cases and case ranges up to the depth, including non-constant ones and the ends of the integer range",
  "The tests pin six switches; overlaps, order, adjacency and extremes of the ranges interact.",
  [DC + "switch_rand_range.rs"], [("switch(rand())", DC + "switch_rand_range.rs check_switch_rand_range")],
  "exhaustive enumeration of switches through the real checker against direct counting of the numbers drawn",
  "Windows of small numbers and the ends of the 32-bit range; rand(H, L) with the bounds reversed and case labels taking no whole number are left open.",
  ["checker diagnostics"])

P("P21", "checker", "Any text is analysed to the end, alike every time, with mistakes contained",
  "Whatever the text of an environment (any sequence of tokens, any valid code cut short or with a token added, removed, exchanged or replaced, any length of line and depth of nesting), preprocessing, parsing, building of types, constant evaluation, checking and annotating it end without a crash, and every diagnostic lies within the text. Analysing the same text again gives the same diagnostics in the same order, and the same types, values, procs and annotations. A missing bracket is reported, and a mistake within the body of one proc with its brackets in balance neither hides what is reported elsewhere nor adds to it.",
  ["inputs", "programs"], "every sequence of tokens up to the length in every context (file, body, value, directives), every truncation of and every single edit to a valid program, every nesting to the depth",
  "The tests feed mostly valid code; an analyser meets half-written text at every keystroke, and order of reports may depend on hashing, which differs in every run.",
  [DM + "parser.rs", DM + "preprocessor.rs", DM + "indents.rs", DM + "lexer.rs", DM + "objtree.rs", DM + "constants.rs", DC + "lib.rs"], [("error recovery", DM + "parser.rs proc_params_and_body, describe_parse_error"), ("macro expansion at the end of input", DM + "preprocessor.rs real_next"), ("token groups", DM + "parser.rs read_any_tt, separated"), ("order of checks", DC + "lib.rs run_inner")],
  "exhaustive enumeration of token sequences and of edits of a valid program through the whole real pipeline, twice each",
  "All sequences of up to three (thorough: four) tokens over 44 to 66 tokens per context. Nesting is bounded by the stack of the analysing thread. A closing brace missing before a line indented less is taken to be closed by the indentation.",
  ["Context errors, object tree, annotations"])

LS = "crates/dm-langserver/src/"
P("P28", "lsp", "The language server answers for the text the editor holds",
  "After any sequence of opening, whole or ranged edits (UTF-16 positions, several per change), closing and reopening, every answer of the language server is the one for the text the editor then holds, or for the file on disk once closed, together with the environment as last parsed. Messages the protocol does not allow (edits of unopened documents, ranges that are reversed or outside the text's lines) are refused and change nothing. Every request gets exactly one answer carrying its id, an error before initialisation and after shutdown, and the exit code says whether shutdown came first.",
  ["histories", "inputs"], "every edit at every pair of positions of small texts, every pair of edits, every history of opening, editing, closing, saving and reparsing, every order of life-cycle messages",
  "There are no tests of the server; a text kept by deltas goes wrong only after a particular history of edits.",
  [LS + "document.rs", LS + "main.rs", LS + "jrpc_io.rs"], [("document store", LS + "document.rs DocumentStore"), ("position arithmetic", LS + "document.rs total_offset, line_number"), ("annotation cache", LS + "main.rs get_annotations"), ("life cycle", LS + "main.rs handle_request, InitStatus"), ("framing", LS + "jrpc_io.rs")],
  "exhaustive enumeration of message histories sent to the real server process, each answer compared with that of a reference editor buffer",
  "Small texts with one, two and three byte and surrogate pair characters; positions inside a surrogate pair, opening twice and changes on disk while closed are left open.",
  ["responses and published diagnostics of the server process"])
P("P29", "lsp", "Go to definition leads to what a name means where it stands",
  "In a workspace, go to definition on a name in code leads to exactly the line defining what it means there: the innermost local declared before it, a parameter of the very definition it stands in, the variable or proc of the receiver's static type or its nearest ancestor, the type a segment of a path ends, or the macro in force. A parent call leads to the definition before this one on the same type, else to the last one of the nearest ancestor that has any; names that mean nothing, keywords, and members of values without a known type lead nowhere. Go to type definition leads to the declared type.",
  ["programs"], "every placement of a variable and a proc over a family of types and the root with every receiver, every sequence of overrides over two files, every nesting of type paths with every use, every sequence of macro steps over nested files, every nesting of scopes",
  "There are no tests of the server, and which definition is meant depends on where every other one stands.",
  [LS + "main.rs", LS + "completion.rs", DM + "annotation.rs", DM + "parser.rs", DM + "preprocessor.rs"], [("GotoDefinition", LS + "main.rs GotoDefinition, GotoTypeDefinition"), ("receiver", LS + "main.rs find_scoped_type, find_unscoped_var, find_type_context"), ("path", LS + "completion.rs combine_tree_path"), ("annotations", DM + "annotation.rs get_location"), ("macro state", DM + "preprocessor.rs DefineHistory")],
  "exhaustive enumeration of small workspaces, each name of each queried from the real server process and compared with a reference resolver",
  "Left open: the column within the line, a loop variable after its loop, names inside macro arguments, members after an index or a call. A type declared in several places is taken to be defined by the shortest header, the first of those.",
  ["definition and type definition responses of the server process"])
P("P32", "lsp", "Find references lists every use of a declaration and nothing else",
  "Once the references of an environment are ready, find references on a type, variable or proc lists exactly the lines of the environment as last parsed that name that very declaration: in any place of any expression, statement, declaration or initial value, through any receiver of known static type, and not where a local hides it. Go to implementation lists exactly the lines that declare, override or give a value to it. Both answer the same wherever the symbol is asked for, and nothing until they are ready.",
  ["programs"], "every name in every expression form (nested) in every place of every statement, every declaration form with every type and value, every placement of a variable and a proc over a family of types with every receiver, every nesting of scopes, every sequence of overrides over two files",
  "There are no tests of the server, and a use is missed or misattributed only in the particular expression, receiver or scope it stands in.",
  [LS + "find_references.rs", LS + "background.rs", LS + "main.rs"], [("uses", LS + "find_references.rs WalkProc"), ("symbol asked for", LS + "main.rs symbol_id_at"), ("readiness", LS + "background.rs Background")],
  "exhaustive enumeration of small workspaces whose uses are known by construction, each symbol's references and implementations queried from the real server process",
  "By file and line. Left open: locals and parameters (not supported), a loop variable after its loop, types of catch parameters, operator procs, keyword arguments, paths' inner segments.",
  ["reference and implementation responses of the server process"])
P("P35", "lsp", "Symbols are searched, outlined and browsed as they are declared",
  "Searching the symbols of a workspace returns exactly the declared macros, types, variables and procs (not overrides or locals) whose name begins with the query, whatever its case or underscores, restricted by #, var/ or proc/ to macros, variables or procs, or, for any other query with a slash, the types whose path contains it; each once, at the line declaring it, with its kind and holder. The outline of a document lists every entry it writes (types with entries, declared and overridden variables and procs, macros), nested in exactly what holds it, with its kind and a range within its holder's. The object tree browser lists under each type exactly its own variables, all definitions of its procs, and its subtypes.",
  ["programs", "inputs"], "every query up to the length over the characters that matter, every way of mentioning a variable and a proc over a family of types, every program of nested declarations up to the number of steps",
  "There are no tests of the server; which symbol is found depends on every other declaration, and an outline goes wrong only for particular nestings and ends of blocks.",
  [LS + "symbol_search.rs", LS + "main.rs", LS + "extras.rs", DM + "annotation.rs"], [("queries", LS + "symbol_search.rs query"), ("search", LS + "main.rs WorkspaceSymbolRequest"), ("outline", LS + "main.rs DocumentSymbolRequest"), ("object tree", LS + "main.rs object_tree, extras.rs")],
  "exhaustive enumeration of queries and programs, answered by the real server process, against the declarations the program was made of",
  "Left open: whether types without entries appear in the outline, and on which side of a block's end a macro after its last entry lies. A block's symbol begins at its first entry or header.",
  ["symbol and object tree responses of the server process"])
P("P36", "lsp", "Completion offers exactly what may be written at the cursor",
  "With an environment parsed, completion after an object offers exactly the variables and procs of its static type and its ancestors, each once from the nearest type mentioning it; at the start of an expression those of the type around it, globals, macros, keywords, parameters, and the local variables declared before and in scope; in a path its subtypes, or the declared procs or verbs; in a type its subtypes and what may be overridden, ready to fill in. Always only names containing what was typed, whatever the case or underscores, with declaring type, value and documentation. Signature help shows the proc called by the innermost call around the cursor, and the parameter the cursor's argument goes to.",
  ["programs", "inputs"], "every placement of a variable and a proc over a family of types with every prefix in every context, every nesting of scopes with declarations, every nesting of calls with the cursor at every place of them",
  "There are no tests of the server, and half-written code at the cursor meets every combination of scope, receiver and inheritance.",
  [LS + "completion.rs", LS + "main.rs", DM + "parser.rs"], [("completion", LS + "completion.rs unscoped_completions, scoped_completions, tree_completions, path_completions"), ("context of the cursor", LS + "main.rs Completion, SignatureHelpRequest"), ("scopes", DM + "parser.rs LocalVarScope")],
  "exhaustive enumeration of programs and cursors, answered by the real server process, against a reference of scopes and inheritance",
  "Offers are compared for the program's own names. Left open: a loop variable after its loop. Parameters are those of the environment as last parsed.",
  ["completion and signature responses of the server process"])
P("P37", "lsp", "Folding, colours and links of a document are those its text has",
  "Every region start is folded with the end that closes it (innermost first), unmatched ones with nothing. Exactly the well-formed colours (quoted hexadecimal ones of 3, 4, 6 or 8 digits, and rgb calls of three or four numbers) are offered for editing, at their exact places in the text and with their values; rewriting one keeps its notation where that can express the new colour, and reads back as the colour chosen. Links are exactly the included files and the quoted resources that exist, each over its text and to the file meant.",
  ["inputs"], "every sequence of lines up to the length, every pair of colours and near-colours with every kind of separator, every change of every notation to a grid of colours",
  "There are no tests of the server; nesting, rounding and positions after characters of several bytes go wrong one combination at a time.",
  [LS + "main.rs", LS + "color.rs"], [("folding", LS + "main.rs FoldingRangeRequest"), ("colours", LS + "color.rs"), ("links", LS + "main.rs DocumentLinkRequest")],
  "exhaustive enumeration of documents, answered by the real server process, against the lines and colours they were made of",
  "Left open: rgb calls with numbers beyond 255 in the alpha, and names merely ending in rgb. The server is taken to be started in the environment's folder.",
  ["folding, colour and link responses of the server process"])
P("P38", "lsp", "Hovering shows the declaration and documentation of what is meant",
  "Hovering over a use of a variable or proc through any receiver of known type shows its declaration as it means there (its keywords, type, name, parameters, and value where constant) and its documentation; over a declaration or override itself, that mention followed by those it overrides along the ancestors, and never something of the same name elsewhere. Hovering over the use of a macro shows the documentation of the definition in force there. Names that mean nothing show nothing.",
  ["programs"], "every placement of a variable and a proc with any documentation over a family of types with every use, every sequence of definitions, removals and uses of a macro",
  "There are no tests of the server, and what is meant depends on every other declaration.",
  [LS + "main.rs", DM + "docs.rs", DM + "annotation.rs"], [("hover", LS + "main.rs HoverRequest, construct_var_hover, construct_proc_hover"), ("macro use", DM + "annotation.rs MacroUse")],
  "exhaustive enumeration of programs, each name hovered over in the real server process, against a reference resolver",
  "Where several mentions along the ancestors are documented, the text of any of them is accepted.",
  ["hover responses of the server process"])
P("P39", "cli", "The generated documentation has every documented item, once, linked right",
  "The pages made for an environment are exactly those of its documented types (with substance), modules and text files; each has exactly the documented variables, procs and macros of its item, with their declarations, parameters, inheritance and text, and the index lists every documented type and module with name and teaser. Every link on every page leads to a page and place that exist, a crosslink in a comment leads to what it names, and one that names nothing is complained about. The numbers reported are those of the items documented, and a dry run writes nothing and fails exactly if something was complained about.",
  ["programs", "inputs"], "every set of documented items of a program, every kind of comment on every pair of items, every crosslink text from every place, every set of text files beside the code with every choice of an index",
  "There are no tests of the documentation tool.",
  ["crates/dmdoc/src/main.rs", "crates/dmdoc/src/template.rs", "crates/dmdoc/src/markdown.rs"], [("collection", "crates/dmdoc/src/main.rs main2"), ("crosslinks", "crates/dmdoc/src/main.rs broken link callback"), ("pages", "crates/dmdoc/src/template.rs"), ("teasers and titles", "crates/dmdoc/src/markdown.rs")],
  "exhaustive enumeration of environments through the real documentation command, its pages read back and compared with a reference list of items",
  "All within the printed bounds. Left open: the order of items, the layout of pages, pages for modules whose comment is empty or that only have documented types.",
  ["written pages, standard output and error, exit status"])

DBG = [LS + "debugger/mod.rs", LS + "debugger/auxtools.rs", LS + "debugger/auxtools_types.rs", LS + "debugger/extools.rs", LS + "debugger/extools_types.rs", LS + "debugger/evaluate.rs", LS + "debugger/launched.rs", LS + "jrpc_io.rs"]
P("P40", "lsp", "The game stops exactly where breakpoints were last asked for",
  "After any sequence of requests for breakpoints on the lines of files and on procs, the game holds exactly the breakpoints that belong to the last request for each file and for the procs together: each at the first instruction of the line in the right definition of the proc that the line belongs to, with its condition. Every request is answered with one entry per breakpoint asked for, in the same order, which says whether it was taken and, where known, its line. Replacing or clearing one set never removes a breakpoint of another.",
  ["histories", "inputs"], "every sequence of breakpoint requests up to the bound against each kind of game, every line of every file, every spelling of every proc",
  "There are no tests of the debug adapter; what the game holds is the result of the whole history of requests.",
  DBG, [("line breakpoints", LS + "debugger/mod.rs SetBreakpoints"), ("function breakpoints", LS + "debugger/mod.rs SetFunctionBreakpoints"), ("sets kept per file", LS + "debugger/mod.rs saved_breakpoints")],
  "explicit-state exploration of request histories on the real adapter, with the harness as editor and as game, against a set model",
  "Every history within the printed bounds. Left open: a line and a function breakpoint that name the same proc in different spellings, and the conditions of several breakpoints at one instruction.",
  ["answers of the adapter, requests the game receives"], [("breakpoints held", "per file and for functions", LS + "debugger/mod.rs")])
P("P41", "lsp", "While debugging, the editor is shown exactly what the game reported",
  "Every thread, call stack frame, scope, variable, list element, expression result and runtime message is shown as the game reported it: frames in order, each under its proc's name and with the file and line of the right definition of the proc, every variable once and by a name of its own, values of lists and objects opened to their elements and fields. Procs without source in the environment lead to the game's own source, and the disassembly asked for a frame is that of its proc. What the game did not report is never shown.",
  ["inputs", "histories"], "every call stack, set of variables, list and object content within the bounds, reported by each kind of game, asked for in every way",
  "There are no tests of the debug adapter.",
  DBG, [("stack frames", LS + "debugger/mod.rs StackTrace"), ("scopes and variables", LS + "debugger/mod.rs Scopes, Variables"), ("references to lists and objects", LS + "debugger/extools_types.rs ValueText"), ("expressions", LS + "debugger/evaluate.rs")],
  "exhaustive enumeration of reported states, shown by the real adapter to the harness as editor, against a reference rendering",
  "All within the printed bounds. Left open: a thread whose reported call stack is empty.",
  ["answers of the adapter"])
P("P42", "lsp", "Each debugger request is answered once, and each stop announced once",
  "For every sequence of requests of the editor and messages of the game, each request is answered exactly once and in order, what it asks of the game reaches it exactly once, and everything the game says (stops with their reason and text, output, its end) is announced exactly once, in order and to the right thread, however the streams are cut into pieces. Refused requests and wrong or missing answers of the game fail that request alone, and the end of the game, however abrupt, is announced once and leaves the debugger answering.",
  ["histories", "inputs"], "every sequence of requests and messages up to the bound, every message around every answer, every wrong answer, every way and moment the game ends, every cut of the streams",
  "There are no tests of the debug adapter; an answer lost or doubled shows only in particular sequences.",
  DBG, [("request loop", LS + "debugger/mod.rs Debugger::handle_request"), ("messages of the game", LS + "debugger/auxtools.rs, extools.rs read_loop"), ("events and their numbers", LS + "debugger/mod.rs SequenceNumber")],
  "explicit-state exploration of request and message histories on the real adapter, with the harness as editor and as game",
  "Every history within the printed bounds. Left open: malformed messages of the editor, and games that never answer.",
  ["answers and events of the adapter, requests the game receives"])
P("P43", "lsp", "A game started for debugging is run, relayed, and ended as asked",
  "A game that the debugger starts gets exactly the arguments and environment asked for, in any combination with debugging turned off. What it writes is passed on whole and in order, its end is announced once with its exit status, and a game that cannot be started fails the request. Ending the session ends the game or leaves it running as the editor asked (a game started is ended, one attached to is not, where it did not say), and the session of a game that ended by itself can still be closed.",
  ["inputs", "histories"], "every way to start a game, every output and exit, every way and moment to end the session within the bounds",
  "There are no tests of the debug adapter.",
  DBG, [("child process", LS + "debugger/launched.rs Launched"), ("launch and disconnect", LS + "debugger/mod.rs Launch, Disconnect")],
  "exhaustive enumeration of launches and endings through the real adapter, with the game a script of the harness",
  "All within the printed bounds. The server under check runs as an unprivileged user, so that signals it sends reach nothing but its own games.",
  ["answers and events of the adapter, processes it starts"])

P("P44", "cli", "Each command works on the environment it is told, or the one there is",
  "Each command line tool works on exactly the environment file it is given, by a relative or whole path from any folder, or else on one in the folder it is run in: any other before the default-named one, which is used only when it is alone. The files and icons of that environment, and the configuration beside it, are taken from its own folder and not from the one the command runs in. Where there is no such environment, the command fails and makes nothing.",
  ["inputs", "histories"], "every set of up to three environments made in every order, with every placing of configurations, every tool in every folder, told each environment, a missing one or none",
  "No test runs a command; which file of a folder is listed first differs between machines.",
  [DM + "lib.rs", "crates/dreamchecker/src/main.rs", "crates/dmdoc/src/main.rs", "crates/dmm-tools-cli/src/main.rs", DM + "error.rs"], [("search", DM + "lib.rs detect_environment"), ("configuration", DM + "error.rs autodetect_config"), ("icons", "crates/dmm-tools-cli/src/main.rs set_icons_root")],
  "exhaustive enumeration of folders, orders of making and command lines on the real commands, each environment telling itself apart by what comes out",
  "All within the printed bounds. Which of several environments, none the default, is found is left open; the documentation generator is run only in its project's folder, as its documentation asks.",
  ["exit status, printed report, written pages and pictures"])

P("P23", "sched", "Threads never change what the server and the renderer answer",
  "Under every interleaving of the server's threads, the diagnostics, object tree, status and references a client has in the end are those of the latest parse and not of an overtaken one, every request is answered once and whole, and the server stops with the right status when it is told to or its input ends. Rendering maps with several threads writes the same pictures, reports and complaints and ends with the same status as with one thread. Nothing deadlocks or goes on for ever.",
  ["schedules"], "every schedule with one departure (deeper suites: two) from the usual order at every lock, channel, atomic, stream and file operation, for every pair (and triple) of versions of an environment, every way of leaving, every list of maps and of batch requests",
  "Tests run one schedule, and none starts the server; a race shows in a handful of thousands of schedules.",
  [LS + "background.rs", LS + "main.rs", LS + "io.rs", "crates/dmm-tools-cli/src/main.rs", "crates/dmm-tools/src/icon_cache.rs"], [("background threads", LS + "background.rs, main.rs"), ("streams", LS + "io.rs"), ("parallel rendering", "crates/dmm-tools-cli/src/main.rs Minimap, render_many"), ("shared icons", "crates/dmm-tools/src/icon_cache.rs")],
  "stateless exploration of all thread schedules up to a preemption bound of the real programs, built on a standard library whose threads, locks, channels and streams follow the explorer's schedule",
  "All schedules within the printed bounds, each a run of the real program; sequentially consistent memory.",
  ["messages sent to the client, exit status, standard output and error, written PNG files"])


#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script only so that the lines stay well-formed)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, "state": state or [], "mechanism": mech,
                  "observe_at": observe or [], "hook_needed": hook}})
def m(name, where): return {"name": name, "where": where}
def s(name, meaning, where): return {"name": name, "meaning": meaning, "where": where}

prop("C01", "Symbol names and codes are a stable one-to-one mapping",
 "Asking for the code of a symbol name always gives the same code for the same name (ignoring leading and trailing whitespace, otherwise exactly, including case) and different codes for different names, whatever was asked before. Looking up the name of a code that was handed out gives back exactly the trimmed name; a code that was never handed out has no name and cannot be converted to a symbol; a blank name is always rejected. Two symbols are equal, and hash equally, exactly when their names are equal, through every way of building a symbol from text.",
 ["inputs", "histories"], "every history of code and name lookups over names of any length and any Unicode content",
 "Tests look at five short ASCII names in one order; the register is process-global state whose answers depend on every earlier call.",
 ["src/symbols.rs", "src/parser/token.rs"],
 [m("code register and name register", "src/symbols.rs get_code/get_name"), m("trim before lookup", "src/symbols.rs get_code")],
 [s("CODE_REGISTER / NAME_REGISTER / SYMBOL_ID", "name->code, code->name, next code", "src/symbols.rs")],
 ["symbols::get_code", "symbols::get_name", "Symbol::build/from_str/try_from/name/eq/hash"])

prop("C02", "Concurrent symbol interning is atomic: one code per name, named at once",
 "When several threads intern and look up symbol names at the same time, all threads get the same code for the same name and different codes for different names. As soon as any call has returned a code, every thread that looks up that code gets its name. No interleaving makes such a call panic, deadlock or return a wrong name.",
 ["schedules"], "all interleavings of 2-3 threads interning/looking up overlapping and distinct names, including the very first use of the registers",
 "The suite has one two-thread smoke test on the OS scheduler and is run single threaded because of a race it cannot show reliably.",
 ["src/symbols.rs"],
 [m("write lock around check-and-insert", "src/symbols.rs get_code"), m("lazy global registers", "src/symbols.rs get_code_register/get_name_register")],
 [s("CODE_REGISTER / NAME_REGISTER / SYMBOL_ID", "shared registers", "src/symbols.rs")],
 ["symbols::get_code", "symbols::get_name", "Symbol::build", "Symbol::name"])

prop("C03", "One system shared by threads behaves as if calls ran one at a time",
 "When threads concurrently add productions and symbols to, query, and derive with one shared system, every result is one that some sequential order of the calls (consistent with real time) would give: no rule, alternative or symbol is lost, duplicated or half-merged. A derivation of several iterations uses the one set of rules in force at a single instant for all its iterations, and a rule never takes effect before all of its symbols are registered (the symbols of a rule being added may appear one at a time just before it). No interleaving panics or deadlocks.",
 ["schedules"], "all interleavings of 2-3 threads with 1-2 calls each on one shared system",
 "One unit test spawns two threads that add one symbol each; no test overlaps add_production with another add or with a derivation.",
 ["src/system.rs", "src/productions.rs", "src/symbols.rs"],
 [m("production list lock held for a whole add", "src/system.rs add_production"), m("read lock held for a whole derivation", "src/system.rs derive")],
 [s("System.symbols / System.productions", "alphabet and rules of the system", "src/system.rs")],
 ["System::add_production/add_symbol/get_symbol/derive/derive_once/production_len/symbol_len"])

prop("C04", "A family name denotes one family, for ever, for all callers and threads",
 "Once a family is registered under a name, every later lookup of that exact name by any thread returns that same family, and every later attempt to register the name fails and changes nothing; a name that was never registered is never found. Get-or-create calls for one name all return the same family even when they race with each other or with registrations, and the default is built only by the one call that installs it; one that panics registers nothing. A blank name is never accepted by the builder, and no interleaving of these calls deadlocks.",
 ["histories", "schedules"], "all call histories up to the bound over a few names, and all interleavings of 2-3 threads",
 "Tests register two names once each on one thread; collisions, races and get-or-init against register are not exercised.",
 ["src/system/family.rs"],
 [m("global registry behind a read-write lock", "src/system/family.rs reference"), m("re-check under the write lock", "src/system/family.rs get_or_init_family")],
 [s("REGISTRY", "name -> family", "src/system/family.rs")],
 ["family::register", "Builder::register", "family::get_family", "family::get_or_init_family", "family::family_exists"])

prop("C05", "One derivation step rewrites every symbol at once by its first matching rule",
 "One derivation step of any string with any list of rules yields, in order, for each position, the replacement of the first rule in the list that matches at that position of the original string, or the unchanged symbol when none matches. All positions are rewritten from the original string: a replacement never influences the matching or rewriting of another position in the same step. The empty string stays empty, and a rule with an empty replacement erases its symbol.",
 ["inputs", "programs"], "every rule list and string up to the bound, context-free and context-sensitive",
 "Tests derive three hand-written grammars; the step must be right for every combination of rules, contexts and positions.",
 ["src/system.rs", "src/productions.rs"],
 [m("first matching rule wins", "src/system.rs find_matching"), m("result built separately from the input", "src/system.rs derive_once")],
 [], ["system::derive_once", "System::derive_once"])

prop("C06", "A context rule matches exactly where its contexts adjoin its target",
 "A rule matches at a position of a string exactly when that position exists, holds the rule's target symbol, the symbols immediately before it are the rule's whole left context in order, and the symbols immediately after it are the rule's whole right context in order. A missing or empty context puts no constraint on its side. Asking about any string and any index (including the empty string and indices past the end) gives an answer and never panics.",
 ["inputs"], "every head with contexts up to the bound, every string, every index",
 "Tests try a dozen head/string/index triples, contexts of at most two symbols, and no out-of-range index.",
 ["src/productions.rs"],
 [m("pre_matches / post_matches / matches", "src/productions.rs ProductionHead")], [],
 ["Production::matches", "ProductionHead::matches/pre_matches/post_matches"])

prop("C07", "Deriving n iterations equals n single steps, for every n",
 "Deriving a string for n iterations gives exactly the string obtained by applying the single step n times, for every n, including n = 0 (the string itself) and strings that become empty, stop changing or cycle. Splitting the n iterations over several derive calls gives the same result as one call. Deriving never changes the system, and a system and the free functions given the same rules agree.",
 ["inputs", "programs"], "every deterministic grammar up to the bound, every axiom, every iteration count up to the bound",
 "Tests use n = 1 and n = 2 on one growing grammar.",
 ["src/system.rs"], [m("iteration loop", "src/system.rs derive"), m("System::derive delegates under a read lock", "src/system.rs")], [],
 ["system::derive", "System::derive", "System::derive_once", "RunSettings::for_max_iterations"])

prop("C08", "Adding rules merges by head, keeps order, registers symbols, or does nothing",
 "Adding a production to a system whose head (target and both contexts) is new appends a rule after all existing ones; adding one whose head already exists appends its alternatives to that rule and leaves the rule's priority and every other rule unchanged; the call returns the resulting rule with all its alternatives in the order they were added. Every symbol of the production's contexts, target and replacement is then found in that system and in no other system, and the symbol and rule counts are exactly the numbers of distinct symbols and heads added. An add that fails leaves the system's rules and symbols exactly as they were.",
 ["histories"], "every history of adds and queries up to the bound over two systems, with valid and invalid productions",
 "Tests add one or two productions and check counts once; merging, priority and failed adds after other adds are never observed.",
 ["src/system.rs", "src/productions.rs", "src/symbols/iterator.rs"],
 [m("merge or push under the write lock", "src/system.rs add_production"), m("head equality", "src/productions.rs ProductionHead")],
 [s("System.symbols / System.productions", "alphabet and ordered rules", "src/system.rs")],
 ["System::add_production/add_symbol/get_symbol/production_len/symbol_len", "Production::all_bodies/merge/add_body"])

prop("C09", "A stochastic rule picks each alternative with its declared chance",
 "Each application of a rule with several alternatives, however many, picks an alternative with its declared chance; alternatives without a declared chance share equally what the declared ones leave, and if nothing claims the rest the last alternative gets it. A rule with one alternative always uses it. Declared chances whose total exceeds 1 (by more than floating-point rounding) make the selection fail with an error, and totals of at most 1, written with any decimals, never do.",
 ["inputs", "programs"], "every assignment of chances to up to a handful of alternatives, and every answer of the random source at the stated resolution",
 "The random source is unseeded and no test uses a rule with more than one alternative.",
 ["src/productions.rs"],
 [m("cumulative selection", "src/productions.rs Production::body"), m("chance validation", "src/productions.rs ProductionBody::try_with_chance")], [],
 ["Production::body", "System::derive_once"])

prop("C10", "Production strings split into exactly the written symbols, for any text",
 "Parsing a production string never panics and gives exactly one symbol per written token, in order: tokens are separated by any amount and any kind of whitespace, and a maximal run of the punctuation characters < > - + ( ) ; is a token of its own that ends the token before it. A token that is exactly ; ends the string, and an earlier token that is exactly ->, < or > is an error. The tokenizer's tokens carry the exact text at their reported start and end in the input, and only the final end-of-text marker is empty.",
 ["inputs"], "every text up to the bound over an alphabet of letters, punctuation, ASCII and multi-byte whitespace and multi-byte letters; every Unicode character",
 "Tests try fifteen well-spaced strings; nothing covers repeated whitespace next to punctuation or non-ASCII whitespace.",
 ["src/parser/iterator.rs", "src/parser/token.rs", "src/parser/statement.rs", "src/parser.rs"],
 [m("TokenIterator::next / next_break", "src/parser/iterator.rs"), m("compile_from", "src/parser/statement.rs")],
 [s("TokenIterator.current / signal_end", "byte cursor", "src/parser/iterator.rs")],
 ["parser::parse_prod_string", "ProductionString::from_str", "parser::iterator::TokenIterator"])

prop("C11", "Production text parses to exactly the rule written, or fails cleanly",
 "A production text of the form [left <] target [> right] -> [chance] replacement parses to a rule with exactly that target, those contexts (in order), that chance and those replacement symbols (in order), however much surrounding or separating whitespace it has; an absent replacement erases. Text without an arrow, without a target, or with more than one target symbol is an error. A leading number in the replacement is its chance and is accepted exactly when it is greater than 0 and at most 1; no text makes the parser panic.",
 ["inputs"], "every production text built from the token alphabet up to the bound, with spacing variants",
 "Tests parse about ten well-formed productions.",
 ["src/parser.rs", "src/productions.rs"],
 [m("parse_production / parse_production_head / parse_production_body", "src/parser.rs"), m("chance range check", "src/productions.rs try_with_chance")], [],
 ["parser::parse_production", "parser::parse_production_head", "parser::parse_production_body", "Production::from_str/try_from"])

prop("C12", "Printing a production string and parsing it back gives the same string",
 "The printed form of a production string is its symbols' names in order separated by single spaces, and parsing it back gives an equal string, for every string of symbols whose names are single tokens. Two production strings are equal exactly when they have the same symbols in the same order, and length, indexing, iteration (by reference and by value), symbol listing and appending all agree with that one sequence. A symbol whose code was never named prints as its code number.",
 ["inputs"], "every string of up to the bounded length over an alphabet of names of all token classes, and long strings",
 "One test prints a three symbol string.",
 ["src/strings.rs", "src/symbols.rs", "src/parser/statement.rs", "src/symbols/iterator.rs"],
 [m("Display", "src/strings.rs"), m("derived equality", "src/strings.rs")], [],
 ["ProductionString::to_string/from_str/len/index/iter/into_iter/push_symbol/all_symbols", "Symbol::to_string"])

prop("C13", "The turtle draws exactly the lines the string spells",
 "Interpreting any string draws exactly this: the turtle starts at the origin facing up; Forward moves 5 units drawing; Move moves 5 units without drawing and starts a new line; + and - turn by plus and minus the set angle (plus being counterclockwise); [ saves position and heading and ] restores the most recently saved ones and starts a new line there; every other symbol draws nothing. The resulting paths contain every drawn segment once and in drawing order and nothing else except a possible final single-point path at the turtle's last position. A ] without a matching [ is reported as an error, and a store that lacks some turtle symbols never causes a panic: those symbols simply have no meaning there.",
 ["inputs", "programs"], "every string of turtle and other symbols up to the bound, several angles, deep nesting, symbol stores with any subset of the turtle symbols",
 "The one test interprets two Forward symbols.",
 ["src/interpretation/abop.rs", "src/geometry.rs"],
 [m("interpret loop with position stack", "src/interpretation/abop.rs"), m("Vector::rotate", "src/geometry.rs")],
 [s("pos_stack / pos / dir / path", "turtle state", "src/interpretation/abop.rs interpret")],
 ["AbopTurtleInterpretation::interpret/default_interpret/run_settings"])

prop("C14", "The SVG shows exactly the drawn paths, undistorted, centred, inside the canvas",
 "The SVG made from any drawing is a well-formed document of the requested width and height that contains exactly the drawing's paths, point for point in order, as visible strokes with nothing filled. After applying the document's transformations, every point lies on the canvas (up to rounding), the drawing's bounding box is centred on the canvas and, unless all points coincide, touches the canvas edges in at least one dimension, with up drawn as up and equal scale in both directions. Every number written is finite, even for drawings that are empty, a single point or a straight line.",
 ["inputs"], "every turtle string up to the bound, canvas sizes from 1 up, and caller-supplied drawings (no paths, one point, lines, repeated points, large and tiny coordinates)",
 "No test produces or looks at any SVG.",
 ["src/interpretation/svg.rs", "src/geometry.rs"],
 [m("translate/scale/translate group", "src/interpretation/svg.rs interpret"), m("Bounds for Vec<Path>", "src/geometry.rs"), m("to_svg", "src/interpretation/svg.rs")], [],
 ["SvgPathInterpretation::interpret", "Svg::to_svg", "SvgPath/SvgGroup to_svg"])

prop("C15", "A plant file parses to exactly the settings, axiom and rules it states",
 "Parsing a plant text yields the last stated iteration count and angle (2 and 5 degrees when not stated), the last stated initial string, and a system holding the turtle alphabet plus exactly the stated productions in order, ignoring blank lines, comments from # to the end of the line (a line feed, and nothing else), surrounding whitespace and line-ending style. Text with no production, no initial string, an unknown setting, a malformed number, an angle that is not a finite number or a malformed production is an error. No text makes it panic.",
 ["inputs"], "every sequence of lines from the line alphabet up to the bound, with comment, spacing and line-ending variants",
 "One test parses one well-formed file and counts productions and symbols.",
 ["src/interpretation/abop/parser.rs", "src/interpretation/abop.rs"],
 [m("line loop", "src/interpretation/abop/parser.rs parse"), m("remove_comment / parse_equality / parse_initial", "src/interpretation/abop/parser.rs")], [],
 ["interpretation::abop::parser::parse", "AbopTurtleInterpretation::n/delta/run_settings"])

prop("C16", "Saving an SVG or reading a plant file is complete or reports an error",
 "When saving an SVG to a file reports success, the file contains exactly the document, nothing more and nothing less, whatever the file contained before and however the operating system split or interrupted the writes. When creating the file or any write fails, saving reports an error and never success. Reading a plant file succeeds exactly when the whole file could be read as text and its text parses, with the same result as parsing that text, regardless of how reads are split or interrupted.",
 ["fault_sequences", "inputs"], "every sequence of operating-system answers (full, short, interrupted, failed) within the deviation bound at every file operation, for several documents and prior file contents",
 "No test saves or reads a file, and operating-system failures never occur in tests.",
 ["src/interpretation/svg.rs", "src/interpretation/abop/parser.rs", "src/error.rs"],
 [m("create + write_all", "src/interpretation/svg.rs save_file"), m("read_to_string", "src/interpretation/abop/parser.rs parse_file")], [],
 ["Svg::save_file", "abop::parser::parse_file"])

prop("C17", "The lsystem command writes the right SVG and succeeds, or fails and says so",
 "Running lsystem interpret on any plant file exits with status 0 exactly when it wrote, to the requested output path (with extension svg; out.svg by default), the SVG of the file's axiom derived for its iteration count and drawn with its angle on a canvas of the requested width and height (500 by 500 by default). In every other case (missing, unreadable or invalid input, failed derivation or drawing, unwritable output) it exits with a non-zero status, prints an error, and does not crash. The verbose flag changes only what is printed, and that something cannot be printed (a full or closed standard output or error) changes nothing else.",
 ["inputs", "configurations", "fault_sequences"], "every combination from the enumerated plant files, options, output paths and file-system faults",
 "The command line tool has no tests.",
 ["src/bin/lsystem/main.rs", "src/bin/lsystem/derive.rs", "src/bin/lsystem/cli.rs", "src/bin/lsystem/describe.rs"],
 [m("handle_derive", "src/bin/lsystem/derive.rs"), m("argument parsing", "src/bin/lsystem/cli.rs")], [],
 ["process exit status, standard error, output file"])

prop("C18", "Bounds contain exactly the points, and rotations and offsets are rigid",
 "The bounds of a path or of a collection of paths are the smallest box containing all of its points, with the mean of the points as centre of mass; a collection with no points has no bounds. Rotating a vector by an angle keeps its length, turns it counterclockwise by that angle, and rotations add up; offsetting a path moves every point by the offset and keeps their number and order. Width, height and centre of a box follow from its edges.",
 ["inputs"], "every set of up to the bound paths and points over a coordinate grid including negative, repeated, huge and tiny values; every whole-degree angle over several turns",
 "Tests rotate one vector by 90 degrees and read two literal boxes; bounds of actual points are never computed.",
 ["src/geometry.rs"], [m("Bounds for Path and Vec<Path>", "src/geometry.rs"), m("Vector::rotate", "src/geometry.rs"), m("operators", "src/geometry.rs")], [],
 ["Bounds::bounds", "BoundingBox", "Vector", "Point", "Path"])

prop("C19", "Parsing into caller-supplied stores registers everything, in order, or fails",
 "Parsing a production into caller-supplied stores offers every symbol of the production (left context, target, right context, then every replacement, in written order) to the symbol store and then exactly that production, once, to the production store. If the text is invalid nothing is offered to either store, and if the symbol store refuses a symbol the error is returned and no production is stored. The bundled cell-based stores keep every production in order and find exactly the symbols that were added.",
 ["histories", "fault_sequences", "inputs"], "every history of adds up to the bound and a refusal at every possible call of the store",
 "Only a doc example calls this once with stores that never fail.",
 ["src/parser.rs", "src/symbols.rs", "src/symbols/iterator.rs", "src/productions.rs"],
 [m("parse_and_add_production", "src/parser.rs"), m("SymbolIterable for Production", "src/symbols/iterator.rs")], [],
 ["parser::parse_and_add_production", "RefCell<HashSet<u32>>", "RefCell<Vec<Production>>", "SymbolIterable::all_symbols_iter"])

prop("C20", "A family's systems know exactly the symbols the family defines",
 "A system made from a family (given by name, by value or by shared pointer) contains exactly the terminal and production symbols the family defines, no rules, and shares nothing with other systems of that family. A family lists every symbol it was given exactly once per kind, the last description winning. Making a system from a name that is not registered, or from a family with a blank symbol name, is an error.",
 ["inputs", "histories"], "every family definition up to the bound, every way of naming it, several systems per family",
 "One test builds one family and inspects one terminal.",
 ["src/system/family.rs", "src/system.rs"],
 [m("of_family", "src/system.rs"), m("Builder", "src/system/family.rs")], [],
 ["System::of_family", "SystemFamily::terminals/productions/symbols/name", "Builder::build"])

prop("C21", "Results do not depend on process history, symbol codes or hash order",
 "For rules with a single alternative each, the text of every derivation, the rules' matching, and the drawing and SVG made from it depend only on the texts given: not on which symbols were interned before or in which order, on which other systems or families exist, on hash seeds, or on which thread runs it. Repeating a call gives the same result.",
 ["histories", "configurations", "inputs"], "every order of interning the alphabet, several hash seeds, prior histories on other systems, and threads",
 "All tests of one process share one hidden global register; none compares two histories.",
 ["src/symbols.rs", "src/system.rs", "src/system/family.rs", "src/productions.rs"],
 [m("symbols compare by code only", "src/symbols.rs"), m("rules live in an ordered list", "src/system.rs")],
 [s("global symbol registers", "history-dependent codes", "src/symbols.rs")],
 ["System::derive", "Interpretation::interpret", "Svg::to_svg"])

prop("C22", "No text, from rule to picture, makes the library panic or hang",
 "Any text given to the symbol, production, production-string or plant-file parsers, and any derivation, drawing and SVG made from what they accept, either produces a result or returns an error. None of these calls panics, overflows, or fails to terminate (for derivations whose result fits in memory).",
 ["inputs", "programs"], "every text up to the bound over a hostile alphabet at every entry point, carried through derivation, drawing and SVG",
 "Tests only feed well-formed text.",
 ["src/parser.rs", "src/parser/iterator.rs", "src/productions.rs", "src/interpretation/abop.rs", "src/interpretation/svg.rs", "src/interpretation/abop/parser.rs"],
 [m("errors as values", "src/error.rs")], [],
 ["all text entry points of the crate"])

prop("C23", "Every occurrence in every iteration draws its own random choice",
 "In a derivation with stochastic rules, each occurrence of a matching symbol, in every position and every iteration, chooses its alternative independently of all other choices. The probability of each possible resulting string is therefore exactly the sum, over the ways to derive it, of the products of the chances of the alternatives chosen. This holds also when a choice happens to leave the string unchanged, when rules are merged from several adds, and when a rule with a context applies.",
 ["inputs", "programs"], "the full tree of random-source answers (at the stated resolution) of every enumerated stochastic grammar, axiom and iteration count",
 "No test uses a stochastic rule; independence cannot be seen in single runs of an unseeded generator.",
 ["src/productions.rs", "src/system.rs"],
 [m("a draw per application", "src/productions.rs Production::body"), m("derive loop", "src/system.rs")], [],
 ["System::derive", "system::derive", "Production::body"])

prop("C24", "Caller code that fails, panics or calls back leaves everything intact",
 "When the caller's own conversion into a symbol, production or family, or the caller's own store given to the parser, calls the same system or the registry, returns an error or panics, the library call behaves as if that code had run just before it took effect: the inner calls complete with their normal results; an error is returned and a panic passed on, and then nothing but the inner calls (and the symbols offered before) has changed any system, store or family. Afterwards everything keeps working, on this and every other thread: no deadlock, no poisoned or half-changed state, in any interleaving. (The default given to get-or-create is not included.)",
 ["histories", "schedules", "fault_sequences"], "histories of calls with every way the caller's code can act and end; all schedules of small programs of threads that make such calls",
 "Tests only convert plain texts, whose conversion neither panics nor calls back.",
 ["src/system.rs", "src/symbols.rs", "src/productions.rs", "src/system/family.rs", "src/parser.rs"],
 [m("convert before locking", "src/system.rs add_symbol, add_production"), m("into_family before the system exists", "src/system.rs of_family"), m("convert before borrowing", "src/symbols.rs, src/productions.rs")],
 [s("the system's locks", "poisoned by a panic while held", "src/system.rs")],
 ["SymbolStore::add_symbol", "ProductionStore::add_production", "System::of_family", "parser::parse_and_add_production"])

prop("C25", "Interpretations compose: SVG, settings and systems are the inner one's",
 "The SVG interpretation of any path interpretation hands exactly the given symbol store and string to it, once, and draws exactly the paths it returns; a failure or panic of the inner one is passed on unchanged and leaves the interpretation usable. Its system and its run settings are the inner one's, its size is the one asked for (500 by 500 unless told otherwise), and the default way to interpret a string is the default instance. The null interpretation accepts every string and changes nothing. The turtle's defaults are five iterations and 22.5 degrees, and settings are kept as given. Several threads may share one interpretation.",
 ["inputs", "histories", "fault_sequences", "schedules"], "recording and failing inner interpretations over every small list of paths, string, store and canvas; every schedule of small programs of threads sharing one",
 "Tests draw two strings with one interpretation and never look at what is handed on or at failures.",
 ["src/interpretation.rs", "src/interpretation/svg.rs", "src/interpretation/abop.rs"],
 [m("Interpretation trait and NullInterpretation", "src/interpretation.rs"), m("SvgPathInterpretation", "src/interpretation/svg.rs"), m("AbopTurtleInterpretation settings", "src/interpretation/abop.rs")], [],
 ["Interpretation::interpret/system/run_settings/default_interpret", "SvgPathInterpretation::new/new_with", "AbopTurtleInterpretation::new/n/delta"])

prop("C26", "Every SVG element is written as well-formed XML that says exactly what it holds",
 "Each SVG element - path, circle, document, decorations, group transforms such as scale and translate - is written as well-formed XML with exactly its own attributes: for every text given for fill or stroke (also with quotes, ampersands and angle brackets) and every finite number, reading the document back gives the same text and numbers. A circle with a negative radius, or one that is not a number, is refused. Clones, and printing again, give the same text, and the elements of a document are written in order.",
 ["inputs"], "every attribute text up to the bound over characters with a meaning in XML, every Unicode character, numbers of every magnitude, every small nesting of elements",
 "Tests compare two literal documents without special characters.",
 ["src/interpretation/svg.rs"], [m("SvgElement::to_svg of each element", "src/interpretation/svg.rs"), m("attribute text", "src/interpretation/svg.rs")], [],
 ["SvgElement::to_svg", "SvgPath", "SvgCircle::build", "SvgDecorations::to_attr_string", "Svg", "SvgDefaultGroup/Scale/Translate"])

prop("C27", "Failures carry their message and their cause",
 "An error prints exactly the text it was made with (definition errors behind their prefix); one made from an operating-system, number or lock error prints that error and keeps it as its source, also in clones. Whatever text is rejected, the error has a message that is not blank. A malformed number in a plant file and a file that the operating system fails to read carry the underlying cause, a failed save passes on the operating system's error, and errors about an unknown or already taken family, an unknown code or an unknown setting name it. The caller's own errors come back unchanged through every entry point.",
 ["inputs", "fault_sequences"], "every constructor over every text of a pool and every conversion; every rejected text of the other checks' enumerations; every kind of failing file operation",
 "Tests assert at most that something is an error.",
 ["src/error.rs", "src/parser.rs", "src/interpretation/abop/parser.rs", "src/system/family.rs", "src/symbols.rs", "src/interpretation/svg.rs"],
 [m("Error, its conversions and source", "src/error.rs"), m("errors made by the parsers", "src/parser.rs")], [],
 ["Error::new/general/definition/execution", "std::error::Error::source", "From<io::Error/ParseIntError/ParseFloatError/PoisonError>"])

prop("C28", "Rules, heads, alternatives, chances and strings are values",
 "A head is its left context, target and right context: equal exactly when these are, equal heads hash alike, and a rule is compared by its head. What an object was made from its accessors give back. A chance is accepted exactly when it is above zero and at most one, and an alternative tells whether its chance was given. Adding or merging alternatives appends them in order and changes nothing else; a clone, a rule given to a system and a string passed on are independent of what happens to the original afterwards.",
 ["inputs", "histories"], "every pair of heads over a small alphabet, every chance of a fine grid and around the limits, every history of calls on two rules and a system, and on two strings, to a depth",
 "Tests compare three literal rules.",
 ["src/productions.rs", "src/strings.rs"], [m("PartialEq and Hash of heads and rules", "src/productions.rs"), m("ChanceKind", "src/productions.rs"), m("Production::merge and add_body", "src/productions.rs")], [],
 ["ProductionHead", "ProductionBody", "ChanceKind", "Production", "ProductionString"])

prop("C29", "The command line describes its alphabet and takes options in any order",
 "lsystem describe lists every symbol of the turtle's alphabet exactly once, with its description and whether it is a terminal or a production, and what the descriptions say about turning, moving, drawing and branching is what the turtle does. The options of interpret mean the same in every order and spelling. Every command line is either carried out or refused with a message that says why on standard error, a non-zero exit and no file written; a description that cannot be printed is a failure that says so, and nothing crashes. Interpret prints nothing on standard output unless asked to be verbose, and then tells what it does.",
 ["programs", "inputs", "configurations"], "every command line of up to three tokens of a pool, every order and subset of the options, the real process each time",
 "There is no test of the command line.",
 ["src/bin/lsystem/main.rs", "src/bin/lsystem/cli.rs", "src/bin/lsystem/describe.rs", "src/interpretation/abop.rs"], [m("describe", "src/bin/lsystem"), m("abop_family", "src/interpretation/abop.rs")], [],
 ["lsystem describe", "lsystem interpret", "abop_family"])

prop("C30", "Tokens and listed symbols are exactly what was written",
 "A token keeps its text and its place, and its kind follows from its text alone: the arrow, the two context marks, the end (a semicolon or no text), and a symbol for anything else. It prints as its text (a kind as its mark), and becomes a symbol exactly when it is a symbol token whose name is not blank; equal tokens agree in text, place and kind, and hash alike. Reading a text gives all of its tokens and, behind one that runs up to its end, an end token. An iterator over tokens is a value: a copy made at any moment goes on by itself with the same tokens, skipping and counting agree with stepping, and it stays at its end. The symbols of a head, alternative, rule or string are listed in reading order (left context, target, right context, then each replacement), however they are collected.",
 ["inputs", "histories"], "every token text of a pool at every place; every way of stepping, skipping and copying an iterator over every short text; every small head, alternative and rule",
 "Tests list the symbols of one rule and read a few tokens forwards.",
 ["src/parser/token.rs", "src/parser/iterator.rs", "src/symbols/iterator.rs"], [m("Token and TokenKind", "src/parser/token.rs"), m("TokenIterator", "src/parser/iterator.rs"), m("SymbolIterator and SymbolIterable", "src/symbols/iterator.rs")], [],
 ["Token", "TokenKind", "TokenIterator", "SymbolIterable::all_symbols_iter"])

prop("C31", "Points, vectors, boxes and paths are values",
 "Points and vectors hold their coordinates; adding, subtracting, negating and dividing them works coordinate by coordinate as on numbers, also for infinite and tiny ones, and converting between them changes nothing. Zero, up and down are what they are called; equality is that of the coordinates; a point prints as its two coordinates in parentheses and the printed numbers read back the same. Width, height and centre of a box follow from its edges. A path holds the points appended to it in order, its copies go their own ways, and every way of reading it agrees.",
 ["inputs", "histories"], "every pair of coordinates of a pool with signs, infinities and every magnitude; every history of appending to, copying and reading paths, to a depth",
 "Tests subtract one pair of points and rotate one vector.",
 ["src/geometry.rs"], [m("Point and Vector arithmetic and conversions", "src/geometry.rs"), m("BoundingBox", "src/geometry.rs"), m("Path", "src/geometry.rs")], [],
 ["Point", "Vector", "BoundingBox", "Path"])

prop("C32", "Threads that work on things of their own never notice one another",
 "Work that shares no object with other threads - reading texts, rules and plants, adding rules to systems of one's own, deriving, drawing, printing, registering families under names of one's own, saving and reading files of one's own - gives each thread exactly what it would give alone, under every interleaving with every other such work, failures and their messages included; and all threads finish. What the library shares behind the scenes (symbols, families, caches of any kind) cannot be seen in results and leads to no deadlock.",
 ["schedules", "programs"], "all interleavings at every lock, atomic, once-cell and file request of two or three threads, for every pair of some thirty whole jobs, up to a preemption bound",
 "Tests run one thread, but for one that adds two symbols.",
 ["src/symbols.rs", "src/system/family.rs", "src/system.rs", "src/parser.rs", "src/interpretation"], [m("the two symbol registers", "src/symbols.rs"), m("the family registry", "src/system/family.rs"), m("of_family and add_production", "src/system.rs"), m("save_file", "src/interpretation/svg.rs"), m("parse and parse_file", "src/interpretation/abop/parser.rs")], [],
 ["every public entry point that takes text, rules or files"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")

#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the statements are easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

LX, GR = "src/parser/lexer.rs", "src/parser/parser.lalrpop"
VI, NO, CO = "src/ast/visitor.rs", "src/ast/nodes.rs", "src/ast/converting.rs"
EM, PR = "src/simplified_representation/emitter.rs", "src/simplified_representation/primitives.rs"
CT, TY, FI, TR, ER = "src/contract.rs", "src/type.rs", "src/field.rs", "src/transition.rs", "src/error.rs"

prop("C01", "A contract's summary is exactly the interface its source declares",
 "Parsing a grammatical contract whose interface types are representable returns its name, its deployment parameters, its fields and its transitions, each with the names and types as declared, in source order, duplicates and special names included, and each transition with exactly its own parameters. "
 "Nothing else leaks into the summary: procedures, imports, library definitions, the deployment constraint, field initialisers and component bodies never add, drop, reorder or rename an entry.",
 ["programs"],
 "every generated contract: 0..40 deployment parameters, fields, transitions and procedures in any interleaving and count, identifiers of every legal shape (keyword-prefixed, one letter, trailing underscores, hundreds of characters, ByStrN/Event-like names), any version number, imports, library and constraint present or absent, any bodies",
 "full_contract_tests.rs compares 19 fixed contracts; the quantifier ranges over every contract, and most combinations (no parameters next to many, procedures between transitions, names that look like keywords, duplicated names, constraints plus fields) never occur there.",
 [CT, EM, FI, TR, GR],
 [("Contract::from_str runs lexer, program parser and emitter", CT+":from_str"),
  ("SrEmitter: stack of identifiers, declarations and types", EM+": emit_contract_definition, emit_component_parameters, emit_contract_field, emit_transition_definition"),
  ("component parameter list, field list and component list rules", GR+": ComponentParameters, ContractDefinition")],
 ["<str>.parse::<Contract>()", "Contract::parse"],
 [("SrEmitter.stack", "pending identifiers, types and declarations; must be balanced after every entry", EM)])

prop("C02", "Every declared type is reported with the same structure, at any depth",
 "The type reported for a parameter or field (also inside a map, option, list, pair or address type) is the type written in the source: integers, strings, block numbers, booleans, byte strings of any or fixed size, maps, options, lists, pairs, address types with their kind and ordered fields, and any other type by its name as written including its qualifier. "
 "Redundant parentheses, the place where the type occurs and the nesting depth make no difference.",
 ["inputs"],
 "every type expression generated to depth 12 over all constructors, byte-string sizes from 0 to usize::MAX, every legal parenthesisation, in deployment-parameter, transition-parameter, field, map-key, map-value, type-argument and address-field position, with user types whose names start like built-in ones",
 "The tests check a few dozen concrete types; the grammar has five separate spellings of a type (type, type argument, map key, map value, map value argument) and the product of constructor x position x parentheses x depth is unbounded.",
 [EM, TY, PR, GR],
 [("five type-position converters pushing onto one stack", EM+": emit_scilla_type, emit_type_argument, emit_type_map_key, emit_type_map_value, emit_type_map_value_arguments"),
  ("name-to-type table and argument order", TY+": From<SrType> for Type"),
  ("type rules", GR+": ScillaType, RemainingTypes, TypeArgument, TypeMapKey, TypeMapValue, TypeMapValueAllowingTypeArguments, AddressType")],
 ["Contract.init_params / fields / transitions of <str>.parse::<Contract>()"],
 [("SrType", "main type name, ordered sub types, optional address part", PR)])

prop("C03", "Any text at all yields a contract or an error: no panic, abort or endless run",
 "For every text, whatever its characters (non-ASCII, control characters, unterminated strings or comments, truncated or damaged contracts, the empty text), parsing it as a contract, or as any other syntactic category, or only tokenising it, terminates and returns a value or an error. "
 "It never panics, overflows, aborts the process or keeps producing tokens without consuming text.",
 ["inputs"],
 "arbitrary Unicode strings up to 64 KiB, token soups, mutations/truncations/splices of valid contracts at every byte, nesting up to 200 levels on an 8 MiB stack",
 "The tests feed only hand-written short inputs, each chosen to be accepted or rejected; a panic needs an input nobody thought of (a multi-byte character next to an identifier, an unusual type in an unusual place).",
 [LX, GR, EM, TY, VI, CT],
 [("hand-written scanner slicing by byte offset", LX+": Lexer::next"), ("unwrap / todo! / unimplemented! / assert! sites", EM+", "+TY+", "+VI),
  ("LALRPOP tables return ParseError", GR)],
 ["<str>.parse::<Contract>()", "each generated parser's parse()", "Lexer iteration"])

prop("C04", "Exactly the documented Scilla grammar is accepted",
 "A text is accepted as a contract, or as any other syntactic category the parser exposes, exactly when its token sequence is derivable from the documented grammar for that category; every other text is rejected with an error.",
 ["programs"],
 "token sequences sampled from the documented grammar for each of the 45 exposed categories, and the same sequences after 1..3 token insertions, deletions, substitutions, swaps or truncations; every insertion, substitution and deletion of one token at some places of short sentences; bounded to 400 tokens (lists to 700 items)",
 "parser_tests.rs has about five accept/reject strings per category; whether any other of the unboundedly many sequences is wrongly accepted or rejected (a missing separator, an optional part, a repetition bound) is not touched.",
 [GR, LX],
 [("one LALRPOP rule per category, with the BNF in the comment above it", GR), ("tokens", LX)],
 ["Ok/Err of each category's parser", "Ok/Err of <str>.parse::<Contract>()"])

prop("C05", "Whitespace and comments never change what a contract means",
 "Two texts with the same token sequence, differing only in the blanks, line breaks and comments between tokens (including none where tokens cannot merge, and none or any at the start and end), give the same result: the same contract summary and syntax tree apart from positions, or a rejection of both.",
 ["programs"],
 "pairs of layouts of the same generated or mutated token sequence: spaces, tabs, CR, LF, CRLF, form feeds, Unicode blanks, comments containing stars, quotes, keywords, unbalanced brackets, non-ASCII text and line breaks, or nothing",
 "Every test fixes one layout per input. The relation is over pairs of layouts of any contract.",
 [LX, CT],
 [("whitespace skip and comment skip in the scanner", LX+": Lexer::next")],
 ["<str>.parse::<Contract>()", "Lexer token stream", "program syntax tree without positions"])

prop("C06", "Text is cut into the longest tokens, each with its right kind and spelling",
 "Every lexeme (keyword, punctuation, regular / special / type-like / type-variable identifier, sized and unsized byte-string type, decimal and hexadecimal number, string literal) is recognised as one token of its own kind carrying exactly the characters written: a keyword only as a whole word, an identifier always to its last character, a number, string or operator to its longest extent, and a comment as nothing. "
 "Turning a token back to text gives what was written.",
 ["inputs"],
 "arbitrary concatenations of lexemes with and without separators, keyword prefixes and suffixes (inbox, end_, Mapping, ByStrange, ByStr20x), adjacent operators, escapes and non-ASCII characters in strings and comments, up to 300-character identifiers",
 "The lexer's own unit tests are commented out; other tests see tokens only through accept/reject of short strings with spaces between tokens.",
 [LX],
 [("operator look-ahead, keyword table and regex cascade", LX+": Lexer::next"), ("token to text", LX+": From<Token> for String")],
 ["Lexer iteration", "String::from(Token)"],
 [("chars / document", "character cursor that must stay in step with the byte offsets handed out", LX)])

prop("C07", "Token and syntax-node positions point at the text they were read from",
 "Every token's reported start and end offsets delimit exactly its characters in the source, its line is the number of line feeds before it and its column the byte distance from the start of that line (both from 0), and likewise for its end. "
 "Every syntax node that carries a position spans exactly from its first token's start to its last token's end.",
 ["inputs"],
 "every generated source with any layout: multi-line comments and strings, CRLF, tabs, non-ASCII comments and strings, tokens at the very start and end; every node of the tree of every generated program",
 "No test looks at a position. Wrong line or column numbers need a history (a comment with line breaks, a preceding token on the same line) that accept/reject tests cannot observe.",
 [LX, GR, NO],
 [("line/column bookkeeping", LX+": Lexer::next, SourcePosition::with_end"), ("@L / @R span captures", GR)],
 ["Lexer items (start, token, end)", "WithMetaData.start / .end of every node"],
 [("line and column counters", "updated at each line break the scanner passes", LX)])

prop("C08", "The syntax tree is the source's grammatical structure, complete and in order",
 "The tree returned for a grammatical text has one node per construct of the source with the right alternative, its children complete and in source order, every name, number, hexadecimal and string literal verbatim, optional parts present exactly when written, function types grouped to the right and a polymorphic type's body extending as far as possible. "
 "The textual form of identifier nodes equals the written identifier.",
 ["programs"],
 "generated programs over every rule alternative (libraries, types, expressions, patterns, statements, remote reads, messages, literals), list lengths 0..40, nesting to depth 12",
 "parser_tests.rs only checks is_ok()/is_err(); the shape and content of the tree are never examined.",
 [GR, NO],
 [("semantic actions building nodes", GR), ("Display of identifier nodes", NO)],
 ["ProgramParser and the other category parsers' returned nodes"])

prop("C09", "A rejected text is blamed on its first offending token",
 "When a text is rejected for its syntax, the reported offence is the first token that cannot continue any grammatical text given the tokens before it, with that token's own extent and kind; the end of the text is blamed exactly when the whole text could still be continued. "
 "The error returned when parsing a contract carries that same location.",
 ["programs"],
 "generated programs and categories damaged by token insertion, deletion, substitution, swap and truncation, and every kind of token after some prefixes, in arbitrary layouts",
 "The tests only check that an error is returned, never which token it names.",
 [GR, LX, ER, CT],
 [("LR parser's valid-prefix property on LALRPOP tables", GR), ("ParseError to Error conversion", ER)],
 ["lalrpop_util::ParseError of each parser", "Error::ParseError text of <str>.parse::<Contract>()"])

prop("C10", "A type printed as text reads back as the same type",
 "For every representable type, its textual form is legal Scilla: using that text as the declared type of a parameter or field gives back an equal type, also when it is nested inside any other type. "
 "Two types are equal exactly when they have the same constructor, sizes, names and components.",
 ["inputs"],
 "every type value generated to depth 10 (all constructors, sizes from 0 to usize::MAX, address types with 0..6 fields of every kind, user type names), plus near-miss pairs differing in one place",
 "One unit test prints two concrete types; no test reads printed text back, and maps and address types are never printed.",
 [TY, FI],
 [("Display for Type", TY+": fmt"), ("derived equality", TY+", "+FI)],
 ["Type::to_string, Type == Type", "<str>.parse::<Contract>()"])

prop("C11", "Parsing a file equals parsing its text; unreadable files are I/O errors",
 "Parsing the file at a path gives the same contract, or the same error, as parsing the file's text, whatever the path's spelling, the file's size, line endings or final newline. "
 "A missing file, a directory or a file that is not UTF-8 gives an I/O error and never a contract, and the file is left unchanged.",
 ["inputs", "fault_sequences"],
 "generated contracts (valid, damaged, empty, non-ASCII, up to about 5 MiB) written under generated file names and directories, relative and absolute paths in many spellings, symbolic links, misleading neighbour files, and injected faults: missing file, directory, invalid UTF-8 at any offset, empty file, dangling link, link to itself, path through a file, slash after a file, empty path, NUL byte, too long name, parent of a missing directory",
 "Tests only open 19 existing, well-formed files; the missing, unreadable and non-UTF-8 cases and the equality with parsing the text are never checked.",
 [CT, ER],
 [("Contract::parse = read_to_string + parse", CT+": parse"), ("Error::IoError", ER)],
 ["Contract::parse(path) against <str>.parse::<Contract>()"])

prop("C12", "A tree walk visits every node once, nested and in source order",
 "Walking a syntax tree with a visitor that always continues enters every node of the tree exactly once and leaves it exactly once after all of its children, parents around children and siblings in source order, with nothing omitted. "
 "Source positions are announced and withdrawn in balanced pairs, each position being the one of the node it surrounds, and none is left over at the end.",
 ["programs"],
 "trees of generated programs covering every node kind and every optional part",
 "No test walks a tree except through the summary emitter, which skips most of it; bodies, expressions, libraries and imports are never visited.",
 [VI, CO, NO],
 [("one visit implementation per node kind", VI), ("position push/pop around positioned nodes", VI+": WithMetaData::visit")],
 ["AstVisitor::visit with a recording AstConverting"])

prop("C13", "A visitor's error stops the walk at once; a skip prunes just that subtree",
 "If the visitor returns an error at any enter or leave event, the walk makes no further event and returns that very error; if it asks to skip at an enter event, exactly that node's children and its leave event are omitted and the rest of the walk is unchanged. "
 "The position announcements stay balanced in both cases.",
 ["programs", "fault_sequences"],
 "generated trees x a fault injected at every event index (or a sampled one), with arbitrary error messages, and arbitrary sets of skip decisions",
 "The emitter under test never fails midway on the test contracts and no other visitor exists in the tests; error injection at every event is a quantifier over fault positions.",
 [VI, CO],
 [("Result/TraversalResult plumbing of each visit implementation", VI)],
 ["AstVisitor::visit with a fault-injecting AstConverting"])

prop("C14", "Results depend on the text alone, not on history, reuse or concurrency",
 "Parsing is a pure function of the text: repeating it, interleaving it with any other successful or failing parses, reusing one parser object, changing the working directory, environment or locale, or running it from many threads at once gives equal contracts, trees and errors each time.",
 ["histories", "schedules"],
 "random histories of 2..40 parse operations (valid, damaged, garbage) over 1..8 threads with shared and fresh parser objects",
 "Each test parses one input once in a fresh state; no test repeats, interleaves or parallelises.",
 [CT, LX, GR, EM],
 [("fresh Lexer, parser and emitter per call; no global state", CT+": from_str")],
 ["<str>.parse::<Contract>()", "ProgramParser reuse", "Error text"])

prop("C15", "An edit to a contract changes only the corresponding part of its summary",
 "Adding, removing, renaming, retyping or moving one deployment parameter, field, transition or transition parameter changes the summary in exactly that entry, and editing anything that is not part of the interface (bodies, procedures, initialisers, constraint, imports, library, version) changes nothing.",
 ["histories", "programs"],
 "random edit histories of 1..12 edits applied to generated contracts and to the repository's example contracts, comparing the summaries before and after each edit",
 "The tests look at isolated contracts, never at a pair related by an edit; a cross-talk bug needs two entries that interact.",
 [EM, CT, GR],
 [("per-entry stack discipline of the emitter", EM)],
 ["<str>.parse::<Contract>() before and after an edit"])

prop("C16", "An interface that cannot be represented is refused, never misreported",
 "A grammatical contract in which some deployment parameter, field or transition parameter has, anywhere inside its type, a function type, a polymorphic type, a type variable, or a built-in type applied to the wrong number of arguments is rejected with an error; no summary with a made-up, truncated or neighbouring type is returned. "
 "The same construct in a part that is not the interface (library, procedure, body, initialiser) does not cause a rejection.",
 ["programs"],
 "generated contracts with exactly one offending type planted at a random depth in a random interface position, or only in non-interface positions",
 "No test has an unrepresentable interface type; the quantifier is over every offending construct, position and depth.",
 [EM, TY],
 [("type conversion with error results", EM+": emit_scilla_type, emit_type_argument"), ("arity of built-in constructors", TY+": From<SrType> for Type")],
 ["Ok/Err of <str>.parse::<Contract>()"])

prop("C17", "Contract summaries compare, copy and build by their content alone",
 "Two summaries, and likewise two transitions, transition lists, fields or field lists, are equal exactly when they have the same names, types and entries in the same order, whether they were parsed or built by hand. A copy equals its original, a list built entry by entry holds exactly those entries in that order, and a constructed field or transition has exactly the given name, type and parameters.",
 ["inputs"],
 "pairs of generated summaries that are equal or differ by up to two changes (a name's letter case or last letter, blanks around it, an empty or non-identifier name, a nested type, order, repetition, an entry or parameter moved to the neighbouring list), parsed and built by hand",
 "The tests only assert equality of equal summaries; an equality that forgets a component, the order or a repetition passes them all.",
 [CT, FI, TR],
 [("derived equality and list wrappers", CT+", "+FI+", "+TR)],
 ["==, !=, clone, push, Deref of Contract, FieldList, Field, TransitionList, Transition"])

prop("C18", "Syntax trees are equal exactly when structure, texts and positions are",
 "Two syntax trees of the same category compare equal exactly when they have the same alternatives, children, literal and name texts and source positions throughout; in particular two parses of one text are equal, a copy equals its original, and trees that differ in any one part or position are unequal. Their ordering agrees with this: two trees compare as equal exactly when they are equal, swapping the sides reverses the answer, and the order is transitive.",
 ["programs"],
 "pairs of generated texts of every category: the same text, another layout, one token respelt (one letter, its case, leading zeros, blanks in a string), neighbouring tokens swapped, or damaged; the parsed trees compared both ways, and ordered together with a third one",
 "No test compares two trees; equality and copying of the some 60 node types is derived and never exercised on unequal values.",
 [NO, GR],
 [("derived equality and Clone of the node types", NO)],
 ["==, !=, <, <=, >, >=, partial_cmp, clone of every Node type and WithMetaData"])

prop("C19", "A syntax tree's summary is made of its own interface parts alone",
 "The summary emitted for a program tree, whether parsed or put together by hand from parsed parts, consists of exactly that tree's contract name, deployment parameters, fields and transitions in the tree's order, whatever its source positions and whatever its other parts. "
 "It equals the summary of parsing the text for a parsed tree, is the same each time, leaves the tree unchanged, and is refused with an error when an interface part cannot be represented.",
 ["programs"],
 "trees assembled from the parameters, fields, components, initialisers, bodies, constraints, libraries and imports of up to three parsed contracts: parts repeated, moved between deployment, transition and procedure, renamed, put in parentheses, given arbitrary positions, with and without an unrepresentable type",
 "No test emits a summary from anything but the tree of the same text; positions and combinations of parts that no text produced never occur.",
 [EM, NO, TY, VI],
 [("SrEmitter::emit walks the contract definition only", EM+":emit"),
  ("node types with public fields", NO+": NodeProgram, NodeContractDefinition")],
 ["SrEmitter::default().emit(&NodeProgram)"])

prop("C20", "Reading a text costs no more than in proportion to its size",
 "When a part of a text is repeated (entries, statements, clauses, tokens, characters of a token, comments or blanks, or nested constructs within the supported depth), the processor time and the memory needed to tokenise it, to parse it (whether it is accepted or rejected), to walk its tree and to make its summary grow no faster than the number of repetitions, up to a constant factor.",
 ["inputs"],
 "every sentence of every category with any part that may be repeated side by side (to some 60 000 times) or nested (to 190 levels), also ending in an offending token; texts of repeated tokens, of one long token, of long gaps and of tokens far apart, to some 600 KB",
 "The tests read texts of ordinary size, where quadratic or exponential work goes unnoticed; the quantifier is over all sizes and over every repeatable construct of the grammar.",
 [LX, GR, EM, VI, CT],
 [("lexer: one pass over the characters", LX+": Lexer::next"), ("list rules and the import list", GR+": ImportDeclarations and every rule with + or *"),
  ("one visit per node", EM+", "+VI)],
 ["processor time and allocations of Lexer, <Category>Parser::parse, AstVisitor::visit, SrEmitter::emit, <str>.parse::<Contract>()"])

prop("C21", "Reading has no effect but its result and leaves nothing behind",
 "Tokenising, parsing (of a text or a file), walking a tree and making a summary, whatever the outcome, do nothing besides giving their result: nothing is printed, no file is created, changed or left open, no thread or process is left running, "
 "the working directory, environment, signal handling, umask, limits and panic hook of the process stay as they were, and the memory in use afterwards does not grow with the number of texts read.",
 ["inputs", "histories"],
 "histories of repeated operations on contracts, texts of every category, damaged and arbitrary texts and files of every fault, with texts the same each time or different each time, under varying environments",
 "Tests look at results only; output, leaked descriptors, threads or memory go unnoticed, and a leak may need one particular kind of text.",
 [CT, LX, GR, EM, VI],
 [("Contract::parse reads the file and closes it", CT+": parse"), ("lexer and parser work on borrowed text without global state", LX+", "+GR)],
 ["effects of Contract::parse, <str>.parse::<Contract>(), Lexer, <Category>Parser::parse, AstVisitor::visit, SrEmitter::emit on the process and its files"])

prop("C22", "What a syntax error says was expected could really have come there",
 "Every token that the error of a rejected text lists as expected continues, in place of the blamed token or end of text, the tokens before it to something grammatical. The error returned when parsing a contract names all of the tokens so listed.",
 ["inputs"],
 "prefixes of generated sentences of every category followed by any impossible token or by the end of the text, in every layout, and damaged programs",
 "No test looks at an error's text; the quantifier is over all texts and all places in them.",
 [GR, ER, CT],
 [("lists of expected tokens of the generated parser", GR), ("Error::from(ParseError) keeps the error's text", ER)],
 ["expected in lalrpop_util::ParseError of <Category>Parser::parse; text of scilla_parser::Error"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")

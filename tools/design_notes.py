"""hand-written part of DESIGN.md, per property: technique (MANIFEST), oracle, reach, limits"""
N = {}


def n(i, technique, oracle, reach, limits=''):
    N[i] = dict(technique=technique, oracle=oracle, reach=reach, limits=limits)


n('Y01', 'property-based testing: generated LALR(1) grammars and inputs against a reference LALR(1) parser and Earley recogniser',
  'A from-scratch LALR(1) construction (vlib/gram.py: LR(1) closure merged by core, not the DeRemer-Pennello relations the program uses) simulated on the input; an Earley recogniser must agree with it on every input, so a defect of the model shows as an internal disagreement.',
  'Grammars are random, so the 60 stored grammars do not matter; `struct` composes lists, options, nesting and operators so that look-aheads travel through long chains, `big` has up to hundreds of tokens, rules and states (multi-word token sets, YYTABLESIZE packing with negative bases).')
n('Y02', 'property-based testing: reports compared with a reference LALR(1) automaton up to isomorphism',
  'The report is parsed; states are matched with those of the reference automaton by walking transitions from state 0; items, look-ahead sets (from the graph), actions, conflicts, totals and the symbol table are compared.',
  'Look-ahead sets are compared exactly, also where a wrong look-ahead would be hidden by a default reduction.')
n('Y03', 'property-based testing: conflict resolution compared with a model of the documented rules',
  'vlib/byacc.py resolves each cell of the reference automaton by the documented rules (see Y03), then counts and compares messages, exit status and tables; compiled parsers are compared with the simulation.',
  'Ambiguous operator grammars with random levels, %prec and mixed associativities reach combinations (three-way conflicts, equal levels, -z reduce/reduce) that no test file has.')
n('Y04', 'property-based testing: checksums of values and locations against a stack-of-values model',
  'Every action mixes all values and locations it names into a checksum and prints it; the model replays the reductions of the reference automaton on a stack of values.',
  'All kinds of reference ($i, $<tag>i, negative, in mid-rule actions, inherited arguments, @i, @$) under unions of differently sized members.')
n('Y05', 'property-based testing: traces of erroneous inputs against a model of the yacc recovery protocol',
  'A driver model (vlib/sim.py) written from the yacc documentation, run on the decoded automaton; traces (actions, yyerror, tokens read, YYRECOVERING, yynerrs, result) must be equal.',
  'Inputs with several errors at controlled distances, errors inside recovery, control macros at computed moments.')
n('Y06', 'property-based testing: identity-tracking ledger of values against a model',
  'Every token and every reduction creates a numbered value; the model says which action or destructor gets which number; for -B with trials a history invariant (exactly once) is used.',
  'Needs histories (error, discard, abort, overflow), which no test runs.')
n('Y07', 'property-based testing: backtracking parsers against a model of depth-first trial and an Earley recogniser',
  'A recursive depth-first model on the unresolved automaton gives the parse; Earley decides membership.',
  'Ambiguous and non-LALR grammars, where trials nest; trial actions with YYERROR/YYVALID depending on token values.')
n('Y08', 'property-based testing under AddressSanitizer: stack limits placed around the exact need of each input',
  'The model computes the depth every input needs; limits are chosen at, below and above it, and traces must equal the model or end in the overflow at the exact token.',
  'Growth happens at every possible moment (shift, empty reduction, after recovery), which one fixed limit cannot do.')
n('Y09', 'structured fuzzing (mutation, generation, token soup) under AddressSanitizer and UBSan',
  'Sanitizers, termination, exit status, diagnostics with an existing line, no temporary files.',
  'Boundary lengths (line buffer, cache, 4096 byte printing buffer), unfinished constructs and bytes that no test has.'
  )
n('Y10', 'metamorphic testing: output options against the plain run, repeated runs, linked parsers against separate ones',
  'The generated files under any options must equal those of the plain run up to the documented renaming; linked parsers must trace like each one alone.',
  'Combinations of about fifteen options; the tests use a handful.')
n('Y11', 'property-based testing: token numbering against the stated rule; foreign lexers under sanitizers',
  'The rule of the property computes every number; report, header and code must agree; a separately compiled lexer feeds undefined numbers.',
  'Numbers at the borders (0, 255, 256, maximum, INT_MAX) and with gaps.')
n('Y12', 'metamorphic testing: equivalent spellings give byte-identical output',
  'The plain spelling of the same specification; equality of all files.',
  'Layout combinations (comments inside rules, separators, CRLF, synonyms) are unbounded; nothing in the tests compares two spellings.')
n('Y13', 'property-based testing: marks in user code and the #line directives that apply to them',
  'Each line of user code carries a unique mark whose line number in the grammar is known; the output is interpreted like a C preprocessor would, and every mark must come out with file and line right.',
  'Every combination of code kinds, delimiters on or off the line, options -r -i -l -d.')
n('Y14', 'round-trip testing: export read by an independent parser, fed back to byacc, exported again',
  'Independent reader, reference automaton with resolution, fixpoint.', 'Names and literals of all kinds and lengths, mid-rule actions, %prec.')
n('Y15', 'differential testing: byacc against lemon on the export, and against the reference automaton',
  'Independent reader, lemon\'s verdict (conflicts, never-reduced rules) and parsers compiled from both.', 'Two generators of this repository with separate code check each other.')
n('Y16', 'property-based testing: listings read by independent parsers and compared rule by rule', 'Independent readers for the four listings.', 'Empty, mid-rule-only and long alternatives.')
n('Y17', 'round-trip testing through SQLite: tables and views compared with the grammar', 'SQLite (python) loads the script; tables, foreign keys and the printed grammar are compared.', 'Quotes, long names, empty first rules.')
n('Y18', 'fault injection by generated cases: full devices, size limits, directories in the way, failing calls, exhausted memory', 'The files of an undisturbed run, and the stated rule for the exit status and message; failing malloc/fopen/… by an LD_PRELOAD library that counts calls.', 'Every output file and every call number, under all options.')
n('Y19', 'property-based testing: emitted tables decoded for every state and token', 'Decoder of the yacc look-up rule; every (state, token number) and (state, nonterminal) pair is compared with the reference automaton after resolution, bounds checked.',
  'Packing depends on the whole grammar; every entry is looked up, also those no sentence reaches.')
n('Y20', 'property-based testing: traces of generated parsers against a model of the run', 'Driver models (recovery, and trials with -B) on the reference automaton that also write the messages; state numbers come from y.output, names and rule texts from the specification; the run without trace must be the same without them.',
  'Every kind of message in every combination; tokens whose names need quoting; values next to their symbols.')
n('Y21', 'property-based testing: generated parameter lists; nested and concurrent parses against runs of the model', 'The specification declares yyparse, yylex and yyerror itself (a wrong type does not compile) and compares every parameter with the value passed wherever user code runs; the run of every input, however nested or scheduled, must be that of the model of Y05. Part of the cases run under the thread sanitizer.', 'Eighteen shapes of declarations, layouts with comments and line breaks, both variants, -B, locations, -r -d -i -p, up to 60 parses in up to 4 threads, nested to any depth. Pure parsers with -B are not reentrant (known finding).')
n('L01', 'property-based testing: generated LALR(1) grammars and inputs against a reference LALR(1) parser and Earley recogniser', 'As Y01.', 'lemon has no tests at all; compression, renumbering and unit-rule shortcuts are toggled by options; the test `sizes` puts the number of symbols, states or actions next to 128 and 256, where the type of a table changes.')
n('L02', 'property-based testing: conflict resolution compared with a model of the documented rules', 'Resolution model of lemon (rule precedence, differing levels for reduce/reduce, %nonassoc errors).', 'As Y03; the test `multi` has operators that are multi-terminals of tokens with and without precedences.')
n('L03', 'property-based testing: the report and the tables compared with a reference automaton', 'The .out file parsed, the tables of the C file decoded, both compared with the reference automaton after the documented eliminations.', 'As Y02.')
n('L04', 'differential testing: lemon against byacc on the yacc export, and against the reference automaton', 'Independent reader, number of conflicts in both tools, parsers of both against Earley.', 'Multi-terminals, token classes and marks.')
n('L05', 'round-trip testing: reprint read back, reprinted, and compiled to the same parser', 'Independent reader; fixpoint; equality of report and parser.', 'All declarations and their order.')
n('L06', 'property-based testing: identity-tracking ledger of values', 'As Y06; on sentences also the children in the reference derivation.', 'Types, labels, destructors, failure and ParseFree histories.')
n('L07', 'stateful property-based testing: streams of hooks against a reference driver', 'A driver written from the comments of lempar.c on the LALR(1) automaton.', 'Several inputs on one parser, cut off at any token.')
n('L08', 'property-based testing: reference parser with fallback and wildcard', 'The reference tries the token, its fallbacks, then the wildcard.', 'Chains, cycles, wildcard with fallback, compressed tables.')
n('L09', 'property-based testing under sanitizers: stack limits and failing allocations around the exact need', 'Reference driver with a stack of the given size; allocator that fails at the n-th call and counts blocks.', 'As Y08.')
n('L10', 'structured fuzzing under AddressSanitizer and UBSan, and a catalogue of single wrong statements', 'Sanitizers, termination, exit status, diagnostics; for `reject` the expected message and line; for `valid` (grammars that use most declarations, labels, classes and code correctly) no message except the conflicts and unreachable rules.', 'As Y09.')
n('L11', 'property-based testing: condition trees evaluated independently; reference preprocessor on malformed files', 'The condition is generated as a tree and evaluated on the tree.', 'Nesting, operators, malformed conditions; line numbers after dropped text.')
n('L12', 'round-trip testing through SQLite: tables and views compared with the grammar', 'As Y17, plus lemon on the grammar that the views print.', 'Multi-terminals, classes, precedences, directives.')
n('L13', 'property-based testing: static assertions on __LINE__ and __FILE__ in generated user code, compiled in many modes', 'The C compiler evaluates the assertions; verbatim search; token tables; own #line directives; exported symbols by nm.', 'Any arrangement of code blocks, types, arguments, conditionals.')
n('L14', 'property-based testing and fault injection: generated paths, templates, options and unwritable files', 'The documented naming and search rules; complete files of an undisturbed run.', 'Dots in directories, missing extensions, long names, old files in the way.')
n('L15', 'model-based testing: histories of calls on traced parsers against a driver on the automaton of the report', 'A driver written from the comments of lempar.c that runs on the automaton read from the .out report (which L03 compares with the reference automaton) and writes the trace; own rule texts and numbers; the same history without trace and with NDEBUG.', 'One to three parsers interleaved, errors and recovery, fallbacks, wildcards, multi-terminals, conflicts, growing and overflowing stacks, changes of stream and prompt, coverage queries.')

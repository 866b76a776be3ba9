#!/usr/bin/env python3
"""writes properties.jsonl (the text of record is properties.jsonl; this keeps it well-formed)"""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'observe_at': observe, 'hook_needed': hook}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    assert len(title) <= 80, title
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why, 'anchors': a})


B = 'byacc/'
T542 = 'The 542 tests compare the text generated for about 60 fixed grammars with stored reference files; '

prop('Y01', 'Generated byacc parsers accept exactly the language of the grammar',
     'For every conflict-free LALR(1) grammar, the parser byacc generates (plain yacc, btyacc, and btyacc with -B) accepts an input iff it is a sentence of the grammar. '
     'On a sentence it runs the rule actions exactly in the order of the reversed rightmost derivation and returns 0; on any other input it calls yyerror exactly once, when the tokens read so far first stop being a prefix of a sentence, and returns 1. '
     'It never asks the lexer for more input than that.',
     ['programs', 'inputs'], 'every LALR(1) grammar (any number of symbols, rules and states) and every token sequence',
     T542 + 'none of them compiles or runs a generated parser, and none of the grammars is large or generated.',
     [B + 'lr0.c', B + 'lalr.c', B + 'closure.c', B + 'warshall.c', B + 'mkpar.c', B + 'output.c', B + 'yaccpar.c', B + 'btyaccpar.c'],
     [('LR(0) automaton', 'byacc/lr0.c generate_states, new_itemsets, get_state'), ('closure', 'byacc/closure.c closure, byacc/warshall.c'),
      ('LALR look-ahead relations', 'byacc/lalr.c build_relations, digraph, compute_lookaheads'), ('action rows', 'byacc/mkpar.c make_parser'),
      ('table packing', 'byacc/output.c output_actions, pack_table'), ('driver loop', 'byacc/yaccpar.c, byacc/btyaccpar.c body tables')],
     ['return value of yyparse', 'order of executed actions', 'yyerror calls', 'yylex calls'])

prop('Y02', 'The y.output and .dot reports describe exactly the LALR(1) automaton',
     'For every grammar, the states, kernel items, shifts, gotos and accepting state in the -v report, and the closure items, edges and look-ahead sets in the -g graph, are exactly (up to state numbering) those of the LALR(1) automaton of the grammar. '
     'The -v report lists the grammar rules in order with their numbers, for each state the surviving actions, and the two reports number states alike. '
     'Its totals, symbol table and conflict messages (states, rules, left-hand sides and symbols they name) are correct.',
     ['programs'], 'every grammar byacc accepts, with or without conflicts and precedence',
     T542 + 'most of their .output references do not even match today, so the reports are effectively untested.',
     [B + 'verbose.c', B + 'graph.c', B + 'lr0.c', B + 'lalr.c', B + 'closure.c', B + 'reader.c'],
     [('state report', 'byacc/verbose.c print_state, print_core, print_actions, print_gotos'), ('conflict report', 'byacc/verbose.c print_conflicts, log_conflicts, log_unused'),
      ('graph report', 'byacc/graph.c graph_state, graph_LA'), ('rule listing', 'byacc/reader.c print_grammar'), ('look-aheads', 'byacc/lalr.c')],
     ['y.output', 'y.dot'])

prop('Y03', 'Conflicts are counted, resolved and reported by the documented rules',
     'For every grammar with any mix of %left/%right/%nonassoc/%precedence, %prec, -u and -z, byacc counts as conflicts exactly those that precedence does not decide: precedence of the rule (its last token, its first ranked token under -z, or %prec) against the look-ahead token, then associativity; -u ignores all precedence and -z also decides reduce/reduce by rule precedence. '
     'A remaining shift/reduce conflict is resolved by shifting, a reduce/reduce one by the earlier rule, and the parser behaves accordingly. '
     'The shift/reduce, reduce/reduce and never-reduced-rule counts and the size totals on stderr are exact, and the exit status is 1 iff %expect or %expect-rr names a different count while conflicts exist.',
     ['programs', 'configurations', 'inputs'], 'every ambiguous or unambiguous grammar, every precedence table, every combination of -u, -z, %expect and %expect-rr',
     T542 + 'they fix a handful of precedence tables and never run the resulting parser; README.md only lists cross-tool conflict counts by hand.',
     [B + 'mkpar.c', B + 'reader.c', B + 'main.c'],
     [('resolution', 'byacc/mkpar.c remove_conflicts'), ('default reductions', 'byacc/mkpar.c sole_reduction'), ('totals and %expect', 'byacc/mkpar.c total_conflicts, unused_rules'),
      ('rule precedence', 'byacc/reader.c pack_grammar, mark_symbol, declare_tokens')],
     ['stderr totals', 'exit status', 'actions executed by the generated parser'])

prop('Y04', 'Semantic values and locations reach the actions they are written for',
     'In every rule, $i and $<tag>i denote the value of the i-th right-hand-side symbol (counting mid-rule actions), $0 and negative indices the values below it on the stack, $$ the value of the left-hand side, and a mid-rule action\'s $$ the value seen by later actions as its position; %type/%token/%union tags select the right union member. '
     'A rule without an action passes on $1. '
     'With -L / %locations, @i and @$ are the locations of the same symbols, @$ spanning first to last symbol.',
     ['programs', 'inputs'], 'every conflict-free grammar with typed or untyped symbols, rules of any length, mid-rule actions anywhere, and every sentence',
     T542 + 'values computed by a generated parser are never observed.',
     [B + 'reader.c', B + 'output.c', B + 'yaccpar.c', B + 'btyaccpar.c'],
     [('action translation', 'byacc/reader.c copy_action, process_action_verb'), ('mid-rule actions', 'byacc/reader.c insert_empty_rule'), ('value stack', 'byacc/yaccpar.c, byacc/btyaccpar.c yyreduce')],
     ['values printed by actions', 'locations printed by actions'])

prop('Y05', 'Error recovery follows the yacc protocol on every erroneous input',
     'When the grammar has error rules, a generated parser that meets an invalid token calls yyerror (once, unless fewer than three tokens were shifted since the last error), pops states until one can shift `error`, shifts it, discards tokens until one is acceptable, and resumes; with no such state, or when end of input must be discarded, it returns 1. '
     'YYERROR starts recovery without calling yyerror, yyerrok ends it at once, yyclearin drops the look-ahead, YYABORT and YYACCEPT return 1 and 0, YYRECOVERING() tells whether recovery is in progress, and yynerrs counts the errors.',
     ['programs', 'inputs', 'histories'], 'every conflict-free grammar with error productions and every token sequence, with any mix of the recovery macros in actions',
     T542 + 'a dozen of their grammars mention `error`, but no parser is run on an erroneous input.',
     [B + 'yaccpar.c', B + 'btyaccpar.c', B + 'mkpar.c', B + 'output.c'],
     [('recovery loop', 'byacc/yaccpar.c body_3 yyinrecovery; byacc/btyaccpar.c yyinrecovery'), ('recovery macros', 'byacc/yaccpar.c YYERROR yyerrok yyclearin YYRECOVERING'), ('error symbol in default reductions', 'byacc/mkpar.c sole_reduction')],
     ['sequence of actions, yyerror and yylex calls, return value, yynerrs'])

prop('Y06', 'Every semantic value is consumed or destroyed exactly once',
     'In a btyacc parser with %destructor for some tokens or nonterminals (by symbol, by <tag>, <*> or <>), every value that leaves the parser without being handed to a completed action (symbols popped or tokens discarded in error recovery, everything left on the stack after failure, YYABORT or stack overflow) has the applicable destructor run on it exactly once. '
     'No destructor runs for a value consumed by a reduction, and the most specific declared destructor is the one that runs.',
     ['programs', 'inputs', 'histories'], 'every grammar with destructors and error rules, every input sequence, including tokens left over after failure',
     T542 + 'three grammars use %destructor and none is executed.',
     [B + 'btyaccpar.c', B + 'reader.c', B + 'output.c'],
     [('destructor dispatch', 'byacc/output.c output_yydestruct_impl'), ('destructor selection', 'byacc/reader.c finalize_destructors'), ('discard sites', 'byacc/btyaccpar.c yyabort, yyinrecovery, YYDESTRUCT_CALL')],
     ['allocation ledger kept by the lexer, actions and destructors'])

prop('Y07', 'A backtracking parser finds a parse whenever one of its trials succeeds',
     'With -B, a parser for a grammar with shift/reduce or reduce/reduce conflicts accepts an input iff depth-first trial of the conflicting alternatives, shift first and then the reductions in rule order, reaches acceptance, and it then runs ordinary actions exactly once, in derivation order, for the parse found, with the right semantic values. '
     'During trials no ordinary action runs, the lexer is asked for each token once, and a failed input is reported by yyerror at a token at which a trial got stuck, with a failure status.',
     ['programs', 'inputs', 'histories'], 'every grammar with conflicts (without infinite trial loops) and every token sequence',
     T542 + 'the btyacc demos are compared as text and never run.',
     [B + 'btyaccpar.c', B + 'output.c', B + 'mkpar.c'],
     [('trial parsing', 'byacc/btyaccpar.c yyNewState, yyps, yyerrctx, yypath'), ('conflict table', 'byacc/output.c token_actions, find_conflict_base, output_ctable'), ('conflict marking', 'byacc/mkpar.c StartBacktrack')],
     ['acceptance', 'executed actions and values', 'yylex calls', 'yyerror'])

prop('Y08', 'Parser stacks grow without corruption and overflow is reported, not hidden',
     'A generated parser gives the same result on deeply nested input whatever YYINITSTACKSIZE and YYMAXDEPTH are, as long as the depth fits, with all values and locations preserved across stack growth and with no invalid memory access. '
     'When the depth would exceed YYMAXDEPTH (or the initial allocation, if that is larger) it calls yyerror and returns 2 (1 from the plain yacc driver), and never before; yyparse can then be called again.',
     ['inputs', 'configurations'], 'every nesting depth around the growth and overflow thresholds, every stack-size setting, plain, -L, -P and -B parsers, repeated calls',
     T542 + 'no generated parser is run, let alone with 10000 nested tokens.',
     [B + 'yaccpar.c', B + 'btyaccpar.c'],
     [('growth', 'byacc/yaccpar.c yygrowstack; byacc/btyaccpar.c yygrowstack'), ('overflow', 'byacc/yaccpar.c yyoverflow label; byacc/btyaccpar.c yyoverflow label')],
     ['return value', 'computed values', 'sanitizer reports of the generated parser'])

prop('Y09', 'byacc handles any input file without crashing, hanging or corrupting memory',
     'For every byte sequence given as grammar file and every option combination, byacc terminates, exits with status 0 or 1 (with a diagnostic naming the file and line for a rejected grammar), performs no invalid memory access or undefined behaviour, and leaves no temporary file behind.',
     ['inputs', 'configurations'], 'every file content (valid, truncated, mutated, binary, with extreme lengths of names, rules, actions, strings) and every option set',
     T542 + 'they include about 40 fixed malformed files; buffers only grow on sizes none of them reaches and no sanitizer is used.',
     [B + 'reader.c', B + 'error.c', B + 'main.c', B + 'mstring.c', B + 'symtab.c', B + 'output.c', B + 'lalr.c', B + 'lr0.c'],
     [('lexing of declarations', 'byacc/reader.c nextc, get_line, skip_comment, copy_string'), ('diagnostics', 'byacc/error.c'), ('growing buffers', 'byacc/reader.c expand_items expand_rules, byacc/mstring.c, byacc/lalr.c add_lookback_edge'), ('cleanup', 'byacc/main.c done, open_tmpfile')],
     ['exit status', 'stderr', 'sanitizer reports', 'temporary directory'])

prop('Y10', 'Output options rename or add files but never change the parser, and runs repeat',
     'For every grammar, -o, -b, -p, -d, -H, -r, -i, -l, -t, -v, -g, -s, long option spellings and reading the grammar from standard input change only file names, symbol prefixes, #line lines and the extra files: tables, actions and behaviour stay the same. '
     'Running byacc twice on the same grammar gives byte-identical files, and several parsers with different -p prefixes link and work in one program.',
     ['programs', 'configurations'], 'every grammar and every combination of the listed options',
     T542 + 'each option is used with one or two grammars.',
     [B + 'main.c', B + 'output.c', B + 'mkpar.c'],
     [('option handling', 'byacc/main.c getargs, setflag, create_file_names'), ('prefixing', 'byacc/output.c output_prefix, define_prefixed'), ('code file split', 'byacc/output.c output, write_section')],
     ['generated files', 'behaviour of linked parsers'])

prop('Y11', 'Token numbers are consistent, unique and usable by any lexer',
     'In every generated parser the number of each token is its explicit number if one is declared, the character code for a character literal, and otherwise a distinct number above 256 not used by any other token; `error` is 256 and end of input is 0 unless declared otherwise. '
     'The header written by -d / -H defines exactly the named tokens with the numbers the parser uses (with enum/#define forms equal, and string-named tokens defined unless -s), and an input with an undefined token number is a syntax error, never a table overrun.',
     ['programs', 'configurations', 'inputs'], 'every token declaration mix (explicit numbers, literals with escapes, strings, aliases), every integer returned by the lexer',
     T542 + 'explicit token numbers, escapes and foreign token numbers occur in a few grammars, none executed.',
     [B + 'reader.c', B + 'output.c', B + 'symtab.c'],
     [('numbering', 'byacc/reader.c assign values in pack_symbols'), ('literal names', 'byacc/reader.c get_literal'), ('header', 'byacc/output.c output_defines, output_token_table'), ('translation', 'byacc/output.c YYTRANSLATE, yycheck bounds')],
     ['y.tab.h', 'behaviour on returned token numbers', 'yyname table'])

prop('Y12', 'Spelling and layout of a specification never change the parser',
     'Whitespace, line breaks, comments of both kinds, optional semicolons, | versus repeated left-hand sides, %empty, synonyms of the declaration keywords (any letter case, old \\ spellings, % marks), splitting or merging %token lines, and CRLF line ends leave the generated tables, token numbers and reports unchanged. '
     'Code parts (prologue, actions, epilogue) are not affected by braces, quotes or comment marks inside their strings, character constants and comments.',
     ['programs'], 'every grammar and every combination of equivalent spellings',
     T542 + 'each grammar is spelled once.',
     [B + 'reader.c'],
     [('lexical layer', 'byacc/reader.c nextc, skip_comment, keyword, get_line'), ('rules', 'byacc/reader.c read_grammar, add_symbol, start_rule, end_rule, mark_symbol'), ('code copying', 'byacc/reader.c copy_text, copy_action, copy_string, copy_comment')],
     ['generated tables and reports of two spellings'])

prop('Y13', 'User code is copied unchanged and its #line numbers are right',
     'Every byte of the prologue, %code blocks, %union, actions and epilogue reaches the generated files unchanged (apart from $ and @ references), in the documented place and order. '
     'Every #line directive is correct: code from the grammar is attributed to its own line of the grammar file (or to the line and file that a #line directive in the grammar gives it; one inside code is kept with the code), and generated code to its own line of the generated file; -l removes the directives and nothing else.',
     ['programs', 'configurations'], 'every specification with arbitrary C text in each code section, with -l, -r, -d, -o and -i',
     T542 + 'with short hand-written code parts.',
     [B + 'reader.c', B + 'output.c', B + 'error.c'],
     [('copying', 'byacc/reader.c copy_text, copy_code, copy_action, copy_union, copy_string_to'), ('line directives', 'byacc/output.c write_code_lineno, write_input_lineno, byacc/reader.c line_format'), ('epilogue', 'byacc/output.c output_trailing_text')],
     ['generated files', '__LINE__ / __FILE__ observed by the compiled parser', 'strings printed by the actions'])

prop('Y14', 'The naked-grammar export (-n) is an equivalent grammar without actions',
     'For every grammar, the y.yn file written by -n is accepted by byacc, declares the same tokens and precedences, has the same rules in the same order with the same %prec marks (mid-rule actions are left out like all others), and yields the same automaton, conflict counts and parse of every input as the grammar without its mid-rule actions. '
     'Exporting the export gives the same text again.',
     ['programs'], 'every grammar with any declarations, literals, %prec, %empty and mid-rule actions',
     'No test uses -n.',
     [B + 'reader.c', B + 'main.c'],
     [('export', 'byacc/reader.c print_grammar_naked'), ('precedence lines', 'byacc/reader.c print_symbol_prec_assoc_commented')],
     ['y.yn', 'tables generated from it'])

prop('Y15', 'The lemon export (-E) gives lemon an equivalent grammar',
     'For every grammar, the .yl file written by -E is accepted by lemon and defines the same language: under the renaming of tokens and nonterminals it has the same rules in the same order, the same start symbol, precedences and associativities. '
     'A lemon parser made from it (with yacc precedence rules) accepts the same inputs and reports as many conflicts as byacc does.',
     ['programs', 'inputs'], 'every grammar with named and literal tokens, precedences and %prec',
     'No test uses -E; README.md shows hand-made comparisons of a few grammars.',
     [B + 'reader.c', 'lemon/lemon.c'],
     [('export', 'byacc/reader.c print_grammar_lemon'), ('token names', 'byacc/reader.c get_lemon_token_name'), ('nonterminal names', 'byacc/reader.c get_lemon_rule_name')],
     ['the .yl file', 'lemon on it', 'both parsers on the same inputs'])

prop('Y16', 'The EBNF export (-e) and other listings show exactly the grammar rules',
     'The EBNF file written by -e contains, for every nonterminal in order, exactly its alternatives with the symbols in order, an empty alternative marked as such, and nothing else but comments. '
     'So do the listings for other tools (-N quoted naked grammar, -C UniCC, -c carburetta), which also show the tokens, the precedence levels and the %prec marks.',
     ['programs'], 'every grammar',
     'No test uses -e, -N, -C or -c.',
     [B + 'reader.c'],
     [('export', 'byacc/reader.c print_grammar_ebnf, print_grammar_nakedQ, print_grammar_unicc, print_grammar_carburetta')],
     ['the exported files'])

prop('Y17', 'The SQL export (-S) is loadable and reproduces the grammar',
     'For every grammar, the script written by -S loads into SQLite without error and its tables hold exactly the grammar: every symbol with its kind, every precedence level with associativity and members, every rule with its symbols in order, and the start symbol. '
     'The views derived from them (rules, tokens, precedences, whole grammar) print that grammar.',
     ['programs'], 'every grammar, including names and literals with quotes or other special characters',
     'No test uses -S.',
     [B + 'reader.c'],
     [('export', 'byacc/reader.c print_grammar_sql'), ('quoting', 'byacc/reader.c escape_sql')],
     ['database contents after loading the script'])

prop('Y18', 'Exit status, diagnostics and output files tell the truth about the run',
     'byacc exits 0 iff it completed and every requested output file is complete; an unusable grammar, an unwritable or unopenable file, a full disk or a bad option give a non-zero status and a message on stderr. '
     'It writes exactly the files asked for (code, -d/-H header, -r, -i, -v, -g, exports) under the requested names, and a syntax error is reported at the line where it occurs.',
     ['configurations', 'fault_sequences', 'inputs'], 'every option set, grammar error kind and position, and failing file operation',
     T542 + 'a few option errors and read-only files are covered for one grammar.',
     [B + 'main.c', B + 'error.c', B + 'output.c', B + 'reader.c'],
     [('files', 'byacc/main.c open_files, create_file_names, done'), ('diagnostics', 'byacc/error.c'), ('option parsing', 'byacc/main.c getargs')],
     ['exit status', 'stderr', 'directory contents'])

prop('Y19', 'The packed tables encode every action of the automaton, and only those',
     'For every grammar, decoding the emitted tables for every state and every possible token number gives exactly the shift, reduction, accept or error that the automaton (after conflict resolution and default reductions) prescribes, and for every state and nonterminal the right goto. '
     'Rule lengths and left-hand sides match the grammar, and no lookup the driver can make reaches outside a table.',
     ['programs', 'inputs'], 'every grammar of every size and every pair of a state and a token or nonterminal, -B conflict lists included',
     T542 + 'with tables of at most a few hundred entries.',
     [B + 'output.c', B + 'mkpar.c'],
     [('packing', 'byacc/output.c token_actions, goto_actions, sort_actions, pack_vector, matching_vector'), ('emission', 'byacc/output.c output_rule_data, output_base, output_table, output_check, output_ctable'), ('element types', 'byacc/output.c output_yyint_typedef, int table size')],
     ['arrays in the generated C file'])

prop('Y20', 'The debugging trace tells exactly what the parser does and changes nothing',
     'In every parser whose trace is compiled in (-t, %debug, YYDEBUG) and switched on (yydebug or the environment variable), the messages report exactly the run: every token read, shift, reduction, goto, error recovery step and every start, failure, success and replay of a trial, in order, with the depth of the stack, the state numbers of y.output, the numbers and names of the tokens and the numbers and texts of the rules, and with YYSTYPE_TOSTRING each value next to the symbol it belongs to. '
     'Names and rule texts show the symbols as written, whatever characters they contain. With the trace off the parser does the same without the messages.',
     ['programs', 'inputs', 'configurations'], 'every grammar, every input, both drivers, with and without -B, -r and -p',
     T542 + 'no parser is run with its trace on, and no state number or name in a trace is compared with anything.',
     [B + 'output.c', B + 'yaccpar.c', B + 'btyaccpar.c'],
     [('names and rule texts', 'byacc/output.c output_debug'), ('symbols of the states', 'byacc/output.c output_accessing_symbols'), ('messages', 'byacc/yaccpar.c, byacc/btyaccpar.c #if YYDEBUG')],
     ['trace on stdout (yacc) or stderr (btyacc)', 'behaviour with the trace off'])

prop('Y21', 'Parameters arrive as declared, and pure parsers keep their state to themselves',
     'For every list of parameters declared by %parse-param and %lex-param, in however many directives, brace pairs and comma lists and whatever white space, line breaks and comments, yyparse, yyerror, the destructors and the actions have exactly the declared parameters, in order and with their types, and yylex those of %lex-param (behind the value and location of a pure parser), and each call passes the values of this parse. '
     'A pure parser depends on nothing but its arguments: parses that run inside one another, from yylex or an action, or at the same time in several threads, each do exactly what they do alone.',
     ['programs', 'schedules', 'histories', 'configurations'], 'every parameter list and layout, every nesting and schedule of parses',
     T542 + 'no pure parser is ever run twice at a time.',
     [B + 'reader.c', B + 'output.c', B + 'yaccpar.c', B + 'btyaccpar.c'],
     [('parameter lists', 'byacc/reader.c copy_param, save_param'), ('declarations', 'byacc/output.c output_parse_decl, output_lex_decl, output_error_decl, output_yydestruct_decl'), ('pure parsers', 'byacc/output.c output_pure_parser, byacc/yaccpar.c and byacc/btyaccpar.c body_vars')],
     ['values of the parameters at every place', 'reductions, errors and results of every parse'])

LM = 'No test runs lemon at all; '
F = ['lemon/lemon.c', 'lemon/lempar.c']
prop('L01', 'Generated lemon parsers accept exactly the language of the grammar',
     'For every conflict-free LALR(1) grammar, the parser lemon generates accepts an input iff it is a sentence, runs the rule actions exactly in the order of the reversed rightmost derivation and calls %parse_accept; on any other input it reports %syntax_error at the first token that cannot continue a sentence. '
     'This holds with table compression on or off (-c), re-sorting on or off (-r), and with the number of tokens and rules at any size.',
     ['programs', 'inputs', 'configurations'], 'every LALR(1) grammar, every token sequence, every combination of -c, -r, -m, -l, -s, -q, -p',
     LM + 'and no grammar is generated.',
     F, [('automaton', 'lemon/lemon.c FindStates, getstate, buildshifts, Configlist_closure'), ('look-aheads', 'lemon/lemon.c FindLinks, FindFollowSets, FindFirstSets'), ('actions', 'lemon/lemon.c FindActions, CompressTables, ResortStates'), ('tables', 'lemon/lemon.c acttab_insert, ReportTable'), ('driver', 'lemon/lempar.c yy_find_shift_action, yy_reduce, Parse')],
     ['accept, syntax-error and reduce hooks of the generated parser'])
prop('L02', 'lemon counts, resolves and reports conflicts by its precedence rules',
     'For every grammar and precedence table lemon resolves a conflict by the precedence of the rule (its first token with a precedence, or the [TOKEN] mark; in yacc mode -z or %yacc_prec the last token) against the look-ahead, then associativity, and reduce/reduce by differing rule precedences; %nonassoc at equal precedence gives an error. '
     'Everything else counts as a conflict, resolved by shifting or by the earlier rule; -u ignores all precedences. '
     'The number of conflicts printed is exact, the exit status is 0 iff it equals %expect (default 0) and no error was reported, and the parser behaves as resolved.',
     ['programs', 'configurations', 'inputs'], 'every grammar, precedence table and combination of -u, -z, %expect',
     LM + 'README.md compares a few conflict counts by hand.',
     F, [('resolution', 'lemon/lemon.c resolve_conflict, FindActions'), ('rule precedence', 'lemon/lemon.c FindRulePrecedences'), ('counting', 'lemon/lemon.c main'), ('error actions', 'lemon/lemon.c CompressTables')],
     ['stdout statistics', 'exit status', 'behaviour of the generated parser'])
prop('L03', 'The .out report of lemon describes exactly the automaton it built',
     'For every grammar, the states, items and actions in the .out file are (up to numbering and auto-reduce elimination) those of the LALR(1) automaton after conflict resolution, with conflicting actions marked; the symbol list, FIRST sets, rule list and statistics (-s) are correct.',
     ['programs', 'configurations'], 'every grammar, with -b, -p, -c, -r',
     LM + 'the report is never read.',
     ['lemon/lemon.c'], [('report', 'lemon/lemon.c ReportOutput, PrintAction, ConfigPrint'), ('statistics', 'lemon/lemon.c main stats_line'), ('state construction', 'lemon/lemon.c FindStates, CompressTables, ResortStates')],
     ['.out file', 'statistics'])
prop('L04', 'The yacc export of lemon (-y, -Y) gives byacc an equivalent grammar',
     'For every lemon grammar, the file written by -y or -Y is accepted by byacc and has the same rules, start symbol and (with -Y, full) precedences, with multi-terminals expanded into their alternatives. '
     'A byacc parser made from it accepts the same inputs and has as many conflicts as lemon reports under yacc precedence rules.',
     ['programs', 'inputs'], 'every lemon grammar with precedences, rule marks, multi-terminals and token declarations',
     LM + 'README.md shows some hand-made conversions.',
     ['lemon/lemon.c', B + 'reader.c'], [('export', 'lemon/lemon.c Reprint_as_yacc paths, rule_print_yacc'), ('precedence lines', 'lemon/lemon.c print_prec helpers')],
     ['exported grammar', 'byacc on it', 'both parsers on the same inputs'])
prop('L05', 'Reprinting a grammar with lemon -g preserves it and is stable',
     'For every grammar, the text printed by -g is accepted by lemon, has the same rules, start symbol, precedences, fallbacks, wildcard and token classes (so the same automaton and conflicts), and reprinting it gives the same text.',
     ['programs'], 'every lemon grammar without preprocessor conditionals',
     LM + 'the reprint is never parsed again.',
     ['lemon/lemon.c'], [('reprint', 'lemon/lemon.c Reprint, rule_print')],
     ['output of -g', 'lemon on that output'])
prop('L06', 'Each lemon value reaches the action that names it, or its destructor, once',
     'In every lemon parser a label in an action denotes the value of its symbol (the left-hand side, any right-hand-side position, @label the major token code), with %type, %token_type and %default_type selecting the right storage. '
     'Every value that is not bound to a label in the action that consumes it, or that is popped in error recovery, parse failure, stack overflow or ParseFree, has its %destructor, %token_destructor or %default_destructor run on it exactly once, and a value bound to a label is never destroyed. The value of the start symbol at %parse_accept is left to the application.',
     ['programs', 'inputs', 'histories'], 'every grammar with labels, types and destructors, every input, including parsers freed in the middle of a parse',
     LM + 'no action is ever executed.',
     F, [('label translation', 'lemon/lemon.c translate_code, append_str, emit_code'), ('destructor emission', 'lemon/lemon.c emit_destructor_code, has_destructor'), ('stack clean-up', 'lemon/lempar.c yy_pop_parser_stack, yy_destructor, ParseFinalize')],
     ['value ledger kept by lexer, actions and destructors'])
prop('L07', 'lemon parsers recover from errors and report them by the documented hooks',
     'On an invalid token a lemon parser runs %syntax_error unless fewer than three tokens were shifted since the last error, and with an `error` symbol pops to a state above the initial one that can shift it, then discards tokens until parsing can go on; without one it discards the token. '
     'When no recovery is possible, at end of input in particular, it runs %parse_failure once and is ready for a new input; %parse_accept runs exactly once per accepted input.',
     ['programs', 'inputs', 'histories'], 'every grammar with or without error rules, every token sequence, several inputs in sequence on one parser',
     LM + 'so no recovery path is executed.',
     F, [('recovery', 'lemon/lempar.c Parse YYERRORSYMBOL part'), ('hooks', 'lemon/lempar.c yy_syntax_error, yy_parse_failed, yy_accept'), ('error symbol', 'lemon/lemon.c FindActions, error count')],
     ['sequence of hooks, actions and destructors'])
prop('L08', '%fallback, %wildcard and %token_class widen the language exactly as declared',
     'A token with a %fallback is used as its fallback exactly when it would otherwise be an error (transitively), %wildcard matches any token exactly when neither the token nor its fallback has an action, and a %token_class or a|b|c multi-terminal matches exactly its members. '
     'Tokens that fit as themselves are never replaced.',
     ['programs', 'inputs'], 'every grammar with fallback, wildcard and token-class declarations, every token sequence',
     LM + 'so these lookups are never executed.',
     F, [('lookup', 'lemon/lempar.c yy_find_shift_action YYFALLBACK, YYWILDCARD'), ('declarations', 'lemon/lemon.c parseonetoken WAITING_FOR_FALLBACK_ID, WAITING_FOR_WILDCARD_ID, WAITING_FOR_CLASS_TOKEN'), ('tables', 'lemon/lemon.c ReportTable fallback table')],
     ['acceptance and reductions'])
prop('L09', 'lemon parser stacks grow or overflow safely at exactly their limit',
     'With %stack_size N a lemon parser handles every input needing at most the stack available and, on deeper ones, runs %stack_overflow once, destroys the values on the stack and accepts a new input; with %stack_size 0 the stack grows as needed with all values preserved. '
     'No depth or input leads to an invalid memory access.',
     ['inputs', 'configurations'], 'every nesting depth around each limit, every stack size, repeated inputs',
     LM + 'so no limit is ever reached.',
     F, [('growth', 'lemon/lempar.c yyGrowStack'), ('overflow', 'lemon/lempar.c yyStackOverflow, yy_shift'), ('limits in reduce', 'lemon/lempar.c Parse do/while reduce check')],
     ['hooks', 'values', 'sanitizer reports of the generated parser'])
prop('L10', 'lemon handles any input file without crashing, hanging or corrupting memory',
     'For every byte sequence given as grammar file and every option combination, lemon terminates, exits with a normal status (non-zero with a diagnostic naming file and line for a rejected grammar), and performs no invalid memory access or undefined behaviour. A grammar in which nothing is wrong is accepted without any message but those on conflicts and unreachable rules.',
     ['inputs', 'configurations'], 'every file content and every option set',
     LM + 'and no sanitizer is used.',
     ['lemon/lemon.c'], [('tokenizer', 'lemon/lemon.c Parse'), ('declaration automaton', 'lemon/lemon.c parseonetoken'), ('messages', 'lemon/lemon.c ErrorMsg, file_makename')],
     ['exit status', 'stderr', 'sanitizer reports'])
prop('L11', 'Preprocessor conditionals select exactly the text their conditions call for',
     '%ifdef, %ifndef, %if with &&, ||, ! and parentheses, %else and %endif, nested to any depth and under every set of -D macros, keep exactly the selected lines, line numbers in diagnostics and #line directives stay those of the original file, and -E prints the text that is parsed. '
     'Unbalanced or malformed conditionals are rejected.',
     ['programs', 'configurations'], 'every nesting of conditionals and every set of defined macros',
     LM + 'so no conditional is ever evaluated.',
     ['lemon/lemon.c'], [('preprocessor', 'lemon/lemon.c preprocess_input'), ('conditions', 'lemon/lemon.c eval_preprocessor_boolean')],
     ['output of -E', 'generated parser', 'exit status'])
prop('L12', 'The SQL output of lemon (-S) is loadable and reproduces the grammar',
     'For every grammar the .sql file loads into SQLite without error and holds exactly the grammar: every symbol with its kind, precedence, associativity and fallback, every rule with its symbols in order and its precedence mark, and the start symbol; the derived views print that grammar.',
     ['programs'], 'every lemon grammar',
     LM + 'the SQL is never loaded.',
     ['lemon/lemon.c'], [('export', 'lemon/lemon.c ReportSQL paths, writeRuleText')],
     ['database contents after loading the file'])
prop('L13', 'lemon output compiles, names things as declared and maps lines correctly',
     'For every grammar the .c file compiles without errors in the declared modes; the .h file defines exactly the terminals with the codes the parser uses, prefixed by %token_prefix; %name, %extra_argument, %extra_context, %include, %code and the type directives appear as declared with user code unchanged; and every #line directive is correct for grammar and generated file (none with -l). '
     'Running lemon twice gives identical files, and -q, -s and -p change no generated file.',
     ['programs', 'configurations'], 'every grammar with arbitrary C text in the code sections, every combination of -l, -m, -d, -c, -r, -T',
     LM + 'no generated file is compiled.',
     F, [('generation', 'lemon/lemon.c ReportTable, tplt_xfer, tplt_print, tplt_linedir'), ('header', 'lemon/lemon.c ReportHeader'), ('file names', 'lemon/lemon.c file_makename, file_open, pathsearch')],
     ['generated files', 'compiler', '__LINE__ observed in actions'])
prop('L14', 'lemon reads and writes exactly the files asked for, or says that it cannot',
     'For every grammar name and set of options lemon writes exactly the files asked for (.c, .h unless -m, .out unless -q, .sql with -S), named after the grammar and in its directory or that of -d, replacing what was there, and uses the template of -T, NAME.lt, ./lempar.c or the directory of the program, in this order. '
     'A file that cannot be opened or written completely, a missing template and an unusable grammar give status 1 and a message naming it. A header whose contents would not change is left alone, and any other is brought up to date.',
     ['inputs', 'configurations', 'fault_sequences'], 'every path, option combination and failing output file',
     LM + 'no file is ever unwritable.',
     F, [('file names', 'lemon/lemon.c file_makename, file_open, file_close'), ('template', 'lemon/lemon.c tplt_open, pathsearch'), ('header', 'lemon/lemon.c ReportHeader')],
     ['files written', 'exit status', 'stderr'])

prop('L15', 'A lemon parser traces, and reports as coverage, exactly what it did',
     'For every grammar, option set and history of calls, on one parser or several, every line ParseTrace makes the parser write (tokens read, shifts, reductions with rule number and text, states returned to, fallbacks, wildcards, errors, symbols popped, growth and overflow of the stack, acceptance, '
     'failure, the stack on return) describes the step the parser takes, with the state and rule numbers of the .out report, behind the prompt given, on the stream given, from the call that turns it on to the one that turns it off. Tracing, and compiling without it, does not change what the parser does. '
     'ParseCoverage lists every pair of a state and a token on which that state has an action other than a syntax error, marks those used by any parser so far, and counts the others; ParseFallback names the fallback of every token.',
     ['inputs', 'histories', 'configurations'], 'every grammar, history of calls on any number of parsers, and switch of the trace',
     LM + 'no generated parser is traced.',
     F, [('trace', 'lemon/lempar.c ParseTrace, yyTraceShift, yy_find_shift_action, Parse'), ('coverage', 'lemon/lempar.c ParseCoverage'), ('names and rule texts', 'lemon/lemon.c ReportTable, writeRuleText')],
     ['trace output', 'actions and hooks run', 'coverage report'])

if __name__ == '__main__':
    d = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(d, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
    try:
        import jsonschema
        s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
        for p in P:
            jsonschema.validate(p, s)
            n = p['statement'].count('. ') + 1
            if n > 3:
                print(p['id'], 'sentences', n)
    except ImportError:
        pass
    print(len(P))

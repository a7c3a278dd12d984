#!/usr/bin/env python3
# Regenerates properties.jsonl and MANIFEST.json (committed) from one table.
import json
T='src/tool/'; R='src/runtime/'
I=['inputs']; 
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,tech,note,state=()):
    P.append(dict(id=id,title=title,statement=statement,over=over,q=qtext,why=why,files=files,mech=mech,observe=observe,tech=tech,note=note,state=state))
M=lambda *a:[{"name":n,"where":w} for n,w in a]
p('C01','Scanned tokens tile the input with exact positions',
 "For every input text, the tokens that a notation lexer hands out cover the text from its start without gap or overlap: each token's text is exactly the input between its start and stop offset, its line and column follow from the text before it, and tokens are numbered 0, 1, 2, ... Scanning goes on to the first place where no lexical rule matches; a failing scan consumes nothing and fails again. A lexer that announces the end of the input does so exactly once, at the end of the text.",
 I,"every UTF-8 text, including multi-byte characters, CR/LF mixes, text cut off inside a token, and the empty text",
 "One fixed text is scanned and the result only printed; offsets, lines, columns, the end marker and failing scans are never compared.",
 [R+'lexer.rs',R+'token.rs',T+'v1/syntaxis_lexer.rs',T+'syntaxis/syntaxis_lexer.rs'],
 M(('cursor and position advance together','scan() of both lexers'),('end marker','scan() of the self-hosted lexer')),['Lexer::scan'],
 'online token-stream monitor over scan(), positions recomputed from the text',
 'Held on the texts scanned; offsets and columns are bytes (what slicing the input by them requires).')
p('C02','Notation lexers obey their lexical rules and channel contract',
 "At every position a notation lexer returns the longest token that its documented lexical rules allow, the rule listed first winning ties, with that rule's number and name, which is also the value of the public constant of that name. Collecting all tokens of a channel yields exactly those tokens in order without white space and comments (and nothing for a channel nothing is on), also after some tokens were scanned already, and if the rest of the text cannot be scanned that rest is printed.",
 I,"every text, every interleaving of single scans and channel collection",
 "The tests print the tokens of one text; precedence among rules, near misses and unlexable rests are never exercised.",
 [T+'v1/syntaxis_lexer.rs',T+'syntaxis/syntaxis_lexer.rs',R+'lexer.rs'],
 M(('rule list and longest-match loop','scan()'),('token names','new()'),('channel filter','scan_all_on_channel_tokens()')),['Lexer::scan','Lexer::scan_all_on_channel_tokens','standard output'],
 'token-stream monitor against hand-written recognisers of the lexical rules (no regular expressions)',
 'Held on the texts scanned; the recognisers were written from the committed lexical rules of the notation.')
p('C03','Generated lexers compile and implement the declared token rules',
 "For every set of token rules in a grammar file, and string literals used in its rules, the generated lexer source compiles and offers one constant per token with the token's number. At run time it returns at each position the longest match of the declared expressions, the rule declared first winning ties, under that token's number and name; its tokens tile the input with exact offsets, lines and columns, and one end marker closes the stream. Collecting tokens leaves out white space and prints a rest that matches no rule.",
 ['inputs','programs'],"every list of token rules over the common regular-expression core, with or without a white-space rule, and every input text",
 "A single lexer is generated from one fixed grammar and never compiled or run by the test that generates it.",
 [T+'templates/target/rust/lexer.tera',T+'visitor/lexer_rule_visitor.rs',T+'visitor/grammar_visitor.rs'],
 M(('template','lexer.tera'),('token-rule data','LexerRuleVisitor, SymbolVisitor')),['the compiled generated lexer'],
 'generated lexers compiled and run under the token-stream monitor, against an independent backtracking matcher',
 'Held on the generated lexers and texts; the text of a token rule must not contain a raw carriage return or an invisible text-direction character (not allowed in Rust literals), and no token be called Self (a Rust keyword).')
p('C04','FIRST sets are exact',
 "For every grammar, the FIRST set reported for each rule and for each production contains exactly the tokens that can begin something derivable from it, and the flag for the empty string is set exactly when the empty string is derivable. The answer is the same on every call and however the productions happen to be stored.",
 ['inputs','schedules'],"every context-free grammar (left recursion, cycles, nullable chains, unproductive and unreachable rules, unnamed rules) and every iteration order of its productions",
 "Two or three fixed grammars are printed or compared; iteration order is random per run and never varied on purpose.",
 [T+'grammar/mod.rs'],M(('fixed-point iteration','Grammar::first_set'),('per-production step','get_first_set_for_non_epsilon_rule')),['Grammar::first_set'],
 'differential monitor against a worklist/graph-reachability oracle, with repeated randomly seeded iteration orders',
 'Held on the grammars and iteration orders observed (hash seeds differ per grammar instance).')
p('C05','FOLLOW sets are exact',
 "For every grammar, the FOLLOW set reported for each rule contains exactly the tokens that can come directly after it in a derivation from some rule of the grammar, and the end marker for the start rule and everything that can end it. The answer is the same on every call and however the productions happen to be stored.",
 ['inputs','schedules'],"every context-free grammar and every iteration order of its productions",
 "A few fixed grammars; no nullable chains across rules, no varied iteration order.",
 [T+'grammar/mod.rs'],M(('fixed-point iteration','Grammar::follow_set'),('FIRST of a suffix','get_first_for_string')),['Grammar::follow_set'],
 'differential monitor against a graph-reachability oracle, with repeated randomly seeded iteration orders',
 'Held on the grammars and iteration orders observed. All productions count, also those of rules the start rule cannot reach (the textbook definition).')
p('C06','The LL(1) table is exact and conflicts are always reported',
 "For every grammar, the prediction table has an entry for a rule and a token exactly when some production of that rule is predicted by that token, and the entry is such a production. If a grammar is LL(1) nothing is printed; if two productions compete for an entry, both competitors are printed.",
 ['inputs','schedules'],"every context-free grammar and every iteration order",
 "The tests print the table of fixed LL(1) grammars; conflicting grammars are never built.",
 [T+'grammar/mod.rs'],M(('table construction and conflict report','Grammar::ll1_table')),['Grammar::ll1_table','standard output'],
 'differential monitor: every cell and every printed conflict against the oracle sets',
 'Held on the grammars observed (about half of them conflicting).')
p('C07','Parsing a sentence yields exactly its derivation tree',
 "For every LL(1) grammar and every sentence of it followed by the end marker, parsing succeeds without any report and returns the sentence's derivation tree rooted at the start rule: each node has its rule's number and name and its children in order, the children of unnamed helper rules appear in place of the helper, and the leaves are the sentence's tokens, each exactly once, in order and unaltered.",
 I,"every LL(1) grammar (any numbering, unnamed rules, rules deriving nothing) and every sentence",
 "One or two fixed inputs are parsed and drawn; no tree is compared.",
 [T+'parser/ll1_parser.rs',T+'v1/syntaxis_parser.rs'],M(('predictive parse','LL1Parser::parse'),('predictive parse','SyntaxisParser::parse')),['LL1Parser::parse','SyntaxisParser::parse'],
 'trace oracle: derivations are generated with uniquely labelled tokens and compared with the returned tree',
 'Held on the grammars and sentences observed, with the computed and with a reference table. Depth is bounded (recursive parser); start rule named.')
p('C08','A wrong token sequence is never accepted silently',
 "For every LL(1) grammar and every token sequence, if no beginning of the sequence is a sentence then parsing either fails or prints a message. If it returns without any message, the tree is a correct derivation tree of the tokens it consumed; and a sequence that begins with a sentence as far as the prediction table decides is never rejected.",
 I,"every LL(1) grammar and every token sequence, including unknown tokens, early or missing end markers and the empty sequence",
 "No test feeds a parser a wrong input.",
 [T+'parser/ll1_parser.rs',T+'v1/syntaxis_parser.rs'],M(('terminal mismatch report','parse()'),('missing table entry','parse()')),['LL1Parser::parse','SyntaxisParser::parse','standard output'],
 'mutated sentences under an acceptance monitor with an independent tree validator',
 'Held on the inputs observed. A panic or any printed message counts as a report; tokens after a complete sentence may be ignored.')
p('C09','Grammar files are parsed to the tree they denote',
 "For every grammar file in the notation, whatever its white space, the bundled front end (bundled grammar, self-hosted lexer and parser) returns exactly the tree the text denotes, without any report, and the bundled grammar itself builds a table without conflicts. Each typed entry point, applied to a text that begins with its kind of node and goes on with whatever may follow it, returns that node, and the node's accessors return the parts the text contains.",
 I,"every grammar file: any declarations, nesting, operators, literals, every spelling of the colon, any layout",
 "One grammar file is parsed and drawn; no tree is compared and most entry points are never called.",
 [T+'v1/syntaxis_lexer.rs',T+'v1/syntaxis_parser.rs',T+'v1/syntaxis_context.rs',T+'syntaxis/syntaxis2.json',T+'visitor/grammar_visitor.rs',T+'grammar/mod.rs',T+'serde_ast/mod.rs'],
 M(('front end','SyntaxisLexer, SyntaxisParser'),('bundled grammar','syntaxis2.json')),['SyntaxisParser entry points and the contexts they return'],
 'generated grammar files with known trees; end-to-end tree and accessor comparison',
 'Held on the files observed; names have at least two characters as the notation requires.')
p('C10','Lowering a grammar file preserves every rule\'s language',
 "For every grammar file, the productions built from it generate for each declared rule exactly the language that its groups, alternatives, ε and the operators * + ? denote, including alternatives spread over several declarations; a string literal in a rule is one token, the same for every occurrence of the same literal and registered under the literal's own text. Every symbol used is registered, declared rules keep their names, helper rules are unnamed and have productions, and a file without + that is LL(1) as written stays LL(1).",
 I,"every grammar file, in particular repeated and nested groups, operators on tokens and rules whose numbers coincide, and string literals anywhere in a rule",
 "One grammar is lowered and printed; helper sharing across tokens, rules and groups is never compared.",
 [T+'visitor/grammar_visitor.rs'],M(('helper rules and their sharing','ProductionVisitor'),('literals to tokens','StringLiteralToTokenVisitor')),['Grammar after the three passes'],
 'reference-model monitor: bounded languages of the file and of the productions compared string by string',
 'Held on the files observed, for all strings up to 3-7 tokens (larger files by sampled sentences).')
p('C11','Symbols and token rules are numbered and recorded consistently',
 "For every grammar file and starting numbers, tokens and rules get consecutive numbers in order of their first declaration, string literals used in rules coming before the declared tokens when they are collected first; a repeated declaration changes no number and, for tokens, the first expression stays. The list of token rules has one entry per token in number order, with the token's name and an expression that matches, at the start of a text, exactly what the declared expression matches; both ways of collecting token rules agree. Every repeated declaration is reported with the name, and nothing is reported for a file without repetitions; a token rule whose expression is missing is reported and takes no number.",
 I,"every grammar file (repeated declarations, any declaration order, escaped slashes, with or without string literals in rules) and every starting number",
 "One file without repeated declarations is processed, and the data only printed.",
 [T+'visitor/grammar_visitor.rs',T+'visitor/lexer_rule_visitor.rs'],M(('numbering','SymbolVisitor'),('token data','LexerRuleVisitor')),['Vocabulary and token-rule data after the passes'],
 'reference-model monitor over the vocabulary and token data; expressions executed against an independent matcher',
 'Held on the files observed.')
p('C12','A string literal\'s token matches exactly the literal\'s text',
 "For every grammar tree containing string literals, collecting them yields one token rule per distinct literal, in order of appearance with consecutive numbers, whose expression matches at the start of a text exactly the text the literal denotes, with its escapes (also characters given by number) decoded, and nothing else. Registering the literals as tokens gives each the same number under its own text.",
 I,"every string literal, in particular characters with a meaning in regular expressions, sequences of backslashes and characters given by number",
 "Only a handful of literals without special characters occur in the tests.",
 [T+'visitor/lexer_rule_visitor.rs'],M(('collection and escaping','StringLiteralVisitor')),['StringLiteralVisitor data'],
 'produced expressions executed on matching and near-miss texts against the literal\'s decoded text',
 'Held on the literals observed.')
p('C13','The vocabulary is a consistent two-way mapping',
 "After every history of additions, number-to-name and name-to-number queries of tokens and of rules are inverse to each other, and every query agrees with exactly the additions that were accepted. An addition whose number or name is already taken is refused and changes nothing; the two reserved tokens are present from the start; unnamed rules are known by number only and shown by their number.",
 ['histories'],"every sequence of additions, also clashing ones",
 "The vocabulary is only used through grammar building, without clashes.",
 [R+'vocabulary.rs'],M(('paired maps','Vocabulary')),['every public query of the vocabulary'],
 'history monitor: every query after every step against a sequential model',
 'Held on the histories observed.')
p('C14','Loading a tree from JSON is faithful and total',
 "For every JSON document that describes a tree (and is nested no deeper than the JSON reader allows, 127 levels), loading it from a string or from a reader gives exactly that tree: rule numbers and names, children in order, leaf types, names and texts, with the documented placeholder for a missing text. For every other document or a failing reader loading returns an error and never a partial tree or a crash, and how the reader portions the bytes makes no difference.",
 ['inputs','fault_sequences'],"every document (any key order, escapes, extra keys, damage at byte or structure level) and every sequence of short, interrupted and failing reads",
 "Two bundled files are loaded; no malformed document and no failing reader is ever tried.",
 [T+'serde_ast/mod.rs'],M(('conversion','from_str, from_reader')),['from_str and from_reader results'],
 'generated documents and fault-injecting readers; result compared with the generated tree',
 'Held on the documents observed.')
p('C15','Tree navigation and typed accessors report the tree',
 "For every tree, each node's accessors return exactly its children, the children of a given kind in order, the n-th of them or none, its first and last token (looking past parts that derived nothing), and the source text from its first to its last token. The typed accessors of both front ends return exactly the children of the kind they are named after.",
 I,"every tree, including nodes without children, children that derived nothing, and error leaves",
 "A few accessors are called on one tree.",
 [R+'ast/rule_context.rs',R+'ast/terminal_context.rs',R+'ast/error_context.rs',T+'syntaxis/syntaxis_context.rs',T+'v1/syntaxis_context.rs'],
 M(('navigation','RuleContext'),('typed accessors','syntaxis_context.rs')),['all public accessors'],
 'every accessor on every node of random trees compared, by identity, with a naive reading of the tree',
 'Held on the trees observed. A node whose first (last) leaf is an error leaf has no first (last) terminal.')
p('C16','A listener walk reports every node once, properly nested',
 "Walking any tree with a listener announces, for each rule node, a general entry and the specific entry of its kind, then its children in order, then the specific and the general exit, and announces each terminal and error leaf once in its place; nodes of unknown kinds get the general announcements only. Every announcement carries the node itself, entering or leaving a node through its typed view reaches the callback of that view, and the walk changes nothing.",
 I,"every tree",
 "No assertion is made on the sequence of callbacks.",
 [T+'syntaxis/syntaxis_walker.rs',T+'syntaxis/syntaxis_listener.rs',T+'syntaxis/syntaxis_context.rs'],
 M(('walk','walker'),('dispatch','listener')),['listener callbacks'],
 'trace monitor: complete callback trace with node identities against the nested traversal',
 'Held on the trees observed.')
p('C17','A visitor traverses, aggregates and stops as asked',
 "Visiting any tree calls, for each node reached, the method of its kind with that node; by default the children are visited in order, depth first, each leaf once. The result of a node is the visitor's own aggregation of its children's results in order, starting from the default result; before each child the visitor is asked, with the node and the result so far, whether to go on, and a refusal skips exactly the remaining children of that node. Handing a node to a visitor through its typed view reaches the method of that view.",
 ['inputs','programs'],"every tree and every visitor (overridden methods, skipped subtrees, aggregation, early stop)",
 "Visitors are only used inside grammar building; aggregation and stopping are never exercised.",
 [T+'syntaxis/syntaxis_visitor.rs',T+'v1/syntaxis_visitor.rs',T+'syntaxis/syntaxis_context.rs',T+'v1/syntaxis_context.rs'],
 M(('traversal','visit_children'),('dispatch','visit, accept')),['visitor callbacks and results'],
 'trace and result monitor under random visitor plans against a reference traversal',
 'Held on the trees and plans observed.')
p('C18','A drawn page shows exactly the tree, whatever its text',
 "For every tree and page name, whatever characters its names and texts contain, the page written opens without script errors and draws exactly that tree (every node once, linked to its parent, with names, texts, rule numbers, order), under that title; folding a node hides exactly its descendants and unfolding shows them again, choosing a node draws exactly its subtree, and changing the layout keeps the tree. Drawing replaces an existing file completely and a drawer can be reused; if the page cannot be written completely, drawing fails loudly and never leaves a silently cut-off page.",
 ['inputs','fault_sequences'],"every tree, name and text, every previous content of the file, every point at which writing can fail",
 "Two trees without special characters are drawn; the page is never opened and no write fails.",
 [T+'gui/ast_drawer.rs',T+'templates/gui/ast.html'],M(('escaping and dump','ASTDrawer'),('page','ast.html')),['the written file, opened in a JavaScript engine'],
 'pages opened in a JavaScript engine against a model of the document and chart library that records what is on the screen, with random user actions; write faults injected (file-size limit, full device, missing directory)',
 'Held on the trees observed; HTML is read by the script and title rules modelled in harness/js/page.js.')
p('C19','A generated front end parses every sentence end to end',
 "For every LL(1) grammar file, feeding a source text whose tokens form a sentence through the generated lexer and the parser driven by the generated table gives, without any report, the derivation tree of that sentence over exactly those tokens, and the root's text is the source from the first to the last token.",
 ['inputs','programs'],"every LL(1) grammar file (groups, ? and *, string literals, repeated declarations, any order) and every source text of a sentence",
 "No generated lexer is ever combined with a parser on a source text.",
 [T+'templates/target/rust/lexer.tera',T+'visitor/grammar_visitor.rs',T+'grammar/mod.rs',T+'parser/ll1_parser.rs',T+'serde_ast/mod.rs'],
 M(('pipeline','grammar file -> passes -> template/table -> parser')),['tree returned at the end of the pipeline'],
 'end-to-end monitor: compiled generated lexers plus parser on sampled sentences with known derivations',
 'Held on the grammars and sentences observed; no + (its lowering is never LL(1)).')
p('C20','Printed grammars, trees and tokens say what they contain',
 "Printing a grammar lists exactly its productions, one per line, with every symbol by name (unnamed rules by number) and symbols separated; printing a tree gives each node's name followed by its children in order in parentheses; printing a token or position shows all its fields unaltered. A token made from a type, a name and a text carries exactly these.",
 I,"every grammar, tree and token",
 "Output is printed by the tests but never read.",
 [T+'grammar/mod.rs',R+'ast/rule_context.rs',R+'ast/ast_context.rs',R+'ast/terminal_context.rs',R+'ast/error_context.rs',R+'token.rs'],
 M(('Display implementations','the listed files')),['formatted strings'],
 'round-trip monitor: printed text read back and compared with the object',
 'Held on the objects observed; names without blanks or parentheses.')
p('C21','The command-line program draws its built-in grammar\'s tree',
 "On every run, from any previous content of its working directory, the program ends successfully, leaves a page that draws exactly the syntax tree of its built-in grammar text, byte for byte the same on every run, and touches no other file. If the bundled grammar or page template is missing or damaged or the page cannot be written completely, it ends with a failure status.",
 ['configurations','fault_sequences','schedules'],"every state of the working directory, every hash seed, missing or cut-off resources, write failures",
 "No test runs the program.",
 ['src/main.rs',T+'gui/ast_drawer.rs',T+'v1/syntaxis_parser.rs',T+'v1/syntaxis_lexer.rs',T+'syntaxis/syntaxis2.json'],
 M(('pipeline','main()')),['exit status and files of the working directory'],
 'process monitor: exit status, file-system diff and opened page over repeated runs with injected faults',
 'Held on the runs observed.')
p('C22','The toolkit reproduces its own front end',
 "The grammar bundled with the toolkit describes the toolkit's own notation: the numbers it gives to tokens and rules are the constants of the self-hosted lexer and parser; the lexer generated from it treats every text exactly as the self-hosted lexer does (tokens, numbers, names, positions, end marker, collected tokens, printed rest); the general parser with the table computed from it returns for every grammar file the same tree as the self-hosted parser; and the bundled grammar's own text is parsed to the bundled tree.",
 ['inputs','programs'],"every text for the lexers, every grammar file for the parsers",
 "The tests generate a lexer once and print it; it is never compiled nor compared with the committed one.",
 [T+'syntaxis/syntaxis2.json',T+'visitor/grammar_visitor.rs',T+'templates/target/rust/lexer.tera',T+'v1/syntaxis_lexer.rs',T+'v1/syntaxis_parser.rs',T+'parser/ll1_parser.rs'],
 M(('bootstrap','bundled grammar -> passes -> template/table'),('self-hosted front end','SyntaxisLexer, SyntaxisParser')),['the compiled generated lexer, both parsers, public constants'],
 'differential monitor: the lexer generated from the bundled grammar, compiled, and the general parser run side by side with the self-hosted ones',
 'Held on the texts observed.')
with open('properties.jsonl','w') as f:
    for x in P:
        f.write(json.dumps({"id":x['id'],"title":x['title'],"statement":x['statement'],"quantifier":{"over":x['over'],"text":x['q']},"why_tests_cant":x['why'],
          "anchors":{"files":x['files'],"mechanism":x['mech'],"observe_at":x['observe'],"hook_needed":None}},ensure_ascii=False)+'\n')
json.dump({"version":1,"setup_cmd":"bash check.sh --setup","checks":[{"property":x['id'],"quick_cmd":f"bash check.sh {x['id']} quick","thorough_cmd":f"bash check.sh {x['id']} thorough",
  "evidence_file":f"evidence/{x['id']}.json","technique":"runtime monitoring: "+x['tech'],"level":"exploration","level_note":x['note']} for x in P],
  "not_applicable":[],"notes":"No hooks in /repo: every monitor observes at public interfaces, standard output, written files or process status."},open('MANIFEST.json','w'),indent=1,ensure_ascii=False)

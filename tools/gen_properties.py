import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,obs=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],observe_at=obs or ["LSP messages on the server's stdin/stdout"],hook_needed=None)))
M='src/main.rs'
p('C01','Server survives and answers every client message',
  "Whatever text the documents contain and whatever well-formed LSP requests and notifications the client sends, in any order and with any positions, names and arguments, the server neither terminates nor stops making progress. Every request (reserved '$/' methods apart) is answered exactly once, with a result or an error, until the client ends the session.",
  ['inputs','histories'],'every document text, every sequence of well-formed messages, every position/name/argument value',
  'The 18 tests call library functions on about 30 fixed, mostly ASCII snippets; no test starts the server, sends a request handler anything, or uses hostile positions, names or text.',
  [M,'src/rename.rs','src/backtrace.rs','src/hir_index.rs','src/lsp_utils.rs'],
  [('request handlers return Option/Result instead of unwrapping','src/main.rs impl LanguageServer for Backend'),('parser error recovery','src/hir_parser.rs parser(), src/hir_tokenizer.rs tokenizer()')],
  [('document_map','analysed text per URI','src/main.rs Backend')])
p('C02','Reported positions are valid, exact LSP positions',
  "Every range or position the server sends (diagnostics, links, edits, outline entries, hints, folds, lenses) lies inside the current text of the document it refers to, does not end before it starts, and counts LSP lines and UTF-16 columns for any Unicode content and for LF, CRLF or CR line ends. A range that designates a symbol covers exactly the characters of that symbol. Positions sent by the client are read the same way, a column past the end of a line meaning the end of that line.",
  ['inputs'],'every document text (non-ASCII, astral, CRLF, tabs, very long lines), every response, every query position',
  'Tests compare byte/char spans of ASCII snippets inside the library; no test converts a span to an LSP position, and none uses a non-ASCII character.',
  ['src/lsp_utils.rs','src/semantic_token.rs','src/hir_index.rs',M],
  [('offset <-> position conversion','src/lsp_utils.rs lsp_pos_to_offset/offset_to_lsp_pos/range_to_lsp'),('token spans','src/hir_tokenizer.rs tokenizer()')],
  [('rope','document text with line index','src/main.rs AnalyzedDocument')])
p('C03','Definition, declaration and reference queries are exact',
  "For every position inside an occurrence of a function, global variable, debug annotation, local variable or basic-block label, go-to-definition, go-to-declaration and find-references return exactly the definitions, declarations and uses of that symbol in the document: all of them and nothing else. Local variables and labels belong to their enclosing function, so equal names in other functions are different symbols, and a position that is not inside a symbol yields nothing.",
  ['inputs','programs'],'every module (any mix of statements, any reuse of names across functions and kinds of symbols) and every position in it',
  'test_index checks one fixed 15-line module; scoping across functions, every position, and the request handlers are not exercised.',
  ['src/hir_index.rs','src/hir_parser.rs','src/hir_tokenizer.rs',M],
  [('symbol index built from parse tree plus token stream','src/hir_index.rs create_index'),('position lookup','src/hir_index.rs find_symbol_at_position'),('query handlers','src/main.rs get_use_def_ranges')],
  [('UseDefList','decl/def/use spans per symbol','src/hir_index.rs'),('reverse_idx','span start to symbol','src/hir_index.rs HIRIndex')])
p('C04','Rename changes every occurrence of the chosen symbol and nothing else',
  "An accepted rename returns non-overlapping edits that replace every occurrence (declarations, definitions and uses) of the symbol under the cursor, within its scope, by the new name with its sigil, and touch nothing else, so the edited document analyses exactly like the original with that one symbol renamed. A new name that is not a single identifier of that kind (empty, illegal characters, leading digit where not allowed, a keyword as a label, ...) is refused with an error and no edits. Prepare-rename offers exactly the symbol's range where there is a symbol, and nothing elsewhere.",
  ['inputs','programs'],'every module, every symbol occurrence, every proposed new name',
  'No test calls the rename handlers or get_rename_edits; the only rename test covers extracting a trailing number from eight names.',
  [M,'src/rename.rs','src/hir_index.rs'],
  [('edit construction','src/rename.rs get_rename_edits'),('new-name validation','src/main.rs rename')])
p('C05','Numbering shifts are consistent, complete and equal however requested',
  "A relative rename (+n or -n) renumbers exactly the symbols of the same kind and scope whose trailing decimal number (below 2^63) is at least that of the symbol under the cursor, replacing each number k by the absolute value of k plus the shift and editing every occurrence of each such symbol once. The offered 'Shift ... numbering' action performs the shift by +1, identically whether its edit is delivered immediately, resolved later, or obtained with a relative rename of +1. Symbols without a trailing number offer no such action and refuse relative renames.",
  ['inputs','programs','configurations'],'every module, numbered symbol, shift amount, and client capability combination',
  'No test covers shifting, code actions or lazy resolution; only the number extraction helper is sampled.',
  ['src/rename.rs',M],
  [('shift computation','src/rename.rs get_shift_edits, extract_number_from_identifier'),('code action and resolve','src/main.rs code_action, do_code_action_resolve')],
  [('code_actions_lazy_resolve','whether the client resolves actions lazily','src/main.rs Backend')])
p('C06','Semantic diagnostics are exact',
  "For a syntactically valid module the published diagnostics are exactly: one on each use of a symbol that is neither declared nor defined, one on each further definition of an already defined symbol (referring back to the first definition), and one on each branching or phi instruction whose target blocks cannot be determined. A well-formed module therefore gets no diagnostics at all.",
  ['inputs','programs'],'every syntactically valid module',
  'No test covers diagnostics.rs; the example tests only assert the absence of parser errors for two files.',
  ['src/diagnostics.rs','src/hir_index.rs','src/hir_parser.rs',M],
  [('undefined/duplicate detection','src/diagnostics.rs diagnostics_from_index'),('branch target extraction','src/hir_parser.rs br/condbr/overflowbr/switch/phi instructions; src/diagnostics.rs diagnostics_from_statements')])
p('C07','Syntax errors are reported where they are and stay local',
  "A document gets at least one syntax diagnostic exactly when its text is not valid Hyper IR, and for a single malformed spot such a diagnostic is located at, or directly next to, the malformed statement. A malformed top-level statement with balanced quotes, or a run of unrecognised characters, anywhere in the document including its very end, leaves the outline, navigation, folding and highlighting of all other statements as they would be without it.",
  ['inputs','programs'],'every valid module and every corruption of one statement or insertion of stray characters at any place',
  'test_recovers_from_bad_line covers one bad line in the middle of one file; errors at the end of the file, truncated functions and stray characters are never tried.',
  ['src/hir_tokenizer.rs','src/hir_parser.rs','src/diagnostics.rs'],
  [('token-level recovery','src/hir_tokenizer.rs tokenizer() recover_with'),('statement-level recovery','src/hir_parser.rs parser() recover_with'),('error to diagnostic','src/diagnostics.rs diagnostics_from_parser')])
p('C08','Answers depend only on the latest text of the document',
  "After any history of open and change notifications over any number of documents, every answer about a document is determined solely by that document's latest text (the last one when a change carries several), not by earlier versions, other documents or requests still in flight. Each open or change that carries text produces exactly one diagnostics notification with that version number and that text's diagnostics, in the order the client sent them; documents never opened yield an empty answer or an error.",
  ['histories','schedules'],'every interleaving of opens, changes and pipelined requests over several documents',
  'No test runs the server, so no history of any length is covered.',
  [M],[('document replacement on change','src/main.rs on_change, did_open, did_change'),('per-URI lookup','src/main.rs document_map')],
  [('document_map','latest analysed text per URI','src/main.rs Backend')])
p('C09','Semantic tokens reproduce the lexical structure of the text',
  "The semantic tokens of a document decode to exactly its comments, types, local and global names, strings, numbers, keywords (declare, define) and function modifiers, each with the advertised type for that class and with the exact extent it has in the text, in document order, without overlap, and with no token extending past the end of a line. Whitespace, punctuation, plain identifiers, debug references and unrecognised characters carry no token.",
  ['inputs'],'every document text, including Unicode, CRLF, unterminated strings and stray characters',
  'The tokenizer test looks at token kinds for about 30 snippets; the delta encoding and token extents are untested.',
  ['src/semantic_token.rs','src/hir_tokenizer.rs',M],
  [('classification','src/semantic_token.rs semantic_tokens_from_tokens'),('delta encoding','src/semantic_token.rs convert_to_lsp_tokens'),('lexer','src/hir_tokenizer.rs tokenizer()')])
p('C10','Outline, folding, lenses and end-of-function hints match the module',
  "For a valid module the outline lists every global variable definition and every function definition exactly once with the right name and extent; there is one fold per function definition and one per basic block spanning exactly its lines, with accurate block and instruction counts; each function body is followed by one hint that names and links to its function; and a 'visualize' lens is offered on exactly the functions that have exactly one definition, carrying that document and function as arguments.",
  ['inputs','programs'],'every syntactically valid module',
  'No test covers document symbols, folding ranges, code lenses or inlay hints.',
  [M,'src/hir_index.rs','src/hir_parser.rs'],
  [('handlers','src/main.rs document_symbol, folding_range, code_lens, inlay_hint'),('function extents and blocks','src/hir_index.rs FunctionBody, src/hir_parser.rs basic_block/func_body')])
p('C11','Control-flow graph and incoming-edge hints show exactly the branches',
  "For every function, the displayed control-flow graph has an edge from labelled block A to B exactly when a branching instruction of A (conditional or unconditional branch, overflow branch, switch) names B as a target; phi instructions contribute none. The incoming-edge hint after a block's label lists each labelled block with an edge to it exactly once, in document order, linking to that block's label, and blocks without incoming edges have no such hint.",
  ['inputs','programs'],'every function body: any blocks, any branching instructions, loops, repeated targets, equal labels in other functions',
  'test_index checks the edges of one three-block function; the graph text and the hints are untested.',
  ['src/control_flow_graph.rs','src/hir_index.rs','src/hir_parser.rs',M],
  [('edge extraction','src/hir_index.rs create_index incoming_bb_branches'),('DOT rendering','src/control_flow_graph.rs create_cfg_dot_visualization'),('branch classification','src/hir_parser.rs Instruction::is_branching')])
p('C12','Backtrace hints render every frame faithfully and safely',
  "Each instruction whose debug reference names a JSON annotation with a backtrace array gets exactly one hint directly after the reference; its full tooltip lists every frame once, in order, with its symbol (else its file name, else '<invalid>') and its file and line when present, and its label names the most relevant frame (by the fixed preference order of translator symbols, else the first frame outside the code generator), shortening long names with an ellipsis. Symbol and file-name text from the document can never break out of its code formatting or add lines to the tooltip, and annotations that are malformed or have no backtrace yield no hint and do not disturb other hints.",
  ['inputs'],'every annotation content (arbitrary JSON, arbitrary Unicode, arbitrary lengths and frame shapes)',
  'Five unit tests parse seven fixed frames; hint construction, relevance, shortening and sanitising are untested.',
  ['src/backtrace.rs',M,'src/hir_index.rs'],
  [('frame parsing','src/backtrace.rs parse_backtrace_from_json'),('hint rendering','src/backtrace.rs inlay_hint_for_backtrace, sanitize_markdown_code, shorten_name'),('annotation text extraction','src/hir_index.rs create_index dgb_annotation_values')])
p('C13','Source links lead only to existing files inside the workspace',
  "Links into source files (go-to-definition of a declared function whose debug reference names a later \"file:line\" annotation, and file links in backtrace tooltips) are produced exactly for relative paths without tabs or line breaks that exist below a workspace root, lead to that file in the first such root and, for definitions, to the annotated line. No document content can make a link lead outside the workspace roots.",
  ['inputs','configurations'],'every path and line text in annotations, every set of workspace roots (none, several, missing, non-file), every file system content below them',
  'The unit tests always use an empty list of roots, so path resolution is never executed.',
  ['src/backtrace.rs','src/hir_index.rs',M],
  [('path resolution','src/backtrace.rs resolve_relative_path'),('external definitions','src/hir_index.rs ExternalDef, src/main.rs get_use_def_ranges'),('root collection','src/main.rs initialize')],
  [('root_paths','workspace roots','src/main.rs Backend')])
p('C14','Waiting for the client never blocks the server',
  "While the server waits for the client's reply to up to three of its own graph-display requests, it keeps processing every other message, including edits of the same document, and keeps answering requests. Each visualise command completes exactly once, according to the reply it received (success, error) or its cancellation, whatever the order and timing of replies, and the graph displayed is that of the document's text when the command was issued.",
  ['schedules','histories'],'every interleaving of visualise commands, client replies, cancellations, edits and queries',
  'No test runs the server or issues a command; schedules are not explored at all.',
  [M],[('command handler','src/main.rs execute_command'),('document map locking','src/main.rs document_map (sharded locks)')],
  [('document_map','read guards versus insert','src/main.rs Backend')])
p('C15','VS Code client displays every graph and always replies',
  "For every graph-display request from the server the VS Code client opens the graph viewer with exactly the received graph text and title; if the viewer is unavailable it opens a text document with exactly the graph text; and if the graph is not a string it reports an error instead. In all these cases it replies to the server without waiting for the user. Activation starts one client for 'hir' documents with the server named by SERVER_PATH, else the bundled one, and deactivation stops the running client exactly once.",
  ['inputs','fault_sequences'],'every request payload, every combination of viewer/document failures, every activation order',
  'The extension has no tests and is not compiled by the test suite.',
  ['vscode-extension/src/extension.ts'],[('request handler','vscode-extension/src/extension.ts activate'),('shutdown','vscode-extension/src/extension.ts deactivate')],None,['calls made on the vscode API by the running extension'])
p('C16','Session lifecycle and capability negotiation are honoured',
  "Before initialization every other request is refused; afterwards the server advertises exactly the features it answers, full-text synchronisation and a token legend under which its tokens decode; after shutdown requests are refused, and after exit the process ends once its input closes. Code actions are delivered without edits and marked resolvable exactly when the client declared both data support and resolving of edits; otherwise they carry their edit. Standard output carries nothing but framed protocol messages at any log level.",
  ['configurations','histories'],'every client capability combination, log level and order of lifecycle messages',
  'No test performs an initialize handshake.',
  [M],[('capability computation','src/main.rs initialize'),('service loop','src/main.rs main'),('legend','src/semantic_token.rs LEGEND_TYPE')])
p('C17','Documents cannot make the server change or read files',
  "Whatever documents contain and whatever requests arrive, the server never creates, modifies, deletes, executes or reads the contents of any file and opens no network connection. The only file-system effect of a document is testing the existence of paths below the workspace roots.",
  ['inputs','histories'],'every document and request history',
  'Tests never observe the system calls of the server.',
  [M,'src/backtrace.rs'],[('existence test only','src/backtrace.rs resolve_relative_path'),('in-memory analysis','src/main.rs on_change')],None,['system calls of the server process (strace)'])
with open('/verif/properties.jsonl','w') as f:
    for x in P: assert len(x['title'])<=80,x['title']; f.write(json.dumps(x,ensure_ascii=False)+'\n')
print(len(P))

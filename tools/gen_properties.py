#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the property texts)."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=hook))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    P.append(d)

p("C01", "Every request is answered: no input crashes or wedges the server",
  "For any document text (well-formed, malformed, truncated, non-ASCII, empty) and any sequence of protocol-conforming messages about it (any position, any new name, any command arguments, any workspace roots, stale follow-ups), the server process stays alive and answers every request with a result or an error. After any such sequence it still answers queries about a freshly opened, well-formed document correctly.",
  ["inputs", "histories"], "all document texts x all message sequences x all request parameters that are valid JSON-RPC/LSP",
  "The tests call a handful of library functions on fixed ASCII strings; no request handler is ever executed by a test, and no test uses non-ASCII text, out-of-range positions, odd names or changed documents.",
  ["src/main.rs", "src/hir_index.rs", "src/lsp_utils.rs", "src/rename.rs", "src/backtrace.rs", "src/hir_tokenizer.rs", "src/hir_parser.rs"],
  [("Option/Result plumbing in all handlers", "src/main.rs: impl LanguageServer for Backend"), ("recovering tokenizer and parser", "src/hir_tokenizer.rs: tokenizer, src/hir_parser.rs: parser")],
  ["LSP responses on stdout", "process liveness"])

p("C02", "Positions and ranges mean what the LSP client means by them",
  "For any document, including ones with non-ASCII text (also outside the BMP), tabs and CRLF line ends, every range the server reports for a symbol covers exactly that symbol's text when read as zero-based line and UTF-16 column, and a request whose position lies inside a symbol resolves to exactly that symbol. A position beyond the end of a line means the end of that line and never resolves to text of a later line; a position beyond the last line resolves to nothing.",
  ["inputs"], "all documents, all symbol occurrences in them, all cursor positions inside and outside of symbols",
  "All test documents are pure ASCII with LF line ends and no test converts a position or a range in either direction.",
  ["src/lsp_utils.rs", "src/hir_index.rs", "src/semantic_token.rs", "src/main.rs"],
  [("offset/position conversion", "src/lsp_utils.rs: lsp_pos_to_offset, offset_to_lsp_pos, range_to_lsp"), ("symbol lookup by offset", "src/hir_index.rs: find_symbol_at_position")],
  ["textDocument/prepareRename", "textDocument/definition originSelectionRange", "textDocument/references"])

p("C03", "Go to definition/declaration of module-level symbols is exact",
  "From any occurrence of a function name, global variable or debug reference, go-to-definition returns exactly the places where that name is defined in the module and go-to-declaration exactly the places where it is declared - all of them, none of another symbol, whatever the order of statements and wherever the occurrence is. Where an answer names its origin, that is the occurrence asked at. A position that is not on a symbol yields nothing.",
  ["programs"], "all well-formed modules and all positions in them",
  "One fixed module with one global and two functions is indexed; other statement orders, duplicates, uses before definitions, shared names and nested positions are not reached.",
  ["src/hir_index.rs", "src/main.rs"],
  [("definition/declaration indexing from the parse tree", "src/hir_index.rs: create_index"), ("use indexing from the token stream", "src/hir_index.rs: create_index"), ("goto_definition / goto_declaration", "src/main.rs")],
  ["textDocument/definition", "textDocument/declaration"])

p("C04", "Find-references returns every use and nothing else",
  "From any occurrence of a symbol (function, global variable, debug reference, local variable, basic block label), find-references returns exactly the set of places where that same symbol is used: every use once, no definition or declaration, no occurrence of another symbol, nothing from comments or strings. Taken together, declarations, definitions and references of a symbol account for every occurrence of its name in the symbol's scope exactly once.",
  ["programs"], "all well-formed modules and all symbol occurrences in them",
  "The index test has a single module with at most two uses of any symbol; it never queries through the server.",
  ["src/hir_index.rs", "src/hir_parser.rs", "src/main.rs"],
  [("de-duplication of occurrences by span", "src/hir_index.rs: add_internal"), ("label references of branching instructions and phis", "src/hir_parser.rs"), ("references handler", "src/main.rs")],
  ["textDocument/references", "textDocument/definition", "textDocument/declaration"])

p("C05", "Local variables and labels are scoped to their own function",
  "A local variable or label occurrence resolves only to definitions in the body (or the parameter list) of the function definition that contains it, even if other functions - or a second definition of the same function - use the same names; locals in declarations and outside any function definition resolve to nothing. Renaming or renumbering a local variable or label never touches text outside of that one function definition.",
  ["programs"], "all modules with several function definitions sharing local names and labels",
  "The index test contains exactly one function definition, so no cross-function confusion can show.",
  ["src/hir_index.rs", "src/main.rs"],
  [("per-function maps and function lookup by range", "src/hir_index.rs: create_index, FunctionBody")],
  ["textDocument/definition", "textDocument/references", "textDocument/rename"])

p("C06", "Rename changes all occurrences of one symbol and nothing else",
  "Renaming the symbol under the cursor to a valid identifier (with or without its sigil) yields non-overlapping edits in that document whose application replaces every occurrence of that symbol - declarations, definitions and uses - by the new name and leaves every other character of the document unchanged. The result is the same from whichever occurrence the rename is started, and rename is offered exactly where a symbol is.",
  ["programs", "inputs"], "all well-formed modules, all symbol occurrences, all valid new names",
  "There is no test for renaming at all, apart from the helper that splits a trailing number off a name.",
  ["src/rename.rs", "src/main.rs", "src/hir_index.rs"],
  [("rename edits from all three occurrence lists", "src/rename.rs: get_rename_edits"), ("rename / prepare_rename handlers", "src/main.rs")],
  ["textDocument/prepareRename", "textDocument/rename"])

p("C07", "An accepted rename never produces a broken identifier",
  "For any string given as the new name of a symbol, the server either rejects the request with an error and proposes no edit, or the edited document still has that symbol - under the new name, as one identifier of the same kind, with the same number of definitions, declarations and uses - and gains no syntax error. Non-empty names made of letters, digits and underscores (inner colons allowed) that do not start with a digit and are not reserved words are accepted.",
  ["inputs"], "all strings as new names x all symbol kinds",
  "No test performs a rename.",
  ["src/main.rs", "src/hir_tokenizer.rs"],
  [("new name validation", "src/main.rs: rename")],
  ["textDocument/rename", "textDocument/publishDiagnostics after applying the edit"])

p("C08", "Renumbering shifts exactly the following numbers, consistently",
  "A relative rename by +n or -n of a numbered symbol, and the renumbering code action (which is +1), change the trailing number of exactly those symbols of the same kind (and, for locals and labels, in the same function) whose number is at least that of the selected symbol, in all their occurrences, adding n (subtracting n) to each number and changing nothing else (where no number goes below zero). The code action offers the same edit whether it is delivered eagerly or resolved lazily as negotiated with the client, and is offered exactly on symbols that end in a number.",
  ["programs", "configurations"], "all well-formed modules, all numbered symbols, all shifts, both client capability settings",
  "Only the number-splitting helper is tested, on eight ASCII names; neither shifting nor code actions are exercised.",
  ["src/rename.rs", "src/main.rs"],
  [("shift edits", "src/rename.rs: get_shift_edits, extract_number_from_identifier"), ("code actions, eager and lazy", "src/main.rs: code_action, code_action_resolve")],
  ["textDocument/rename", "textDocument/codeAction", "codeAction/resolve"])

p("C09", "Undefined and duplicate symbols are reported exactly",
  "For a well-formed module, the published diagnostics contain one report at every use of a symbol that is neither defined nor declared in its scope and one report at every definition of a symbol after its first one (pointing back to the first definition), and no other report about symbols: a module whose symbols are all defined exactly once gets none. Every report names the symbol and covers exactly the offending occurrence.",
  ["programs"], "all well-formed modules with any mix of defined, undefined and multiply defined symbols of all kinds",
  "No test computes diagnostics.",
  ["src/diagnostics.rs", "src/hir_index.rs", "src/main.rs"],
  [("use/def based diagnostics", "src/diagnostics.rs: diagnostics_from_index")],
  ["textDocument/publishDiagnostics"])

p("C10", "Syntax errors are reported where they are, and only then",
  "A module that follows the Hyper IR grammar gets no syntax error, whatever its layout, comments, identifiers and literals. A module containing malformed constructs (illegal characters, incomplete or garbled statements, unterminated strings or function bodies) gets at least one syntax error for every group of adjacent malformed statements, located in the lines of that construct, including when it is the last thing in the file.",
  ["programs", "inputs"], "all grammatical modules; all modules with malformed constructs inserted at any place, including the end",
  "Two example files are checked for absence of errors and one bad line between two good lines for presence; truncation, bad tails, bad characters and error locations are not.",
  ["src/hir_tokenizer.rs", "src/hir_parser.rs", "src/diagnostics.rs"],
  [("tokenizer/parser errors", "src/hir_parser.rs: parse_from_str"), ("conversion to diagnostics", "src/diagnostics.rs: diagnostics_from_parser")],
  ["textDocument/publishDiagnostics"])

p("C11", "A malformed part does not take the rest of the module down",
  "If malformed statements, garbled function bodies or illegal characters are inserted between (or before or after) the statements of a well-formed module, all well-formed statements keep working: they stay in the outline, their symbols keep their definitions, declarations and in-function scoping, and no use of a symbol they define is reported as undefined. Illegal characters only lose themselves: highlighting of all other tokens is unaffected.",
  ["programs", "inputs"], "all well-formed modules x all insertions of malformed constructs at statement boundaries",
  "One test puts one bad line between two global variables; bad tails, broken function definitions and illegal characters are not covered.",
  ["src/hir_tokenizer.rs", "src/hir_parser.rs", "src/hir_index.rs"],
  [("skip-and-retry recovery", "src/hir_tokenizer.rs, src/hir_parser.rs: recover_with")],
  ["textDocument/documentSymbol", "textDocument/definition", "textDocument/publishDiagnostics", "textDocument/semanticTokens/full"])

p("C12", "No branch is silently ignored",
  "In a well-formed module, every branching instruction (any opcode ending in `br`, and `switch`) and every `phi` either has all its basic block operands recognised - each is a navigable label reference in operand order, none is missed and none is invented - or is flagged by exactly one diagnostic on its opcode saying that its targets could not be extracted. The usual forms (`br label`; `br int1 value, label, label`; `...br operands, cont=label, overflow=label`; `switch operands, default=label, type value label=label, ...`; `phi [label, operands], ...`; each with or without result and debug reference) are always recognised. Instructions of other kinds are never flagged and never contribute label references.",
  ["programs"], "all function bodies over all instruction forms: unconditional, conditional, overflow-checking and switch branches, phis, with and without result and debug reference, malformed operands",
  "One test fixes six well-formed instructions; none checks the diagnostic or irregular operands.",
  ["src/hir_parser.rs", "src/diagnostics.rs", "src/hir_index.rs"],
  [("instruction alternatives", "src/hir_parser.rs: br_instruction .. any_instruction"), ("extraction-failure diagnostic", "src/diagnostics.rs: diagnostics_from_statements")],
  ["textDocument/publishDiagnostics", "textDocument/definition on labels", "textDocument/references on labels"])

p("C13", "Semantic highlighting covers exactly the right tokens",
  "For any sequence of valid tokens, grammatical or not, the reported semantic tokens are in document order, do not overlap, and are exactly the comments, type names, variables (local and global names), strings, numbers, keywords and function modifiers of the text, each with its own type from the announced legend and its exact start and UTF-16 length; identifiers, punctuation and debug references are not coloured.",
  ["inputs"], "all token sequences with arbitrary spacing, line ends, comments and string contents",
  "The tokenizer test compares token kinds of single tokens without positions; nothing tests the delta encoding or the type mapping.",
  ["src/semantic_token.rs", "src/hir_tokenizer.rs", "src/main.rs"],
  [("token to semantic token mapping", "src/semantic_token.rs: semantic_tokens_from_tokens"), ("delta encoding", "src/semantic_token.rs: convert_to_lsp_tokens")],
  ["textDocument/semanticTokens/full", "initialize result (legend)"])

p("C14", "The outline lists all global variables and function definitions",
  "The document outline contains exactly one entry per global variable definition and one per function definition, with its name and kind; the selection range is exactly the name, and the full range of a function spans from the `define` keyword to its closing brace and contains the selection range. Declarations, annotations, locals and labels do not appear.",
  ["programs"], "all well-formed modules, including duplicates and empty bodies",
  "No test requests document symbols.",
  ["src/main.rs", "src/hir_index.rs", "src/hir_parser.rs"],
  [("document_symbol handler", "src/main.rs"), ("complete function range", "src/hir_index.rs: create_index")],
  ["textDocument/documentSymbol"])

p("C15", "Folding ranges are exactly the functions and basic blocks",
  "Folding offers exactly one range per function definition, from the line of `define` to the line of the closing brace, stating the number of its basic blocks, and one per basic block, from the line of its label (of its first instruction if unlabelled) to the line of its last instruction (its own line if empty), stating the number of instructions of that block. Ranges of blocks lie within their function and ranges never partially overlap.",
  ["programs"], "all well-formed modules with any blank lines and comments in bodies",
  "No test requests folding ranges or looks at block spans.",
  ["src/main.rs", "src/hir_parser.rs"],
  [("block spans", "src/hir_parser.rs: basic_block, func_body"), ("folding_range handler", "src/main.rs")],
  ["textDocument/foldingRange"])

p("C16", "The control flow graph shows exactly the branches of the function",
  "There is one visualisation lens on the name of each function with exactly one definition and none elsewhere, and running its command makes the server send the client a syntactically valid DOT digraph, titled with the function, whose edges are exactly the pairs (labelled block, target) for all targets of all recognised branch instructions in that function's labelled blocks, each drawn once. Phi operands, other functions' blocks and non-branch instructions contribute no edge; a command for an unknown document or function is answered with an error.",
  ["programs"], "all well-formed modules x all functions",
  "No test creates a graph or a lens.",
  ["src/control_flow_graph.rs", "src/main.rs", "src/hir_parser.rs"],
  [("DOT generation", "src/control_flow_graph.rs: create_cfg_dot_visualization"), ("code_lens / execute_command handlers", "src/main.rs"), ("is_branching", "src/hir_parser.rs")],
  ["textDocument/codeLens", "workspace/executeCommand", "hyperir/showDot request"])

p("C17", "Incoming-edge and end-of-function hints are complete and link back",
  "A hint directly after the label of a basic block lists exactly the labelled blocks of the same function with a recognised branch to that label, each once, linking to that block's label; blocks without incoming branches have no such hint. Directly after the closing brace of every function definition there is exactly one hint with the function's name linking to the name in that definition.",
  ["programs"], "all well-formed modules, including duplicate labels, self loops and repeated targets",
  "The index test checks the incoming lists of one function; hint positions, texts and links are not tested.",
  ["src/main.rs", "src/hir_index.rs"],
  [("incoming branch lists", "src/hir_index.rs: create_index"), ("inlay_hint handler", "src/main.rs")],
  ["textDocument/inlayHint"])

p("C18", "Backtrace hints show the complete stack and the right frame",
  "Every instruction whose debug reference is annotated with a JSON object holding a `backtrace` array gets exactly one hint directly after the reference whose tooltip lists all frames in order, one list item each, with symbol name, file name and line as recorded (the file name standing in for a missing symbol), and files found in a workspace root at the time of the request linked to that file and line; other instructions get none. The frame shown in the hint itself is the first one of the highest ranked translator category (consume, produceMaterializedResult, drivePipeline, deriveValue, any translator), else the first frame with a file outside the code generation directories (hyper/ir/, hyper/codegen), else no frame.",
  ["inputs", "configurations"], "all annotation contents (frames with missing, empty, ill-typed or non-ASCII parts), all symbol lengths, all workspace roots",
  "Seven fixed frames are parsed; frame selection, shortening, rendering, link resolution and hint placement are untested.",
  ["src/backtrace.rs", "src/main.rs", "src/hir_index.rs"],
  [("backtrace parsing", "src/backtrace.rs: parse_backtrace_from_json"), ("frame selection", "src/backtrace.rs: identify_relevant_frames"), ("rendering", "src/backtrace.rs: inlay_hint_for_backtrace")],
  ["textDocument/inlayHint"])

p("C19", "External definitions lead to the right file and line",
  "Go-to-definition on a declared function whose debug annotation (wherever in the document it is, and shared with other functions or not) is a `path:line` string, a path without colons, a colon and a decimal line number, additionally returns that line of that file, resolved against the first announced workspace root (the workspace folders if the client states them, even if there are none of them, otherwise the root URI) that contains the file at the time of the request; if no root contains it or the annotation has another form, nothing is added. The location is always a valid position, and the file lies inside the workspace root.",
  ["inputs", "configurations"], "all annotation strings, all workspace root lists and file layouts",
  "The index test records one path and line; resolution against roots, line conversion and missing files are not tested.",
  ["src/backtrace.rs", "src/main.rs", "src/hir_index.rs"],
  [("external definition extraction", "src/hir_index.rs: create_index"), ("root resolution", "src/backtrace.rs: resolve_relative_path"), ("location construction", "src/main.rs: get_use_def_ranges")],
  ["textDocument/definition"])

p("C20", "Answers depend only on the latest text of the document asked about",
  "After any history of opening, changing, saving, closing and reopening several documents, pipelined or not, with queries in between, every query about a document is answered exactly as a fresh server would answer it after opening only that document with its latest text, and the last diagnostics published for it are those of its latest text and carry its latest version (of the versions since it was last opened). Changing one document never changes the answers for another, and queries do not change anything; a document that was never opened yields no result or an error.",
  ["histories", "schedules"], "all interleavings of open/change/save/close/query messages over several documents",
  "No test ever opens or changes a document.",
  ["src/main.rs"],
  [("document map replaced on every change", "src/main.rs: on_change, did_open, did_change")],
  ["all responses", "textDocument/publishDiagnostics"],
  [("document_map", "analysis results per URI", "src/main.rs: Backend")])

p("C21", "The server stays responsive while the client handles a request",
  "While the client has not yet answered the server's request to display a graph, the server keeps processing document changes and other requests, also for the same document, and answers them with up-to-date results. When the client's answer (success or error, in any order, however late) arrives, the pending command completes with success or an error accordingly.",
  ["schedules", "histories"], "all interleavings of visualisation commands, the client's delayed answers, document changes and queries",
  "No test runs the command or has more than one message in flight.",
  ["src/main.rs"],
  [("execute_command awaits the client", "src/main.rs: execute_command")],
  ["workspace/executeCommand", "hyperir/showDot", "responses to concurrent messages"],
  [("document_map", "sharded lock that must not be held while waiting for the client", "src/main.rs: Backend")])

p("C22", "Layout and comments never change the meaning of a module",
  "Changing only spaces, tabs, blank lines, comments and the line end style (LF or CRLF) of a document - grammatical or not - changes neither the set of symbols nor what any token resolves to nor which symbols are reported as undefined or duplicate nor the control flow graphs; all reported ranges move with the tokens they belong to.",
  ["programs"], "all token sequences x all pairs of layouts",
  "Tests fix one layout per construct; comments appear in two test documents and CRLF only as a bare token.",
  ["src/hir_tokenizer.rs", "src/hir_parser.rs", "src/hir_index.rs"],
  [("whitespace padding and comment filtering", "src/hir_tokenizer.rs: tokenizer, src/hir_parser.rs: parse_from_str")],
  ["textDocument/definition", "textDocument/references", "textDocument/documentSymbol", "textDocument/publishDiagnostics"])

p("C23", "Backtrace text cannot inject Markdown",
  "Whatever symbol and file names a backtrace contains, each frame's symbol is shown inside one inline code span on one line of the tooltip: it cannot end the span, start a new line or list item, or add markup or links. Letters, digits, spaces and the punctuation usual in C++ names (. , : + - = / * < > _) are shown unchanged, anything else is replaced. Likewise the file name of a frame is displayed literally, on the same line, without adding markup (other than the link to the file itself, which it cannot end early).",
  ["inputs"], "all strings (JSON-decoded) as frame symbols and file names",
  "No test renders a frame.",
  ["src/backtrace.rs"],
  [("sanitising of code spans", "src/backtrace.rs: sanitize_markdown_code")],
  ["textDocument/inlayHint tooltips"])

p("C24", "All answers about a symbol agree with each other, in any text",
  "In any text, also malformed, truncated or garbled ones: from every occurrence of a symbol, go-to-definition, go-to-declaration, find-references and prepareRename describe the same set of occurrences of one name - the occurrence asked at among them, all spelled alike, disjoint, none both definition and use - and rename edits exactly these. From each of these occurrences the same set is found. An occurrence is reported as undefined exactly if its symbol has neither definition nor declaration, and as a duplicate exactly if it is a definition after the first. Where prepareRename finds no symbol, nothing else does.",
  ["inputs"], "all document texts, all occurrences of symbols in them",
  "The tests query no text with errors in it and never compare two answers with each other.",
  ["src/hir_index.rs", "src/main.rs", "src/rename.rs", "src/diagnostics.rs"],
  [("use/def lists and their reverse index", "src/hir_index.rs: add_internal, find_symbol_at_position"), ("get_use_def_ranges, prepare_rename, rename", "src/main.rs"), ("diagnostics_from_index", "src/diagnostics.rs")],
  ["textDocument/definition", "textDocument/declaration", "textDocument/references", "textDocument/prepareRename", "textDocument/rename", "published diagnostics"])

p("C25", "Outline, lenses, folding, hints, graphs and highlighting describe the same functions, in any text",
  "In any text, also malformed, truncated or garbled ones: every outline entry is the place of a definition of its name, and functions in it span from `define` to a closing brace without overlapping. Exactly the functions which are the only one of their name have a lens; exactly one folding range spans each function and all others lie within one; exactly one hint follows each function and links to its name; the incoming-edge hints of a function list the same edges as its graph and link to labels within the function. Semantic tokens are in order, do not overlap, and each covers text of its type.",
  ["inputs"], "all document texts",
  "No test requests any of these features, let alone for a text with errors.",
  ["src/main.rs", "src/hir_index.rs", "src/hir_parser.rs", "src/control_flow_graph.rs", "src/semantic_token.rs"],
  [("function bodies in the index", "src/hir_index.rs: FunctionBody"), ("error recovery", "src/hir_parser.rs: parser"), ("document_symbol, code_lens, folding_range, inlay_hint, execute_command", "src/main.rs")],
  ["textDocument/documentSymbol", "textDocument/codeLens", "textDocument/foldingRange", "textDocument/inlayHint", "hyperir/showDot", "textDocument/semanticTokens/full"])

p("C26", "The cost of a document grows with its size, not with a power of it",
  "Analysing a document and answering one request of each kind about it takes CPU time that grows about linearly with the size of the document, whatever it consists of (many instructions, blocks, functions, variables, annotations, comments, faulty lines, or long lines of some kilobytes), so that dumps of several hundred kilobytes can be worked with: a document with sixteen times as many repetitions of some constructs takes less than 48 times as long (or at most ten seconds).",
  ["inputs"], "documents which repeat any mix of constructs, up to about 400 kB",
  "The tests analyse texts of a few lines only.",
  ["src/hir_index.rs", "src/hir_parser.rs", "src/hir_tokenizer.rs", "src/lsp_utils.rs", "src/semantic_token.rs", "src/diagnostics.rs", "src/main.rs"],
  [("hash maps of use/def lists", "src/hir_index.rs: create_index"), ("rope-based position conversion", "src/lsp_utils.rs"), ("parser without unbounded backtracking", "src/hir_parser.rs")],
  ["CPU time of the server process until all answers arrived"])

p("C27", "A session negotiates honestly and ends in order",
  "Whatever valid capabilities, roots and options a client states, initialize succeeds and announces exactly what the server does: full-text synchronisation, positions in UTF-16 code units, all its features (definition, declaration, references, rename with preparation, outline, folding, code lenses, inlay hints, code actions, semantic tokens with their legend, the command of the code lenses), and lazy resolution of code actions exactly if the client can resolve `edit` and keeps `data`; a code action without edit is only sent when that was announced, and can then be resolved. No other answer depends on the client's capabilities or on the log level (RUST_LOG). Every announced request is implemented. Requests before initialize and after shutdown, repeated initialize, unknown methods and ill-formed parameters are answered with an error and leave the session intact; each request, cancelled or not, is answered exactly once. After shutdown and the end of its input the server process ends successfully.",
  ["inputs", "configurations", "histories"], "all valid client capabilities, root configurations and options; all documents; disturbances at any point of the session",
  "No test starts the server or looks at the capabilities it announces.",
  ["src/main.rs"],
  [("capability negotiation", "src/main.rs: initialize"), ("eager and lazy code actions", "src/main.rs: code_action, code_action_resolve"), ("command dispatch", "src/main.rs: execute_command"), ("session end", "src/main.rs: shutdown, main")],
  ["initialize", "all requests", "shutdown", "exit status"])

p("C28", "The VS Code extension displays exactly the graphs it is asked for",
  "Whatever graphs the server asks the VS Code extension to display, in any order and whatever becomes of the editor's own operations meanwhile, the extension displays the graph of each request exactly once and in full: in the graph preview with the title given or, exactly if the preview fails, as a text document. Each request is answered independently of the others: with an object as soon as the graph is displayed, with an error exactly if it could be displayed in neither way, and, if it carries no graph, with an object and an error message to the user; together with the server, the command that visualises a function thus succeeds exactly if its graph is displayed. On activation the extension starts exactly one language client, for Hyper IR documents only, with the server named by SERVER_PATH or else the one packaged with it, and passes on its environment; deactivation stops it, before activation there is nothing to stop.",
  ["inputs", "schedules", "fault_sequences"], "all sequences of display requests with all contents x all orders and outcomes of the editor's calls x all environments",
  "The extension has no tests.",
  ["vscode-extension/src/extension.ts", "vscode-extension/package.json", "src/main.rs"],
  [("display request", "vscode-extension/src/extension.ts: onRequest hyperir/showDot"), ("start of the server", "vscode-extension/src/extension.ts: activate"), ("request of the server", "src/main.rs: execute_command, ShowGraph")],
  ["calls of the vscode API", "options of the LanguageClient", "answers to hyperir/showDot", "answers to workspace/executeCommand"])

with open(OUT, "w") as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P), "properties")

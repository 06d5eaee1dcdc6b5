# Executed by meta.py.
PARSE = ["libnixf/src/Parse/Lexer.cpp", "libnixf/src/Parse/ParseExpr.cpp", "libnixf/src/Parse/ParseOp.cpp",
         "libnixf/src/Parse/ParseAttrs.cpp", "libnixf/src/Parse/ParseLambda.cpp", "libnixf/src/Parse/ParseSimple.cpp",
         "libnixf/src/Parse/ParseStrings.cpp", "libnixf/src/Parse/ParseSupport.cpp", "libnixf/src/Parse/Parser.h"]
SEMA = ["libnixf/src/Sema/SemaActions.cpp"]
VLA = ["libnixf/src/Sema/VariableLookup.cpp", "libnixf/include/nixf/Sema/VariableLookup.h"]
CTL = "nixd/lib/Controller/"
CA = CTL + "CodeActions/"
FEW = "The unit tests sample a few dozen hand-written inputs; "

prop("P01", "Parsing terminates, never crashes, and never fails silently",
     "For every byte string, parsing returns: it never crashes, reads outside the text, overflows or loops, and parsing the same text twice gives the same tree and the same diagnostics. When it returns no tree although the text is more than white space and comments, it reports an error.",
     ["inputs"], "All byte strings, including invalid UTF-8, NUL bytes, unterminated constructs and half-typed programs.",
     FEW + "editors send every intermediate state of typing.",
     PARSE + SEMA, [("token lookahead buffer and bounded re-lexing", "libnixf/src/Parse/Parser.h peek/consume"), ("statement-level error recovery with sync tokens", "libnixf/src/Parse/ParseSupport.cpp")],
     ["return of parse()", "diagnostics list"])
prop("P02", "Every source range is inside the text and trees nest properly",
     "Every position of a tree node, diagnostic, note or fix lies inside the text, and its line and column agree with its offset. A child's range lies inside its parent's and siblings do not overlap; names and literals carry exactly the text their range covers.",
     ["inputs"], "All byte strings, well-formed or not.",
     FEW + "positions are asserted in a handful of them, and recovery paths produce nodes no test looks at.",
     PARSE + ["libnixf/include/nixf/Basic/Range.h"], [("cursor advance per byte", "libnixf/src/Parse/Lexer.cpp consume"), ("node ranges from first to last token", "libnixf/src/Parse/*.cpp")],
     ["node ranges", "diagnostic ranges"])
prop("P03", "Valid Nix programs get the tree the Nix grammar prescribes",
     "A program that the Nix grammar accepts is parsed without error diagnostics into the expression tree that grammar prescribes: operator precedence and associativity, application, selection, bindings, parameters, strings, paths and comments, each node covering the text of its construct.",
     ["programs"], "All programs of the Nix expression language (legacy forms that the project documents as unsupported are left out).",
     FEW + "the number of operator and construct combinations is far beyond them.",
     PARSE, [("binding-power expression parser", "libnixf/src/Parse/ParseOp.cpp"), ("context-dependent lexer states", "libnixf/src/Parse/Lexer.cpp")], ["tree returned by parse()"])
prop("P04", "Programs outside the Nix grammar get an error diagnostic",
     "A text that the Nix grammar rejects always gets at least one diagnostic of error severity.",
     ["programs"], "All token sequences that Nix does not accept.",
     FEW + "leniency in one combination of constructs is not visible in another.",
     PARSE + SEMA, [("expect/recover diagnostics", "libnixf/src/Parse/ParseSupport.cpp")], ["diagnostics list"])
prop("P05", "Literals denote the value Nix gives them",
     "String literals, quoted and indented, decode escapes exactly as Nix does, and integer and float literals carry the value Nix would compute; an integer that does not fit is an error.",
     ["inputs"], "All literal spellings, including adjacent escapes, interpolations, dollar signs and quotes.",
     FEW + "escapes interact pairwise and with interpolation.",
     ["libnixf/src/Parse/Lexer.cpp", "libnixf/src/Parse/ParseStrings.cpp", "libnixf/src/Parse/ParseSimple.cpp"],
     [("escape decoding", "libnixf/src/Parse/ParseStrings.cpp parseStringParts"), ("number conversion", "libnixf/src/Parse/ParseSimple.cpp")], ["literal values in the tree"])
prop("P06", "Attribute sets merge and conflict exactly as in Nix",
     "For every attribute set or let, the desugared set has exactly the attributes that Nix computes from its bindings, nested paths merged as Nix merges them, and a duplicated-attribute error is reported exactly when Nix reports one. Dynamic names are kept apart, and are an error in let.",
     ["programs"], "All sequences of bindings: paths, nested sets, recursive sets, inherits, quoted and dynamic names.",
     FEW + "merging is order dependent and pairwise.",
     SEMA + ["libnixf/include/nixf/Sema/SemaActions.h", "libnixf/src/Parse/ParseAttrs.cpp"], [("attribute insertion and merge", "libnixf/src/Sema/SemaActions.cpp")], ["semantic attribute sets", "diagnostics"])
prop("P07", "Function parameters are checked exactly as in Nix",
     "A function header is reported as erroneous exactly when Nix rejects it: duplicate formals, a formal equal to the argument name, misplaced or repeated ellipsis, missing separators. The deduplicated formals have exactly the names written.",
     ["programs"], "All function headers.",
     FEW + "", SEMA + ["libnixf/src/Parse/ParseLambda.cpp"], [("formal checks", "libnixf/src/Sema/SemaActions.cpp onFormals/onLambdaArg")], ["diagnostics", "formals"])
prop("P08", "Applying a diagnostic's quick fix repairs it and keeps the meaning",
     "Applying the edits of any fix offered with a diagnostic yields a text in which that complaint is gone and no unrelated error has appeared (repairing a syntax error may let the parser report what else is missing there). A program that was valid stays valid and evaluates to the same value; the edits of one fix do not overlap.",
     ["programs"], "All diagnostics with fixes on all small programs.",
     "Tests compare a few fixes textually; none re-parses or evaluates the result.",
     PARSE + SEMA + VLA + [CTL + "CodeAction.cpp"], [("fix construction next to each diagnostic", "libnixf/src")], ["diagnostic fixes"])
prop("P09", "Every name resolves to the binding Nix would use",
     "For every variable occurrence, the reported definition is the binding that Nix's lexical scoping selects: the innermost let, recursive set, function parameter, else the enclosing with expressions, else a builtin. Names with no binding are reported as undefined, and no other names are; each definition lists exactly the occurrences that refer to it.",
     ["programs"], "All nestings of let, rec, with, lambda, inherit and their names.",
     FEW + "scopes nest and shadow arbitrarily.",
     VLA, [("environment chain with static and with scopes", "libnixf/src/Sema/VariableLookup.cpp")], ["variable lookup results", "uses of definitions", "diagnostics"])
prop("P10", "Unused and extra warnings are exact",
     "A let binding, formal, argument, or with is reported as unused exactly when no variable occurrence resolves to it, and a recursive set is reported as needlessly recursive exactly when none of its names is used inside it.",
     ["programs"], "All nestings of scopes.",
     FEW + "", VLA, [("use tracking per definition", "libnixf/src/Sema/VariableLookup.cpp emitEnvLivenessWarning")], ["diagnostics"])
prop("P11", "Position and ancestor queries find the right node",
     "Asking for the node at a range returns the smallest node covering it, and asking for a node's parent returns the node it is syntactically part of; the root has no other parent and every node is reached from the root. Enclosing-expression and enclosing-construct queries return the nearest such ancestor.",
     ["inputs"], "All trees and all ranges in them.",
     FEW + "", ["libnixf/src/Basic/Nodes.cpp", "libnixf/include/nixf/Basic/Nodes/Basic.h", "libnixf/src/Sema/ParentMap.cpp", "libnixf/include/nixf/Sema/ParentMap.h"],
     [("descend by range containment", "libnixf/include/nixf/Basic/Nodes/Basic.h"), ("parent map visitor", "libnixf/src/Sema/ParentMap.cpp")], ["descend()", "parent map queries"])
prop("P12", "The lint tool's JSON lists exactly the diagnostics found",
     "The command-line linter always prints one valid JSON array that has one entry for each diagnostic the library reports, in order, with its kind, severity, message, the arguments its message needs, range, notes and fixes. With lexical analysis requested it also reports the name-resolution diagnostics.",
     ["inputs"], "All inputs and flag settings.",
     "Tests run it on a few files.", ["libnixf/tools/nixf-tidy.cpp", "libnixf/src/Basic/JSONDiagnostic.cpp", "libnixf/src/Basic/Diagnostic.cpp.py", "libnixf/src/Basic/diagnostic.py"],
     [("JSON conversion", "libnixf/src/Basic/JSONDiagnostic.cpp")], ["standard output of nixf-tidy"])
prop("P13", "Editor positions and byte offsets convert exactly",
     "Converting a byte offset to an editor position (UTF-16 columns, LF-separated lines) and back is the identity on character boundaries; the offset is the start of the addressed character of the addressed line, columns past the end of a line are clamped or refused as requested, and lines that do not exist are refused. Source ranges are sent, and requested positions understood, by exactly this conversion.",
     ["inputs"], "All texts, including multi-byte characters, surrogate pairs and invalid UTF-8, and all positions.",
     "The tests use short ASCII and a few fixed multi-byte strings.",
     ["nixd/lspserver/src/SourceCode.cpp", "nixd/lspserver/include/lspserver/SourceCode.h", CTL + "Convert.cpp"], [("code unit iteration", "nixd/lspserver/src/SourceCode.cpp")], ["position/offset conversion functions"])
prop("P14", "The server's copy of a document equals the editor's",
     "After any sequence of open, full or incremental change, and close notifications, the text the server works on equals the text obtained by applying the same edits to the opened text, and answers are computed from that text. Changes that do not fit (bad range, wrong length, unknown document) leave the stored text unchanged or drop it, without crashing the server, and versions never go backwards.",
     ["histories"], "All histories of document notifications.",
     "Tests replay a few fixed edit sequences.",
     ["nixd/lspserver/src/DraftStore.cpp", "nixd/lspserver/src/SourceCode.cpp", CTL + "TextDocumentSync.cpp"], [("incremental change application", "nixd/lspserver/src/SourceCode.cpp applyChange"), ("draft versions", "nixd/lspserver/src/DraftStore.cpp")], ["stored draft", "answers after edits"])
prop("P15", "Incoming messages are decoded whatever the split of the stream",
     "However the input stream is cut into reads, and whatever header order or extra headers it uses, the server handles exactly the messages written, in order, each with exactly its declared length. Malformed messages never crash it or desynchronise later well-formed ones, and the loop ends exactly at exit or end of input.",
     ["inputs", "fault_sequences"], "All partitions of byte streams into reads, interrupted reads, and truncated or malformed streams.",
     "Tests feed whole files.", ["nixd/lspserver/src/Connection.cpp", "nixd/lspserver/include/lspserver/Connection.h"],
     [("buffered line and message reader", "nixd/lspserver/src/Connection.cpp"), ("dispatch", "nixd/lspserver/src/Connection.cpp InboundPort::dispatch")], ["handler calls"])
prop("P16", "Outgoing messages are never interleaved or mis-framed",
     "When any number of threads send notifications, calls and replies at once, the output stream is a sequence of complete messages, each with a correct Content-Length header and valid UTF-8 JSON, and every message sent appears exactly once. Messages of one thread keep their order.",
     ["schedules"], "All interleavings of senders.",
     "Tests send from one thread.", ["nixd/lspserver/src/Connection.cpp", "nixd/lspserver/src/LSPServer.cpp"],
     [("output mutex", "nixd/lspserver/include/lspserver/Connection.h OutboundPort")], ["output stream"])
prop("P17", "Replies reach the call they answer, unknown requests get an error",
     "Every reply from the peer is delivered to exactly the pending call with its id, at most once; replies with unknown, repeated or malformed ids are ignored without ending the session. A request for an unknown method, or with parameters that cannot be decoded, is answered with an error carrying its id, and the session goes on; unknown notifications are ignored.",
     ["histories", "schedules"], "All interleavings of calls and replies and all message sequences.",
     "Tests use one call and one reply in order.", ["nixd/lspserver/src/LSPServer.cpp", "nixd/lspserver/include/lspserver/LSPServer.h", "nixd/lspserver/include/lspserver/LSPBinder.h"],
     [("pending call table", "nixd/lspserver/src/LSPServer.cpp"), ("handler registry", "nixd/lspserver/include/lspserver/LSPBinder.h")], ["callbacks", "output messages"])
prop("P18", "Protocol messages decode and encode without loss",
     "Encoding a protocol value and decoding the result gives the same value. Decoding accepts the documents that have the required fields and whose fields have the right types, keeps every field, gives absent optional fields and null nullable fields their defaults, and rejects documents that lack a required field or give it a value of the wrong type.",
     ["inputs"], "All field-presence and field-type combinations of each protocol structure.",
     "Tests touch few structures.", ["nixd/lspserver/src/Protocol.cpp", "nixd/lspserver/include/lspserver/Protocol.h", "nixd/lib/Protocol/AttrSet.cpp", "nixd/lib/Protocol/Protocol.cpp"],
     [("fromJSON/toJSON pairs", "nixd/lspserver/src/Protocol.cpp")], ["fromJSON/toJSON"])
prop("P19", "File paths and URIs convert without loss",
     "Converting an absolute path to a URI and back gives the path, for every byte the path contains; parsing any text as a URI either fails with an error or gives components that print to an equivalent URI, and percent encoding is exact.",
     ["inputs"], "All paths and all URI texts.", "Tests sample.", ["nixd/lspserver/src/URI.cpp", "nixd/lspserver/include/lspserver/URI.h"],
     [("percent encoding", "nixd/lspserver/src/URI.cpp")], ["URI functions"])
prop("P20", "The last published diagnostics describe the current document",
     "Once the server is idle, the last diagnostics published for each open document are those of its current text and version, and none remain for a closed document, whatever order the edits came in and however the background work was scheduled.",
     ["schedules", "histories"], "All interleavings of document notifications, configuration changes and background tasks.",
     "Tests send one edit at a time and wait.", [CTL + "TextDocumentSync.cpp", CTL + "Diagnostics.cpp", CTL + "LifeTime.cpp", CTL + "Support.cpp"],
     [("per-document publication", CTL + "Diagnostics.cpp publishDiagnostics")], ["publishDiagnostics notifications"])
prop("P21", "Every request is answered exactly once, under every schedule",
     "Every request sent to a running server is answered exactly once with its own id, with a result or an error, however requests, edits, configuration changes and background tasks interleave, and whatever position or document they name. The server neither crashes nor deadlocks, and the answer is one computed from the text at some moment between request and answer.",
     ["schedules", "histories"], "All requests at all positions, and all interleavings of a few requests and edits.",
     "Tests send one request at a time.", [CTL + "*.cpp", "nixd/lspserver/src/LSPServer.cpp"],
     [("task posting to the thread pool", CTL), ("locks around drafts and trees", "nixd/include/nixd/Controller/Controller.h")], ["replies"])
prop("P22", "Definition, references and highlights agree with scoping",
     "At every variable occurrence, go-to-definition leads to the binding that Nix's scoping selects; find-references lists exactly the uses of that binding in the file and document-highlight exactly its uses and names, with their exact ranges. Asking from the binding or from any of its occurrences gives the same set.",
     ["programs"], "All programs and all positions.", "Tests sample.", [CTL + "Definition.cpp", CTL + "FindReferences.cpp", CTL + "DocumentHighlight.cpp", CTL + "AST.cpp"] + VLA,
     [("definition from variable lookup", CTL + "Definition.cpp")], ["textDocument/definition, references, documentHighlight"])
prop("P23", "Rename changes exactly one binding's occurrences",
     "Renaming at a binding or occurrence yields non-overlapping edits which, applied, give a program that parses, in which exactly the occurrences of that binding bear the new name, with every name resolving as before. Where that is impossible the request is refused with an error and changes nothing.",
     ["programs"], "All programs, positions and fresh names.", "Tests sample.", [CTL + "Rename.cpp", CTL + "AST.cpp"] + VLA, [("edits from definition uses", CTL + "Rename.cpp")], ["textDocument/rename, prepareRename"])
prop("P24", "Symbols, folding ranges and semantic tokens are well-formed and exact",
     "Document symbols name exactly the bindings of the file that are not inside interpolations, each once, and nest as the source nests, with a name that can be shown and the selected range inside the full range; folding ranges cover exactly the multi-line sets, lists, functions, let, with and if expressions and strings. Semantic tokens are sorted, non-overlapping, inside their line, and each covers exactly one name or literal string of the source with the kind its role has.",
     ["programs"], "All programs, including erroneous and non-ASCII ones.", "Tests sample.", [CTL + "DocumentSymbol.cpp", CTL + "FoldingRange.cpp", CTL + "SemanticTokens.cpp"],
     [("tree walks", CTL)], ["textDocument/documentSymbol, foldingRange, semanticTokens"])
prop("P25", "Completion offers the names in scope",
     "At a position where a variable may be typed, completion offers every name in scope there that starts with the typed text, labelled with that name and once each, along with the matching builtins, and offers no lexical name that is not in scope. Where more names match than a list holds, the list says that it is incomplete and still holds only names in scope.",
     ["programs"], "All programs and positions.", "Tests sample.", [CTL + "Completion.cpp"], [("scope walk", CTL + "Completion.cpp")], ["textDocument/completion"])
prop("P26", "Path literals link to the file they denote",
     "Every path literal that denotes an existing file yields one link whose range is the literal's text and whose target is the file Nix would resolve it to, directories going to their default file; go-to-definition on the literal leads to that same file. Paths that denote nothing, or that are not constant, give no link.",
     ["inputs"], "All path spellings and directory layouts.", "Tests sample.", [CTL + "DocumentLink.cpp", CTL + "PathResolve.h", CTL + "Definition.cpp"], [("path resolution", CTL + "PathResolve.h")], ["textDocument/documentLink, definition"])
prop("P27", "Configuration and suppression take effect as documented",
     "Whatever configuration the client supplies, valid, partial or malformed, the server keeps running with the documented meaning: the suppressed diagnostic names are exactly those that are no longer published, absent settings have their defaults, a malformed configuration is ignored as a whole, and the configuration in force is that of the latest request that was answered with a valid one, whatever came before it and in whatever order it was handled.",
     ["configurations", "histories"], "All configuration documents over the documented fields.", "Tests send few.", [CTL + "Configuration.cpp", "nixd/include/nixd/Controller/Configuration.h", CTL + "Diagnostics.cpp", "nixd/lib/CommandLine/Configuration.cpp"],
     [("configuration decoding", CTL + "Configuration.cpp")], ["published diagnostics", "workspace/configuration exchange"])
prop("P28", "Formatting returns the formatter's output, or an error",
     "A formatting request pipes the document to the configured command and returns edits which, applied, give exactly that command's output; if the command cannot be run, fails, or the document is not open, the request is answered with an error and the server goes on. This holds for every size of text, and for commands that read late, write early or exit early.",
     ["fault_sequences", "inputs"], "All formatter behaviours and document sizes.", "Tests run one formatter on a tiny file.", [CTL + "Format.cpp", "nixd/lib/Support/ForkPiped.cpp"],
     [("pipes to the external process", CTL + "Format.cpp")], ["textDocument/formatting"])
prop("P29", "Flatten and pack actions preserve the attribute set",
     "Applying a flatten or pack action to a valid program gives a valid program with the same value and loses no comment; the action is not offered where that is impossible.",
     ["programs"], "All attribute sets and positions.", "Tests sample.", [CA + "FlattenAttrs.cpp", CA + "PackAttrs.cpp", CA + "Utils.cpp"], [("text rewriting", CA)], ["textDocument/codeAction"])
prop("P30", "Inherit and with conversions preserve meaning",
     "Applying an action that converts between explicit bindings and inherit, or from with to let, gives a valid program in which every name resolves as before and the value is the same; the action is not offered where that is impossible.",
     ["programs"], "All programs and positions.", "Tests sample.", [CA + "ConvertToInherit.cpp", CA + "InheritToBinding.cpp", CA + "WithToLet.cpp"], [("text rewriting", CA)], ["textDocument/codeAction"])
prop("P31", "String and attribute-name rewrites preserve the string",
     "Applying an action that rewrites a string between its quoted and indented form, or quotes or unquotes an attribute name, gives a valid program in which the literal or name denotes the same string, with the same interpolations.",
     ["inputs"], "All string literals and attribute names.", "Tests sample.", [CA + "RewriteString.cpp", CA + "AttrName.cpp", CA + "Utils.cpp"], [("escaping", CA + "Utils.cpp")], ["textDocument/codeAction"])
prop("P32", "Extract-to-file and add-to-formals produce working programs",
     "Applying the extract action creates a new file and replaces the expression so that both parse and together evaluate to the same value; the add-to-formals action makes the undefined name a formal of the enclosing function and leaves everything else unchanged.",
     ["programs"], "All programs and positions.", "Tests sample.", [CA + "ExtractToFile.cpp", CA + "AddToFormals.cpp"], [("free variable collection", CA + "ExtractToFile.cpp")], ["textDocument/codeAction"])
prop("P33", "JSON-to-Nix conversion preserves the JSON value",
     "Wherever the JSON conversion is offered, the produced text is a valid Nix expression that denotes the same value as the selected JSON: the same keys, strings, numbers, booleans, nulls and nesting.",
     ["inputs"], "All JSON documents.", "Tests sample.", [CA + "JsonToNix.cpp", CA + "Utils.cpp"], [("value printing", CA + "JsonToNix.cpp")], ["textDocument/codeAction"])
prop("P34", "A dying or silent evaluation worker does not take the server down",
     "If an evaluation worker cannot be started, exits, is killed, closes its pipes, or sends garbage at any point, the server keeps running and every request is still answered; a worker that lives and stays silent holds up only the requests that ask it. Worker processes and descriptors are released when the worker is replaced or the server exits.",
     ["fault_sequences", "crash_points"], "All points of the worker protocol at which a worker can fail.", "No test kills a worker.",
     ["nixd/lib/Eval/AttrSetClient.cpp", "nixd/lib/Eval/Launch.cpp", "nixd/lib/Support/StreamProc.cpp", "nixd/lib/Support/ForkPiped.cpp", "nixd/lspserver/src/LSPServer.cpp"],
     [("worker process wrapper", "nixd/lib/Support/StreamProc.cpp")], ["replies", "process and descriptor tables"])
prop("P35", "Worker answers are merged into editor answers correctly",
     "Package, option and attribute information that a worker returns appears in completion, hover, definition and inlay hints for the name asked about and for no other, whatever the worker answers, in whatever order the answers arrive, and also when it answers errors.",
     ["schedules", "inputs"], "All answer orders and answer shapes of workers.", "Tests need a real Nix evaluator and a nixpkgs checkout.",
     [CTL + "Completion.cpp", CTL + "Hover.cpp", CTL + "InlayHints.cpp", CTL + "Definition.cpp", CTL + "AST.cpp", "nixd/lib/Protocol/AttrSet.cpp"], [("semaphores and callbacks", CTL)], ["completion, hover, inlayHint answers"])
prop("P36", "Documentation links match the selected library function",
     "The action that opens the documentation of a library function is offered exactly inside selections of a constant path from `lib`, with the correctly escaped address of that very path, and taking it asks the editor to open that address.",
     ["inputs"], "All selections.", "Tests sample.", [CA + "NoogleDoc.cpp", CTL + "CodeAction.cpp"], [("selector to URL", CA + "NoogleDoc.cpp")], ["textDocument/codeAction, codeAction/resolve, window/showDocument"])
prop("P37", "The session life cycle follows the protocol",
     "The server implements every capability it announces, answers shutdown, refuses a second initialize, and on exit ends with status 0 if and only if shutdown preceded; requests after shutdown or before initialisation never crash it, and it ends when its input ends or the client process is gone, whatever its workers and formatters are doing.",
     ["histories"], "All sequences of life-cycle messages.", "Tests run one sequence.", [CTL + "LifeTime.cpp", "nixd/tools/nixd.cpp", "nixd/lspserver/src/LSPServer.cpp"], [("life-cycle handlers", CTL + "LifeTime.cpp")], ["replies", "exit status"])
prop("P38", "The evaluator process serves attribute queries correctly",
     "The evaluator answers every attribute-path query with the information, documentation and children that the evaluated expression has, and reports evaluation failures as errors of that query only.",
     ["inputs"], "All expressions and attribute paths.", "Tests need a real Nix evaluator.", ["nixd/lib/Eval/AttrSetProvider.cpp", "libnixt/lib/Value.cpp", "nixd/tools/nixd-attrset-eval.cpp"], [("attribute selection", "libnixt/lib/Value.cpp")], ["worker replies"])
prop("P39", "Quick-fix and source actions apply where they were asked",
     "A code-action request returns only actions whose edits lie in the requested document, are valid ranges of it, do not overlap, and apply at the requested range; every action names a supported kind, and the kinds filter of the request is respected.",
     ["inputs"], "All requests over all ranges.", "Tests sample.", [CTL + "CodeAction.cpp", CA + "*.cpp"], [("action assembly", CTL + "CodeAction.cpp")], ["textDocument/codeAction"])

na("P38", "Needs the Nix evaluator libraries (nix-expr, nix-store, nix-cmd), which are not installed here and cannot be fetched; the project's own build here leaves this code out as well.")
T = "exhaustive enumeration of bounded inputs on the real code"
TR = "exhaustive enumeration of bounded inputs on the real code, against a reference model"
check("P01", "p_parse", T, "Every string of the stated spaces, under AddressSanitizer, UBSan and assertions; nothing is claimed beyond the bounds.")
check("P02", "p_parse", T, "Every node, diagnostic, note and fix of every string of the stated spaces.")
check("P03", "p_gram", TR, "Trees of all valid programs of the stated spaces equal the reference grammar's, ranges included.")
check("P04", "p_gram", TR, "Every invalid text of the stated spaces gets an error diagnostic.")
check("P05", "p_gram", TR, "Decoded value of every literal in the stated spaces.")
check("P06", "p_gram", TR, "Merged attribute sets of all binding sequences of the stated spaces, and every duplicate.")
check("P07", "p_gram", TR, "All sequences of header tokens of the stated spaces.")
check("P08", "p_fix", T, "Every fix of every diagnostic of every text of the stated spaces is applied and re-analysed; values by the reference evaluator.")
check("P09", "p_scope", TR, "Every occurrence, definition and undefined name of every program of the stated spaces against the reference resolver.")
check("P10", "p_scope", TR, "Every unused and extra warning of every program of the stated spaces.")
check("P11", "p_scope", T, "Every range query and parent of every program of the stated spaces.")
check("P12", "p_tidy", T, "Standard output of the real tool, run in a fresh process for every input and flag setting of the stated spaces, read back by a strict JSON reader and compared with the library's diagnostics.")
check("P13", "p_text", TR, "Every offset and position of every text of the stated spaces, and the range of every node and diagnostic.")
check("P19", "p_text", TR, "Every path and URI text of the stated spaces.")
check("P15", "p_stream", TR, "Every stream of the stated spaces under every stated way of delivery, through the real read loop with replaced poll and read.")
TS = "exhaustive exploration of thread schedules of the real code under a controlled scheduler"
check("P16", "p_rpc", TS, "Every schedule of every scenario up to the preemption bound, on the real OutboundPort with a stream that can be preempted inside writes.")
check("P17", "p_rpc", TS, "Every history of messages of the stated space against a reference table, and every schedule of calls and replies up to the preemption bound, on the real LSPServer.")
check("P14", "p_sync", TR, "Every change of every text of the stated space, and every history of document notifications up to the stated length through the real Controller, against a reference editor.")
check("P18", "p_codec", TR, "Every document of the stated space of every protocol structure, against the check's own schema of the structure.")
check("P20", "p_conc", TS, "Every schedule of every stated history of notifications and configurations up to the preemption bound, on the real Controller with its pool, its workers' input threads and in-memory workers.")
check("P21", "p_ask", TS, "Every request at every position of every text of the stated spaces, under AddressSanitizer, and every schedule of the stated histories of requests, edits and configurations within the stated bounds, on the real Controller with its pool, its workers' input threads and in-memory workers.")
check("P35", "p_ask", TS, "Every name of every program of the stated spaces, every stated answer of a worker, and every order of answers and schedule of simultaneous questions within the stated bounds, on the real Controller with in-memory workers.")
check("P22", "p_nav", TR, "Every position on every occurrence and name of every program of the stated spaces.")
check("P23", "p_nav", TR, "Every occurrence and name of every program of the stated spaces, to fresh, used, global and invalid names; the edited programs are resolved in parallel with the original.")
check("P24", "p_sym", TR, "Every text of the stated spaces; programs are compared with the reference tree, invalid texts are checked for well-formed answers only.")
check("P25", "p_nav", TR, "Every variable of every program of the stated spaces, the caret right behind it.")
check("P26", "p_path", TR, "Every path of the stated segments in every stated place of a fixed layout of files, directories and symbolic links.")
check("P27", "p_conf", TR, "Every configuration document of the stated spaces, and every history of up to three, answered and handled in every order, given to the real Controller with forked workers.")
check("P28", "p_proc", "exhaustive enumeration of fault scripts of the formatter process against the real program", "Every script of steps of a formatter process, for document sizes around the sizes of pipes, with the real program in a process of its own.")
check("P29", "p_act", TR, "Every flatten and pack action the real Controller offers at any caret or node of every text of the stated spaces is applied; result re-parsed and evaluated by the reference evaluator, comments counted.")
check("P30", "p_act", TR, "As P29, for the inherit and with conversions.")
check("P31", "p_act", TR, "As P29, for string conversions and attribute-name quoting.")
check("P32", "p_act", TR, "Every extraction is applied and evaluated together with the new file by the reference evaluator; every added formal is compared with the tree that has it.")
check("P33", "p_act", TR, "Every JSON text of the stated spaces, evaluated after conversion and compared with an independent JSON reader.")
check("P34", "p_proc", "exhaustive enumeration of fault points of the worker processes against the real program", "Every fault at every point of the worker protocol, acted out by scripted worker processes, with the real program in a process of its own.")
check("P36", "p_act", TR, "Every caret and node of every text of the stated spaces.")
check("P37", "p_proc", "exhaustive enumeration of life-cycle histories of the real program", "Every sequence of life-cycle messages to every end of the session, with healthy, silent, dead and missing workers.")
check("P39", "p_act", T, "Every pair of positions of every text of the stated spaces, with and without kind filters.")

import json
P=[]
def p(id,title,st,over,qt,why,files,mech,state=[],obs=[]):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=None)))
T="crates/brack-tokenizer/src/"; PA="crates/brack-parser/src/"; TR="crates/brack-transformer/src/"; EX="crates/brack-expander/src/"; CG="crates/brack-codegen/src/"; PL="crates/brack-plugin/src/"; LS="crates/brack-language-server/src/"; PM="crates/brack-project-manager/src/"
doc="every document, of any length, nesting and characters"
tk=[T+f for f in ("tokenize.rs","dispatch.rs","tokenizer.rs","utils.rs","text.rs","module.rs","identifier.rs","backslash.rs","angle_bracket_open.rs","angle_bracket_close.rs","curly_bracket_open.rs","curly_bracket_close.rs","square_bracket_open.rs","square_bracket_close.rs","newline.rs","whitespace.rs","dot.rs","comma.rs","tokens.rs")]
p("C01","Tokenization loses nothing","Tokenizing any document succeeds. The texts of the resulting tokens, put together in order (text, module and identifier tokens with their value, every other token with the one character it stands for), are exactly the document, so no character is lost, added, changed or reordered. The list ends with an end-of-file token and contains no other one.",["inputs"],doc,"The tests compare the tokens of a dozen fixed documents; the guarantee is over every document and every interaction of escapes, brackets and text.",tk,[("each tokenizer function consumes a prefix and hands the rest on",T+"dispatch.rs"),("Tokenizer::merge carries pool, tokens and rest",T+"tokenizer.rs")],[("pool","text read but not yet made a token",T+"tokenizer.rs"),("untreated","rest of the document",T+"tokenizer.rs")],["brack_tokenizer::tokenize::tokenize_str"])
p("C02","Token positions are exact","The span of every token is where its text lies in the document: it starts at the line and column of its first character and ends right after its last. Lines are counted from 0 and end at a line feed, columns count user-perceived characters (grapheme clusters) from 0; the end-of-file token is empty and lies at the end of the document.",["inputs"],doc,"The tests check the positions of a few short documents; positions depend on everything that precedes a token (escapes, line breaks, multi-byte and combining characters).",tk,[("line, column and token start counters",T+"tokenizer.rs")],[("line, column, token_start_line, token_start_column","where the tokenizer is and where the current run of text began",T+"tokenizer.rs")],["spans of the tokens returned by brack_tokenizer::tokenize::tokenize_str"])
p("C03","Lexical rules","Brackets, backslash and line feed are always tokens of their own; dot, comma and space are tokens of their own exactly inside a command; everything else is gathered into maximal runs. A backslash followed by a bracket, dot, comma or backslash makes that character lose its meaning: it changes neither the nesting nor how later text is read. A run is a module name or command name only between an opening bracket and the end of that command's name (module if a dot follows; identifier if a space, line feed or closing bracket follows, after which the name is complete), a closing bracket ends the name and lowers the nesting of its own kind, never below zero, and every other run is text.",["inputs"],doc,"The token kinds depend on the whole history of openings, closings and escapes; the tests fix a dozen histories.",tk,[("dispatch on the next character and the nesting",T+"dispatch.rs"),("looking_for_identifier and nest counts",T+"tokenizer.rs")],[("angle/curly/square_nest_count","how many commands of each kind are open",T+"tokenizer.rs"),("looking_for_identifier","a command's name is still to come",T+"tokenizer.rs")],["brack_tokenizer::tokenize::tokenize_str"])
pf=[PA+f for f in ("parse.rs","stmt.rs","expr_or_close.rs","expr.rs","bracket.rs","bracket_close.rs","angle.rs","curly.rs","square.rs","escaped.rs","modules.rs","ident.rs","dot.rs","comma.rs","text.rs","whitespace.rs","newline.rs","eof.rs","cst.rs")]
toks="every token list that tokenization of a document yields"
p("C04","The syntax tree keeps every token","Whenever a document is parsed successfully, the leaves of its syntax tree, read left to right, are exactly the document's tokens in order, each with its kind and text (an escape contributes its backslash and the escaped character). Hence the document can be rebuilt from the tree, character for character.",["inputs"],toks,"The tests parse a few token lists; losing or duplicating a token needs a particular nesting, failure and backtracking path.",pf,[("every parser consumes a prefix of the tokens and returns the rest",PA+"expr.rs")],[],["brack_parser::parse::parse"])
p("C05","Syntax trees follow the grammar","Every tree the parser returns conforms to the published concrete grammar: a document is paragraphs separated by at least two line feeds, then line feeds and end-of-file; a paragraph is lines (an expression or a lone closing bracket) separated by single line feeds; an expression is a non-empty sequence of commands, escapes, text, names, spaces, dots and commas. A command starts with its opening bracket, holds only expressions and line feeds, never two expressions side by side, and if it ends with a closing bracket, that bracket is of its own kind; an escape holds at most the one escaped character.",["inputs"],toks,"The grammar constrains every node at every depth, after every backtracking choice.",pf+["brack.cst.ebnf"],[("one function per production",PA+"parse.rs")],[],["brack_parser::parse::parse"])
p("C06","Exactly the documented documents are rejected","Parsing fails for a document exactly if a closing bracket that closes no open command stands anywhere but alone on its line outside every command, or if the document begins with a line feed that anything but line feeds follows. Every other document is accepted, however badly its commands are formed or nested, and an escaped bracket never counts.",["inputs"],toks,"Acceptance depends on the whole nesting history; the tests try a handful of documents.",pf,[("parse accepts only when end-of-file is reached",PA+"parse.rs"),("brackets end at a closer of another kind",PA+"bracket_close.rs")],[],["brack_parser::parse::parse"])
p("C07","Node spans cover exactly their content","In every tree the parser returns, a leaf has the span of its token, and an expression, paragraph or document spans from the start of its first child to the end of its last. A command spans from its opening bracket to the end of its closing bracket or, if it was never closed, to the end of the token that ended it; an escape has the span of its backslash.",["inputs"],toks,"Spans are merged child by child along every nesting path, with line and column compared separately.",pf,[("merge_location",PA+"cst.rs"),("CST::add",PA+"cst.rs")],[("location","span of a node",PA+"cst.rs")],["brack_parser::parse::parse"])
tf=[TR+f for f in ("transform.rs","simplify.rs","document.rs","stmt.rs","expr.rs","angle.rs","curly.rs","square.rs","backslash.rs","utils.rs","ast.rs")]
p("C08","Transformation keeps a well-formed document's content","Transformation never fails, whatever the tree. For a document that is well formed (see C09) the abstract tree has the same paragraphs, commands and texts in the same order: each command has its module, its command name and one argument for each comma-separated part, in order. An argument contains its commands, texts, names and escaped characters, and the spaces between them, without surrounding spaces and without line feeds; outside commands text is unchanged and line feeds separate.",["inputs"],"every tree the parser yields","Arguments are assembled by several passes that reorder and drop nodes; the tests look at two commands.",tf,[("simplify per node kind",TR+"simplify.rs"),("transform::aux rebuilds the tree",TR+"transform.rs")],[],["brack_transformer::transform::transform"])
p("C09","Diagnostics appear exactly for ill-formed documents","Transformation reports no diagnostic exactly if the document is well formed: every command is closed by its own bracket, is named by a module (or angle command), a dot and an identifier (or angle command), has no further dot between its arguments and no empty argument beside a comma; every backslash escapes a character; no closing bracket is stray. Otherwise the kinds of diagnostics reported are exactly the kinds of mistakes present: unclosed, unopened, missing module, dot or name, unexpected dot or comma, lone backslash.",["inputs"],"every tree the parser yields","Each mistake can occur at any depth and beside any other; the tests contain no ill-formed command.",tf+[TR+"error.rs"],[("check_* helpers",TR+"utils.rs")],[],["brack_transformer::transform::transform"])
p("C10","Diagnostics point at the mistake","Every reported diagnostic carries the span of the element it is about: the stray bracket, the lone backslash, the unexpected dot, comma or element, or, for an unclosed command, from its opening bracket to the last element it contains. Every mistake present is reported at its own place, and no diagnostic points anywhere else.",["inputs"],"every tree the parser yields","A location can only be wrong for a particular nesting and neighbourhood; no test looks at a diagnostic's location.",tf+[TR+"error.rs"],[("TransformError carries a location",TR+"error.rs")],[],["brack_transformer::transform::transform"])
p("C11","Expansion replaces each macro call by its result","Expanding a document replaces every angle command in it, at any depth, by the tree its macro returns, and leaves everything else as it was: same kinds, values, order and number of nodes. A macro call is an angle command with one module and one name; each is made exactly once, in document order, with the document as it stands before expansion and the call's own identity. A tree without angle commands comes out unchanged and no plugin is called; a macro failure is reported and never yields a partial tree.",["inputs","programs"],"every abstract document tree and every behaviour of the macros","No test expands anything.",[EX+"expand.rs"],[("expand_other walks the children, expand_angle calls the macro",EX+"expand.rs")],[],["brack_expander::expand::expander"])
p("C12","Output is composed in document order, hooks applied once","The output of a node is the concatenation of the outputs of its children in order; a text yields its value, and a command yields what its plugin returns for it. If a plugin claims the document, paragraph, expression or text hook, it is called exactly once per node of that kind, with exactly the text the node would have yielded, and its answer takes that text's place; without a hook the text is unchanged.",["inputs","programs"],"every abstract tree and every plugin behaviour","No test generates anything; order and multiplicity matter for every tree shape.",[CG+f for f in ("generate.rs","stmt.rs","expr.rs","text.rs","curly.rs","square.rs")],[("generate dispatches on the node kind",CG+"generate.rs")],[],["brack_codegen::generate::generate"])
p("C13","Arguments are bound by the command's signature","A command's arguments are generated in order and handed to the plugin by position, as its signature says: the i-th parameter takes the i-th argument; a required one must have it, an optional one takes it or none, an array takes it and all that follow. A missing required argument, or more arguments than parameters when none of them is an array, is an error that is reported, never a crash, and the plugin is not called; otherwise it is called once, with the command of that module, name and bracket kind.",["inputs","programs"],"every argument list and every signature a plugin can declare","Binding depends on the signature and on the number of arguments; no test calls a command.",[CG+"curly.rs",CG+"square.rs",PL+"types.rs"],[("arg_counter",PL+"types.rs")],[],["brack_codegen::generate::generate"])
p("C14","Plugin registry: names, commands and hooks are unambiguous","A plugin loads exactly if every hook it claims is a command of that name in its table and no command of that name returns another kind. Building a registry from loaded plugins of different names succeeds exactly if at most one of them claims each of the document, paragraph, expression and text hooks. Every call is then routed to the plugin registered under the given module name and to the command with the given name and bracket kind, and to no other, and an unknown module or command is an error that is reported.",["configurations","inputs"],"every list of plugins, flags and command tables","No test builds a registry.",[PL+"plugins.rs",PL+"plugin.rs",PL+"types.rs",PL+"feature_flag.rs"],[("Plugins::new",PL+"plugins.rs"),("argument_types and call_* look the command up",PL+"plugins.rs")],[],["brack_plugin::plugins::Plugins"])
p("C15","Semantic tokens decode to the document's tokens","The semantic tokens of a document, decoded as the protocol prescribes (each line relative to the previous token, each column relative to it on the same line and absolute otherwise), give back exactly the start of every token of the document in order, with its length in the columns the server uses. Module names, command names and brackets carry the entry of the announced legend that fits them (namespace, variable, and macro, method or function for angle, curly and square brackets); every other token is sent with a type outside the legend, that is undecorated.",["inputs"],doc,"Relative encoding accumulates over the whole document; no test covers it.",[LS+"request/semantic_tokens.rs"],[("delta encoding against the previous token",LS+"request/semantic_tokens.rs")],[],["textDocument/semanticTokens/full"])
p("C16","Messages are understood however the input is chunked","The language server handles exactly the messages of its input stream, in order and once each, however the stream is cut into reads: several messages in one read, a message or a multi-byte character split across reads. A message whose content it cannot decode or handle does not stop it or disturb the following ones.",["inputs","schedules"],"every sequence of messages and every way to cut it into reads","The framing state survives between reads; there is no test of the server.",[LS+"server.rs"],[("Server::run",LS+"server.rs")],[],["standard input and output of the language server"])
p("C17","One answer per request","Every request the client sends (a message with a number or string as id, and a method) is answered exactly once, with its own id and either a result or an error; a notification or a response is never answered, and content that is no JSON or none of these is answered by an error without id. Each answer is framed with its exact length in bytes.",["inputs","histories"],"every sequence of messages","Holds over every history of requests and notifications; there is no test of the server.",[LS+"server.rs",LS+"request.rs",LS+"response.rs"],[("dispatch and send_* functions",LS+"server.rs")],[],["standard output of the language server"])
p("C18","Saving publishes exactly the document's diagnostics","When a document that parses is saved by a client that accepts published diagnostics, the server publishes once, for that document, exactly the diagnostics transformation reports for its saved content, in order, each with its message and span; an empty list clears earlier ones.",["inputs","histories"],"every saved document and history of saves","Joins file contents, three compiler stages and the protocol; there is no test of the server.",[LS+"notification/did_save.rs",TR+"error.rs"],[("did_save",LS+"notification/did_save.rs")],[],["textDocument/publishDiagnostics"])
p("C19","Completion offers the commands of the bracket being typed","A completion request triggered by an opening bracket offers exactly the commands of the project's plugins that are called with that kind of bracket: none missing, none of another kind, none twice. Each is offered under its module and command name and inserts that name and the closing bracket of its kind. Any other trigger offers nothing.",["inputs","configurations"],"every set of plugins and commands, every trigger","Depends on the loaded plugins; there is no test of the server.",[LS+"request/completion.rs"],[("completion",LS+"request/completion.rs")],[],["textDocument/completion"])
p("C20","Plugin settings survive a round trip","Writing a project configuration and reading it back gives the same configuration: document data and, for every plugin, its source, version and each hook flag, whether set, unset or absent. A plugin entry with an unknown, duplicate or missing field or an unknown source is refused.",["configurations"],"every configuration","The hand-written serializer and deserializer must agree on every combination of optional fields; no test covers them.",[PM+"plugin.rs",PM+"config.rs",PM+"document.rs"],[("Serialize and Deserialize for PluginSchema",PM+"plugin.rs")],[],["Brack.toml"])
p("C21","A build translates every document of the project","A build writes, for every document in the project's document folder and for nothing else, an output file of the same name with the backend's extension, containing what compilation of that document yields; it fails, naming the reason, if a document or plugin cannot be processed.",["inputs","configurations"],"every project","Covers every set of documents and plugins; no test builds a project.",[PM+"project.rs"],[("Project::build",PM+"project.rs")],[],["files written under out/"])
p("C22","The compile command prints the stage asked for","brack compile prints exactly the result of the compiler stage asked for (tokens, syntax tree, abstract tree or its diagnostics, expanded tree, output text; as JSON on request) for the given file, with exactly the plugins of the plugin folder: a file NAME_HASH.wasm is module NAME, other files are ignored. Where there is no such result (a stage or plugin fails, the file is not named .[], an unknown level, JSON of the output text) it fails with a reason and prints nothing.",["inputs","configurations"],"every command line, plugin folder and document","No test runs the program; plugin folders and levels combine freely.",["src/main.rs","src/sub_commands.rs"],[("run_compile","src/main.rs")],[],["standard output and exit status of brack compile"])
p("C23","Plugin downloads are exact","After a successful download of the configured plugins (project.download_plugins_using_config) every configured plugin is known under its name, with its hook flags as configured (absent: off) and with a file whose content is its own release (owner, repository, version, name and backend), whether it was downloaded now or by an earlier run, and in whatever order the downloads end; plugins the configuration does not name stay as they were. It fails only when a release is not available or a file cannot be written, and whatever happened before (failed or interrupted downloads, other configurations, other backends), no later run takes a file for a release that it is not.",["inputs","histories","schedules","faults"],"every configuration, history of downloads, order of completion and failing write","No test downloads anything; wrong files appear only in histories: a changed backend or version, a write that stops half way.",["crates/brack-project-manager/src/project.rs","crates/brack-project-manager/src/plugin.rs"],[("download_plugins_using_config","crates/brack-project-manager/src/project.rs"),("hash_sha256","crates/brack-project-manager/src/plugin.rs")],[],["the files in plugins/","Project.plugins_metadata"])
p("C24","Adding a plugin adds exactly it","When brack add github:OWNER/REPO@VERSION (none of the three empty or containing a colon, slash or at sign) succeeds, Brack.toml describes the configuration it described before plus one entry, named by the part of REPO before its first dot, with this owner, repository and version and no hook flags, and plugins/REPO.wasm holds the content of that release. It never succeeds for a plugin name that is already configured or a schema that is not of the github kind, and when it fails Brack.toml is what it was (unless writing that very file failed half way).",["inputs","configurations","faults"],"every schema, configuration, release and failing write","No test adds a plugin; the schema's parts, the existing entries and the failures combine freely.",[PM+"plugin.rs",PM+"config.rs"],[("add_plugin",PM+"plugin.rs")],[],["Brack.toml","the files in plugins/"])
p("C25","A new project is complete and disturbs nothing","When brack new NAME succeeds there was nothing at NAME before, and now there is a project: NAME/docs/main.[] (empty), NAME/.gitignore (naming plugins and out) and NAME/Brack.toml, which describes a configuration with exactly that name, version 0.1.0, no backend, one author placeholder and no plugins, and no other file is new. Whether it succeeds or fails, every file that was there before is unchanged.",["inputs","configurations"],"every name and every folder it is run in","No test makes a project; names may contain whatever TOML or paths give a meaning.",["src/main.rs"],[("new_project","src/main.rs")],[],["the files below NAME"])
p("C26","Every command does its work and reports failure","brack build loads the configuration, downloads the configured plugins and builds, in this order, in the current folder; compile, new, add and language-server do the one thing they are named for, with the arguments given; version prints Brack and the value of APP_VERSION or 0.2.0. Nothing else is done, no step runs after one that failed, and the program succeeds exactly if every step did.",["inputs","configurations","faults"],"every command line and every outcome of every step","No test runs the program.",["src/main.rs","src/sub_commands.rs"],[("main","src/main.rs")],[],["exit status, output and effects of brack"])
p("C27","Trees answer for their nodes","Looking up an identity in an abstract tree (AST::get) returns exactly the first node in document order that carries it, and nothing exactly if no node of the tree does. Adding a node to a container appends it as the last child, changes neither the container's identity nor its other children, and makes its span cover its former span and the child's. Id, value and children return what the node holds. Showing a tree, as error messages do, never fails: it yields one line per node in document order, of two spaces per level, the node's kind and, for a name or text, its value (nothing if it has none).",["inputs"],"every abstract tree, of any size, and every identity","The macros of plugins rely on it for every tree they are given; error messages of code generation show refused nodes; no test looks anything up or shows one.",[TR+"ast.rs",T+"tokens.rs"],[("AST::get",TR+"ast.rs"),("AST::add",TR+"ast.rs"),("AST::display_with_ident",TR+"ast.rs"),("merge_location",T+"tokens.rs")],[],["brack_transformer::ast::AST::get","brack_transformer::ast::AST::add","Display of AST"])
p("C28","The server serves the project of the opened document","The language server's project is the one the last successful opening selected: a notification that ROOT/docs/FILE was opened makes it the project in ROOT, as ROOT/Brack.toml describes it then and with exactly its plugins downloaded. It stays what it was if there is no such file, if it describes no configuration or if the plugins cannot be downloaded, and no other message changes it. What the client can do is what the last readable initialize request said, and nothing else changes it.",["inputs","histories","faults"],"every sequence of messages, every state of the project files and every download failure","Needs sessions with several projects, unreadable configurations and failing downloads; no test runs the server.",[LS+"server.rs",LS+"notification.rs",LS+"notification/did_open.rs",LS+"request.rs",PM+"project.rs"],[("Server::dispatch",LS+"server.rs"),("handle_text_document_did_open",LS+"notification/did_open.rs"),("handle_request",LS+"request.rs"),("load_brack_toml",PM+"project.rs")],[("Server::project","the project completions come from",LS+"server.rs"),("Server::client_capabilities","whether diagnostics are published",LS+"server.rs")],["completions and published diagnostics after each message"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))

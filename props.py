"""What each check runs: the Verus units, the harness, and what the evidence says about both."""
CORE = ["brack-tokenizer", "brack-parser", "brack-transformer"]
TOK_ASSUME = [
    "documents have at most 0xfffffff grapheme clusters (line, column and nesting counters do not overflow)",
    "unicode-segmentation: `separate` yields the first grapheme cluster and the rest, and the clusters of the rest are the remaining clusters (crate is outside the verifier)",
    "derived Clone/PartialEq/Default, String and Vec shims of lib/base.rs behave as their contracts say",
    "stack depth and memory are unbounded; Verus and Z3 are sound",
]
RULE = "all documents up to a bounded length over 15 symbols (brackets, backslash, dot, comma, space, line feed, NUL, a letter, a two-byte letter, a flag), every literal mined from the sources in fixed surroundings, random token soup, commands generated from the grammar and mutated ones; non-trivial: reaches the comparison with content"
PAR_ASSUME = [
    "the tokens are a token list as the tokenizer makes them: exactly one end-of-file token, at the end, and no empty token (a postcondition of tokenize_str discharged in unit C03)",
    "derived Clone/PartialEq/Default, String, Vec and uuid shims of lib/base.rs and lib/cst.rs behave as their contracts say; node ids are arbitrary",
    "stack depth and memory are unbounded; Verus and Z3 are sound",
]
SPAN_ASSUME = ["token positions never go back (a postcondition of tokenize_str discharged in unit C02)"]
ASSUME = {**{n: TOK_ASSUME for n in (1, 2, 3)}, **{n: PAR_ASSUME for n in (4, 5, 6, 7, 8, 9, 10)}}
ASSUME[7] = PAR_ASSUME + SPAN_ASSUME
TR_ASSUME = ["the syntax tree given to transform conforms to the grammar (the postcondition of parse discharged in unit C05)"]
AUX = ["transform::aux, which runs after the diagnostics are decided, returns (discharged in unit C08)"]
ASSUME[8] = PAR_ASSUME + TR_ASSUME
ASSUME[9] = ASSUME[10] = PAR_ASSUME + TR_ASSUME + AUX
ASSUME[29] = ASSUME[30] = ASSUME[8]
PROPS = {
    f"C{n:02}": dict(harness="core", mine=CORE, rule=RULE, units=[f"C{n:02}"], assumptions=ASSUME[n])
    for n in [*range(1, 11), 29, 30]
}
PROPS["C30"]["units"] = ["C30", "C09"]  # C09: no diagnostic means well formed; C30: a well-formed document's abstract tree is grammatical

PLUG = ["brack-plugin", "brack-expander", "brack-codegen"]
PLUG_ASSUME = ["a call of the extism host returns and its answer is a function of the plugin's wasm and of the calls made to it so far; serde_json encodes and decodes faithfully", "std's HashMap behaves as a map; derived Clone/PartialEq/Hash, String and Vec shims behave as their contracts say", "trees are finite, stack and memory unbounded; Verus and Z3 are sound"] + ["the harness replaces the extism host by a stand-in that records each call and answers it (extism-convert, which encodes and decodes inputs and outputs, is real)"]
PLUG_MORE = {
    11: [],
    12: ["what curly::generate and square::generate yield and call is some function of the command and the registry (C13 proves which)"],
    13: ["what text::generate and expr::generate yield and call is some function of the node and the registry (C12 proves which)"],
}
PLUG_RULE = "random lists of up to four plugins (hooks, command tables, signatures), document trees and macro results over every node kind, answers that fail; non-trivial: reaches the comparison and calls a plugin or refuses something"
for n in range(11, 15):
    PROPS[f"C{n}"] = dict(harness="plug", mine=PLUG, rule=PLUG_RULE, units=[f"C{n}"], assumptions=PLUG_ASSUME + (PLUG_MORE.get(n) or []))

SERVER_ASSUME = ["serde_json, toml, lsp-types and the url crate encode and decode faithfully", "in the harness standard input and output, the plugin host and the HTTP client are stand-ins, and tokio's runtime has one thread; everything else is the real code"]
LSRULE = "random sequences of up to six messages of every kind (requests, notifications, responses, malformed ones; ids of every kind; extra headers; white space and CRLF inside), random cuts from single bytes to several messages per read; non-trivial: at least two messages or an answer"
SRV_RULE = {
    15: "all documents of up to three symbols, then random documents as for C01",
    16: LSRULE,
    17: LSRULE + "; short writes",
    18: "histories of up to four saves of random documents under names with characters that URIs escape; non-trivial: something is published",
    19: "random sets of up to three plugins with up to six commands of every kind, every trigger; non-trivial: something is offered, or nothing has to be",
    20: "random configurations over strings that TOML escapes and every combination of hook flags, and entries with unknown, repeated, missing or ill-typed fields",
    21: "random projects of up to three plugins and three documents over two successive builds, with files that are no documents, documents that fail and releases that are missing",
    23: "histories of up to four downloads over changing configurations (owner, repository, version, backend, hooks, names), releases that are missing, no network, writes that stop after up to 400 bytes, downloads that end in any order, one project object throughout or a new one",
}
SRV = {n: ["brack-language-server"] for n in range(15, 20)} | {n: ["brack-project-manager"] for n in (20, 21, 23)}
SRV_MORE = {
    15: ["the tokens handed to the semantic-token encoder are placed as unit C02 proves of tokenize_str"],
    16: ["the handlers behind the dispatch neither read input nor lose output (the contract of dispatch that unit C17 discharges)", "a Vec has at most isize::MAX elements; std's UTF-8 decoding, split and integer parsing behave as their contracts say"],
    17: ["textDocument/completion writes nothing by itself and project download writes nothing to the output", "tokio's write_all and flush either write everything or fail", "serde_json and the derived Serialize of the response structs write the fields they are given"],
    19: ["what a plugin offers is a function of its file's contents (the extism host's first answer); iterating a HashMap yields every entry once; lsp-types encodes what it is given", "the harness and unit C14 decide what Plugin::new and Plugins::new do; C19 uses their contracts"],
    20: ["toml carries the fields a serializer writes and hands them back to visit_map; the derived Serialize and Deserialize of Config and Document (serde_derive) are outside the verifier and covered by the bounded comparison only"],
    21: ["tokenize, parse, transform, expander and generate are functions of the file's text and of the registry (units C01 to C13 prove which)", "std's file system and path functions behave as the contracts of lib/files.rs say; files do not change during a build; C23 decides what downloading plugins does"],
    23: ["SHA-256 does not collide; the derived Debug text of a plugin's entry and of a text say which it is", "releases do not change; the HTTP client yields what is at the address or fails", "std's write may fail with any content at its path but touches nothing else; rename is atomic; with_extension, exists and the path functions behave as lib/disk.rs says; nothing else writes into the plugins directory meanwhile", "tokio runs the tasks it is given; they share nothing, so a task stands for the value it yields; join_all keeps their order"],
    18: ["tokenize, parse and transform are some functions of the text (units C01 to C10 prove which)", "lsp-types and the url crate encode what they are given"],
}
for n in [*range(15, 22), 23]:
    PROPS[f"C{n}"] = dict(harness="server", mine=SRV[n], rule=SRV_RULE[n], units=[f"C{n}"] if n in SRV_MORE else [], assumptions=SERVER_ASSUME + SRV_MORE.get(n, []), budget_ms=20000)

CLI_ASSUME = ["clap parses the command line as its derive says; std prints what println! formats; serde_json and Debug are functions of the value printed", "in the harness the program is /repo/src/main.rs, compiled into a process of its own, with stand-ins for the plugin host and the HTTP client"]
PROPS["C22"] = dict(harness="cli", mine=SRV[20] + ["../src"], units=["C22"], budget_ms=20000, rule="random plugin folders (names with underscores, dashes, digits, files that are no plugins), documents of every kind that use them, every output level, JSON or not, folder by option or environment; the printed text is compared with the stages' results (node ids, which are random, numbered by appearance)",
    assumptions=CLI_ASSUME + ["the regular expression ^(?<module_name>.+)_[[:alnum:]]+\\.wasm$ matches exactly NAME_HASH.wasm with a non-empty NAME without line feed and a non-empty ASCII alphanumeric HASH, and its group is NAME", "tokenize, parse, transform, expander and generate are functions of the file's text and of the registry (units C01 to C13 prove which)", "std's file system, environment and path functions behave as the contracts of lib/files.rs and units/C22.vx say"])
PROPS["C24"] = dict(harness="cli", mine=SRV[20], units=["C24"], budget_ms=20000, rule="random configurations (also none, ones that cannot be read), up to two additions in a row of schemas of every form, releases that are missing; Brack.toml and plugins/ are compared with what the schema says, by a TOML reader of its own",
    assumptions=CLI_ASSUME + ["toml writes a configuration so that reading it gives it back (unit C20; the derived parts of Config and Document are compared only)", "std's split, trim_end_matches and file functions and reqwest behave as the contracts of lib/parts.rs, lib/diskfiles.rs and lib/web.rs say; a write that fails may leave any content at its own path and touches nothing else", "nothing else writes into the folder meanwhile"])
PROPS["C25"] = dict(harness="cli", mine=SRV[20] + ["../src"], units=["C25"], budget_ms=20000, rule="up to three projects made in a row under names with quotes, backslashes, line feeds, brackets and TOML syntax, with files and folders of these names already there; every file of the folder is compared, Brack.toml by the program's own reader",
    assumptions=CLI_ASSUME + ["the text [document] name = Q version = \"0.1.0\" ... describes the configuration with exactly these fields if Q is what toml::Value writes for a name", "std's file functions behave as the contracts of lib/diskfiles.rs say; nothing else writes into the folder meanwhile"])
PROPS["C26"] = dict(harness="cli", mine=SRV[20] + ["../src"], units=["C26"], budget_ms=20000, rule="every command in random surroundings (those of C21, C22, C24, C25): its effect is compared with what it stands for",
    assumptions=CLI_ASSUME + ["load_brack_toml, download_plugins_using_config, build, run_compile, new_project, add_plugin and Server::run do what units C16 to C25 prove of them; here they are steps that succeed or fail"])
PROPS["C27"] = dict(harness="core", mine=CORE, units=["C27"], rule="random trees of every node kind with colliding identities and missing values, and every identity in and not in them; random chains of additions; compared, as is what is shown, with a list of the nodes in document order",
    assumptions=["the constructors and derived Clone/PartialEq, String and Vec shims of lib/base.rs behave as their contracts say; two strings are equal exactly if their characters are", "a formatter that accepts what is written puts it after what it has; a tree is less than 2^64 levels deep", "add is called on containers (Document, Stmt, Expr, Angle, Square, Curly); on other nodes it panics by design", "stack depth and memory are unbounded; Verus and Z3 are sound"])
PROPS["C28"] = dict(harness="server", mine=SRV[19] + SRV[20], units=["C28"], budget_ms=20000, rule="random sessions over five nested project folders: configurations written, broken and removed between messages, plugins without a release, documents opened by notification and by request, initialize in every form, other messages; after each message the offered commands and whether a save publishes are compared with the reference project; non-trivial: the project or the capabilities change",
    assumptions=SERVER_ASSUME + ["what download_plugins_using_config makes of a project is some function of it (unit C23 decides which), and it fails or not as this function says", "a file's text does not change while one message is handled; toml::from_str is a function of the text (unit C20); std's path functions and the url crate behave as lib/lsp.rs says", "the handlers of completion, saves and semantic tokens take the server by shared reference and so leave it as it is"])

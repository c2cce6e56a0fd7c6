#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line) from the table below."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                  "observe_at": observe, "hook_needed": None}})
    if state:
        P[-1]["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]

prop("C01", "Building a parsed config and parsing it again gives the same config",
 "For every config that parses without errors, the text built from the parse result parses without errors under the same options, and gives the same directives, arguments, blocks, map parameters and comments in the same order. Comments that end up on one line after another may be merged into one comment of the same text; line numbers may change. Building the second parse result gives the same text as the first build once line positions have settled.",
 ["inputs", "configurations"], "every config text that parses without errors (any quoting, escapes, variables, comments, unicode, nesting, if conditions, map bodies), every indent/tab/header setting, with and without comments",
 "The round trip tests cover two dozen hand-written files; a lossy escape or a missing quote needs a combination of characters that they do not contain.",
 ["build.go", "util.go", "lex.go", "parse.go"],
 [("quoting of values on output", "build.go Enquote/needsQuote, util.go repr"), ("if conditions", "build.go buildBlock, util.go prepareIfArgs"), ("tokenizer", "lex.go tokenize")],
 ["result of Parse", "bytes written by Build"])
prop("C02", "Payloads survive a trip through JSON and build the same files",
 "Marshaling the result of an error-free parse to JSON and unmarshaling it gives a payload with equal files, statuses, directives, arguments, lines, includes, blocks (empty blocks stay blocks), comments and map parameter marks; the lists in the JSON of a parsed payload are lists also where they are empty. Building from the unmarshaled payload gives byte-for-byte the text that building from the original gives.",
 ["inputs", "configurations"], "every error-free payload: separate and combined configs, with comments, empty blocks, any valid UTF-8 in arguments",
 "The tests unmarshal fixed JSON literals and marshal a handful of directives; they do not compare a payload with its own JSON image for arbitrary content.",
 ["types.go", "build.go"],
 [("JSON field tags and directive marshaling", "types.go Directive, MarshalJSON"), ("block/include/comment predicates", "types.go IsBlock/IsInclude/IsComment")],
 ["json.Marshal/Unmarshal of Payload", "bytes written by Build"])
prop("C03", "A value that is written by the builder is read back as that one value",
 "Quoting a string for output gives text that reads back as exactly one token; for every string that the tokenizer can produce as a value, that token has exactly this value. A directive name or argument can therefore never end its statement, open or close a block, start a comment, or join or split arguments, whatever it contains.",
 ["inputs"], "every argument string, exhaustively for short strings over the characters with a lexical meaning, at any argument position and after any neighbour",
 "Tests of quoting use about thirty literals; an injection needs the one prefix, suffix or escape parity that none of them has.",
 ["build.go", "util.go", "lex.go"],
 [("decision to quote", "build.go needsQuote, escape"), ("quoting and escaping", "util.go repr, containsEscaped")],
 ["Enquote", "Build output read by Lex"])
prop("C04", "Text is split into tokens by the nginx rules, without loss",
 "Every input is split into words, quoted strings, comments and the special characters { } ; exactly by the documented rules for whitespace, quotes, backslash escapes, comments and ${...} variables; each token has the text, the quoted mark and the position that these rules give. Misplaced ; and {, unbalanced braces and truncated input are reported as an error token after the tokens that come before them, and nothing is dropped silently.",
 ["inputs"], "every byte string, in particular every short string over the characters with a lexical meaning, and every value written with any valid quoting and spacing",
 "Lexer tests compare the tokens of about twenty inputs; transitions between lexical states (escape in variable in word, quote after comment, CR inside an escape) are combinations outside of them.",
 ["lex.go"], [("tokenizer state machine", "lex.go tokenize"), ("character predicates", "util.go isSpace, isEOL")], ["token channel of Lex and LexWithOptions"],
 [("lexState/token/esc/depth", "lexical state, text so far, pending backslash, open braces", "lex.go tokenize")])
prop("C05", "The parsed tree has the nesting and order of the text",
 "Every statement of a file appears exactly once in the parse result, in the order of the text and within the block that encloses it, with all of its arguments in order and nothing added; a statement has a block if and only if it has one in the text, even when that is empty. For if directives only the enclosing parentheses, and white space next to them, are left out of the arguments.",
 ["inputs", "configurations"], "every config text built from any tree of statements, any depth and width, any lexical form, comments anywhere",
 "Tests compare fixed trees; lost, duplicated or misplaced statements that depend on neighbours, depth or quoting are outside of them.",
 ["parse.go", "util.go"], [("recursive descent over the tokens", "parse.go parser.parse"), ("if conditions", "util.go prepareIfArgs")], ["Payload.Config[].Parsed"])
prop("C06", "Line numbers point to where things are in the file",
 "The line of every token, directive and comment in the result is the line on which it starts in its file, counting line feeds, whatever line breaks occur before or inside it: in quoted strings, in comments, in multi-line arguments, in included files, after blocks handled by extensions. A character { or ; or } directly after a word carries the line of that word, and a comment among the arguments of a directive carries the line of the directive.",
 ["inputs"], "every config text with any number of line breaks in any lexical position, LF or CRLF, in any included file",
 "Tests check lines on files with one statement per line and a few multi-line values; an offset after a rare construct is not reached.",
 ["lex.go", "parse.go", "lua.go"], [("line counting and token start line", "lex.go tokenize, SubScanner.Scan"), ("line of directives", "parse.go parser.parse")], ["NgxToken.Line", "Directive.Line", "error lines"])
prop("C07", "Errors are accounted for exactly once and status tells whether there are any",
 "The status of a payload, and of each of its configs, is failed if and only if it has an error, else ok. The errors of the payload are the errors of its configs, each once, with its file and line, in the order in which they were found; the error callback is called once per error with that error and its result is stored with it. With stop-on-error the parse returns no payload but the first of these errors and does not call the callback.",
 ["inputs", "configurations", "histories"], "every set of files with any number of errors at any place, with and without callback, stop-on-error and combining",
 "Tests look at configs with one or two errors; double reporting, a lost status or mixed-up files need several files and several errors.",
 ["parse.go", "util.go"], [("error handler", "parse.go Parse handleError"), ("error merge when combining", "util.go combineConfigs")], ["Payload and Config Status/Errors", "ErrorCallback calls"])
prop("C08", "An invalid statement costs one error and nothing else",
 "When parsing goes on after errors, every statement that is rejected (unknown, not allowed in its context, wrong arguments or terminator, invalid map parameter, missing include) is reported once and left out together with its block, except that a directive whose include cannot be opened is kept. All other statements of the file, and of all other files, are parsed as if the rejected one were not there.",
 ["inputs", "histories"], "every valid config with any number of invalid statements planted anywhere, also with nested blocks of any content and next to each other",
 "Tests have a few files with one broken statement each; the effect of a broken statement on what follows it depends on terminator, nesting and position.",
 ["parse.go", "analyze.go", "analyze_map.go"], [("consume invalid or ignored blocks", "parse.go parser.parse with consume"), ("validation", "analyze.go analyze")], ["Payload errors and directives"])
prop("C09", "A directive is accepted exactly when a definition of it permits the use",
 "A directive in a known context is accepted if and only if one of its definitions permits this context, whether it has a block, and its arguments (number, on/off flag in any letter case, expression in parentheses); directives in unknown contexts, or without a definition, are accepted unless unknown directives are errors. The definitions of all given directive sources count together, and switching off the context check or the argument check removes just that condition.",
 ["inputs", "configurations"], "every combination of definitions, directive sources, contexts at any nesting, argument lists, terminators and check switches",
 "Tests try about two hundred combinations; the decision has thousands of them (several definitions per directive, bits for each context and arity).",
 ["analyze.go", "parse.go", "util.go"], [("bit mask decision", "analyze.go analyze"), ("context of blocks", "analyze.go contexts, enterBlockCtx"), ("expression and flag checks", "util.go validExpr, validFlag")], ["Payload errors per statement"])
prop("C10", "The bundled directive sets permit what the NGINX releases permit",
 "For each bundled set (NGINX Plus and open source releases and the modules) and each directive in it, the contexts, block use, flags and argument counts that the set permits are those of the set as released; names that are not in the set are not matched by it. Parsing without explicit sources uses the latest NGINX Plus, njs and OpenTelemetry sets together.",
 ["configurations", "inputs"], "every directive of every bundled set, in every known context, with 0 to 8 arguments, flags, with block and without",
 "Tests use about a hundred directives out of more than a thousand per set, each in one or two contexts.",
 ["analyze_nplus_latest_directives.gen.go", "analyze_oss_latest_directives.gen.go", "analyze_lua_directives.gen.go", "analyze_njs_directives.gen.go", "analyze_otel_directives.gen.go", "analyze.go"], [("bit mask tables", "analyze_*_directives*.go"), ("default union", "analyze.go unionBitmaskMaps, defaultDirectives")], ["acceptance by Parse", "match functions"])
prop("C11", "Includes are resolved completely and each file is parsed once",
 "An include names the files that its pattern matches, in sorted order, or the one file it names, relative to the directory of the main file; its indexes point to exactly these files in the payload. Every file is parsed once, in the context of the include that names it first, and the files appear in the order in which they are first named, breadth first; a file that cannot be opened is reported at the include and is not added.",
 ["inputs", "configurations", "histories"], "every acyclic set of files: any depth, sharing, globs with and without matches, absolute and relative paths, missing files, includes in any block",
 "Tests have five include set-ups; index or order mistakes need shared files, several globs, or includes in several blocks.",
 ["parse.go"], [("include queue and index of files", "parse.go parser.includes, included"), ("pattern and glob", "parse.go parser.parse include branch")], ["Directive.Includes", "Payload.Config order", "calls of Open and Glob"])
prop("C12", "Include cycles are reported, and only include cycles",
 "If the include statements of the parsed files form a cycle, including a file that includes itself, then the parse ends with an error that says so; if they do not, then no such error occurs, however often files are shared. The parse terminates in both cases.",
 ["inputs"], "every graph of files and includes, exhaustively for small graphs, with repeated edges and edges through blocks and globs",
 "Tests have six graphs; whether the cycle test is right for multi-edges, several sources and long cycles is not settled by them.",
 ["parse.go"], [("topological sort", "parse.go parser.isAcyclic"), ("edges and degrees", "parse.go includeEdges, includeInDegree")], ["error of Parse"])
prop("C13", "Combining replaces each include by the contents of its files",
 "The combined config of a payload has the directives of the first file in order, where each resolved include is replaced, at its place, by the combined contents of its files in order; every directive keeps its arguments, line and file, and the errors and the status cover those of all files. Combining does not change the payload it is given, and parsing with the combine option gives what combining the separate payload gives, apart from the file names. Payloads with invalid include indexes or cycles give an error.",
 ["inputs"], "every payload: any tree of includes at any depth, files included several times, hand-made payloads with invalid indexes",
 "Tests combine three small payloads; order, multiplicity and aliasing need nested includes in blocks and shared files.",
 ["util.go", "types.go", "parse.go"], [("combination by include indexes", "util.go combineConfigs, performIncludes")], ["Payload.Combined", "Parse with CombineConfigs"])
prop("C14", "No call leaves open files or running goroutines behind",
 "When a parse, combine or build call returns, with or without error, every file it opened has been closed exactly once and no goroutine it started is left, after any parse error, read error, include error or write error. A lexer whose token channel has been read to the end is finished as well. Files are closed when they have been read: how many are open at the same time does not grow with the number of files of a config.",
 ["inputs", "fault_sequences"], "every input of any size with errors at any place, every failing open, read, glob, create, write and close",
 "Tests do not observe goroutines or file handles; leaks occur on error paths with more input left than a channel holds.",
 ["parse.go", "util.go", "build.go", "lex.go"], [("closing of files", "parse.go Parse, include branch; build.go BuildFiles, BuildInto"), ("draining of the lexer", "parse.go Parse"), ("include goroutines", "util.go performIncludes")], ["Close calls on files from Open/Create", "goroutine profile after the call", "open file descriptors"])
prop("C15", "A failing file, glob or writer is always reported to the caller",
 "An error that the environment returns while a config is read (open, read at any byte, glob) appears in the returned error or in the errors of the payload, with the failing file marked failed, and is never taken for the end of the file. An error on output (create, write, close, also a failing directory) is returned by the build call; no build that returns success has left out a byte.",
 ["fault_sequences", "crash_points", "inputs"], "every position of the fault in every kind of call, single faults and combinations, short reads and data together with the error",
 "Tests have no failing readers or writers at all.",
 ["lex.go", "parse.go", "build.go"], [("scanner error", "lex.go tokenize end of input"), ("open and glob errors", "parse.go Parse and include branch"), ("write errors", "build.go Build, BuildFiles, BuildInto")], ["error results", "Payload errors"])
prop("C16", "Results do not depend on scheduling, chunking, or concurrent use",
 "Parsing and building from several goroutines at once, also with shared options, shared payloads, extensions and match functions, has no data race and gives each caller what a call on its own gives. The result of a parse is the same on every run, for every way in which the reader splits the input into reads, and for every capacity of the token channel.",
 ["schedules", "inputs", "configurations"], "every interleaving of concurrent calls, every chunking, every relative speed of reader, lexer, extension and parser",
 "Tests run one call at a time per options value with readers that return everything at once; interleavings are left to chance.",
 ["lex.go", "parse.go", "build.go", "util.go", "analyze.go"], [("token channel between lexer and parser", "lex.go tokenize, LexWithOptions"), ("per-call copies of options", "parse.go Parse, build.go Build"), ("shared tables", "analyze.go, analyze_map.go")], ["race detector", "results of concurrent calls"])
prop("C17", "Any input ends in a result or an error, never in a panic or a hang",
 "For every byte sequence as config, and every setting of the options, tokenizing, parsing, combining, marshaling and building what was parsed return after work that is proportional to the input, without a panic, a deadlock or unbounded memory. The same holds for building and comparing hand-made directives with any names, arguments, blocks and comments.",
 ["inputs", "configurations"], "every byte string, with any option combination, extension lexers included; nesting within the stack limit of the process; an include counts with the depth of the block it is in, and a combined file once for every include of it",
 "Tests use well-formed or mildly broken configs; there is no fuzzing.",
 ["lex.go", "parse.go", "util.go", "build.go", "lua.go", "analyze.go"], [("bounds in argument handling", "util.go prepareIfArgs, validExpr"), ("end of input in lexers", "lex.go, lua.go")], ["completion of each call", "process exit state"])
prop("C18", "Inputs are not modified, and equal calls give equal results",
 "Parsing does not change the options it is given nor the values that its hooks, extensions and readers return, and building, combining, comparing and marshaling change neither the payload nor the options. A call that is repeated with the same arguments gives the same result, whatever calls came before it with the same or other options, and however these ended.",
 ["histories", "inputs"], "every sequence of calls over shared options and payloads",
 "Tests make a new options value and payload for every call and do not compare them afterwards.",
 ["build.go", "parse.go", "util.go", "lex.go"], [("copies of options", "build.go Build, parse.go Parse"), ("copy of directives", "util.go performIncludes")], ["deep comparison of arguments before and after", "repeated results"])
prop("C19", "Each parse option changes just what it is for",
 "Without comment parsing the result is the result with comments, less the comments; ignoring directives gives the result without these directives and their blocks, wherever they are, valid or not; single-file parsing gives the first file alone, with its includes unresolved and no other file opened. The combination of options gives the combination of these effects.",
 ["configurations", "inputs"], "every combination of options on every set of files",
 "Tests use each option on one or two inputs.",
 ["parse.go"], [("option tests", "parse.go parser.parse")], ["results of Parse with different options", "calls of Open"])
prop("C20", "Bodies of map-like blocks are parameters, not directives",
 "In the body of map, geo, types, match, charset_map, split_clients, geoip2 and otel_exporter blocks every statement becomes a parameter of the block, marked as such, with its name and arguments as written, whether or not a directive of that name exists. A parameter is rejected exactly when it has a block, is not terminated, or has a number of values that the kind of block, or the special parameter, does not permit.",
 ["inputs", "configurations"], "every parameter name (also names of directives, include, if) with any number of values in every map-like block",
 "Tests try about thirty parameters.",
 ["analyze_map.go", "parse.go", "build.go"], [("map body check", "analyze_map.go analyzeMapBody"), ("parameter branch", "parse.go parser.parse"), ("build of parameters", "build.go buildBlock")], ["Payload directives and errors", "Build output"])
prop("C21", "Lua blocks are passed through verbatim",
 "With the Lua extension, the text between the braces of a Lua block becomes the one argument after the variable of set_by_lua_block, byte for byte, and ends at the matching brace: braces in Lua strings, long strings and comments do not count. What follows is parsed as if the block were any other directive, and building with the extension and parsing again gives the same Lua text.",
 ["inputs"], "every Lua block with balanced braces, any strings, escapes, comments and long brackets, any text around it, also unterminated ones",
 "Tests have about fifteen Lua blocks.",
 ["lua.go", "lex.go"], [("Lua lexer", "lua.go Lua.Lex, luaComment, luaLongBracket"), ("Lua builder", "lua.go Lua.Build"), ("hand-over", "lex.go tokenize")], ["tokens", "Directive.Args", "Build output"])
prop("C22", "Extensions are used for exactly the directives they are registered for",
 "A registered lexer is called once for each statement whose name is a registered one, quoted or not, at any depth, and never for arguments, comments, prefixes or other names; it sees the text right after the name, what it leaves is tokenized as usual, with lines counted on, and its tokens and errors arrive in order. A registered builder is called once for each directive of a registered name and its text is put at the place of that directive; the last registration of a name counts.",
 ["inputs", "configurations"], "every config with registered names in any position, any sets of extensions, any amount consumed",
 "Tests register one or two names on short configs.",
 ["lex.go", "build.go"], [("dispatch to lexers", "lex.go tokenize extLexers"), ("sub scanner", "lex.go SubScanner"), ("dispatch to builders", "build.go buildBlock extBuilders")], ["calls of Lexer.Lex and Builder.Build", "token stream"])
prop("C23", "Building a payload writes each config to its file and nothing else",
 "Building to a directory writes, for each config, the file of that name (below the directory if the name is relative, with missing directories made), replacing what was there; its content is the built text without trailing white space, plus one line feed. Building into a creator creates one output per config in order, writes the built text to it and closes it once. No other files are touched, and parsing the written tree gives the payload back.",
 ["inputs", "configurations", "histories"], "every payload with any file names, nested and absolute paths, existing older files of any length, any build options",
 "Tests write one or two files to an empty directory.",
 ["build.go", "buffer.go"], [("paths and truncation", "build.go BuildFiles"), ("creator", "build.go BuildInto, buffer.go")], ["file system below a scratch directory", "Creator calls"])
prop("C24", "Built text is laid out by nesting depth with the chosen indent",
 "Each statement of the built text is on a line of its own, indented by its depth times the indent (or that many tabs), with the closing brace on a line at the depth of its block; comments follow on the line of the statement before them when they were on that line in the source. The header appears once, at the top, when asked for; layout options do not change anything else.",
 ["inputs", "configurations"], "every directive tree of any depth, all indents, tabs and header settings",
 "Tests use depth up to four and two indents; the layout at larger depth and width takes another code path.",
 ["build.go"], [("margin", "build.go margin, MaxIndent"), ("block layout", "build.go buildBlock"), ("header", "build.go Build")], ["bytes written by Build"])
prop("C25", "Directive comparison is an equivalence that sees every difference",
 "Comparing two directives gives true if and only if they have the same name, arguments, line, file, includes, comment, map parameter mark, and pairwise equal blocks in order, at all depths. The comparison is reflexive, symmetric and transitive, accepts nil, and a parse result equals the result of parsing the same input again.",
 ["inputs"], "every pair of directive trees, in particular pairs that differ in one field at any depth",
 "Tests compare about twenty pairs of flat directives.",
 ["types.go"], [("comparison", "types.go Directive.Equal, equals, strPtrEqual")], ["Directive.Equal"])
prop("C26", "The generator extracts exactly the directives of the module sources",
 "The generated table has each directive of each command table in the C and C++ files (.c, .cpp) below the path, with one mask per definition in source order, each with the flags of that definition, whatever comments, white space and line breaks the source has; nothing in comments or outside of command tables appears. A flag that is not known ends in an error, as does a source without directives.",
 ["inputs", "configurations"], "every source tree with any number of files, tables and definitions in any layout; tables are array initializers with literal names and flags joined by |",
 "Tests have ten small source files in one layout.",
 ["internal/generator/generator_util.go"], [("comment removal and extraction", "generator_util.go masksFromFile"), ("walk", "generator_util.go getMasksFromPath")], ["output and exit status of cmd/generate"])
prop("C27", "Generated files compile, and obey filters, overrides and names",
 "The generated file is Go code that compiles in the package, and whose match function gives, for each directive, the masks of the table, and no match for other names. Filtered directives are left out, overridden ones have the given masks, names and the comment are those given, flags win over the config file, and equal inputs give equal output.",
 ["configurations", "inputs"], "every combination of filters, overrides, names and comments, from flags and from the config file",
 "Tests compare the text for five configurations and never compile it.",
 ["internal/generator/generator_util.go", "internal/generator/generator.go", "cmd/generate/main.go", "cmd/generate/cmd_util.go"], [("template", "internal/generator/tmpl/support_file.tmpl"), ("filter and override", "generator_util.go genFromSrcCode"), ("flags", "cmd/generate")], ["output of cmd/generate", "go compiler", "match function of the compiled output"])
prop("C28", "Errors say what is wrong and where",
 "Every reported parse error names the file and the line of the statement it is about, the statement with its arguments, and the innermost block it is in (main outside of any), and says which rule is broken. A config that ends too early is recognisable as such with the standard error test, through every reported form of the error, and its text and JSON form are what, file and line.",
 ["inputs"], "every kind of error at every place in every file, also in included files and nested blocks",
 "Tests check these fields for about a dozen errors in the main file.",
 ["errors.go", "parse.go", "analyze.go", "analyze_map.go"], [("error construction", "parse.go, analyze.go, analyze_map.go"), ("unwrapping", "errors.go ParseError.Unwrap, parse.go tokenError")], ["fields of the errors in payloads and results"])
prop("C29", "The bundled tables are what the generator makes with the committed configs",
 "For each bundled set of directives that has a configuration for the generator in the repository, generating with that configuration from sources that define what the set has, and anything for the names it filters or overrides, gives the set again: map and function are named as configured, no filtered directive is in it, and each overridden directive has exactly the configured masks. The configuration is accepted, and what the tables hold beyond what sources can say comes from it.",
 ["inputs", "configurations"], "every committed configuration and its set, every distribution of the definitions over files, any definitions of filtered and overridden names",
 "Tests generate from ten small sources with configurations of their own; the tables and the committed configurations are never compared.",
 ["scripts/generate/configs", "analyze_lua_directives.gen.go", "internal/generator/generator_util.go"], [("configurations", "scripts/generate/configs"), ("tables", "analyze_*_directives.gen.go"), ("filter and override", "generator_util.go genFromSrcCode")], ["output of cmd/generate", "match functions"])
prop("C30", "The generate script gives what the generator makes of a repository",
 "For each git repository, branch and path, and all documented options in any spelling and order, scripts/generate/generate.sh prints what the generator makes of the files of that branch below that path (all files without a path) with these options, values passed on unchanged. If the branch, path or repository is missing, an option is unknown, or there are no directives, it ends with an error and prints no code. It leaves nothing behind. Following a go:generate comment of the package rewrites the table it names, with the same content if the sources define the same.",
 ["inputs", "configurations"], "every repository with any branches and files outside of the path, every combination of options with any values",
 "No test runs the script.",
 ["scripts/generate/generate.sh", "analyze.go"], [("options", "scripts/generate/generate.sh"), ("comments", "analyze.go go:generate"), ("clean up", "scripts/generate/generate.sh cleanup")], ["output and exit status of the script", "temporary directory", "files written by go generate"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")

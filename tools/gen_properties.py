import json
P=[]
def p(id,title,stmt,over,text,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None,
                   **({"state":[dict(name=a,meaning=b,where=c) for a,b,c in state]} if state else {}))))
p("C01","Lexing keeps every word, string, comment and punctuation mark, in order",
 "Lexing any text yields, in source order, exactly the words, quoted strings, comments and punctuation marks NGINX's syntax defines: words end at whitespace or at `{`, `}`, `;`; a quote that begins a word starts a string that runs to the next unescaped quote of the same kind; a `#` that begins a word starts a comment that runs to the end of the line; `${...}` stays inside its word; only separators, carriage returns, delimiting quotes and the backslash of an escaped delimiter are dropped. "
 "Each token says whether it was quoted. "
 "A `}` without an open block and a `;` or `{` that follows no directive end the token stream with an error at that mark, and a text that ends inside an open block ends the stream with an error.",
 ["inputs"],"every text, of any length, over any characters (every short text over the characters the lexer distinguishes, and long structured ones)",
 "The lexer tests check 20-odd hand-written files; the guarantee ranges over all interleavings of quotes, escapes, comments, variable expansions, CR/LF and punctuation.",
 ["lex.go"],[("rune-by-rune state machine","lex.go: tokenize"),("repeated-punctuation and brace-depth guards","lex.go: tokenize, dupSpecialChar/depth")],
 ["crossplane.Lex channel"],[("lexState","which construct the next rune belongs to","lex.go"),("depth","number of open blocks","lex.go"),("dupSpecialChar","the last token was punctuation","lex.go")])
p("C02","Tokens, directives and errors carry the right line number",
 "Every token, every directive and comment of a parse result and every reported error carries the 1-based number of the source line it belongs to: a token the line its first character is on, a directive the line of its name, a comment found between a directive's arguments the line of that directive, a directive's error the directive's line, a lexical error the line the lexer had reached. "
 "This holds whatever precedes: multi-line strings, escaped or CRLF line ends, comments, blank lines, embedded Lua (whose code token carries the line it ends on) and included files.",
 ["inputs"],"every text, with every placement of line ends relative to quotes, escapes, comments, Lua blocks, punctuation and errors",
 "Tests pin the line numbers of a few fixed files; an off-by-one after an unusual construct (escaped newline, quoted newline, Lua block, CRLF) shows only on inputs with that construct.",
 ["lex.go","lua.go","parse.go"],[("line counting at every rune read, token start latch","lex.go: tokenize"),("sub-scanner line hand-over","lex.go: SubScanner; lua.go"),("statement and error lines","parse.go: parse")],
 ["NgxToken.Line","Directive.Line","ConfigError.Line","PayloadError.Line","ParseError.Line"])
p("C03","The parse tree mirrors the nesting and order of the directives",
 "For a text whose directives are all accepted, the parse result is the tree the text denotes: one directive per statement, in order, with all its arguments in order, its block (possibly empty) exactly when it was opened with a brace, nested to any depth, and nothing else. "
 "The parentheses of an `if` condition are stripped and nothing else of an argument is changed. "
 "A text in which a directive or a block is left unterminated, or a block is closed that was never opened, is never reported as parsed successfully.",
 ["inputs"],"every sequence of tokens, every nesting depth, every argument count, with and without a directive catalogue",
 "Tests compare a few dozen fixed trees; dropped, duplicated or misplaced statements arise from particular token sequences (empty blocks, quoted braces, comments between arguments, deep nesting).",
 ["parse.go","util.go","lex.go"],[("recursive descent over the token stream","parse.go: parse"),("if-parentheses removal","util.go: prepareIfArgs")],
 ["Payload.Config[].Parsed","Payload.Status"])
p("C04","A directive is accepted exactly when a declared use matches",
 "A directive is accepted exactly when it is unknown and unknown directives are allowed, or it stands in a block whose rules are not known, or at least one of the uses declared for it by any of the given directive sources allows the block it stands in, its number of arguments (or the value on/off in any letter case for a flag), its ending (`;` or a block) and, for an expression, its non-empty parentheses. "
 "The option to reject unknown directives adds only that rejection, the options to skip the context check or the argument check remove only that check, and the sources are alternatives whose order does not matter for acceptance. "
 "A rejected directive is reported with the reason, file, line, text and enclosing block of that directive.",
 ["inputs","configurations"],"every combination of declared uses, block context, argument count and values, terminator and option set",
 "The rule is a product of contexts x arity masks x terminators x flags x options x sources; tests sample single points of it.",
 ["analyze.go","parse.go","util.go"],[("mask matching","analyze.go: analyze"),("context lookup and nesting","analyze.go: contexts, enterBlockCtx"),("expression and flag checks","util.go: validExpr, validFlag")],
 ["Payload.Errors","Payload.Config[].Parsed","ParseError"])
p("C05","Each shipped directive catalogue accepts exactly its declared uses",
 "For each shipped directive source, the default source included, every directive it knows is accepted exactly in the blocks, with the argument counts and with the ending that the corresponding NGINX version or module declares, and names it does not declare are unknown to it. "
 "The default source is the union of the latest NGINX Plus, the njs and the OpenTelemetry catalogues, and the sources do not influence each other.",
 ["inputs","configurations"],"every directive of every shipped catalogue x every block context x every argument count x terminator x flag value",
 "The catalogues hold about 10,000 declarations; tests parse a few dozen directives.",
 ["analyze_nplus_latest_directives.gen.go","analyze_oss_latest_directives.gen.go","analyze_lua_directives.gen.go","analyze_njs_directives.gen.go","analyze.go"],
 [("directive tables and their match functions","analyze_*_directives*.go"),("default union","analyze.go: defaultDirectives")],
 ["MatchFunc results","Parse acceptance"])
p("C06","Bodies of map-like blocks are parameters, checked by their own rules",
 "Inside a block of a map-like directive (map, geo, geoip2, types, charset_map, match, split_clients, otel_exporter), and directly inside it only, every statement becomes a parameter marked as such with its name and values unchanged, whatever its name: it is not validated as a directive, not skipped as an ignored directive, not treated as an include or an `if`. "
 "A parameter is accepted exactly when it ends with `;` and has the number of values its block (or, for the block's special parameters, the parameter) requires, and otherwise is reported once and left out without disturbing its neighbours; a non-map block has no parameters.",
 ["inputs","configurations"],"every map-like block, parameter name (directive names, special names, comments, quoted), value count and terminator, in every context and option set",
 "Tests cover one or two bodies per map type with ordinary parameters.",
 ["analyze_map.go","parse.go"],[("map-body branch before validation","parse.go: parse"),("parameter masks","analyze_map.go: analyzeMapBody")],
 ["Directive.IsMapBlockParameter","Payload.Errors"])
p("C07","Collecting mode reports every error once and keeps the rest intact",
 "When parsing does not stop on errors, each invalid directive is reported exactly once, in order, in the payload and in its file's result; an invalid directive and its whole block are left out and every other directive appears as if the invalid one had not been there. "
 "A file whose text is lexically broken or incomplete is reported with that error and an empty tree, and the other files are unaffected. "
 "A file's status is `failed` exactly when it has errors, the payload's exactly when it has errors, and the error callback is called once per error, in order, its result stored with that error.",
 ["inputs","configurations"],"every placement of any number of invalid directives (of every error kind) among valid ones, in every nesting and file",
 "Tests have a handful of erroneous files with one or two errors each; containment depends on what surrounds the error.",
 ["parse.go"],[("error handling and skipping of the invalid directive's block","parse.go: parse, handleError")],
 ["Payload.Errors","Config.Errors","Config.Status","ErrorCallback"])
p("C08","Stopping on the first error agrees with collecting errors",
 "With stop-on-error a parse fails exactly when the collecting parse of the same input reports an error or fails, and it fails with the first error the collecting parse reports. "
 "When there is no error both modes return the same payload.",
 ["inputs","configurations"],"every input and option set, both modes",
 "Tests run each file in one mode; agreement is a relation between two runs of the same input.",
 ["parse.go"],[("StopParsingOnError branches","parse.go: parse, Parse")],["Parse results of the two modes"])
p("C09","Includes resolve to the right files, once each, in order",
 "An include whose pattern has no wildcard names that file, one with wildcards the matching files in sorted order, relative patterns being taken relative to the main file's directory; the include directive lists the positions of these files in the payload. "
 "The payload starts with the main file and holds every included file exactly once, in the order of first reference (breadth first), each (told apart by name) parsed in the block context of its first reference. "
 "An explicit file that cannot be opened is reported at its include, a pattern matching nothing is not an error, and with the single-file option no file but the main one is read.",
 ["inputs","configurations","histories"],"every include graph over several files, with repeated, nested, glob, relative, absolute and missing includes from every context",
 "Tests use a few fixed include trees.",
 ["parse.go"],[("include queue, included index, glob sorting","parse.go: Parse, parse")],["Payload.Config order","Directive.Includes","Open/Glob callbacks"])
p("C10","Include cycles are always detected and parsing always ends",
 "Parsing ends for every include graph, and it fails with the include-cycle error exactly when, after following includes, some file directly or indirectly includes itself (and no other fatal error occurred first). "
 "Files included many times, diamonds and long chains are not cycles.",
 ["inputs"],"every include graph (all digraphs up to the bound, with multi-edges and self loops, in every block context)",
 "Tests have three or four fixed graphs; the property ranges over all graphs, and a miss means endless recursion in consumers.",
 ["parse.go"],[("in-degree topological sort over include edges","parse.go: isAcyclic"),("included set","parse.go: parse")],["Parse error"])
p("C11","Combining equals replacing each include by what it includes",
 "Combining a payload yields one config named after the first one whose tree is the first config's tree with every resolved include replaced, at its place and at any depth, by the directives of the configs it lists, in order, every other directive kept unchanged and in order; directives from a combining parse name the file they came from. "
 "All errors of all configs are kept, in order, and the combined status is failed exactly when one of the configs failed. "
 "A payload that refers to a config that does not exist or includes itself is refused with an error, an empty payload stays empty, and the original payload is not changed.",
 ["inputs","histories"],"every payload: every include graph, nesting, repeated include, empty file, failed config, out-of-range index and cycle, parsed or hand-made",
 "Tests combine three fixed payloads.",
 ["util.go","types.go","parse.go"],[("recursive include expansion over channels","util.go: performIncludes, combineConfigs")],["Payload.Combined result","CombineConfigs option"])
p("C12","Building a parsed config and parsing it again gives the same config",
 "Building any config obtained from a successful parse (comments included) and parsing the result with the same options succeeds and gives the same tree: same directives, arguments, blocks, map parameters, Lua code and comments, apart from line numbers, CRs and the merging or movement of comments that share a line with other statements or stood between arguments. "
 "Building and parsing once more changes nothing further, for every indentation, tab and header setting.",
 ["inputs","configurations"],"every parseable text x every build option set",
 "Tests round-trip fewer than ten files; the property quantifies over all words, quotes, escapes, nestings and comment placements.",
 ["build.go","util.go","lex.go","parse.go","lua.go"],[("quoting of words","build.go: Enquote, needsQuote; util.go: repr"),("block layout","build.go: buildBlock"),("Lua builder","lua.go: Build")],["Build output","Parse of the output"])
p("C13","A word written through the quoting rules reads back as itself",
 "For every string that a token of some text can have, quoting it and lexing the result yields exactly one token with that value, and never punctuation, a comment or a split word; the empty string becomes an empty quoted string. "
 "A string that already is a plain word (no whitespace, quotes, braces, semicolons, backslashes, dollar or leading hash) is left as it is.",
 ["inputs"],"every string over the characters the quoting distinguishes, up to the bound, and long ones",
 "Tests check about fifteen strings.",
 ["build.go","util.go"],[("needsQuote/escape/repr","build.go, util.go")],["crossplane.Enquote","Build output"])
p("C14","Build output has the documented layout and every file gets its own text",
 "Build writes each statement on its own line at its nesting depth times the indent (4 when unset; one tab per level with tabs), a comment that shares its statement's line on that line, blocks as `name args {`, the indented body and a closing brace at the block's depth, conditions of `if` in parentheses, and the fixed header only when asked for. "
 "Building a payload writes for each of its configs one file named by the config (relative names under the given directory, parent directories created) holding exactly that config's text and ending in one newline, replacing previous content, in order. "
 "A directive with a registered builder is written by that builder.",
 ["inputs","configurations"],"every tree (parsed or hand-made), depth, indent, tab, header and builder setting, and every payload of several files",
 "Tests compare about a dozen fixed outputs.",
 ["build.go","buffer.go","lua.go"],[("layout recursion and margin","build.go: buildBlock, margin"),("file writing","build.go: BuildFiles, BuildInto; buffer.go")],["bytes written"])
p("C15","JSON keeps everything in a payload",
 "Marshalling a payload to JSON and back loses nothing of statuses, files, lines, directive names, arguments, blocks (empty ones included), includes, comments, file names and map-parameter marks, for all strings in them; the JSON uses the documented field names, omits absent optional fields, and gives errors as their message with their line. "
 "Marshalling the decoded payload again gives the same JSON.",
 ["inputs"],"every payload reachable by parsing (and hand-made trees), all string contents",
 "Tests marshal two or three fixed payloads.",
 ["types.go","errors.go"],[("struct tags and MarshalJSON","types.go, errors.go")],["encoding/json output and input"])
p("C16","Embedded Lua code is kept byte for byte and does not leak",
 "With the Lua support registered, the code between the braces of a Lua block directive becomes exactly one quoted argument of that directive, byte for byte (braces balanced outside Lua quotes), followed by the directive's end, after which normal parsing resumes right behind the closing brace; `set_by_lua_block` keeps its variable as first argument. "
 "Lua block names elsewhere (as arguments, inside comments or quotes) are not treated as Lua, a block without an opening brace is an error, an unclosed one never parses successfully, and building writes the code back unchanged between braces. "
 "Without the registration nothing is special about these names.",
 ["inputs","configurations"],"every Lua directive, every placement of it, every code text with nested braces, quotes, newlines, comments and backslashes",
 "Tests cover a handful of Lua files.",
 ["lua.go","lex.go","build.go"],[("external lexer hook","lex.go: tokenize"),("Lua tokenizer and builder","lua.go")],["Lex tokens","Parse tree","Build output"])
p("C17","Results do not depend on scheduling, buffering or parallel calls",
 "The result of lexing, parsing, combining or building is a function of its arguments alone: it is the same for every token channel capacity, every read chunking, every relative speed of producer and consumer, and when any number of calls (also sharing the same options value) run in parallel. "
 "No call has a data race with another.",
 ["schedules"],"every interleaving of lexer, external lexer, parser and drain goroutines for every channel capacity (model), parallel calls sharing options (runs under the race detector)",
 "Tests run one call at a time at one or two capacities.",
 ["lex.go","lua.go","parse.go","util.go","build.go"],[("token channels","lex.go, lua.go"),("include expansion channels","util.go: performIncludes"),("private option copies","parse.go, build.go")],["Parse/Lex/Build results","race detector"])
p("C18","I/O faults are reported and nothing is left behind",
 "A failing open, read or glob, and a failing directory creation, file creation, write or close of a file being written, is never swallowed: it makes the call return an error or appears in the payload with the file concerned, and a file that could not be read completely is never reported as parsed successfully. "
 "When a call returns, successfully or not, every file it opened or created has been closed and no goroutine it started is left running.",
 ["fault_sequences","inputs"],"a fault at every single I/O operation of every scenario (each read position, each open, glob, create, write, close), with and without other errors",
 "Tests inject no read or write faults and count no goroutines or open files.",
 ["parse.go","lex.go","build.go","buffer.go","util.go"],[("scanner error report","lex.go: tokenize"),("open, glob and build error paths","parse.go, build.go"),("token drain and deferred closes","parse.go: Parse")],["returned errors","Payload.Errors","Close calls","goroutine count"])
p("C19","The generator extracts every declared directive with all its masks",
 "For any NGINX-style C source tree, the generated table contains exactly the directives declared in the source's command arrays, minus the filtered ones, each with exactly the declared masks (one list per declaration, in order of appearance, blocks and contexts mapped to this package's names), overridden ones with the override's masks instead. "
 "Comments anywhere, and preprocessor lines between declarations or entries, do not change the result, the output is deterministic valid Go with the directives in sorted order and a match function that returns exactly the table's entries, and a source without directives, one with an unknown mask (even of a filtered or overridden directive) and one that cannot be read are refused. A failure to write the output is reported.",
 ["programs","configurations"],"every source layout: several files and arrays, repeated directives, comments and #if lines anywhere, odd spacing, filters and overrides",
 "Tests use about ten fixed source snippets.",
 ["internal/generator/generator.go","internal/generator/generator_util.go","cmd/generate/main.go"],[("array and directive extraction","internal/generator/generator_util.go"),("template","internal/generator/tmpl")],["generated Go source"])
p("C20","No input makes lexing, parsing, combining or building panic or hang",
 "For every input text, option set and payload (no nil among its directives), lexing, parsing, combining, marshalling, comparing and building return in time polynomial in their input and output, without panicking and without blocking for ever. "
 "Errors are reported as errors.",
 ["inputs","histories"],"every short text over the lexer's alphabet, every directive with every argument shape, truncations of valid files at every position, odd payloads",
 "Tests run on files that were written to work.",
 ["lex.go","parse.go","util.go","build.go","lua.go","analyze.go"],[("bounds in argument preparation, brace guards, channel closing","util.go, lex.go, lua.go")],["normal return of every call"])
p("C21","Comment, ignore and single-file options only filter",
 "Not parsing comments gives the same result as parsing them and removing the comments. "
 "Ignoring directives gives the same result as parsing without ignoring and removing those directives with their blocks (and the errors and includes inside or of them), except that map parameters are never ignored. "
 "The single-file option gives the main file's tree with the includes left unresolved, other directives unchanged.",
 ["inputs","configurations"],"every input x every subset of these options",
 "Tests set these options on one or two files; the property relates two runs.",
 ["parse.go"],[("comment, ignore and single-file branches","parse.go: parse")],["Parse results with and without the option"])
p("C22","Calls are deterministic, independent, and leave their inputs alone",
 "No call modifies the options, payloads, configs or directives it is given, nor any earlier result; repeating a call, or performing it after any history of other calls, gives the same result. "
 "The directives of a parsed or combined payload do not share argument lists, blocks or comments with each other, nor with those of the payload it was combined from.",
 ["histories"],"every sequence of API calls (parse, combine, build, build files, marshal, lex) on shared options and payloads",
 "Tests make isolated calls and do not compare inputs before and after.",
 ["parse.go","build.go","util.go","types.go"],[("option copies","parse.go, build.go"),("directive copies in combining","util.go: performIncludes")],["deep snapshots before and after"])
p("C23","Directive equality is structural equality",
 "Two directives compare equal exactly when their names, arguments, lines, file names, includes, comments, map-parameter marks and, recursively, blocks are equal in content and order, absent and empty lists being the same. "
 "The comparison is reflexive, symmetric and transitive, and a nil directive equals only nil.",
 ["inputs"],"every pair of directive trees (all pairs of small trees, and every single-field mutation at any depth of larger ones)",
 "Tests compare about twenty fixed pairs.",
 ["types.go"],[("field-wise recursive comparison","types.go: Equal, equals, strPtrEqual")],["Directive.Equal"])
p("C24","Registered lexers get their directives and nothing else changes",
 "A lexer registered for some names is started exactly when a word or string that is one of these names is complete in the place of a directive's name (not as an argument, inside a comment, or as part of a longer word), once for each such place, and is told that name; when several lexers are registered for a name, the last one is. "
 "It reads exactly the characters that follow the name, one at a time, unchanged, with the line each is on; the tokens and errors it sends stand in the stream right behind the name, unchanged and in order, and lexing goes on right behind the last character it has read, with the right line numbers, whatever else the text holds. "
 "The parser takes its tokens like any others and reports its errors. Text that holds none of the registered names is lexed as without any registration.",
 ["inputs","programs","configurations"],"every text x every registration of names x every behaviour of a registered lexer (what it reads, what it sends, when it stops, the text ending or failing under it), for all channel capacities",
 "Tests register the Lua lexer and one toy lexer on a few fixed texts.",
 ["lex.go","parse.go"],[("hand-over to the registered lexer and back","lex.go: tokenize"),("sub-scanner","lex.go: SubScanner"),("registration","lex.go: LexWithLexer, LexWithOptions")],["Lex tokens","Parse result"])
p("C25","Errors say what is wrong and where, and can be told apart",
 "Every error about a configuration that is returned, put into a payload, handed to the error callback or sent as a token has a message made of the reason, the file and the line (\"REASON in FILE:LINE\", \"(nofile)\" without a file, no number without a line); its JSON form is that message; the same error stands in the payload, in its config and in the callback's call. "
 "The error for a rejected directive is a ParseError with the directive's text as statement and the innermost enclosing block's name as context; errors of the file system met on opening the main or a queued file or on globbing are returned as they are. "
 "An error is ErrPrematureLexEnd (as errors.Is sees it) exactly when the text ended before a directive or block did, and a failed read's own error can be reached from the error reported for it (and from no other).",
 ["inputs","fault_sequences"],"every broken input in every mode (stopping, collecting, with callback, combining), every read, open and glob failure, and all ParseErrors made by hand",
 "Tests compare a few messages of fixed inputs and check errors.Is on one.",
 ["errors.go","parse.go","lex.go","types.go"],[("message and unwrapping","errors.go"),("token errors","parse.go: tokenError"),("JSON of error records","types.go")],["error messages, fields, errors.Is/As, JSON"])
p("C26","Directives say what they are, and files kept in memory hold what was written",
 "A directive says it is a block exactly when it has a block (an empty one counts), an include exactly when its name is include and it has a list of includes, a comment exactly when its name is # and it has a comment; its summary is its name and arguments joined by single spaces, followed by \" {...}\" exactly when its block has members; asking changes nothing. "
 "A StringsCreator lists one file for every creation since its last reset, in order, under the name it was created with, holding what was written to it piece by piece and a line end for its closing; what is done to one file, or to one handed out before a reset, changes no other, nor does it change a list taken earlier.",
 ["inputs","histories"],"every directive value (every combination of absent, empty and filled fields; all directives of parses) and every history of creating, writing, closing and resetting",
 "Tests ask a few fixed directives and use the creator once.",
 ["types.go","buffer.go"],[("kinds of a directive and its summary","types.go: IsBlock, IsInclude, IsComment, String"),("the creator","buffer.go: StringsCreator, FileString")],["IsBlock, IsInclude, IsComment, String","StringsCreator.Files"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
print(len(P), max(len(x["title"]) for x in P))

#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the text is reviewable)."""
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

LEX="ecmascript/lexer/lexer.go";SC="ecmascript/lexer/scanner.go";PS="ecmascript/parser/scanner.go";PP="ecmascript/parser/parser.go"
EX="ecmascript/parser/expression.go";ST="ecmascript/parser/statement.go"
OV="build-time overlay: the check instruments a copy of the current sources with yield points; nothing is added to /repo"

p("C01","Every parse ends in a tree or a classified error, never a crash or a hang",
 "For every source text, intact or damaged on its way in (truncated, with bytes flipped, blocks lost, repeated or reordered, or the stream failing), and in every parse mode, parsing finishes within a number of steps and an amount of memory proportional to the input and returns exactly one of a syntax tree or an error that is a syntax, encoding or parser error. It never panics into the caller, never loops, and never exhausts the process's stack, however deeply the source nests. A tree that was returned can always be rendered to ESTree JSON.",
 ["inputs","fault_sequences","crash_points"],
 "all source texts and all damage and failure sequences on the input stream, all parse modes",
 "The tests parse about a hundred hand-written snippets and four intact libraries to the end; none damages or cuts a stream, and the failure paths (recover of non-error panics, loops that expect more tokens) are never run.",
 [PP,EX,ST,"ecmascript/parser/module.go","ecmascript/parser/declaration.go",LEX,SC,"ecmascript/ast"],
 [("recover in Parse turns raised errors into returned ones","ecmascript/parser/parser.go Parse"),("every loop consumes a token or raises","ecmascript/parser/statement.go, expression.go"),("EOF checks in every lexer loop","ecmascript/lexer/lexer.go")],
 observe=["return values of Parse","panics reaching the caller","steps and reads used","ESTree() of the tree"],hook=OV)

p("C02","A parse depends only on the text, not on how the stream delivers it",
 "The same source text gives the same tree or the same error with the same message and location however it is delivered: in chunks of any size including splits inside a character, with empty reads, with end of input reported together with or after the last data, through any buffer size, and through any rune stream that honours the standard contract. The parser itself stays inside that contract: it pushes back at most one character, and only directly after having successfully read it.",
 ["schedules","inputs"],
 "all delivery schedules of a text (chunking, empty reads, stalls, buffering, reader implementation)",
 "Tests deliver each text once, from an in-memory string or a file that arrives in full buffers; no test varies delivery or checks the read/pushback sequence.",
 [SC,LEX,"ecmascript/lexer/token.go",PS],
 [("one-rune pushback discipline","ecmascript/lexer/scanner.go Read/Unread"),("all lexing goes through the scanner","ecmascript/lexer/lexer.go")],
 state=[("pushback","whether the last operation on the stream was a successful read","stream passed to NewScanner")],
 observe=["operations on the stream","tree, error, location"])

p("C03","A stream failure always surfaces as that failure, at the point where it hit",
 "If a read or pushback on the input stream fails, the parse returns no tree and an error from which the stream's own error can be unwrapped, located at the first character that was not delivered. The failure is never taken for end of input, skipped, retried past or replaced by another error, even if the stream would recover, and the stream is not touched again after it. A script or module parse reports success only after the stream has reported a clean end of input.",
 ["fault_sequences","crash_points"],
 "every error value a stream may return (other than end of input), at every character position and in every lexical context, lasting or transient, on reads and on pushbacks",
 "No test injects a stream error at all; the encoding-error path of the scanner has never been executed by the suite.",
 [SC,PP,LEX,"ecmascript/errs/errors.go"],
 [("errors other than EOF are raised as located errors","ecmascript/lexer/scanner.go Read, Unread"),("unwrapping","ecmascript/errs/errors.go"),("recover passes raised errors to the caller","ecmascript/parser/parser.go Parse")],
 observe=["error returned by Parse (errors.Is, location)","reads after the failure"])

p("C04","A torn source is never taken for a complete program",
 "When a program is cut short at any character, parsing what is left succeeds only if it is a complete program by itself: a cut that leaves a bracket, string, comment or regular expression open, or that leaves a statement or operator without a part it requires, is always an error. A cut at a statement boundary gives exactly the statements before the cut, unchanged.",
 ["crash_points","inputs"],
 "every cut position of every program, cut by clean end of input as a torn or partially written file presents itself",
 "Tests cut nothing except four import declarations; whether each construct checks for its missing tail depends on the cut position and the construct.",
 [ST,EX,LEX,"ecmascript/parser/declaration.go","ecmascript/parser/module.go",PP],
 [("ScanExpect on every closing token","ecmascript/parser/scanner.go"),("EOF is an error inside strings, comments and regular expressions","ecmascript/lexer/lexer.go"),("semicolon insertion at end of input only","ecmascript/parser/parser.go expectSemicolon")],
 observe=["success or failure of Parse on each prefix","ESTree of the prefix"])

p("C05","Reported locations are true under every read, pushback and end-of-input history",
 "Rows and columns count from 1 in characters, with LF, CR, CR LF, U+2028 and U+2029 each ending one line, whatever sequence of reads, single pushbacks and end-of-input reports led to the position. A stream failure is located exactly at the first character not delivered, an error caused by the input ending lies between the end of the last token and the end of the text, and putting extra lines in front of a program moves the location of its error down by exactly that many rows and nothing else (an error at the very first token may be located at the start of the text). Every location names the source it was parsed from, and an error prints with its source, row and column.",
 ["histories","fault_sequences","inputs"],
 "all histories of reads, pushbacks, end of input and failures at the character stream, all texts",
 "No test looks at a location: the tree comparison erases spans and error tests only look for the words 'syntax error'.",
 [SC,PS,LEX,"ecmascript/ast/location.go","ecmascript/errs/errors.go"],
 [("row/column bookkeeping with undo","ecmascript/lexer/scanner.go Read/Unread/Location"),("location queue kept in step with the token queue","ecmascript/parser/scanner.go PeekAt/Scan/Location")],
 state=[("col,row","position of the next character","ecmascript/lexer/scanner.go Scanner"),("loc","start position of each looked-ahead token","ecmascript/parser/scanner.go Scanner")],
 observe=["Scanner.Location and Lexer.Location after each operation","locations in returned errors"])

p("C06","The parser never waits for input it does not need",
 "When the tokens already delivered completely decide the outcome, the parse returns even if the stream then stalls for ever. A character that can neither start nor continue a token fails the parse as soon as it is delivered, a closing bracket that matches no open one does so after at most one further token, and an expression parse returns once the first token behind the expression has been delivered.",
 ["schedules","inputs"],
 "every stall point of every source, in all parse modes",
 "In-memory inputs never stall, so the suite cannot tell whether the parser looked one token ahead or read the whole file first.",
 [PS,LEX,EX,SC],
 [("lookahead is on demand and bounded","ecmascript/parser/scanner.go PeekAt"),("tokens end on the first character that does not belong","ecmascript/lexer/lexer.go")],
 observe=["characters requested from the stream when Parse returns or blocks"],hook=OV)

p("C07","End of input is final",
 "Once the stream has reported end of input, the result of the parse is that of exactly the text delivered before the report. Characters that a growing stream (a file being appended to, a terminal) would deliver afterwards never appear in the tree, change the error, or move a location, neither in that parse nor when the same parser, lexer or scanner is asked again.",
 ["schedules","histories"],
 "every point at which a stream may report end of input and then grow, and every text it may grow by",
 "Test inputs never grow; every in-memory reader repeats end of input for ever.",
 [SC,LEX,PS],
 [("EOF flag in the scanner","ecmascript/lexer/scanner.go")],
 state=[("eof","end of input has been seen","ecmascript/lexer/scanner.go Scanner")],
 observe=["tree, error and location compared with a stream that stays at its end"])

p("C08","Undecodable bytes are reported, never silently replaced",
 "A byte sequence that is not valid UTF-8 makes the parse fail with an encoding error located at its first bad byte's character position, in whatever lexical context it stands, including strings, comments and regular expressions. A correctly encoded U+FFFD is ordinary text. Damaged text is thus never returned inside a successful tree.",
 ["fault_sequences","inputs"],
 "every flipped, dropped or inserted byte that leaves invalid UTF-8, at every position of every source, under every chunking",
 "All test inputs are valid UTF-8, so the scanner's decoding failures never occur in the suite.",
 [SC,"ecmascript/errs/errors.go"],
 [("encoding errors raised by the scanner","ecmascript/lexer/scanner.go Read"),("EncodingError","ecmascript/errs/errors.go")],
 observe=["error kind and location returned by Parse"])

p("C09","Concurrent parses do not affect each other",
 "Parsers running at the same time on different sources, in any interleaving and with any of them failing or being abandoned, each return exactly the tree, error and locations (with its own source URL) that they return when run alone. They share no mutable state without synchronisation, and a parse whose stream stalls does not hold up any other.",
 ["schedules","fault_sequences"],
 "all interleavings, down to single statements, of any number of parses and renderings, with stream failures and stalls in any of them",
 "The suite runs one parse at a time; nothing in it interleaves two parsers or runs under the race detector.",
 ["ecmascript/lexer/unicode.go","ecmascript/lexer/token.go","ecmascript/parser/keyword.go",EX,LEX,SC,PP],
 [("all mutable state hangs off the parser, lexer and scanner instance","ecmascript/parser/parser.go, ecmascript/lexer/lexer.go"),("package-level tables are never written","ecmascript/lexer/unicode.go, token.go, ecmascript/parser/keyword.go")],
 observe=["results of every parse in the run","unsynchronised accesses","tasks that cannot proceed"],hook=OV)

p("C10","A returned tree is finished and stays as it is",
 "Rendering a tree to ESTree gives the same document every time, however many callers render it at once and whatever else is being parsed, and rendering does not change the tree. No later parse, success or failure, alters a tree that was already returned, and clearing the source positions of one tree leaves every other tree alone.",
 ["schedules","histories"],
 "all interleavings of renderings of shared trees with each other and with other parses; all later histories",
 "Tests render nothing (no test calls ESTree) and drop each tree before the next parse.",
 ["ecmascript/ast","ecmascript/parser/expression.go"],
 [("trees are built from fresh values and not retained by the parser","ecmascript/parser"),("ESTree builds new values","ecmascript/ast")],
 observe=["rendered bytes, deep dump of the tree before and after"],hook=OV)

p("C11","A parse does not depend on earlier parses and leaves nothing behind",
 "What a parse returns depends only on its own source, location URL and mode: no earlier parse in the process, whether it succeeded, failed, lost its stream or was abandoned halfway, changes it. Parsing and rendering write nothing to standard output or standard error and leave no goroutine running.",
 ["histories","fault_sequences","crash_points"],
 "all histories of parses in one process, with failures and abandonment at every point",
 "The order of test cases is fixed and each looks only at its own result; output written by the parser goes unnoticed by go test.",
 [PP,"ecmascript/parser/context.go","ecmascript/parser/keyword.go",EX,LEX],
 [("parse context lives in the parser instance","ecmascript/parser/context.go"),("tables are read-only","ecmascript/parser/keyword.go, ecmascript/lexer/token.go")],
 observe=["result compared with a fresh process","standard output and error during parsing","goroutine count"],hook=OV)

CLI="cmd/estree/main.go"
p("C12","The estree tool's output is always a prefix of the correct output",
 "For any list of files and whatever fails or whenever the tool is killed, what it has written to standard output is a prefix of the correct output for that list: the complete ESTree JSON document of each file in argument order, with a line holding --- between documents, and nothing else. Nothing of a file that could not be opened, read completely or parsed is ever written, and short or slow reads do not change the documents.",
 ["crash_points","fault_sequences","inputs"],
 "all file lists, and all sequences of open, read and write failures, short reads, short writes, full disks and kills",
 "The command has no tests.",
 [CLI,"ecmascript/ast",EX],
 [("documents are encoded whole and written in order","cmd/estree/main.go main"),("failures stop the run before anything more is written","cmd/estree/main.go main")],
 observe=["bytes accepted by standard output"],hook="build-time overlay replaces the os, log and fmt entry points used by the command with simulated ones; nothing is added to /repo")

p("C13","The estree tool's exit status and diagnostics tell the truth",
 "The estree tool exits with status 0 only if every file on its command line was opened, read to its end and parsed, and every byte of output was accepted by standard output. In every other case it exits with a nonzero status, without crashing, and its standard error names the file that failed with its cause, or says that writing the output failed. A run in which nothing fails always exits with status 0.",
 ["fault_sequences","inputs","crash_points"],
 "all sequences of open, read, close and write failures, short writes, full disks and malformed inputs",
 "The command has no tests, and ignored write errors show only when a write fails.",
 [CLI],
 [("every error path ends in a fatal log","cmd/estree/main.go main")],
 observe=["exit status and standard error of the run"],hook="same overlay as C12")

p("C14","The estree tool holds a bounded number of files open",
 "However many files are on its command line, the estree tool keeps at most a small fixed number of them open at any time and closes each file it opened exactly once before it exits with status 0. It can therefore process lists longer than the process's limit on open files.",
 ["configurations","inputs","fault_sequences"],
 "all file-list lengths and descriptor limits, with close failures",
 "The command has no tests, and a leak shows only when the list exceeds the descriptor limit.",
 [CLI],
 [("close after use","cmd/estree/main.go main")],
 state=[("open input files","descriptors held by the process","cmd/estree/main.go")],
 observe=["opens and closes at the file system"],hook="same overlay as C12")

W=["web/parser/parser.go"]
p("C15","The in-browser parser answers every request and survives it",
 "Every call of the loaded browser parser with a text returns either the ESTree JSON document or the error message that the native library gives for that text as a script, never both or neither. No request, valid, malformed, damaged or deeply nested, ends the service, makes the call throw, or changes the answer to a later request.",
 ["histories","inputs","fault_sequences"],
 "all sequences of requests to one running instance, in any order and mix of valid, malformed and damaged texts",
 "No test runs the WebAssembly build; it is only compiled.",
 W+[PP,EX],
 [("errors are returned as values","web/parser/parser.go ParseES"),("recover in Parse","ecmascript/parser/parser.go")],
 observe=["values returned by the exported function","exit of the instance"])

PG=["web/parser/index.html"]
p("C16","The demo page converges to the latest text",
 "Once the parser bundle has loaded and the text has stopped changing, within one second the page shows the result for exactly the current text: the document in the output pane with the success line visible and no error, or the error in both panes with no success line. This holds for every timing of edits, bundle loading and timers, no result of an older text ever replaces that of a newer one, and the text is not parsed once per keystroke while it keeps changing faster than the debounce interval.",
 ["schedules","histories","fault_sequences"],
 "all interleavings of edits, bundle load completion, timer firings and delays, in simulated time",
 "The page has no tests; its behaviour depends on the timing of typing, loading and timers.",
 PG,
 [("debounce with cancel","web/parser/index.html debounce"),("parse scheduled when the parser arrives","web/parser/index.html parserLoaded")],
 observe=["contents and visibility of the page's elements over simulated time"])

p("C17","Bundle failures are visible on the page",
 "If the parser bundle cannot be fetched, compiled or started, or if it exits at any later moment, the page shows a visible error message saying so within one second, and that message stays until the page is reloaded. A browser without streaming compilation loads the bundle all the same.",
 ["fault_sequences","crash_points","schedules"],
 "all failure points of bundle loading (refused, failed, truncated or slow fetch, failed compile, exit during start, exit later), with edits interleaved",
 "The page has no tests, and failures of the bundle do not occur on a developer's machine.",
 PG,
 [("catch on the load chain and exit handler","web/parser/index.html")],
 observe=["contents and visibility of the page's error element"])

p("C18","A shared link restores the shared text",
 "Pressing share with a non-empty text takes the page to, and puts in the clipboard, a link from which any later page load, immediately or after any number of reloads or crashes, starts with exactly that text and shows its parse. Parts of the page address that do not hold the text are preserved.",
 ["crash_points","inputs","histories"],
 "all texts (non-empty, well-formed Unicode, as a text area holds them), all times of reload, crash and repeated sharing",
 "The page has no tests; the only durable state is the link, and whether it restores the text shows only after a reload.",
 PG,
 [("text kept in the address","web/parser/index.html share handler"),("text restored on load","web/parser/index.html hashchange handler")],
 state=[("code parameter of the address","the shared text","window.location")],
 observe=["page address, clipboard selection, text area after load"])

p("C19","A parser that is used again goes on where it stopped",
 "Parse may be called repeatedly on one parser, to parse the expressions of a stream one after the other, or an expression and then a script or module: each call returns what a new parser would return on a stream that begins right behind the last token consumed (with locations counted from the beginning of the stream), whether the stream then goes on, ends, stalls or fails, and for any number of calls. No call changes a tree returned earlier. A call after one that failed goes on with what the failed one has read but not consumed, or else with the next character: it still ends in a tree or a classified error, which is the one a new parser would give there, with nothing left from the failed parse.",
 ["histories","fault_sequences","inputs"],
 "all sequences of expressions on lines of their own in one stream, all modes of the last call, all numbers of calls, deliveries and faults; texts that fail to parse at any place, with any number of calls in any mode after that",
 "No test calls Parse twice on one parser.",
 [PP,"ecmascript/parser/scanner.go","ecmascript/parser/context.go",EX,ST],
 [("lookahead kept between calls","ecmascript/parser/scanner.go PeekAt/Scan"),("context and depth restored by each production","ecmascript/parser/context.go, parser.go enter/leave")],
 state=[("lookahead, context and depth","what the next call begins with","parser.Parser")],
 observe=["result of each call compared with a new parser","trees returned earlier"],hook=OV)

p("C20","The lexer's tokens depend on the text alone, and arrive as soon as possible",
 "Taken token by token (slashes lexed again as regular expressions where the caller says so), the tokens of a text, their attributes and the locations between them do not depend on how the stream delivers it, on other lexers that are used in between, or on what is on the lines before and after. A token is delivered once the character behind it has arrived. If the stream fails or cannot be decoded, all tokens before are delivered unchanged and then there is an error at that character; if it ends, the lexer says so, and says so again whenever it is asked.",
 ["fault_sequences","schedules","histories","inputs"],
 "all texts (including tokens the parser has no use for), choices of what is lexed again, deliveries, fault positions and orders of taking turns",
 "The lexer's tests take one token or a few from short strings that are there at once.",
 [LEX,SC,"ecmascript/lexer/token.go"],
 [("one character of lookahead and pushback","ecmascript/lexer/lexer.go"),("state of a lexer kept in the lexer","ecmascript/lexer/lexer.go type Lexer")],
 state=[("lastToken, newLine","what ReLex and NewLine refer to","lexer.Lexer")],
 observe=["tokens, locations between them, errors"],hook=OV)

p("C21","The estree tool does not hold back what it has finished",
 "When the estree tool cannot open, read or parse one of its files, or has to wait for a file for ever (a pipe whose writer says nothing more, a file system that does not answer), the complete documents of all files named before that one are on its standard output, in the order of the arguments, unless standard output itself has failed.",
 ["fault_sequences","crash_points","schedules","inputs"],
 "all lists of files, the failure of any of them at opening, at any byte read or in the parser, and any file that takes for ever to open or to read at any byte",
 "The command has no tests, and nothing is missing from the output unless one of several files fails or stalls.",
 [CLI],
 [("each document is written to standard output before the next file is opened","cmd/estree/main.go main")],
 state=[("finished documents","documents made but not yet accepted by standard output","cmd/estree/main.go main")],
 observe=["what standard output has accepted when the tool ends or waits"],hook="same overlay as C12")

p("C22","Parsing keeps no memory",
 "The memory in use does not grow with the number or the length of the sources that a process has parsed, whatever became of the parses (a tree, an error, a stream that failed, stalled or ended), nor with how much one parser or lexer has read from a stream that does not end, nor with the white space and comments passed over; and a returned tree or error keeps in use only memory in proportion to what it stands for, not the text around it.",
 ["histories","fault_sequences","inputs"],
 "all histories of parses of differing texts with any outcome, all streams without end, all amounts of trivia, all small trees and errors of long texts",
 "Each test parses one text and ends; nothing looks at memory.",
 [LEX,SC,PS,PP,"ecmascript/ast/node.go"],
 [("token queue trimmed as tokens are consumed","ecmascript/parser/scanner.go"),("token text copied out of the stream","ecmascript/lexer/lexer.go"),("no package-level tables that grow","ecmascript/lexer, ecmascript/parser")],
 state=[("queues and buffers of a parser","tokens and locations read ahead","parser.Scanner, lexer.Lexer")],
 observe=["live heap after a collection, at two points of a long run"],hook=OV)

p("C23","Looking ahead changes nothing about the tokens that the parser reads",
 "For every sequence of peeks at any distance, scans and re-scans, over every delivery of the stream and with it failing, ending or stalling at any character, the parser's scanner hands out each token of the lexer exactly once, in order and unchanged; a peek shows the token that the corresponding scan returns; the location is the end of the last token scanned, however far was looked ahead; no more is read than the tokens asked for need; a failure that is met while looking ahead is reported then, and does not lose the tokens before it; a re-scan while something was looked ahead is refused and changes nothing.",
 ["schedules","histories","fault_sequences","inputs"],
 "all texts, sequences of operations, deliveries and fault positions",
 "No test uses the scanner by itself; the parser never looks further ahead than two or three tokens.",
 [PS,LEX],
 [("queue of tokens and of the locations in front of them","ecmascript/parser/scanner.go PeekAt, Scan, Location"),("re-scan only without lookahead","ecmascript/parser/scanner.go ReScan")],
 state=[("last, loc","tokens read ahead and where the one before each ends","parser.Scanner")],
 observe=["answers of the scanner, in order","reads from the stream"],hook=OV)

# --- pure functions of the input: not applicable for this technique
p("C30","The tree represents the program as ECMAScript defines it",
 "For every program in the supported subset, the tree has the structure the ECMAScript grammar prescribes: operator precedence and associativity, operator identity, statement nesting, and the kinds and flags of functions, classes, properties and patterns.",
 ["programs"],"all programs of the supported subset","Tests compare a few dozen small trees.",
 [EX,ST,"ecmascript/parser/declaration.go"],[("precedence-climbing expression parser","ecmascript/parser/expression.go parseExpression")])
p("C31","Literal values and raw texts are exact",
 "Numeric, string and regular-expression literals carry the value ECMAScript defines for them and the exact source text they were written as.",
 ["inputs"],"all literal spellings","Tests use the literals 0, 1, 1.0 and a few strings.",
 [LEX,"ecmascript/lexer/token.go"],[("NumberConstant/StringConstant","ecmascript/lexer/token.go")])
p("C32","Rendered documents conform to ESTree",
 "Every rendered document uses the node types, field names and field types of the ESTree specification and contains every part of the program.",
 ["programs"],"all programs of the supported subset","No test renders a tree.",
 ["ecmascript/ast"],[("ESTree methods","ecmascript/ast")])
p("C33","Every node's span covers exactly its source text",
 "Every node of a returned tree reports the source range of its own text, and the ranges of children lie within those of their parents.",
 ["programs"],"all programs and nodes","Tests erase spans before comparing.",
 ["ecmascript/ast/node.go",PP,EX,ST],[("setStart/setEnd","ecmascript/parser/parser.go")])
p("C34","Reserved words are identifiers exactly where ECMAScript allows",
 "Keywords are accepted as identifiers exactly in the contexts (sloppy, strict, generator, async, property name, module) in which ECMAScript allows it.",
 ["programs"],"all keywords in all contexts","Tests cover import bindings only.",
 ["ecmascript/parser/context.go","ecmascript/parser/keyword.go",EX],[("keywordToIdentifier","ecmascript/parser/context.go")])
p("C35","White space, comments and line ends have only their prescribed effect",
 "Inserting or removing white space and comments between tokens never changes the tree, except where automatic semicolon insertion gives line terminators a meaning.",
 ["programs"],"all programs and trivia placements","Tests use single spaces.",
 [LEX,PP],[("NewLine flag on tokens","ecmascript/lexer/lexer.go"),("expectSemicolon","ecmascript/parser/parser.go")])
p("C36","Invalid programs are rejected",
 "A source text that is not an ECMAScript program of the supported subset is rejected with a syntax error.",
 ["inputs"],"all texts","Tests contain a dozen invalid imports and one member expression.",
 [EX,ST,"ecmascript/parser/module.go"],[("ScanExpect and explicit syntax errors","ecmascript/parser")])
p("C37","UTF-16 encoding is exact",
 "Encoding a string as UTF-16 yields exactly the code units Unicode prescribes for its characters.",
 ["inputs"],"all strings","Tests sample fourteen strings.",
 ["ecmascript/lexer/unicode.go"],[("EncodeUTF16","ecmascript/lexer/unicode.go")])
p("C38","The source text of a token lexes back to the same token",
 "For every token the lexer can produce, the source text it reports lexes to the same token again.",
 ["inputs"],"all tokens","No test calls it.",
 ["ecmascript/lexer/token.go"],[("Token.Source","ecmascript/lexer/token.go")])
open("properties.jsonl","w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
print(len(P))

import json
P=[]
def p(id,title,stmt,over,qt,why,files,mech,obs):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs)))
V="go/vimlparser.go"; T="go/type.go"; E="go/export.go"
p("C01","Parsing is total: a tree or an error, never a crash",
 "For every input text, every option value and every file name, parsing a script or an expression returns normally with exactly one of a non-nil tree and a non-nil error. A failure of parsing is always reported as the package's own syntax-error type (or the reader's own I/O error): no input makes the parser fault on a nil pointer, an index, a type conversion or an internal 'not reached' state, neither while parsing nor while building the public tree.",
 ["inputs","configurations"],"all byte strings as script or expression, both editor modes, any file name",
 "Tests run ~100 fixed scripts; a fault needs one unusual text among infinitely many, and recovered faults look like ordinary errors.",
 ["vimlparser.go",V,E,T,"go/vimlfunc.go"],
 [("recover turns the parser's error panics into errors","vimlparser.go ParseFile/ParseExpr"),("every panic carries a positioned error","go/type.go Err and its call sites"),("shape of internal nodes per kind makes conversion total","go/export.go newAstNode/newExprNode")],
 ["vimlparser.ParseFile","vimlparser.ParseExpr"])
p("C02","Every syntax error points at one real place in the input",
 "Every syntax error returned for a script or expression carries the given file name, and a line, a byte column and a byte offset that all designate the same point of the input: the offset is the byte offset of that line plus the column minus one. Only an error raised at end of input is exempt from the column part: it carries the line after the last one, column 0 and the input's length (one newline per line) as offset.",
 ["inputs"],"all inputs that are rejected",
 "Error tests compare the message of a few inputs; the offset of errors is never checked and lines with continuations or multi-byte text before the error are not sampled.",
 ["vimlparser.go",T,V],
 [("error construction copies the position","go/type.go Err"),("positions come from the reader's position table","go/type.go StringReader.__init__/getpos"),("fields copied into the public error","vimlparser.go ParseFile/ParseExpr")],
 ["vimlparser.ErrVimlParser"])
p("C03","Logical lines keep every character and its true position",
 "Reading a script joins each line with the continuation lines that follow it (optional blanks, then a backslash: exactly the part after the backslash is joined) and otherwise presents exactly the bytes of the input, in order, with one line end per logical line (a carriage return before a newline belongs to the line end); no line is dropped or cut, whatever its length or encoding, and an error of the underlying reader is returned, not swallowed. The position recorded for each character is its true physical line, 1-based byte column and 0-based byte offset, counting one newline per physical line.",
 ["inputs","fault_sequences"],"all sequences of lines, including continuation lines, empty lines, multi-byte and invalid UTF-8 text, very long lines, and readers that fail midway",
 "Two tests look at a handful of offsets in short ASCII scripts; no test has long lines, failing readers or positions inside continuation lines.",
 ["vimlparser.go",T],
 [("splitting input into lines","vimlparser.go readlines"),("joining and position table","go/type.go StringReader.__init__"),("position lookup","go/type.go StringReader.getpos")],
 ["ast.Node.Pos","vimlparser.ParseFile"])
p("C04","Tokens are the longest match and carry exactly their source text",
 "At every place of every expression the next token (after skipping blanks and escaped line ends) is the one determined by the characters there: the operator is the longest one in the language that matches, a name, number, blob, option, register, environment variable is its full maximal spelling, and the token's text equals the characters it consumed. Reading it moves exactly past those characters, its position is that of its first character, and string literals are returned verbatim up to the matching quote.",
 ["inputs"],"all character sequences at which an expression token is read",
 "Fixture scripts exercise each operator once or twice; boundary spellings (case suffixes, radix prefixes, exponents, doubled quotes, escapes) are infinite.",
 [V],
 [("token recognition","go/vimlparser.go ExprTokenizer.get2"),("string literals","go/vimlparser.go get_sstring/get_dstring"),("maximal-munch readers","go/vimlparser.go StringReader.read_*")],
 ["ast.Ident.Name","ast.BasicLit.Value","ast.BinaryExpr.Op"])
p("C05","Looking ahead and backing up never change what is read",
 "Peeking at the next token leaves the reading position unchanged and returns the token that the next read will return; reading, rewinding and reading again yields an equal token and the same following position. What a token is depends only on the text and the place, never on what was peeked or read before.",
 ["histories","inputs"],"all sequences of peek, read and rewind on one text",
 "Tests only see final trees; a stale or wrong memo entry shows only after a particular sequence of look-ahead and rewind.",
 [V,T],
 [("token memo keyed by position","go/vimlparser.go ExprTokenizer.get/peek"),("rewind","go/vimlparser.go StringReader.tell/seek_set")],
 ["vimlparser.ParseExpr"])
p("C06","Expressions group by Vim's precedence and associativity",
 "In every parsed expression tree, operands bind according to Vim's table: ?: loosest and right-associative, then ||, &&, the non-chaining comparisons, then + - . .., then * / %, then unary ! - +, then subscripts, calls, methods and member access, then atoms; all other binary operators associate to the left. An operand of a looser-binding form appears under a tighter-binding operator only inside explicit parentheses, brackets, braces or call arguments.",
 ["inputs"],"all accepted expressions of any size and nesting",
 "Tests contain a few dozen operator combinations; the pairs and nestings of operators are unbounded.",
 [V],
 [("one parse function per precedence level","go/vimlparser.go ExprParser.parse_expr1..parse_expr9"),("member access versus concatenation","go/vimlparser.go parse_dot/parse_concat")],
 ["ast.BinaryExpr","ast.TernaryExpr","ast.UnaryExpr"])
p("C07","An expression tree accounts for every token it consumed, in order",
 "For every accepted expression, reading the tree's operators, operands, arguments, list and dictionary entries, names and punctuation in source order gives exactly the tokens that were consumed: nothing is dropped, duplicated, swapped or renamed, and each node's kind is the one its operator token denotes. Each node records the place of its own operator or first token.",
 ["inputs"],"all accepted expressions of any size and nesting",
 "Tests compare printed forms of a few dozen expressions; long chains, argument lists and nested slices are unbounded.",
 [V],
 [("tree construction","go/vimlparser.go ExprParser.parse_expr1..9, parse_rlist, parse_identifier, parse_curly_parts, LvalueParser")],
 ["vimlparser.ParseExpr"])
p("C08","Blocks nest exactly as their terminators say",
 "In an accepted script every if/while/for/try/function is closed by its own terminator and never by another's; each branch (elseif, else, catch, finally) belongs to the innermost open construct that allows it and comes in an allowed order. Every statement is attached, in source order, to the innermost construct or branch open at that point, and to no other; a script with a missing, extra or misplaced terminator or branch is rejected.",
 ["inputs"],"all sequences of block-opening, branch, closing and plain commands",
 "Tests have fixed nestings of depth two or three; the sequences of openers, branches and closers are unbounded.",
 [V,T],
 [("context stack","go/vimlparser.go push_context/pop_context/find_context"),("openers, branches, closers","go/vimlparser.go parse_cmd_if..parse_cmd_endtry, parse_cmd_function/endfunction"),("end-of-file checks","go/vimlparser.go check_missing_*")],
 ["ast.If","ast.Try","ast.Function","ast.For","ast.While"])
p("C09","Accepted scripts obey the language's static rules",
 "A script is accepted only if: :return occurs inside a function; :break and :continue inside a loop; function parameters and lambda parameters are legal, distinct names, none follows '...', and no parameter without default follows one with a default; a plain function name starts with a capital, '_' or '<' or contains ':' or '#'; :call has a function call as its argument; assignment targets are assignable forms with legal variable names; a call has at most 20 arguments; '!' appears only on commands that allow it. Each violation is an error, never silently accepted.",
 ["inputs"],"all scripts; each rule for all names, lists and nestings",
 "Tests have one script per rule at most; each rule quantifies over list lengths, names and nesting depth.",
 [V],
 [("function header rules","go/vimlparser.go parse_cmd_function"),("context rules","go/vimlparser.go parse_cmd_return/break/continue"),("argument count and lambda rules","go/vimlparser.go parse_rlist, parse_expr9"),("lvalue rules","go/vimlparser.go parse_lvalue*, parse_letlhs/parse_constlhs")],
 ["vimlparser.ParseFile"])
p("C10","A command name resolves by the command table alone",
 "The command a line runs is determined only by the name written there and the editor mode: a name resolves to the first command of the table, in order, of which it is a prefix at least as long as that command's minimum abbreviation (mode-specific commands included and excluded as the mode says); otherwise a name with a leading capital is a user command with exactly that name; otherwise it is an error. Resolution never depends on commands resolved earlier in the script.",
 ["inputs","histories","configurations"],"all command names, all earlier command histories, both editor modes",
 "Tests check a few names once each in a fresh parser; history dependence needs two particular commands in one script.",
 [V,"go/builtin_commands.go"],
 [("lookup with cache","go/vimlparser.go find_command, _find_command"),("tables","go/builtin_commands.go")],
 ["ast.ExArg.Cmd"])
p("C11","Plain Ex commands keep their text verbatim",
 "A command the parser does not analyse further is kept as one statement whose text is exactly the source characters from the start of the command line (modifiers and range included) to its end: up to the unescaped command separator or comment where the command allows one, otherwise to the end of the line, or through the end marker for commands that take following lines. The command separator, comment start and continuation rules are those of the command's flags, and the command's position, modifiers, range and '!' are recorded as written.",
 ["inputs"],"all lines holding an unanalysed Ex command",
 "Tests have a few dozen such lines; separators, escapes, comments and quoting combine without bound.",
 [V],
 [("end-of-command search","go/vimlparser.go parse_cmd_common, separate_nextcmd"),("text capture","go/vimlparser.go StringReader.getstr"),("multi-line commands","go/vimlparser.go parse_cmd_append/parse_cmd_lua/parse_cmd_loadkeymap")],
 ["ast.Excmd"])
p("C12","The public tree is a faithful image of what was parsed",
 "Converting the parser's result into the public tree preserves everything: each construct becomes the node type that stands for it, with each child, list (same elements, same order, same length), text, operator, flag and position in the field documented for it; nothing is dropped, duplicated, swapped or invented, and optional parts are absent exactly when they were absent. Every node carries the file name it was parsed under.",
 ["inputs"],"all internal trees of the shapes the parser builds",
 "Tests convert only the trees of the fixtures and mostly look at printed output that ignores positions and several fields.",
 [E,"ast/node.go"],
 [("conversion per node kind","go/export.go newAstNode, newExprNode and helpers")],
 ["ast.Node"])
p("C13","Walking a tree visits every child once, in order",
 "Walk calls the visitor on the node, then, if the returned visitor is not nil, walks with it each non-nil child exactly once in field order as documented, and finally calls that visitor with nil; if it is nil nothing below is visited. Absent children are never visited, every node-valued field or list of every node type is a child, and Inspect does the same with a function, which is called for the nodes only.",
 ["inputs","programs"],"all trees (also hand-built ones with absent optional parts), all visitors",
 "Tests walk the fixtures and count a few nodes; absent parts and rarely used node types are not walked.",
 ["ast/walk.go","ast/node.go"],
 [("depth-first traversal","ast/walk.go Walk, walk*List, Inspect")],
 ["ast.Walk","ast.Inspect"])
p("C14","Compiling prints the canonical S-expression and nothing else",
 "Compiling a tree writes exactly the S-expression form of the reference compiler: for each node kind its documented head, operands in order, nested bodies one indent deeper and closing parenthesis on the last line, with texts copied literally (no character of the program is interpreted as formatting). Compiling reads but never modifies the tree, so compiling again gives the same text, and an error while writing or in a nested node is returned.",
 ["inputs","histories","fault_sequences"],"all trees, any nesting depth and indent setting, any writer, repeated compilation of one tree",
 "Tests compare fixture outputs after one compilation; nested functions with parameters, '%' in expressions used as a root and repeated compilation are not covered.",
 ["compiler/compiler.go",V,"go/type.go"],
 [("statement printing","compiler/compiler.go compile*"),("expression printing","compiler/compiler.go compileExpr, escape")],
 ["compiler.Compile"])
p("C15","Printing an expression preserves its grouping and never crashes",
 "Printing an expression tree gives source text in which every operator, operand and literal appears in order and in which parentheses are added wherever the tree's grouping differs from what precedence alone would give, so that parsing the text yields a tree with the same grouping. An expression or node kind that cannot be printed is reported as an error, never as a crash, and nothing is written then.",
 ["inputs"],"all expression trees, parsed or hand-built",
 "Tests print a dozen small expressions; combinations of operators on both sides are unbounded.",
 ["printer/expr.go","printer/opprec.go","printer/printer.go"],
 [("precedence-driven parentheses","printer/expr.go expr1, binaryExpr, unaryExpr"),("precedence table","printer/opprec.go")],
 ["printer.Fprint"])
p("C16","Every token has its own fixed spelling",
 "Every operator and punctuation token prints as exactly the spelling that the language uses for it, distinct tokens print differently, and every other token value prints as 'token(N)'; printing never fails for any value.",
 ["inputs"],"all token values, defined or not",
 "No test enumerates the table or values outside it.",
 ["token/token.go",E],
 [("spelling table","token/token.go tokens, Token.String")],
 ["token.Token.String"])
p("C17","Parses are independent of each other",
 "The result of parsing, walking, printing or compiling depends only on its arguments: no call changes state that another call or the caller can observe (package-level tables, the option value, the tree given to a reader-only operation), so calls may be repeated, interleaved or run concurrently on separate inputs with the same results.",
 ["histories","schedules"],"all sequences and interleavings of calls on separate inputs",
 "Tests run one call at a time on fresh state and never compare repeated or concurrent runs.",
 ["vimlparser.go",V,E,T,"go/vimlfunc.go","go/builtin_commands.go","compiler/compiler.go","printer/printer.go"],
 [("all mutable state hangs off the parser object created per call","go/type.go NewVimLParser, NewStringReader, NewExprTokenizer"),("package tables are only read after initialisation","go/vimlfunc.go patVim2GoRegh, go/builtin_commands.go")],
 ["vimlparser.ParseFile","compiler.Compile"])
p("C18","Parsing always makes progress",
 "Every loop and every recursion of the parser either moves the reading position forward, descends to a strictly tighter precedence level or into a strictly smaller part, or ends; so parsing, conversion, walking, compiling and printing terminate on every finite input.",
 ["inputs"],"all finite inputs",
 "Non-termination needs one particular text; a test run that ends says nothing about others.",
 [V,T,E,"compiler/compiler.go","printer/expr.go"],
 [("each loop consumes or exits","go/vimlparser.go all loops"),("recursion over position and level","go/vimlparser.go parse_expr*")],
 ["vimlparser.ParseFile"])
p("C19","The command-line tool's exit status tells whether all inputs were fine",
 "The command exits with status 0 exactly when every input given (all files, or standard input when there are none) could be read, parsed and written; every failing input is reported on standard error and makes the final status 1, and does not prevent the remaining inputs from being processed.",
 ["inputs","histories","configurations"],"all argument lists with any mix of good, unreadable and unparsable inputs, all flags",
 "The command has no tests at all.",
 ["cmd/vimlparser/main.go"],
 [("exit code accumulation","cmd/vimlparser/main.go main, parseFile")],
 ["cmd/vimlparser"])
with open("/verif/properties.jsonl","w") as f:
    for x in P:
        assert len(x["title"])<=80,x["title"]
        f.write(json.dumps(x)+"\n")
print(len(P))

CLAIMS = {
 'C01': 'For all texts, file names and both modes: no nil pointer is followed, no index or slice is out of range, no type assertion fails, no number is converted from what is none, in any function from ParseFile and ParseExpr down (an obligation at each such place); every panic of the parser carries a *ParseError that is not nil (a postcondition of each function); exactly one of tree and error is nil, and the error is the syntax-error type or the one the reader gave. Not covered: exhaustion of memory or stack, and readers that panic. Trusted: the condition generator, the solvers, strconv.ParseInt failing on a text of digits only out of range.',
 'C02': 'For all texts: every *ParseError that leaves any function of the parser carries line, column and offset that are those of one place of the lines the reader was made of, or of their end (a postcondition on the panics of each of the 120 functions); every place the parser keeps (tokens, nodes, memo, command places) comes from the reader in use; ParseFile and ParseExpr copy the three numbers and the file name, and the lines are the ones read. Trusted: the condition generator, the solvers, bufio.Scanner handing out the lines of its reader.',
 'C03': 'For all sequences of lines: each entry of the table of characters holds exactly the bytes at its place, the place is line, column and offset of one another, the next entry is at the place where the text goes on (in the same line, after the backslash of the continuation line, or at the start of the next line), the first is the first and the end is the end (invariants of the reader, so no byte is lost or doubled); getpos and newPos copy the place; the lines are those the scanner handed out until it ended, with no limit below 2 GiB, and its error is returned. Trusted: the condition generator, the solvers, bufio.Scanner (which splits at newlines and drops a carriage return before one), utf8.DecodeRuneInString returning 1 to 4 bytes that lie in the text, and the reading of package regexp.',
 'C04': 'For all character sequences and all places: the type, the text, the place and the end of the next token equal tty and tend of contracts/go_token.vc (the operators from a table of spellings, longest first); the runs of digits, words, blanks and names, blobs, quoted strings and #{ } keys end where the language says. Trusted: the condition generator, the solvers, and the reading of package regexp.',
 'C05': 'For all sequences of get, peek and rewind: every entry of the memo is the token and the end that the text alone determines (an invariant of the tokenizer), get returns it, peek returns it and stays. That a failing read leaves no entry is part of the invariant. Relies on C04 for what get2 returns. Trusted: the condition generator and the solvers.',
 'C08': 'For all scripts: the stack of open constructs (invariant: the script itself at the bottom, every branch directly on the construct it belongs to, no node twice) changes with each command only as that command may: a statement is added at the end of the innermost body, an opener is added there and becomes the innermost, a branch replaces the branch open before (and is refused unless the innermost construct allows it there), an end closes its own construct only. No other body, branch list or end field of any node changes (frame postconditions), and parse returns only when nothing is left open.',
 'C06': 'For all token sequences: every node built by the expression parser has operands that bind at least as tightly as their place asks for (an invariant of the nodes, checked where they are built), and each level takes every operator that belongs to it (what follows is none of its operators). Relies on C05 for the tokens. Trusted: the condition generator and the solvers.',
 'C10': 'For all command lines, all contents of the cache a script can produce, and both modes: which command a name resolves to (find_command against the specification of go_find.vc), that the cache never holds anything but that answer, that the command found is the one run (dispatch), and, by evaluation over all prefixes of all names, that the command tables are the pinned ones. Trusted: the condition generator, the solvers, strings.Index and strings.HasPrefix agreeing on a prefix, and the reading of package regexp.',
 'C12': 'For every internal tree and every file name. The shape of the trees the parser builds (which kinds of node have which children) is proved with C01. Trusted: the condition generator and the solvers.',
 'C13': 'For all trees and all visitors: the trace of Walk and Inspect equals the documented one. Trusted: the condition generator, the solvers, and that trees hold no typed nil pointers other than those excluded by the invariants checked where trees are built.',
 'C14': 'For all trees, indents and writers: what Compile writes equals the S-expression form given by sx and out in contracts/compiler.vc, in one write, and nothing is written when a node is out of place. Trusted: the condition generator, the solvers, the contracts of bytes.Buffer, io.Copy, strings.Join, strings.Repeat and bytes.TrimRight, that the Fprint family writes the texts of its operands, and that ExCommand has no implementations outside the module.',
 'C15': 'For all expression trees and all nodes: Fprint writes, in one write, the text given by prx in contracts/printer.vc (parentheses exactly where an operand binds less tightly than its place asks for), or returns an error and writes nothing; no panic leaves it. That the text parses back to the same grouping is the meaning of prx with the precedence table of the language, not a separate proof through the parser. Trusted: the condition generator, the solvers, and io.Writer.',
 'C16': 'For every token value, over all integers. Trusted: the condition generator and the solver.',
 'C17': 'Every instruction of the library that writes memory, calls outside the module or could make a result depend on anything but the arguments. The frame rules are decided by the ownership analysis in govc/effects.go, not by a solver. Trusted: that analysis; that the allow-listed packages of the standard library are functions of their arguments; that user-supplied readers, writers and visitors do not interfere.',
 'C19': 'For all argument lists and all outcomes of opening, parsing and writing. Trusted: the condition generator, the solvers, the contracts of package flag, os, encoding/json and fmt, and that ParseFile and Compile return their failures (C01, C03, C14).',
}
NOT = {
 'C07': 'not claimed: the trees are specified operator by operator (C05, C06) and token by token (C04), but no contract yet ties the text consumed by a whole expression to a fold of its tree',
 'C09': 'not claimed: no contract yet relates every accepted node to the static rules',
 'C11': 'not claimed: no contract yet relates the kept text of a plain Ex command to its characters',
 'C18': 'not claimed: the engine checks partial correctness; measures for the recursive parser functions are not written',
}

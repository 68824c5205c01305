// C16: every token has its own fixed spelling.
package token
safety C16

spec spelling(n int) string = ite(n == ILLEGAL, "ILLEGAL", ite(n == EOF, "<EOF>", ite(n == EOL, "<EOL>", ite(n == SPACE, "<SPACE>", ite(n == OROR, "||", ite(n == ANDAND, "&&", ite(n == EQEQ, "==", ite(n == EQEQCI, "==?", ite(n == EQEQCS, "==#", ite(n == NEQ, "!=", ite(n == NEQCI, "!=?", ite(n == NEQCS, "!=#", ite(n == GT, ">", ite(n == GTCI, ">?", ite(n == GTCS, ">#", ite(n == GTEQ, ">=", ite(n == GTEQCI, ">=?", ite(n == GTEQCS, ">=#", ite(n == LT, "<", ite(n == LTCI, "<?", ite(n == LTCS, "<#", ite(n == LTEQ, "<=", ite(n == LTEQCI, "<=?", ite(n == LTEQCS, "<=#", ite(n == MATCH, "=~", ite(n == MATCHCI, "=~?", ite(n == MATCHCS, "=~#", ite(n == NOMATCH, "!~", ite(n == NOMATCHCI, "!~?", ite(n == NOMATCHCS, "!~#", ite(n == IS, "is", ite(n == ISCI, "is?", ite(n == ISCS, "is#", ite(n == ISNOT, "isnot", ite(n == ISNOTCI, "isnot?", ite(n == ISNOTCS, "isnot#", ite(n == PLUS, "+", ite(n == MINUS, "-", ite(n == DOT, ".", ite(n == STAR, "*", ite(n == SLASH, "/", ite(n == PERCENT, "%", ite(n == NOT, "!", ite(n == QUESTION, "?", ite(n == COLON, ":", ite(n == POPEN, "(", ite(n == PCLOSE, ")", ite(n == SQOPEN, "[", ite(n == SQCLOSE, "]", ite(n == COPEN, "{", ite(n == CCLOSE, "}", ite(n == COMMA, ",", ite(n == NUMBER, "<NUMBER>", ite(n == BLOB, "<BLOB>", ite(n == SQUOTE, "'", ite(n == DQUOTE, "\"", ite(n == OPTION, "<&OPTION>", ite(n == IDENTIFIER, "<IDENTIFIER>", ite(n == ENV, "<$ENV>", ite(n == REG, "<@REG>", ite(n == EQ, "=", ite(n == OR, "|", ite(n == SEMICOLON, ";", ite(n == BACKTICK, "`", ite(n == DOTDOTDOT, "...", ite(n == SHARP, "#", ite(n == ARROW, "->", ite(n == STRING, "<STRING>", "token(" + itoa(n) + ")"))))))))))))))))))))))))))))))))))))))))))))))))))))))))))))))))))))

ufun tokstr(t int) string
func Token.String(t) -> s
  summary s == tokstr(t)
  ensures [C16] s == spelling(t)
  nopanic

check [C16] values_differ: distinct(ILLEGAL, EOF, EOL, SPACE, OROR, ANDAND, EQEQ, EQEQCI, EQEQCS, NEQ, NEQCI, NEQCS, GT, GTCI, GTCS, GTEQ, GTEQCI, GTEQCS, LT, LTCI, LTCS, LTEQ, LTEQCI, LTEQCS, MATCH, MATCHCI, MATCHCS, NOMATCH, NOMATCHCI, NOMATCHCS, IS, ISCI, ISCS, ISNOT, ISNOTCI, ISNOTCS, PLUS, MINUS, DOT, STAR, SLASH, PERCENT, NOT, QUESTION, COLON, POPEN, PCLOSE, SQOPEN, SQCLOSE, COPEN, CCLOSE, COMMA, NUMBER, BLOB, SQUOTE, DQUOTE, OPTION, IDENTIFIER, ENV, REG, EQ, OR, SEMICOLON, BACKTICK, DOTDOTDOT, SHARP, ARROW, STRING)
check [C16] spellings_differ: distinct(spelling(ILLEGAL), spelling(EOF), spelling(EOL), spelling(SPACE), spelling(OROR), spelling(ANDAND), spelling(EQEQ), spelling(EQEQCI), spelling(EQEQCS), spelling(NEQ), spelling(NEQCI), spelling(NEQCS), spelling(GT), spelling(GTCI), spelling(GTCS), spelling(GTEQ), spelling(GTEQCI), spelling(GTEQCS), spelling(LT), spelling(LTCI), spelling(LTCS), spelling(LTEQ), spelling(LTEQCI), spelling(LTEQCS), spelling(MATCH), spelling(MATCHCI), spelling(MATCHCS), spelling(NOMATCH), spelling(NOMATCHCI), spelling(NOMATCHCS), spelling(IS), spelling(ISCI), spelling(ISCS), spelling(ISNOT), spelling(ISNOTCI), spelling(ISNOTCS), spelling(PLUS), spelling(MINUS), spelling(DOT), spelling(STAR), spelling(SLASH), spelling(PERCENT), spelling(NOT), spelling(QUESTION), spelling(COLON), spelling(POPEN), spelling(PCLOSE), spelling(SQOPEN), spelling(SQCLOSE), spelling(COPEN), spelling(CCLOSE), spelling(COMMA), spelling(NUMBER), spelling(BLOB), spelling(SQUOTE), spelling(DQUOTE), spelling(OPTION), spelling(IDENTIFIER), spelling(ENV), spelling(REG), spelling(EQ), spelling(OR), spelling(SEMICOLON), spelling(BACKTICK), spelling(DOTDOTDOT), spelling(SHARP), spelling(ARROW), spelling(STRING))

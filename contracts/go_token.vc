// C04: what the next token is.  Generated by tools/gen_token.py.
//   tty(b, i)   the type of the token at i (no blanks skipped), -1: none
//   tend(b, i)  the place after it
// C05: reading and peeking give that token.
package go
spelled sub
frozen ExprToken.type_
frozen ExprToken.value
frozen ExprToken.pos
frozen ExprTokenizer.reader
frozen pos.i

spec ch(b []string, i int) string = ite(i < len(b), b[i], "<EOF>")
axiom sub_cat: forall b []string, i int, j int, k int :: {sub(b, i, j), sub(b, j, k)} i <= j && j <= k ==> sub(b, i, j) + sub(b, j, k) == sub(b, i, k)
axiom sub_n2: forall b []string, i int, j int :: {sub(b, i, j), b[i]} j == i + 2 ==> sub(b, i, j) == b[i] + b[i + 1]
axiom sub_n3: forall b []string, i int, j int :: {sub(b, i, j), b[i]} j == i + 3 ==> sub(b, i, j) == b[i] + b[i + 1] + b[i + 2]
axiom sub_n4: forall b []string, i int, j int :: {sub(b, i, j), b[i]} j == i + 4 ==> sub(b, i, j) == b[i] + b[i + 1] + b[i + 2] + b[i + 3]
axiom sub_n5: forall b []string, i int, j int :: {sub(b, i, j), b[i]} j == i + 5 ==> sub(b, i, j) == b[i] + b[i + 1] + b[i + 2] + b[i + 3] + b[i + 4]
axiom sub_n6: forall b []string, i int, j int :: {sub(b, i, j), b[i]} j == i + 6 ==> sub(b, i, j) == b[i] + b[i + 1] + b[i + 2] + b[i + 3] + b[i + 4] + b[i + 5]

ufun dge(b []string, i int) int
axiom dge_b: forall b []string, i int :: {dge(b, i)} i <= dge(b, i) && (dge(b, i) <= len(b) || dge(b, i) == i) && !(dge(b, i) < len(b) && rx(b[dge(b, i)], "^[0-9]$"))
axiom dge_i: forall b []string, i int, k int :: {dge(b, i), b[k]} i <= k && k < dge(b, i) ==> rx(b[k], "^[0-9]$")

func StringReader.read_digit(self) -> r
  modifies self.i
  ensures [C04] self.i == dge(self.buf, old(self.i)) && r == sub(self.buf, old(self.i), self.i)
  loopcand s string : s == sub(self.buf, old(self.i), self.i)
  loopcand : old(self.i) <= self.i && self.i <= dge(self.buf, old(self.i))

ufun oge(b []string, i int) int
axiom oge_b: forall b []string, i int :: {oge(b, i)} i <= oge(b, i) && (oge(b, i) <= len(b) || oge(b, i) == i) && !(oge(b, i) < len(b) && rx(b[oge(b, i)], "^[0-7]$"))
axiom oge_i: forall b []string, i int, k int :: {oge(b, i), b[k]} i <= k && k < oge(b, i) ==> rx(b[k], "^[0-7]$")

func StringReader.read_odigit(self) -> r
  modifies self.i
  ensures [C04] self.i == oge(self.buf, old(self.i)) && r == sub(self.buf, old(self.i), self.i)
  loopcand s string : s == sub(self.buf, old(self.i), self.i)
  loopcand : old(self.i) <= self.i && self.i <= oge(self.buf, old(self.i))

ufun xge(b []string, i int) int
axiom xge_b: forall b []string, i int :: {xge(b, i)} i <= xge(b, i) && (xge(b, i) <= len(b) || xge(b, i) == i) && !(xge(b, i) < len(b) && rx(b[xge(b, i)], "^[0-9A-Fa-f]$"))
axiom xge_i: forall b []string, i int, k int :: {xge(b, i), b[k]} i <= k && k < xge(b, i) ==> rx(b[k], "^[0-9A-Fa-f]$")

func StringReader.read_xdigit(self) -> r
  modifies self.i
  ensures [C04] self.i == xge(self.buf, old(self.i)) && r == sub(self.buf, old(self.i), self.i)
  loopcand s string : s == sub(self.buf, old(self.i), self.i)
  loopcand : old(self.i) <= self.i && self.i <= xge(self.buf, old(self.i))

ufun bge(b []string, i int) int
axiom bge_b: forall b []string, i int :: {bge(b, i)} i <= bge(b, i) && (bge(b, i) <= len(b) || bge(b, i) == i) && !(bge(b, i) < len(b) && (b[bge(b, i)] == "0" || b[bge(b, i)] == "1"))
axiom bge_i: forall b []string, i int, k int :: {bge(b, i), b[k]} i <= k && k < bge(b, i) ==> (b[k] == "0" || b[k] == "1")

func StringReader.read_bdigit(self) -> r
  modifies self.i
  ensures [C04] self.i == bge(self.buf, old(self.i)) && r == sub(self.buf, old(self.i), self.i)
  loopcand s string : s == sub(self.buf, old(self.i), self.i)
  loopcand : old(self.i) <= self.i && self.i <= bge(self.buf, old(self.i))

ufun wde(b []string, i int) int
axiom wde_b: forall b []string, i int :: {wde(b, i)} i <= wde(b, i) && (wde(b, i) <= len(b) || wde(b, i) == i) && !(wde(b, i) < len(b) && rx(b[wde(b, i)], "^[0-9A-Za-z_]$"))
axiom wde_i: forall b []string, i int, k int :: {wde(b, i), b[k]} i <= k && k < wde(b, i) ==> rx(b[k], "^[0-9A-Za-z_]$")

func StringReader.read_word(self) -> r
  modifies self.i
  ensures [C04] self.i == wde(self.buf, old(self.i)) && r == sub(self.buf, old(self.i), self.i)
  loopcand s string : s == sub(self.buf, old(self.i), self.i)
  loopcand : old(self.i) <= self.i && self.i <= wde(self.buf, old(self.i))

ufun whe(b []string, i int) int
axiom whe_b: forall b []string, i int :: {whe(b, i)} i <= whe(b, i) && (whe(b, i) <= len(b) || whe(b, i) == i) && !(whe(b, i) < len(b) && rx(b[whe(b, i)], "^[ \\t]$"))
axiom whe_i: forall b []string, i int, k int :: {whe(b, i), b[k]} i <= k && k < whe(b, i) ==> rx(b[k], "^[ \\t]$")

func StringReader.read_white(self) -> r
  modifies self.i
  ensures [C04] self.i == whe(self.buf, old(self.i)) && r == sub(self.buf, old(self.i), self.i)
  loopcand s string : s == sub(self.buf, old(self.i), self.i)
  loopcand : old(self.i) <= self.i && self.i <= whe(self.buf, old(self.i))

ufun nme(b []string, i int) int
axiom nme_b: forall b []string, i int :: {nme(b, i)} i <= nme(b, i) && (nme(b, i) <= len(b) || nme(b, i) == i) && !(nme(b, i) < len(b) && rx(b[nme(b, i)], "^[0-9A-Za-z_:#]$"))
axiom nme_i: forall b []string, i int, k int :: {nme(b, i), b[k]} i <= k && k < nme(b, i) ==> rx(b[k], "^[0-9A-Za-z_:#]$")

func StringReader.read_name(self) -> r
  modifies self.i
  ensures [C04] self.i == nme(self.buf, old(self.i)) && r == sub(self.buf, old(self.i), self.i)
  loopcand s string : s == sub(self.buf, old(self.i), self.i)
  loopcand : old(self.i) <= self.i && self.i <= nme(self.buf, old(self.i))

func StringReader.skip_white(self)
  modifies self.i
  ensures [C04] self.i == whe(self.buf, old(self.i))
  loopcand : old(self.i) <= self.i && self.i <= whe(self.buf, old(self.i))

// the end of the pairs of hexadecimal digits at i, single points between them;
// -1: an odd digit
ufun ble(b []string, i int) int
axiom ble_def: forall b []string, i int, e int :: {ble(b, i), sub(b, i, e)} e == nth(b, i, 2) ==> ble(b, i) == ite(rx(look(b, i, 2), "^[0-9A-Fa-f][0-9A-Fa-f]$"), ble(b, nth(b, i, 2)), ite(rx(look(b, i, 2), "^\\.[0-9A-Fa-f]$"), ble(b, nth(b, i, 1)), ite(rx(look(b, i, 2), "^[0-9A-Fa-f][^0-9A-Fa-f]$"), 0 - 1, i)))
func StringReader.read_blob(self) -> r
  modifies self.i
  panics e: ble(self.buf, old(self.i)) == 0 - 1
  ensures [C04] self.i == ble(self.buf, old(self.i)) && self.i >= old(self.i) && r == sub(self.buf, old(self.i), self.i)
  loopcand s string : s == sub(self.buf, old(self.i), self.i)
  loopcand : old(self.i) <= self.i && ble(self.buf, old(self.i)) == ble(self.buf, self.i)

ufun tty(b []string, i int) int
ufun tend(b []string, i int) int
spec isch(b []string, i int, s string) bool = ch(b, i) == s
spec idc(b []string, i int) bool = rx(ch(b, i), "^[0-9A-Za-z_]$")
// is and isnot, alone: an operator, whatever follows
spec isis(b []string, i int) bool = isch(b, i, "i") && isch(b, i + 1, "s") && !idc(b, i + 2)
spec isnt(b []string, i int) bool = isch(b, i, "i") && isch(b, i + 1, "s") && isch(b, i + 2, "n") && isch(b, i + 3, "o") && isch(b, i + 4, "t") && !idc(b, i + 5)
// how a number is written
spec ishex(b []string, i int) bool = (isch(b, i + 1, "x") || isch(b, i + 1, "X")) && rx(ch(b, i + 2), "^[0-9A-Fa-f]$")
spec isbin(b []string, i int) bool = (isch(b, i + 1, "b") || isch(b, i + 1, "B")) && (isch(b, i + 2, "0") || isch(b, i + 2, "1"))
spec isblob(b []string, i int) bool = (isch(b, i + 1, "z") || isch(b, i + 1, "Z")) && !isch(b, i + 2, ".")
spec isdg(b []string, i int) bool = rx(ch(b, i), "^[0-9]$")
// the end of the exponent at i, of the fraction at i, of the number at i
spec expe(b []string, i int) int = ite((isch(b, i, "e") || isch(b, i, "E")) && (isdg(b, i + 1) || (isch(b, i + 1, "-") || isch(b, i + 1, "+")) && isdg(b, i + 2)), dge(b, i + 2), i)
spec fre(b []string, i int) int = ite(isch(b, i, ".") && isdg(b, i + 1), expe(b, dge(b, i + 1)), i)
spec nume(b []string, i int) int = fre(b, dge(b, i))

axiom tok_eof: forall b []string, i int :: {tty(b, i)} ch(b, i) == "<EOF>" ==> tty(b, i) == TOKEN_EOF && tend(b, i) == i
axiom tok_eof_e: forall b []string, i int :: {tend(b, i)} ch(b, i) == "<EOF>" ==> tty(b, i) == TOKEN_EOF && tend(b, i) == i
axiom tok_eol: forall b []string, i int :: {tty(b, i)} ch(b, i) == "<EOL>" ==> tty(b, i) == TOKEN_EOL && tend(b, i) == i + 1
axiom tok_eol_e: forall b []string, i int :: {tend(b, i)} ch(b, i) == "<EOL>" ==> tty(b, i) == TOKEN_EOL && tend(b, i) == i + 1
axiom tok_white: forall b []string, i int :: {tty(b, i)} rx(ch(b, i), "^[ \\t]$") ==> tty(b, i) == TOKEN_SPACE && tend(b, i) == whe(b, i)
axiom tok_white_e: forall b []string, i int :: {tend(b, i)} rx(ch(b, i), "^[ \\t]$") ==> tty(b, i) == TOKEN_SPACE && tend(b, i) == whe(b, i)
axiom tok_0: forall b []string, i int :: {tty(b, i)} ch(b, i) == "0" ==> ite(ishex(b, i), tty(b, i) == TOKEN_NUMBER && tend(b, i) == xge(b, i + 3), ite(isbin(b, i), tty(b, i) == TOKEN_NUMBER && tend(b, i) == bge(b, i + 3), ite(isblob(b, i), tty(b, i) == ite(ble(b, i + 2) == 0 - 1, 0 - 1, TOKEN_BLOB) && tend(b, i) == ble(b, i + 2), tty(b, i) == TOKEN_NUMBER && tend(b, i) == nume(b, i))))
axiom tok_0_e: forall b []string, i int :: {tend(b, i)} ch(b, i) == "0" ==> ite(ishex(b, i), tty(b, i) == TOKEN_NUMBER && tend(b, i) == xge(b, i + 3), ite(isbin(b, i), tty(b, i) == TOKEN_NUMBER && tend(b, i) == bge(b, i + 3), ite(isblob(b, i), tty(b, i) == ite(ble(b, i + 2) == 0 - 1, 0 - 1, TOKEN_BLOB) && tend(b, i) == ble(b, i + 2), tty(b, i) == TOKEN_NUMBER && tend(b, i) == nume(b, i))))
axiom tok_num: forall b []string, i int :: {tty(b, i)} rx(ch(b, i), "^[0-9]$") && ch(b, i) != "0" ==> tty(b, i) == TOKEN_NUMBER && tend(b, i) == nume(b, i)
axiom tok_num_e: forall b []string, i int :: {tend(b, i)} rx(ch(b, i), "^[0-9]$") && ch(b, i) != "0" ==> tty(b, i) == TOKEN_NUMBER && tend(b, i) == nume(b, i)
axiom tok_name: forall b []string, i int :: {tty(b, i)} rx(ch(b, i), "^[A-Za-z_]$") ==> ite(isis(b, i), tty(b, i) == ite(isch(b, i + 2, "?"), TOKEN_ISCI, ite(isch(b, i + 2, "#"), TOKEN_ISCS, TOKEN_IS)) && tend(b, i) == i + ite(isch(b, i + 2, "?") || isch(b, i + 2, "#"), 3, 2), ite(isnt(b, i), tty(b, i) == ite(isch(b, i + 5, "?"), TOKEN_ISNOTCI, ite(isch(b, i + 5, "#"), TOKEN_ISNOTCS, TOKEN_ISNOT)) && tend(b, i) == i + ite(isch(b, i + 5, "?") || isch(b, i + 5, "#"), 6, 5), tty(b, i) == TOKEN_IDENTIFIER && tend(b, i) == nme(b, i)))
axiom tok_name_e: forall b []string, i int :: {tend(b, i)} rx(ch(b, i), "^[A-Za-z_]$") ==> ite(isis(b, i), tty(b, i) == ite(isch(b, i + 2, "?"), TOKEN_ISCI, ite(isch(b, i + 2, "#"), TOKEN_ISCS, TOKEN_IS)) && tend(b, i) == i + ite(isch(b, i + 2, "?") || isch(b, i + 2, "#"), 3, 2), ite(isnt(b, i), tty(b, i) == ite(isch(b, i + 5, "?"), TOKEN_ISNOTCI, ite(isch(b, i + 5, "#"), TOKEN_ISNOTCS, TOKEN_ISNOT)) && tend(b, i) == i + ite(isch(b, i + 5, "?") || isch(b, i + 5, "#"), 6, 5), tty(b, i) == TOKEN_IDENTIFIER && tend(b, i) == nme(b, i)))
axiom tok_env: forall b []string, i int :: {tty(b, i)} ch(b, i) == "$" ==> tty(b, i) == TOKEN_ENV && tend(b, i) == wde(b, i + 1)
axiom tok_env_e: forall b []string, i int :: {tend(b, i)} ch(b, i) == "$" ==> tty(b, i) == TOKEN_ENV && tend(b, i) == wde(b, i + 1)
axiom tok_reg: forall b []string, i int :: {tty(b, i)} ch(b, i) == "@" ==> tty(b, i) == TOKEN_REG && tend(b, i) == nth(b, i, 2)
axiom tok_reg_e: forall b []string, i int :: {tend(b, i)} ch(b, i) == "@" ==> tty(b, i) == TOKEN_REG && tend(b, i) == nth(b, i, 2)
axiom tok_amp: forall b []string, i int :: {tty(b, i)} ch(b, i) == "&" ==> ite(isch(b, i + 1, "&"), tty(b, i) == TOKEN_ANDAND && tend(b, i) == i + 2, tty(b, i) == TOKEN_OPTION && tend(b, i) == ite((isch(b, i + 1, "g") || isch(b, i + 1, "l")) && isch(b, i + 2, ":"), wde(b, i + 3), wde(b, i + 1)))
axiom tok_amp_e: forall b []string, i int :: {tend(b, i)} ch(b, i) == "&" ==> ite(isch(b, i + 1, "&"), tty(b, i) == TOKEN_ANDAND && tend(b, i) == i + 2, tty(b, i) == TOKEN_OPTION && tend(b, i) == ite((isch(b, i + 1, "g") || isch(b, i + 1, "l")) && isch(b, i + 2, ":"), wde(b, i + 3), wde(b, i + 1)))
axiom tok_op0: forall b []string, i int :: {tty(b, i)} ch(b, i) == "!" ==> tty(b, i) == ite(ch(b, i + 1) == "~", ite(ch(b, i + 2) == "?", TOKEN_NOMATCHCI, ite(ch(b, i + 2) == "#", TOKEN_NOMATCHCS, TOKEN_NOMATCH)), ite(ch(b, i + 1) == "=", ite(ch(b, i + 2) == "?", TOKEN_NEQCI, ite(ch(b, i + 2) == "#", TOKEN_NEQCS, TOKEN_NEQ)), TOKEN_NOT)) && tend(b, i) == i + ite(ch(b, i + 1) == "~", ite(ch(b, i + 2) == "?", 3, ite(ch(b, i + 2) == "#", 3, 2)), ite(ch(b, i + 1) == "=", ite(ch(b, i + 2) == "?", 3, ite(ch(b, i + 2) == "#", 3, 2)), 1))
axiom tok_op0_e: forall b []string, i int :: {tend(b, i)} ch(b, i) == "!" ==> tty(b, i) == ite(ch(b, i + 1) == "~", ite(ch(b, i + 2) == "?", TOKEN_NOMATCHCI, ite(ch(b, i + 2) == "#", TOKEN_NOMATCHCS, TOKEN_NOMATCH)), ite(ch(b, i + 1) == "=", ite(ch(b, i + 2) == "?", TOKEN_NEQCI, ite(ch(b, i + 2) == "#", TOKEN_NEQCS, TOKEN_NEQ)), TOKEN_NOT)) && tend(b, i) == i + ite(ch(b, i + 1) == "~", ite(ch(b, i + 2) == "?", 3, ite(ch(b, i + 2) == "#", 3, 2)), ite(ch(b, i + 1) == "=", ite(ch(b, i + 2) == "?", 3, ite(ch(b, i + 2) == "#", 3, 2)), 1))
axiom tok_op1: forall b []string, i int :: {tty(b, i)} ch(b, i) == "\"" ==> tty(b, i) == TOKEN_DQUOTE && tend(b, i) == i + 1
axiom tok_op1_e: forall b []string, i int :: {tend(b, i)} ch(b, i) == "\"" ==> tty(b, i) == TOKEN_DQUOTE && tend(b, i) == i + 1
axiom tok_op2: forall b []string, i int :: {tty(b, i)} ch(b, i) == "#" ==> tty(b, i) == ite(ch(b, i + 1) == "{", TOKEN_LITCOPEN, TOKEN_SHARP) && tend(b, i) == i + ite(ch(b, i + 1) == "{", 2, 1)
axiom tok_op2_e: forall b []string, i int :: {tend(b, i)} ch(b, i) == "#" ==> tty(b, i) == ite(ch(b, i + 1) == "{", TOKEN_LITCOPEN, TOKEN_SHARP) && tend(b, i) == i + ite(ch(b, i + 1) == "{", 2, 1)
axiom tok_op3: forall b []string, i int :: {tty(b, i)} ch(b, i) == "%" ==> tty(b, i) == TOKEN_PERCENT && tend(b, i) == i + 1
axiom tok_op3_e: forall b []string, i int :: {tend(b, i)} ch(b, i) == "%" ==> tty(b, i) == TOKEN_PERCENT && tend(b, i) == i + 1
axiom tok_op4: forall b []string, i int :: {tty(b, i)} ch(b, i) == "'" ==> tty(b, i) == TOKEN_SQUOTE && tend(b, i) == i + 1
axiom tok_op4_e: forall b []string, i int :: {tend(b, i)} ch(b, i) == "'" ==> tty(b, i) == TOKEN_SQUOTE && tend(b, i) == i + 1
axiom tok_op5: forall b []string, i int :: {tty(b, i)} ch(b, i) == "(" ==> tty(b, i) == TOKEN_POPEN && tend(b, i) == i + 1
axiom tok_op5_e: forall b []string, i int :: {tend(b, i)} ch(b, i) == "(" ==> tty(b, i) == TOKEN_POPEN && tend(b, i) == i + 1
axiom tok_op6: forall b []string, i int :: {tty(b, i)} ch(b, i) == ")" ==> tty(b, i) == TOKEN_PCLOSE && tend(b, i) == i + 1
axiom tok_op6_e: forall b []string, i int :: {tend(b, i)} ch(b, i) == ")" ==> tty(b, i) == TOKEN_PCLOSE && tend(b, i) == i + 1
axiom tok_op7: forall b []string, i int :: {tty(b, i)} ch(b, i) == "*" ==> tty(b, i) == TOKEN_STAR && tend(b, i) == i + 1
axiom tok_op7_e: forall b []string, i int :: {tend(b, i)} ch(b, i) == "*" ==> tty(b, i) == TOKEN_STAR && tend(b, i) == i + 1
axiom tok_op8: forall b []string, i int :: {tty(b, i)} ch(b, i) == "+" ==> tty(b, i) == TOKEN_PLUS && tend(b, i) == i + 1
axiom tok_op8_e: forall b []string, i int :: {tend(b, i)} ch(b, i) == "+" ==> tty(b, i) == TOKEN_PLUS && tend(b, i) == i + 1
axiom tok_op9: forall b []string, i int :: {tty(b, i)} ch(b, i) == "," ==> tty(b, i) == TOKEN_COMMA && tend(b, i) == i + 1
axiom tok_op9_e: forall b []string, i int :: {tend(b, i)} ch(b, i) == "," ==> tty(b, i) == TOKEN_COMMA && tend(b, i) == i + 1
axiom tok_op10: forall b []string, i int :: {tty(b, i)} ch(b, i) == "-" ==> tty(b, i) == ite(ch(b, i + 1) == ">", TOKEN_ARROW, TOKEN_MINUS) && tend(b, i) == i + ite(ch(b, i + 1) == ">", 2, 1)
axiom tok_op10_e: forall b []string, i int :: {tend(b, i)} ch(b, i) == "-" ==> tty(b, i) == ite(ch(b, i + 1) == ">", TOKEN_ARROW, TOKEN_MINUS) && tend(b, i) == i + ite(ch(b, i + 1) == ">", 2, 1)
axiom tok_op11: forall b []string, i int :: {tty(b, i)} ch(b, i) == "." ==> tty(b, i) == ite(ch(b, i + 1) == ".", ite(ch(b, i + 2) == ".", TOKEN_DOTDOTDOT, TOKEN_DOTDOT), TOKEN_DOT) && tend(b, i) == i + ite(ch(b, i + 1) == ".", ite(ch(b, i + 2) == ".", 3, 2), 1)
axiom tok_op11_e: forall b []string, i int :: {tend(b, i)} ch(b, i) == "." ==> tty(b, i) == ite(ch(b, i + 1) == ".", ite(ch(b, i + 2) == ".", TOKEN_DOTDOTDOT, TOKEN_DOTDOT), TOKEN_DOT) && tend(b, i) == i + ite(ch(b, i + 1) == ".", ite(ch(b, i + 2) == ".", 3, 2), 1)
axiom tok_op12: forall b []string, i int :: {tty(b, i)} ch(b, i) == "/" ==> tty(b, i) == TOKEN_SLASH && tend(b, i) == i + 1
axiom tok_op12_e: forall b []string, i int :: {tend(b, i)} ch(b, i) == "/" ==> tty(b, i) == TOKEN_SLASH && tend(b, i) == i + 1
axiom tok_op13: forall b []string, i int :: {tty(b, i)} ch(b, i) == ":" ==> tty(b, i) == TOKEN_COLON && tend(b, i) == i + 1
axiom tok_op13_e: forall b []string, i int :: {tend(b, i)} ch(b, i) == ":" ==> tty(b, i) == TOKEN_COLON && tend(b, i) == i + 1
axiom tok_op14: forall b []string, i int :: {tty(b, i)} ch(b, i) == ";" ==> tty(b, i) == TOKEN_SEMICOLON && tend(b, i) == i + 1
axiom tok_op14_e: forall b []string, i int :: {tend(b, i)} ch(b, i) == ";" ==> tty(b, i) == TOKEN_SEMICOLON && tend(b, i) == i + 1
axiom tok_op15: forall b []string, i int :: {tty(b, i)} ch(b, i) == "<" ==> tty(b, i) == ite(ch(b, i + 1) == "?", TOKEN_LTCI, ite(ch(b, i + 1) == "=", ite(ch(b, i + 2) == "?", TOKEN_LTEQCI, ite(ch(b, i + 2) == "#", TOKEN_LTEQCS, TOKEN_LTEQ)), ite(ch(b, i + 1) == "#", TOKEN_LTCS, TOKEN_LT))) && tend(b, i) == i + ite(ch(b, i + 1) == "?", 2, ite(ch(b, i + 1) == "=", ite(ch(b, i + 2) == "?", 3, ite(ch(b, i + 2) == "#", 3, 2)), ite(ch(b, i + 1) == "#", 2, 1)))
axiom tok_op15_e: forall b []string, i int :: {tend(b, i)} ch(b, i) == "<" ==> tty(b, i) == ite(ch(b, i + 1) == "?", TOKEN_LTCI, ite(ch(b, i + 1) == "=", ite(ch(b, i + 2) == "?", TOKEN_LTEQCI, ite(ch(b, i + 2) == "#", TOKEN_LTEQCS, TOKEN_LTEQ)), ite(ch(b, i + 1) == "#", TOKEN_LTCS, TOKEN_LT))) && tend(b, i) == i + ite(ch(b, i + 1) == "?", 2, ite(ch(b, i + 1) == "=", ite(ch(b, i + 2) == "?", 3, ite(ch(b, i + 2) == "#", 3, 2)), ite(ch(b, i + 1) == "#", 2, 1)))
axiom tok_op16: forall b []string, i int :: {tty(b, i)} ch(b, i) == "=" ==> tty(b, i) == ite(ch(b, i + 1) == "~", ite(ch(b, i + 2) == "?", TOKEN_MATCHCI, ite(ch(b, i + 2) == "#", TOKEN_MATCHCS, TOKEN_MATCH)), ite(ch(b, i + 1) == "=", ite(ch(b, i + 2) == "?", TOKEN_EQEQCI, ite(ch(b, i + 2) == "#", TOKEN_EQEQCS, TOKEN_EQEQ)), TOKEN_EQ)) && tend(b, i) == i + ite(ch(b, i + 1) == "~", ite(ch(b, i + 2) == "?", 3, ite(ch(b, i + 2) == "#", 3, 2)), ite(ch(b, i + 1) == "=", ite(ch(b, i + 2) == "?", 3, ite(ch(b, i + 2) == "#", 3, 2)), 1))
axiom tok_op16_e: forall b []string, i int :: {tend(b, i)} ch(b, i) == "=" ==> tty(b, i) == ite(ch(b, i + 1) == "~", ite(ch(b, i + 2) == "?", TOKEN_MATCHCI, ite(ch(b, i + 2) == "#", TOKEN_MATCHCS, TOKEN_MATCH)), ite(ch(b, i + 1) == "=", ite(ch(b, i + 2) == "?", TOKEN_EQEQCI, ite(ch(b, i + 2) == "#", TOKEN_EQEQCS, TOKEN_EQEQ)), TOKEN_EQ)) && tend(b, i) == i + ite(ch(b, i + 1) == "~", ite(ch(b, i + 2) == "?", 3, ite(ch(b, i + 2) == "#", 3, 2)), ite(ch(b, i + 1) == "=", ite(ch(b, i + 2) == "?", 3, ite(ch(b, i + 2) == "#", 3, 2)), 1))
axiom tok_op17: forall b []string, i int :: {tty(b, i)} ch(b, i) == ">" ==> tty(b, i) == ite(ch(b, i + 1) == "?", TOKEN_GTCI, ite(ch(b, i + 1) == "=", ite(ch(b, i + 2) == "?", TOKEN_GTEQCI, ite(ch(b, i + 2) == "#", TOKEN_GTEQCS, TOKEN_GTEQ)), ite(ch(b, i + 1) == "#", TOKEN_GTCS, TOKEN_GT))) && tend(b, i) == i + ite(ch(b, i + 1) == "?", 2, ite(ch(b, i + 1) == "=", ite(ch(b, i + 2) == "?", 3, ite(ch(b, i + 2) == "#", 3, 2)), ite(ch(b, i + 1) == "#", 2, 1)))
axiom tok_op17_e: forall b []string, i int :: {tend(b, i)} ch(b, i) == ">" ==> tty(b, i) == ite(ch(b, i + 1) == "?", TOKEN_GTCI, ite(ch(b, i + 1) == "=", ite(ch(b, i + 2) == "?", TOKEN_GTEQCI, ite(ch(b, i + 2) == "#", TOKEN_GTEQCS, TOKEN_GTEQ)), ite(ch(b, i + 1) == "#", TOKEN_GTCS, TOKEN_GT))) && tend(b, i) == i + ite(ch(b, i + 1) == "?", 2, ite(ch(b, i + 1) == "=", ite(ch(b, i + 2) == "?", 3, ite(ch(b, i + 2) == "#", 3, 2)), ite(ch(b, i + 1) == "#", 2, 1)))
axiom tok_op18: forall b []string, i int :: {tty(b, i)} ch(b, i) == "?" ==> tty(b, i) == TOKEN_QUESTION && tend(b, i) == i + 1
axiom tok_op18_e: forall b []string, i int :: {tend(b, i)} ch(b, i) == "?" ==> tty(b, i) == TOKEN_QUESTION && tend(b, i) == i + 1
axiom tok_op19: forall b []string, i int :: {tty(b, i)} ch(b, i) == "[" ==> tty(b, i) == TOKEN_SQOPEN && tend(b, i) == i + 1
axiom tok_op19_e: forall b []string, i int :: {tend(b, i)} ch(b, i) == "[" ==> tty(b, i) == TOKEN_SQOPEN && tend(b, i) == i + 1
axiom tok_op20: forall b []string, i int :: {tty(b, i)} ch(b, i) == "]" ==> tty(b, i) == TOKEN_SQCLOSE && tend(b, i) == i + 1
axiom tok_op20_e: forall b []string, i int :: {tend(b, i)} ch(b, i) == "]" ==> tty(b, i) == TOKEN_SQCLOSE && tend(b, i) == i + 1
axiom tok_op21: forall b []string, i int :: {tty(b, i)} ch(b, i) == "`" ==> tty(b, i) == TOKEN_BACKTICK && tend(b, i) == i + 1
axiom tok_op21_e: forall b []string, i int :: {tend(b, i)} ch(b, i) == "`" ==> tty(b, i) == TOKEN_BACKTICK && tend(b, i) == i + 1
axiom tok_op22: forall b []string, i int :: {tty(b, i)} ch(b, i) == "{" ==> tty(b, i) == TOKEN_COPEN && tend(b, i) == i + 1
axiom tok_op22_e: forall b []string, i int :: {tend(b, i)} ch(b, i) == "{" ==> tty(b, i) == TOKEN_COPEN && tend(b, i) == i + 1
axiom tok_op23: forall b []string, i int :: {tty(b, i)} ch(b, i) == "|" ==> tty(b, i) == ite(ch(b, i + 1) == "|", TOKEN_OROR, TOKEN_OR) && tend(b, i) == i + ite(ch(b, i + 1) == "|", 2, 1)
axiom tok_op23_e: forall b []string, i int :: {tend(b, i)} ch(b, i) == "|" ==> tty(b, i) == ite(ch(b, i + 1) == "|", TOKEN_OROR, TOKEN_OR) && tend(b, i) == i + ite(ch(b, i + 1) == "|", 2, 1)
axiom tok_op24: forall b []string, i int :: {tty(b, i)} ch(b, i) == "}" ==> tty(b, i) == TOKEN_CCLOSE && tend(b, i) == i + 1
axiom tok_op24_e: forall b []string, i int :: {tend(b, i)} ch(b, i) == "}" ==> tty(b, i) == TOKEN_CCLOSE && tend(b, i) == i + 1
axiom tok_none: forall b []string, i int :: {tty(b, i)} ch(b, i) != "<EOF>" && ch(b, i) != "<EOL>" && !rx(ch(b, i), "^[ \\t]$") && !rx(ch(b, i), "^[0-9A-Za-z_]$") && ch(b, i) != "!" && ch(b, i) != "\"" && ch(b, i) != "#" && ch(b, i) != "%" && ch(b, i) != "'" && ch(b, i) != "(" && ch(b, i) != ")" && ch(b, i) != "*" && ch(b, i) != "+" && ch(b, i) != "," && ch(b, i) != "-" && ch(b, i) != "." && ch(b, i) != "/" && ch(b, i) != ":" && ch(b, i) != ";" && ch(b, i) != "<" && ch(b, i) != "=" && ch(b, i) != ">" && ch(b, i) != "?" && ch(b, i) != "[" && ch(b, i) != "]" && ch(b, i) != "`" && ch(b, i) != "{" && ch(b, i) != "|" && ch(b, i) != "}" && ch(b, i) != "&" && ch(b, i) != "$" && ch(b, i) != "@" ==> tty(b, i) == 0 - 1
axiom tok_none_e: forall b []string, i int :: {tend(b, i)} ch(b, i) != "<EOF>" && ch(b, i) != "<EOL>" && !rx(ch(b, i), "^[ \\t]$") && !rx(ch(b, i), "^[0-9A-Za-z_]$") && ch(b, i) != "!" && ch(b, i) != "\"" && ch(b, i) != "#" && ch(b, i) != "%" && ch(b, i) != "'" && ch(b, i) != "(" && ch(b, i) != ")" && ch(b, i) != "*" && ch(b, i) != "+" && ch(b, i) != "," && ch(b, i) != "-" && ch(b, i) != "." && ch(b, i) != "/" && ch(b, i) != ":" && ch(b, i) != ";" && ch(b, i) != "<" && ch(b, i) != "=" && ch(b, i) != ">" && ch(b, i) != "?" && ch(b, i) != "[" && ch(b, i) != "]" && ch(b, i) != "`" && ch(b, i) != "{" && ch(b, i) != "|" && ch(b, i) != "}" && ch(b, i) != "&" && ch(b, i) != "$" && ch(b, i) != "@" ==> tty(b, i) == 0 - 1

spec istok(b []string, i int, t *ExprToken) bool = t != nil && t.type_ == tty(b, i) && t.value == ite(tty(b, i) == TOKEN_EOF, "<EOF>", sub(b, i, tend(b, i))) && t.pos != nil && t.pos.i == i

func ExprTokenizer.get2(self) -> r
  reads [C05] ExprTokenizer.reader StringReader.i StringReader.buf StringReader.pos pos.i pos.lnum pos.col pos.offset
  panics e: tty(self.reader.buf, old(self.reader.i)) == 0 - 1
  ensures [C04] tty(self.reader.buf, old(self.reader.i)) != 0 - 1
  ensures [C04] self.reader.i == tend(self.reader.buf, old(self.reader.i))
  ensures [C04] istok(self.reader.buf, old(self.reader.i), r)

// the token read from i on
spec tat(b []string, i int, t *ExprToken) bool = istok(b, whe(b, i), t)
inv [C05] ExprTokenizer t: t.cache != nil
inv [C05] ExprTokenizer t: forall k int :: {has(t.cache, k)} has(t.cache, k) ==> len(t.cache[k]) == 2 && tagis(t.cache[k][0], int) && as(t.cache[k][0], int) == tend(t.reader.buf, whe(t.reader.buf, k)) && tagis(t.cache[k][1], *ExprToken) && tat(t.reader.buf, k, as(t.cache[k][1], *ExprToken)) && tty(t.reader.buf, whe(t.reader.buf, k)) != 0 - 1

func ExprTokenizer.get(self) -> r
  panics e: tty(self.reader.buf, whe(self.reader.buf, old(self.reader.i))) == 0 - 1
  ensures [C05] tty(self.reader.buf, whe(self.reader.buf, old(self.reader.i))) != 0 - 1
  ensures [C05] self.reader.i == tend(self.reader.buf, whe(self.reader.buf, old(self.reader.i)))
  ensures [C05] tat(self.reader.buf, old(self.reader.i), r)
func ExprTokenizer.peek(self) -> r
  panics e: tty(self.reader.buf, whe(self.reader.buf, old(self.reader.i))) == 0 - 1
  ensures [C05] tty(self.reader.buf, whe(self.reader.buf, old(self.reader.i))) != 0 - 1
  ensures [C05] self.reader.i == old(self.reader.i)
  ensures [C05] tat(self.reader.buf, old(self.reader.i), r)

// the place of the quote that ends a 'literal' whose text starts at k; -1: none on the line
spec eolc(b []string, k int) bool = ch(b, k) == "<EOF>" || ch(b, k) == "<EOL>"
ufun sqe(b []string, k int) int
axiom sqe_end: forall b []string, k int :: {sqe(b, k), b[k]} eolc(b, k) ==> sqe(b, k) == 0 - 1
axiom sqe_eof: forall b []string, k int :: {sqe(b, k)} k >= len(b) ==> sqe(b, k) == 0 - 1
axiom sqe_q: forall b []string, k int :: {sqe(b, k), b[k], b[k + 1]} k + 1 < len(b) && b[k] == "'" ==> sqe(b, k) == ite(b[k + 1] == "'", sqe(b, k + 2), k)
axiom sqe_l: forall b []string, k int :: {sqe(b, k), b[k]} k + 1 == len(b) && b[k] == "'" ==> sqe(b, k) == k
axiom sqe_c: forall b []string, k int :: {sqe(b, k), b[k]} !eolc(b, k) && b[k] != "'" ==> sqe(b, k) == sqe(b, k + 1)
ufun dqe(b []string, k int) int
axiom dqe_end: forall b []string, k int :: {dqe(b, k), b[k]} eolc(b, k) ==> dqe(b, k) == 0 - 1
axiom dqe_eof: forall b []string, k int :: {dqe(b, k)} k >= len(b) ==> dqe(b, k) == 0 - 1
axiom dqe_q: forall b []string, k int :: {dqe(b, k), b[k]} k < len(b) && b[k] == "\"" ==> dqe(b, k) == k
axiom dqe_b: forall b []string, k int :: {dqe(b, k), b[k], b[k + 1]} k + 1 < len(b) && b[k] == "\\" ==> dqe(b, k) == ite(eolc(b, k + 1), 0 - 1, dqe(b, k + 2))
axiom dqe_l: forall b []string, k int :: {dqe(b, k), b[k]} k + 1 == len(b) && b[k] == "\\" ==> dqe(b, k) == 0 - 1
axiom dqe_c: forall b []string, k int :: {dqe(b, k), b[k]} !eolc(b, k) && b[k] != "\"" && b[k] != "\\" ==> dqe(b, k) == dqe(b, k + 1)
func ExprTokenizer.get_sstring(self) -> r
  panics e: let(b, self.reader.buf, let(q, whe(b, old(self.reader.i)), ch(b, q) != "'" || sqe(b, q + 1) == 0 - 1))
  ensures [C04] let(b, self.reader.buf, let(q, whe(b, old(self.reader.i)), ch(b, q) == "'" && self.reader.i == sqe(b, q + 1) + 1 && r == sub(b, q + 1, sqe(b, q + 1))))
  loopcand s string : let(b, self.reader.buf, let(q, whe(b, old(self.reader.i)), s == sub(b, q + 1, self.reader.i)))
  loopcand : let(b, self.reader.buf, let(q, whe(b, old(self.reader.i)), q + 1 <= self.reader.i && sqe(b, q + 1) == sqe(b, self.reader.i)))
func ExprTokenizer.get_dstring(self) -> r
  panics e: let(b, self.reader.buf, let(q, whe(b, old(self.reader.i)), ch(b, q) != "\"" || dqe(b, q + 1) == 0 - 1))
  ensures [C04] let(b, self.reader.buf, let(q, whe(b, old(self.reader.i)), ch(b, q) == "\"" && self.reader.i == dqe(b, q + 1) + 1 && r == sub(b, q + 1, dqe(b, q + 1))))
  loopcand s string : let(b, self.reader.buf, let(q, whe(b, old(self.reader.i)), s == sub(b, q + 1, self.reader.i)))
  loopcand : let(b, self.reader.buf, let(q, whe(b, old(self.reader.i)), q + 1 <= self.reader.i && dqe(b, q + 1) == dqe(b, self.reader.i)))

// the word of a #{word: ...} key
ufun kend(b []string, i int) int
axiom kend_b: forall b []string, i int :: {kend(b, i)} i <= kend(b, i) && (kend(b, i) <= len(b) || kend(b, i) == i) && !(kend(b, i) < len(b) && (rx(b[kend(b, i)], "^[0-9A-Za-z]$") || b[kend(b, i)] == "_" || b[kend(b, i)] == "-"))
axiom kend_i: forall b []string, i int, k int :: {kend(b, i), b[k]} i <= k && k < kend(b, i) ==> (rx(b[k], "^[0-9A-Za-z]$") || b[k] == "_" || b[k] == "-")
func ExprTokenizer.parse_dict_literal_key(self) -> r
  panics e: let(b, self.reader.buf, let(q, whe(b, old(self.reader.i)), kend(b, q) == q || eolc(b, kend(b, q))))
  ensures [C04] let(b, self.reader.buf, let(q, whe(b, old(self.reader.i)), kend(b, q) > q))
  ensures [C04] let(b, self.reader.buf, let(q, whe(b, old(self.reader.i)), self.reader.i == kend(b, q)))
  ensures [C04] let(b, self.reader.buf, let(q, whe(b, old(self.reader.i)), r != nil && r.type_ == NODE_STRING))
  ensures [C04] let(b, self.reader.buf, let(q, whe(b, old(self.reader.i)), tagis(r.value, string) && as(r.value, string) == "'" + sub(b, q, kend(b, q)) + "'"))
  loopcand s string : let(b, self.reader.buf, let(q, whe(b, old(self.reader.i)), s == sub(b, q, self.reader.i)))
  loopcand : let(b, self.reader.buf, let(q, whe(b, old(self.reader.i)), q < self.reader.i && self.reader.i <= kend(b, q)))

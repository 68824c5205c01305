package main

import "strings"

// vimToGo translates a Vim pattern (the subset used by the parser, "very
// magic" included) into Go syntax. This is the specification of what a pattern
// means; the repository's own table is checked against it.
func vimToGo(p string) (string, bool) {
	vm := false
	if strings.HasPrefix(p, "\\v") {
		vm, p = true, p[2:]
	}
	var b strings.Builder
	q := "[]{}()*+?.^$|\\"
	lit := func(c byte) {
		if strings.IndexByte(q, c) >= 0 {
			b.WriteByte('\\')
		}
		b.WriteByte(c)
	}
	class := map[byte]string{'s': "[ \\t]", 'S': "[^ \\t]", 'd': "[0-9]", 'x': "[0-9A-Fa-f]", 'o': "[0-7]", 'w': "[0-9A-Za-z_]", 'h': "[A-Za-z_]", 'a': "[A-Za-z]"}
	i := 0
	for i < len(p) {
		c := p[i]
		switch {
		case c == '[':
			// collection
			j := i + 1
			if j < len(p) && p[j] == '^' {
				j++
			}
			if j < len(p) && p[j] == ']' {
				j++
			}
			for j < len(p) && p[j] != ']' {
				j++
			}
			if j >= len(p) {
				return "", false
			}
			b.WriteString(strings.ReplaceAll(p[i:j+1], "\\t", "\t"))
			i = j + 1
			continue
		case c == '\\' && i+1 < len(p):
			d := p[i+1]
			i += 2
			if s, ok := class[d]; ok {
				b.WriteString(s)
				continue
			}
			switch d {
			case '<', '>':
				b.WriteString("\\b")
			case '(':
				b.WriteString("(")
			case ')':
				b.WriteString(")")
			case '|':
				b.WriteString("|")
			case '+':
				b.WriteString("+")
			case '?', '=':
				b.WriteString("?")
			default:
				lit(d)
			}
			continue
		case c == '%' && vm && i+1 < len(p):
			if p[i+1] == '(' {
				b.WriteString("(?:")
				i += 2
				continue
			}
			if p[i+1] == '[' {
				// %[abc]: optional sequence
				j := strings.IndexByte(p[i:], ']')
				seq := p[i+2 : i+j]
				for range seq {
					b.WriteString("(?:")
				}
				s := ""
				for k := len(seq) - 1; k >= 0; k-- {
					s = "(?:" + string(seq[k]) + s + ")?"
				}
				t := b.String()
				b.Reset()
				b.WriteString(t[:len(t)-3*len(seq)] + s)
				i += j + 1
				continue
			}
			return "", false
		case vm && strings.IndexByte("()|+?=*.^$", c) >= 0:
			if c == '=' {
				b.WriteByte('?')
			} else {
				b.WriteByte(c)
			}
		case c == '^' && (i == 0 || strings.HasSuffix(p[:i], "\\|") || strings.HasSuffix(p[:i], "\\(")):
			b.WriteByte('^')
		case c == '$' && (i == len(p)-1 || strings.HasPrefix(p[i+1:], "\\|") || strings.HasPrefix(p[i+1:], "\\)")):
			b.WriteByte('$')
		case c == '*' && i > 0 && b.String() != "^", c == '.':
			b.WriteByte(c)
		default:
			lit(c)
		}
		i++
	}
	return b.String(), true
}

package vimlparser

import (
	"bufio"
	"fmt"
	"io"
	"math"

	"ref.local/vp/ast"
	internal "ref.local/vp/go"
)

// ErrVimlParser represents VimLParser error.
type ErrVimlParser struct {
	Filename string
	Offset   int
	Line     int
	Column   int
	Msg      string
}

func (e *ErrVimlParser) Error() string {
	if e.Filename != "" {
		return fmt.Sprintf("%v:%d:%d: vimlparser: %v", e.Filename, e.Line, e.Column, e.Msg)
	}
	return fmt.Sprintf("vimlparser: %v: line %d col %d", e.Msg, e.Line, e.Column)
}

// ParseOption is option for Parse().
type ParseOption struct {
	Neovim bool
}

// ParseFile parses Vim script.
// filename can be empty.
func ParseFile(r io.Reader, filename string, opt *ParseOption) (node *ast.File, err error) {
	defer func() {
		if r := recover(); r != nil {
			node = nil
			if e, ok := r.(*internal.ParseError); ok {
				err = &ErrVimlParser{
					Filename: filename,
					Offset:   e.Offset,
					Line:     e.Line,
					Column:   e.Column,
					Msg:      e.Msg,
				}
			} else {
				err = fmt.Errorf("%v", r)
			}
			// log.Printf("%s", debug.Stack())
		}
	}()
	lines, err := readlines(r)
	if err != nil {
		return nil, err
	}
	reader := internal.NewStringReader(lines)
	neovim := false
	if opt != nil {
		neovim = opt.Neovim
	}
	node = internal.NewVimLParser(neovim).Parse(reader, filename).(*ast.File)
	return
}

// ParseExpr parses Vim script expression.
func ParseExpr(r io.Reader) (node ast.Expr, err error) {
	defer func() {
		if r := recover(); r != nil {
			node = nil
			if e, ok := r.(*internal.ParseError); ok {
				err = &ErrVimlParser{
					Offset: e.Offset,
					Line:   e.Line,
					Column: e.Column,
					Msg:    e.Msg,
				}
			} else {
				err = fmt.Errorf("%v", r)
			}
			// log.Printf("%s", debug.Stack())
		}
	}()
	lines, err := readlines(r)
	if err != nil {
		return nil, err
	}
	reader := internal.NewStringReader(lines)
	p := internal.NewExprParser(reader)
	node = p.Parse()
	return
}

func readlines(r io.Reader) ([]string, error) {
	lines := []string{}
	scanner := bufio.NewScanner(r)
	scanner.Buffer(nil, math.MaxInt32) // no practical limit on the line length
	for scanner.Scan() {
		lines = append(lines, scanner.Text())
	}
	return lines, scanner.Err()
}

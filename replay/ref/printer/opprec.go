package printer

import (
	"fmt"

	"ref.local/vp/ast"
	"ref.local/vp/token"
)

// opprecCompare is the precedence of comparison operators.
const opprecCompare = 4

// opprec returns operator precedence. See also go/gocompiler.vim
func opprec(op ast.Expr) int {
	switch n := op.(type) {
	case *ast.TernaryExpr, *ast.ParenExpr:
		return 1
	case *ast.BinaryExpr:
		switch n.Op {
		case token.OROR:
			return 2
		case token.ANDAND:
			return 3
		case token.EQEQ,
			token.EQEQCI,
			token.EQEQCS,
			token.NEQ,
			token.NEQCI,
			token.NEQCS,
			token.GT,
			token.GTCI,
			token.GTCS,
			token.GTEQ,
			token.GTEQCI,
			token.GTEQCS,
			token.LT,
			token.LTCI,
			token.LTCS,
			token.LTEQ,
			token.LTEQCI,
			token.LTEQCS,
			token.MATCH,
			token.MATCHCI,
			token.MATCHCS,
			token.NOMATCH,
			token.NOMATCHCI,
			token.NOMATCHCS,
			token.IS,
			token.ISCI,
			token.ISCS,
			token.ISNOT,
			token.ISNOTCI,
			token.ISNOTCS:
			return opprecCompare
		case token.PLUS, token.MINUS, token.DOT:
			return 5
		case token.STAR, token.SLASH, token.PERCENT:
			return 6
		default:
			panic(printError{fmt.Errorf("unexpected token of BinaryExpr: %v", n.Op)})
		}
	case *ast.UnaryExpr:
		switch n.Op {
		case token.NOT, token.MINUS, token.PLUS:
			return 7
		default:
			panic(printError{fmt.Errorf("unexpected token of UnaryExpr: %v", n.Op)})
		}
	case *ast.SubscriptExpr, *ast.SliceExpr, *ast.CallExpr, *ast.DotExpr, *ast.MethodExpr:
		return 8
	case *ast.BasicLit, *ast.Ident, *ast.List, *ast.Dict, *ast.CurlyName, *ast.HeredocExpr:
		return 9
	case *ast.CurlyNameExpr, *ast.CurlyNameLit, *ast.LambdaExpr:
		panic(printError{fmt.Errorf("precedence is undefined for expr: %T", n)})
	default:
		panic(printError{fmt.Errorf("unexpected expr: %T", n)})
	}
}

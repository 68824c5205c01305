// C17: who may write what.
//
// Objects of the immutable types are shared: between calls (the command and
// function tables, the caller's option) or with the caller (the trees).  They
// are written only by the function that allocates them.  All other structs of
// the library belong to one call; no package variable may reach them.
package root
immutable [C17] ast.* root.ParseOption root.ErrVimlParser go.Cmd go.ParseError
// External packages whose functions depend on their arguments only.
pureext bufio bytes errors fmt io math reflect regexp strconv strings unicode unicode/utf8

package main

// Models of library functions (trusted).

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (u *Unit) model(fr *Frame, fn *ssa.Function, args []Value) (Value, bool) {
	c := u.c
	switch fn.String() {
	case "strconv.Itoa":
		u.trusted["strconv.Itoa(n) is the decimal spelling of n"] = true
		return Value{T: u.itoa(args[0].T)}, true
	case "fmt.Sprintf":
		if t, ok := u.sprintf(fr, args[0].T, args[1].T); ok {
			u.trusted["fmt.Sprintf with a constant format concatenates the texts of its operands"] = true
			return Value{T: t}, true
		}
	case "fmt.Fprint", "fmt.Fprintf", "fmt.Fprintln", "io.WriteString":
		k := u.w.pseudo("$write", pkgOf(fr.fn))
		if k == nil {
			break
		}
		var t *Term
		ok := true
		switch fn.Name() {
		case "Fprint", "Fprintln":
			t, ok = u.sprint(args[1].T, fn.Name() == "Fprintln")
		case "Fprintf":
			t, ok = u.sprintf(fr, args[1].T, args[2].T)
		case "WriteString":
			t = args[1].T
		}
		if !ok {
			break
		}
		u.trusted[fn.String()+" writes the texts of its operands"] = true
		if n, ok := u.itag(args[0].T).isInt(); ok && n > 0 && int(n) < len(u.w.tagTy) {
			// a writer of a known type: its WriteString
			if kt := u.w.tagTy[n]; kt != nil {
				if k2 := u.w.pseudo("("+kt.String()+").WriteString", pkgOf(fr.fn)); k2 != nil {
					sig := types.NewSignatureType(nil, nil, nil, types.NewTuple(types.NewVar(0, nil, "b", kt), types.NewVar(0, nil, "s", tStr)), fn.Signature.Results(), false)
					return u.applyContract(fr, nil, k2, []Value{{T: u.unbox(u.ival(args[0].T), u.sortOf(kt))}, {T: t}}, []types.Type{kt, tStr}, sig, fn.String()), true
				}
			}
		}
		sig := types.NewSignatureType(nil, nil, nil, types.NewTuple(types.NewVar(0, nil, "w", fn.Signature.Params().At(0).Type()), types.NewVar(0, nil, "s", tStr)), fn.Signature.Results(), false)
		return u.applyContract(fr, nil, k, []Value{args[0], {T: t}}, []types.Type{fn.Signature.Params().At(0).Type(), tStr}, sig, fn.String()), true
	case "fmt.Errorf", "errors.New":
		u.trusted[fn.String()+" returns a non-nil error"] = true
		v := u.freshResults(fn.Signature, "err")
		u.assume(c.Not(c.Eq(u.itag(v.T), c.Int(0))))
		if fn.String() == "fmt.Errorf" {
			u.assume(c.Eq(u.itag(v.T), c.Int(int64(u.w.tagOf(errType)))))
		}
		return v, true
	case "(*regexp.Regexp).MatchString":
		u.trusted["regexp: MatchString tests membership in the language of the pattern"] = true
		return Value{T: u.rxMatch(args[0].T, args[1].T)}, true
	case "regexp.MatchString":
		if args[0].T.isStr() {
			u.trusted["regexp: MatchString tests membership in the language of the pattern"] = true
			return Value{Tup: []Value{{T: u.rxTest(args[1].T, int64(u.w.rxGoID(args[0].T.Lit)))}, {T: u.nilI()}}}, true
		}
	case "regexp.MustCompile":
		if args[0].T.isStr() {
			if _, ok := rxCompile(args[0].T.Lit); ok {
				return Value{T: u.rxObj(args[0].T.Lit)}, true
			}
		}
	case "strings.Join":
		// a literal number of parts
		s, sep := args[0].T, args[1].T
		if n, ok := c.SeqLen(s).isInt(); ok && n <= 32 {
			r := c.Str("")
			for i := int64(0); i < n; i++ {
				if i > 0 {
					r = c.Scat(r, sep)
				}
				r = c.Scat(r, c.SeqAt(s, c.Int(i)))
			}
			u.trusted["strings.Join concatenates its parts"] = true
			return Value{T: r}, true
		}
		u.trusted["strings.Join is a function of its arguments"] = true
		f := "join"
		c.Fun(f, []string{s.Sort, "Str"}, "Str")
		return Value{T: c.mk(f, "Str", s, sep)}, true
	case "strings.Repeat":
		c.Fun("repeat", []string{"Str", "Int"}, "Str")
		u.oblige("requires", u.safetyTags(), c.Le(c.Int(0), args[1].T), "strings.Repeat: count >= 0")
		return Value{T: c.mk("repeat", "Str", args[0].T, args[1].T)}, true
	case "strings.ToLower":
		if args[0].T.isStr() {
			return Value{T: c.Str(strings.ToLower(args[0].T.Lit))}, true
		}
		c.Fun("tolower", []string{"Str"}, "Str")
		return Value{T: c.mk("tolower", "Str", args[0].T)}, true
	case "os.Exit":
		u.trusted["os.Exit does not return"] = true
		return Value{}, false
	}
	return Value{}, false
}

var errType types.Type = types.NewPointer(types.NewNamed(types.NewTypeName(0, types.NewPackage("fmt", "fmt"), "wrapError", nil), types.NewStruct(nil, nil), nil))

func (u *Unit) sprintf(fr *Frame, f, args *Term) (*Term, bool) {
	c := u.c
	if !f.isStr() {
		return nil, false
	}
	n, ok := c.SeqLen(args).isInt()
	if !ok {
		return nil, false
	}
	r := c.Str("")
	k := int64(0)
	s := f.Lit
	for i := 0; i < len(s); i++ {
		if s[i] != '%' {
			r = c.Scat(r, c.Str(s[i:i+1]))
			continue
		}
		i++
		if i >= len(s) {
			return nil, false
		}
		if s[i] == '%' {
			r = c.Scat(r, c.Str("%"))
			continue
		}
		if k >= n {
			return nil, false
		}
		a := c.SeqAt(args, c.Int(k))
		k++
		tag := u.itag(a)
		tn, known := tag.isInt()
		var at types.Type
		if known && tn > 0 && int(tn) < len(u.w.tagTy) {
			at = u.w.tagTy[tn]
		}
		bt, _ := at.(*types.Basic)
		switch s[i] {
		case 's', 'v':
			switch {
			case bt != nil && bt.Info()&types.IsString != 0:
				r = c.Scat(r, u.unbox(u.ival(a), "Str"))
			case bt != nil && bt.Info()&types.IsInteger != 0 && s[i] == 'v':
				r = c.Scat(r, u.itoa(u.ival(a)))
			case u.stringer(at) != nil:
				v := u.callFn(fr, u.stringer(at), []Value{{T: u.unbox(u.ival(a), u.sortOf(at))}}, nil, u.stringer(at).Signature)
				r = c.Scat(r, v.T)
			default:
				fn := "fmt_" + string(s[i])
				c.Fun(fn, []string{"Iface"}, "Str")
				t := c.mk(fn, "Str", a)
				u.assume(c.Implies(c.Eq(tag, c.Int(int64(u.w.tagOf(tStr)))), c.Eq(t, u.unbox(u.ival(a), "Str"))))
				r = c.Scat(r, t)
			}
		case 'd':
			if bt != nil && bt.Info()&types.IsInteger != 0 {
				r = c.Scat(r, u.itoa(u.ival(a)))
			} else {
				c.Fun("fmt_d", []string{"Iface"}, "Str")
				r = c.Scat(r, c.mk("fmt_d", "Str", a))
			}
		case 'T':
			r = c.Scat(r, u.typeName(tag))
		default:
			return nil, false
		}
	}
	if k != n {
		return nil, false
	}
	return r, true
}

// stringer: the String method of a repository type that is not a pointer.
func (u *Unit) stringer(t types.Type) *ssa.Function {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return nil
	}
	sel := u.w.Prog.MethodSets.MethodSet(t).Lookup(n.Obj().Pkg(), "String")
	if sel == nil {
		return nil
	}
	f := u.w.Prog.MethodValue(sel)
	if f == nil || !inRepo(f) || f.Signature.Params().Len() != 0 || f.Signature.Results().Len() != 1 {
		return nil
	}
	return f
}

// sprint: the text of operands that are all strings.
func (u *Unit) sprint(args *Term, ln bool) (*Term, bool) {
	c := u.c
	n, ok := c.SeqLen(args).isInt()
	if !ok {
		return nil, false
	}
	r := c.Str("")
	for k := int64(0); k < n; k++ {
		a := c.SeqAt(args, c.Int(k))
		tag := u.itag(a)
		tn, known := tag.isInt()
		if !known || int(tn) != u.w.tagOf(tStr) {
			return nil, false
		}
		if k > 0 && ln {
			r = c.Scat(r, c.Str(" "))
		}
		r = c.Scat(r, u.unbox(u.ival(a), "Str"))
	}
	if ln {
		r = c.Scat(r, c.Str("\n"))
	}
	return r, true
}

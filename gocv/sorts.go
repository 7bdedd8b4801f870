package main

import (
	"fmt"
	"go/types"
	"strings"
)

const (
	sIface = "Iface"
	sSlice = "Slice"
	sBS    = "BS"
	sF64   = "F64"
)

var usorts = map[string]bool{sF64: true} // uninterpreted sorts in use

// fdecls are uninterpreted functions in use: name -> (arg sorts, result).
type fdecl struct {
	args []string
	res  string
}

var fdecls = map[string]fdecl{}

func init() {
	declDT(&dtDecl{sort: sIface, ctor: "mkIface", fields: []string{"itag", "ival"}, sorts: []string{sInt, sInt}})
	declDT(&dtDecl{sort: sSlice, ctor: "mkSlice", fields: []string{"sref", "soff", "slen", "scap"}, sorts: []string{sInt, sInt, sInt, sInt}})
	declDT(&dtDecl{sort: sBS, ctor: "mkBS", fields: []string{"bnil", "bstr"}, sorts: []string{sBool, sStr}})
}

func ufn(name, res string, args ...*Term) *Term {
	if _, ok := fdecls[name]; !ok {
		d := fdecl{res: res}
		for _, a := range args {
			d.args = append(d.args, a.Sort)
		}
		fdecls[name] = d
	}
	d := fdecls[name]
	if len(d.args) != len(args) {
		panic(unsup("arity mismatch for %s", name))
	}
	for i := range args {
		if d.args[i] != args[i].Sort {
			panic(unsup("sort mismatch for %s arg %d: %s vs %s", name, i, d.args[i], args[i].Sort))
		}
	}
	if len(args) == 0 {
		return mkVar(name, res)
	}
	return app(name, res, args...)
}

var ownPkgs = map[string]bool{}

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isInteger(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func clean(s string) string {
	return strings.Map(func(r rune) rune {
		if r == '_' || r == '.' || (r >= 'a' && r <= 'z') || (r >= 'A' && r <= 'Z') || (r >= '0' && r <= '9') {
			return r
		}
		return '_'
	}, s)
}

var sortMemo = map[types.Type]string{}

// typeSort maps a Go type to an SMT sort.
func typeSort(t types.Type) string {
	if s, ok := sortMemo[t]; ok {
		return s
	}
	s := typeSort0(t)
	sortMemo[t] = s
	return s
}

func typeSort0(t types.Type) string {
	if g, ok := t.(*GMap); ok {
		return g.srt
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return sBool
		case u.Info()&types.IsString != 0:
			return sStr
		case u.Info()&types.IsFloat != 0:
			return sF64
		case u.Info()&types.IsInteger != 0, u.Kind() == types.UnsafePointer, u.Kind() == types.UntypedNil:
			return sInt
		}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return sInt
	case *types.Slice:
		if isByte(u.Elem()) {
			return sBS
		}
		return sSlice
	case *types.Array:
		return arrSort(sInt, typeSort(u.Elem()))
	case *types.Interface:
		return sIface
	case *types.Struct:
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && !ownPkgs[n.Obj().Pkg().Path()] {
			s := "U_" + clean(typeKey(n))
			usorts[s] = true
			return s
		}
		name := "D_" + clean(typeKey(t))
		if _, ok := t.(*types.Named); !ok {
			name = fmt.Sprintf("D_anon%d", len(dts))
		}
		d := &dtDecl{sort: name, ctor: "mk" + name}
		sortMemo[t] = name
		for i := 0; i < u.NumFields(); i++ {
			d.fields = append(d.fields, fmt.Sprintf("%s.%s", name, u.Field(i).Name()))
			d.sorts = append(d.sorts, typeSort(u.Field(i).Type()))
		}
		if len(d.fields) == 0 {
			d.fields = append(d.fields, name+".unit")
			d.sorts = append(d.sorts, sInt)
		}
		declDT(d)
		return name
	case *types.Tuple:
		return "Tuple"
	}
	panic(unsup("type %s", t))
}

// zero is the zero value of a type.
func zero(t types.Type) *Term { return zeroSort(typeSort(t)) }

func zeroSort(s string) *Term {
	switch s {
	case sInt:
		return mkInt(0)
	case sBool:
		return tFalse
	case sStr:
		return mkStr("")
	case sF64:
		return ufn("f64_0", sF64)
	case sIface:
		return mkCtor(sIface, mkInt(0), mkInt(0))
	case sSlice:
		return mkCtor(sSlice, mkInt(0), mkInt(0), mkInt(0), mkInt(0))
	case sBS:
		return mkCtor(sBS, tTrue, mkStr(""))
	}
	if d := dts[s]; d != nil {
		var as []*Term
		for _, x := range d.sorts {
			as = append(as, zeroSort(x))
		}
		return mkCtor(s, as...)
	}
	if strings.HasPrefix(s, "(Array") {
		_, v := arrSorts(s)
		return mkConstArr(s, zeroSort(v))
	}
	return ufn("zero!"+s, s)
}

// ---- interface boxing ----

var (
	tagIDs   = map[string]int64{}
	tagTypes = map[int64]types.Type{}
)

func typeTag(t types.Type) *Term {
	k := types.TypeString(t, nil)
	id, ok := tagIDs[k]
	if !ok {
		id = int64(len(tagIDs) + 1)
		tagIDs[k] = id
		tagTypes[id] = t
	}
	return mkInt(id)
}

// box converts a value of type t to an Int payload; unbox reverses it.
func box(t types.Type, v *Term) *Term {
	switch v.Sort {
	case sInt:
		return v
	case sBool:
		return mkIte(v, mkInt(1), mkInt(0))
	}
	if v.Op == "unbox!"+v.Sort {
		return v.Args[0]
	}
	return ufn("box!"+v.Sort, sInt, v)
}

func unbox(t types.Type, p *Term) *Term {
	s := typeSort(t)
	switch s {
	case sInt:
		return p
	case sBool:
		return mkEq(p, mkInt(1))
	}
	if p.Op == "box!"+s {
		return p.Args[0]
	}
	return ufn("unbox!"+s, s, p)
}

func mkIfaceOf(t types.Type, v *Term) *Term {
	return mkCtor(sIface, typeTag(t), box(t, v))
}

type unsupErr struct{ msg string }

func (u unsupErr) Error() string { return u.msg }

func unsup(f string, a ...any) unsupErr { return unsupErr{fmt.Sprintf(f, a...)} }

// slices.
func slRef(s *Term) *Term { return mkSel(sSlice, 0, s) }
func slOff(s *Term) *Term { return mkSel(sSlice, 1, s) }
func slLen(s *Term) *Term { return mkSel(sSlice, 2, s) }
func slCap(s *Term) *Term { return mkSel(sSlice, 3, s) }

func bsNil(b *Term) *Term   { return mkSel(sBS, 0, b) }
func bsStr(b *Term) *Term   { return mkSel(sBS, 1, b) }
func mkBytes(s *Term) *Term { return mkCtor(sBS, tFalse, s) }

// Package ai is a disjunctive abstract interpreter for go/ssa programs.
//
// Values are hash-consed terms (a global value numbering); states carry
// facts about terms (dynamic kinds, truth values, order relations,
// integer differences); states meeting at a loop head are generalised
// by anti-unification, so that the exploration reaches a fixpoint over
// an unbounded number of iterations. Specification monitors observe
// events and returns. Nothing is executed and no solver is involved.
package ai

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// V is an abstract value: an interned immutable term.
type V struct {
	ID   int
	Op   string
	T    types.Type
	Aux  string
	C    constant.Value
	Args []*V
	Fn   *ssa.Function
	N    int64

	flex  bool // contains a flexible symbol or a heap object
	bv    bool // contains a bound variable
	idx   bool // contains an element/index term
	depth int
}

func (v *V) Is(op string) bool { return v != nil && v.Op == op }

// Eng owns the term table and the program under analysis.
type Eng struct {
	Trees   map[*V]*Tree
	planted int

	Prog *ssa.Program
	Pkg  *ssa.Package // the package under analysis

	tab     map[string]*V
	nextID  int
	nextSym int64
	nextObj int64
	tkeys   typeutil.Map
	tnext   int
	tint    types.Type
	tany    types.Type
	ValueT  *types.Named
	EvalT   types.Type
	live    map[*ssa.Function]*liveness

	Models map[string]Model
	Gram   *Grammar

	implCache map[string]bool
}

type Model func(x *Exec, st *State, call *CallInfo) []*State

func NewEng(prog *ssa.Program, pkg *ssa.Package) *Eng {
	e := &Eng{Prog: prog, Pkg: pkg, tab: map[string]*V{}, live: map[*ssa.Function]*liveness{}, Models: map[string]Model{}, implCache: map[string]bool{}}
	e.tint = types.Typ[types.Int]
	e.tany = types.NewInterfaceType(nil, nil)
	if o := pkg.Pkg.Scope().Lookup("Value"); o != nil {
		e.ValueT, _ = o.Type().(*types.Named)
	}
	registerModels(e)
	return e
}

func (e *Eng) tkey(t types.Type) string {
	if t == nil {
		return "-"
	}
	if k := e.tkeys.At(t); k != nil {
		return k.(string)
	}
	e.tnext++
	k := "T" + strconv.Itoa(e.tnext)
	e.tkeys.Set(t, k)
	return k
}

func (e *Eng) intern(v V) *V {
	var b strings.Builder
	b.WriteString(v.Op)
	b.WriteByte('|')
	b.WriteString(e.tkey(v.T))
	b.WriteByte('|')
	b.WriteString(v.Aux)
	b.WriteByte('|')
	if v.C != nil {
		b.WriteString(v.C.ExactString())
	}
	b.WriteByte('|')
	if v.Fn != nil {
		fmt.Fprintf(&b, "%p", v.Fn)
	}
	b.WriteByte('|')
	b.WriteString(strconv.FormatInt(v.N, 10))
	for _, a := range v.Args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.ID))
	}
	k := b.String()
	if x, ok := e.tab[k]; ok {
		return x
	}
	e.nextID++
	n := v
	n.ID = e.nextID
	for _, a := range n.Args {
		n.flex = n.flex || a.flex
		n.bv = n.bv || a.bv
		n.idx = n.idx || a.idx
		if a.depth+1 > n.depth {
			n.depth = a.depth + 1
		}
	}
	switch n.Op {
	case "ptr", "map", "slref", "iter":
		n.flex = true
	case "bvar":
		n.bv = true
	case "elem", "mkey", "mval", "cbarg":
		n.idx = true
	}
	if n.Op == "sym" && n.N > 0 {
		n.flex = true
	}
	e.tab[k] = &n
	return &n
}

func (e *Eng) Mk(op string, t types.Type, aux string, args ...*V) *V {
	return e.intern(V{Op: op, T: t, Aux: aux, Args: args})
}

func (e *Eng) Const(c constant.Value, t types.Type) *V { return e.intern(V{Op: "const", C: c, T: t}) }
func (e *Eng) Bool(b bool) *V                          { return e.Const(constant.MakeBool(b), types.Typ[types.Bool]) }
func (e *Eng) Int(n int64) *V                          { return e.Const(constant.MakeInt64(n), e.tint) }
func (e *Eng) Str(s string) *V {
	return e.Const(constant.MakeString(s), types.Typ[types.String])
}
func (e *Eng) Nil(t types.Type) *V {
	if _, ok := t.Underlying().(*types.Interface); ok {
		t = e.tany
	}
	return e.Mk("nil", t, "")
}

// Sym is a rigid (input) symbol.
func (e *Eng) Sym(name string, t types.Type) *V { return e.Mk("sym", t, name) }

// Fresh is a flexible symbol.
func (e *Eng) Fresh(t types.Type, hint string) *V {
	e.nextSym++
	return e.intern(V{Op: "sym", T: t, Aux: hint, N: e.nextSym})
}
func (e *Eng) NewObj() int64 { e.nextObj++; return e.nextObj }
func (e *Eng) Ptr(obj int64, t types.Type) *V {
	return e.intern(V{Op: "ptr", T: t, N: obj})
}

// NewMap is a new map object; its content is to be set.
func (e *Eng) NewMap(t types.Type) *V {
	return e.intern(V{Op: "map", T: t, N: e.NewObj()})
}

// Box puts a value into an interface.
func (e *Eng) Box(x *V) *V {
	if x.Op == "as" && !x.C_isImpl() {
		return x.Args[0]
	}
	return e.Mk("iface", e.tany, "", x)
}
func (v *V) C_isImpl() bool { return v.Aux == "impl" }

// IsStr: a string type.
func IsStr(t types.Type) bool { return t != nil && isStr(t) }

func IsIface(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Interface)
	return ok
}

func isInt(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isFloat(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isStr(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBool(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func nilable(t types.Type) bool {
	if t == nil {
		return false
	}
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Signature, *types.Chan, *types.Interface:
		return true
	}
	return false
}

// Zero value of a type.
func (e *Eng) Zero(t types.Type) *V {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return e.Const(constant.MakeBool(false), t)
		case u.Info()&types.IsString != 0:
			return e.Const(constant.MakeString(""), t)
		case u.Info()&types.IsInteger != 0:
			return e.Const(constant.MakeInt64(0), t)
		case u.Info()&types.IsFloat != 0:
			return e.Const(constant.ToFloat(constant.MakeInt64(0)), t)
		case u.Kind() == types.UntypedNil:
			return e.Nil(e.tany)
		}
		return e.Mk("zero", t, "")
	case *types.Struct:
		if opaqueStruct(t) {
			return e.Mk("zero", t, "")
		}
		args := make([]*V, u.NumFields())
		for i := range args {
			args[i] = e.Zero(u.Field(i).Type())
		}
		return e.Mk("struct", t, "", args...)
	case *types.Array:
		n := u.Len()
		if n > 64 {
			return e.Mk("zero", t, "")
		}
		args := make([]*V, n)
		for i := range args {
			args[i] = e.Zero(u.Elem())
		}
		return e.Mk("array", t, "", args...)
	case *types.Tuple:
		args := make([]*V, u.Len())
		for i := range args {
			args[i] = e.Zero(u.At(i).Type())
		}
		return e.Mk("tuple", t, "", args...)
	}
	return e.Nil(t)
}

// structs whose fields are never visible to the analysed package
func opaqueStruct(t types.Type) bool {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		if p := n.Obj().Pkg(); p != nil {
			switch p.Path() {
			case "time", "strings", "bytes", "sync":
				return true
			}
		}
		// named types over an opaque struct
		if u, ok := n.Underlying().(*types.Struct); ok && u.NumFields() > 0 {
			if p := u.Field(0).Pkg(); p != nil && !u.Field(0).Exported() {
				switch p.Path() {
				case "time", "strings", "bytes", "sync":
					return true
				}
			}
		}
	}
	return false
}

// Field of a struct value.
func (e *Eng) Field(x *V, i int) *V {
	st, ok := x.T.Underlying().(*types.Struct)
	if !ok {
		panic(fmt.Sprintf("field of non-struct %s %v", x.Op, x.T))
	}
	if x.Op == "struct" {
		return x.Args[i]
	}
	f := st.Field(i)
	if x.Op == "zero" {
		return e.Zero(f.Type())
	}
	if f.Embedded() || f.Name() == "" {
		return e.Mk("field", f.Type(), f.Name()+"#"+strconv.Itoa(i), x)
	}
	return e.Mk("field", f.Type(), f.Name(), x)
}

// fieldIndex is the index of the field a field term reads, -1 if unknown.
func (e *Eng) fieldIndex(x *V) int {
	st, ok := x.Args[0].T.Underlying().(*types.Struct)
	if !ok {
		return -1
	}
	for i := 0; i < st.NumFields(); i++ {
		if e.Field(x.Args[0], i) == x {
			return i
		}
	}
	return -1
}

func (e *Eng) WithField(x *V, i int, v *V) *V {
	st := x.T.Underlying().(*types.Struct)
	args := make([]*V, st.NumFields())
	for j := range args {
		if j == i {
			args[j] = v
		} else {
			args[j] = e.Field(x, j)
		}
	}
	return e.Mk("struct", x.T, "", args...)
}

// FieldByName returns a field term, nil if there is no such field.
func (e *Eng) FieldByName(x *V, name string) *V {
	if x == nil || x.T == nil {
		return nil
	}
	st, ok := x.T.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return e.Field(x, i)
		}
	}
	return nil
}

// --- integers in base+offset form -------------------------------------

// SplitInt returns base (nil for constants) and offset.
func (e *Eng) SplitInt(v *V) (*V, int64) {
	switch v.Op {
	case "const":
		if n, ok := constant.Int64Val(constant.ToInt(v.C)); ok {
			return nil, n
		}
	case "lin":
		return v.Args[0], v.N
	}
	return v, 0
}

func (e *Eng) Lin(base *V, off int64, t types.Type) *V {
	if base == nil {
		return e.Const(constant.MakeInt64(off), t)
	}
	if base.Op == "lin" {
		off += base.N
		base = base.Args[0]
	}
	if base.Op == "const" {
		_, n := e.SplitInt(base)
		return e.Const(constant.MakeInt64(n+off), t)
	}
	if off == 0 {
		return base
	}
	return e.intern(V{Op: "lin", T: t, Args: []*V{base}, N: off})
}

// --- relations -----------------------------------------------------------

const (
	LT = 1
	EQ = 2
	GT = 4
	UN = 8
)

func mirror(m uint8) uint8 {
	r := m & (EQ | UN)
	if m&LT != 0 {
		r |= GT
	}
	if m&GT != 0 {
		r |= LT
	}
	return r
}

func fullMask(t types.Type) uint8 {
	if isFloat(t) {
		return LT | EQ | GT | UN
	}
	return LT | EQ | GT
}

// AddConst is v+k without overflow.
func (e *Eng) AddConst(v *V, k int64) *V {
	b, o := e.SplitInt(v)
	return e.Lin(b, o+k, v.T)
}

func (e *Eng) splitDiff(v *V) (*V, int64) {
	if !isInt(v.T) {
		return nil, 0
	}
	b, o := e.SplitInt(v)
	if b != nil && b.Op == "diff" {
		return b, o
	}
	return nil, 0
}

// Cmp is the boolean "relation of a and b is in mask".
func (e *Eng) Cmp(a, b *V, mask uint8) *V {
	if r := e.bytesCmp(a, b, mask); r != nil {
		return r
	}
	a, b = e.narrowCmp(a, b)
	b, a = e.narrowCmp(b, a)
	// x-y+k against a constant is x against y
	if ab, ao := e.splitDiff(a); ab != nil {
		if bb, bo := e.SplitInt(b); bb == nil && b.Op == "const" {
			return e.Cmp(e.AddConst(ab.Args[0], ao-bo), ab.Args[1], mask)
		}
	}
	if bb, bo := e.splitDiff(b); bb != nil {
		if ab, ao := e.SplitInt(a); ab == nil && a.Op == "const" {
			return e.Cmp(bb.Args[1], e.AddConst(bb.Args[0], bo-ao), mask)
		}
	}
	if a.ID > b.ID {
		a, b = b, a
		mask = mirror(mask)
	}
	if a == b && !isFloat(a.T) {
		return e.Bool(mask&EQ != 0)
	}
	full := fullMask(a.T)
	if isFloat(b.T) {
		full |= UN
	}
	if mask&full == 0 {
		return e.Bool(false)
	}
	if mask&full == full {
		return e.Bool(true)
	}
	return e.intern(V{Op: "cmp", T: types.Typ[types.Bool], Args: []*V{a, b}, N: int64(mask)})
}

func (e *Eng) Not(b *V) *V {
	switch b.Op {
	case "const":
		return e.Bool(!constant.BoolVal(b.C))
	case "not":
		return b.Args[0]
	case "cmp":
		full := fullMask(b.Args[0].T)
		return e.intern(V{Op: "cmp", T: b.T, Args: b.Args, N: int64(^uint8(b.N) & full)})
	}
	return e.Mk("not", types.Typ[types.Bool], "", b)
}

// IsNilV is the boolean "x is nil".
func (e *Eng) IsNilV(x *V) *V {
	switch x.Op {
	case "nil":
		return e.Bool(true)
	case "iface", "ptr", "map", "closure", "func", "list", "slref", "builtin", "faddr", "eaddr", "gaddr", "fmap":
		return e.Bool(false)
	case "ev", "Get0", "nonnil":
		if x.Op == "ev" {
			return e.Bool(false)
		}
	case "var", "param":
		return e.Bool(false)
	case "lany":
		return e.Bool(false)
	}
	return e.Mk("isnil", types.Typ[types.Bool], "", x)
}

// --- rendering -------------------------------------------------------------

// Show renders a term for reports.
func (v *V) Show() string {
	var b strings.Builder
	v.show(&b, 0)
	s := b.String()
	if len(s) > 300 {
		s = strings.ToValidUTF8(s[:300], "") + "..."
	}
	return s
}

func shortT(t types.Type) string {
	if t == nil {
		return "?"
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func (v *V) show(b *strings.Builder, d int) {
	if v == nil {
		b.WriteString("<none>")
		return
	}
	if d > 8 {
		b.WriteString("…")
		return
	}
	args := func() {
		for i, a := range v.Args {
			if i > 0 {
				b.WriteString(", ")
			}
			a.show(b, d+1)
		}
	}
	switch v.Op {
	case "const":
		b.WriteString(v.C.String())
	case "nil":
		b.WriteString("nil")
	case "sym":
		b.WriteString(v.Aux)
		if v.N > 0 {
			fmt.Fprintf(b, "'%d", v.N)
		}
	case "lin":
		v.Args[0].show(b, d+1)
		fmt.Fprintf(b, "%+d", v.N)
	case "ptr", "map", "slref", "iter":
		fmt.Fprintf(b, "&%s%d", v.Op, v.N)
	case "iface":
		fmt.Fprintf(b, "%s(", shortT(v.Args[0].T))
		v.Args[0].show(b, d+1)
		b.WriteString(")")
	case "as":
		v.Args[0].show(b, d+1)
		fmt.Fprintf(b, ".(%s)", shortT(v.T))
	case "field":
		v.Args[0].show(b, d+1)
		b.WriteString("." + v.Aux)
	case "elem":
		v.Args[0].show(b, d+1)
		b.WriteString("[")
		v.Args[1].show(b, d+1)
		b.WriteString("]")
	case "cmp":
		v.Args[0].show(b, d+1)
		m := uint8(v.N)
		s := ""
		if m&LT != 0 {
			s += "<"
		}
		if m&EQ != 0 {
			s += "="
		}
		if m&GT != 0 {
			s += ">"
		}
		b.WriteString(" " + s + " ")
		v.Args[1].show(b, d+1)
	case "closure", "func":
		b.WriteString(v.Fn.Name())
	case "ev":
		b.WriteString("value of ")
		v.Args[0].show(b, d+1)
	case "deref":
		b.WriteString("*")
		v.Args[0].show(b, d+1)
	default:
		b.WriteString(v.Op)
		if v.Aux != "" {
			b.WriteString(":" + v.Aux)
		}
		if v.Op == "conv" || v.Op == "ctype" {
			b.WriteString("[" + shortT(v.T) + "]")
		}
		b.WriteString("(")
		args()
		b.WriteString(")")
	}
}

// --- arithmetic --------------------------------------------------------------

func constInRange(c constant.Value, t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return false
	}
	switch b.Kind() {
	case types.Int, types.Int64:
		_, ok := constant.Int64Val(c)
		return ok
	case types.Int32:
		n, ok := constant.Int64Val(c)
		return ok && n >= -1<<31 && n < 1<<31
	case types.Int16:
		n, ok := constant.Int64Val(c)
		return ok && n >= -1<<15 && n < 1<<15
	case types.Int8:
		n, ok := constant.Int64Val(c)
		return ok && n >= -1<<7 && n < 1<<7
	case types.Uint, types.Uint64, types.Uintptr:
		_, ok := constant.Uint64Val(c)
		return ok
	case types.Uint32:
		n, ok := constant.Int64Val(c)
		return ok && n >= 0 && n < 1<<32
	case types.Uint16:
		n, ok := constant.Int64Val(c)
		return ok && n >= 0 && n < 1<<16
	case types.Uint8:
		n, ok := constant.Int64Val(c)
		return ok && n >= 0 && n < 1<<8
	}
	return false
}

// Arith builds an arithmetic term (no state-dependent normalisation).
func (e *Eng) Arith(op token.Token, a, b *V, t types.Type) *V {
	if a.Op == "const" && b.Op == "const" {
		if isInt(t) {
			ca, cb := constant.ToInt(a.C), constant.ToInt(b.C)
			if ca.Kind() == constant.Int && cb.Kind() == constant.Int {
				switch op {
				case token.ADD, token.SUB, token.MUL, token.AND, token.OR, token.XOR:
					r := constant.BinaryOp(ca, op, cb)
					if constInRange(r, t) {
						return e.Const(r, t)
					}
				case token.QUO, token.REM:
					if constant.Sign(cb) != 0 {
						o := op
						if op == token.QUO {
							o = token.QUO_ASSIGN
						}
						r := constant.BinaryOp(ca, o, cb)
						if constInRange(r, t) {
							return e.Const(r, t)
						}
					}
				}
			}
		}
		if isStr(t) && op == token.ADD {
			return e.Const(constant.BinaryOp(a.C, op, b.C), t)
		}
	}
	if isStr(t) && op == token.ADD {
		if r := addText(e, a, b, t); r != nil {
			return r
		}
		if a.Op == "const" && constant.StringVal(a.C) == "" {
			return b
		}
		if b.Op == "const" && constant.StringVal(b.C) == "" {
			return a
		}
	}
	if (op == token.ADD || op == token.MUL) && (isInt(t) || isFloat(t)) && a.ID > b.ID {
		a, b = b, a
	}
	return e.Mk("bin:"+op.String(), t, "", a, b)
}

// Conv is a numeric or string conversion.
func (e *Eng) Conv(x *V, t types.Type) *V {
	if types.Identical(x.T, t) {
		return x
	}
	if x.Op == "const" {
		if isInt(t) && isInt(x.T) && constInRange(x.C, t) {
			return e.Const(x.C, t)
		}
		if isFloat(t) && isInt(x.T) {
			return e.Const(constant.ToFloat(x.C), t)
		}
		if isStr(t) && isStr(x.T) || isBool(t) && isBool(x.T) {
			return e.Const(x.C, t)
		}
		if isFloat(t) && isFloat(x.T) && t.Underlying() == x.T.Underlying() {
			return e.Const(x.C, t)
		}
	}
	if x.Op == "zero" {
		if _, ok := t.Underlying().(*types.Struct); ok {
			return e.Zero(t)
		}
	}
	if types.Identical(x.T.Underlying(), t.Underlying()) {
		return e.ChangeType(x, t)
	}
	// int -> int64 -> int and the like
	if x.Op == "conv" && isInt(t) && isInt(x.T) && types.Identical(x.Args[0].T, t) && wide(x.T) && wide(t) {
		return x.Args[0]
	}
	return e.Mk("conv", t, "", x)
}

func wide(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Int || b.Kind() == types.Int64)
}

// ChangeType changes the named type only.
func (e *Eng) ChangeType(x *V, t types.Type) *V {
	if types.Identical(x.T, t) {
		return x
	}
	switch x.Op {
	case "ctype":
		return e.ChangeType(x.Args[0], t)
	case "nil":
		return e.Nil(t)
	case "const":
		return e.Const(x.C, t)
	case "struct":
		return e.Mk("struct", t, "", x.Args...)
	case "zero":
		return e.Mk("zero", t, "")
	case "list", "slref", "map", "fmap", "bytes":
		n := *x
		n.T = t
		n.flex, n.bv, n.idx, n.depth = false, false, false, 0
		return e.intern(n)
	}
	return e.Mk("ctype", t, "", x)
}

// --- lists and map contents -----------------------------------------------------

// A "list" has segments: one(v), all(s) for a whole symbolic slice,
// comp(lo,hi,tmpl) for tmpl with the bound variable running over
// lo..hi-1.
func (e *Eng) List(t types.Type, segs ...*V) *V { return e.Mk("list", t, "", e.normSegs(segs)...) }
func (e *Eng) One(v *V) *V                      { return e.Mk("one", nil, "", v) }
func (e *Eng) All(s *V) *V                      { return e.Mk("all", nil, "", s) }

// BVar is the bound variable of a comprehension of the given nesting level.
func (e *Eng) BVar(level int64) *V { return e.intern(V{Op: "bvar", T: e.tint, N: level}) }

// Comp is tmpl for its bound variable running over lo..hi-1; a constant
// lower bound is shifted to 0.
func (e *Eng) Comp(lo, hi, tmpl *V, level int64) *V {
	if b, o := e.SplitInt(lo); b == nil && o != 0 {
		tmpl = e.Subst(tmpl, e.BVar(level), e.Lin(e.BVar(level), o, e.tint))
		hb, ho := e.SplitInt(hi)
		hi = e.Lin(hb, ho-o, e.tint)
		lo = e.Int(0)
	}
	return e.intern(V{Op: "comp", Args: []*V{lo, hi, tmpl}, N: level})
}

// At instantiates a comprehension's template.
func (e *Eng) At(c, i *V) *V { return e.Subst(c.Args[2], e.BVar(c.N), i) }

// Level is one more than the nesting level of the comprehensions in t.
func Level(t *V) int64 {
	n := int64(0)
	Walk(t, map[*V]bool{}, func(v *V) {
		if v.Op == "comp" && v.N >= n {
			n = v.N + 1
		}
	})
	return n
}

func (e *Eng) normSegs(segs []*V) []*V {
	var out []*V
	for _, s := range segs {
		if s.Op == "comp" && s.Args[0] == s.Args[1] {
			continue
		}
		if s.Op == "comp" {
			s = e.compAll(s)
		}
		if n := len(out); n > 0 && out[n-1].Op == "comp" {
			c := out[n-1]
			var item *V
			if s.Op == "one" {
				item = s.Args[0]
			} else if s.Op == "ent" || s.Op == "del" {
				item = s
			}
			if item != nil && e.At(c, c.Args[1]) == item {
				b, o := e.SplitInt(c.Args[1])
				nc := e.compAll(e.Comp(c.Args[0], e.Lin(b, o+1, c.Args[1].T), c.Args[2], c.N))
				out[n-1] = nc
				continue
			}
		}
		if n := len(out); n > 0 && s.Op == "comp" && out[n-1].Op == "comp" {
			c := out[n-1]
			if c.Args[1] == s.Args[0] && c.Args[2] == s.Args[2] && c.N == s.N {
				out[n-1] = e.compAll(e.Comp(c.Args[0], s.Args[1], c.Args[2], c.N))
				continue
			}
			if cb, ck := e.SplitInt(c.Args[1]); cb == nil && c.N == s.N && s.Args[0] == e.Int(0) {
				if e.Subst(s.Args[2], e.BVar(s.N), e.Lin(e.BVar(s.N), -ck, e.tint)) == c.Args[2] {
					hb, ho := e.SplitInt(s.Args[1])
					out[n-1] = e.compAll(e.Comp(c.Args[0], e.Lin(hb, ho+ck, e.tint), c.Args[2], c.N))
					continue
				}
			}
		}
		if n := len(out); n > 0 && s.Op == "comp" {
			if it := itemOf(out[n-1]); it != nil {
				b, o := e.SplitInt(s.Args[0])
				lo := e.Lin(b, o-1, e.tint)
				if e.At(s, lo) == it {
					out[n-1] = e.compAll(e.Comp(lo, s.Args[1], s.Args[2], s.N))
					continue
				}
			}
		}
		out = append(out, s)
	}
	return out
}

// compAll recognises comprehensions covering a whole source.
func (e *Eng) compAll(c *V) *V {
	if b, o := e.SplitInt(c.Args[0]); b != nil || o != 0 {
		return c
	}
	t := c.Args[2]
	if t.Op == "elem" && t.Args[1].Op == "bvar" && !t.Args[0].bv {
		if c.Args[1] == e.Len(t.Args[0]) {
			return e.All(t.Args[0])
		}
	}
	if t.Op == "ent" && t.Args[0].Op == "mkey" && t.Args[1].Op == "mval" && t.Args[0].Args[0] == t.Args[1].Args[0] &&
		t.Args[0].Args[1].Op == "bvar" && t.Args[1].Args[1].Op == "bvar" && c.Args[1] == e.MLen(t.Args[0].Args[0]) {
		return e.Mk("spread", nil, "", t.Args[0].Args[0])
	}
	return c
}

func (e *Eng) MLen(m *V) *V {
	if m.Op == "mcont" {
		// entries with different known keys can be counted
		keys := map[*V]bool{}
		for _, s := range m.Args {
			if s.Op == "ent" && s.Args[0].Op == "const" {
				keys[s.Args[0]] = true
			}
		}
		if len(keys) == len(m.Args) {
			return e.Int(int64(len(keys)))
		}
	}
	return e.Mk("mlen", e.tint, "", m)
}

// Len of a slice or string value.
func (e *Eng) Len(x *V) *V {
	switch x.Op {
	case "nil", "zero":
		return e.Int(0)
	case "const":
		if x.C.Kind() == constant.String {
			return e.Int(int64(len(constant.StringVal(x.C))))
		}
	case "ctype", "lupd":
		return e.Len(x.Args[0])
	case "bytes":
		if fixed(x.Args) {
			return e.Int(int64(len(x.Args)))
		}
	case "lany":
		return x.Args[0]
	case "subsl":
		lo, hi := x.Args[1], x.Args[2]
		return e.Diff(hi, lo)
	case "list":
		n := int64(0)
		var base *V
		for _, s := range x.Args {
			switch s.Op {
			case "one":
				n++
			case "all":
				if base != nil {
					return e.Mk("len", e.tint, "", x)
				}
				base = e.Len(s.Args[0])
			case "comp":
				lb, lo := e.SplitInt(s.Args[0])
				hb, ho := e.SplitInt(s.Args[1])
				switch {
				case lb == hb:
					n += ho - lo
				case lb == nil && base == nil:
					base = e.Lin(hb, ho-lo, e.tint)
				default:
					return e.Mk("len", e.tint, "", x)
				}
			default:
				return e.Mk("len", e.tint, "", x)
			}
		}
		if base == nil {
			return e.Int(n)
		}
		return e.Lin(base, n, e.tint)
	}
	return e.Mk("len", e.tint, "", x)
}

// Diff is a-b of two lengths or positions.
func (e *Eng) Diff(a, b *V) *V {
	ab, ao := e.SplitInt(a)
	bb, bo := e.SplitInt(b)
	if bb == nil {
		return e.Lin(ab, ao-bo, e.tint)
	}
	if ab == bb {
		return e.Int(ao - bo)
	}
	if ab == nil {
		ab = e.Int(0)
	}
	return e.Lin(e.Mk("diff", e.tint, "", ab, bb), ao-bo, e.tint)
}

// Elem of a slice value.
func (e *Eng) Elem(s, i *V, et types.Type) *V {
	switch s.Op {
	case "ctype":
		return e.Elem(s.Args[0], i, et)
	case "list":
		b, n := e.SplitInt(i)
		if b == nil {
			for k, sg := range s.Args {
				if sg.Op != "one" {
					if sg.Op == "comp" && n >= 0 && k == len(s.Args)-1 {
						lb, lo := e.SplitInt(sg.Args[0])
						return e.At(sg, e.Lin(lb, lo+n, e.tint))
					}
					break
				}
				if n == 0 {
					return sg.Args[0]
				}
				n--
			}
		}
		if len(s.Args) == 1 {
			sg := s.Args[0]
			if sg.Op == "all" {
				return e.Elem(sg.Args[0], i, et)
			}
			if sg.Op == "comp" {
				if lb, lo := e.SplitInt(sg.Args[0]); lb == nil {
					ib, io := e.SplitInt(i)
					return e.At(sg, e.Lin(ib, io+lo, e.tint))
				}
			}
		}
	case "subsl":
		lb, lo := e.SplitInt(s.Args[1])
		if lb == nil {
			ib, io := e.SplitInt(i)
			return e.Elem(s.Args[0], e.Lin(ib, io+lo, e.tint), et)
		}
		if ib, io := e.SplitInt(i); ib == nil {
			return e.Elem(s.Args[0], e.Lin(lb, lo+io, e.tint), et)
		}
	}
	return e.Mk("elem", et, "", s, i)
}

// Subst replaces a subterm.
func (e *Eng) Subst(t, from, to *V) *V {
	if from == to {
		return t
	}
	memo := map[*V]*V{}
	return e.rewrite(t, func(v *V) *V {
		if v == from {
			return to
		}
		return nil
	}, memo)
}

// rewrite rebuilds a term bottom-up; f may replace a subterm (nil: recurse).
func (e *Eng) rewrite(t *V, f func(*V) *V, memo map[*V]*V) *V {
	if r, ok := memo[t]; ok {
		return r
	}
	var r *V
	if x := f(t); x != nil {
		r = x
	} else if len(t.Args) == 0 {
		r = t
	} else {
		args := make([]*V, len(t.Args))
		same := true
		for i, a := range t.Args {
			args[i] = e.rewrite(a, f, memo)
			if args[i] != a {
				same = false
			}
		}
		if same {
			r = t
		} else {
			r = e.rebuild(t, args)
		}
	}
	memo[t] = r
	return r
}

// rebuild constructs t's operator over new arguments with normalisation.
func (e *Eng) rebuild(t *V, args []*V) *V {
	switch t.Op {
	case "lin":
		return e.Lin(args[0], t.N, t.T)
	case "cmp":
		return e.Cmp(args[0], args[1], uint8(t.N))
	case "not":
		return e.Not(args[0])
	case "isnil":
		return e.IsNilV(args[0])
	case "diff":
		return e.Diff(args[0], args[1])
	case "subsl":
		if lb, lo := e.SplitInt(args[1]); lb == nil && lo == 0 && args[2] == e.Len(args[0]) {
			return args[0]
		}
		return e.Mk("subsl", t.T, "", args...)
	case "len":
		return e.Len(args[0])
	case "mlen":
		return e.MLen(args[0])
	case "elem":
		return e.Elem(args[0], args[1], t.T)
	case "comp":
		return e.compAll(e.Comp(args[0], args[1], args[2], t.N))
	case "list", "mcont", "sset":
		n := *t
		n.Args = e.normSegs(args)
		n.flex, n.bv, n.idx, n.depth = false, false, false, 0
		return e.intern(n)
	case "iface":
		return e.Box(args[0])
	case "field":
		if args[0].Op == "struct" || args[0].Op == "zero" {
			st := args[0].T.Underlying().(*types.Struct)
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == t.Aux || st.Field(i).Name()+"#"+strconv.Itoa(i) == t.Aux {
					return e.Field(args[0], i)
				}
			}
		}
	case "bin:+", "bin:*":
		return e.Arith(map[string]token.Token{"bin:+": token.ADD, "bin:*": token.MUL}[t.Op], args[0], args[1], t.T)
	}
	n := *t
	n.Args = args
	n.flex, n.bv, n.idx, n.depth = false, false, false, 0
	return e.intern(n)
}

// Walk visits all subterms.
func Walk(v *V, seen map[*V]bool, f func(*V)) {
	if v == nil || seen[v] {
		return
	}
	seen[v] = true
	f(v)
	for _, a := range v.Args {
		Walk(a, seen, f)
	}
}

// Contains reports whether t occurs in v.
func Contains(v, t *V) bool {
	found := false
	Walk(v, map[*V]bool{}, func(x *V) {
		if x == t {
			found = true
		}
	})
	return found
}

func sortedKeys[T any](m map[string]T) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

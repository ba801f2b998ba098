package ai

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Tree is a parse tree whose shape is known. A rule node without children is
// opaque.
type Tree struct {
	Rule  string // of a rule node
	Sym   string // of a terminal: token name or quoted literal
	Text  string // of a terminal with a known text
	TextV *V     // of a terminal whose text is a term
	Kids  []*Tree
	Empty bool // a node that is known to have no children
	Node  *V   // the term that stands for the node
}

// Terminal of the tree.
func (t *Tree) Terminal() bool { return t.Rule == "" }

// Is: a node of this rule or a terminal with this symbol.
func (t *Tree) Is(sym string) bool { return t.Rule == sym || t.Rule == "" && t.Sym == sym }

func (t *Tree) String() string {
	if t.Terminal() {
		if t.Text != "" {
			return t.Text
		}
		return t.Sym
	}
	if len(t.Kids) == 0 {
		return "<" + strings.TrimPrefix(t.Rule, "oC_") + ">"
	}
	var b strings.Builder
	for _, k := range t.Kids {
		b.WriteString(k.String())
	}
	return b.String()
}

// All children with the symbol.
func (t *Tree) All(sym string) []*Tree {
	var r []*Tree
	for _, k := range t.Kids {
		if k.Is(sym) {
			r = append(r, k)
		}
	}
	return r
}

// Has a child with the symbol.
func (t *Tree) Has(sym string) bool { return len(t.All(sym)) > 0 }

// One is the first child with the symbol.
func (t *Tree) One(sym string) *Tree {
	if a := t.All(sym); len(a) > 0 {
		return a[0]
	}
	return nil
}

// Shapes enumerates the child sequences of a grammar rule, with up to reps
// repetitions of every repeated part. Optional white space is everywhere or
// nowhere.
func (g *Grammar) Shapes(rule string, reps int) []*Tree {
	x := g.expr[rule]
	if x == nil {
		return nil
	}
	var out []*Tree
	seen := map[string]bool{}
	for _, sp := range []bool{false, true} {
		for _, ks := range g.enum(x, reps, sp) {
			key := ""
			t := &Tree{Rule: rule}
			for _, k := range ks {
				key += " " + k
				t.Kids = append(t.Kids, g.symTree(k))
			}
			if !seen[key] {
				seen[key] = true
				out = append(out, t)
			}
		}
	}
	return out
}

func (g *Grammar) symTree(s string) *Tree {
	if s[0] == '\'' {
		return &Tree{Sym: s, Text: strings.ReplaceAll(s[1:len(s)-1], "\\'", "'")}
	}
	if s[0] >= 'a' && s[0] <= 'z' {
		return &Tree{Rule: s}
	}
	t := &Tree{Sym: s}
	if s == "SP" {
		t.Text = " "
	} else if w, ok := g.keyword(s); ok {
		t.Text = w
	}
	return t
}

// keyword: the text of a token whose letters may have either case, in an
// unusual mixture of cases.
func (g *Grammar) keyword(tok string) (string, bool) {
	x := g.lex[tok]
	if x == nil || x.op != "seq" || len(x.args) < 2 {
		return "", false
	}
	w := ""
	for i, a := range x.args {
		for a.op == "seq" && len(a.args) == 1 && a.suf == "" {
			a = a.args[0]
		}
		if a.op != "alt" || len(a.args) != 2 || a.suf != "" {
			return "", false
		}
		var cs []string
		for _, b := range a.args {
			for b.op == "seq" && len(b.args) == 1 && b.suf == "" {
				b = b.args[0]
			}
			if b.op != "sym" || len(b.sym) != 3 || b.sym[0] != '\'' {
				return "", false
			}
			cs = append(cs, b.sym[1:2])
		}
		sort.Strings(cs)
		w += cs[i%2]
	}
	return w, true
}

func (g *Grammar) enum(x *gexpr, reps int, sp bool) [][]string {
	var base [][]string
	switch x.op {
	case "sym":
		switch {
		case x.sym == "EOF":
			base = [][]string{{}}
		case x.sym == "SP" && x.suf == "?":
			if sp {
				return [][]string{{"SP"}}
			}
			return [][]string{{}}
		default:
			base = [][]string{{x.sym}}
		}
	case "alt":
		for _, a := range x.args {
			base = append(base, g.enum(a, reps, sp)...)
		}
	case "seq":
		base = [][]string{{}}
		for _, a := range x.args {
			base = cross(base, g.enum(a, reps, sp))
		}
	}
	switch x.suf {
	case "?":
		return append([][]string{{}}, base...)
	case "*", "+":
		var out [][]string
		if x.suf == "*" {
			out = append(out, []string{})
		}
		cur := [][]string{{}}
		for i := 0; i < reps; i++ {
			cur = cross(cur, base)
			out = append(out, cur...)
		}
		return out
	}
	return base
}

func cross(a, b [][]string) [][]string {
	var out [][]string
	for _, l := range a {
		for _, r := range b {
			out = append(out, append(append([]string(nil), l...), r...))
		}
	}
	return out
}

// Plant makes terms for the nodes of a tree, so that the methods of the
// parse-tree nodes answer from it.
func (e *Eng) Plant(t *Tree) *V {
	if e.Trees == nil {
		e.Trees = map[*V]*Tree{}
	}
	var nt types.Type
	if t.Terminal() {
		nt = e.extType("antlr", "TerminalNodeImpl")
	} else {
		nt = e.extType("parser", "OC_"+strings.TrimPrefix(t.Rule, "oC_")+"Context")
	}
	if nt == nil {
		panic("no node type for " + t.Rule + t.Sym)
	}
	e.planted++
	t.Node = e.Mk("sym", types.NewPointer(nt), fmt.Sprintf("%s#%d", t.Rule+t.Sym, e.planted))
	e.Trees[t.Node] = t
	for _, k := range t.Kids {
		e.Plant(k)
	}
	return t.Node
}

func (e *Eng) extType(pkg, name string) types.Type {
	for _, p := range e.Prog.AllPackages() {
		if p.Pkg.Name() == pkg && (strings.Contains(p.Pkg.Path(), "antlr") || strings.HasSuffix(p.Pkg.Path(), "/parser")) {
			if o, ok := p.Pkg.Scope().Lookup(name).(*types.TypeName); ok {
				return o.Type()
			}
		}
	}
	return nil
}

// treeOf finds the planted node behind a receiver.
func (e *Eng) treeOf(v *V) *Tree {
	if e.Trees == nil {
		return nil
	}
	for d := 0; v != nil && d < 8; d++ {
		if t := e.Trees[v]; t != nil {
			return t
		}
		switch v.Op {
		case "iface", "faddr", "deref", "field", "as":
			v = v.Args[0]
		default:
			return nil
		}
	}
	return nil
}

// TreeOf is the planted node a term stands for.
func (e *Eng) TreeOf(v *V) *Tree { return e.treeOf(v) }

func (x *Exec) treeCall(st *State, ci *CallInfo, method string, t *Tree) ([]*State, bool) {
	e := x.E
	rt := ci.Sig.Results()
	if rt.Len() == 0 {
		return nil, false
	}
	ty := rt.At(0).Type()
	as := func(k *Tree) *V {
		if IsIface(ty) {
			return e.Box(k.Node)
		}
		return k.Node
	}
	list := func(ks []*Tree, lt types.Type) *V {
		var segs []*V
		for _, k := range ks {
			if IsIface(lt.Underlying().(*types.Slice).Elem()) {
				segs = append(segs, e.One(e.Box(k.Node)))
			} else {
				segs = append(segs, e.One(k.Node))
			}
		}
		return e.List(lt, segs...)
	}
	if !t.Terminal() && len(t.Kids) == 0 && !t.Empty && method != "GetText" {
		return nil, false // opaque: as any node of this rule
	}
	switch method {
	case "GetText":
		if txt, ok := t.text(); ok {
			return one(x.Ret(st, ci, e.Const1(txt, ty))), true
		}
		for t.Rule != "" && len(t.Kids) == 1 {
			t = t.Kids[0]
		}
		if len(t.Kids) > 1 {
			return one(x.Ret(st, ci, e.TextOf(t, ty))), true
		}
		r := e.TextOf(t, ty)
		min := 1
		if n, ok := e.Gram.MinLen[t.Sym]; ok {
			min = n
		}
		st.AssumeCmp(e.Len(r), e.Int(int64(min)), GT|EQ)
		return one(x.Ret(st, ci, r)), true
	case "GetChildCount":
		return one(x.Ret(st, ci, e.Int(int64(len(t.Kids))))), true
	case "GetChildren":
		return one(x.Ret(st, ci, list(t.Kids, ty))), true
	case "GetChild":
		b, n := e.SplitInt(ci.Args[1])
		if b != nil {
			panic("child index is not known: " + ci.Args[1].Show())
		}
		if n < 0 || int(n) >= len(t.Kids) {
			x.panicOut(st, "child index out of range", ci.Instr)
			return nil, true
		}
		return one(x.Ret(st, ci, as(t.Kids[n]))), true
	case "GetSymbol", "GetStart", "GetStop", "GetParser", "GetParent", "GetRuleContext":
		r := e.Mk("px", ty, method, t.Node)
		st.AssumeNil(r, false)
		return one(x.Ret(st, ci, r)), true
	case "GetTokenType", "GetRuleIndex":
		return one(x.Ret(st, ci, e.Mk("px", ty, method, t.Node))), true
	}
	if t.Terminal() {
		return nil, false
	}
	if strings.HasPrefix(method, "All") {
		if _, ok := ty.Underlying().(*types.Slice); !ok {
			return nil, false
		}
		return one(x.Ret(st, ci, list(t.All(symOf(method[3:])), ty))), true
	}
	sym := symOf(method)
	known := false
	for _, a := range e.Gram.Rules[t.Rule] {
		if _, ok := a[sym]; ok {
			known = true
		}
	}
	if !known {
		return nil, false
	}
	ks := t.All(sym)
	i := int64(0)
	if len(ci.Args) == 2 && isInt(ci.Args[1].T) {
		b, n := e.SplitInt(ci.Args[1])
		if b != nil {
			panic("child index is not known: " + ci.Args[1].Show())
		}
		i = n
	}
	if i < 0 || int(i) >= len(ks) {
		return one(x.Ret(st, ci, e.Nil(ty))), true
	}
	return one(x.Ret(st, ci, as(ks[i]))), true
}

// TextOf is the text of a planted node.
func (e *Eng) TextOf(t *Tree, ty types.Type) *V {
	if t.TextV != nil {
		return e.ChangeType(t.TextV, ty)
	}
	if txt, ok := t.text(); ok {
		return e.Const1(txt, ty)
	}
	if len(t.Kids) == 0 {
		return e.Mk("px", ty, "GetText", t.Node)
	}
	var r *V
	for _, k := range t.Kids {
		v := e.TextOf(k, ty)
		if r == nil {
			r = v
		} else {
			r = e.Arith(token.ADD, r, v, ty)
		}
	}
	return r
}

func (t *Tree) text() (string, bool) {
	if t.TextV != nil {
		return "", false
	}
	if t.Terminal() {
		return t.Text, t.Text != ""
	}
	if len(t.Kids) == 0 {
		return "", t.Empty
	}
	s := ""
	for _, k := range t.Kids {
		x, ok := k.text()
		if !ok {
			return "", false
		}
		s += x
	}
	return s, true
}

// Const1 is a string constant of a string type.
func (e *Eng) Const1(s string, t types.Type) *V { return e.Const(e.Str(s).C, t) }

// Call is one step of a script.
type Call struct {
	Fn     *ssa.Function // or
	Recv   *V            // a value
	Method string        // and the name of its method
	Args   []*V
}

// RunScript runs a sequence of calls in the state: next gets the number of
// the step and the result of the previous one, and returns the next call, or
// nil at the end.
func (x *Exec) RunScript(st *State, next func(st *State, k int, prev *V) *Call) {
	e := x.E
	nat := &Native{Name: "script", At: x.Entry.Blocks[0].Instrs[0]}
	nat.Step = func(x *Exec, st *State, f *Frame) []*State {
		_, k := e.SplitInt(f.nv[1])
		f.nv[1] = e.Int(k + 1)
		c := next(st, int(k), f.nv[0])
		if c == nil {
			x.Returns++
			return nil
		}
		in := nat.At
		if c.Fn != nil {
			return x.static(st, &CallInfo{Instr: in, Fn: c.Fn, Args: c.Args, Sig: c.Fn.Signature})
		}
		return x.CallMethod(st, in, c.Recv, c.Method, c.Args)
	}
	st.frames = []*Frame{{nat: nat, nv: []*V{e.Nil(e.tany), e.Int(0)}}}
	x.Run(st)
}

// CallMethod calls a method of a value by name.
func (x *Exec) CallMethod(st *State, in ssa.Instruction, recv *V, name string, args []*V) []*State {
	e := x.E
	t := recv.T
	if recv.Op == "iface" {
		recv = recv.Args[0]
		t = recv.T
	} else if IsIface(t) {
		if k := st.KindOf(recv); k.Pos != nil {
			t = k.Pos
			recv = st.Payload(recv, t)
		}
	}
	o, _, _ := types.LookupFieldOrMethod(t, true, e.Pkg.Pkg, name)
	m, ok := o.(*types.Func)
	if !ok {
		panic("no method " + name + " on " + shortT(t))
	}
	sig := m.Type().(*types.Signature)
	if IsIface(t) {
		return x.doCall(st, &CallInfo{Instr: in, Method: m, Args: append([]*V{recv}, args...), Sig: sig})
	}
	fn := e.Prog.LookupMethod(t, e.Pkg.Pkg, name)
	if fn == nil { // a method of the pointer on a value
		if _, ok := t.Underlying().(*types.Pointer); !ok {
			obj := e.NewObj()
			pt := types.NewPointer(t)
			st.heap[obj] = recv
			recv = e.Ptr(obj, pt)
			fn = e.Prog.LookupMethod(pt, e.Pkg.Pkg, name)
		}
	}
	if fn == nil {
		panic("no method " + name + " on " + shortT(t))
	}
	return x.static(st, &CallInfo{Instr: in, Fn: fn, Args: append([]*V{recv}, args...), Sig: fn.Signature})
}

package checks

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/ai"
	"verif/analyzer/repo"
)

func init() { register("F03", f03) }

// documentedKind: the Go types a query value may hold.
func documentedKind(t types.Type) bool {
	t = types.Unalias(t)
	switch u := t.(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Int, types.Float64, types.Bool, types.String, types.UntypedNil:
			return true
		}
		return false
	case *types.Named:
		p := ""
		if u.Obj().Pkg() != nil {
			p = u.Obj().Pkg().Path()
		}
		switch n := u.Obj().Name(); {
		case strings.HasPrefix(p, lpgPath):
			return n == "StringSet" || n == "PathElement"
		default:
			switch n {
			case "Duration", "Date", "LocalDateTime", "LocalTime", "ResultSet":
				return p == repo.Path
			}
		}
		return false
	case *types.Pointer:
		n, ok := types.Unalias(u.Elem()).(*types.Named)
		if !ok || n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), lpgPath) {
			return false
		}
		switch n.Obj().Name() {
		case "Node", "Edge", "Path":
			return true
		}
		return false
	case *types.Slice:
		if isNamed(u.Elem(), "Value") && types.IsInterface(u.Elem()) {
			return true
		}
		_, ptr := u.Elem().(*types.Pointer)
		return ptr && documentedKind(u.Elem()) && isNamed(u.Elem(), "Edge")
	case *types.Map:
		b, ok := u.Key().(*types.Basic)
		return ok && b.Kind() == types.String && isNamed(u.Elem(), "Value") && types.IsInterface(u.Elem())
	}
	return false
}

// kindFlow follows an interface value back to where its content comes from.
type kindFlow struct {
	c    *Ctx
	cg   *CG
	in   map[*ssa.Function][]cgIn
	seen map[ssa.Value]bool
	at   *ssa.BasicBlock // block of the sink, for guards
	bad  []kindBad
}

type cgIn struct {
	site ssa.Instruction
}

type kindBad struct {
	v   ssa.Value
	pos token.Pos
	why string
}

func isValueIface(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == "Value" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == repo.Path
}

func (k *kindFlow) fail(v ssa.Value, pos token.Pos, format string, args ...any) {
	k.bad = append(k.bad, kindBad{v, pos, fmt.Sprintf(format, args...)})
}

func pkgName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// trace reports sources that are not documented kinds; use is where v is used.
func (k *kindFlow) trace(v ssa.Value, use *ssa.BasicBlock) {
	if k.seen[v] {
		return
	}
	k.seen[v] = true
	if !types.IsInterface(v.Type()) {
		if !documentedKind(v.Type()) {
			k.fail(v, v.Pos(), "%s is not a documented value kind", pkgName(v.Type()))
		}
		return
	}
	if isValueIface(v.Type()) {
		k.fail(v, v.Pos(), "a Value is stored as the content of another")
		return
	}
	if k.guarded(v, use) {
		return
	}
	switch x := v.(type) {
	case *ssa.Const:
		return // nil
	case *ssa.MakeInterface:
		if !documentedKind(x.X.Type()) {
			k.fail(v, x.Pos(), "%s is not a documented value kind", pkgName(x.X.Type()))
		}
	case *ssa.ChangeInterface:
		k.trace(x.X, use)
	case *ssa.Phi:
		for i, e := range x.Edges {
			k.trace(e, x.Block().Preds[i])
		}
	case *ssa.Extract:
		if cl, ok := x.Tuple.(*ssa.Call); ok {
			k.call(cl, x.Index, v)
			return
		}
		if ta, ok := x.Tuple.(*ssa.TypeAssert); ok {
			k.trace(ta.X, use)
			return
		}
		if n, ok := x.Tuple.(*ssa.Next); ok && k.matcherSymbols(n) {
			k.c.Assumption("the graph matcher hands over nodes and lists of relationships only")
			return
		}
		k.fail(v, x.Pos(), "content of unknown kind: %s", v)
	case *ssa.TypeAssert:
		k.trace(x.X, use)
	case *ssa.Call:
		k.call(x, 0, v)
	case *ssa.Field:
		if isValueType(x.X.Type()) {
			return
		}
		k.fail(v, x.Pos(), "content of unknown kind: %s", v)
	case *ssa.UnOp:
		k.load(x, v)
	case *ssa.Parameter:
		f := x.Parent()
		idx := -1
		for i, p := range f.Params {
			if p == x {
				idx = i
			}
		}
		for _, in := range k.in[f] {
			ci, ok := in.site.(ssa.CallInstruction)
			if !ok {
				continue
			}
			com := ci.Common()
			args := com.Args
			if com.IsInvoke() {
				args = append([]ssa.Value{com.Value}, args...)
			}
			if len(args) != len(f.Params) {
				continue
			}
			k.trace(args[idx], in.site.Block())
		}
		if f.Object() != nil && f.Object().Exported() || len(k.in[f]) == 0 {
			k.c.Assumption("host programs put only documented value kinds into values they construct themselves")
		}
	case *ssa.FreeVar:
		f := x.Parent()
		for i, fv := range f.FreeVars {
			if fv != x {
				continue
			}
			for _, b := range f.Parent().Blocks {
				for _, in := range b.Instrs {
					if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == f {
						k.trace(mc.Bindings[i], b)
					}
				}
			}
		}
	default:
		k.fail(v, v.Pos(), "content of unknown kind: %s", v)
	}
}

// matcherSymbols: n ranges over the symbols handed to a match accumulator.
func (k *kindFlow) matcherSymbols(n *ssa.Next) bool {
	r, ok := n.Iter.(*ssa.Range)
	if !ok {
		return false
	}
	p, ok := r.X.(*ssa.Parameter)
	if !ok || p.Parent().Signature.Recv() == nil {
		return false
	}
	for i, q := range p.Parent().Params {
		// StoreResult(*MatchContext, *Path, map[string]interface{})
		if i == 1 {
			pt, ok := q.Type().(*types.Pointer)
			return ok && isNamed(pt, "MatchContext")
		}
	}
	return false
}

func (k *kindFlow) load(x *ssa.UnOp, v ssa.Value) {
	if x.Op != token.MUL {
		k.fail(v, x.Pos(), "content of unknown kind: %s", v)
		return
	}
	switch a := x.X.(type) {
	case *ssa.FieldAddr:
		if isValueType(a.X.Type()) {
			return
		}
	case *ssa.Alloc:
		k.stores(a, a)
		return
	case *ssa.FreeVar:
		f := a.Parent()
		for i, fv := range f.FreeVars {
			if fv != a {
				continue
			}
			for _, b := range f.Parent().Blocks {
				for _, in := range b.Instrs {
					if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == f {
						if al, ok := mc.Bindings[i].(*ssa.Alloc); ok {
							k.stores(al, al)
						} else {
							k.fail(v, x.Pos(), "content of unknown kind: %s", v)
						}
					}
				}
			}
		}
		return
	}
	k.fail(v, x.Pos(), "content of unknown kind: %s", v)
}

// stores into a variable, also through closures that capture it.
func (k *kindFlow) stores(al *ssa.Alloc, addr ssa.Value) {
	for _, r := range *addr.Referrers() {
		switch r := r.(type) {
		case *ssa.Store:
			if r.Addr == addr {
				k.trace(r.Val, r.Block())
			}
		case *ssa.MakeClosure:
			for i, b := range r.Bindings {
				if b == addr {
					k.stores(al, r.Fn.(*ssa.Function).FreeVars[i])
				}
			}
		}
	}
}

func (k *kindFlow) call(x *ssa.Call, i int, v ssa.Value) {
	com := x.Common()
	if com.IsInvoke() {
		if com.Method.Name() == "Get" && isValueIface(com.Value.Type()) {
			return // holds by induction
		}
		k.fail(v, x.Pos(), "content comes from %s, which may be of any kind", com.Method.Name())
		return
	}
	if s := com.StaticCallee(); s != nil && s.Name() == "Get" && len(com.Args) == 1 && isValueType(com.Args[0].Type()) {
		return
	}
	ts := k.cg.at[x]
	if s := com.StaticCallee(); s != nil && k.cg.own[s] {
		ts = []*ssa.Function{s}
	}
	if len(ts) == 0 {
		k.fail(v, x.Pos(), "content comes from %s, which may be of any kind", com.Value.Name())
		return
	}
	for _, t := range ts {
		for _, b := range t.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && i < len(r.Results) {
				k.trace(r.Results[i], b)
			}
		}
	}
}

// guarded: every path from the definition of v to its use passes a test
// that it is nil or of a documented kind.
func (k *kindFlow) guarded(v ssa.Value, use *ssa.BasicBlock) bool {
	if use == nil {
		return false
	}
	f := use.Parent()
	var def *ssa.BasicBlock
	switch d := v.(type) {
	case ssa.Instruction:
		def = d.Block()
	default:
		if v.Parent() == f {
			def = f.Blocks[0]
		}
	}
	if def == nil || def.Parent() != f {
		return false
	}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock) bool
	walk = func(b *ssa.BasicBlock) bool {
		if seen[b] {
			return true
		}
		seen[b] = true
		if b == def {
			return false
		}
		for _, p := range b.Preds {
			if goodEdge(p, b, v) {
				continue
			}
			if !walk(p) {
				return false
			}
		}
		return len(b.Preds) > 0
	}
	return walk(use)
}

// goodEdge: the branch from p to b establishes that v is nil or documented.
func goodEdge(p, b *ssa.BasicBlock, v ssa.Value) bool {
	iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
	if !ok || p.Succs[0] == p.Succs[1] {
		return false
	}
	taken := p.Succs[0] == b
	switch c := iff.Cond.(type) {
	case *ssa.Extract:
		ta, ok := c.Tuple.(*ssa.TypeAssert)
		return ok && c.Index == 1 && ta.X == v && taken && !types.IsInterface(ta.AssertedType) && documentedKind(ta.AssertedType)
	case *ssa.BinOp:
		if c.Op != token.EQL && c.Op != token.NEQ {
			return false
		}
		isNil := func(x ssa.Value) bool { n, ok := x.(*ssa.Const); return ok && n.Value == nil }
		if c.X == v && isNil(c.Y) || c.Y == v && isNil(c.X) {
			return taken == (c.Op == token.EQL)
		}
	}
	return false
}

func f03(c *Ctx) {
	c.Rule("every place that sets the content of a value (the Value field of an RValue, or the getter of an LValue) is traced back through phis, variables, closures, calls and parameters to its sources; each source must be nil, the content of another value, or of a documented kind, or the use must be guarded by a test for one")
	cg := c.callGraph()
	in := map[*ssa.Function][]cgIn{}
	for _, es := range cg.out {
		for _, e := range es {
			in[e.to] = append(in[e.to], cgIn{e.site})
		}
	}
	sinks := 0
	// types of which no value is ever used as an expression: what their
	// Evaluate returns is an assignment target
	target := c.assignmentTargets(cg)
	check := func(f *ssa.Function, v ssa.Value, at ssa.Instruction, what string) {
		sinks++
		c.Obl("documented-kind", fmt.Sprintf("%s %s #%d", what, fnName(f), sinks))
		c.Analysed[fnName(f)] = true
		k := &kindFlow{c: c, cg: cg, in: in, seen: map[ssa.Value]bool{}}
		k.trace(v, at.Block())
		for _, b := range k.bad {
			pos := b.pos
			if !pos.IsValid() {
				pos = ai.InstrPos(at)
			}
			c.Violate("documented-kind", fnName(f), pos, "%s: %s", what, b.why)
		}
	}
	for _, f := range cg.fns {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				s, ok := i.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				st, ok := fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
				if !ok {
					continue
				}
				name := st.Field(fa.Field).Name()
				switch {
				case isNamed(fa.X.Type(), "RValue") && name == "Value":
					check(f, s.Val, s, "the content of a value")
				case isNamed(fa.X.Type(), "LValue") && name == "getter":
					if f.Signature.Recv() != nil && target[recvName(f)] {
						c.Assumption("what " + recvName(f) + " evaluates to is only assigned to (no value of this type is ever used as an expression)")
						continue
					}
					ts := c.funcValues(s.Val, map[ssa.Value]bool{})
					if len(ts) == 0 {
						c.Violate("documented-kind", fnName(f), ai.InstrPos(s), "the getter of an LValue cannot be determined")
					}
					for _, t := range ts {
						for _, tb := range t.Blocks {
							if r, ok := tb.Instrs[len(tb.Instrs)-1].(*ssa.Return); ok {
								check(t, r.Results[0], r, "the content of a variable value")
							}
						}
					}
				}
			}
		}
	}
	if sinks == 0 {
		c.Undecided("RValue", token.NoPos, "no place that sets the content of a value was found")
	}
	c.Sites += sinks
}

func recvName(f *ssa.Function) string {
	if f.Signature.Recv() == nil {
		return ""
	}
	t := f.Signature.Recv().Type()
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return ""
}

// assignmentTargets: types with an Evaluate method that are never converted
// to an interface with one.
func (c *Ctx) assignmentTargets(cg *CG) map[string]bool {
	out := map[string]bool{}
	sc := c.R.Pkg.Types.Scope()
	for _, n := range sc.Names() {
		if tn, ok := sc.Lookup(n).(*types.TypeName); ok && !types.IsInterface(tn.Type()) && c.R.Method(n, "Evaluate") != nil {
			out[n] = true
		}
	}
	for f := range cg.own {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				mi, ok := in.(*ssa.MakeInterface)
				if !ok {
					continue
				}
				if m, _, _ := types.LookupFieldOrMethod(mi.Type(), false, c.R.Pkg.Types, "Evaluate"); m == nil {
					continue
				}
				t := mi.X.Type()
				if p, ok := t.(*types.Pointer); ok {
					t = p.Elem()
				}
				if nt, ok := t.(*types.Named); ok {
					delete(out, nt.Obj().Name())
				}
			}
		}
	}
	return out
}

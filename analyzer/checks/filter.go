package checks

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/ai"
)

func init() {
	register("G02", g02)
}

// g02: everything that is stored went through the filter. The clauses that
// store properties are followed with a filter that is an unknown function;
// no other place in the library may store properties, and contexts made while
// a query runs have the filter of the context they are made from.
func g02(c *Ctx) {
	c.Rule("builder and evaluator of every form of CREATE, MERGE and SET that names properties are followed with a property filter that is an unknown function: a stored value must be the one result of the filter for its key and the value the text gives; every call in the library that stores properties must be among those followed; every context made during evaluation must have the filter of the context it is made from")
	pk := c.propKinds()
	if pk == nil {
		return
	}
	c.only = map[string]bool{"filter": true, "undecided": true}
	c.onlyFiltered = true
	c.reached = map[ssa.Instruction]bool{}
	shapes := c.createShapes()
	for _, u := range c.createUses() {
		for _, parts := range shapes {
			if base := u.tree(parts...); base != nil {
				var classes []int
				for i := range nameTokens(base) {
					classes = append(classes, i)
				}
				c.creations(u, base, classes, pk)
			}
		}
	}
	c.changes()
	c.storeSites()
	c.contextsKeepFilter()
}

// storesProps: the call hands properties to the graph library.
func storesProps(in ssa.Instruction) []ssa.Value {
	ci, ok := in.(ssa.CallInstruction)
	if !ok {
		return nil
	}
	f := ci.Common().StaticCallee()
	if f == nil || f.Pkg == nil || !strings.Contains(f.Pkg.Pkg.Path(), "/lpg") || f.Object() == nil {
		return nil
	}
	switch n := f.Object().Name(); {
	case strings.Contains(n, "SetProperty"), strings.Contains(n, "NodeProperty"), strings.Contains(n, "EdgeProperty"),
		strings.HasSuffix(n, "NewNode"), strings.HasSuffix(n, "NewEdge"):
	default:
		return nil
	}
	args := ci.Common().Args
	if f.Signature.Recv() != nil {
		args = args[1:]
	}
	var out []ssa.Value
	for _, a := range args {
		switch t := a.Type().Underlying().(type) {
		case *types.Map:
			if k, ok := a.(*ssa.Const); !ok || !k.IsNil() {
				out = append(out, a)
			}
		case *types.Interface:
			if t.NumMethods() == 0 {
				out = append(out, a)
			}
		}
	}
	return out
}

// storeSites: the calls that store properties are those that were followed.
func (c *Ctx) storeSites() {
	filter := c.Method("EvalContext", "PropertyValueFromNative")
	if filter == nil {
		return
	}
	n := 0
	for _, f := range c.R.Funcs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				vals := storesProps(in)
				if len(vals) == 0 {
					continue
				}
				n++
				c.Obl("store", fnName(f)+" "+in.(ssa.CallInstruction).Common().StaticCallee().Name())
				if c.reached[in] {
					continue
				}
				for _, v := range vals {
					if call, ok := v.(*ssa.Call); !ok || call.Call.StaticCallee() != filter {
						c.violate(Violation{Rule: "filter", Construct: fnName(f), Pos: c.Pos(in.Pos()),
							Msg: "properties are stored here without the filter, and by none of the clauses that store properties"})
					}
				}
			}
		}
	}
	if n < 3 {
		c.Undecided("stores", token.NoPos, "only %d calls that store properties were found", n)
	}
}

// contextsKeepFilter: contexts made during evaluation have the filter.
func (c *Ctx) contextsKeepFilter() {
	ct := c.Type("EvalContext")
	mk := c.Func("NewEvalContext")
	if ct == nil || mk == nil {
		return
	}
	st, ok := ct.Underlying().(*types.Struct)
	field := -1
	for i := 0; ok && i < st.NumFields(); i++ {
		if st.Field(i).Name() == "PropertyValueFromNativeFilter" {
			field = i
		}
	}
	if field < 0 {
		c.Undecided("filter", token.NoPos, "contexts have no property filter")
		return
	}
	g := c.callGraph()
	var q []*ssa.Function
	seen := map[*ssa.Function]bool{}
	for _, r := range []struct{ iface, m string }{{"Evaluatable", "Evaluate"}, {"UpdatingClause", "Update"}, {"UpdatingClause", "TopLevelUpdate"}, {"ReadingClause", "GetResults"}} {
		fs := c.implementers(r.iface, r.m)
		if len(fs) == 0 {
			c.Undecided(r.iface+"."+r.m, token.NoPos, "nothing has it")
		}
		q = append(q, fs...)
	}
	for _, f := range q {
		seen[f] = true
	}
	pt := types.NewPointer(ct)
	makes := func(f *ssa.Function) bool {
		rs := f.Signature.Results()
		for i := 0; i < rs.Len(); i++ {
			if types.Identical(rs.At(i).Type(), pt) {
				return true
			}
		}
		return false
	}
	from := func(f *ssa.Function) bool {
		for _, p := range f.Params {
			if types.Identical(p.Type(), pt) {
				return true
			}
		}
		return false
	}
	contexts := 0
	for len(q) > 0 {
		f := q[0]
		q = q[1:]
		maker := makes(f)
		if maker && from(f) && f.Parent() == nil {
			// a context made from another one
			contexts++
			c.Obl("context", fnName(f))
			c.derivedContext(f, ct)
		}
		for _, e := range g.out[f] {
			if makes(e.to) && !from(e.to) {
				if v, ok := e.site.(ssa.Value); !maker && ok {
					c.Obl("context", fnName(f))
					if !keepsField(v, ct, field) {
						c.violate(Violation{Rule: "filter", Construct: fnName(f), Pos: c.Pos(e.site.Pos()), Msg: "makes a context without the filter during evaluation"})
					}
				}
				continue // only at its callers
			}
			if !seen[e.to] {
				seen[e.to] = true
				q = append(q, e.to)
			}
		}
		if maker {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Alloc:
					if !types.Identical(in.Type().(*types.Pointer).Elem(), ct) {
						continue
					}
					contexts++
					c.Obl("context", fnName(f))
					if !keepsField(in, ct, field) {
						c.violate(Violation{Rule: "filter", Construct: fnName(f), Pos: c.Pos(in.Pos()), Msg: "makes a context that does not have the filter of another one"})
					}
				case *ssa.Store:
					fa, ok := in.Addr.(*ssa.FieldAddr)
					if !ok || fa.Field != field || !types.Identical(fa.X.Type().Underlying().(*types.Pointer).Elem(), ct) {
						continue
					}
					if !loadOf(in.Val, ct, field) {
						c.violate(Violation{Rule: "filter", Construct: fnName(f), Pos: c.Pos(in.Pos()), Msg: "changes the filter during evaluation"})
					}
				}
			}
		}
	}
	if contexts == 0 {
		c.Undecided("contexts", token.NoPos, "no context is made during evaluation")
	}
}

// derivedContext: the context a function makes from another has its filter.
func (c *Ctx) derivedContext(fn *ssa.Function, ct types.Type) {
	e := c.E
	const name = "PropertyValueFromNativeFilter"
	pt := types.NewPointer(ct)
	for _, set := range []bool{true, false} {
		set := set
		mon := &ai.Monitor{NoModel: c.noCtxModels()}
		mon.OnReturn = func(x *ai.Exec, st *ai.State, res []*ai.V) {
			for _, r := range res {
				if !types.Identical(r.T, pt) || st.IsNil(r) == 1 {
					continue
				}
				got := e.FieldByName(st.Load(r), name)
				if set && got != st.Ghost["filter"] || !set && st.IsNil(got) != 1 {
					x.Report(st, "filter", fn.Blocks[0].Instrs[0], "the context it makes does not have the filter of the one it is made from")
				}
			}
		}
		x := ai.NewExec(e, fn, mon)
		x.Debug = c.Debug
		st := ai.NewState(e)
		var args []*ai.V
		for i, p := range fn.Params {
			if !types.Identical(p.Type(), pt) {
				args = append(args, e.Sym(fmt.Sprint("arg", i), p.Type()))
				continue
			}
			ctx := e.Sym(fmt.Sprint("ctx", i), pt)
			st.AssumeNil(ctx, false)
			f := e.FieldByName(st.Load(ctx), name)
			st.AssumeNil(f, !set)
			st.Ghost["filter"] = f
			args = append(args, ctx)
		}
		x.Run(x.Start(st, args))
		c.Collect(x, fnName(fn))
	}
}

// keepsField: a field of a new struct is set to that of another one, or the
// whole struct is.
func keepsField(a ssa.Value, t types.Type, field int) bool {
	for _, r := range *a.Referrers() {
		switch r := r.(type) {
		case *ssa.Store:
			if r.Addr == a {
				if u, ok := r.Val.(*ssa.UnOp); ok && u.Op == token.MUL {
					return true
				}
				if _, ok := r.Val.(*ssa.Parameter); ok {
					return true
				}
			}
		case *ssa.FieldAddr:
			if r.Field != field {
				continue
			}
			for _, s := range *r.Referrers() {
				if s, ok := s.(*ssa.Store); ok && s.Addr == r && loadOf(s.Val, t, field) {
					return true
				}
			}
		}
	}
	return false
}

// loadOf: the value is that field of some struct.
func loadOf(v ssa.Value, t types.Type, field int) bool {
	switch v := v.(type) {
	case *ssa.UnOp:
		fa, ok := v.X.(*ssa.FieldAddr)
		return ok && v.Op == token.MUL && fa.Field == field && types.Identical(fa.X.Type().Underlying().(*types.Pointer).Elem(), t)
	case *ssa.Field:
		return v.Field == field && types.Identical(v.X.Type(), t)
	}
	return false
}

// reach notes that a call is followed.
func (c *Ctx) reach(in ssa.Instruction) {
	if c.reached != nil && in != nil {
		c.reached[in] = true
	}
}

var _ = fmt.Sprint
var _ ai.V

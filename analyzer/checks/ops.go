package checks

import (
	"go/types"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/ai"
)

func init() { register("A03", a03) }

// isComparator: the functions that order two plain values.
func (c *Ctx) isComparator(fn *ssa.Function) bool {
	s := fn.Signature
	if fn.Pkg != c.R.SSA || s.Recv() != nil || s.Params().Len() != 2 || s.Results().Len() != 2 {
		return false
	}
	any1 := func(t types.Type) bool {
		i, ok := t.Underlying().(*types.Interface)
		return ok && i.NumMethods() == 0
	}
	b, ok := s.Results().At(0).Type().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Int && isError(s.Results().At(1).Type()) && any1(s.Params().At(0).Type()) && any1(s.Params().At(1).Type())
}

func isError(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() == nil && n.Obj().Name() == "error"
}

// opsMonitor leaves sub-expressions and comparators opaque; every call of a
// comparator becomes an event "cmp" with one of the results "<", "=", ">"
// and "err", which on() sees before the caller does.
func (c *Ctx) opsMonitor(on func(x *ai.Exec, st *ai.State, a, b *ai.V, r string) []*ai.State) *ai.Monitor {
	return &ai.Monitor{
		Boundary: func(x *ai.Exec, st *ai.State, fn *ssa.Function) bool {
			return evalBoundary(x, st, fn) || c.isComparator(fn)
		},
		BoundaryCall: func(x *ai.Exec, st *ai.State, ci *ai.CallInfo) ([]*ai.State, bool) {
			if !c.isComparator(ci.Fn) {
				return nil, false
			}
			e := c.E
			a, b := ci.Args[0], ci.Args[1]
			var out []*ai.State
			for i, r := range []string{"<", "=", ">", "err"} {
				s := st.Clone()
				if r == "err" {
					s.Note("    comparing %s with %s fails", a.Show(), b.Show())
					x.Ret(s, ci, e.Fresh(types.Typ[types.Int], "cmp"), s.NewError("cmperr"))
				} else {
					s.Note("    comparison: %s %s %s", a.Show(), r, b.Show())
					x.Ret(s, ci, e.Int(int64(i-1)), e.Nil(types.Universe.Lookup("error").Type()))
				}
				out = append(out, on(x, s, a, b, r)...)
			}
			return out, true
		},
	}
}

func mirrorRel(r string) string {
	switch r {
	case "<":
		return ">"
	case ">":
		return "<"
	}
	return r
}

// --- A03 -----------------------------------------------------------------------------------------

var relOps = []string{"=", "<>", "<", "<=", ">", ">="}

func relHolds(op, r string) bool {
	switch op {
	case "=":
		return r == "="
	case "<>":
		return r != "="
	case "<":
		return r == "<"
	case "<=":
		return r != ">"
	case ">":
		return r == ">"
	}
	return r != "<"
}

// stringField is the only string field of a struct value.
func (c *Ctx) stringField(v *ai.V) *ai.V {
	s, ok := v.T.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	var r *ai.V
	for i := 0; i < s.NumFields(); i++ {
		if b, ok := s.Field(i).Type().Underlying().(*types.Basic); ok && b.Kind() == types.String {
			if r != nil {
				return nil
			}
			r = c.E.Field(v, i)
		}
	}
	return r
}

func a03(c *Ctx) {
	c.Rule("every path of the comparison evaluator is followed over an unbounded chain; each operand is split into null and not null, each comparison into less, equal, greater and failing, each link into the six operators; the returned value is compared with the three-valued conjunction of the links")
	c.comparison()
	c.relBuilder()
}

func (c *Ctx) comparison() {
	fn := c.Method("comparisonExpression", "Evaluate")
	if fn == nil {
		return
	}
	e := c.E
	what := fnName(fn)
	for _, o := range relOps {
		c.Obl("operator "+o, what)
	}
	for _, r := range []string{"chain", "null-operand", "adjacent-operands", "all-operands", "failure"} {
		c.Obl(r, what)
	}
	at := fn.Blocks[0].Instrs[0]
	mon := c.opsMonitor(func(x *ai.Exec, st *ai.State, a, b *ai.V, r string) []*ai.State {
		if r == "err" {
			st.SetGS("failed", "a comparison")
			return []*ai.State{st}
		}
		p, q := st.Ghost["prev"], st.Ghost["cur"]
		switch {
		case p == nil || q == nil:
			st.SetGS("wrong", "y")
		case a == p && b == q:
		case a == q && b == p:
			r = mirrorRel(r)
		default:
			st.SetGS("wrong", "y")
		}
		if st.GS("link") != "pending" {
			return []*ai.State{st}
		}
		st.SetGS("link", "")
		if !relHolds(st.GS("op"), r) {
			st.SetGS("sawF", st.GS("op"))
		} else {
			st.SetGS("sawT", "y")
		}
		st.SetGS("op", "")
		return []*ai.State{st}
	})
	mon.OnEvent = func(x *ai.Exec, st *ai.State, ev *ai.Event) []*ai.State {
		switch ev.Kind {
		case "evalerr":
			st.SetGS("failed", "an operand")
			return nil
		case "eval":
		default:
			return nil
		}
		if st.GS("link") == "pending" {
			st.SetGS("skipped", "y")
		}
		appendGhost(st, "evaluated", ev.Recv)
		g := e.Get(st, ev.Res[0])
		first := st.Ghost["cur"] == nil
		var op *ai.V
		if !first {
			if ev.Recv.Op == "field" {
				op = c.stringField(ev.Recv.Args[0])
			}
			if op == nil {
				st.SetGS("wrong", "y")
				return nil
			}
		}
		st.Ghost["prev"] = st.Ghost["cur"]
		st.Ghost["cur"] = g
		if first {
			delete(st.Ghost, "prev")
		}
		var out []*ai.State
		for _, o := range relOps {
			s := st.Clone()
			if !first {
				if !s.Assume(e.Cmp(op, e.Str(o), ai.EQ), true) {
					continue
				}
				s.SetGS("op", o)
				s.Note("    the operator is %s", o)
			}
			prevNull := s.GS("curNull")
			n := s.Clone()
			if n.AssumeNil(g, true) {
				n.Note("    the operand is null")
				n.SetGS("curNull", "y")
				if !first {
					n.SetGS("sawN", "y")
				}
				n.SetGS("link", "")
				n.SetGS("op", "")
				out = append(out, n)
			}
			if s.AssumeNil(g, false) {
				s.SetGS("curNull", "")
				s.SetGS("link", "")
				if prevNull != "" {
					s.SetGS("op", "")
				}
				switch {
				case first:
				case prevNull != "":
					s.SetGS("sawN", "y")
				default:
					s.SetGS("link", "pending")
				}
				out = append(out, s)
			}
			if first {
				break
			}
		}
		return out
	}
	mon.OnReturn = func(x *ai.Exec, st *ai.State, res []*ai.V) {
		for k, s := range outcomes(st, res) {
			F, N := s.GS("sawF") != "", s.GS("sawN") != ""
			failed := s.GS("failed")
			if k == "err" {
				if failed == "" {
					x.Report(s, "chain", at, "the comparison reports an error although nothing failed")
				}
				continue
			}
			if failed != "" {
				x.Report(s, "failure", at, "the comparison succeeds although %s failed", failed)
				continue
			}
			if s.GS("wrong") != "" && !F {
				x.Report(s, "adjacent-operands", at, "the comparison compares operands that are not adjacent")
				continue
			}
			want := "T"
			switch {
			case F:
				want = "F"
			case s.GS("link") == "pending" || s.GS("skipped") != "":
				x.Report(s, "chain", at, "the comparison returns without comparing two non-null operands")
				continue
			case N:
				want = "N"
			}
			names := map[string]string{"T": "true", "F": "false", "N": "null", "B": "a non-boolean", "nil": "no value"}
			if k != want {
				rule := "chain"
				if N && !F {
					rule = "null-operand"
				}
				if s.GS("sawF") != "" {
					x.Report(s, "operator "+s.GS("sawF"), at, "a chain whose link %s does not hold gives %s", s.GS("sawF"), names[k])
					continue
				}
				x.Report(s, rule, at, "the comparison gives %s where every link is true or null: expected %s", names[k], names[want])
				continue
			}
			if !F && !c.chainEvaluated(s) {
				x.Report(s, "all-operands", at, "the comparison gives %s without having evaluated all operands in order", names[k])
			}
		}
	}
	x := ai.NewExec(e, fn, mon)
	x.Debug = c.Debug
	st, args := c.startMethod(x)
	st.Ghost["recv"] = args[0]
	if p := c.field(st, args[0], "second"); p != nil {
		st.Assume(e.Cmp(e.Len(p), e.Int(0), ai.GT), true)
	}
	st.Ghost["evaluated"] = e.List(types.NewSlice(types.Typ[types.Int]))
	x.Run(st)
	c.Collect(x, what)
}

func (c *Ctx) chainEvaluated(st *ai.State) bool {
	e := c.E
	recv := st.Ghost["recv"]
	f, s := c.field(st, recv, "first"), c.field(st, recv, "second")
	if f == nil || s == nil {
		return false
	}
	i := e.BVar(0)
	el := e.Elem(s, i, s.T.Underlying().(*types.Slice).Elem())
	x := e.FieldByName(el, "expr")
	if x == nil {
		return false
	}
	want := e.List(st.Ghost["evaluated"].T, e.One(f), e.Comp(e.Int(0), st.LenOf(s), x, 0))
	return st.SameList(want, st.Ghost["evaluated"])
}

// relBuilder: what a written comparison means, from its parse tree.
func (c *Ctx) relBuilder() {
	e := c.E
	parts := e.Gram.Shapes("oC_PartialComparisonExpression", 1)
	var tight []*ai.Tree
	for _, p := range parts {
		if !p.Has("SP") {
			tight = append(tight, p)
		}
	}
	if len(tight) != len(relOps) {
		c.Undecided("oC_PartialComparisonExpression", 0, "the grammar has %d comparison operators instead of %d", len(tight), len(relOps))
		return
	}
	c.shapes("oC_ComparisonExpression", 3, nil, func(t0 *ai.Tree) {
		use := parts
		switch len(t0.All("oC_PartialComparisonExpression")) {
		case 2:
			use = tight
		case 3:
			use = []*ai.Tree{tight[0], tight[len(tight)-1]}
		}
		for _, t := range expand(t0, "oC_PartialComparisonExpression", use) {
			c.relShape(t)
		}
	})
}

func (c *Ctx) relShape(t *ai.Tree) {
	e := c.E
	ls := operands(t)
	var ops []string
	for _, p := range t.All("oC_PartialComparisonExpression") {
		ops = append(ops, p.Kids[0].Text)
	}
	c.Obl("text", t.Rule+" "+t.String())
	key := func(i int) string { return leafKey(i) }
	val := func(i int) string { return "val" + string(rune('0'+i)) }
	rel := func(i int) string { return "rel" + string(rune('0'+i)) }
	mon := c.opsMonitor(func(x *ai.Exec, st *ai.State, a, b *ai.V, r string) []*ai.State {
		for i := range ops {
			p, q := st.Ghost[val(i)], st.Ghost[val(i+1)]
			switch {
			case p == nil || q == nil:
				continue
			case a == p && b == q:
				st.SetGS(rel(i), r)
			case a == q && b == p:
				st.SetGS(rel(i), mirrorRel(r))
			}
		}
		return []*ai.State{st}
	})
	mon.Boundary = func(x *ai.Exec, st *ai.State, fn *ssa.Function) bool { return c.isComparator(fn) }
	mon.OnEvent = func(x *ai.Exec, st *ai.State, ev *ai.Event) []*ai.State {
		if ev.Kind != "eval" && ev.Kind != "evalerr" {
			return nil
		}
		i := indexOf(ls, c.leafOf(ev.Recv))
		if i < 0 {
			return nil
		}
		if ev.Kind == "evalerr" {
			st.SetGS(key(i), "failed")
			return nil
		}
		g := e.Get(st, ev.Res[0])
		st.Ghost[val(i)] = g
		n := st.Clone()
		var out []*ai.State
		if n.AssumeNil(g, true) {
			n.SetGS(key(i), "N")
			out = append(out, n)
		}
		if st.AssumeNil(g, false) {
			st.SetGS(key(i), "V")
			out = append(out, st)
		}
		return out
	}
	c.runShape(t, mon, nil, true, func(r *shapeRun, st *ai.State, built *ai.V, res []*ai.V) {
		if len(ops) == 0 {
			if res[0] != st.Ghost[val(0)] && st.GS(key(0)) != "failed" && e.Get(st, res[0]) != st.Ghost[val(0)] {
				r.report(st, "text", "%s does not give the value of its operand", t)
			}
			return
		}
		for k, s := range outcomes(st, res) {
			failed, F, N, missing := false, false, false, ""
			for i := range ls {
				failed = failed || s.GS(key(i)) == "failed"
			}
			for i, o := range ops {
				a, b, v := s.GS(key(i)), s.GS(key(i+1)), s.GS(rel(i))
				switch {
				case v == "err":
					failed = true
				case a == "N" || b == "N":
					N = true
				case v == "":
					missing = o
				case !relHolds(o, v):
					F = true
				}
			}
			want := "T"
			switch {
			case failed:
				want = "err"
			case F:
				want = "F"
			case missing != "":
				r.report(s, "text", "%s gives %s without comparing the operands of %s", t, k, missing)
				continue
			case N:
				want = "N"
			}
			if k != want {
				r.report(s, "text", "%s gives %s instead of %s", t, k, want)
			}
		}
	})
}

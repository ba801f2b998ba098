package checks

import (
	"go/types"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/ai"
)

func init() { register("A01", a01) }

// evalBoundary: the Evaluate methods of other syntax nodes stay opaque.
func evalBoundary(x *ai.Exec, st *ai.State, fn *ssa.Function) bool {
	return x.E.IsEvaluate(fn) && fn != x.Entry
}

// startMethod prepares receiver and context symbols for an Evaluate method.
func (c *Ctx) startMethod(x *ai.Exec) (*ai.State, []*ai.V) {
	st := ai.NewState(c.E)
	var args []*ai.V
	for i, p := range x.Entry.Params {
		n := "arg:" + p.Name()
		if i == 0 && x.Entry.Signature.Recv() != nil {
			n = "expr"
		}
		if isCtx(p.Type()) {
			n = "ctx"
		}
		v := c.E.Sym(n, p.Type())
		if _, ok := p.Type().Underlying().(*types.Pointer); ok {
			st.AssumeNil(v, false)
		}
		args = append(args, v)
	}
	return x.Start(st, args), args
}

func isCtx(t types.Type) bool {
	p, ok := t.(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := p.Elem().(*types.Named)
	return ok && n.Obj().Name() == "EvalContext"
}

// splitBool enumerates what a value read from an operand can be: "N" null,
// "T" true, "F" false, "B" anything else.
func splitBool(st *ai.State, g *ai.V) map[string]*ai.State {
	tb := types.Typ[types.Bool]
	out := map[string]*ai.State{}
	n := st.Clone()
	if n.AssumeNil(g, true) {
		out["N"] = n
	}
	b := st.Clone()
	if b.AssumeNil(g, false) && b.AssumeType(g, tb, true) {
		p := b.Payload(g, tb)
		t := b.Clone()
		if t.Assume(p, true) {
			out["T"] = t
		}
		if b.Assume(p, false) {
			out["F"] = b
		}
	}
	o := st.Clone()
	if o.AssumeNil(g, false) && o.AssumeType(g, tb, false) {
		out["B"] = o
	}
	return out
}

// outcome of a (Value, error) return: "err", "N", "T", "F", "B" or "?".
func outcomes(st *ai.State, res []*ai.V) map[string]*ai.State {
	out := map[string]*ai.State{}
	bad := st.Clone()
	if bad.AssumeNil(res[1], false) {
		out["err"] = bad
	}
	ok := st.Clone()
	if !ok.AssumeNil(res[1], true) {
		return out
	}
	nv := ok.Clone()
	if nv.AssumeNil(res[0], true) {
		out["nil"] = nv
	}
	if ok.AssumeNil(res[0], false) {
		for k, s := range splitBool(ok, st.E().Get(ok, res[0])) {
			out[k] = s
		}
	}
	return out
}

func a01(c *Ctx) {
	c.Rule("every path of the AND, OR, XOR and NOT evaluators is followed by abstract interpretation over an unbounded list of operands; a monitor records which of true, false, null and non-boolean operands were seen (and their parity for XOR) and compares the returned value with Kleene's tables")
	for _, op := range []string{"and", "or", "xor", "not"} {
		fn := c.Method(op+"Expression", "Evaluate")
		if fn == nil {
			continue
		}
		c.connective(op, fn)
	}
	c.Rule("the builders of the connectives are followed over every sequence of children the grammar admits (up to three repetitions), and evaluating what they built gives what the text says")
	for op, rule := range map[string]string{"and": "oC_AndExpression", "or": "oC_OrExpression", "xor": "oC_XorExpression", "not": "oC_NotExpression"} {
		c.connectiveShapes(op, rule, 3)
	}
}

func (c *Ctx) connective(op string, fn *ssa.Function) {
	what := fnName(fn)
	c.Obl("kleene-"+op, what)
	c.Obl("all-operands-"+op, what)
	c.Obl("non-boolean-"+op, what)
	c.Obl("failure-"+op, what)
	e := c.E
	mon := &ai.Monitor{Boundary: evalBoundary}
	mon.OnEvent = func(x *ai.Exec, st *ai.State, ev *ai.Event) []*ai.State {
		switch ev.Kind {
		case "eval":
			var out []*ai.State
			for k, s := range splitBool(st, e.Get(st, ev.Res[0])) {
				s.Note("    operand is %s", map[string]string{"N": "null", "T": "true", "F": "false", "B": "neither boolean nor null"}[k])
				s.SetGS("seen"+k, "y")
				if k == "T" {
					if s.GS("odd") == "" {
						s.SetGS("odd", "y")
					} else {
						s.SetGS("odd", "")
					}
				}
				appendGhost(s, "evaluated", ev.Recv)
				out = append(out, s)
			}
			return out
		case "evalerr":
			st.SetGS("failed", "y")
		}
		return nil
	}
	mon.OnReturn = func(x *ai.Exec, st *ai.State, res []*ai.V) {
		for k, s := range outcomes(st, res) {
			F, T, N, B := s.GS("seenF") != "", s.GS("seenT") != "", s.GS("seenN") != "", s.GS("seenB") != ""
			failed := s.GS("failed") != ""
			if k == "err" {
				if !failed && !B {
					x.Report(s, "kleene-"+op, fn.Blocks[0].Instrs[0], "%s reports an error although no operand failed and all are boolean or null", op)
				}
				continue
			}
			if failed {
				x.Report(s, "failure-"+op, fn.Blocks[0].Instrs[0], "%s succeeds although evaluating an operand failed", op)
				continue
			}
			want := map[string]bool{}
			complete := true // all operands have to be inspected
			switch op {
			case "and", "or":
				absorb, neutral := "F", "T"
				seen := F
				if op == "or" {
					absorb, neutral = "T", "F"
					seen = T
				}
				switch {
				case seen:
					want[absorb] = true
					complete = false
				case N:
					want["N"] = true
				case B:
				default:
					want[neutral] = true
				}
			case "xor":
				switch {
				case N:
					want["N"] = true
					complete = false
				case B:
				case s.GS("odd") != "":
					want["T"] = true
				default:
					want["F"] = true
				}
			case "not":
				switch {
				case N:
					want["N"] = true
				case T:
					want["F"] = true
				case F:
					want["T"] = true
				}
			}
			names := map[string]string{"T": "true", "F": "false", "N": "null", "B": "a non-boolean", "nil": "no value"}
			if !want[k] {
				if c.Debug {
					s.Note("%s", s.Dump())
				}
				x.Report(s, "kleene-"+op, fn.Blocks[0].Instrs[0], "%s returns %s for operands including%s", op, names[k], seenText(F, T, N, B, s.GS("odd") != ""))
			}
			if complete && !c.allOperands(s, op) {
				_ = 0
				x.Report(s, "all-operands-"+op, fn.Blocks[0].Instrs[0], "%s returns %s without having evaluated all operands", op, names[k])
			}
		}
	}
	mon.OnPanic = func(x *ai.Exec, st *ai.State, w string, at ssa.Instruction) {}
	x := ai.NewExec(e, fn, mon)
	x.Debug = c.Debug
	st, args := c.startMethod(x)
	st.Ghost["recv"] = args[0]
	if p := e.FieldByName(args[0], "parts"); p != nil {
		st.Assume(e.Cmp(e.Len(p), e.Int(1), ai.GT), true)
	}
	st.Ghost["evaluated"] = e.List(types.NewSlice(types.Typ[types.Int]))
	x.Run(st)
	c.Collect(x, what)
}

func seenText(f, t, n, b, odd bool) string {
	r := ""
	for _, k := range []struct {
		on bool
		s  string
	}{{f, " false"}, {t, " true"}, {n, " null"}, {b, " a non-boolean"}, {odd, " (odd number of true)"}} {
		if k.on {
			r += k.s
		}
	}
	if r == "" {
		return " none"
	}
	return r
}

func appendGhost(st *ai.State, name string, v *ai.V) {
	e := st.E()
	l := st.Ghost[name]
	st.Ghost[name] = e.List(l.T, append(append([]*ai.V(nil), l.Args...), e.One(v))...)
}

// allOperands: every operand of the receiver has been evaluated, in order.
func (c *Ctx) allOperands(st *ai.State, op string) bool {
	e := c.E
	recv := st.Ghost["recv"]
	var want *ai.V
	if op == "not" {
		p := e.FieldByName(recv, "part")
		if p == nil {
			return false
		}
		want = e.List(st.Ghost["evaluated"].T, e.One(p))
	} else {
		p := e.FieldByName(recv, "parts")
		if p == nil {
			return false
		}
		want = e.List(st.Ghost["evaluated"].T, st.Segs(p)...)
	}
	return st.SameList(want, st.Ghost["evaluated"])
}

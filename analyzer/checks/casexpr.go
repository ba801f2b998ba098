package checks

import (
	"golang.org/x/tools/go/ssa"

	"verif/analyzer/ai"
)

func init() { register("A06", a06) }

func a06(c *Ctx) {
	c.Rule("builder and evaluator of CASE are followed for every written form of up to three alternatives and every value of the test and of the conditions; which branch is evaluated and what is returned is compared with the text")
	alts := c.E.Gram.Shapes("oC_CaseAlternatives", 1)
	if len(alts) == 0 {
		c.Undecided("oC_CaseAlternatives", 0, "the grammar has no rule oC_CaseAlternatives")
		return
	}
	c.shapes("oC_CaseExpression", 3, nil, func(t0 *ai.Tree) {
		use := alts
		if len(t0.All("oC_CaseAlternatives")) > 1 {
			use = alts[:1]
			if t0.Has("SP") {
				use = alts[len(alts)-1:]
			}
		}
		for _, t := range expand(t0, "oC_CaseAlternatives", use) {
			c.caseShape(t)
		}
	})
}

func (c *Ctx) caseShape(t *ai.Tree) {
	e := c.E
	ls := operands(t)
	what := "CaseExpression " + t.String()
	c.Obl("text", what)
	var test, els *ai.Tree
	past := false
	for _, k := range t.Kids {
		switch {
		case k.Is("ELSE"):
			past = true
		case k.Is("oC_Expression") && past:
			els = k
		case k.Is("oC_Expression"):
			test = k
		}
	}
	idx := func(l *ai.Tree) int { return indexOf(ls, l) }
	mon := c.opsMonitor(func(x *ai.Exec, st *ai.State, a, b *ai.V, r string) []*ai.State {
		st.SetGS(cmpKey(a, b), r)
		st.SetGS(cmpKey(b, a), mirrorRel(r))
		return []*ai.State{st}
	})
	mon.Boundary = func(x *ai.Exec, st *ai.State, fn *ssa.Function) bool { return c.isComparator(fn) }
	mon.OnEvent = func(x *ai.Exec, st *ai.State, ev *ai.Event) []*ai.State {
		if ev.Kind != "eval" && ev.Kind != "evalerr" {
			return nil
		}
		i := indexOf(ls, c.leafOf(ev.Recv))
		if i < 0 {
			return nil
		}
		if ev.Kind == "evalerr" {
			st.SetGS(leafKey(i), "failed")
			return nil
		}
		g := e.Get(st, ev.Res[0])
		st.Ghost[valKey(i)] = g
		st.SetGS(leafKey(i), "value")
		return nil
	}
	mon.OnPanic = func(x *ai.Exec, st *ai.State, w string, at ssa.Instruction) {
		x.Report(st, "text", at, "%s panics: %s", what, w)
	}
	c.runShape(t, mon, nil, true, func(r *shapeRun, st *ai.State, built *ai.V, res []*ai.V) {
		for i := range ls {
			if st.GS(leafKey(i)) == "failed" {
				c.specMatch(r, specOut{st: st, err: true, why: "an operand fails"}, res)
				return
			}
		}
		// finish: the branch the text selects, nil for none
		finish := func(st *ai.State, then *ai.Tree, why string) {
			branches := []*ai.Tree{els}
			for _, a := range t.All("oC_CaseAlternatives") {
				branches = append(branches, a.All("oC_Expression")[1])
			}
			for _, b := range branches {
				if b == nil || b == then || st.GS(leafKey(idx(b))) == "" {
					continue
				}
				r.report(st, "text", "%s evaluates a branch that is not selected (operand %d), %s", t, idx(b)+1, why)
				return
			}
			if then == nil {
				c.specMatch(r, specOut{st: st, v: c.null(), why: why}, res)
				return
			}
			v := st.Ghost[valKey(idx(then))]
			if v == nil {
				r.report(st, "text", "%s does not evaluate the selected branch (operand %d), %s", t, idx(then)+1, why)
				return
			}
			c.specMatch(r, specOut{st: st, v: v, why: why}, res)
		}
		type sel struct {
			st  *ai.State
			why string
		}
		cur := []sel{{st: st}}
		if test != nil {
			v := st.Ghost[valKey(idx(test))]
			if v == nil {
				r.report(st, "text", "%s does not evaluate its test", t)
				return
			}
			cur = nil
			for _, k := range c.byKind(st, v, nil) {
				if k.k == "null" {
					finish(k.st, els, "the test is null")
				} else {
					cur = append(cur, sel{k.st, "the test is not null"})
				}
			}
		}
		for _, a := range t.All("oC_CaseAlternatives") {
			when, then := a.All("oC_Expression")[0], a.All("oC_Expression")[1]
			var next []sel
			for _, s := range cur {
				w := s.st.Ghost[valKey(idx(when))]
				if w == nil {
					r.report(s.st, "text", "%s does not evaluate a condition (operand %d)", t, idx(when)+1)
					continue
				}
				if test != nil {
					for _, k := range c.byKind(s.st, w, nil) {
						why := s.why + ", condition null"
						if k.k == "null" {
							next = append(next, sel{k.st, why})
							continue
						}
						rel := k.st.GS(cmpKey(k.st.Ghost[valKey(idx(test))], w))
						why = s.why + ", condition " + rel
						switch rel {
						case "=":
							finish(k.st, then, why)
						case "err":
							c.specMatch(r, specOut{st: k.st, err: true, why: "a condition is incomparable"}, res)
						case "":
							r.report(k.st, "text", "%s does not compare the test with a condition (operand %d)", t, idx(when)+1)
						default:
							next = append(next, sel{k.st, why})
						}
					}
					continue
				}
				for k, q := range splitBool(s.st, w) {
					why := s.why + " condition " + k
					switch k {
					case "T":
						finish(q, then, why)
					case "B":
						c.specMatch(r, specOut{st: q, err: true, why: "a condition is not boolean"}, res)
					default:
						next = append(next, sel{q, why})
					}
				}
			}
			cur = next
		}
		for _, s := range cur {
			finish(s.st, els, s.why)
		}
	})
}

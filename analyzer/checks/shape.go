package checks

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/ai"
)

// Shapes: the builder of a grammar rule is followed over every sequence of
// children the rule admits (repetitions up to a bound), and what it built is
// evaluated with the children's own evaluation left opaque. What comes out is
// compared with what the text says, whatever the syntax tree looks like in
// between.

// builderOf finds the function that turns nodes of a rule into syntax tree.
func (c *Ctx) builderOf(rule string) *ssa.Function {
	if f := c.R.Func(rule); f != nil && isBuilder(f) {
		return f
	}
	var found *ssa.Function
	for _, f := range c.builders() {
		p := f.Signature.Params()
		if p.Len() == 1 && strings.HasSuffix(p.At(0).Type().String(), "parser.OC_"+strings.TrimPrefix(rule, "oC_")+"Context") {
			if found != nil {
				c.Undecided(rule, f.Pos(), "several builders for %s", rule)
				return nil
			}
			found = f
		}
	}
	if found == nil {
		c.Undecided(rule, 0, "no builder for %s", rule)
	}
	return found
}

// leafOf: the opaque parse-tree node a syntax tree node was built from.
func (c *Ctx) leafOf(v *ai.V) *ai.Tree {
	for d := 0; v != nil && d < 6; d++ {
		switch v.Op {
		case "ast":
			return c.E.TreeOf(v.Args[0])
		case "iface", "as", "deref", "conv":
			v = v.Args[0]
		default:
			return nil
		}
	}
	return nil
}

// opaqueNode: the builder of a node whose children are not known, or a
// method of what it built.
func (c *Ctx) opaqueNode(x *ai.Exec, st *ai.State, ci *ai.CallInfo) bool {
	if len(ci.Args) == 0 {
		return false
	}
	if isBuilder(ci.Fn) {
		t := c.E.TreeOf(ci.Args[0])
		return t == nil || len(t.Kids) == 0 && !t.Empty
	}
	return c.E.IsEvaluate(ci.Fn) && c.leafOf(c.content(st, ci.Args[0])) != nil
}

// content of a pointer to a known object, or the value itself.
func (c *Ctx) content(st *ai.State, v *ai.V) *ai.V {
	if v.Op == "ptr" {
		return st.Load(v)
	}
	return v
}

type shapeRun struct {
	c    *Ctx
	t    *ai.Tree
	x    *ai.Exec
	fn   *ssa.Function // the builder
	at   ssa.Instruction
	what string
	ctx  *ai.V
}

// shapes calls f for every shape of a rule that keep accepts.
func (c *Ctx) shapes(rule string, reps int, keep func(t *ai.Tree) bool, f func(t *ai.Tree)) {
	ts := c.E.Gram.Shapes(rule, reps)
	if len(ts) == 0 {
		c.Undecided(rule, 0, "the grammar has no rule %s", rule)
		return
	}
	n := 0
	for _, t := range ts {
		if keep != nil && !keep(t) {
			continue
		}
		n++
		f(t)
	}
	if n == 0 {
		c.Undecided(rule, 0, "no shape of rule %s is left to analyse", rule)
	}
}

// runShape builds a planted tree and, if eval is set, evaluates the result.
func (c *Ctx) runShape(t *ai.Tree, mon *ai.Monitor, ghosts func(st *ai.State), eval bool, done func(r *shapeRun, st *ai.State, built *ai.V, res []*ai.V)) {
	c.runScript(t, t.Rule+" "+t.String(), mon, ghosts, func(r *shapeRun, st *ai.State, k int, prev *ai.V) *ai.Call {
		if k == 1 {
			st.Ghost["built"] = prev
			if eval {
				return &ai.Call{Recv: prev, Method: "Evaluate", Args: []*ai.V{r.ctx}}
			}
			done(r, st, prev, nil)
			return nil
		}
		if prev.Op != "tuple" {
			panic("result of Evaluate is not a pair")
		}
		done(r, st, st.Ghost["built"], prev.Args)
		return nil
	})
}

// runScript builds a planted tree and goes on with the calls of next, which
// is first asked with k = 1 and what was built.
func (c *Ctx) runScript(t *ai.Tree, what string, mon *ai.Monitor, ghosts func(st *ai.State), next func(r *shapeRun, st *ai.State, k int, prev *ai.V) *ai.Call) {
	fn := c.builderOf(t.Rule)
	if fn == nil {
		return
	}
	c.E.Plant(t)
	r := &shapeRun{c: c, t: t, fn: fn, at: fn.Blocks[0].Instrs[0], what: what}
	inner, innerCall := mon.BoundaryArgs, mon.BoundaryCall
	mon.BoundaryArgs = func(x *ai.Exec, st *ai.State, ci *ai.CallInfo) bool {
		return c.opaqueNode(x, st, ci) || inner != nil && inner(x, st, ci)
	}
	mon.BoundaryCall = func(x *ai.Exec, st *ai.State, ci *ai.CallInfo) ([]*ai.State, bool) {
		if innerCall != nil {
			if s, ok := innerCall(x, st, ci); ok {
				return s, ok
			}
		}
		if isBuilder(ci.Fn) {
			return c.builderResult(x, st, ci)
		}
		return nil, false
	}
	if mon.OnPanic == nil {
		mon.OnPanic = func(x *ai.Exec, st *ai.State, w string, at ssa.Instruction) {}
	}
	x := ai.NewExec(c.E, fn, mon)
	x.Debug = c.Debug
	x.Unroll, x.Recur = 300, 5
	r.x = x
	st := ai.NewState(c.E)
	if ghosts != nil {
		ghosts(st)
	}
	r.ctx = c.E.Sym("ctx", c.ctxType())
	st.AssumeNil(r.ctx, false)
	x.RunScript(st, func(st *ai.State, k int, prev *ai.V) *ai.Call {
		if k == 0 {
			return &ai.Call{Fn: fn, Args: []*ai.V{t.Node}}
		}
		return next(r, st, k, prev)
	})
	c.Collect(x, r.what)
}

func (c *Ctx) ctxType() types.Type {
	if t := c.R.Type("EvalContext"); t != nil {
		return types.NewPointer(t)
	}
	return types.NewPointer(types.NewStruct(nil, nil))
}

func (r *shapeRun) report(st *ai.State, rule, format string, args ...any) {
	r.x.Report(st, rule, r.at, format, args...)
}

// operandClass tracks what each leaf evaluated to: ghost "k<index>".
func (c *Ctx) leafIndex(t *ai.Tree, leaf *ai.Tree) int {
	n := 0
	for _, k := range t.Kids {
		if k == leaf {
			return n
		}
		if !k.Terminal() {
			n++
		}
	}
	return -1
}

func (c *Ctx) leaves(t *ai.Tree) []*ai.Tree {
	var r []*ai.Tree
	for _, k := range t.Kids {
		if !k.Terminal() {
			r = append(r, k)
		}
	}
	return r
}

// expand replaces every opaque child of a rule by each of its shapes.
func expand(t *ai.Tree, rule string, ks []*ai.Tree) []*ai.Tree {
	cur := []*ai.Tree{{Rule: t.Rule}}
	for _, k := range t.Kids {
		opts := []*ai.Tree{k}
		if k.Rule == rule && len(k.Kids) == 0 {
			opts = ks
		}
		var next []*ai.Tree
		for _, c := range cur {
			for _, o := range opts {
				next = append(next, &ai.Tree{Rule: t.Rule, Kids: append(append([]*ai.Tree(nil), c.Kids...), clone(o))})
			}
		}
		cur = next
	}
	return cur
}

func clone(t *ai.Tree) *ai.Tree {
	r := &ai.Tree{Rule: t.Rule, Sym: t.Sym, Text: t.Text, Empty: t.Empty}
	for _, k := range t.Kids {
		r.Kids = append(r.Kids, clone(k))
	}
	return r
}

// operands of a tree: its opaque rule nodes, in order, at any depth.
func operands(t *ai.Tree) []*ai.Tree {
	if t.Terminal() {
		return nil
	}
	if len(t.Kids) == 0 {
		return []*ai.Tree{t}
	}
	var r []*ai.Tree
	for _, k := range t.Kids {
		r = append(r, operands(k)...)
	}
	return r
}

func indexOf(l []*ai.Tree, t *ai.Tree) int {
	for i, k := range l {
		if k == t {
			return i
		}
	}
	return -1
}

// leafKey is the ghost that holds what a leaf evaluated to.
func leafKey(i int) string { return "leaf" + string(rune('0'+i)) }

// connectiveShapes: what the text of a connective means, from its parse tree.
func (c *Ctx) connectiveShapes(op, rule string, reps int) {
	e := c.E
	c.shapes(rule, reps, func(t *ai.Tree) bool { return true }, func(t *ai.Tree) {
		what := rule + " " + t.String()
		c.Obl("text-"+op, what)
		mon := &ai.Monitor{}
		mon.OnEvent = func(x *ai.Exec, st *ai.State, ev *ai.Event) []*ai.State {
			if ev.Kind != "eval" && ev.Kind != "evalerr" {
				return nil
			}
			i := c.leafIndex(t, c.leafOf(ev.Recv))
			if i < 0 {
				return nil
			}
			if ev.Kind == "evalerr" {
				st.SetGS(leafKey(i), "failed")
				return nil
			}
			var out []*ai.State
			for k, s := range splitBool(st, e.Get(st, ev.Res[0])) {
				s.SetGS(leafKey(i), k)
				out = append(out, s)
			}
			return out
		}
		ls := c.leaves(t)
		nots := len(t.All("NOT"))
		c.runShape(t, mon, nil, true, func(r *shapeRun, st *ai.State, built *ai.V, res []*ai.V) {
			for k, s := range outcomes(st, res) {
				failed := false
				cnt := map[string]int{}
				for i := range ls {
					g := s.GS(leafKey(i))
					if g == "failed" {
						failed = true
					}
					cnt[g]++
				}
				if failed {
					if k != "err" {
						r.report(s, "text-"+op, "%s: an operand fails but the result is %s", t, k)
					}
					continue
				}
				if cnt["B"] > 0 {
					continue // the other obligations of this property speak about it
				}
				want, partial := "", false
				switch op {
				case "and", "or":
					abs, neu := "F", "T"
					if op == "or" {
						abs, neu = "T", "F"
					}
					switch {
					case cnt[abs] > 0:
						want, partial = abs, true
					case cnt["N"] > 0:
						want = "N"
					default:
						want = neu
					}
				case "xor":
					want = "F"
					if cnt["T"]%2 == 1 {
						want = "T"
					}
					if cnt["N"] > 0 {
						want, partial = "N", true
					}
				case "not":
					want = s.GS(leafKey(0))
					if nots%2 == 1 {
						want = map[string]string{"T": "F", "F": "T", "N": "N"}[want]
					}
				}
				if len(ls) == 1 && op != "not" {
					want = s.GS(leafKey(0))
				}
				if cnt[""] > 0 && !partial {
					r.report(s, "text-"+op, "%s: %d operands are not evaluated", t, cnt[""])
					continue
				}
				if k != want {
					r.report(s, "text-"+op, "%s gives %s instead of %s", t, k, want)
				}
			}
		})
	})
}

package checks

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/ai"
)

func init() {
	register("A05", a05)
	register("A07", a07)
}

// specOut is what the meaning of a text allows in a state.
type specOut struct {
	st     *ai.State
	err    bool  // an error
	any    bool  // nothing is required
	orErr  bool  // the value or an error
	unsure bool  // the meaning depends on something the code never looked at
	v      *ai.V // otherwise: this content of the value
	why    string
}

// listMax is the longest list in the bounded explorations.
const listMax = 4

const opRule = "oC_StringListNullOperatorExpression"

func a07(c *Ctx) {
	c.Rule("builder and evaluator of the string and null operators are followed for every written form and every kind of operand; the result is compared with the relation the text names")
	c.operatorShapes(1, func(ps []*ai.Tree) bool { return ps[0].Rule != "oC_ListOperatorExpression" })
	c.operatorShapes(2, func(ps []*ai.Tree) bool {
		for _, p := range ps {
			if p.Rule == "oC_ListOperatorExpression" || spaced(p) {
				return false
			}
		}
		return true
	})
}

func a05(c *Ctx) {
	c.Rule("builder and evaluator of IN, index and slice are followed for every written form, every kind of operand, every index and bound and lists of up to %d opaque elements; the result is compared with the meaning of the text", listMax)
	c.operatorShapes(1, func(ps []*ai.Tree) bool { return ps[0].Rule == "oC_ListOperatorExpression" })
	c.operatorShapes(2, func(ps []*ai.Tree) bool {
		// a null operator on one side: what is between the two operators
		// is then decided by its kind alone
		l, n, ix := 0, 0, 0
		for i, p := range ps {
			if spaced(p) {
				return false
			}
			switch {
			case p.Rule == "oC_NullOperatorExpression":
				n++
			case p.Rule == "oC_ListOperatorExpression":
				l++
				if i == 0 && !p.Has("IN") && !p.Has("'..'") || i == 1 && p.Has("IN") {
					ix++
				}
			}
		}
		return l > 0 && n > 0 && ix == 0
	})
}

// spaced: optional white space is present.
func spaced(p *ai.Tree) bool {
	if p.Rule == "oC_ListOperatorExpression" && !p.Has("IN") {
		return p.Has("SP")
	}
	ks := p.Kids
	return len(ks) > 1 && ks[len(ks)-1].Rule != "" && ks[len(ks)-2].Is("SP")
}

// operatorShapes runs every chain of n operators that keep accepts.
func (c *Ctx) operatorShapes(n int, keep func(ps []*ai.Tree) bool) {
	e := c.E
	opts := map[string][]*ai.Tree{}
	c.shapes(opRule, n, func(t *ai.Tree) bool { return len(t.Kids) == n+1 }, func(t0 *ai.Tree) {
		ts := []*ai.Tree{t0}
		for _, k := range t0.Kids[1:] {
			if opts[k.Rule] == nil {
				opts[k.Rule] = e.Gram.Shapes(k.Rule, 1)
			}
		}
		done := map[string]bool{}
		for _, k := range t0.Kids[1:] {
			if done[k.Rule] {
				continue
			}
			done[k.Rule] = true
			var next []*ai.Tree
			for _, t := range ts {
				next = append(next, expand(t, k.Rule, opts[k.Rule])...)
			}
			ts = next
		}
		for _, t := range ts {
			if keep(t.Kids[1:]) {
				max := listMax
				if n > 1 {
					max = 1
				}
				c.operatorShape(t, max)
			}
		}
	})
}

func cmpKey(a, b *ai.V) string { return fmt.Sprintf("cmp %d ~ %d", a.ID, b.ID) }

// predicate terms of the string operators
var stringPreds = map[string]string{"STARTS": "strings.HasPrefix", "ENDS": "strings.HasSuffix", "CONTAINS": "strings.Contains"}

func (c *Ctx) predTerm(op string, a, b *ai.V) *ai.V {
	return c.E.Mk("call", types.Typ[types.Bool], stringPreds[op], a, b)
}

func (c *Ctx) operatorShape(t *ai.Tree, max int) {
	e := c.E
	ls := operands(t)
	what := strings.TrimPrefix(t.Rule, "oC_") + " " + t.String()
	c.Obl("text", what)
	c.Obl("crash", what)
	lt := c.valueList()
	mon := c.opsMonitor(func(x *ai.Exec, st *ai.State, a, b *ai.V, r string) []*ai.State {
		st.SetGS(cmpKey(a, b), r)
		st.SetGS(cmpKey(b, a), mirrorRel(r))
		return []*ai.State{st}
	})
	mon.Boundary = func(x *ai.Exec, st *ai.State, fn *ssa.Function) bool { return c.isComparator(fn) }
	listLeaf := func(i int) bool {
		if i == 0 {
			return true
		}
		for _, p := range t.Kids {
			if p.Has("IN") && indexOf(p.Kids, ls[i]) >= 0 {
				return true
			}
		}
		return false
	}
	mon.OnEvent = func(x *ai.Exec, st *ai.State, ev *ai.Event) []*ai.State {
		if ev.Kind != "eval" && ev.Kind != "evalerr" {
			return nil
		}
		i := indexOf(ls, c.leafOf(ev.Recv))
		if i < 0 {
			return nil
		}
		if ev.Kind == "evalerr" {
			st.SetGS(leafKey(i), "failed")
			return nil
		}
		g := e.Get(st, ev.Res[0])
		st.Ghost[valKey(i)] = g
		if !listLeaf(i) {
			return nil
		}
		out := c.boundLists(st, g, lt, max)
		if i > 0 {
			out = c.splitElems(out, g, lt)
		}
		return out
	}
	mon.Ext = func(x *ai.Exec, st *ai.State, ci *ai.CallInfo, name string) ([]*ai.State, bool) {
		switch name {
		case "strings.Index", "strings.LastIndex":
			p := c.predTerm("CONTAINS", ci.Args[0], ci.Args[1])
			n := st.Clone()
			var out []*ai.State
			if st.Assume(p, true) {
				r := e.Fresh(types.Typ[types.Int], "index")
				st.AssumeCmp(r, e.Int(0), ai.GT|ai.EQ)
				out = append(out, x.Ret(st, ci, r))
			}
			if n.Assume(p, false) {
				out = append(out, x.Ret(n, ci, e.Int(-1)))
			}
			return out, true
		}
		return nil, false
	}
	mon.OnPanic = func(x *ai.Exec, st *ai.State, w string, at ssa.Instruction) {
		x.Report(st, "crash", at, "%s panics: %s", what, w)
	}
	c.runShape(t, mon, nil, true, func(r *shapeRun, st *ai.State, built *ai.V, res []*ai.V) {
		arg := func(l *ai.Tree) *ai.V {
			i := indexOf(ls, l)
			if v := st.Ghost[valKey(i)]; v != nil {
				return v
			}
			return e.Sym("unevaluated"+l.Rule, types.NewInterfaceType(nil, nil))
		}
		failed := false
		for i := range ls {
			failed = failed || st.GS(leafKey(i)) == "failed"
		}
		if failed {
			c.specMatch(r, specOut{st: st, err: true, why: "an operand fails"}, res)
			return
		}
		cur := []specOut{{st: st, v: arg(ls[0])}}
		for _, p := range t.Kids[1:] {
			var next []specOut
			for _, o := range cur {
				if o.any || o.err || o.unsure {
					next = append(next, o)
					continue
				}
				next = append(next, c.specPart(o, p, arg)...)
			}
			cur = next
		}
		for _, o := range cur {
			c.specMatch(r, o, res)
		}
	})
}

// boundLists splits off the lists of up to max elements, and what is no list;
// longer lists are left out.
func (c *Ctx) boundLists(st *ai.State, g *ai.V, lt types.Type, max int) []*ai.State {
	e := c.E
	var out []*ai.State
	for n := 0; n <= max; n++ {
		s := st.Clone()
		if s.AssumeNil(g, false) && s.AssumeType(g, lt, true) && s.AssumeCmp(s.LenOf(s.Payload(g, lt)), e.Int(int64(n)), ai.EQ) {
			s.Note("    %s is a list of %d", g.Show(), n)
			out = append(out, s)
		}
	}
	if st.AssumeType(g, lt, false) {
		out = append(out, st)
	}
	return out
}

// splitElems splits the lists by which of their elements are null.
func (c *Ctx) splitElems(sts []*ai.State, g *ai.V, lt types.Type) []*ai.State {
	e := c.E
	var out []*ai.State
	for _, st := range sts {
		cur := []*ai.State{st}
		if st.TypeFact(g, lt) == 1 {
			l := st.Payload(g, lt)
			n, _ := c.constInt(st, st.LenOf(l))
			for i := int64(0); i < n; i++ {
				var next []*ai.State
				for _, s := range cur {
					v := e.Get(s, e.Elem(l, e.Int(i), e.ValueT))
					key := fmt.Sprintf("elem%d", i)
					for _, k := range c.byKind(s, v, nil) {
						k.st.Ghost["val of "+key] = v
						k.st.SetGS(key, k.k)
						next = append(next, k.st)
					}
				}
				cur = next
			}
		}
		out = append(out, cur...)
	}
	return out
}

func (c *Ctx) valueList() types.Type { return types.NewSlice(c.E.ValueT) }

// leafKey, valKey: what an operand evaluated to.
func valKey(i int) string { return "val" + string(rune('0'+i)) }

// kindCase is a value split by its kind.
type kindCase struct {
	st *ai.State
	k  string
	p  *ai.V
}

func (c *Ctx) byKind(st *ai.State, g *ai.V, kinds map[string]types.Type, order ...string) []kindCase {
	var out []kindCase
	n := st.Clone()
	if n.AssumeNil(g, true) {
		out = append(out, kindCase{n, "null", nil})
	}
	o := st.Clone()
	if !o.AssumeNil(g, false) {
		return out
	}
	alive := true
	for _, k := range order {
		s := o.Clone()
		if s.AssumeType(g, kinds[k], true) {
			out = append(out, kindCase{s, k, s.Payload(g, kinds[k])})
		}
		if !o.AssumeType(g, kinds[k], false) {
			alive = false
			break
		}
	}
	if alive {
		out = append(out, kindCase{o, "other", nil})
	}
	return out
}

func (c *Ctx) kindTypes() map[string]types.Type {
	return map[string]types.Type{"list": c.valueList(), "int": types.Typ[types.Int], "string": types.Typ[types.String], "bool": types.Typ[types.Bool], "float": types.Typ[types.Float64]}
}

// split a state by a condition.
func split(st *ai.State, b *ai.V) (t, f *ai.State) {
	t, f = st.Clone(), st.Clone()
	if !t.Assume(b, true) {
		t = nil
	}
	if !f.Assume(b, false) {
		f = nil
	}
	return
}

func (c *Ctx) null() *ai.V        { return c.E.Nil(types.NewInterfaceType(nil, nil)) }
func (c *Ctx) boolV(b bool) *ai.V { return c.E.Box(c.E.Bool(b)) }

func (c *Ctx) specPart(in specOut, p *ai.Tree, arg func(l *ai.Tree) *ai.V) []specOut {
	ks := c.kindTypes()
	null := c.null()
	var out []specOut
	add := func(o specOut) { out = append(out, o) }
	switch p.Rule {
	case "oC_NullOperatorExpression":
		for _, k := range c.byKind(in.st, in.v, nil) {
			add(specOut{st: k.st, v: c.boolV((k.k == "null") != p.Has("NOT")), why: "the operand is " + k.k})
		}
		return out
	case "oC_StringOperatorExpression":
		op := ""
		for _, o := range []string{"STARTS", "ENDS", "CONTAINS"} {
			if p.Has(o) {
				op = o
			}
		}
		for _, a := range c.byKind(in.st, in.v, ks, "string") {
			for _, b := range c.byKind(a.st, arg(p.One("oC_PropertyOrLabelsExpression")), ks, "string") {
				why := fmt.Sprintf("the operands are %s and %s", a.k, b.k)
				switch {
				case (a.k == "other" || b.k == "other") && (a.k == "null" || b.k == "null"):
					add(specOut{st: b.st, any: true})
				case a.k == "other" || b.k == "other":
					add(specOut{st: b.st, err: true, why: why})
				case a.k == "null" || b.k == "null":
					add(specOut{st: b.st, v: null, why: why})
				default:
					t, f := c.splitPred(b.st, op, a.p, b.p)
					if t != nil {
						add(specOut{st: t, v: c.boolV(true), why: why + " in the relation"})
					}
					if f != nil {
						add(specOut{st: f, v: c.boolV(false), why: why + " not in the relation"})
					}
				}
			}
		}
		return out
	}
	if p.Has("IN") {
		return c.specIn(in, arg(p.One("oC_PropertyOrLabelsExpression")))
	}
	if !p.Has("'..'") {
		return c.specIndex(in, arg(p.One("oC_Expression")))
	}
	var from, to *ai.V
	past := false
	for _, k := range p.Kids {
		switch {
		case k.Is("'..'"):
			past = true
		case k.Is("oC_Expression") && past:
			to = arg(k)
		case k.Is("oC_Expression"):
			from = arg(k)
		}
	}
	return c.specSlice(in, from, to)
}

// splitPred splits a state by a relation of two strings, using what the
// state knows about it in other words.
func (c *Ctx) splitPred(st *ai.State, op string, a, b *ai.V) (t, f *ai.State) {
	e := c.E
	t, f = split(st, c.predTerm(op, a, b))
	la, lb := st.LenOf(a), st.LenOf(b)
	var part *ai.V
	if st.Rel(la, lb)&ai.LT == 0 {
		switch op {
		case "STARTS":
			part = e.SubStr(a, e.Int(0), lb, a.T)
		case "ENDS":
			part = e.SubStr(a, e.Diff(la, lb), la, a.T)
		}
	}
	switch {
	case st.Rel(a, b) == ai.EQ || st.Rel(lb, e.Int(0)) == ai.EQ:
		f = nil
	case st.Rel(la, lb) == ai.LT:
		t = nil
	case part != nil && st.Decide(e.Cmp(part, b, ai.EQ)) == 1:
		f = nil
	case part != nil && st.Decide(e.Cmp(part, b, ai.EQ)) == 0:
		t = nil
	}
	return
}

func (c *Ctx) specIn(in specOut, list *ai.V) []specOut {
	e := c.E
	ks := c.kindTypes()
	var out []specOut
	for _, a := range c.byKind(in.st, in.v, ks) {
		for _, l := range c.byKind(a.st, list, ks, "list") {
			switch {
			case l.k == "other" && a.k == "null":
				out = append(out, specOut{st: l.st, any: true})
				continue
			case l.k == "other":
				out = append(out, specOut{st: l.st, err: true, why: "the list is of another kind"})
				continue
			case l.k == "null" || a.k == "null":
				out = append(out, specOut{st: l.st, v: c.null(), why: "an operand is null"})
				continue
			}
			n, known := c.constInt(l.st, l.st.LenOf(l.p))
			if !known {
				out = append(out, specOut{st: l.st, unsure: true, why: "the length of the list"})
				continue
			}
			type part struct {
				st                     *ai.State
				eq, bad, null, unknown bool
				desc                   string
			}
			cur := []part{{st: l.st}}
			for i := int64(0); i < n; i++ {
				var next []part
				for _, p := range cur {
					g := e.Get(p.st, e.Elem(l.p, e.Int(i), e.ValueT))
					for _, k := range c.byKind(p.st, g, nil) {
						q := p
						q.st = k.st
						if k.k == "null" {
							q.null = true
							q.desc += " null"
						} else {
							r := k.st.GS(cmpKey(in.v, g))
							q.desc += " " + r
							switch r {
							case "=":
								q.eq = true
							case "err":
								q.bad = true
							case "":
								q.unknown = true
							}
						}
						next = append(next, q)
					}
				}
				cur = next
			}
			for _, p := range cur {
				o := specOut{st: p.st, why: "the elements are" + p.desc}
				switch {
				case p.eq && p.bad:
					o.any = true
				case p.eq:
					o.v = c.boolV(true)
				case p.bad:
					o.err = true
				case p.unknown:
					o.unsure, o.why = true, "an element it did not compare"
				case p.null:
					o.v = c.null()
				default:
					o.v = c.boolV(false)
				}
				out = append(out, o)
			}
		}
	}
	return out
}

// constInt is the value of an integer a state knows.
func (c *Ctx) constInt(st *ai.State, v *ai.V) (int64, bool) {
	if b, n := c.E.SplitInt(v); b == nil {
		return n, true
	}
	for n := int64(0); n <= listMax; n++ {
		if st.Rel(v, c.E.Int(n)) == ai.EQ {
			return n, true
		}
	}
	return 0, false
}

// ints splits by the value of an integer: one state for each of lo..hi-1,
// and those below and above.
func (c *Ctx) ints(st *ai.State, v *ai.V, lo, hi int64, f func(st *ai.State, n int64)) {
	e := c.E
	try := func(m uint8, k, n int64) {
		s := st.Clone()
		if s.AssumeCmp(v, e.Int(k), m) {
			f(s, n)
		}
	}
	try(ai.LT, lo, lo-1)
	for i := lo; i < hi; i++ {
		try(ai.EQ, i, i)
	}
	try(ai.GT|ai.EQ, hi, hi)
}

func (c *Ctx) specIndex(in specOut, idx *ai.V) []specOut {
	e := c.E
	ks := c.kindTypes()
	var out []specOut
	for _, a := range c.byKind(in.st, in.v, ks, "list") {
		for _, b := range c.byKind(a.st, idx, ks, "int") {
			why := fmt.Sprintf("the operands are %s and %s", a.k, b.k)
			wrong, null := a.k == "other" || b.k == "other", a.k == "null" || b.k == "null"
			switch {
			case wrong && null:
				out = append(out, specOut{st: b.st, any: true})
				continue
			case wrong:
				out = append(out, specOut{st: b.st, err: true, why: why})
				continue
			case null:
				out = append(out, specOut{st: b.st, v: c.null(), why: why})
				continue
			}
			n, known := c.constInt(b.st, b.st.LenOf(a.p))
			if !known {
				out = append(out, specOut{st: b.st, unsure: true, why: "the length of the list"})
				continue
			}
			c.ints(b.st, b.p, -n, n, func(st *ai.State, i int64) {
				k := i
				if i < 0 {
					k = n + i
				}
				o := specOut{st: st, v: c.null(), why: fmt.Sprintf("index %d of %d elements", i, n)}
				if k >= 0 && k < n {
					o.v = e.Get(st, e.Elem(a.p, e.Int(k), e.ValueT))
				}
				out = append(out, o)
			})
		}
	}
	return out
}

func (c *Ctx) specSlice(in specOut, from, to *ai.V) []specOut {
	e := c.E
	ks := c.kindTypes()
	var out []specOut
	bound := func(st *ai.State, v *ai.V) []kindCase {
		if v == nil {
			return []kindCase{{st, "absent", nil}}
		}
		return c.byKind(st, v, ks, "int")
	}
	val := func(st *ai.State, k kindCase, n, def int64, f func(st *ai.State, v int64)) {
		if k.k == "int" {
			c.ints(st, k.p, 0, n, f)
			return
		}
		f(st, def)
	}
	for _, a := range c.byKind(in.st, in.v, ks, "list") {
		for _, b := range bound(a.st, from) {
			for _, d := range bound(b.st, to) {
				why := fmt.Sprintf("the operands are %s, %s and %s", a.k, b.k, d.k)
				wrong, null := false, false
				for _, k := range []string{a.k, b.k, d.k} {
					wrong = wrong || k == "other"
					null = null || k == "null"
				}
				switch {
				case wrong && null:
					out = append(out, specOut{st: d.st, any: true})
					continue
				case wrong:
					out = append(out, specOut{st: d.st, err: true, why: why})
					continue
				}
				n := int64(0)
				if a.k == "list" {
					var known bool
					n, known = c.constInt(d.st, d.st.LenOf(a.p))
					if !known {
						out = append(out, specOut{st: d.st, unsure: true, why: "the length of the list"})
						continue
					}
				}
				val(d.st, b, n, 0, func(st *ai.State, lo int64) {
					val(st, d, n, n, func(st *ai.State, hi int64) {
						w := fmt.Sprintf("%s: %d..%d of %d elements", why, lo, hi, n)
						neg := lo < 0 || hi < 0
						switch {
						case null && neg:
							out = append(out, specOut{st: st, any: true})
							return
						case null:
							out = append(out, specOut{st: st, v: c.null(), why: w})
							return
						case neg:
							out = append(out, specOut{st: st, err: true, why: w})
							return
						}
						var segs []*ai.V
						for i := lo; i < hi; i++ {
							segs = append(segs, e.One(e.Elem(a.p, e.Int(i), e.ValueT)))
						}
						out = append(out, specOut{st: st, v: e.Box(e.List(c.valueList(), segs...)), why: w})
					})
				})
			}
		}
	}
	return out
}

// specMatch compares a result with what the meaning of the text asks for.
func (c *Ctx) specMatch(r *shapeRun, o specOut, res []*ai.V) {
	e := c.E
	st := o.st
	if o.any {
		return
	}
	bad := st.Clone()
	if bad.AssumeNil(res[1], false) {
		if !o.err && !o.orErr {
			r.report(bad, "text", "%s fails although %s", r.t, o.why)
		}
	}
	if !st.AssumeNil(res[1], true) {
		return
	}
	if o.err {
		r.report(st, "text", "%s succeeds although %s", r.t, o.why)
		return
	}
	if o.unsure {
		r.report(st, "text", "%s has a result that does not depend on %s", r.t, o.why)
		return
	}
	nv := st.Clone()
	if nv.AssumeNil(res[0], true) {
		r.report(nv, "text", "%s gives neither a value nor an error", r.t)
	}
	if !st.AssumeNil(res[0], false) {
		return
	}
	g := e.Get(st, res[0])
	if c.sameContent(st, g, o.v) {
		return
	}
	r.report(st, "text", "%s gives %s instead of %s, %s", r.t, g.Show(), o.v.Show(), o.why)
}

// resolve replaces the integers a state knows by constants.
func (c *Ctx) resolve(st *ai.State, v *ai.V) *ai.V {
	e := c.E
	for {
		var from, to *ai.V
		seen := map[*ai.V]bool{}
		var walk func(t *ai.V)
		walk = func(t *ai.V) {
			if t == nil || from != nil || seen[t] {
				return
			}
			seen[t] = true
			for _, a := range t.Args {
				walk(a)
			}
			if from != nil || t.Op == "const" || t.T == nil || !isIntT(t.T) {
				return
			}
			if (t.Op == "bin:+" || t.Op == "bin:-") && len(t.Args) == 2 {
				if a, x := e.SplitInt(t.Args[0]); a == nil {
					if b, y := e.SplitInt(t.Args[1]); b == nil {
						if t.Op == "bin:-" {
							y = -y
						}
						from, to = t, e.Int(x+y)
						return
					}
				}
			}
			for n := int64(-listMax); n <= listMax; n++ {
				if st.Rel(t, e.Int(n)) == ai.EQ {
					from, to = t, e.Int(n)
					return
				}
			}
		}
		walk(v)
		if from == nil {
			return v
		}
		v = e.Subst(v, from, to)
	}
}

func isIntT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// sameContent: two contents of values are the same in a state.
func (c *Ctx) sameContent(st *ai.State, g, w *ai.V) bool {
	e := c.E
	if g == w || st.IsNil(g) == 1 && st.IsNil(w) == 1 {
		return true
	}
	lt := c.valueList()
	isList := func(v *ai.V) bool { return st.TypeFact(v, lt) == 1 }
	if isList(w) {
		if !isList(g) {
			return false
		}
		a, b := st.Freeze(st.Payload(g, lt)), st.Freeze(st.Payload(w, lt))
		return a == b || st.SameList(a, b) || st.SameList(c.resolve(st, a), c.resolve(st, b))
	}
	if g, w := c.resolve(st, g), c.resolve(st, w); g == w {
		return true
	}
	for _, t := range []types.Type{types.Typ[types.Bool], types.Typ[types.Int], types.Typ[types.String], types.Typ[types.Float64]} {
		if st.TypeFact(w, t) == 1 && st.TypeFact(g, t) == 1 {
			a, b := st.Payload(g, t), st.Payload(w, t)
			if a == b {
				return true
			}
			if t == types.Typ[types.Bool] {
				return st.Decide(a) >= 0 && st.Decide(a) == st.Decide(b)
			}
			return st.Decide(e.Cmp(a, b, ai.EQ)) == 1 || c.sameArith(st, g, w, t)
		}
	}
	for _, t := range c.arithKinds() {
		if st.TypeFact(w, t) == 1 && st.TypeFact(g, t) == 1 && c.sameArith(st, g, w, t) {
			return true
		}
	}
	return st.Decide(st.Equal(g, w)) == 1
}

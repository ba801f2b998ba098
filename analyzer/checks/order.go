package checks

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/ai"
)

func init() { register("A02", a02) }

// A02: a comparator is run once for every relation that the components of
// two values can have. The answers form a table over the relations, on which
// the laws of a total order are checked completely.

type orderKind struct {
	name string
	t    types.Type
	// components gives the pairs of terms whose relations decide the answer
	components func(a, b *ai.V) [][2]*ai.V
}

func (c *Ctx) orderKinds() []orderKind {
	e := c.E
	whole := func(a, b *ai.V) [][2]*ai.V { return [][2]*ai.V{{a, b}} }
	r := []orderKind{
		{"bool", types.Typ[types.Bool], nil},
		{"int", types.Typ[types.Int], whole},
		{"float64", types.Typ[types.Float64], whole},
		{"string", types.Typ[types.String], whole},
	}
	for _, n := range []string{"Duration", "Date", "LocalTime", "LocalDateTime"} {
		t := c.Type(n)
		if t == nil {
			return nil
		}
		s, ok := t.Underlying().(*types.Struct)
		if !ok {
			c.Undecided(n, t.Obj().Pos(), "%s is not a struct", n)
			return nil
		}
		if n == "Duration" {
			r = append(r, orderKind{n, t, func(a, b *ai.V) [][2]*ai.V {
				var ps [][2]*ai.V
				for i := 0; i < s.NumFields(); i++ {
					ps = append(ps, [2]*ai.V{e.Field(a, i), e.Field(b, i)})
				}
				return ps
			}})
			continue
		}
		r = append(r, orderKind{n, t, func(a, b *ai.V) [][2]*ai.V {
			return [][2]*ai.V{{c.instant(a), c.instant(b)}}
		}})
	}
	return r
}

// instant is the point in time of a time.Time or a type made from it.
func (c *Ctx) instant(v *ai.V) *ai.V {
	for v.Op == "ctype" {
		v = v.Args[0]
	}
	return c.E.Mk("instant", types.Typ[types.Int64], "", v)
}

var relNames = []string{"<", "=", ">"}
var relMask = map[string]uint8{"<": ai.LT, "=": ai.EQ, ">": ai.GT}

func (c *Ctx) compareMonitor() *ai.Monitor {
	e := c.E
	three := func(x *ai.Exec, st *ai.State, ci *ai.CallInfo, a, b *ai.V) []*ai.State {
		var out []*ai.State
		for i, r := range relNames {
			s := st.Clone()
			if s.Assume(e.Cmp(a, b, relMask[r]), true) {
				x.Ret(s, ci, e.Int(int64(i-1)))
				out = append(out, s)
			}
		}
		return out
	}
	return &ai.Monitor{
		OnPanic: func(x *ai.Exec, st *ai.State, what string, at ssa.Instruction) {
			x.Report(st, "total", at, "the comparison panics: %s", what)
		},
		Ext: func(x *ai.Exec, st *ai.State, ci *ai.CallInfo, name string) ([]*ai.State, bool) {
			switch name {
			case "(time.Time).Equal", "(time.Time).Before", "(time.Time).After":
				m := map[string]uint8{"Equal": ai.EQ, "Before": ai.LT, "After": ai.GT}[ci.Fn.Name()]
				x.Ret(st, ci, e.Cmp(c.instant(ci.Args[0]), c.instant(ci.Args[1]), m))
				return []*ai.State{st}, true
			case "(time.Time).Compare":
				return three(x, st, ci, c.instant(ci.Args[0]), c.instant(ci.Args[1])), true
			case "strings.Compare", "cmp.Compare":
				return three(x, st, ci, ci.Args[0], ci.Args[1]), true
			}
			return nil, false
		},
	}
}

// relTable: the answers of a comparator for two kinds, by relation.
func (c *Ctx) relTable(fn *ssa.Function, what string, ta, tb types.Type, vectors [][]string, assume func(st *ai.State, a, b *ai.V, vec []string) bool) map[string]string {
	e := c.E
	tab := map[string]string{}
	for _, vec := range vectors {
		key := strings.Join(vec, "")
		got := map[string]bool{}
		mon := c.compareMonitor()
		mon.OnReturn = func(x *ai.Exec, st *ai.State, res []*ai.V) {
			if len(res) != 2 || st.IsNil(res[1]) != 1 {
				n := st.Clone()
				if n.AssumeNil(res[1], false) {
					got["err"] = true
				}
				if !st.AssumeNil(res[1], true) {
					return
				}
			}
			if k, ok := signOf(res[0]); ok {
				got[k] = true
				return
			}
			got["an answer that can overflow or is not known"] = true
		}
		x := ai.NewExec(e, fn, mon)
		x.Debug = c.Debug
		st := ai.NewState(e)
		a, b := e.Sym("left", ta), e.Sym("right", tb)
		if !assume(st, a, b, vec) {
			continue
		}
		s := x.Start(st, []*ai.V{e.Box(a), e.Box(b)})
		x.Run(s)
		c.Collect(x, what+" "+key)
		var l []string
		for k := range got {
			l = append(l, k)
		}
		if len(l) != 1 {
			c.Violate("total", fnName(fn)+":"+what, fn.Pos(), "%s: with the relation %s between the operands the answers are %v", what, key, l)
			continue
		}
		tab[key] = l[0]
		if l[0] != "<" && l[0] != "=" && l[0] != ">" {
			c.Violate("total", fnName(fn)+":"+what, fn.Pos(), "%s: with the relation %s between the operands the answer is %s", what, key, l[0])
			delete(tab, key)
		}
	}
	return tab
}

func signOf(v *ai.V) (string, bool) {
	if v.Op != "const" || v.C == nil {
		return "", false
	}
	s := v.C.ExactString()
	switch {
	case s == "0":
		return "=", true
	case strings.HasPrefix(s, "-"):
		return "<", true
	}
	return ">", true
}

func relVectors(n int) [][]string {
	out := [][]string{nil}
	for i := 0; i < n; i++ {
		var next [][]string
		for _, v := range out {
			for _, r := range relNames {
				next = append(next, append(append([]string(nil), v...), r))
			}
		}
		out = next
	}
	return out
}

func mirrorVec(k string) string {
	r := ""
	for _, c := range k {
		r += mirrorRel(string(c))
	}
	return r
}

// compose: the relations a to c may have when a to b is r and b to c is s.
func compose(r, s byte) string {
	switch {
	case r == '=':
		return string(s)
	case s == '=' || r == s:
		return string(r)
	}
	return "<=>"
}

func a02(c *Ctx) {
	c.Rule("every comparator is followed for each pair of kinds and each relation the components of the operands can have; the table of answers is checked against the laws of a total order, and every other pair of kinds has to be reported as an error")
	kinds := c.orderKinds()
	n := 0
	for _, fn := range c.R.Funcs() {
		if !c.isComparator(fn) || fn.Blocks == nil {
			continue
		}
		n++
		c.comparator(fn, kinds)
	}
	if n == 0 {
		c.Undecided("comparator", 0, "no function compares two values")
	}
}

func (c *Ctx) comparator(fn *ssa.Function, kinds []orderKind) {
	e := c.E
	name := fnName(fn)
	at := func(rule, what, format string, args ...any) {
		c.Violate(rule, name+":"+what, fn.Pos(), "%s: "+format, append([]any{what}, args...)...)
	}
	var intT, floatT types.Type = types.Typ[types.Int], types.Typ[types.Float64]
	tabs := map[string]map[string]string{}
	for _, k := range kinds {
		for _, r := range []string{"total", "equality", "mirror", "transitive", "monotone"} {
			c.Obl(r, name+":"+k.name)
		}
		k := k
		var vecs [][]string
		assume := func(st *ai.State, a, b *ai.V, vec []string) bool {
			for i, p := range k.components(a, b) {
				if isFloatT(p[0].T) {
					// NaN is not ordered
					if !st.Assume(e.Cmp(p[0], p[0], ai.EQ), true) || !st.Assume(e.Cmp(p[1], p[1], ai.EQ), true) {
						return false
					}
				}
				if !st.Assume(e.Cmp(p[0], p[1], relMask[vec[i]]), true) {
					return false
				}
			}
			return true
		}
		if k.components == nil { // bool
			vecs = [][]string{{"<"}, {"="}, {"=", "="}, {">"}}
			assume = func(st *ai.State, a, b *ai.V, vec []string) bool {
				l, r := false, true
				switch {
				case len(vec) == 2:
					l = true
				case vec[0] == "=":
					r = false
				case vec[0] == ">":
					l, r = true, false
				}
				return st.Assume(a, l) && st.Assume(b, r)
			}
		} else {
			vecs = relVectors(len(k.components(e.Sym("left", k.t), e.Sym("right", k.t))))
		}
		tab := c.relTable(fn, k.name, k.t, k.t, vecs, assume)
		tabs[k.name] = tab
		if len(tab) != len(vecs) {
			continue // reported
		}
		for v, r := range tab {
			same := strings.Trim(v, "=") == ""
			if same != (r == "=") {
				at("equality", k.name, "components related by %s compare %s", v, r)
			}
			if m, ok := tab[mirrorVec(v)]; ok && m != mirrorRel(r) {
				at("mirror", k.name, "components related by %s compare %s, but %s the other way round", v, r, m)
			}
			if !strings.Contains(v, ">") && r == ">" || !strings.Contains(v, "<") && r == "<" {
				at("monotone", k.name, "components related by %s compare %s", v, r)
			}
		}
		if len(vecs[0]) == 1 && k.components == nil {
			continue
		}
		for v, r := range tab {
			for w, s := range tab {
				want := compose(r[0], s[0])
				if len(want) > 1 {
					continue
				}
				each(v, w, func(u string) {
					if tab[u] != want {
						at("transitive", k.name, "a%sb and b%sc, but a and c compare %s (components %s, %s and %s)", r, s, tab[u], v, w, u)
					}
				})
			}
		}
	}
	// an integer and a float
	for _, d := range []string{"int:float64", "float64:int"} {
		c.Obl("mixed", name+":"+d)
		ta, tb := intT, floatT
		if d != "int:float64" {
			ta, tb = floatT, intT
		}
		tab := c.relTable(fn, d, ta, tb, relVectors(1), func(st *ai.State, a, b *ai.V, vec []string) bool {
			l, r := e.Conv(a, floatT), e.Conv(b, floatT)
			return st.Assume(e.Cmp(l, l, ai.EQ), true) && st.Assume(e.Cmp(r, r, ai.EQ), true) && st.Assume(e.Cmp(l, r, relMask[vec[0]]), true)
		})
		for v, r := range tab {
			if v != r {
				at("mixed", d, "converted to floats the operands are related by %s but compare %s", v, r)
			}
		}
	}
	// everything else is an error
	other := func(what string, prep func(st *ai.State, a, b *ai.V) bool) {
		c.Obl("incomparable", name+":"+what)
		mon := c.compareMonitor()
		mon.OnReturn = func(x *ai.Exec, st *ai.State, res []*ai.V) {
			if st.IsNil(res[1]) != 0 {
				s := st.Clone()
				if s.AssumeNil(res[1], true) {
					x.Report(s, "incomparable", fn.Blocks[0].Instrs[0], "comparing %s succeeds", what)
				}
			}
		}
		x := ai.NewExec(e, fn, mon)
		x.Debug = c.Debug
		st := ai.NewState(e)
		a, b := e.Sym("left", fn.Signature.Params().At(0).Type()), e.Sym("right", fn.Signature.Params().At(1).Type())
		if !st.AssumeNil(a, false) || !st.AssumeNil(b, false) || !prep(st, a, b) {
			panic("contradiction for " + what)
		}
		x.Run(x.Start(st, []*ai.V{a, b}))
		c.Collect(x, what)
	}
	for _, k := range kinds {
		k := k
		compat := []types.Type{k.t}
		if k.name == "int" || k.name == "float64" {
			compat = []types.Type{intT, floatT}
		}
		for _, left := range []bool{true, false} {
			what := fmt.Sprintf("%s with another kind", k.name)
			if !left {
				what = fmt.Sprintf("another kind with %s", k.name)
			}
			other(what, func(st *ai.State, a, b *ai.V) bool {
				if !left {
					a, b = b, a
				}
				if !st.AssumeType(a, k.t, true) {
					return false
				}
				for _, t := range compat {
					if !st.AssumeType(b, t, false) {
						return false
					}
				}
				return true
			})
		}
	}
	other("two values of other kinds", func(st *ai.State, a, b *ai.V) bool {
		for _, k := range kinds {
			if !st.AssumeType(a, k.t, false) || !st.AssumeType(b, k.t, false) {
				return false
			}
		}
		return true
	})
}

func isFloatT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

// each vector that v and w compose to.
func each(v, w string, f func(u string)) {
	us := []string{""}
	for i := range v {
		var next []string
		for _, u := range us {
			for _, r := range compose(v[i], w[i]) {
				next = append(next, u+string(r))
			}
		}
		us = next
	}
	for _, u := range us {
		f(u)
	}
}

package checks

import (
	"fmt"
	"go/types"
	"os"
	"strings"

	"verif/analyzer/ai"
)

func init() {
	register("G06", g06)
}

// matching is a MATCH clause with what its names stand for.
type matching struct {
	c      *Ctx
	what   string
	t      *ai.Tree
	parts  [][]*patItem
	class  map[*patItem]int
	names  []*ai.V
	node   []bool
	bound  []*ai.V // what a variable is bound to in the context, or nil
	counts [][]int // per part, how many matches there are, by the match a variable of another part has
	fails  int     // the part whose search fails, or -1
	where  *ai.Tree
	truth  string
	vals   map[string]*ai.V
	syms   []*ai.V
	index  map[*ai.V]int // the match a value belongs to
}

// matchVal is what variable x stands for in match j of part p.
func (k *matching) matchVal(p, x, j int, given *ai.V) *ai.V {
	s := fmt.Sprintf("match %d of part %d for variable %d", j, p, x)
	if given != nil {
		s += " where another is " + given.Show()
	}
	if v := k.vals[s]; v != nil {
		return v
	}
	t := types.NewPointer(k.c.lpgType("Node"))
	if !k.node[x] {
		t = types.NewPointer(k.c.lpgType("Path"))
	}
	v := k.c.E.Sym(s, t)
	k.vals[s], k.syms = v, append(k.syms, v)
	k.index[v] = j
	return v
}

// like is the first part with the names of p: searches for these are the same.
func (k *matching) like(p int) int {
	names := func(p int) map[int]bool {
		m := map[int]bool{}
		for _, it := range k.parts[p] {
			if x := k.class[it]; x >= 0 {
				m[x] = true
			}
		}
		return m
	}
	for q := 0; q < p; q++ {
		if fmt.Sprint(names(q)) == fmt.Sprint(names(p)) {
			return q
		}
	}
	return p
}

// find: the matches of a part, given what other parts are.
func (k *matching) find(p int, env []*ai.V) [][]*ai.V {
	p = k.like(p)
	var given *ai.V
	for _, it := range k.parts[p] {
		if x := k.class[it]; x >= 0 && env[x] != nil && k.bound[x] == nil {
			given = env[x]
		}
	}
	n := k.counts[p][0]
	if given != nil {
		n = k.counts[p][k.index[given]%len(k.counts[p])]
	}
	var out [][]*ai.V
	for j := 0; j < n; j++ {
		m := append([]*ai.V(nil), env...)
		for _, it := range k.parts[p] {
			if x := k.class[it]; x >= 0 && env[x] == nil {
				m[x] = k.matchVal(p, x, j, given)
			}
		}
		out = append(out, m)
	}
	return out
}

// all combinations of matches.
func (k *matching) all() (rows [][]*ai.V, failed bool) {
	var step func(p int, env []*ai.V)
	step = func(p int, env []*ai.V) {
		if p == len(k.parts) {
			rows = append(rows, env)
			return
		}
		if k.fails == k.like(p) {
			failed = true
		}
		for _, m := range k.find(p, env) {
			step(p+1, m)
		}
	}
	step(0, k.bound)
	return
}

// holds is what the condition is for a combination: true, false, null or err.
func (k *matching) holds(env []*ai.V) string {
	n := 0
	for x := range env {
		if k.bound[x] == nil && env[x] != nil {
			n += k.index[env[x]]
		}
	}
	ts := strings.Split(k.truth, " ")
	return ts[n%len(ts)]
}

func (c *Ctx) matchShapes() []*ai.Tree {
	pl := c.plain()
	part := &ai.Tree{Rule: "oC_PatternPart"}
	node := func(n int, named bool) []*ai.Tree {
		return c.pick("oC_NodePattern", 1, func(t *ai.Tree) bool {
			return tight(t) && len(t.Kids) == n && t.Has("oC_Variable") == named
		})
	}
	rel := c.pick("oC_RelationshipDetail", 1, func(t *ai.Tree) bool { return tight(t) && len(t.Kids) == 3 && t.Has("oC_Variable") })
	chain := c.pick("oC_PatternElement", 1, func(t *ai.Tree) bool { return tight(t) && len(t.All("oC_PatternElementChain")) == 1 })
	pats := c.pick("oC_Pattern", 3, nil)
	matches := c.pick("oC_Match", 1, func(t *ai.Tree) bool { return !t.Has("OPTIONAL") })
	wheres := c.pick("oC_Where", 1, nil)
	if len(wheres) == 0 || len(node(3, true)) == 0 || len(node(2, false)) == 0 || len(rel) == 0 || len(chain) == 0 {
		return nil
	}
	no := func(ts ...*ai.Tree) map[string][]*ai.Tree { return with(pl, "oC_NodePattern", ts...) }
	one := func(ts []*ai.Tree) *ai.Tree { return ts[0] }
	named := one(grow(part, no(node(3, true)[0])))
	empty := one(grow(part, no(node(2, false)[0])))
	edge := one(grow(part, with(with(no(node(3, true)[0]), "oC_RelationshipDetail", rel[0]), "oC_PatternElement", chain[0])))
	lists := [][]*ai.Tree{{named}, {empty}, {edge}, {named, named}, {named, empty}, {empty, named}, {edge, named}, {named, edge}, {named, named, named}}
	var out []*ai.Tree
	done := map[string]bool{}
	for _, m := range matches {
		for _, p := range pats {
			for _, l := range lists {
				if len(p.All("oC_PatternPart")) != len(l) {
					continue
				}
				// blanks vary for one list only
				key := fmt.Sprint(len(l), m.Has("oC_Where"))
				if done[key] && (!tight(m) || !tight(p)) {
					continue
				}
				t := &ai.Tree{Rule: m.Rule}
				for _, kid := range m.Kids {
					if kid.Rule == "oC_Pattern" {
						q := &ai.Tree{Rule: p.Rule}
						i := 0
						for _, pk := range p.Kids {
							if pk.Rule == "oC_PatternPart" {
								q.Kids = append(q.Kids, l[i])
								i++
							} else {
								q.Kids = append(q.Kids, pk)
							}
						}
						t.Kids = append(t.Kids, q)
					} else if kid.Rule == "oC_Where" {
						t.Kids = append(t.Kids, wheres[0])
					} else {
						t.Kids = append(t.Kids, kid)
					}
				}
				done[key] = true
				out = append(out, clone(t))
			}
		}
	}
	return out
}

func g06(c *Ctx) {
	c.Rule("builder and evaluator of MATCH are followed for patterns of up to three parts, with searches that find up to two matches or fail, and every outcome of the condition; the rows of the result must be the combinations for which it is true")
	for _, t := range c.matchShapes() {
		if f := os.Getenv("PSHAPE"); f != "" && !strings.Contains(t.String(), f) { // for debugging
			continue
		}
		toks := nameTokens(t)
		for _, cl := range partitions(len(toks)) {
			c.matches(t, cl)
		}
	}
}

func (c *Ctx) matches(t *ai.Tree, classes []int) {
	n := 0
	for _, x := range classes {
		if x >= n {
			n = x + 1
		}
	}
	parts := len(find(t, "oC_PatternPart"))
	var counts [][][]int
	for _, a := range []int{0, 1, 2} {
		switch parts {
		case 1:
			counts = append(counts, [][]int{{a}})
		case 2:
			for _, b := range [][]int{{0, 0}, {1, 1}, {2, 1}, {1, 2}, {0, 2}, {2, 0}} {
				counts = append(counts, [][]int{{a}, b})
			}
		case 3:
			for _, b := range [][]int{{1, 2}, {2, 0}} {
				counts = append(counts, [][]int{{a}, b, {2, 1}})
			}
		}
	}
	for bound := 0; bound < 1<<uint(n); bound++ {
		if parts > 1 && bound > 1 && bound < 1<<uint(n)-1 {
			continue
		}
		for i, cs := range counts {
			truths := []string{""}
			if t.Has("oC_Where") {
				truths = []string{"true", "false", "null", "err", "true false", "false true", "null true", "true err"}
				if parts > 1 && len(classes) > 2 {
					truths = []string{"true", "true false", "false null", "null true", "false err"}
				}
			}
			for _, tr := range truths {
				c.match(clone(t), classes, n, bound, cs, -1, tr)
			}
			if i == len(counts)-1 {
				for p := 0; p < parts; p++ {
					c.match(clone(t), classes, n, bound, cs, p, truths[0])
				}
			}
		}
	}
}

func (c *Ctx) match(t *ai.Tree, classes []int, n, bound int, counts [][]int, fails int, truth string) {
	e := c.E
	any := types.Type(types.NewInterfaceType(nil, nil))
	k := &matching{c: c, t: t, class: map[*patItem]int{}, counts: counts, fails: fails, truth: truth, vals: map[string]*ai.V{}, index: map[*ai.V]int{}}
	for i := 0; i <= n; i++ { // the last is not in the pattern
		k.names = append(k.names, e.Str(fmt.Sprint("v", i)))
		k.node = append(k.node, true)
		k.bound = append(k.bound, nil)
	}
	toks := nameTokens(t)
	for i, x := range classes {
		toks[i].TextV = k.names[x]
	}
	kind := map[int]bool{}
	for _, p := range find(t, "oC_PatternPart") {
		items := patItems(p)
		for _, it := range items {
			k.class[it] = -1
			if it.name != nil {
				for x := range k.names {
					if tokenOf(it.name).TextV == k.names[x] {
						if old, ok := kind[x]; ok && old != it.node {
							return // a name is either of a node or of a relationship
						}
						k.class[it], k.node[x], kind[x] = x, it.node, it.node
					}
				}
			}
		}
		k.parts = append(k.parts, items)
	}
	var known []*ai.V
	for x := range k.names {
		if bound>>uint(x)&1 == 1 || x == n {
			vt := types.NewPointer(c.lpgType("Node"))
			if !k.node[x] {
				vt = types.NewPointer(c.lpgType("Path"))
			}
			s := e.Sym(fmt.Sprint("bound to variable ", x), vt)
			k.bound[x], k.syms = s, append(k.syms, s)
		}
	}
	if w := find(t, "oC_Where"); len(w) > 0 {
		k.where = find(w[0], "oC_Expression")[0]
	}
	k.what = fmt.Sprintf("%s variables %v bound %b found %v condition %s", t, classes, bound, counts, truth)
	if fails >= 0 {
		k.what += fmt.Sprintf(" search %d fails", fails)
	}
	c.Obl("matched", k.what)
	want, failed := k.all()
	mk, set := c.Func("NewEvalContext"), c.Method("EvalContext", "SetVar")
	if mk == nil || set == nil || c.Method("EvalContext", "GetVar") == nil || c.Type("RValue") == nil || c.Type("ResultSet") == nil {
		return
	}
	for _, v := range k.bound {
		if v != nil {
			known = append(known, v)
		}
	}
	for _, v := range k.vals {
		known = append(known, v)
	}
	var r *shapeRun
	mon := &ai.Monitor{NoModel: c.noCtxModels()}
	mon.OnEvent = func(x *ai.Exec, st *ai.State, ev *ai.Event) []*ai.State {
		c.logEffects(st, ev)
		return nil
	}
	mon.Ext = c.searches(func(st *ai.State, s *search) ([]map[*ai.V]*ai.V, bool) {
		// which part is it?
		part := -1
		env := make([]*ai.V, len(k.names))
		for p, items := range k.parts {
			own := map[*ai.V]bool{}
			for _, it := range items {
				if x := k.class[it]; x >= 0 {
					own[k.names[x]] = true
				}
			}
			ok := len(own) == len(s.names)
			for o := range own {
				has := false
				for _, nm := range s.names {
					has = has || c.same(st, nm, o)
				}
				ok = ok && has
			}
			if ok && part < 0 {
				part = p
			}
		}
		if part < 0 {
			panic("a search for no part of the pattern")
		}
		for _, it := range k.parts[part] {
			x := k.class[it]
			if x < 0 {
				continue
			}
			g := s.given(k.names[x])
			if g == nil {
				continue
			}
			for _, v := range known {
				if v == g {
					env[x] = v
				}
			}
			if env[x] == nil {
				r.report(st, "matched", "variable %d is sought where it is not: %s", x, g.Show())
				env[x] = k.matchVal(part, x, 0, nil)
			}
		}
		// variables that are bound must be given
		for _, it := range k.parts[part] {
			if x := k.class[it]; x >= 0 && k.bound[x] != nil && env[x] != k.bound[x] {
				r.report(st, "matched", "the search for part %d does not know what variable %d is bound to", part, x)
				env[x] = k.bound[x]
			}
		}
		var out []map[*ai.V]*ai.V
		for _, m := range k.find(part, env) {
			row := map[*ai.V]*ai.V{}
			for _, it := range k.parts[part] {
				if x := k.class[it]; x >= 0 {
					row[k.names[x]] = e.Box(m[x])
				}
			}
			out = append(out, row)
		}
		return out, k.fails == part
	})
	env := func(st *ai.State, vals []*ai.V) []*ai.V {
		for _, w := range want {
			ok := true
			for x := range w {
				ok = ok && (w[x] == nil && vals[x] == nil || w[x] != nil && vals[x] != nil && c.isPtr(st, vals[x], w[x]))
			}
			if ok {
				return w
			}
		}
		return nil
	}
	mon.Eval = func(x *ai.Exec, st *ai.State, ci *ai.CallInfo, recv, ctx *ai.V) ([]*ai.State, bool) {
		if k.where == nil || c.leafOf(recv) != k.where {
			return nil, false
		}
		cp := *ci
		return c.lookNames(x, st, ci.Instr, ctx, k.names, func(x *ai.Exec, st *ai.State, vals []*ai.V) []*ai.State {
			w := env(st, vals)
			if w == nil {
				r.report(st, "matched", "the condition is evaluated with variables that are of no combination of matches")
				return nil
			}
			var v *ai.V
			switch k.holds(w) {
			case "err":
				return []*ai.State{x.Ret(st, &cp, e.Nil(cp.Sig.Results().At(0).Type()), st.NewError("condition"))}
			case "null":
				v = e.Nil(any)
			default:
				v = e.Box(e.Bool(k.holds(w) == "true"))
			}
			return []*ai.State{x.Ret(st, &cp, c.rvalue(v), e.Nil(any))}
		}), true
	}
	c.runScript(t, k.what, mon, func(st *ai.State) {
		c.knownTexts(st, t)
		for i, v := range k.syms {
			st.AssumeNil(v, false)
			st.Ghost[fmt.Sprint("known ", i)] = v
		}
	}, func(run *shapeRun, st *ai.State, n int, prev *ai.V) *ai.Call {
		r = run
		switch n {
		case 1:
			st.Ghost["built"] = prev
			return &ai.Call{Fn: mk, Args: []*ai.V{e.Sym("graph", mk.Signature.Params().At(0).Type())}}
		case 2:
			st.Ghost["ctx"] = prev
		}
		n -= 2
		for x, v := range k.bound {
			if v == nil {
				continue
			}
			if n == 0 {
				return &ai.Call{Fn: set, Args: []*ai.V{st.Ghost["ctx"], k.names[x], c.rvalue(e.Box(v))}}
			}
			n--
		}
		if n == 0 {
			return &ai.Call{Recv: st.Ghost["built"], Method: "GetResults", Args: []*ai.V{st.Ghost["ctx"]}}
		}
		bad := failed
		var rows [][]*ai.V
		for _, w := range want {
			switch k.where == nil || k.holds(w) == "true" {
			case true:
				rows = append(rows, w)
			default:
				bad = bad || k.holds(w) == "err"
			}
		}
		err := prev.Args[1]
		if bad {
			if st.IsNil(err) != 0 {
				r.report(st, "fails", "MATCH succeeds although a search or its condition fails")
			}
			return nil
		}
		if st.IsNil(err) != 1 {
			r.report(st, "fails", "MATCH fails although nothing is wrong")
			return nil
		}
		got, ok := c.rowsOf(st, prev.Args[0])
		if !ok {
			r.report(st, "matched", "the rows are unknown: %s", prev.Args[0].Show())
			return nil
		}
		used := make([]bool, len(got))
		for _, w := range rows {
			found := false
			for i, row := range got {
				if used[i] {
					continue
				}
				is := true
				for x := range k.names {
					if x == len(k.names)-1 {
						continue
					}
					v := c.inRow(r.x, st, row, k.names[x])
					is = is && v != nil && c.isPtr(st, v, w[x])
				}
				if is {
					used[i], found = true, true
					break
				}
			}
			if !found {
				r.report(st, "matched", "a combination of matches has no row")
				return nil
			}
		}
		if len(got) != len(rows) {
			r.report(st, "matched", "there are %d rows for %d combinations of matches", len(got), len(rows))
		}
		return nil
	})
}

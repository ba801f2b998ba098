package checks

import (
	"fmt"
	"go/types"
	"os"
	"strings"

	"verif/analyzer/ai"
)

func init() {
	register("G03", g03)
	register("Q01", q01)
	register("Q02", q02)
	register("Q04", q04)
}

// clause is one clause of a query: its kind, and the variables it names in order.
type clause struct {
	kind  string
	vars  []int
	parts []int // searches it makes
	t     *ai.Tree
	expr  *ai.Tree
	key   *ai.Tree
}

// branch is a query without UNION.
type branch struct {
	clauses []*clause
	reads   int
	items   []*ai.Tree
	names   []*ai.V // of the columns
	skip    *ai.Tree
	limit   *ai.Tree
}

// page is what SKIP or LIMIT says: nil if there is none.
type page struct {
	what string
	n    int // less than 0 for what is refused
	v    *ai.V
}

// query is a query with what its names stand for.
type query struct {
	matching
	branches []*branch
	leaves   []*ai.Tree
	skip     *page
	limit    *page
	bad      *ai.Tree // the expression that fails
	badN     int      // when it is evaluated for the badN-th time
	alls     []bool   // of the unions: ALL; nil if all are
	less     [][2]*ai.V
	values   []*ai.V // what the items of RETURN are, one after the other; nil if all are different strings
}

// queryText says how a query is built: its clauses, and how many items it returns.
type queryText struct {
	clauses string // like "match 0; set 0"
	items   string // like "alias position", empty without RETURN
}

// least is the shape of a rule with the fewest parts.
func (c *Ctx) least(rule string, n int, ok func(t *ai.Tree) bool) *ai.Tree {
	var out *ai.Tree
	for _, t := range c.pick(rule, n, ok) {
		if out == nil || len(t.Kids) < len(out.Kids) {
			out = t
		}
	}
	if out == nil {
		c.Undecided(rule, 0, "no shape of rule %s is left", rule)
		return &ai.Tree{Rule: rule}
	}
	return out
}

// clauseTrees are simple shapes of clauses.
func (c *Ctx) clauseTrees() map[string]*ai.Tree {
	pl := c.plain()
	has := func(rules ...string) func(t *ai.Tree) bool {
		return func(t *ai.Tree) bool {
			for _, r := range rules {
				if !t.Has(r) {
					return false
				}
			}
			return true
		}
	}
	o := pl
	set := func(rule string, n int, ok func(t *ai.Tree) bool) { o = with(o, rule, c.least(rule, n, ok)) }
	set("oC_NodePattern", 1, has("oC_Variable"))
	set("oC_Match", 1, func(t *ai.Tree) bool { return !t.Has("OPTIONAL") && !t.Has("oC_Where") })
	set("oC_Create", 1, nil)
	set("oC_Set", 0, nil)
	set("oC_SetItem", 1, has("oC_PropertyExpression"))
	set("oC_Remove", 0, nil)
	set("oC_RemoveItem", 1, has("oC_PropertyExpression"))
	set("oC_PropertyExpression", 1, func(t *ai.Tree) bool { return len(t.All("oC_PropertyLookup")) == 1 })
	set("oC_PropertyLookup", 1, nil)
	set("oC_Atom", 1, has("oC_Variable"))
	set("oC_Merge", 0, nil)
	set("oC_Delete", 0, func(t *ai.Tree) bool { return !t.Has("DETACH") })
	edge := with(with(o, "oC_PatternElement", c.least("oC_PatternElement", 1, has("oC_PatternElementChain"))), "oC_RelationshipDetail", c.least("oC_RelationshipDetail", 1, func(t *ai.Tree) bool { return t.Has("oC_Variable") && !t.Has("oC_RelationshipTypes") }))
	typed := with(edge, "oC_RelationshipDetail", c.least("oC_RelationshipDetail", 1, func(t *ai.Tree) bool { return !t.Has("oC_Variable") && t.Has("oC_RelationshipTypes") }))
	one := func(rule, kind string, o map[string][]*ai.Tree) *ai.Tree {
		ts := grow(&ai.Tree{Rule: rule}, with(o, rule, c.least(rule, 1, has(kind))))
		if len(ts) == 0 {
			c.Undecided(rule, 0, "no shape of %s with %s", rule, kind)
			return &ai.Tree{Rule: rule}
		}
		return ts[0]
	}
	return map[string]*ai.Tree{
		"match":   one("oC_ReadingClause", "oC_Match", o),
		"matchR":  one("oC_ReadingClause", "oC_Match", edge),
		"create":  one("oC_UpdatingClause", "oC_Create", o),
		"createR": one("oC_UpdatingClause", "oC_Create", typed),
		"set":     one("oC_UpdatingClause", "oC_Set", o),
		"remove":  one("oC_UpdatingClause", "oC_Remove", o),
		"merge":   one("oC_UpdatingClause", "oC_Merge", o),
		"delete":  one("oC_UpdatingClause", "oC_Delete", o),
	}
}

// newQuery builds the tree of a query. A variable that a branch names may be
// bound in the calling context.
func (c *Ctx) newQuery(kit map[string]*ai.Tree, texts []queryText, alls []bool, bound int, counts map[int][]int, skip, limit *page) *query {
	e := c.E
	k := &query{matching: matching{c: c, class: map[*patItem]int{}, fails: -1, vals: map[string]*ai.V{}, index: map[*ai.V]int{}}, alls: alls, skip: skip, limit: limit}
	n := 0
	path := map[int]bool{}
	for _, q := range texts {
		for _, s := range strings.Split(q.clauses, "; ") {
			f := strings.Fields(s)
			for i, w := range f {
				if i--; i < 0 {
					continue
				}
				var x int
				fmt.Sscan(w, &x)
				if x >= n {
					n = x + 1
				}
				if f[0] == "matchR" && i == 1 {
					path[x] = true
				}
			}
		}
	}
	for x := 0; x <= n; x++ { // the last is in no clause
		k.names = append(k.names, e.Str(fmt.Sprint("v", x)))
		k.node = append(k.node, !path[x])
		k.bound = append(k.bound, nil)
		if bound>>uint(x)&1 == 1 || x == n {
			vt := types.NewPointer(c.lpgType("Node"))
			if path[x] {
				vt = types.NewPointer(c.lpgType("Path"))
			}
			v := e.Sym(fmt.Sprint("bound to variable ", x), vt)
			k.bound[x], k.syms = v, append(k.syms, v)
		}
	}
	var singles []*ai.Tree
	for _, q := range texts {
		b := &branch{}
		k.branches = append(k.branches, b)
		var reads, updates []*ai.Tree
		for _, s := range strings.Split(q.clauses, "; ") {
			f := strings.Fields(s)
			if len(f) == 0 {
				continue
			}
			cl := &clause{kind: f[0], t: clone(kit[f[0]])}
			b.clauses = append(b.clauses, cl)
			toks := nameTokens(cl.t)
			for i, w := range f[1:] {
				var x int
				fmt.Sscan(w, &x)
				cl.vars = append(cl.vars, x)
				toks[i].TextV = k.names[x]
			}
			if len(toks) != len(cl.vars) {
				panic("the clause has other names: " + cl.t.String())
			}
			if strings.HasPrefix(cl.kind, "match") {
				reads = append(reads, cl.t)
				b.reads++
			} else {
				updates = append(updates, cl.t)
			}
			if strings.HasPrefix(cl.kind, "match") || cl.kind == "merge" {
				for _, p := range find(cl.t, "oC_PatternPart") {
					items := patItems(p)
					for i, it := range items {
						k.class[it] = cl.vars[i]
					}
					cl.parts = append(cl.parts, len(k.parts))
					k.parts = append(k.parts, items)
					cnt := counts[len(k.parts)-1]
					if cnt == nil {
						cnt = []int{1}
					}
					k.counts = append(k.counts, cnt)
				}
			}
			if es := find(cl.t, "oC_Expression"); len(es) > 0 {
				cl.expr = es[0]
				k.leaves = append(k.leaves, es[0])
			}
			if ks := find(cl.t, "oC_PropertyKeyName"); len(ks) > 0 {
				cl.key = ks[0]
			}
		}
		var ret *ai.Tree
		if q.items != "" {
			ret = c.returnTree(k, b, strings.Fields(q.items))
		}
		shape := c.least("oC_SinglePartQuery", 2, func(t *ai.Tree) bool {
			return len(t.All("oC_ReadingClause")) == len(reads) && len(t.All("oC_UpdatingClause")) == len(updates) && t.Has("oC_Return") == (ret != nil)
		})
		t := &ai.Tree{Rule: shape.Rule}
		for _, kid := range shape.Kids {
			switch kid.Rule {
			case "oC_ReadingClause":
				t.Kids, reads = append(t.Kids, reads[0]), reads[1:]
			case "oC_UpdatingClause":
				t.Kids, updates = append(t.Kids, updates[0]), updates[1:]
			case "oC_Return":
				t.Kids = append(t.Kids, ret)
			default:
				t.Kids = append(t.Kids, clone(kid))
			}
		}
		sq := &ai.Tree{Rule: "oC_SingleQuery"}
		for _, kid := range c.least("oC_SingleQuery", 1, func(t *ai.Tree) bool { return t.Has("oC_SinglePartQuery") }).Kids {
			if kid.Rule == "oC_SinglePartQuery" {
				kid = t
			}
			sq.Kids = append(sq.Kids, kid)
		}
		singles = append(singles, sq)
	}
	rq := &ai.Tree{Rule: "oC_RegularQuery"}
	unions := 0
	for _, kid := range c.least("oC_RegularQuery", 2, func(t *ai.Tree) bool { return len(t.All("oC_Union")) == len(singles)-1 }).Kids {
		switch kid.Rule {
		case "oC_SingleQuery":
			rq.Kids = append(rq.Kids, singles[0])
			singles = singles[1:]
		case "oC_Union":
			u := &ai.Tree{Rule: "oC_Union"}
			all := k.all(unions)
			unions++
			for _, uk := range c.least("oC_Union", 1, func(t *ai.Tree) bool { return t.Has("ALL") == all }).Kids {
				if uk.Rule == "oC_SingleQuery" {
					uk, singles = singles[0], singles[1:]
				} else {
					uk = clone(uk)
				}
				u.Kids = append(u.Kids, uk)
			}
			rq.Kids = append(rq.Kids, u)
		default:
			rq.Kids = append(rq.Kids, clone(kid))
		}
	}
	k.t = &ai.Tree{Rule: "oC_Query"}
	for _, kid := range c.least("oC_Query", 1, func(t *ai.Tree) bool { return t.Has("oC_RegularQuery") }).Kids {
		if kid.Rule == "oC_RegularQuery" {
			kid = rq
		}
		k.t.Kids = append(k.t.Kids, kid)
	}
	k.what = fmt.Sprintf("%s bound %b found %v", k.t, bound, k.counts)
	if skip != nil {
		k.what += " skip " + skip.what
	}
	if limit != nil {
		k.what += " limit " + limit.what
	}
	return k
}

// all: the n-th UNION is a UNION ALL.
func (k *query) all(n int) bool { return k.alls == nil || k.alls[n] }

// returnTree is a RETURN clause. Items are aliases, names of variables, or "position".
func (c *Ctx) returnTree(k *query, b *branch, items []string) *ai.Tree {
	e := c.E
	list := c.least("oC_ProjectionItems", len(items), func(t *ai.Tree) bool {
		return len(t.All("oC_ProjectionItem")) == len(items) && !strings.HasPrefix(t.String(), "*")
	})
	lt := &ai.Tree{Rule: list.Rule}
	i := 0
	for _, kid := range list.Kids {
		if kid.Rule != "oC_ProjectionItem" {
			lt.Kids = append(lt.Kids, clone(kid))
			continue
		}
		alias := items[i] != "position"
		it := clone(grow(c.least("oC_ProjectionItem", 1, func(t *ai.Tree) bool { return t.Has("oC_Variable") == alias }), c.plain())[0])
		name := e.Str(fmt.Sprint(i + 1))
		if alias {
			name = e.Str(items[i])
			nameTokens(it)[0].TextV = name
		}
		b.names = append(b.names, name)
		b.items = append(b.items, find(it, "oC_Expression")[0])
		lt.Kids = append(lt.Kids, it)
		i++
	}
	body := c.least("oC_ProjectionBody", 1, func(t *ai.Tree) bool {
		return !t.Has("DISTINCT") && !t.Has("oC_Order") && t.Has("oC_Skip") == (k.skip != nil) && t.Has("oC_Limit") == (k.limit != nil)
	})
	bt := &ai.Tree{Rule: body.Rule}
	for _, kid := range body.Kids {
		switch kid.Rule {
		case "oC_ProjectionItems":
			bt.Kids = append(bt.Kids, lt)
		case "oC_Skip":
			s := clone(c.least("oC_Skip", 1, nil))
			b.skip = find(s, "oC_Expression")[0]
			bt.Kids = append(bt.Kids, s)
		case "oC_Limit":
			s := clone(c.least("oC_Limit", 1, nil))
			b.limit = find(s, "oC_Expression")[0]
			bt.Kids = append(bt.Kids, s)
		default:
			bt.Kids = append(bt.Kids, clone(kid))
		}
	}
	k.leaves = append(k.leaves, b.items...)
	if b.skip != nil {
		k.leaves = append(k.leaves, b.skip)
	}
	if b.limit != nil {
		k.leaves = append(k.leaves, b.limit)
	}
	r := c.least("oC_Return", 1, nil)
	rt := &ai.Tree{Rule: r.Rule}
	for _, kid := range r.Kids {
		if kid.Rule == "oC_ProjectionBody" {
			kid = bt
		} else {
			kid = clone(kid)
		}
		rt.Kids = append(rt.Kids, kid)
	}
	return rt
}

// runQuery evaluates a query and checks what it does.
func (c *Ctx) runQuery(k *query) {
	e := c.E
	if f := os.Getenv("PSHAPE"); f != "" && !strings.Contains(k.what, f) { // for debugging
		return
	}
	any := types.Type(types.NewInterfaceType(nil, nil))
	if k.bad != nil {
		k.what += fmt.Sprintf(" expression %d fails the time %d", indexOf(k.leaves, k.bad), k.badN)
	}
	c.Obl("query", k.what)
	mk, set, get := c.Func("NewEvalContext"), c.Method("EvalContext", "SetVar"), c.Method("EvalContext", "GetVar")
	if mk == nil || set == nil || get == nil || c.Type("RValue") == nil || c.Type("ResultSet") == nil {
		return
	}
	var r *shapeRun
	mon := &ai.Monitor{NoModel: c.noCtxModels()}
	mon.OnEvent = func(x *ai.Exec, st *ai.State, ev *ai.Event) []*ai.State {
		c.logEffects(st, ev)
		return nil
	}
	known := map[*ai.V]bool{}
	mon.Ext = c.searches(func(st *ai.State, s *search) ([]map[*ai.V]*ai.V, bool) {
		part := -1
		env := make([]*ai.V, len(k.names))
		for p, items := range k.parts {
			own := map[*ai.V]bool{}
			for _, it := range items {
				if x := k.class[it]; x >= 0 {
					own[k.names[x]] = true
				}
			}
			ok := len(own) == len(s.names)
			for o := range own {
				has := false
				for _, nm := range s.names {
					has = has || c.same(st, nm, o)
				}
				ok = ok && has
			}
			if ok && part < 0 {
				part = p
			}
		}
		if part < 0 {
			panic("a search for no pattern of the query")
		}
		for _, it := range k.parts[part] {
			if x := k.class[it]; x >= 0 {
				env[x] = s.given(k.names[x])
			}
		}
		var out []map[*ai.V]*ai.V
		for _, m := range k.find(part, env) {
			row := map[*ai.V]*ai.V{}
			for _, it := range k.parts[part] {
				if x := k.class[it]; x >= 0 {
					row[k.names[x]] = e.Box(m[x])
				}
			}
			out = append(out, row)
		}
		for _, v := range k.syms {
			if !known[v] {
				st.AssumeNil(v, false)
			}
		}
		return out, false
	})
	mon.Eval = func(x *ai.Exec, st *ai.State, ci *ai.CallInfo, recv, ctx *ai.V) ([]*ai.State, bool) {
		leaf := c.leafOf(recv)
		i := indexOf(k.leaves, leaf)
		if i < 0 {
			return nil, false
		}
		for _, b := range k.branches {
			for l, pg := range map[*ai.Tree]*page{b.skip: k.skip, b.limit: k.limit} {
				if l != nil && l == leaf {
					c.log(st, "page")
					return []*ai.State{x.Ret(st, ci, c.rvalue(pg.v), e.Nil(any))}, true
				}
			}
		}
		n := 0
		for _, l := range logOf(st) {
			if l.Aux == fmt.Sprint("eval ", i) {
				n++
			}
		}
		if leaf == k.bad && n == k.badN {
			c.log(st, "evalerr")
			return []*ai.State{x.Ret(st, ci, e.Nil(ci.Sig.Results().At(0).Type()), st.NewError("expression"))}, true
		}
		var t types.Type = types.Typ[types.String]
		for _, b := range k.branches {
			for _, cl := range b.clauses {
				if cl.kind == "delete" && cl.expr == leaf {
					t = types.NewPointer(c.lpgType("Edge"))
				}
			}
		}
		cp := *ci
		if k.values != nil {
			n := 0
			for _, l := range logOf(st) {
				if strings.HasPrefix(l.Aux, "eval ") {
					n++
				}
			}
			if n < len(k.values) {
				c.log(st, fmt.Sprint("eval ", i), append([]*ai.V{k.values[n]}, k.bound...)...)
				return []*ai.State{x.Ret(st, &cp, c.rvalue(k.values[n]), e.Nil(any))}, true
			}
		}
		return c.lookNames(x, st, ci.Instr, ctx, k.names, func(x *ai.Exec, st *ai.State, vals []*ai.V) []*ai.State {
			v := e.Sym(fmt.Sprint("result ", len(logOf(st))), t)
			if t != types.Typ[types.String] {
				st.AssumeNil(v, false)
				for _, l := range logOf(st) { // other rows have other relationships
					if strings.HasPrefix(l.Aux, "eval ") && types.Identical(l.Args[0].T, t) {
						st.Assume(st.Equal(v, l.Args[0]), false)
					}
				}
			}
			c.log(st, fmt.Sprint("eval ", i), append([]*ai.V{v}, vals...)...)
			return []*ai.State{x.Ret(st, &cp, c.rvalue(e.Box(v)), e.Nil(any))}
		}), true
	}
	c.runScript(k.t, k.what, mon, func(st *ai.State) {
		c.knownTexts(st, k.t)
		for i, v := range k.values {
			st.Ghost[fmt.Sprint("value ", i)] = v
		}
		for _, p := range k.less {
			st.Assume(e.Cmp(st.Payload(p[0], types.Typ[types.Int]), st.Payload(p[1], types.Typ[types.Int]), ai.LT), true)
		}
		for i, v := range k.syms {
			known[v] = true
			st.AssumeNil(v, false)
			st.Ghost[fmt.Sprint("known ", i)] = v
		}
	}, func(run *shapeRun, st *ai.State, n int, prev *ai.V) *ai.Call {
		r = run
		switch n {
		case 1:
			st.Ghost["built"] = prev
			return &ai.Call{Fn: mk, Args: []*ai.V{e.Sym("graph", mk.Signature.Params().At(0).Type())}}
		case 2:
			st.Ghost["ctx"] = prev
		}
		n -= 2
		for x, v := range k.bound {
			if v == nil {
				continue
			}
			if n == 0 {
				return &ai.Call{Fn: set, Args: []*ai.V{st.Ghost["ctx"], k.names[x], c.rvalue(e.Box(v))}}
			}
			n--
		}
		if n == 0 {
			return &ai.Call{Recv: st.Ghost["built"], Method: "Evaluate", Args: []*ai.V{st.Ghost["ctx"]}}
		}
		n--
		if n == 0 && !k.evaluated(r, st, prev) {
			return nil
		}
		if n > 0 {
			v := k.bound[n-1]
			if st.Ghost["succeeded"] != nil {
				after := st.Ghost[fmt.Sprint("after ", n-1)]
				got := prev.Args[0]
				switch {
				case after == nil:
				case after.Op == "none" && st.IsNil(prev.Args[1]) != 0:
					r.report(st, "scope", "the caller sees variable %d of the rows of a query", n-1)
					return nil
				case after.Op != "none" && (st.IsNil(prev.Args[1]) != 1 || !c.isPtr(st, e.Get(st, got), after)):
					r.report(st, "scope", "variable %d of the caller is not what it is after the query", n-1)
					return nil
				}
				v = nil
			}
			// the query has failed
			switch {
			case st.Ghost["succeeded"] != nil:
			case v == nil && st.IsNil(prev.Args[1]) != 0:
				r.report(st, "scope", "the caller sees variable %d of a query that failed", n-1)
				return nil
			case v != nil && (st.IsNil(prev.Args[1]) != 1 || !c.isPtr(st, e.Get(st, prev.Args[0]), v)):
				r.report(st, "scope", "variable %d of the caller is not what it was before a query failed", n-1)
				return nil
			}
		}
		if n < len(k.names) {
			return &ai.Call{Fn: get, Args: []*ai.V{st.Ghost["ctx"], k.names[n]}}
		}
		return nil
	})
}

// evaluated compares what a query did with what it says; true if nothing is
// wrong so far.
func (k *query) evaluated(r *shapeRun, st *ai.State, res *ai.V) bool {
	c, e := k.c, k.c.E
	err := res.Args[1]
	var log []*ai.V
	for _, l := range logOf(st) {
		if l.Aux != "run" && l.Aux != "bind" && l.Aux != "page" {
			log = append(log, l)
		}
	}
	same := func(vals, env []*ai.V) int {
		for x, w := range env {
			none := vals[x] == nil || vals[x].Op == "none"
			if none != (w == nil) || w != nil && !c.isPtr(st, vals[x], w) {
				return x
			}
		}
		return -1
	}
	evals := map[*ai.Tree]int{}
	at := 0
	failed := false
	bad := func(rule, format string, args ...any) bool {
		r.report(st, rule, format, args...)
		return false
	}
	next := func() *ai.V {
		if at == len(log) {
			return nil
		}
		at++
		return log[at-1]
	}
	// eval takes an evaluation from the log; nil if something is wrong or it fails
	eval := func(what string, leaf *ai.Tree, row int, env []*ai.V) *ai.V {
		if leaf == k.bad && evals[leaf] == k.badN {
			failed = true
			if l := next(); l == nil || l.Aux != "evalerr" {
				bad("rows", "%s is not done for row %d", what, row)
			}
			return nil
		}
		evals[leaf]++
		l := next()
		if l == nil || l.Aux != fmt.Sprint("eval ", indexOf(k.leaves, leaf)) {
			bad("rows", "%s is not done for row %d", what, row)
			return nil
		}
		if x := same(l.Args[1:], env); k.values == nil && x >= 0 {
			bad("rows", "%s is done for row %d with another value of variable %d", what, row, x)
			return nil
		}
		return l.Args[0]
	}
	fail := func() bool { // after eval gave nothing
		if !failed {
			return false
		}
		if at != len(log) {
			return bad("fails", "the query goes on after an expression failed: %s", log[at].Aux)
		}
		if st.IsNil(err) != 0 {
			return bad("fails", "the query succeeds although an expression failed")
		}
		return true
	}
	for _, p := range []*page{k.skip, k.limit} {
		if p != nil && p.n < 0 {
			if st.IsNil(err) != 0 {
				return bad("page", "the query succeeds with %s", p.what)
			}
			return true
		}
	}
	var cols []*ai.V
	none := e.Mk("none", nil, "")
	after := append([]*ai.V(nil), k.bound...) // what the caller sees afterwards
	ambiguous := map[int]bool{}
	for x, v := range after {
		if v == nil {
			after[x] = none
		}
	}
	var result []map[*ai.V]*ai.V // column to value
	box := func(v *ai.V) *ai.V {
		if k.values != nil {
			return v // it is a value
		}
		return e.Box(v)
	}
	for bi, b := range k.branches {
		rows := [][]*ai.V{append([]*ai.V(nil), k.bound...)}
		for _, cl := range b.clauses {
			var out [][]*ai.V
			for i, env := range rows {
				what := strings.ToUpper(cl.kind)
				env = append([]*ai.V(nil), env...)
				switch cl.kind {
				case "match", "matchR":
					ms := [][]*ai.V{env}
					for _, p := range cl.parts {
						var all [][]*ai.V
						for _, m := range ms {
							all = append(all, k.find(p, m)...)
						}
						ms = all
					}
					out = append(out, ms...)
					continue
				case "merge":
					ms := k.find(cl.parts[0], env)
					if len(ms) > 0 {
						out = append(out, ms...)
						continue
					}
					fallthrough
				case "create", "createR":
					for _, x := range cl.vars {
						if env[x] != nil {
							continue
						}
						l := next()
						if l == nil || l.Aux != "Graph.NewNode" {
							return bad("rows", "%s is not done for row %d", what, i)
						}
						env[x] = l.Args[len(l.Args)-1]
					}
					if cl.kind == "createR" {
						l := next()
						if l == nil || l.Aux != "Graph.NewEdge" {
							return bad("rows", "%s is not done for row %d", what, i)
						}
						if !c.isPtr(st, e.Box(l.Args[1]), env[cl.vars[0]]) || !c.isPtr(st, e.Box(l.Args[2]), env[cl.vars[1]]) {
							return bad("rows", "%s is done for row %d with other nodes", what, i)
						}
					}
				case "set":
					v := eval(what, cl.expr, i, env)
					if v == nil {
						return fail()
					}
					l := next()
					if l == nil || l.Aux != "Node.SetProperty" || len(l.Args) != 3 {
						return bad("rows", "%s is not done for row %d", what, i)
					}
					if !c.isPtr(st, e.Box(l.Args[0]), env[cl.vars[0]]) || !c.sameText(st, l.Args[1], c.nameText(cl.key)) || !c.same(st, l.Args[2], e.Box(v)) {
						return bad("rows", "%s does something else for row %d", what, i)
					}
				case "remove":
					l := next()
					if l == nil || l.Aux != "Node.RemoveProperty" || len(l.Args) != 2 {
						return bad("rows", "%s is not done for row %d", what, i)
					}
					if !c.isPtr(st, e.Box(l.Args[0]), env[cl.vars[0]]) || !c.sameText(st, l.Args[1], c.nameText(cl.key)) {
						return bad("rows", "%s does something else for row %d", what, i)
					}
				case "delete":
					v := eval(what, cl.expr, i, env)
					if v == nil {
						return fail()
					}
					l := next()
					if l == nil || l.Aux != "Edge.Remove" || l.Args[0] != v {
						return bad("rows", "%s is not done for row %d", what, i)
					}
				default:
					panic("unknown clause " + cl.kind)
				}
				out = append(out, env)
			}
			rows = out
		}
		for x := range k.bound {
			if k.bound[x] != nil {
				continue
			}
			for _, env := range rows {
				if env[x] != nil {
					after[x] = env[x]
					// which of the rows is not defined
					ambiguous[x] = ambiguous[x] || b.reads > 0 || len(rows) > 1
				}
			}
		}
		if b.items == nil {
			continue
		}
		if k.skip != nil {
			if k.skip.n > len(rows) {
				rows = nil
			} else {
				rows = rows[k.skip.n:]
			}
		}
		if k.limit != nil && k.limit.n < len(rows) {
			rows = rows[:k.limit.n]
		}
		cols = b.names
		for i, env := range rows {
			vals := map[*ai.V]*ai.V{}
			for j, it := range b.items {
				v := eval("RETURN", it, i, env)
				if v == nil {
					return fail()
				}
				vals[b.names[j]] = v
			}
			result = append(result, vals)
		}
		if bi == 0 || k.all(bi-1) {
			continue
		}
		var distinct []map[*ai.V]*ai.V
		for _, row := range result {
			found := false
			for _, d := range distinct {
				eq := len(row) == len(d)
				for col, v := range row {
					eq = eq && v == d[col]
				}
				found = found || eq
			}
			if !found {
				distinct = append(distinct, row)
			}
		}
		result = distinct
	}
	if at != len(log) {
		return bad("rows", "%s is done once more than there are rows", log[at].Aux)
	}
	if st.IsNil(err) != 1 {
		return bad("fails", "the query fails although nothing is wrong")
	}
	got, ok := c.rowsOf(st, res.Args[0])
	if !ok {
		return bad("rows", "the rows of the result are unknown: %s", res.Args[0].Show())
	}
	if len(got) != len(result) {
		rule := "rows"
		if k.skip != nil || k.limit != nil {
			rule = "page"
		}
		return bad(rule, "the result has %d rows instead of %d", len(got), len(result))
	}
	for i, row := range got {
		for col, v := range result[i] {
			w := c.inRow(r.x, st, row, col)
			if w == nil {
				return bad("columns", "row %d has no column %s", i, col.Show())
			}
			if !c.same(st, w, box(v)) {
				return bad("rows", "column %s of row %d is not what its expression is for it: %s instead of %s", col.Show(), i, w.Show(), v.Show())
			}
		}
		for _, s := range st.MapContent(row).Args {
			ok := false
			for _, col := range cols {
				ok = ok || s.Op == "ent" && c.sameText(st, s.Args[0], col)
			}
			if !ok {
				return bad("columns", "row %d has a column that is not declared", i)
			}
		}
	}
	// the declared columns
	rs := e.Get(st, res.Args[0])
	if p := st.Payload(rs, c.R.Type("ResultSet")); p != nil {
		rs = p
	}
	var names []*ai.V
	if f := e.FieldByName(rs, "Cols"); f != nil {
		names = st.Segs(f)
	}
	if len(names) != len(cols) {
		return bad("columns", "%d columns are declared instead of %d", len(names), len(cols))
	}
	for i, s := range names {
		if s.Op != "one" || !c.sameText(st, s.Args[0], cols[i]) {
			return bad("columns", "column %d is declared as %s", i, s.Show())
		}
	}
	st.Ghost["succeeded"] = none
	for x, v := range after {
		if !ambiguous[x] {
			st.Ghost[fmt.Sprint("after ", x)] = v
		}
	}
	return true
}

// updating queries.
var updating = []string{
	"match 0; create 1", "match 0; createR 0 1", "match 0; set 0", "match 0; remove 0", "match 0; merge 1", "match 0; delete",
	"match 0; create 1; set 1", "match 0; createR 0 1; set 1", "match 0; set 0; set 0", "match 0; set 0; remove 0", "match 0; merge 1; set 1",
	"match 0; merge 1; create 2", "match 0; create 1; merge 2", "match 0; delete; set 0", "match 0; create 1; create 2", "match 0; merge 1; merge 2",
	"match 0; create 1; merge 2; set 1", "match 0; set 0; create 1; delete", "match 0; merge 1; delete; remove 1",
	"match 0; match 1; create 2", "match 0; match 1; set 0", "match 0; match 1; createR 0 1", "match 0; match 1; merge 2", "match 0; match 1; delete", "match 0; match 1; set 0; set 1",
	"match 0; matchR 0 1 2; set 2", "match 0; matchR 0 1 2; createR 2 0", "match 0; matchR 0 1 2; delete",
	"create 0", "merge 0", "create 0; create 1", "create 0; createR 0 1", "merge 0; set 0", "create 0; merge 1", "merge 0; create 1", "merge 0; createR 0 1", "merge 0; delete", "merge 0; remove 0",
	"create 0; merge 1; set 0", "create 0; merge 1; set 1", "merge 0; create 1; set 1", "merge 0; merge 1; set 1",
}

func (c *Ctx) needQueries() map[string]*ai.Tree {
	return c.clauseTrees()
}

func g03(c *Ctx) {
	c.Rule("builder and evaluator of queries that update are followed for up to two matches per search; the log of evaluations and changes must be what the clauses say for every row, in order, each with the variables of its row, and the result must have the rows that come out of the last clause")
	c.only = map[string]bool{"rows": true, "fails": true, "undecided": true}
	kit := c.needQueries()
	for _, text := range updating {
		for _, items := range []string{"", "c"} {
			c.variants(text, func(bound int, counts map[int][]int, some bool) {
				mk := func() *query {
					return c.newQuery(kit, []queryText{{text, items}}, nil, bound, counts, nil, nil)
				}
				k := mk()
				c.runQuery(k)
				if !some {
					return
				}
				for i := range k.leaves {
					for n := 0; n < 2; n++ {
						b := mk()
						b.bad, b.badN = b.leaves[i], n
						c.runQuery(b)
					}
				}
			})
		}
	}
}

// variants calls f with ways to bind the first variable and numbers of matches.
func (c *Ctx) variants(text string, f func(bound int, counts map[int][]int, some bool)) {
	parts := strings.Count(text, "match") + strings.Count(text, "merge")
	var step func(p int, counts map[int][]int)
	step = func(p int, counts map[int][]int) {
		if p == parts {
			cp := map[int][]int{}
			two := true
			for i, n := range counts {
				cp[i] = n
				two = two && n[0] > 0
			}
			two = two && (parts == 0 || counts[0][0] == 2)
			f(0, cp, two)
			if strings.HasPrefix(text, "match 0") && counts[0][0] > 0 {
				f(1, cp, false)
			}
			return
		}
		opts := [][]int{{0}, {1}, {2}}
		if p > 0 {
			opts = [][]int{{0, 2}, {1, 0}, {2, 1}}
		}
		for _, o := range opts {
			counts[p] = o
			step(p+1, counts)
		}
	}
	step(0, map[int][]int{})
}

func q01(c *Ctx) {
	c.Rule("builder and evaluator of queries with RETURN are followed for one to three items with and without alias over up to four rows; the columns that are declared and those of every row must be the names of the items, with the value of its expression for the row")
	c.only = map[string]bool{"columns": true, "undecided": true, "rows": true}
	kit := c.needQueries()
	for _, text := range []string{"", "match 0", "match 0; match 1", "match 0; matchR 0 1 2", "match 0; set 0", "create 0", "merge 0", "match 0; create 1", "match 0; merge 1"} {
		for _, items := range []string{"c", "position", "v0", "c d", "c position", "position c", "position position", "v0 position", "v1 v0", "c position d", "position c position"} {
			c.variants(text, func(bound int, counts map[int][]int, some bool) {
				c.runQuery(c.newQuery(kit, []queryText{{text, items}}, nil, bound, counts, nil, nil))
			})
		}
	}
}

// pages are the values SKIP and LIMIT may have.
func (c *Ctx) pages() []*page {
	e := c.E
	any := types.Type(types.NewInterfaceType(nil, nil))
	out := []*page{nil}
	for _, n := range []int{0, 1, 2, 3, 5} {
		out = append(out, &page{fmt.Sprint(n), n, e.Box(e.Int(int64(n)))})
	}
	return append(out,
		&page{"a negative number", -1, e.Box(e.Int(-1))},
		&page{"null", -1, e.Nil(any)},
		&page{"a string", -1, e.Box(e.Str("1"))},
		&page{"a bool", -1, e.Box(e.Bool(true))})
}

func q02(c *Ctx) {
	c.Rule("builder and evaluator of queries with SKIP and LIMIT are followed for up to four rows; the rows of the result must be those that are left, in order, and values that are not counts must be refused")
	c.only = map[string]bool{"page": true, "rows": true, "undecided": true}
	kit := c.needQueries()
	for _, text := range []string{"", "match 0", "match 0; match 1", "match 0; set 0", "create 0", "merge 0", "match 0; merge 1", "match 0; create 1"} {
		for _, skip := range c.pages() {
			for _, limit := range c.pages() {
				if skip == nil && limit == nil {
					continue
				}
				if skip != nil && limit != nil && (skip.n < 0 || limit.n < 0) {
					continue
				}
				c.variants(text, func(bound int, counts map[int][]int, some bool) {
					if bound == 0 {
						c.runQuery(c.newQuery(kit, []queryText{{text, "c"}}, nil, bound, counts, skip, limit))
					}
				})
			}
		}
	}
}

func q04(c *Ctx) {
	c.Rule("builder and evaluator of queries with up to three branches are followed, failing at every expression; no branch sees variables of another, and after a failure the variables of the caller are what they were")
	c.only = map[string]bool{"scope": true, "rows": true, "fails": true, "undecided": true}
	kit := c.needQueries()
	fail := func(mk func() *query) {
		k := mk()
		c.runQuery(k)
		for i := range k.leaves {
			for n := 0; n < 2; n++ {
				b := mk()
				b.bad, b.badN = b.leaves[i], n
				c.runQuery(b)
			}
		}
	}
	for _, text := range []string{"", "match 0", "match 0; match 1", "match 0; set 0", "create 0", "merge 0", "match 0; merge 1", "match 0; create 1; set 1", "create 0; merge 1; set 1"} {
		c.variants(text, func(bound int, counts map[int][]int, some bool) {
			fail(func() *query {
				return c.newQuery(kit, []queryText{{text, "v0 v1"}}, nil, bound, counts, nil, nil)
			})
		})
	}
	pairs := [][]string{{"match 0", "match 0"}, {"match 0", "match 1"}, {"create 0", "create 0"}, {"create 0", "merge 0"}, {"merge 0", "match 0; create 1"}, {"match 0; create 1", "create 1"}, {"", "create 0"}, {"create 0", ""}, {"match 0", "", "match 0"}, {"create 0", "create 1", "create 0"}}
	for _, p := range pairs {
		for bound := 0; bound < 2; bound++ {
			if bound == 1 && !strings.HasPrefix(p[0], "match 0") {
				continue
			}
			var texts []queryText
			for _, t := range p {
				texts = append(texts, queryText{t, "c"})
			}
			counts := map[int][]int{0: {2}, 1: {1}, 2: {2}}
			fail(func() *query { return c.newQuery(kit, texts, nil, bound, counts, nil, nil) })
		}
	}
}

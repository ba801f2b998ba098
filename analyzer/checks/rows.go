package checks

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/ai"
)

// Nodes of which everything is known: their properties and labels are kept in
// the state, and the methods that read and change them work on that.

func propsOf(n *ai.V) string  { return fmt.Sprint("props of ", n.ID) }
func labelsOf(n *ai.V) string { return fmt.Sprint("labels of ", n.ID) }

// knowNode: n has exactly these properties.
func (c *Ctx) knowNode(st *ai.State, n *ai.V, keys, vals []*ai.V) {
	e := c.E
	var ents []*ai.V
	for i := range keys {
		ents = append(ents, e.Mk("ent", nil, "", keys[i], vals[i]))
	}
	st.AssumeNil(n, false)
	st.Ghost[propsOf(n)] = e.Mk("mcont", nil, "", ents...)
	st.Ghost["is "+propsOf(n)] = n
}

// mapOf is a map with a content.
func (c *Ctx) mapOf(st *ai.State, content *ai.V, et types.Type) *ai.V {
	m := c.E.NewMap(types.NewMap(types.Typ[types.String], et))
	st.SetMapContent(m, content)
	return m
}

// entriesOf calls f with the entries of a content that are not replaced by later ones.
func (c *Ctx) entriesOf(st *ai.State, content *ai.V, f func(st *ai.State, keys, vals []*ai.V)) {
	segs := content.Args
	var step func(st *ai.State, i int, keys, vals []*ai.V)
	step = func(st *ai.State, i int, keys, vals []*ai.V) {
		if i == len(segs) {
			f(st, keys, vals)
			return
		}
		for _, l := range segs[i+1:] {
			same := st.Equal(segs[i].Args[0], l.Args[0])
			switch st.Decide(same) {
			case 1:
				step(st, i+1, keys, vals)
				return
			case -1:
				o := st.Clone()
				if o.Assume(same, true) {
					step(o, i+1, keys, vals)
				}
				if !st.Assume(same, false) {
					return
				}
			}
		}
		if segs[i].Op == "del" {
			step(st, i+1, keys, vals)
			return
		}
		step(st, i+1, append(append([]*ai.V(nil), keys...), segs[i].Args[0]), append(append([]*ai.V(nil), vals...), segs[i].Args[1]))
	}
	step(st, 0, nil, nil)
}

// nodeCall models the methods of known nodes.
func (c *Ctx) nodeCall(x *ai.Exec, st *ai.State, ci *ai.CallInfo, name string) ([]*ai.State, bool) {
	e := c.E
	i := strings.LastIndex(name, "Node).")
	if i < 0 || len(ci.Args) == 0 || !strings.Contains(name, "/lpg") {
		return nil, false
	}
	n := st.Freeze(ci.Args[0])
	props := st.Ghost[propsOf(n)]
	if props == nil {
		return nil, false
	}
	one := func(st *ai.State) []*ai.State { return []*ai.State{st} }
	put := func(seg *ai.V) {
		st.Ghost[propsOf(n)] = e.Mk("mcont", nil, "", append(append([]*ai.V(nil), props.Args...), seg)...)
	}
	switch name[i+6:] {
	case "SetProperty":
		c.reach(ci.Instr)
		put(e.Mk("ent", nil, "", st.Freeze(ci.Args[1]), st.Freeze(ci.Args[2])))
		return one(st), true
	case "RemoveProperty":
		put(e.Mk("del", nil, "", st.Freeze(ci.Args[1])))
		return one(st), true
	case "GetProperty":
		var out []*ai.State
		x.MapLookup(st, c.mapOf(st, props, types.NewInterfaceType(nil, nil)), ci.Args[1], types.NewInterfaceType(nil, nil), func(s *ai.State, v *ai.V, found bool) {
			out = append(out, x.Ret(s, ci, v, e.Bool(found)))
		})
		return out, true
	case "ForEachProperty":
		var out []*ai.State
		c.entriesOf(st, props, func(s *ai.State, keys, vals []*ai.V) {
			var args [][]*ai.V
			for i := range keys {
				args = append(args, []*ai.V{keys[i], vals[i]})
			}
			out = append(out, x.CallEach(s, ci, "ForEachProperty", ci.Args[1], args, true, func(x *ai.Exec, st *ai.State, stopped bool) []*ai.State {
				return one(x.Ret(st, ci, e.Bool(!stopped)))
			})...)
		})
		return out, true
	case "GetLabels":
		l := st.Ghost[labelsOf(n)]
		if l == nil {
			return nil, false
		}
		return one(x.Ret(st, ci, l)), true
	case "SetLabels":
		st.Ghost[labelsOf(n)] = st.Freeze(ci.Args[1])
		return one(st), true
	}
	return nil, false
}

// wantEnt is an entry that properties should have: what was there, or what is
// written; a null that is written removes.
type wantEnt struct {
	key, val *ai.V
	written  bool
}

// sameProps compares properties with what they should be.
func (c *Ctx) sameProps(x *ai.Exec, st *ai.State, got *ai.V, want []wantEnt, filter bool) string {
	e := c.E
	any := types.NewInterfaceType(nil, nil)
	var keys []*ai.V
	for _, s := range got.Args {
		keys = append(keys, s.Args[0])
	}
	var ents []*ai.V
	for _, w := range want {
		keys = append(keys, w.key)
		ents = append(ents, e.Mk("ent", nil, "", w.key, e.Mk("tuple", nil, fmt.Sprint(w.written), w.val)))
	}
	why := ""
	compare := func(st *ai.State, k, v *ai.V, found bool, w *ai.V) {
		if w != nil && w.Aux == "true" {
			switch st.IsNil(w.Args[0]) {
			case 1:
				w = nil
			case -1:
				panic("not known whether a value is null: " + w.Show())
			}
		}
		switch {
		case w == nil && found:
			why = fmt.Sprintf("property %s is there with value %s", k.Show(), v.Show())
		case w != nil && !found:
			why = fmt.Sprintf("property %s is not there", k.Show())
		case w == nil:
		case w.Aux == "false" || !filter:
			if !c.same(st, v, w.Args[0]) {
				why = fmt.Sprintf("property %s is %s and not %s", k.Show(), v.Show(), w.Args[0].Show())
			}
		case !c.filtered(st, v, k, w.Args[0]):
			why = fmt.Sprintf("property %s is %s, which is not the filter's result for %s", k.Show(), v.Show(), w.Args[0].Show())
			c.notFiltered = why
		}
	}
	for _, k := range keys {
		s := st.Clone()
		x.MapLookup(s, c.mapOf(s, got, any), k, any, func(s *ai.State, v *ai.V, found bool) {
			x.MapLookup(s, c.mapOf(s, e.Mk("mcont", nil, "", ents...), any), k, any, func(s *ai.State, w *ai.V, wanted bool) {
				if !wanted {
					w = nil
				}
				if w == nil || w.Aux != "true" || s.IsNil(w.Args[0]) >= 0 {
					compare(s, k, v, found, w)
					return
				}
				o := s.Clone()
				if s.AssumeNil(w.Args[0], true) {
					compare(s, k, v, found, w)
				}
				if o.AssumeNil(w.Args[0], false) {
					compare(o, k, v, found, w)
				}
			})
		})
	}
	return why
}

// filtered: v is what the filter made of a key and a value.
func (c *Ctx) filtered(st *ai.State, v, key, val *ai.V) bool {
	for n := 0; ; n++ {
		f := st.Ghost[fmt.Sprintf("filter%02d", n)]
		if f == nil {
			return false
		}
		if v == f.Args[2] && c.sameText(st, f.Args[0], key) && c.same(st, f.Args[1], val) {
			return true
		}
	}
}

// noteFilter records calls of the property filter.
func (c *Ctx) noteFilter(st *ai.State, ev *ai.Event) {
	if ev.Kind != "call" || !strings.HasPrefix(ev.Name, "dyn:") || ev.Recv == nil || len(ev.Args) != 2 || len(ev.Res) != 1 {
		return
	}
	n := 0
	for st.Ghost[fmt.Sprintf("filter%02d", n)] != nil {
		n++
	}
	st.Ghost[fmt.Sprintf("filter%02d", n)] = c.E.Mk("tuple", nil, "", ev.Args[0], ev.Args[1], ev.Res[0])
}

// Rows handed to an update clause.

// rvalue wraps a value.
func (c *Ctx) rvalue(v *ai.V) *ai.V {
	rv := c.Type("RValue")
	return c.E.Box(c.withField(c.E.Zero(rv), "Value", v))
}

// resultOf is a result with some rows, which are maps of names to values.
func (c *Ctx) resultOf(st *ai.State, rows []*ai.V) *ai.V {
	e := c.E
	z := e.Zero(c.Type("ResultSet"))
	f := e.FieldByName(z, "Rows")
	var segs []*ai.V
	for _, r := range rows {
		segs = append(segs, e.One(r))
	}
	return c.withField(z, "Rows", e.List(f.T, segs...))
}

// rowOf is a row.
func (c *Ctx) rowOf(st *ai.State, names, vals []*ai.V) *ai.V {
	e := c.E
	var ents []*ai.V
	for i := range names {
		ents = append(ents, e.Mk("ent", nil, "", names[i], c.rvalue(vals[i])))
	}
	return c.mapOf(st, e.Mk("mcont", nil, "", ents...), c.Type("Value"))
}

// rowsOf are the rows of a result, if they are known.
func (c *Ctx) rowsOf(st *ai.State, v *ai.V) ([]*ai.V, bool) {
	e := c.E
	rs := v
	if !types.Identical(v.T, c.R.Type("ResultSet")) {
		rs = e.Get(st, v)
		if p := st.Payload(rs, c.R.Type("ResultSet")); p != nil {
			rs = p
		}
	}
	rows := e.FieldByName(rs, "Rows")
	if rows == nil {
		return nil, false
	}
	var out []*ai.V
	for _, s := range st.Segs(rows) {
		if s.Op != "one" {
			return nil, false
		}
		out = append(out, s.Args[0])
	}
	return out, true
}

// inRow looks a name up in a row; nil if it is not there.
func (c *Ctx) inRow(x *ai.Exec, st *ai.State, row, name *ai.V) *ai.V {
	var got *ai.V
	x.MapLookup(st.Clone(), row, name, row.T.Underlying().(*types.Map).Elem(), func(s *ai.State, v *ai.V, found bool) {
		if found {
			got = c.E.Get(s, v)
		}
	})
	return got
}

// lookNames calls done with the values of variables in a context; nil for undefined ones.
func (c *Ctx) lookNames(x *ai.Exec, st *ai.State, at ssa.Instruction, ctx *ai.V, names []*ai.V, done func(x *ai.Exec, st *ai.State, vals []*ai.V) []*ai.State) []*ai.State {
	get := c.Method("EvalContext", "GetVar")
	var fns []*ssa.Function
	var args [][]*ai.V
	for _, n := range names {
		fns = append(fns, get)
		args = append(args, []*ai.V{ctx, n})
	}
	return x.CallAll(st, at, "lookup", fns, args, func(x *ai.Exec, st *ai.State, res []*ai.V) []*ai.State {
		var vals []*ai.V
		for _, r := range res {
			if st.IsNil(r.Args[1]) != 1 {
				vals = append(vals, nil)
				continue
			}
			vals = append(vals, c.E.Get(st, r.Args[0]))
		}
		return done(x, st, vals)
	})
}

package ai

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// --- liveness -------------------------------------------------------------------

type liveness struct {
	in   map[*ssa.BasicBlock]map[ssa.Value]bool // live at the end of the phis
	memo map[[2]int][]ssa.Value
}

func (e *Eng) liveOf(fn *ssa.Function) *liveness {
	if l := e.live[fn]; l != nil {
		return l
	}
	l := &liveness{in: map[*ssa.BasicBlock]map[ssa.Value]bool{}, memo: map[[2]int][]ssa.Value{}}
	for _, b := range fn.Blocks {
		l.in[b] = map[ssa.Value]bool{}
	}
	for changed := true; changed; {
		changed = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			s := l.scan(b, nPhis(b))
			if len(s) != len(l.in[b]) {
				l.in[b] = s
				changed = true
			}
		}
	}
	e.live[fn] = l
	return l
}

func nPhis(b *ssa.BasicBlock) int {
	n := 0
	for _, i := range b.Instrs {
		if _, ok := i.(*ssa.Phi); !ok {
			break
		}
		n++
	}
	return n
}

func isReg(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Const, *ssa.Function, *ssa.Global, *ssa.Builtin, nil:
		return false
	}
	return true
}

func (l *liveness) scan(b *ssa.BasicBlock, from int) map[ssa.Value]bool {
	s := map[ssa.Value]bool{}
	for _, succ := range b.Succs {
		for v := range l.in[succ] {
			s[v] = true
		}
		for _, in := range succ.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			delete(s, ph)
		}
	}
	for _, succ := range b.Succs {
		for k, p := range succ.Preds {
			if p != b {
				continue
			}
			for _, in := range succ.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				if isReg(ph.Edges[k]) {
					s[ph.Edges[k]] = true
				}
			}
		}
	}
	for i := len(b.Instrs) - 1; i >= from; i-- {
		in := b.Instrs[i]
		if v, ok := in.(ssa.Value); ok {
			delete(s, v)
		}
		if _, ok := in.(*ssa.DebugRef); ok {
			continue
		}
		for _, o := range in.Operands(nil) {
			if isReg(*o) {
				s[*o] = true
			}
		}
	}
	return s
}

// at lists the registers live before instruction idx of block b, in order.
func (l *liveness) at(b *ssa.BasicBlock, idx int) []ssa.Value {
	k := [2]int{b.Index, idx}
	if r, ok := l.memo[k]; ok {
		return r
	}
	m := l.scan(b, idx)
	r := make([]ssa.Value, 0, len(m))
	for v := range m {
		r = append(r, v)
	}
	sort.Slice(r, func(i, j int) bool {
		a, b := r[i], r[j]
		if a.Name() != b.Name() {
			return a.Name() < b.Name()
		}
		return a.Pos() < b.Pos()
	})
	l.memo[k] = r
	return r
}

// --- roots ---------------------------------------------------------------------------

// liveRegs drops dead registers and returns the live ones per frame.
func (st *State) dropDead() {
	for _, f := range st.frames {
		if f.fn == nil {
			continue
		}
		live := st.e.liveOf(f.fn).at(f.block, f.idx)
		n := make(map[ssa.Value]*V, len(live))
		for _, v := range live {
			if r, ok := f.regs[v]; ok {
				n[v] = r
			}
		}
		f.regs = n
	}
}

// roots visits every root value in a deterministic order; the callback's
// result replaces the value.
func (st *State) roots(visit func(where string, v *V) *V) {
	for _, f := range st.frames {
		if f.fn != nil {
			for _, v := range st.e.liveOf(f.fn).at(f.block, f.idx) {
				if r, ok := f.regs[v]; ok {
					f.regs[v] = visit("r", r)
				}
			}
		}
		for i, v := range f.nv {
			if v != nil {
				f.nv[i] = visit("n", v)
			}
		}
		for _, d := range f.defrs {
			for i, a := range d.call.Args {
				d.call.Args[i] = visit("d", a)
			}
			if d.call.FnV != nil {
				d.call.FnV = visit("d", d.call.FnV)
			}
		}
	}
	for _, k := range sortedKeys(st.Ghost) {
		st.Ghost[k] = visit("g:"+k, st.Ghost[k])
	}
	if len(st.over) > 0 {
		keys := make([]*V, 0, len(st.over))
		for k := range st.over {
			keys = append(keys, k)
		}
		sort.Slice(keys, func(i, j int) bool { return keys[i].ID < keys[j].ID })
		for _, k := range keys {
			st.over[k] = visit("o"+strconv.Itoa(k.ID), st.over[k])
		}
	}
}

// reach collects all subterms of the roots, including heap contents.
func (st *State) reach() map[*V]bool {
	seen := map[*V]bool{}
	var walk func(v *V)
	walk = func(v *V) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		switch v.Op {
		case "ptr", "map", "slref", "iter":
			if c, ok := st.heap[v.N]; ok {
				walk(c)
			}
		}
		for _, a := range v.Args {
			walk(a)
		}
	}
	st.roots(func(_ string, v *V) *V { walk(v); return v })
	for k := range st.over {
		walk(k)
	}
	return seen
}

// stable terms mention inputs only, and no loop-indexed element.
func stable(v *V) bool { return !v.flex && !v.idx && !v.bv && v.depth <= 8 }

func isAtom(v *V) bool {
	switch v.Op {
	case "elem", "mkey", "mval", "cbarg":
		return true
	case "sym":
		return v.N > 0
	case "ptr", "map", "slref", "iter":
		return true
	}
	return false
}

// isTail: s[n:] of a slice s.
func isTail(v *V) bool { return v.Op == "subsl" }

// prune forgets dead registers, unreachable objects and irrelevant facts.
func (st *State) prune() {
	st.dropDead()
	seen := st.reach()
	objs := map[int64]bool{}
	for v := range seen {
		switch v.Op {
		case "ptr", "map", "slref", "iter":
			objs[v.N] = true
		}
	}
	for k := range st.heap {
		if !objs[k] {
			delete(st.heap, k)
		}
	}
	memo := map[*V]bool{}
	var keep func(v *V) bool
	keep = func(v *V) bool {
		if v == zeroBase || seen[v] || stable(v) {
			return true
		}
		if r, ok := memo[v]; ok {
			return r
		}
		r := true
		if isAtom(v) {
			r = false
		} else {
			for _, a := range v.Args {
				if !keep(a) {
					r = false
					break
				}
			}
		}
		memo[v] = r
		return r
	}
	for k := range st.kinds {
		if !keep(k) {
			delete(st.kinds, k)
		}
	}
	for k := range st.bools {
		if !keep(k) {
			delete(st.bools, k)
		}
	}
	for k := range st.rel {
		if !keep(k[0]) || !keep(k[1]) {
			delete(st.rel, k)
		}
	}
	// integer bounds: close over the terms that go away
	var drop []*V
	nodes := map[*V]bool{}
	for k := range st.dbm {
		for _, v := range k {
			if !nodes[v] {
				nodes[v] = true
				if !keep(v) {
					drop = append(drop, v)
				}
			}
		}
	}
	sort.Slice(drop, func(i, j int) bool { return drop[i].ID < drop[j].ID })
	for _, d := range drop {
		type edge struct {
			o *V
			w int64
		}
		var in, out []edge
		for k, w := range st.dbm {
			if k[1] == d {
				in = append(in, edge{k[0], w})
			} else if k[0] == d {
				out = append(out, edge{k[1], w})
			}
		}
		if implicitNat(d) {
			in = append(in, edge{zeroBase, 0})
		}
		for k := range st.dbm {
			if k[0] == d || k[1] == d {
				delete(st.dbm, k)
				st.distC = nil
			}
		}
		for _, a := range in {
			for _, b := range out {
				if a.o == b.o {
					continue
				}
				k := [2]*V{a.o, b.o}
				if w, ok := st.dbm[k]; !ok || a.w+b.w < w {
					st.dbm[k] = a.w + b.w
					st.distC = nil
				}
			}
		}
	}
}

func implicitNat(v *V) bool {
	return v.Op == "len" || v.Op == "mlen" || v.Op == "natural" || isUnsigned(v.T)
}

// --- canonical form ----------------------------------------------------------------------

type canon struct {
	e    *Eng
	st   *State
	syms map[*V]*V
	objs map[int64]int64
	todo []int64
	memo map[*V]*V
}

func (c *canon) term(v *V) *V {
	if !v.flex {
		return v
	}
	return c.e.rewrite(v, func(t *V) *V {
		if !t.flex {
			return t
		}
		switch t.Op {
		case "sym":
			if t.N > 0 {
				n, ok := c.syms[t]
				if !ok {
					n = c.e.intern(V{Op: "csym", T: t.T, N: int64(len(c.syms) + 1)})
					c.syms[t] = n
				}
				return n
			}
		case "ptr", "map", "slref", "iter":
			k, ok := c.objs[t.N]
			if !ok {
				k = int64(len(c.objs) + 1)
				c.objs[t.N] = k
				c.todo = append(c.todo, t.N)
			}
			return c.e.intern(V{Op: "c" + t.Op, T: t.T, N: k})
		}
		return nil
	}, c.memo)
}

// known reports whether all flexible atoms of v have been named already.
func (c *canon) known(v *V) bool {
	if !v.flex {
		return true
	}
	switch v.Op {
	case "sym":
		_, ok := c.syms[v]
		return ok || v.N == 0
	case "ptr", "map", "slref", "iter":
		_, ok := c.objs[v.N]
		return ok
	}
	for _, a := range v.Args {
		if !c.known(a) {
			return false
		}
	}
	return true
}

func (st *State) framesKey() string {
	var b strings.Builder
	for _, f := range st.frames {
		if f.nat != nil {
			fmt.Fprintf(&b, "N%s@%p.%d;", f.nat.Name, f.nat.At, len(f.nv))
			continue
		}
		fmt.Fprintf(&b, "%p.%d.%d.%d;", f.fn, f.block.Index, f.idx, len(f.defrs))
	}
	return b.String()
}

// Canon renders the (pruned) state up to renaming.
func (st *State) Canon() string {
	c := &canon{e: st.e, st: st, syms: map[*V]*V{}, objs: map[int64]int64{}, memo: map[*V]*V{}}
	var b strings.Builder
	b.WriteString(st.framesKey())
	put := func(w string, v *V) {
		b.WriteString(w)
		b.WriteString(strconv.Itoa(c.term(v).ID))
		b.WriteByte(' ')
		for len(c.todo) > 0 {
			o := c.todo[0]
			c.todo = c.todo[1:]
			fmt.Fprintf(&b, "H%d=", c.objs[o])
			if h := st.heap[o]; h != nil {
				b.WriteString(strconv.Itoa(c.term(h).ID))
			}
			b.WriteByte(' ')
		}
	}
	st.roots(func(w string, v *V) *V { put(w, v); return v })
	var facts []string
	zid := func(v *V) int {
		if v == zeroBase {
			return -1
		}
		return c.term(v).ID
	}
	for k, v := range st.kinds {
		if c.known(k) {
			facts = append(facts, fmt.Sprintf("k%d:%s", c.term(k).ID, st.e.kindKey(v)))
		}
	}
	for k, v := range st.bools {
		if c.known(k) {
			facts = append(facts, fmt.Sprintf("b%d:%v", c.term(k).ID, v))
		}
	}
	for k, v := range st.rel {
		if c.known(k[0]) && c.known(k[1]) {
			a, d := c.term(k[0]).ID, c.term(k[1]).ID
			if a > d {
				a, d, v = d, a, mirror(v)
			}
			facts = append(facts, fmt.Sprintf("r%d,%d:%d", a, d, v))
		}
	}
	for k, v := range st.dbm {
		if (k[0] == zeroBase || c.known(k[0])) && (k[1] == zeroBase || c.known(k[1])) {
			facts = append(facts, fmt.Sprintf("d%d,%d:%d", zid(k[0]), zid(k[1]), v))
		}
	}
	sort.Strings(facts)
	b.WriteString(strings.Join(facts, " "))
	return b.String()
}

func (e *Eng) kindKey(k Kind) string {
	p := ""
	if k.Pos != nil {
		p = e.tkey(k.Pos)
	}
	return fmt.Sprintf("%v,%s,%s,%s,%s", k.Nil, p, k.Neg, k.ImplPos, k.ImplNeg)
}

// --- shape --------------------------------------------------------------------------------

type shaper struct {
	st   *State
	objs map[int64]int
	b    strings.Builder
}

func (s *shaper) shape(v *V, d int, ghost bool) {
	st := s.st
	b := &s.b
	switch v.Op {
	case "ptr", "map", "slref", "iter":
		k, ok := s.objs[v.N]
		if !ok {
			k = len(s.objs)
			s.objs[v.N] = k
		}
		fmt.Fprintf(b, "&%s%d", v.Op, k)
		if !ok && st.heap[v.N] != nil {
			b.WriteByte('=')
			s.shape(st.heap[v.N], 0, false)
		}
		return
	case "closure", "func":
		fmt.Fprintf(b, "F%p(", v.Fn)
		for _, a := range v.Args {
			s.shape(a, d+1, false)
			b.WriteByte(',')
		}
		b.WriteByte(')')
		return
	case "mcont", "sset", "sbuf":
		b.WriteString(v.Op)
		return
	case "list", "lany", "lupd":
		b.WriteString("list")
		return
	case "tuple", "struct", "array":
		b.WriteString(v.Op + st.e.tkey(v.T) + "(")
		for _, a := range v.Args {
			s.shape(a, d+1, ghost)
			b.WriteByte(',')
		}
		b.WriteByte(')')
		return
	case "faddr", "eaddr":
		if !stable(v) {
			fmt.Fprintf(b, "%s%d%s(", v.Op, v.N, v.Aux)
			s.shape(v.Args[0], d+1, false)
			b.WriteByte(')')
			return
		}
	case "iterst":
		b.WriteString("it(")
		s.shape(v.Args[0], d+1, false)
		b.WriteByte(')')
		return
	}
	if v.Op == "const" && (ghost || !isInt(v.T) && !isFloat(v.T)) {
		fmt.Fprintf(b, "=%d", v.ID)
		return
	}
	if isInt(v.T) || isFloat(v.T) {
		b.WriteByte('#')
		return
	}
	if isBool(v.T) {
		fmt.Fprintf(b, "B%d", st.Decide(v))
		if stable(v) {
			fmt.Fprintf(b, "t%d", v.ID)
		}
		return
	}
	if isTail(v) {
		fmt.Fprintf(b, "s(")
		s.shape(v.Args[0], d+1, false)
		b.WriteByte(')')
		return
	}
	if stable(v) && v.Op != "nil" && v.Op != "iface" && v.T != nil && isSliceT(v.T) {
		fmt.Fprintf(b, "s(t%d)", v.ID)
		return
	}
	if stable(v) && v.Op != "nil" && v.Op != "iface" {
		fmt.Fprintf(b, "t%d", v.ID)
		return
	}
	if v.Op == "iface" {
		fmt.Fprintf(b, "I%s(", st.e.tkey(v.Args[0].T))
		if d < 4 {
			s.shape(v.Args[0], d+1, ghost)
		}
		b.WriteByte(')')
		return
	}
	if v.Op == "nil" || v.T != nil && (nilable(v.T) || IsIface(v.T)) {
		switch st.IsNil(v) {
		case 1:
			b.WriteString("nil")
		case 0:
			b.WriteString("nn")
			if IsIface(v.T) {
				if k := st.KindOf(v); k.Pos != nil {
					b.WriteString(st.e.tkey(k.Pos))
				}
			}
		default:
			b.WriteString("?")
		}
		return
	}
	b.WriteString(".")
}

func (st *State) shapeKey() string {
	s := &shaper{st: st, objs: map[int64]int{}}
	s.b.WriteString(st.framesKey())
	st.roots(func(w string, v *V) *V {
		s.b.WriteString(w)
		s.shape(v, 0, strings.HasPrefix(w, "g:"))
		s.b.WriteByte(' ')
		return v
	})
	var facts []string
	for k, v := range st.kinds {
		if stable(k) {
			facts = append(facts, fmt.Sprintf("k%d:%s", k.ID, st.e.kindKey(v)))
		}
	}
	for k, v := range st.bools {
		if stable(k) {
			facts = append(facts, fmt.Sprintf("b%d:%v", k.ID, v))
		}
	}
	for k, v := range st.rel {
		if stable(k[0]) && stable(k[1]) && !(isInt(k[0].T) || isInt(k[1].T)) {
			facts = append(facts, fmt.Sprintf("r%d,%d:%d", k[0].ID, k[1].ID, v))
		}
	}
	sort.Strings(facts)
	s.b.WriteString(strings.Join(facts, " "))
	return s.b.String()
}

// --- generalisation ---------------------------------------------------------------------------

type headEntry struct {
	st    *State
	canon string
	joins int
}

// rangesOverUnknown: the state is at the head of a loop over a map whose
// entries are not all known.
func (st *State) rangesOverUnknown() bool {
	f := st.Top()
	for _, i := range f.block.Instrs {
		n, ok := i.(*ssa.Next)
		if !ok || n.IsString {
			continue
		}
		it := f.regs[n.Iter]
		if it == nil || st.heap[it.N] == nil {
			continue
		}
		src := st.heap[it.N].Args[0]
		if src.Op != "fmap" {
			return true
		}
		for _, c := range src.Args[0].Args {
			if c.Op != "ent" {
				return true
			}
		}
	}
	return false
}

func (x *Exec) merge(st *State, head bool) []*State {
	x.Joins++
	if x.Mon.AtMerge != nil {
		x.Mon.AtMerge(x, st)
	}
	if head {
		st.concretize()
	}
	st.prune()
	if head && x.Unroll > 0 && !st.rangesOverUnknown() {
		if x.unrolled == nil {
			x.unrolled = map[string]int{}
		}
		k := st.shapeKey()
		x.unrolled[k]++
		head = x.unrolled[k] > x.Unroll
	}
	if !head {
		k := st.Canon()
		if x.seen[k] {
			return nil
		}
		x.seen[k] = true
		x.States++
		return one(st)
	}
	sk := st.shapeKey()
	h := x.heads[sk]
	if h == nil {
		x.heads[sk] = &headEntry{st: st.Clone(), canon: st.Canon()}
		x.States++
		return one(st)
	}
	c := st.Canon()
	if c == h.canon {
		return nil
	}
	if x.seen["h"+c] {
		return nil // already covered by this entry
	}
	g := x.lgg(h.st, st, h.joins >= 3)
	g.prune()
	gc := g.Canon()
	x.seen["h"+c] = true
	if gc == h.canon {
		return nil
	}
	if x.Debug {
		fmt.Println("  GENERALISED", st.CurFn().Name(), h.joins, x.loc(st.Top().at()))
		if x.DebugJoin {
			fmt.Printf("HEAD\n%sIN\n%sOUT\n%s", h.st.Dump(), st.Dump(), g.Dump())
		}
	}
	h.st = g.Clone()
	h.canon = gc
	h.joins++
	if h.joins > 40 {
		x.Bounded = "no fixpoint at " + x.loc(st.Top().at())
		return nil
	}
	x.States++
	g.trace = st.trace
	return one(g)
}

func (f *Frame) at() ssa.Instruction {
	if f.fn == nil {
		return f.nat.At
	}
	if f.idx < len(f.block.Instrs) {
		return f.block.Instrs[f.idx]
	}
	return f.block.Instrs[len(f.block.Instrs)-1]
}

type pair struct{ a, b *V }
type ipair struct {
	a, b *V
	d    int64
}
type irep struct {
	s      *V
	oa, ob int64
}

type gen struct {
	e      *Eng
	a, b   *State
	c      *State
	memo   map[pair]*V
	order  []pair
	ints   map[ipair]irep
	objs   map[[2]int64]int64
	todo   [][3]int64
	frozen bool // no new symbols
	fail   bool
}

func (x *Exec) lgg(a, b *State, widen bool) *State {
	e := x.E
	c := b.Clone()
	c.heap = map[int64]*V{}
	c.kinds = map[*V]Kind{}
	c.bools = map[*V]bool{}
	c.rel = map[[2]*V]uint8{}
	c.dbm = map[[2]*V]int64{}
	g := &gen{e: e, a: a, b: b, c: c, memo: map[pair]*V{}, ints: map[ipair]irep{}, objs: map[[2]int64]int64{}}
	var ra, rb []*V
	a.roots(func(_ string, v *V) *V { ra = append(ra, v); return v })
	b.roots(func(_ string, v *V) *V { rb = append(rb, v); return v })
	if len(ra) != len(rb) {
		panic("lgg: different roots")
	}
	// integers first, so that lists can be expressed over the loop counters
	var pre func(p, q *V, d int)
	pre = func(p, q *V, d int) {
		if d > 12 {
			return
		}
		if isInt(p.T) && isInt(q.T) {
			g.join(p, q)
			return
		}
		if p.Op == "iterst" && q.Op == "iterst" {
			g.join(p.Args[1], q.Args[1])
			return
		}
		switch p.Op {
		case "ptr", "iter":
			if q.Op == p.Op && a.heap[p.N] != nil && b.heap[q.N] != nil {
				pre(a.heap[p.N], b.heap[q.N], d+1)
			}
		case "struct", "tuple", "closure":
			if q.Op == p.Op && len(p.Args) == len(q.Args) {
				for i := range p.Args {
					pre(p.Args[i], q.Args[i], d+1)
				}
			}
		}
	}
	for i := range ra {
		pre(ra[i], rb[i], 0)
	}
	i := 0
	c.roots(func(_ string, _ *V) *V {
		r := g.join(ra[i], rb[i])
		i++
		return r
	})
	// over keys that only one side has
	for k, v := range a.over {
		if _, ok := b.over[k]; !ok {
			c.over[k] = g.join(v, (&State{e: e, heap: b.heap}).Load2(k))
		}
	}
	for len(g.todo) > 0 {
		t := g.todo[0]
		g.todo = g.todo[1:]
		c.heap[t[2]] = g.join(a.heap[t[0]], b.heap[t[1]])
	}
	g.facts(widen)
	return c
}

// Load2 is the unmodified content behind an overridden address.
func (st *State) Load2(p *V) *V {
	st.over = map[*V]*V{}
	if _, ok := p.T.Underlying().(*types.Map); ok {
		return st.MapContent(p)
	}
	if _, ok := p.T.Underlying().(*types.Pointer); !ok {
		return st.e.Fresh(p.T, "over")
	}
	return st.Load(p)
}

func (g *gen) obj(a, b int64) int64 {
	k := [2]int64{a, b}
	if n, ok := g.objs[k]; ok {
		return n
	}
	if g.frozen {
		g.fail = true
		return 0
	}
	n := g.e.NewObj()
	g.objs[k] = n
	g.todo = append(g.todo, [3]int64{a, b, n})
	return n
}

func (g *gen) join(a, b *V) *V {
	if a == nil || b == nil {
		panic("lgg of nothing")
	}
	p := pair{a, b}
	if r, ok := g.memo[p]; ok {
		return r
	}
	r := g.join1(a, b)
	if r == nil {
		g.fail = true
		return a
	}
	if g.fail {
		return r
	}
	g.memo[p] = r
	g.order = append(g.order, p)
	return r
}

func (g *gen) joinInt(a, b *V) *V {
	e := g.e
	ab, ao := e.SplitInt(a)
	bb, bo := e.SplitInt(b)
	if ab == bb && ao == bo {
		return a
	}
	if ab != nil && bb != nil && ab.Op == bb.Op && ab.Op != "sym" && len(ab.Args) == len(bb.Args) && ab != bb && ao == bo && !(ab.Op == "len" && (isListy(ab.Args[0]) || isListy(bb.Args[0]))) {
		if r := g.structural(ab, bb); r != nil {
			return e.Lin(r, ao, a.T)
		}
	}
	k := ipair{ab, bb, bo - ao}
	if r, ok := g.ints[k]; ok {
		return e.Lin(r.s, ao-r.oa, a.T)
	}
	if g.frozen {
		return nil
	}
	s := e.Fresh(a.T, "n")
	g.ints[k] = irep{s, ao, bo}
	return s
}

func (g *gen) structural(a, b *V) *V {
	if a.Op != b.Op || len(a.Args) != len(b.Args) || len(a.Args) == 0 || a.Aux != b.Aux || a.N != b.N || a.Fn != b.Fn || a.C != nil || b.C != nil {
		return nil
	}
	if g.e.tkey(a.T) != g.e.tkey(b.T) {
		return nil
	}
	args := make([]*V, len(a.Args))
	for i := range args {
		if (a.Args[i].T == nil) != (b.Args[i].T == nil) {
			return nil
		}
		if a.Args[i].T == nil && a.Args[i].Op != b.Args[i].Op {
			return nil
		}
		r := g.join(a.Args[i], b.Args[i])
		if r == nil || g.fail {
			return nil
		}
		args[i] = r
	}
	return g.e.rebuild(a, args)
}

func (g *gen) join1(a, b *V) *V {
	e := g.e
	switch a.Op {
	case "ptr", "map", "slref", "iter":
		if b.Op == a.Op {
			n := g.obj(a.N, b.N)
			if g.fail {
				return nil
			}
			return e.intern(V{Op: a.Op, T: a.T, N: n})
		}
	}
	if a == b && (!a.flex || !hasObj(a)) {
		return a
	}
	if a.T != nil && b.T != nil && isInt(a.T) && isInt(b.T) {
		return g.joinInt(a, b)
	}
	if a.T != nil && b.T != nil && isSliceT(a.T) && (isTail(a) || isTail(b)) {
		if r := g.joinTail(a, b); r != nil {
			return r
		}
	}
	if isListy(a) && isListy(b) && a.T != nil && isSliceT(a.T) && (a.Op != "lany" || b.Op != "lany") {
		return g.joinList(a, b)
	}
	if a.Op == b.Op && (a.Op == "mcont" || a.Op == "sset") {
		return g.joinMap(a, b)
	}
	if a.Op == "lany" && b.Op == "lany" {
		return e.Mk("lany", a.T, "", g.join(a.Args[0], b.Args[0]), g.join(a.Args[1], b.Args[1]))
	}
	if a.T == nil || b.T == nil {
		if r := g.structural(a, b); r != nil {
			return r
		}
		if g.frozen {
			return nil
		}
		return e.Fresh(a.T, "any")
	}
	if r := g.structural(a, b); r != nil {
		return r
	}
	if g.frozen {
		return nil
	}
	t := a.T
	if e.tkey(a.T) != e.tkey(b.T) {
		switch {
		case a.Op == "iface" || a.Op == "nil":
			t = b.T
		case b.Op == "iface" || b.Op == "nil":
			t = a.T
		default:
			t = e.tany
		}
	}
	return e.Fresh(t, "j")
}

// joinTail: s and s[1:] are both s[n:].
func (g *gen) joinTail(a, b *V) *V {
	e := g.e
	parts := func(v *V) (base, lo, hi *V) {
		if isTail(v) {
			return v.Args[0], v.Args[1], v.Args[2]
		}
		return v, e.Int(0), e.Len(v)
	}
	ab, al, ah := parts(a)
	bb, bl, bh := parts(b)
	if ab != bb || ab.flex {
		return nil
	}
	lo, hi := g.join(al, bl), g.join(ah, bh)
	if g.fail {
		return nil
	}
	return e.Mk("subsl", a.T, "", ab, lo, hi)
}

func hasObj(v *V) bool {
	if !v.flex {
		return false
	}
	switch v.Op {
	case "ptr", "map", "slref", "iter":
		return true
	}
	for _, a := range v.Args {
		if hasObj(a) {
			return true
		}
	}
	return false
}

func isListy(v *V) bool {
	switch v.Op {
	case "list", "lany", "lupd":
		return true
	case "nil":
		return v.T != nil && isSliceT(v.T)
	}
	return false
}

// counters returns the loop counters (A-value k, B-value k+1), with the symbol.
func (g *gen) counters() []irepPair {
	var r []irepPair
	for k, v := range g.ints {
		if k.a == k.b && k.d == 1 || k.a == nil && k.b == nil && k.d == 1 {
			r = append(r, irepPair{g.e.Lin(k.a, v.oa, g.e.tint), g.e.Lin(k.b, v.ob, g.e.tint), v.s})
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].s.ID < r[j].s.ID })
	return r
}

type irepPair struct{ a, b, s *V }

// idxTemplate replaces index i by the bound variable in element positions.
func (g *gen) idxTemplate(t, i *V, lv int64) *V {
	e := g.e
	ib, io := e.SplitInt(i)
	return e.rewrite(t, func(v *V) *V {
		switch v.Op {
		case "elem", "mkey", "mval", "cbarg":
			kb, ko := e.SplitInt(v.Args[1])
			if kb == ib {
				base := g.idxTemplate(v.Args[0], i, lv)
				if v.Op == "elem" {
					return e.Elem(base, e.Lin(e.BVar(lv), ko-io, e.tint), v.T)
				}
				return e.Mk(v.Op, v.T, v.Aux, base, e.Lin(e.BVar(lv), ko-io, e.tint))
			}
		}
		return nil
	}, map[*V]*V{})
}

// itemOf gives the template item of a one-element segment.
func itemOf(s *V) *V {
	switch s.Op {
	case "one":
		return s.Args[0]
	case "ent", "del":
		return s
	}
	return nil
}

// oneIndex finds the only element index occurring in an item.
func (e *Eng) oneIndex(it *V) *V {
	var idx *V
	ok := true
	Walk(it, map[*V]bool{}, func(v *V) {
		switch v.Op {
		case "elem", "mkey", "mval", "cbarg":
			i := v.Args[1]
			if i.bv {
				return
			}
			if idx == nil {
				idx = i
			} else if idx != i {
				ok = false
			}
		}
	})
	if !ok {
		return nil
	}
	return idx
}

// compress writes single items of a source as comprehensions of length one.
func (g *gen) compress(segs []*V) []*V {
	e := g.e
	var out []*V
	for _, s := range segs {
		if it := itemOf(s); it != nil {
			if i := e.oneIndex(it); i != nil {
				lv := Level(it)
				tm := g.idxTemplate(it, i, lv)
				if Contains(tm, e.BVar(lv)) && !tm.flex {
					b, o := e.SplitInt(i)
					s = e.Comp(i, e.Lin(b, o+1, i.T), tm, lv)
				}
			}
		}
		out = append(out, s)
	}
	return e.normSegs(out)
}

// alignSegs joins two segment lists; nil when it cannot.
func (g *gen) alignSegs(as, bs []*V) []*V {
	if r := g.alignSegs1(as, bs); r != nil {
		return r
	}
	if g.fail {
		return nil
	}
	ca, cb := g.compress(as), g.compress(bs)
	if len(ca) == len(cb) || len(ca) == len(cb)+1 {
		return g.alignSegs1(ca, cb)
	}
	return nil
}

func (e *Eng) hasComp(segs []*V) bool {
	for _, s := range segs {
		if s.Op == "comp" {
			return true
		}
	}
	return false
}

func (g *gen) alignSegs1(as, bs []*V) []*V {
	e := g.e
	var out []*V
	i := 0
	if d := len(bs) - len(as); d != 0 && d != 1 && d != -1 {
		return nil
	}
	for k := 0; k < len(as) && k < len(bs); k++ {
		if as[k].Op != bs[k].Op || as[k].Op == "comp" && as[k] != bs[k] && (as[k].N != bs[k].N || as[k].Args[2] != bs[k].Args[2]) {
			return nil
		}
	}
	for i < len(as) && i < len(bs) {
		p, q := as[i], bs[i]
		if p == q && !p.flex {
			out = append(out, p)
			i++
			continue
		}
		if p.Op != q.Op {
			return nil
		}
		switch p.Op {
		case "one":
			out = append(out, e.One(g.join(p.Args[0], q.Args[0])))
		case "ent", "del", "base", "spread", "all":
			args := make([]*V, len(p.Args))
			for k := range args {
				args[k] = g.join(p.Args[k], q.Args[k])
			}
			out = append(out, e.Mk(p.Op, nil, "", args...))
		case "comp":
			lo, hi := g.join(p.Args[0], q.Args[0]), g.join(p.Args[1], q.Args[1])
			if p.Args[2] != q.Args[2] || p.N != q.N {
				return nil
			}
			out = append(out, e.compAll(e.Comp(lo, hi, p.Args[2], p.N)))
		default:
			return nil
		}
		if g.fail {
			return nil
		}
		i++
	}
	if len(as) == len(bs) {
		return out
	}
	// one side may have an empty comprehension where the other has some elements
	if len(as) == len(bs)+1 {
		if p := as[i]; p.Op == "comp" && !p.Args[0].flex && !g.e.hasComp(bs) {
			hi := g.join(p.Args[1], p.Args[0])
			if g.fail {
				return nil
			}
			return append(out, e.compAll(e.Comp(p.Args[0], hi, p.Args[2], p.N)))
		}
		return nil
	}
	if q := bs[i]; q.Op == "comp" && !q.Args[0].flex && !g.e.hasComp(as) {
		hi := g.join(q.Args[0], q.Args[1])
		if g.fail {
			return nil
		}
		return append(out, e.compAll(e.Comp(q.Args[0], hi, q.Args[2], q.N)))
	}
	if len(bs) > len(as) && len(bs) == len(as)+1 {
		it := itemOf(bs[i])
		if it == nil {
			return nil
		}
		comps := 0
		for _, s := range as {
			if s.Op == "comp" {
				comps++
			}
		}
		if comps > 1 && it == bs[i].Args[0] {
			return nil // alternating templates: no finite list of segments describes them
		}
		it = g.b.Freeze(it)
		lv := Level(it)
		for _, c := range g.counters() {
			tm := g.idxTemplate(it, c.a, lv)
			if Contains(tm, e.BVar(lv)) && !tm.flex {
				return append(out, e.Comp(c.a, c.s, tm, lv))
			}
		}
		// a value that does not depend on the counter
		if !it.flex && !it.idx {
			for _, c := range g.counters() {
				return append(out, e.Comp(c.a, c.s, it, lv))
			}
		}
	}
	return nil
}

func (g *gen) joinList(a, b *V) *V {
	e := g.e
	if g.frozen {
		return nil
	}
	var sa, sb []*V
	okA, okB := a.Op == "list" || a.Op == "nil", b.Op == "list" || b.Op == "nil"
	if okA && okB {
		if a.Op == "list" {
			sa = a.Args
		}
		if b.Op == "list" {
			sb = b.Args
		}
		// a nil list and a non-empty one share the representation of the empty list
		if r := g.alignSegs(sa, sb); r != nil || len(sa) == 0 && len(sb) == 0 {
			return e.List(a.T, r...)
		}
	}
	la, lb := lenOfList(e, a), lenOfList(e, b)
	n := g.join(la, lb)
	et := a.T.Underlying().(*types.Slice).Elem()
	items := append(g.items(g.a, a), g.items(g.b, b)...)
	var el *V
	if len(items) > 0 {
		el = g.summary(items, 0)
	} else {
		el = e.Fresh(et, "item")
	}
	return e.Mk("lany", a.T, "", n, el)
}

func lenOfList(e *Eng, v *V) *V {
	for v.Op == "lupd" {
		v = v.Args[0]
	}
	return e.Len(v)
}

type kitem struct {
	st *State
	v  *V
}

func (g *gen) items(st *State, l *V) []kitem {
	var r []kitem
	switch l.Op {
	case "list":
		for _, s := range l.Args {
			switch s.Op {
			case "one":
				r = append(r, kitem{st, s.Args[0]})
			case "comp":
				r = append(r, kitem{st, s.Args[2]})
			case "all":
				if isListy(s.Args[0]) {
					r = append(r, g.items(st, s.Args[0])...)
					continue
				}
				fallthrough
			default:
				r = append(r, kitem{st, g.e.Fresh(l.T.Underlying().(*types.Slice).Elem(), "item")})
			}
		}
	case "lany":
		r = append(r, kitem{st, l.Args[1]})
	case "lupd":
		r = g.items(st, l.Args[0])
		r = append(r, kitem{st, l.Args[2]})
	}
	return r
}

// summary is an element that stands for each of the items.
func (g *gen) summary(items []kitem, d int) *V {
	e := g.e
	f := items[0].v
	same, strct := !f.flex && !f.bv && !f.idx, f.Op == "struct"
	for _, it := range items[1:] {
		if it.v != f {
			same = false
		}
		if it.v.Op != "struct" || len(it.v.Args) != len(f.Args) || e.tkey(it.v.T) != e.tkey(f.T) {
			strct = false
		}
	}
	if same {
		return f
	}
	if strct && d < 3 {
		args := make([]*V, len(f.Args))
		for k := range args {
			var sub []kitem
			for _, it := range items {
				sub = append(sub, kitem{it.st, it.v.Args[k]})
			}
			args[k] = g.summary(sub, d+1)
		}
		return e.Mk("struct", f.T, f.Aux, args...)
	}
	t := f.T
	for _, it := range items[1:] {
		if it.v.Op != "nil" && it.v.Op != "iface" {
			t = it.v.T
		}
	}
	el := e.Fresh(t, "item")
	if el.T != nil && (IsIface(el.T) || nilable(el.T)) {
		k := items[0].st.KindOf(f)
		for _, it := range items[1:] {
			k = e.joinKind(k, it.st.KindOf(it.v))
		}
		if k != (Kind{}) && !k.Nil {
			g.c.kinds[el] = k
		}
	}
	return el
}

func (g *gen) joinMap(a, b *V) *V {
	e := g.e
	if g.frozen {
		return nil
	}
	if r := g.alignSegs(a.Args, b.Args); r != nil || len(a.Args) == 0 && len(b.Args) == 0 {
		return e.Mk(a.Op, a.T, "", e.normSegs(r)...)
	}
	if a.Op == "sset" {
		return e.Mk("sset", a.T, "", e.Mk("base", nil, "", e.Fresh(a.T, "anyset")))
	}
	return e.Mk("mcont", nil, "", e.Mk("base", nil, "", e.Fresh(types.NewMap(types.Typ[types.String], e.tany), "anymap")))
}

func (e *Eng) joinKind(a, b Kind) Kind {
	if a.Nil && b.Nil {
		return a
	}
	if a.Pos != nil && b.Pos != nil && types.Identical(a.Pos, b.Pos) {
		return a
	}
	var r Kind
	// what each side excludes
	ex := func(k Kind, key string) bool {
		switch {
		case k.Nil:
			return key != "nil"
		case k.Pos != nil:
			return key == "nil" || key != e.tkey(k.Pos)
		}
		return has(k.Neg, key)
	}
	cand := map[string]bool{"nil": true}
	for _, k := range []Kind{a, b} {
		if k.Neg != "" {
			for _, n := range strings.Split(k.Neg, ";") {
				cand[n] = true
			}
		}
	}
	for n := range cand {
		if ex(a, n) && ex(b, n) {
			r.Neg = add(r.Neg, n)
		}
	}
	r.ImplPos = inter(a.ImplPos, b.ImplPos)
	r.ImplNeg = inter(a.ImplNeg, b.ImplNeg)
	for _, it := range e.ifaces(a.ImplPos) {
		if b.Pos != nil && e.implements(b.Pos, it) {
			r.ImplPos = add(r.ImplPos, e.tkey(it))
		}
	}
	for _, it := range e.ifaces(b.ImplPos) {
		if a.Pos != nil && e.implements(a.Pos, it) {
			r.ImplPos = add(r.ImplPos, e.tkey(it))
		}
	}
	return r
}

// tryJoin looks an existing correspondence up without creating symbols.
func (g *gen) tryJoin(a, b *V) *V {
	g.frozen, g.fail = true, false
	n := len(g.order)
	r := g.join(a, b)
	ok := !g.fail && r != nil
	g.frozen, g.fail = false, false
	for _, p := range g.order[n:] {
		if !ok {
			delete(g.memo, p)
		}
	}
	if !ok {
		g.order = g.order[:n]
		return nil
	}
	return r
}

func (g *gen) facts(widen bool) {
	e, a, b, c := g.e, g.a, g.b, g.c
	g.fail = false
	pairs := append([]pair(nil), g.order...)
	kind := func(p pair, r *V) {
		if p.a.T == nil || !(IsIface(p.a.T) || p.a.Op == "nil" || p.a.Op == "iface") || r.Op == "iface" || r.Op == "nil" {
			return
		}
		k := e.joinKind(a.KindOf(p.a), b.KindOf(p.b))
		if k == (Kind{}) {
			return
		}
		if base := c.KindOf(r); base == k {
			return
		}
		c.kinds[r] = c.closeKind(r, k)
	}
	var bases []pair
	baseSeen := map[pair]bool{}
	addBase := func(x, y *V) {
		xb, _ := e.SplitInt(x)
		yb, _ := e.SplitInt(y)
		if xb == nil && yb == nil && x == y {
			return
		}
		p := pair{x, y}
		if !baseSeen[p] {
			baseSeen[p] = true
			bases = append(bases, p)
		}
	}
	for _, p := range pairs {
		r := g.memo[p]
		kind(p, r)
		if p.a.T != nil && isBool(p.a.T) && r.Op != "const" {
			if d := a.Decide(p.a); d >= 0 && d == b.Decide(p.b) {
				c.bools[r] = d == 1
			}
		}
		if p.a.T != nil && nilable(p.a.T) && !IsIface(p.a.T) && p.b.T != nil && nilable(p.b.T) && r.Op != "nil" {
			if n := a.IsNil(p.a); n >= 0 && n == b.IsNil(p.b) && c.IsNil(r) < 0 {
				c.bools[e.IsNilV(r)] = n == 1
			}
		}
		if p.a.T != nil && isInt(p.a.T) && isInt(p.b.T) {
			addBase(p.a, p.b)
		}
	}
	// facts about other terms
	for k, v := range a.kinds {
		if w, ok := b.kinds[k]; ok {
			if r := g.tryJoin(k, k); r == k {
				if _, have := c.kinds[k]; !have {
					if j := e.joinKind(v, w); j != (Kind{}) {
						c.kinds[k] = j
					}
				}
			}
		}
		for k2, w := range b.kinds {
			if k2 != k && k2.Op == k.Op {
				if r := g.tryJoin(k, k2); r != nil {
					if _, have := c.kinds[r]; !have {
						if j := e.joinKind(v, w); j != (Kind{}) {
							c.kinds[r] = j
						}
					}
				}
			}
		}
	}
	for k, v := range a.bools {
		if d := b.Decide(k); d >= 0 && (d == 1) == v {
			if r := g.tryJoin(k, k); r == k {
				c.bools[k] = v
			}
		}
		for k2, w := range b.bools {
			if k2 != k && v == w && k2.Op == k.Op {
				if r := g.tryJoin(k, k2); r != nil && r.Op != "const" {
					c.bools[r] = v
				}
			}
		}
	}
	for k, v := range a.rel {
		if r0, r1 := g.tryJoin(k[0], k[0]), g.tryJoin(k[1], k[1]); r0 == k[0] && r1 == k[1] {
			if w := v | b.Rel(k[0], k[1]); w != LT|EQ|GT|UN {
				c.rel[k] = w
			}
		}
		for k2, w := range b.rel {
			if k2 == k {
				continue
			}
			for s := 0; s < 2; s++ {
				q := k2
				m := w
				if s == 1 {
					q = [2]*V{k2[1], k2[0]}
					m = mirror(w)
				}
				r0, r1 := g.tryJoin(k[0], q[0]), g.tryJoin(k[1], q[1])
				if r0 != nil && r1 != nil && r0 != r1 {
					nk, sw := relKey(r0, r1)
					z := v | m
					if sw {
						z = mirror(z)
					}
					if _, have := c.rel[nk]; !have && z&(LT|EQ|GT) != LT|EQ|GT {
						c.rel[nk] = z
					}
				}
			}
		}
	}
	// integer bounds
	na, nb := map[*V]bool{}, map[*V]bool{}
	for k := range a.dbm {
		na[k[0]], na[k[1]] = true, true
	}
	for k := range b.dbm {
		nb[k[0]], nb[k[1]] = true, true
	}
	seen := c.reach()
	fixed := func(v *V) bool {
		ok := true
		Walk(v, map[*V]bool{}, func(w *V) {
			if w.flex && isAtom(w) && !seen[w] {
				ok = false
			}
		})
		return ok
	}
	for v := range na {
		if v == zeroBase {
			continue
		}
		if r := g.tryJoin(v, v); r == v && fixed(v) {
			addBase(v, v)
		}
		for w := range nb {
			if w != zeroBase && v != w && v.Op == w.Op {
				if r := g.tryJoin(v, w); r != nil && r.Op != "const" {
					addBase(v, w)
				}
			}
		}
	}
	for v := range nb {
		if v != zeroBase && !na[v] {
			if r := g.tryJoin(v, v); r == v {
				addBase(v, v)
			}
		}
	}
	sort.Slice(bases, func(i, j int) bool {
		if bases[i].a.ID != bases[j].a.ID {
			return bases[i].a.ID < bases[j].a.ID
		}
		return bases[i].b.ID < bases[j].b.ID
	})
	zero := pair{e.Int(0), e.Int(0)}
	all := append(bases, zero)
	res := func(p pair) *V {
		if p == zero {
			return e.Int(0)
		}
		if r, ok := g.memo[p]; ok {
			return r
		}
		return g.tryJoin(p.a, p.b)
	}
	for _, p := range all {
		rp := res(p)
		if rp == nil {
			continue
		}
		for _, q := range all {
			if p == q {
				continue
			}
			rq := res(q)
			if rq == nil || rp == rq {
				continue
			}
			ka, kb := a.bound(p.a, q.a), b.bound(p.b, q.b)
			if ka >= inf || kb >= inf {
				continue
			}
			k := ka
			if kb > ka {
				k = kb
				if widen { // to the next threshold
					switch {
					case kb <= -1:
						k = -1
					case kb <= 0:
						k = 0
					case kb <= 1:
						k = 1
					default:
						continue
					}
				}
			}
			c.addDiff(rp, rq, k)
		}
	}
	// drop bounds implied by the others, so that equal states look equal
	c.reduce()
}

// reduce keeps a canonical set of difference bounds: the closure over its
// nodes without the implicit ones.
func (st *State) reduce() {
	nodes := map[*V]bool{zeroBase: true}
	for k := range st.dbm {
		nodes[k[0]], nodes[k[1]] = true, true
	}
	full := map[[2]*V]int64{}
	for a := range nodes {
		for b := range nodes {
			if a != b {
				if d := st.dist(a, b); d < inf {
					full[[2]*V{a, b}] = d
				}
			}
		}
	}
	st.dbm = full
	st.distC = nil
}

// SameList decides whether two list terms certainly have the same items.
func (st *State) SameList(a, b *V) bool {
	g := &gen{e: st.e}
	x, y := st.dropEmpty(g.compress(st.spread(a))), st.dropEmpty(g.compress(st.spread(b)))
	if len(x) != len(y) {
		return false
	}
	for i := range x {
		p, q := x[i], y[i]
		if p == q {
			continue
		}
		if p.Op == "all" {
			p = st.allComp(p)
		}
		if q.Op == "all" {
			q = st.allComp(q)
		}
		if p == q {
			continue
		}
		if p.Op != "comp" || q.Op != "comp" || p.N != q.N || p.Args[2] != q.Args[2] || !st.eqInt(p.Args[0], q.Args[0]) || !st.eqInt(p.Args[1], q.Args[1]) {
			return false
		}
	}
	return true
}

// dropEmpty leaves out segments known to have no element.
func (st *State) dropEmpty(segs []*V) []*V {
	var r []*V
	for _, s := range segs {
		c := s
		if c.Op == "all" {
			c = st.allComp(c)
		}
		if c.Op == "comp" && st.bound(c.Args[1], c.Args[0]) <= 0 {
			continue
		}
		r = append(r, s)
	}
	return r
}

func (st *State) eqInt(a, b *V) bool {
	return a == b || st.bound(a, b) <= 0 && st.bound(b, a) <= 0
}

func (st *State) allComp(s *V) *V {
	e := st.e
	l := s.Args[0]
	if l.T == nil || !isSliceT(l.T) {
		return s
	}
	lv := Level(l)
	return e.intern(V{Op: "comp", Args: []*V{e.Int(0), e.Len(l), e.Elem(l, e.BVar(lv), l.T.Underlying().(*types.Slice).Elem())}, N: lv})
}

// spread gives the segments with whole lists written as comprehensions.
func (st *State) spread(l *V) []*V {
	var out []*V
	for _, s := range st.Segs(st.Freeze(l)) {
		out = append(out, s)
	}
	return out
}

// Dump renders the state for debugging.
func (st *State) Dump() string {
	var b strings.Builder
	for _, f := range st.frames {
		if f.fn != nil {
			fmt.Fprintf(&b, " frame %s.%d.%d\n", f.fn.Name(), f.block.Index, f.idx)
			for _, v := range st.e.liveOf(f.fn).at(f.block, f.idx) {
				if r, ok := f.regs[v]; ok {
					fmt.Fprintf(&b, "   %s = %s\n", v.Name(), r.Show())
				}
			}
		} else {
			fmt.Fprintf(&b, " native %s\n", f.nat.Name)
			for _, v := range f.nv {
				if v != nil {
					fmt.Fprintf(&b, "   %s\n", v.Show())
				}
			}
		}
	}
	for k, v := range st.heap {
		fmt.Fprintf(&b, "   heap %d = %s\n", k, v.Show())
	}
	for k, v := range st.over {
		fmt.Fprintf(&b, "   over %s = %s\n", k.Show(), v.Show())
	}
	for _, k := range sortedKeys(st.Ghost) {
		fmt.Fprintf(&b, "   ghost %s = %s\n", k, st.Ghost[k].Show())
	}
	for k, v := range st.kinds {
		fmt.Fprintf(&b, "   kind %s: %+v\n", k.Show(), v)
	}
	for k, v := range st.bools {
		fmt.Fprintf(&b, "   bool %s: %v\n", k.Show(), v)
	}
	for k, v := range st.rel {
		fmt.Fprintf(&b, "   rel %s %s: %v\n", k[0].Show(), k[1].Show(), v)
	}
	for k, v := range st.dbm {
		fmt.Fprintf(&b, "   %s - %s <= %d\n", k[0].Show(), k[1].Show(), v)
	}
	return b.String()
}

// Mentions: a value contains a term, also in the objects it refers to.
func (st *State) Mentions(v, what *V) bool {
	seen := map[*V]bool{}
	var walk func(v *V) bool
	walk = func(v *V) bool {
		if v == nil || seen[v] {
			return false
		}
		seen[v] = true
		if v == what {
			return true
		}
		switch v.Op {
		case "ptr", "map", "slref", "iter":
			if c, ok := st.heap[v.N]; ok && walk(c) {
				return true
			}
		}
		for _, a := range v.Args {
			if walk(a) {
				return true
			}
		}
		return false
	}
	return walk(v)
}

// Outline is the structure of a value and of the objects it refers to, in
// which some terms go by the given names and unknowns are all alike.
func (st *State) Outline(v *V, names map[*V]string) string {
	var b strings.Builder
	on := map[*V]bool{}
	var walk func(v *V)
	walk = func(v *V) {
		if v == nil {
			b.WriteString("-")
			return
		}
		if n, ok := names[v]; ok {
			b.WriteString(n)
			return
		}
		if on[v] {
			b.WriteString("^")
			return
		}
		on[v] = true
		defer delete(on, v)
		b.WriteString(v.Op + " " + v.Aux)
		if v.C != nil {
			b.WriteString(" " + v.C.ExactString())
		}
		if v.Fn != nil {
			b.WriteString(" " + v.Fn.String())
		}
		if v.T != nil && v.Op == "iface" {
			b.WriteString(" " + v.T.String())
		}
		b.WriteString("(")
		switch v.Op {
		case "ptr", "map", "slref", "iter":
			if c, ok := st.heap[v.N]; ok {
				walk(c)
			}
		}
		for _, a := range v.Args {
			walk(a)
			b.WriteString(",")
		}
		b.WriteString(")")
	}
	walk(v)
	return b.String()
}

package checks

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/ai"
)

func init() { register("A04", a04) }

// A04: builder and evaluator of each arithmetic rule are followed over every
// kind of operand; the result is compared with the operation the text names,
// folded from the left.

func a04(c *Ctx) {
	c.Rule("builder and evaluator of the arithmetic operators are followed for every written form of up to three operands and every combination of operand kinds; the result is compared with the operations the text names, in the written order")
	c.Assumption("time zone transitions: arithmetic on civil dates and times is compared on their year, month, day, hour, minute, second and nanosecond parts")
	if c.arithKinds() == nil {
		return
	}
	few := func(max int) func(t *ai.Tree) bool {
		return func(t *ai.Tree) bool {
			n := len(operands(t))
			return n <= max && (n <= 2 || !t.Has("SP"))
		}
	}
	c.shapes("oC_UnaryAddOrSubtractExpression", 3, few(1), c.arithShape)
	c.shapes("oC_PowerOfExpression", 3, few(4), c.arithShape)
	c.shapes("oC_MultiplyDivideModuloExpression", 2, few(3), c.arithShape)
	c.shapes("oC_AddOrSubtractExpression", 2, few(3), c.arithShape)
}

var arithOrder = []string{"int", "float", "string", "Duration", "Date", "LocalTime", "LocalDateTime", "list"}

func (c *Ctx) arithKinds() map[string]types.Type {
	m := c.kindTypes()
	for _, n := range []string{"Duration", "Date", "LocalTime", "LocalDateTime"} {
		t := c.Type(n)
		if t == nil {
			return nil
		}
		m[n] = t
	}
	return m
}

func (c *Ctx) arithShape(t *ai.Tree) {
	e := c.E
	ls := operands(t)
	what := strings.TrimPrefix(t.Rule, "oC_") + " " + t.String()
	c.Obl("text", what)
	kinds := c.arithKinds()
	max := 3
	if len(ls) > 2 {
		max = 1
	}
	mon := &ai.Monitor{}
	mon.OnEvent = func(x *ai.Exec, st *ai.State, ev *ai.Event) []*ai.State {
		if ev.Kind != "eval" && ev.Kind != "evalerr" {
			return nil
		}
		i := indexOf(ls, c.leafOf(ev.Recv))
		if i < 0 {
			return nil
		}
		if ev.Kind == "evalerr" {
			st.SetGS(leafKey(i), "failed")
			return nil
		}
		g := e.Get(st, ev.Res[0])
		st.Ghost[valKey(i)] = g
		var out []*ai.State
		for _, k := range c.byKind(st, g, kinds, arithOrder...) {
			k.st.SetGS("kind"+valKey(i), k.k)
			if k.k == "list" {
				for n, l := range c.boundLists(k.st, g, c.valueList(), max) {
					l.SetGS("len"+valKey(i), fmt.Sprint(n))
					out = append(out, l)
				}
				continue
			}
			out = append(out, k.st)
		}
		return out
	}
	mon.OnPanic = func(x *ai.Exec, st *ai.State, w string, at ssa.Instruction) {
		x.Report(st, "text", at, "%s panics: %s", what, w)
	}
	c.runShape(t, mon, nil, true, func(r *shapeRun, st *ai.State, built *ai.V, res []*ai.V) {
		for i := range ls {
			if st.GS(leafKey(i)) == "failed" {
				c.specMatch(r, specOut{st: st, err: true, why: "an operand fails"}, res)
				return
			}
		}
		arg := func(i int) *ai.V {
			if v := st.Ghost[valKey(i)]; v != nil {
				return v
			}
			return e.Sym(fmt.Sprintf("unevaluated%d", i), types.NewInterfaceType(nil, nil))
		}
		if t.Rule == "oC_UnaryAddOrSubtractExpression" {
			neg, signs := false, 0
			for _, k := range t.Kids {
				if k.Is("'-'") {
					neg = !neg
				}
				if k.Is("'-'") || k.Is("'+'") {
					signs++
				}
			}
			for _, k := range c.byKind(st, arg(0), kinds, arithOrder...) {
				o := specOut{st: k.st, v: arg(0), why: "the operand is " + k.k}
				number := k.k == "null" || k.k == "int" || k.k == "float"
				switch {
				case !neg:
					o.orErr = signs > 0 && !number
				case k.k == "null":
					o.v = c.null()
				case number:
					o.v = e.Box(e.Neg(k.p))
				default:
					o.err = true
				}
				c.specMatch(r, o, res)
			}
			return
		}
		cur := []specOut{{st: st, v: arg(0), why: "the only operand"}}
		op, n := "", 0
		for _, k := range t.Kids {
			switch {
			case k.Rule == "" || k.Is("SP"):
				for _, o := range []string{"+", "-", "*", "/", "%", "^"} {
					if k.Is("'" + o + "'") {
						op = o
					}
				}
				continue
			case n == 0:
				n++
				continue
			}
			var next []specOut
			for _, o := range cur {
				if o.err || o.any {
					next = append(next, o)
					continue
				}
				next = append(next, c.arithStep(o, op, arg(n), kinds)...)
			}
			cur = next
			n++
		}
		for _, o := range cur {
			c.specMatch(r, o, res)
		}
	})
}

// arithStep: one operation on what is computed so far.
func (c *Ctx) arithStep(in specOut, op string, b *ai.V, kinds map[string]types.Type) []specOut {
	e := c.E
	null := c.null()
	supported := map[string]bool{"int": true, "float": true}
	switch op {
	case "*", "/", "%":
		supported["Duration"] = true
	case "+", "-":
		for _, k := range arithOrder {
			supported[k] = true
		}
	}
	var out []specOut
	for _, l := range c.byKind(in.st, in.v, kinds, arithOrder...) {
		for _, r := range c.byKind(l.st, b, kinds, arithOrder...) {
			o := specOut{st: r.st, orErr: in.orErr, why: fmt.Sprintf("the operands of %s are %s and %s", op, l.k, r.k)}
			if l.k == "null" || r.k == "null" {
				o.v = null
				if l.k != "null" && !supported[l.k] || r.k != "null" && !supported[r.k] {
					o.orErr = true
				}
				out = append(out, o)
				continue
			}
			v, zero := c.arithOp(r.st, op, l, r)
			if v == nil {
				o.err = true
				out = append(out, o)
				continue
			}
			if zero != nil {
				t, f := split(r.st, zero)
				if t != nil {
					out = append(out, specOut{st: t, err: true, why: o.why + ", and the divisor is zero"})
				}
				if f == nil {
					continue
				}
				o.st = f
			}
			o.v = e.Box(v)
			out = append(out, o)
		}
	}
	return out
}

// arithOp is the term of an operation, nil if there is none for the kinds;
// zero is the condition under which it divides by zero.
func (c *Ctx) arithOp(st *ai.State, op string, l, r kindCase) (v, zero *ai.V) {
	e := c.E
	f64, in := types.Typ[types.Float64], types.Typ[types.Int]
	tok := map[string]token.Token{"+": token.ADD, "-": token.SUB, "*": token.MUL, "/": token.QUO, "%": token.REM}[op]
	number := func(k string) bool { return k == "int" || k == "float" }
	isZero := func(v *ai.V) *ai.V { return e.Cmp(v, e.Zero(v.T), ai.EQ) }
	sub := op == "-"
	switch {
	case op == "^":
		if number(l.k) && number(r.k) {
			return e.Mk("call", f64, "math.Pow", e.Conv(l.p, f64), e.Conv(r.p, f64)), nil
		}
		return nil, nil
	case number(l.k) && number(r.k):
		if op == "/" || op == "%" {
			zero = isZero(r.p)
		}
		if l.k == "int" && r.k == "int" {
			return e.Arith(tok, l.p, r.p, in), zero
		}
		a, b := e.Conv(l.p, f64), e.Conv(r.p, f64)
		if op == "%" {
			return e.Mk("call", f64, "math.Mod", a, b), zero
		}
		return e.Arith(tok, a, b, f64), zero
	case op == "*" && number(l.k) && r.k == "Duration":
		return c.arithOp(st, op, r, l)
	case (op == "*" || op == "/") && l.k == "Duration" && number(r.k):
		if op == "/" {
			zero = isZero(r.p)
		}
		s := l.p.T.Underlying().(*types.Struct)
		var fs []*ai.V
		for i := 0; i < s.NumFields(); i++ {
			x, t := e.Field(l.p, i), s.Field(i).Type()
			if r.k == "int" {
				fs = append(fs, e.Arith(tok, x, e.Conv(r.p, t), t))
			} else {
				fs = append(fs, e.Conv(e.Arith(tok, e.Conv(x, f64), r.p, f64), t))
			}
		}
		return e.Mk("struct", l.p.T, "", fs...), zero
	case op != "+" && op != "-":
		return nil, nil
	case l.k == "Duration" && r.k == "Duration":
		s := l.p.T.Underlying().(*types.Struct)
		var fs []*ai.V
		for i := 0; i < s.NumFields(); i++ {
			fs = append(fs, e.Arith(tok, e.Field(l.p, i), e.Field(r.p, i), s.Field(i).Type()))
		}
		return e.Mk("struct", l.p.T, "", fs...), nil
	case l.k == "Duration" && !sub && (r.k == "Date" || r.k == "LocalTime" || r.k == "LocalDateTime"):
		return c.arithOp(st, op, r, l)
	case r.k == "Duration" && (l.k == "Date" || l.k == "LocalTime" || l.k == "LocalDateTime"):
		part := func(n string) *ai.V { return e.Mk("call", in, "(time.Time)."+n, l.p) }
		shift := func(n, f string) *ai.V {
			return e.Arith(tok, part(n), e.Conv(e.FieldByName(r.p, f), in), in)
		}
		for _, f := range []string{"Months", "Days", "Seconds", "Nanos"} {
			if e.FieldByName(r.p, f) == nil {
				c.Undecided("Duration."+f, 0, "Duration has no field %s", f)
				return nil, nil
			}
		}
		z := e.Int(0)
		switch l.k {
		case "Date":
			return e.Mk("civil", l.p.T, "UTC", part("Year"), shift("Month", "Months"), shift("Day", "Days"), z, z, z, z), nil
		case "LocalTime":
			day := e.Mk("civil", l.p.T, "Local", e.Int(1970), e.Int(1), e.Int(1), part("Hour"), part("Minute"), shift("Second", "Seconds"), shift("Nanosecond", "Nanos"))
			tod := func(n string) *ai.V { return e.Mk("call", in, "(time.Time)."+n, day) }
			return e.Mk("civil", l.p.T, "Local", z, z, z, tod("Hour"), tod("Minute"), tod("Second"), tod("Nanosecond")), nil
		}
		return e.Mk("civil", l.p.T, "Local", part("Year"), shift("Month", "Months"), shift("Day", "Days"), part("Hour"), part("Minute"), shift("Second", "Seconds"), shift("Nanosecond", "Nanos")), nil
	case op == "+" && l.k == "string" && r.k == "string":
		return e.Arith(tok, l.p, r.p, types.Typ[types.String]), nil
	case op == "+" && l.k == "list" && r.k == "list":
		return e.List(c.valueList(), append(st.Segs(l.p), st.Segs(r.p)...)...), nil
	}
	return nil, nil
}

package checks

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"verif/analyzer/ai"
)

// canon is a form of arithmetic terms that does not depend on how the
// arithmetic is written: integers of 64 bits are polynomials (a ring, so this
// is exact whatever overflows), sums and products of floats are commutative,
// structs are their fields, civil times are their parts.
type canon struct {
	c  *Ctx
	st *ai.State
}

type poly map[string]*big.Int

func (p poly) add(m string, k *big.Int) {
	if p[m] == nil {
		p[m] = new(big.Int)
	}
	p[m].Add(p[m], k)
	if p[m].Sign() == 0 {
		delete(p, m)
	}
}

func (p poly) String() string {
	var l []string
	for m, k := range p {
		l = append(l, k.String()+strings.ReplaceAll(m, "·", "*"))
	}
	sort.Strings(l)
	return "{" + strings.Join(l, " ") + "}"
}

func (p poly) plus(q poly, k int64) poly {
	r := poly{}
	for m, x := range p {
		r.add(m, x)
	}
	for m, x := range q {
		r.add(m, new(big.Int).Mul(x, big.NewInt(k)))
	}
	return r
}

func (p poly) times(q poly) poly {
	r := poly{}
	for m, x := range p {
		for n, y := range q {
			fs := append(strings.FieldsFunc(m, func(c rune) bool { return c == '·' }), strings.FieldsFunc(n, func(c rune) bool { return c == '·' })...)
			sort.Strings(fs)
			k := ""
			for _, f := range fs {
				k += "·" + f
			}
			r.add(k, new(big.Int).Mul(x, y))
		}
	}
	return r
}

func atom(s string) poly {
	return poly{"·" + strings.ReplaceAll(s, "·", "*"): big.NewInt(1)}
}

func (k canon) poly(v *ai.V) poly {
	if v.Op == "const" {
		if n, ok := new(big.Int).SetString(constant.ToInt(v.C).ExactString(), 10); ok {
			r := poly{}
			r.add("", n)
			return r
		}
	}
	switch v.Op {
	case "zero":
		return poly{}
	case "lin":
		r := k.poly(v.Args[0])
		return r.plus(poly{"": big.NewInt(v.N)}, 1)
	case "diff":
		return k.poly(v.Args[0]).plus(k.poly(v.Args[1]), -1)
	case "bin:+":
		return k.poly(v.Args[0]).plus(k.poly(v.Args[1]), 1)
	case "bin:-":
		return k.poly(v.Args[0]).plus(k.poly(v.Args[1]), -1)
	case "bin:*":
		return k.poly(v.Args[0]).times(k.poly(v.Args[1]))
	case "bin:/":
		return atom("quo(" + k.str(v.Args[0]) + "," + k.str(v.Args[1]) + ")")
	case "bin:%":
		q := atom("quo(" + k.str(v.Args[0]) + "," + k.str(v.Args[1]) + ")")
		return k.poly(v.Args[0]).plus(q.times(k.poly(v.Args[1])), -1)
	case "neg", "un:-":
		return poly{}.plus(k.poly(v.Args[0]), -1)
	case "conv", "ctype":
		if wide64(v.Args[0].T) && wide64(v.T) {
			return k.poly(v.Args[0])
		}
	case "call":
		if i, t := k.part(v); t != nil {
			return k.time(t).polys[i]
		}
	}
	return atom(k.str(v))
}

var partNames = []string{"Year", "Month", "Day", "Hour", "Minute", "Second", "Nanosecond"}

// part recognises a call that reads a part of a time.
func (k canon) part(v *ai.V) (int, *ai.V) {
	if v.Op != "call" || len(v.Args) != 1 {
		return 0, nil
	}
	for i, n := range partNames {
		if v.Aux == "(time.Time)."+n {
			return i, v.Args[0]
		}
	}
	for i := 0; i < 3; i++ {
		if v.Aux == fmt.Sprintf("(time.Time).Date#%d", i) {
			return i, v.Args[0]
		}
		if v.Aux == fmt.Sprintf("(time.Time).Clock#%d", i) {
			return i + 3, v.Args[0]
		}
	}
	return 0, nil
}

type civil struct {
	parts [7]string
	polys [7]poly
	loc   string
}

// time gives the parts of a time in their normal ranges.
func (k canon) time(v *ai.V) (cv civil) {
	defer func() {
		for i := range cv.parts {
			if cv.polys[i] == nil {
				cv.polys[i] = atom(cv.parts[i])
			}
		}
	}()
	for v.Op == "ctype" {
		v = v.Args[0]
	}
	var raw [7]poly
	switch {
	case v.Op == "call" && v.Aux == "time.Date" && len(v.Args) == 8:
		for i := range raw {
			raw[i] = k.poly(v.Args[i])
		}
		cv.loc = k.loc(v.Args[7])
	case v.Op == "civil":
		for i := range raw {
			raw[i] = k.poly(v.Args[i])
		}
		cv.loc = v.Aux
	case v.Op == "call" && v.Aux == "(time.Time).AddDate" && len(v.Args) == 4:
		b := k.time(v.Args[0])
		cv.loc = b.loc
		for i := range raw {
			raw[i] = b.polys[i]
			if i < 3 {
				raw[i] = raw[i].plus(k.poly(v.Args[i+1]), 1)
			}
		}
	default:
		s := k.str(v)
		for i := range cv.parts {
			cv.parts[i] = partNames[i] + "(" + s + ")"
		}
		cv.loc = "Location(" + s + ")"
		return cv
	}
	str := func(from, to int) string {
		s := ""
		for i := from; i < to; i++ {
			s += raw[i].String()
		}
		return s
	}
	// unchanged: the parts of one time, or constants in range
	unchanged := func(from, to int) bool {
		base := ""
		for i := from; i < to; i++ {
			if len(raw[i]) == 0 {
				continue
			}
			ok := false
			for m, n := range raw[i] {
				b := strings.TrimPrefix(m, "·"+partNames[i])
				ok = len(raw[i]) == 1 && (m == "" || n.IsInt64() && n.Int64() == 1 && b != m && (base == "" || base == b) && !strings.Contains(b, "·"))
				if m != "" {
					base = b
				}
			}
			if !ok {
				return false
			}
		}
		return true
	}
	flat := func(p poly) string {
		for m, n := range p {
			if len(p) == 1 && n.IsInt64() && n.Int64() == 1 && m != "" {
				return strings.TrimPrefix(m, "·")
			}
		}
		return p.String()
	}
	carry := ""
	if unchanged(3, 7) {
		for i := 3; i < 7; i++ {
			cv.parts[i], cv.polys[i] = flat(raw[i]), raw[i]
		}
	} else {
		tod := str(3, 7)
		for i := 3; i < 7; i++ {
			cv.parts[i] = partNames[i] + "(" + tod + ")"
		}
		carry = "carry" + tod
	}
	if carry == "" && unchanged(0, 3) {
		for i := 0; i < 3; i++ {
			cv.parts[i], cv.polys[i] = flat(raw[i]), raw[i]
		}
	} else {
		d := str(0, 3) + carry
		for i := 0; i < 3; i++ {
			cv.parts[i] = partNames[i] + "(" + d + ")"
		}
	}
	return cv
}

func (k canon) loc(v *ai.V) string {
	s := v.Show()
	for _, n := range []string{"UTC", "Local"} {
		if strings.Contains(s, "time."+n) {
			return n
		}
	}
	return s
}

func wide64(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Int || b.Kind() == types.Int64)
}

func isTime(t types.Type) bool {
	if t == nil {
		return false
	}
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "time" && n.Obj().Name() == "Time" {
		return true
	}
	s, ok := t.Underlying().(*types.Struct)
	return ok && s.NumFields() == 3 && s.Field(0).Name() == "wall"
}

func (k canon) str(v *ai.V) string {
	e := k.c.E
	if v.T != nil && isTime(v.T) {
		w := v
		for w.Op == "ctype" {
			w = w.Args[0]
		}
		if w.Op == "call" || w.Op == "civil" {
			cv := k.time(v)
			return "time(" + strings.Join(cv.parts[:], ",") + "," + cv.loc + ")"
		}
		return fmt.Sprintf("t%d", w.ID)
	}
	if v.T != nil {
		switch u := v.T.Underlying().(type) {
		case *types.Basic:
			if u.Info()&types.IsInteger != 0 {
				switch v.Op {
				case "const", "zero", "lin", "diff", "bin:+", "bin:-", "bin:*", "bin:/", "bin:%", "neg", "un:-":
					return k.poly(v).String()
				case "conv", "ctype":
					if wide64(v.Args[0].T) && wide64(v.T) {
						return k.poly(v).String()
					}
				}
				if i, t := k.part(v); t != nil {
					return k.time(t).parts[i]
				}
			}
			if u.Info()&types.IsString != 0 && v.Op == "bin:+" {
				return k.str(v.Args[0]) + "|" + k.str(v.Args[1])
			}
			if u.Info()&types.IsFloat != 0 {
				switch v.Op {
				case "conv":
					if isIntT(v.Args[0].T) {
						return "float" + k.poly(v.Args[0]).String()
					}
				case "bin:+", "bin:*":
					l := []string{k.str(v.Args[0]), k.str(v.Args[1])}
					sort.Strings(l)
					return "(" + l[0] + v.Op[4:] + l[1] + ")"
				}
			}
		case *types.Struct:
			if v.Op == "struct" || v.Op == "zero" {
				s := "struct("
				for i := 0; i < u.NumFields(); i++ {
					s += k.str(e.Field(v, i)) + ","
				}
				return s + ")"
			}
			return fmt.Sprintf("t%d", v.ID)
		}
	}
	if len(v.Args) == 0 || v.Op == "payload" || v.Op == "field" {
		return fmt.Sprintf("t%d", v.ID)
	}
	s := v.Op + ":" + v.Aux
	if v.T != nil {
		s += ":" + v.T.String()
	}
	s += "("
	for _, a := range v.Args {
		s += k.str(a) + ","
	}
	return s + fmt.Sprintf(")%d", v.N)
}

// sameArith: both have this type and the same canonical form.
func (c *Ctx) sameArith(st *ai.State, g, w *ai.V, t types.Type) bool {
	k := canon{c, st}
	a, b := c.resolve(st, st.Payload(g, t)), c.resolve(st, st.Payload(w, t))
	sa, sb := k.str(a), k.str(b)
	if c.Debug && sa != sb {
		fmt.Printf("differ:\n  %s\n  %s\n", sa, sb)
	}
	return sa == sb
}

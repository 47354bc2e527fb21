package main

import (
	"fmt"
	"go/types"
	"math/big"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A Term is an abstract value: a symbolic expression in normal form over the
// inputs of the analysed function. Terms are interned, so two values the
// analysis can tell to be equal are the same pointer. Integers are
// mathematical integers: an operation that may wrap around is kept apart
// ("wrap", "sgn").
type Term struct {
	id   int
	op   string
	args []*Term
	s    string
	k    *big.Int // "int": the value; "lin": the constant part
	c    []int64  // "lin": coefficients, one for each of args
	bits []bitref // "bits": bit i of the value
	t    types.Type
}

// A bitref is one bit: of an atom, or a constant.
type bitref struct {
	a *Term // nil: the constant i
	i int
}

var (
	internTab = map[string]*Term{}
	termCount int
)

func resetTerms() {
	internTab = map[string]*Term{}
	termCount = 0
	fnByTerm = map[*Term]*ssa.Function{}
	repTab = map[*Term]*repInfo{}
	appendedTab = map[*Term]*Term{}
	listTab = map[*Term]*listInfo{}
	fillTab = map[int]*Term{}
	initTermConsts()
}

func typeKey(t types.Type) string {
	if t == nil {
		return ""
	}
	if k, ok := typeKeys[t]; ok {
		return k
	}
	// byte and uint8, rune and int32, any and interface{} are the same types
	k := types.TypeString(t, nil)
	if sameTypeNames.MatchString(k) {
		k = sameTypeNames.ReplaceAllStringFunc(k, func(n string) string {
			switch n {
			case "byte":
				return "uint8"
			case "rune":
				return "int32"
			}
			return "interface{}"
		})
	}
	typeKeys[t] = k
	return k
}

var typeKeys = map[types.Type]string{}

var sameTypeNames = regexp.MustCompile(`\b(byte|rune|any)\b`)

func mk(op, s string, t types.Type, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte(0)
	sb.WriteString(s)
	sb.WriteByte(0)
	sb.WriteString(typeKey(t))
	for _, a := range args {
		fmt.Fprintf(&sb, ",%d", a.id)
	}
	k := sb.String()
	if x := internTab[k]; x != nil {
		return x
	}
	termCount++
	x := &Term{id: termCount, op: op, s: s, t: t, args: args}
	internTab[k] = x
	return x
}

var (
	tTrue, tFalse *Term
	tZero, tOne   *Term
)

func initTermConsts() {
	tTrue = mk("bool", "true", nil)
	tFalse = mk("bool", "false", nil)
	tZero = mkInt(0)
	tOne = mkInt(1)
}

func init() { initTermConsts() }

func mkBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

func mkBig(v *big.Int) *Term {
	k := "int\x00" + v.String()
	if x := internTab[k]; x != nil {
		return x
	}
	termCount++
	x := &Term{id: termCount, op: "int", k: new(big.Int).Set(v)}
	internTab[k] = x
	return x
}

func mkInt(v int64) *Term { return mkBig(big.NewInt(v)) }

func mkStr(s string) *Term { return mk("str", s, nil) }

func mkNil(t types.Type) *Term { return mk("nil", "", nil) }

func mkSym(name string, t types.Type) *Term { return mk("sym", name, t) }

func mkApp(name string, t types.Type, args ...*Term) *Term { return mk("app", name, t, args...) }

func (t *Term) isInt() bool  { return t.op == "int" }
func (t *Term) isBool() bool { return t.op == "bool" }

func (t *Term) intVal() (int64, bool) {
	if t.op == "int" && t.k.IsInt64() {
		return t.k.Int64(), true
	}
	return 0, false
}

// ---------- linear forms

type lin struct {
	k *big.Int
	m map[*Term]int64
}

func toLin(t *Term) lin {
	l := lin{k: new(big.Int), m: map[*Term]int64{}}
	switch t.op {
	case "int":
		l.k.Set(t.k)
	case "lin":
		l.k.Set(t.k)
		for i, a := range t.args {
			l.m[a] = t.c[i]
		}
	default:
		l.m[t] = 1
	}
	return l
}

func (l lin) add(o lin, f int64) lin {
	r := lin{k: new(big.Int).Set(l.k), m: map[*Term]int64{}}
	for a, c := range l.m {
		r.m[a] = c
	}
	r.k.Add(r.k, new(big.Int).Mul(o.k, big.NewInt(f)))
	for a, c := range o.m {
		r.m[a] += c * f
		if r.m[a] == 0 {
			delete(r.m, a)
		}
	}
	return r
}

func (l lin) neg() lin { return lin{k: new(big.Int), m: map[*Term]int64{}}.add(l, -1) }

func (l lin) term() *Term {
	if len(l.m) == 0 {
		return mkBig(l.k)
	}
	var as []*Term
	for a := range l.m {
		as = append(as, a)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	if len(as) == 1 && l.m[as[0]] == 1 && l.k.Sign() == 0 {
		return as[0]
	}
	var sb strings.Builder
	sb.WriteString("lin\x00" + l.k.String())
	cs := make([]int64, len(as))
	for i, a := range as {
		cs[i] = l.m[a]
		fmt.Fprintf(&sb, ",%d*%d", cs[i], a.id)
	}
	key := sb.String()
	if x := internTab[key]; x != nil {
		return x
	}
	termCount++
	x := &Term{id: termCount, op: "lin", args: as, c: cs, k: new(big.Int).Set(l.k)}
	internTab[key] = x
	return x
}

func addT(a, b *Term) *Term { return toLin(a).add(toLin(b), 1).term() }
func subT(a, b *Term) *Term { return toLin(a).add(toLin(b), -1).term() }
func mulC(a *Term, c int64) *Term {
	return lin{k: new(big.Int), m: map[*Term]int64{}}.add(toLin(a), c).term()
}
func addC(a *Term, c int64) *Term { return addT(a, mkInt(c)) }
func sumT(ts ...*Term) *Term {
	r := tZero
	for _, t := range ts {
		r = addT(r, t)
	}
	return r
}

// ---------- ranges of atoms

type ival struct{ lo, hi *big.Int } // nil: unbounded

var (
	bigMaxLen = new(big.Int).Lsh(big.NewInt(1), 48)
)

func intInfo(t types.Type) (width int, signed bool, ok bool) {
	if t == nil {
		return 0, false, false
	}
	b, isb := t.Underlying().(*types.Basic)
	if !isb || b.Info()&types.IsInteger == 0 {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int8:
		return 8, true, true
	case types.Uint8:
		return 8, false, true
	case types.Int16:
		return 16, true, true
	case types.Uint16:
		return 16, false, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint32:
		return 32, false, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	}
	return 0, false, false
}

func typeRange(t types.Type) ival {
	w, s, ok := intInfo(t)
	if !ok {
		return ival{}
	}
	return widthRange(w, s)
}

func widthRange(w int, signed bool) ival {
	if signed {
		h := new(big.Int).Lsh(big.NewInt(1), uint(w-1))
		return ival{new(big.Int).Neg(h), new(big.Int).Sub(h, big.NewInt(1))}
	}
	h := new(big.Int).Lsh(big.NewInt(1), uint(w))
	return ival{big.NewInt(0), h.Sub(h, big.NewInt(1))}
}

// atomRange is what is known of an integer atom from its form alone.
func atomRange(t *Term) ival {
	switch t.op {
	case "int":
		return ival{t.k, t.k}
	case "len", "cap":
		if a := t.args[0]; a.op == "sym" {
			if strings.HasPrefix(a.s, "short:") {
				return ival{big.NewInt(0), big.NewInt(0xFFFF)}
			}
			if strings.HasPrefix(a.s, "mid:") {
				return ival{big.NewInt(0), big.NewInt(0xFFFFFFFF)}
			}
		}
		return ival{big.NewInt(0), bigMaxLen}
	case "in":
		return ival{big.NewInt(0), big.NewInt(255)}
	case "bits":
		lo, hi := new(big.Int), new(big.Int)
		for i, b := range t.bits {
			if b.a == nil {
				if b.i == 1 {
					lo.SetBit(lo, i, 1)
					hi.SetBit(hi, i, 1)
				}
			} else {
				hi.SetBit(hi, i, 1)
			}
		}
		return ival{lo, hi}
	case "sgn":
		w := 0
		fmt.Sscan(t.s, &w)
		return widthRange(w, true)
	case "lin":
		r := ival{new(big.Int).Set(t.k), new(big.Int).Set(t.k)}
		for i, a := range t.args {
			ar := atomRange(a)
			c := big.NewInt(t.c[i])
			lo, hi := ar.lo, ar.hi
			if t.c[i] < 0 {
				lo, hi = hi, lo
			}
			if r.lo != nil {
				if lo == nil {
					r.lo = nil
				} else {
					r.lo = new(big.Int).Add(r.lo, new(big.Int).Mul(lo, c))
				}
			}
			if r.hi != nil {
				if hi == nil {
					r.hi = nil
				} else {
					r.hi = new(big.Int).Add(r.hi, new(big.Int).Mul(hi, c))
				}
			}
		}
		return r
	}
	if t.op == "app" && t.s == "nonneg" {
		return ival{big.NewInt(0), bigMaxLen}
	}
	return typeRange(t.t)
}

func within(a, b ival) bool {
	if b.lo != nil && (a.lo == nil || a.lo.Cmp(b.lo) < 0) {
		return false
	}
	if b.hi != nil && (a.hi == nil || a.hi.Cmp(b.hi) > 0) {
		return false
	}
	return true
}

// ---------- bits

func bit0() bitref { return bitref{nil, 0} }

// toBits gives the low w bits of the two's complement of t.
func toBits(t *Term, w int) []bitref {
	out := make([]bitref, w)
	switch t.op {
	case "int":
		v := new(big.Int).Set(t.k)
		if v.Sign() < 0 {
			v.Add(v, new(big.Int).Lsh(big.NewInt(1), 128))
		}
		for i := range out {
			out[i] = bitref{nil, int(v.Bit(i))}
		}
		return out
	case "bits":
		for i := range out {
			if i < len(t.bits) {
				out[i] = t.bits[i]
			} else {
				out[i] = bit0()
			}
		}
		return out
	case "sgn":
		in := t.args[0]
		sw := 0
		fmt.Sscan(t.s, &sw)
		b := toBits(in, sw)
		for i := range out {
			if i < sw {
				out[i] = b[i]
			} else {
				out[i] = b[sw-1]
			}
		}
		return out
	case "wrap":
		ww, signed, ok := intInfo(t.t)
		if ok && w <= ww {
			return toBits(t.args[0], w)
		}
		if ok && !signed {
			b := toBits(t.args[0], ww)
			for i := range out {
				if i < ww {
					out[i] = b[i]
				} else {
					out[i] = bit0()
				}
			}
			return out
		}
	}
	r := atomRange(t)
	aw, signed := 64, true
	if r.lo != nil && r.lo.Sign() >= 0 {
		signed = false
		if r.hi != nil && r.hi.BitLen() < 64 && (t.op != "len" && t.op != "cap" && t.op != "lin" || t.op == "len" && r.hi.BitLen() <= 40) {
			aw = r.hi.BitLen()
		}
	} else if r.lo != nil && r.hi != nil {
		n := r.hi.BitLen() + 1
		if m := new(big.Int).Not(r.lo).BitLen() + 1; m > n {
			n = m
		}
		if n < 64 && t.op != "lin" {
			aw = n
		}
	}
	for i := range out {
		switch {
		case i < aw:
			out[i] = bitref{t, i}
		case signed:
			out[i] = bitref{t, aw - 1}
		default:
			out[i] = bit0()
		}
	}
	return out
}

func sameBits(a, b []bitref) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// fromBits makes the value of type width w, signed or not, with these bits.
func fromBits(bs []bitref, signed bool) *Term {
	w := len(bs)
	// all constant?
	konst := true
	for _, b := range bs {
		if b.a != nil {
			konst = false
			break
		}
	}
	if konst {
		v := new(big.Int)
		for i, b := range bs {
			v.SetBit(v, i, uint(b.i))
		}
		if signed && w > 0 && bs[w-1].i == 1 {
			v.Sub(v, new(big.Int).Lsh(big.NewInt(1), uint(w)))
		}
		return mkBig(v)
	}
	// the whole of one atom?
	var a *Term
	for _, b := range bs {
		if b.a != nil {
			a = b.a
			break
		}
	}
	if a != nil && within(atomRange(a), widthRange(w, signed)) && sameBits(toBits(a, w), bs) {
		return a
	}
	if signed && w > 0 && !(bs[w-1].a == nil && bs[w-1].i == 0) {
		inner := bitsTerm(bs)
		return mk("sgn", fmt.Sprint(w), nil, inner)
	}
	return bitsTerm(bs)
}

func bitsTerm(bs []bitref) *Term {
	n := len(bs)
	for n > 0 && bs[n-1].a == nil && bs[n-1].i == 0 {
		n--
	}
	bs = bs[:n]
	konst := true
	for _, b := range bs {
		if b.a != nil {
			konst = false
		}
	}
	if konst {
		return fromBits(append(append([]bitref{}, bs...), bit0()), false)
	}
	var sb strings.Builder
	sb.WriteString("bits\x00")
	seen := map[*Term]bool{}
	var as []*Term
	for _, b := range bs {
		if b.a == nil {
			fmt.Fprintf(&sb, ",%d", b.i)
		} else {
			fmt.Fprintf(&sb, ",%d.%d", b.a.id, b.i)
			if !seen[b.a] {
				seen[b.a] = true
				as = append(as, b.a)
			}
		}
	}
	// the whole of one atom
	if len(as) == 1 && atomRange(as[0]).lo != nil && atomRange(as[0]).lo.Sign() >= 0 {
		full := toBits(as[0], 64)
		m := len(full)
		for m > 0 && full[m-1].a == nil && full[m-1].i == 0 {
			m--
		}
		if sameBits(full[:m], bs) {
			return as[0]
		}
	}
	k := sb.String()
	if x := internTab[k]; x != nil {
		return x
	}
	termCount++
	x := &Term{id: termCount, op: "bits", bits: append([]bitref{}, bs...), args: as}
	internTab[k] = x
	return x
}

// byteOf is byte i of the two's complement of t.
func byteOf(t *Term, i int) *Term {
	b := toBits(t, 8*i+8)
	return fromBits(b[8*i:], false)
}

// le makes the little-endian number of these bytes.
func le(bytes ...*Term) *Term {
	var bs []bitref
	for _, b := range bytes {
		bs = append(bs, toBits(b, 8)...)
	}
	return fromBits(bs, false)
}

// ---------- printing

func (t *Term) String() string { return t.str(0) }

func (t *Term) str(d int) string {
	if t == nil {
		return "<nil>"
	}
	if d > 9 {
		return "…"
	}
	j := func(as []*Term) string {
		var ss []string
		for _, a := range as {
			ss = append(ss, a.str(d+1))
		}
		return strings.Join(ss, ", ")
	}
	switch t.op {
	case "int":
		return t.k.String()
	case "bool":
		return t.s
	case "str":
		return fmt.Sprintf("%q", t.s)
	case "nil":
		return "nil"
	case "sym", "glob":
		return t.s
	case "lin":
		var ss []string
		for i, a := range t.args {
			switch t.c[i] {
			case 1:
				ss = append(ss, a.str(d+1))
			case -1:
				ss = append(ss, "-"+a.str(d+1))
			default:
				ss = append(ss, fmt.Sprintf("%d*%s", t.c[i], a.str(d+1)))
			}
		}
		if t.k.Sign() != 0 {
			ss = append(ss, t.k.String())
		}
		return "(" + strings.Join(ss, "+") + ")"
	case "bits":
		// runs
		var ss []string
		for i := 0; i < len(t.bits); {
			b := t.bits[i]
			if b.a == nil {
				n := 1
				v := fmt.Sprint(b.i)
				for i+n < len(t.bits) && t.bits[i+n].a == nil {
					v = fmt.Sprint(t.bits[i+n].i) + v
					n++
				}
				ss = append(ss, "0b"+v)
				i += n
				continue
			}
			n := 1
			for i+n < len(t.bits) && t.bits[i+n].a == b.a && t.bits[i+n].i == b.i+n {
				n++
			}
			ss = append(ss, fmt.Sprintf("%s[%d:%d]", b.a.str(d+1), b.i, b.i+n))
			i += n
		}
		return "{" + strings.Join(ss, ".") + "}"
	case "app":
		return t.s + "(" + j(t.args) + ")"
	case "faddr":
		return t.args[0].str(d+1) + "." + t.s
	case "ld":
		return "*" + t.args[0].str(d+1) + verStr(t.s)
	case "eq":
		return t.args[0].str(d+1) + "==" + t.args[1].str(d+1)
	case "not":
		return "!(" + t.args[0].str(d+1) + ")"
	case "eq0":
		return t.args[0].str(d+1) + "==0"
	case "le0":
		return t.args[0].str(d+1) + "<=0"
	case "in":
		return t.args[0].str(d+1) + "[" + t.args[1].str(d+1) + "]"
	case "alloc":
		return "new:" + t.s
	case "iface":
		return t.args[0].str(d + 1)
	}
	s := t.op
	if t.s != "" {
		s += ":" + t.s
	}
	return s + "(" + j(t.args) + ")"
}

func verStr(s string) string {
	if s == "" || s == "0" {
		return ""
	}
	return "'" + s
}

// mentions reports whether f holds for t or a subterm of it.
func mentions(t *Term, f func(*Term) bool) bool {
	seen := map[*Term]bool{}
	var rec func(*Term) bool
	rec = func(x *Term) bool {
		if x == nil || seen[x] {
			return false
		}
		seen[x] = true
		if f(x) {
			return true
		}
		for _, a := range x.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// simp drops the pieces of content that are known to be empty on this path.
func simp(st *State, c *Term) *Term {
	var ps []*Term
	for _, p := range pieces(c) {
		if p.op != "str" && p.op != "b1" && st.proves(mkEqInt(contentLen(p), tZero)) {
			continue
		}
		if p.op == "b1" {
			// a byte of a number that is known on this path
			if v, ok := st.known(p.args[0]); ok {
				p = mkByte(mkInt(v))
			}
		}
		if p.op == "sub" {
			if v, ok := st.known(p.args[2]); ok {
				p = mkSub(p.args[0], p.args[1], mkInt(v))
			}
		}
		ps = append(ps, p)
	}
	return mkCat(ps...)
}

// known: t has one value on this path.
func (st *State) known(t *Term) (int64, bool) {
	if v, ok := t.intVal(); ok {
		return v, true
	}
	if t.op == "bits" {
		// bits of one number whose value is known
		var atom *Term
		for _, b := range t.bits {
			if b.a != nil {
				if atom != nil && atom != b.a {
					return 0, false
				}
				atom = b.a
			}
		}
		if atom == nil || atom == t {
			return 0, false
		}
		v, ok := st.known(atom)
		if !ok || v < 0 {
			return 0, false
		}
		var r int64
		for i, b := range t.bits {
			if i > 62 {
				return 0, false
			}
			if b.a == nil {
				r |= int64(b.i&1) << i
			} else {
				r |= (v >> uint(b.i) & 1) << i
			}
		}
		return r, true
	}
	for _, f := range st.facts {
		if f.op != "eq0" {
			continue
		}
		l := toLin(f.args[0])
		if len(l.m) == 1 && l.m[t] != 0 && l.k.IsInt64() {
			c := l.m[t]
			if c == 1 || c == -1 {
				return -l.k.Int64() * c, true
			}
		}
	}
	if st.proves(mkEqInt(t, tZero)) {
		return 0, true
	}
	return 0, false
}

// An encSpec says what a message has to contain.
type encSpec struct {
	m    *message
	tag  *Term // its two bytes
	vals []*Term
	typs []types.Type
}

// matchMsg compares the bytes of a whole message with the format.
func matchMsg(x *Exec, st *State, content *Term, s encSpec) string {
	size := encInt(contentLen(content), 4)
	hd := mkCat(size, mkByte(mkInt(s.m.typ)), s.tag)
	return matchFields(x, st, content, hd, s.m.fields, s.vals, s.typs)
}

func matchFields(x *Exec, st *State, content, prefix *Term, fields []field, vals []*Term, typs []types.Type) string {
	if len(vals) != len(fields) {
		return fmt.Sprintf("%d values for %d fields", len(vals), len(fields))
	}
	want := prefix
	for i, f := range fields {
		if f.kind != fstrs && f.kind != fqids {
			want = mkCat(want, encField(x, st, f, vals[i], typs[i]))
			continue
		}
		if i != len(fields)-1 {
			return "a list that is not last"
		}
		list := vals[i]
		n := contentLen(list)
		want = mkCat(want, encInt(n, 2))
		sc, sw := simp(st, content), simp(st, want)
		rest := suffixAfter(sc, sw)
		if rest == nil {
			return fmt.Sprintf("the message is %v, and not %v and the list", sc, sw)
		}
		return matchList(x, st, rest, f, list, typs[i])
	}
	sc, sw := simp(st, content), simp(st, want)
	if sc != sw {
		return fmt.Sprintf("the message is %v, and not %v", sc, sw)
	}
	return ""
}

func matchList(x *Exec, st *State, rest *Term, f field, list *Term, t types.Type) string {
	n := contentLen(list)
	if st.proves(mkEqInt(n, tZero)) {
		if rest.op == "str" && rest.s == "" {
			return ""
		}
		if st.proves(mkEqInt(contentLen(rest), tZero)) {
			return ""
		}
	}
	ri := repTab[rest]
	if ri == nil {
		return fmt.Sprintf("the list is encoded as %v, which is not one piece for each element", rest)
	}
	if !st.proves(mkEqInt(ri.kappa, n)) {
		return fmt.Sprintf("not shown that there is one piece for each of the %v elements", n)
	}
	et := t.Underlying().(*types.Slice).Elem()
	for i, b := range ri.bodies {
		bst := st
		if i < len(ri.loop.back) {
			bst = ri.loop.back[i].st
		}
		e := elemAt(bst, list, ri.kappa, et)
		var want *Term
		if f.kind == fstrs {
			want = encStr(x.bytesOf(bst, e))
		} else {
			want = encQID(e, et)
		}
		if sb, sw := simp(bst, b), simp(bst, want); sb != sw {
			return fmt.Sprintf("an element of the list is encoded as %v, and not %v", sb, sw)
		}
	}
	return ""
}

func elemAt(st *State, list, i *Term, et types.Type) *Term {
	obj, off, _, _ := sliceParts(list)
	return st.load(mkElem(obj, addT(off, i)), et)
}

// matchDecoded compares values with what the format says is in src from pos on.
// It returns where the last field ends.
func matchDecoded(x *Exec, st *State, src, pos *Term, fields []field, vals []*Term, typs []types.Type) (end *Term, why string) {
	if len(vals) != len(fields) {
		return nil, fmt.Sprintf("%d values for %d fields", len(vals), len(fields))
	}
	for i, f := range fields {
		d := decField(src, pos, f)
		v := vals[i]
		switch f.kind {
		case u8, u16, u32, u64:
			n := width(f.kind)
			if simp(st, encInt(v, n)) != simp(st, encInt(d.val, n)) {
				return nil, fmt.Sprintf("%s is %v, and not %v", f.name, v, d.val)
			}
			if !fits(st, v, n, typs[i]) {
				return nil, fmt.Sprintf("%s is %v, which has bits that are not in the message", f.name, v)
			}
		case fqid:
			if why := matchQID(st, v, typs[i], d.parts); why != "" {
				return nil, f.name + ": " + why
			}
		case fstr, data16, data32:
			c := simp(st, x.bytesOf(st, v))
			if w := simp(st, d.val); c != w {
				return nil, fmt.Sprintf("%s is %v, and not %v", f.name, c, w)
			}
		case fstrs, fqids:
			e, why := matchDecodedList(x, st, src, f, d, v, typs[i])
			if why != "" {
				return nil, f.name + ": " + why
			}
			d.end = e
		}
		pos = d.end
	}
	return pos, ""
}

// fits: an integer result holds nothing but the n bytes of the message.
func fits(st *State, v *Term, n int, t types.Type) bool {
	w, signed, ok := intInfo(t)
	if !ok {
		return true
	}
	if w <= 8*n {
		return true
	}
	_ = signed
	for i := n; i < w/8; i++ {
		if byteOf(v, i) != tZero {
			return false
		}
	}
	return true
}

func matchQID(st *State, v *Term, t types.Type, parts []*Term) string {
	for i, n := range []int{1, 4, 8} {
		fv := fieldByName(v, t, qidFields[i])
		if fv == nil {
			return "no field " + qidFields[i]
		}
		if simp(st, encInt(fv, n)) != simp(st, encInt(parts[i], n)) {
			return fmt.Sprintf("%s is %v, and not %v", qidFields[i], fv, parts[i])
		}
	}
	return ""
}

func elemEnd(src, pos *Term, k fkind) *Term {
	if k == fqids {
		return addC(pos, 13)
	}
	return addT(addC(pos, 2), decInt(src, pos, 2))
}

func matchDecodedList(x *Exec, st *State, src *Term, f field, d decoded, v *Term, t types.Type) (*Term, string) {
	if !st.proves(mkEqInt(contentLen(v), d.count)) {
		return nil, fmt.Sprintf("its length is %v, and not %v", contentLen(v), d.count)
	}
	if st.proves(mkEqInt(d.count, tZero)) {
		return d.start, ""
	}
	obj, off, _, _ := sliceParts(v)
	et := t.Underlying().(*types.Slice).Elem()
	last := fmt.Sprintf("no loop fills it")
	for _, e := range st.events() {
		if e.loop == nil {
			continue
		}
		li := e.loop
		end, why := matchFill(x, st, li, src, f, d, obj, off, et)
		if why == "" {
			return end, ""
		}
		last = why
	}
	return nil, last
}

// matchFill: the loop stores element kappa in each iteration kappa.
func matchFill(x *Exec, st *State, li *LoopInfo, src *Term, f field, d decoded, obj, off *Term, et types.Type) (*Term, string) {
	if len(li.back) == 0 {
		return nil, "no loop fills it"
	}
	// the variable that says where the next element begins
	var cur *Term
	for _, v := range li.vars {
		if v.entry == nil || v.mode == 0 {
			continue
		}
		if _, _, ok := intInfo(v.typ); v.typ != nil && !ok {
			continue
		}
		at, ok := shifted(v, d.start)
		if !ok {
			continue
		}
		good := len(v.next) == len(li.back)
		for i := range v.next {
			if !good || v.next[i] == nil {
				good = false
				break
			}
			if !li.back[i].st.proves(mkEqInt(at(v.next[i]), elemEnd(src, at(v.cur), f.kind))) {
				good = false
			}
		}
		if good {
			cur = at(v.cur)
			break
		}
	}
	if cur == nil {
		return nil, "no loop goes from one element to the next"
	}
	if !st.proves(mkEqInt(li.kappa, d.count)) {
		return nil, "not shown that the loop is done once for each element"
	}
	for i, b := range li.back {
		got := li.stored(b, obj, addT(off, li.kappa), et)
		if got == nil {
			return nil, "an iteration does not store its element"
		}
		switch f.kind {
		case fqids:
			parts := decField(src, cur, field{"", fqid}).parts
			if why := matchQID(b.st, got, et, parts); why != "" {
				return nil, why
			}
		default:
			w := decField(src, cur, field{"", fstr}).val
			if c := simp(b.st, x.bytesOf(b.st, got)); c != simp(b.st, w) {
				return nil, fmt.Sprintf("an element is %v, and not %v", c, w)
			}
		}
		_ = i
	}
	return cur, ""
}

// stored: what one iteration leaves in element i of obj.
func (li *LoopInfo) stored(b loopPath, obj, i *Term, et types.Type) *Term {
	if s := flatStruct(et); s != nil {
		// field by field, or as a whole
		found := false
		for c := range b.st.cells {
			for a := c; a.op == "faddr" || a.op == "elem"; a = a.args[0] {
				if a.op == "elem" && a.args[0] == obj && a.args[1] == i {
					found = true
				}
			}
		}
		if !found {
			return nil
		}
		return b.st.load(mkElem(obj, i), et)
	}
	v, ok := b.st.cells[mkElem(obj, i)]
	if !ok {
		return nil
	}
	return v
}

func sigTypes(fn *ssa.Function) (ps, rs []types.Type) {
	for i := 0; i < fn.Signature.Params().Len(); i++ {
		ps = append(ps, fn.Signature.Params().At(i).Type())
	}
	return ps, resTypes(fn.Signature)
}

// safety reports the obligations of x that were not discharged.
func (c *Ctx) safety(x *Exec, rule string, except ...string) {
	ex := map[string]bool{}
	for _, e := range except {
		ex[e] = true
	}
	for _, o := range x.obl {
		if ex[o.kind] {
			continue
		}
		c.want(o.ok, rule, o.pos, o.fn, "%s: %s", o.kind, o.desc)
	}
}

func bufContent(x *Exec, st *State, p *Term) *Term {
	b := x.buf(st, p)
	c := st.contOf(b.obj, nil)
	return st.contSlice(c, b.head, subT(contentLen(c), b.head))
}

func marshalName(m string) string   { return "Marshal" + m + "Pkt" }
func unmarshalName(m string) string { return "Unmarshal" + m + "Pkt" }

func init() {
	register(&Check{id: "C01", title: "wire encoding is 9P2000",
		rules: "const: a protocol constant has its value from the manual; encode: on every path of an encoder the bytes it leaves equal, as an abstract content term, size[4] type[1] tag[2] and the fields of the message as in the manual, with the size that of the whole; encode-safe: no index, slice or nil fault in an encoder; statrec: the same for the stat record",
		not:   []string{"strings, stat records or lists too long for their 2-byte counts: the encoders have no way to report them"},
		run:   checkEncode})
	register(&Check{id: "C02", title: "decoding inverts encoding",
		rules: "decode-value: on every accepting path of a decoder each result is the term that the manual's layout gives for that field of the input; decode-accepts: every refusing path is refuted for an input of exactly the manual's layout, so nothing an encoder writes is refused; roundtrip: a decoder applied to the abstract content an encoder leaves returns the encoder's arguments",
		run:   checkDecodeValues})
	register(&Check{id: "C03", title: "decoders refuse what is malformed",
		rules: "decode-exact: on every accepting path all fields lie within the input and nothing follows them; decode-safe: every index, slice, make and nil access in a decoder is shown to be in bounds for every input; decode-alloc: what a decoder allocates is bounded by the input; decode-tag: a refusing path that has read the tag returns it",
		run:   checkDecodeRefuses})
}

func checkConsts(c *Ctx) {
	sc := c.pr.TPkgs["protocol"].Types.Scope()
	for n, v := range wireConsts {
		o, _ := sc.Lookup(n).(*types.Const)
		if o == nil {
			c.fail("const", token.NoPos, nil, "constant %s is not there", n)
			continue
		}
		got, exact := constant.Int64Val(constant.ToInt(o.Val()))
		c.want(exact && got == v, "const", o.Pos(), nil, "%s is %v, and not %#x", n, o.Val(), v)
	}
	c.need("const", len(wireConsts))
}

func checkEncode(c *Ctx) {
	checkConsts(c)
	for i := range messages {
		m := &messages[i]
		fn := c.fn("protocol", marshalName(m.name))
		if fn == nil {
			continue
		}
		ps, _ := sigTypes(fn)
		if len(ps) != len(m.fields)+2 {
			c.fail("encode", fn.Pos(), fn, "%d parameters for %d fields", len(ps)-2, len(m.fields))
			continue
		}
		args := params(fn)
		// Counted lists of strings are at most this long on the wire.
		st := newState()
		st.addFact(notT(mkEq(args[0], mkNil(nil), nil)))
		x := newExec(c.pr)
		vals := args[2:]
		var lens []*Term
		for j, f := range m.fields {
			switch f.kind {
			case fstrs, fqids, fstr, data16:
				lens = append(lens, contentLen(vals[j]))
			}
		}
		outs := c.runFn(x, fn, st, args, nil)
		c.want(len(outs) > 0, "encode-path", fn.Pos(), fn, "no path")
		for _, o := range outs {
			if !c.want(o.kind == outRet, "encode", o.pos, fn, "a path ends without the message") {
				continue
			}
			got := bufContent(x, o.st, args[0])
			why := matchMsg(x, o.st, got, encSpec{m: m, tag: encInt(args[1], 2), vals: vals, typs: ps[2:]})
			c.want(why == "", "encode", fn.Pos(), fn, "%s: %s", m.name, why)
		}
		c.safety(x, "encode-safe", "exit")
		_ = lens
	}
	c.need("encode", len(messages))
	// the stat record
	fn := c.fn("protocol", "Marshaldir")
	if fn == nil {
		return
	}
	ps, _ := sigTypes(fn)
	args := params(fn)
	x := newExec(c.pr)
	st := newState()
	st.addFact(notT(mkEq(args[0], mkNil(nil), nil)))
	before := bufContent(x, st, args[0])
	outs := c.runFn(x, fn, st, args, nil)
	vals, typs := dirFields(args[1], ps[1])
	for _, o := range outs {
		got := bufContent(x, o.st, args[0])
		if !c.want(o.kind == outRet, "statrec", o.pos, fn, "a path ends without the record") {
			continue
		}
		// alone, or after what was there before
		rec := suffixAfter(got, before)
		if rec == nil {
			rec = got
		}
		why := matchFields(x, o.st, rec, encInt(addC(contentLen(rec), -2), 2), statFields, vals, typs)
		c.want(why == "", "statrec", fn.Pos(), fn, "%s", why)
	}
	c.safety(x, "encode-safe", "exit")
	c.need("statrec", 1)
}

var dirFieldNames = []string{"Type", "Dev", "QID", "Mode", "Atime", "Mtime", "Length", "Name", "User", "Group", "ModUser"}

func dirFields(d *Term, t types.Type) (vals []*Term, typs []types.Type) {
	s, _ := derefStruct(t)
	for _, n := range dirFieldNames {
		v := fieldByName(d, t, n)
		if v == nil {
			v = mkSym("missing:"+n, nil)
		}
		var ft types.Type
		for i := 0; s != nil && i < s.NumFields(); i++ {
			if s.Field(i).Name() == n {
				ft = s.Field(i).Type()
			}
		}
		vals, typs = append(vals, v), append(typs, ft)
	}
	return
}

type decRun struct {
	m    *message
	fn   *ssa.Function
	x    *Exec
	src  *Term
	outs []Outcome
	rs   []types.Type
}

func (c *Ctx) runDecoder(m *message, fn *ssa.Function) *decRun {
	x := newExec(c.pr)
	st := newState()
	args := params(fn)
	st.addFact(notT(mkEq(args[0], mkNil(nil), nil)))
	src := bufContent(x, st, args[0])
	_, rs := sigTypes(fn)
	return &decRun{m, fn, x, src, c.runFn(x, fn, st, args, nil), rs}
}

func (c *Ctx) decoders() []*decRun {
	var rs []*decRun
	for i := range messages {
		m := &messages[i]
		fn := c.fn("protocol", unmarshalName(m.name))
		if fn == nil {
			continue
		}
		r := c.runDecoder(m, fn)
		if len(r.rs) != len(m.fields)+2 {
			c.fail("decode-value", fn.Pos(), fn, "%d results for %d fields", len(r.rs)-2, len(m.fields))
			continue
		}
		rs = append(rs, r)
	}
	return rs
}

func checkDecodeValues(c *Ctx) {
	for _, r := range c.decoders() {
		nf := len(r.m.fields)
		acc := 0
		for _, o := range r.outs {
			if o.kind != outRet {
				continue // C03
			}
			err := o.rets[nf+1]
			if isNilT(err) {
				acc++
				why := ""
				if simp(o.st, encInt(o.rets[nf], 2)) != simp(o.st, encInt(decInt(r.src, tZero, 2), 2)) {
					why = fmt.Sprintf("the tag is %v", o.rets[nf])
				} else {
					_, why = matchDecoded(r.x, o.st, r.src, mkInt(2), r.m.fields, o.rets[:nf], r.rs)
				}
				c.want(why == "", "decode-value", o.pos, r.fn, "%s: %s", r.m.name, why)
				continue
			}
			if !nonNilTerm(err) && !o.st.proves(notT(mkEq(err, mkNil(nil), nil))) {
				c.fail("decode-value", o.pos, r.fn, "%s: not known whether this path refuses", r.m.name)
				continue
			}
			why := refutes(o.st, r.src, mkInt(2), r.m.fields)
			c.want(why == "", "decode-accepts", o.pos, r.fn, "%s: a message as the manual has it may be refused here: %s", r.m.name, why)
		}
		c.want(acc > 0, "decode-accepting", r.fn.Pos(), r.fn, "%s: no path accepts", r.m.name)
		c.roundtrip(r.m)
	}
	c.need("decode-value", len(messages))
	c.need("decode-accepts", len(messages))
	c.need("roundtrip", 20)
	c.dirDecode("decode-value", "decode-accepts", "", "")
	c.need("decode-value", len(messages)+1)
}

// refutes: no input of exactly this layout takes this path.
func refutes(st *State, src, pos *Term, fields []field) string {
	n := mk("len", "", nil, src)
	s := st.clone()
	for i, f := range fields {
		d := decField(src, pos, f)
		if f.kind == fstrs || f.kind == fqids {
			if !s.assume(mkLe(d.start, n)) {
				return ""
			}
			return refutesList(s, src, f, d, n)
		}
		if i == len(fields)-1 {
			if !s.assume(mkEqInt(d.end, n)) {
				return ""
			}
			return fmt.Sprintf("nothing on the path excludes a length of %v", d.end)
		}
		if !s.assume(mkLe(d.end, n)) {
			return ""
		}
		pos = d.end
	}
	if len(fields) == 0 && !s.assume(mkEqInt(pos, n)) {
		return ""
	}
	return "nothing on the path excludes it"
}

// shifted: the variable counts positions from a fixed place on; at turns one
// of its values into a position of the input.
func shifted(v *loopVar, start *Term) (at func(*Term) *Term, ok bool) {
	k, ok := subT(start, v.entry).intVal()
	if !ok {
		return nil, false
	}
	return func(t *Term) *Term { return addC(t, k) }, true
}

func refutesList(s *State, src *Term, f field, d decoded, n *Term) string {
	last := "nothing on the path excludes it"
	for _, e := range s.events() {
		if e.loop == nil {
			continue
		}
		li := e.loop
		for _, v := range li.vars {
			if v.mode == 0 || v.entry == nil {
				continue
			}
			if _, _, ok := intInfo(v.typ); v.typ != nil && !ok {
				continue
			}
			at, ok := shifted(v, d.start)
			if !ok {
				continue
			}
			good := true
			for i := range v.next {
				if v.next[i] == nil || i >= len(li.back) || !li.back[i].st.proves(mkEqInt(at(v.next[i]), elemEnd(src, at(v.cur), f.kind))) {
					good = false
				}
			}
			if !good {
				continue
			}
			if s.proves(mkLt(li.kappa, d.count)) {
				// element kappa does not fit
				t := s.clone()
				if !t.assume(mkLe(elemEnd(src, at(v.cur), f.kind), n)) {
					return ""
				}
				last = "an element that is there may be refused"
			} else if s.proves(mkEqInt(li.kappa, d.count)) {
				t := s.clone()
				if !t.assume(mkEqInt(at(v.cur), n)) {
					return ""
				}
				last = "a list that is complete may be refused"
			}
		}
	}
	if s.proves(mkEqInt(d.count, tZero)) {
		t := s.clone()
		if !t.assume(mkEqInt(d.start, n)) {
			return ""
		}
	}
	return last
}

// roundtrip applies the decoder to what the encoder wrote.
func (c *Ctx) roundtrip(m *message) {
	for _, f := range m.fields {
		if f.kind == fstrs || f.kind == fqids {
			return // through the layout only
		}
	}
	enc, dec := c.pr.Func("protocol", marshalName(m.name)), c.pr.Func("protocol", unmarshalName(m.name))
	if enc == nil || dec == nil {
		return
	}
	x := newExec(c.pr)
	st := newState()
	args := params(enc)
	st.addFact(notT(mkEq(args[0], mkNil(nil), nil)))
	ps, _ := sigTypes(enc)
	for i, f := range m.fields {
		switch f.kind {
		case fstr, data16:
			args[2+i] = mkSym("short:"+f.name, ps[2+i])
		case data32:
			args[2+i] = mkSym("mid:"+f.name, ps[2+i])
		}
	}
	for _, o := range c.runFn(x, enc, st, args, nil) {
		if o.kind != outRet {
			continue
		}
		whole := bufContent(x, o.st, args[0])
		body := o.st.contSlice(whole, mkInt(5), addC(contentLen(whole), -5))
		if !c.want(body != nil, "roundtrip", enc.Pos(), enc, "%s: shorter than a header", m.name) {
			continue
		}
		st2 := o.st.clone()
		b2 := mkSym("nn:b2", dec.Params[0].Type())
		x.setBuf(st2, b2, body)
		acc := 0
		for _, p := range c.runFn(x, dec, st2, []*Term{b2}, nil) {
			if p.kind != outRet || !isNilT(p.rets[len(p.rets)-1]) {
				c.fail("roundtrip", p.pos, dec, "%s: what the encoder wrote may be refused", m.name)
				continue
			}
			acc++
			why := ""
			if simp(p.st, encInt(p.rets[len(m.fields)], 2)) != simp(p.st, encInt(args[1], 2)) {
				why = "another tag"
			}
			for i, f := range m.fields {
				a := simp(p.st, encField(x, p.st, f, args[2+i], ps[2+i]))
				b := simp(p.st, encField(x, p.st, f, p.rets[i], ps[2+i]))
				if a != b {
					why = fmt.Sprintf("%s comes back as %v, and not %v", f.name, p.rets[i], args[2+i])
				}
			}
			c.want(why == "", "roundtrip", p.pos, dec, "%s: %s", m.name, why)
		}
		c.want(acc > 0, "roundtrip", dec.Pos(), dec, "%s: nothing comes back", m.name)
	}
}

func checkDecodeRefuses(c *Ctx) {
	for _, r := range c.decoders() {
		nf := len(r.m.fields)
		n := mk("len", "", nil, r.src)
		for _, o := range r.outs {
			if !c.want(o.kind == outRet, "decode-safe", o.pos, r.fn, "%s: a path ends in a panic", r.m.name) {
				continue
			}
			err := o.rets[nf+1]
			if isNilT(err) {
				end, why := matchDecoded(r.x, o.st, r.src, mkInt(2), r.m.fields, o.rets[:nf], r.rs)
				if why != "" {
					// the fields are not what the layout says: C02; then this says nothing
					c.fail("decode-exact", o.pos, r.fn, "%s: the extent of what is accepted is not known: %s", r.m.name, why)
					continue
				}
				c.want(o.st.proves(mkLe(end, n)), "decode-exact", o.pos, r.fn, "%s: accepted though cut short: not shown that %v <= %v", r.m.name, end, n)
				c.want(o.st.proves(mkEqInt(end, n)), "decode-exact", o.pos, r.fn, "%s: accepted with bytes after its end: not shown that %v == %v", r.m.name, end, n)
				continue
			}
			if o.st.proves(mkLe(mkInt(2), n)) {
				c.want(simp(o.st, encInt(o.rets[nf], 2)) == simp(o.st, encInt(decInt(r.src, tZero, 2), 2)), "decode-tag", o.pos, r.fn, "%s: refused, but with tag %v", r.m.name, o.rets[nf])
			}
		}
		c.safety(r.x, "decode-safe", "exit", "make")
		c.allocs(r.x, r.outs, r.fn, n)
	}
	c.need("decode-exact", 2*len(messages))
	c.need("decode-safe", 60)
	c.need("decode-tag", len(messages)-4)
	c.dirDecode("", "", "decode-exact", "decode-safe")
}

// allocs: a decoder allocates no more than a multiple of what it was given.
func (c *Ctx) allocs(x *Exec, outs []Outcome, fn *ssa.Function, n *Term) {
	seen := map[token.Pos]bool{}
	for _, o := range outs {
		for _, e := range allEvents(o.st.events()) {
			if e.kind != "make" || seen[e.pos] {
				continue
			}
			size := e.args[1]
			ok := o.st.proves(mkLe(size, mkInt(1<<16))) || o.st.proves(mkLe(size, n))
			seen[e.pos] = ok
			c.want(ok, "decode-alloc", e.pos, fn, "allocates %v elements, which the input does not bound", size)
		}
	}
	for _, o := range x.obl {
		if o.kind == "make" {
			c.want(o.ok, "decode-alloc", o.pos, o.fn, "%s", o.desc)
		}
	}
}

// allEvents is the events with those inside loops.
func allEvents(es []*Event) []*Event {
	var r []*Event
	for _, e := range es {
		r = append(r, e)
		if e.loop != nil {
			for _, b := range e.loop.back {
				r = append(r, allEvents(b.events)...)
			}
		}
	}
	return r
}

// dirDecode checks the decoder of the stat record.
func (c *Ctx) dirDecode(value, accepts, exact, safe string) {
	fn := c.fn("protocol", "Unmarshaldir")
	if fn == nil {
		return
	}
	r := c.runDecoder(&message{name: "stat"}, fn)
	n := mk("len", "", nil, r.src)
	acc := 0
	for _, o := range r.outs {
		if o.kind != outRet {
			if safe != "" {
				c.fail(safe, o.pos, fn, "a path ends in a panic")
			}
			continue
		}
		vals, typs := dirFields(o.rets[0], r.rs[0])
		if isNilT(o.rets[1]) {
			acc++
			end, why := matchDecoded(r.x, o.st, r.src, mkInt(2), statFields, vals, typs)
			if value != "" {
				c.want(why == "", value, o.pos, fn, "stat record: %s", why)
			}
			if exact != "" && why == "" {
				c.want(o.st.proves(mkLe(end, n)), exact, o.pos, fn, "a stat record that is cut short is accepted")
			}
			continue
		}
		if accepts != "" {
			why := refutes(o.st, r.src, mkInt(2), statFields)
			c.want(why == "", accepts, o.pos, fn, "a stat record may be refused: %s", why)
		}
	}
	if value != "" {
		c.want(acc > 0, value, fn.Pos(), fn, "no path accepts a stat record")
	}
	if safe != "" {
		c.safety(r.x, safe, "exit", "make")
		c.allocs(r.x, r.outs, fn, n)
	}
}

func hasPrefix(s string, ps ...string) bool {
	for _, p := range ps {
		if strings.HasPrefix(s, p) {
			return true
		}
	}
	return false
}

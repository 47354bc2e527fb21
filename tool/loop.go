package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

type loopVar struct {
	name   string
	entry  *Term
	cur    *Term
	mode   int // 0 does not change, 1 steps by a constant, 2 anything, 3 a list appended to, 4 a list some turns append to
	step   int64
	list   *Term
	typ    types.Type
	phi    *ssa.Phi
	cell   *Term
	buf    *Term
	stream *Term
	next   []*Term
}

type loopCont struct {
	obj    *Term
	entry  *Term
	cur    *Term
	mode   int // 0 does not change, 1 grows at its end, 2 anything
	rep    *Term
	bodies []*Term
}

// A repInfo tells what a repeated piece of content consists of.
type repInfo struct {
	kappa  *Term
	bodies []*Term
	loop   *LoopInfo
}

var repTab = map[*Term]*repInfo{}

type loopWork struct {
	id       string
	kappa    *Term
	vars     map[string]*loopVar
	conts    map[*Term]*loopCont
	bufHavoc map[*Term]*Term
	objHavoc map[*Term]int
	maps     map[*Term]int
	vers     map[string]int
	invs     []lin
	startID  int
}

func (w *loopWork) isNew(t *Term) bool {
	return mentions(t, func(s *Term) bool {
		switch s.op {
		case "sym", "alloc", "mkmap", "mkchan":
			return s.id > w.startID
		}
		return false
	})
}

// unroll runs a loop that counts from one constant to another, a few turns
// away, turn by turn.
func (x *Exec) unroll(fr0 *Frame, st0 *State, l *natLoop, prev *ssa.BasicBlock, reg *natLoop) ([]Outcome, bool) {
	h := l.header
	br, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok || l.blocks[h.Succs[0]] == l.blocks[h.Succs[1]] {
		return nil, false
	}
	cmp, ok := br.Cond.(*ssa.BinOp)
	if !ok {
		return nil, false
	}
	counter := func(v ssa.Value) bool {
		if b, ok := v.(*ssa.BinOp); ok && b.Block() == h && (b.Op == token.ADD || b.Op == token.SUB) {
			if _, ok := b.Y.(*ssa.Const); ok {
				v = b.X
			}
		}
		if c, ok := v.(*ssa.Convert); ok {
			v = c.X
		}
		p, ok := v.(*ssa.Phi)
		if !ok || p.Block() != h {
			return false
		}
		for i, pr := range h.Preds {
			if pr == prev {
				_, c := x.val(fr0, p.Edges[i]).intVal()
				return c
			}
		}
		return false
	}
	if !counter(cmp.X) && !counter(cmp.Y) {
		return nil, false
	}
	oblMark, undecMark := len(x.obl), len(x.undec)
	only := &natLoop{header: h, blocks: map[*ssa.BasicBlock]bool{h: true}}
	type at struct {
		fr *Frame
		st *State
		pr *ssa.BasicBlock
	}
	work := []at{{fr0.clone(), st0.clone(), prev}}
	var exits []Outcome
	fail := func() ([]Outcome, bool) {
		x.obl, x.undec = x.obl[:oblMark], x.undec[:undecMark]
		return nil, false
	}
	for round := 0; len(work) > 0; round++ {
		if round > 18 || len(work)+len(exits) > 48 {
			return fail()
		}
		var next []at
		for _, w := range work {
			x.evalPhis(w.fr, h, w.pr)
			hs := x.execFrom(w.fr, w.st, h, firstNonPhi(h), only)
			if len(hs) != 1 || hs[0].kind != outEdge {
				return fail()
			}
			o := hs[0]
			if round == 0 {
				a, ok1 := x.val(o.fr, cmp.X).intVal()
				b, ok2 := x.val(o.fr, cmp.Y).intVal()
				if !ok1 || !ok2 || a-b > 17 || b-a > 17 {
					return fail()
				}
			}
			if !l.blocks[o.to] {
				exits = append(exits, o)
				continue
			}
			for _, b := range x.exec(o.fr, o.st, o.to, h, l) {
				if b.kind == outEdge && b.to == h {
					next = append(next, at{b.fr, b.st, b.from})
				} else {
					exits = append(exits, b)
				}
			}
		}
		work = next
	}
	var res []Outcome
	for _, o := range exits {
		if o.kind != outEdge {
			res = append(res, o)
			continue
		}
		res = append(res, x.exec(o.fr, o.st, o.to, o.from, reg)...)
	}
	return res, true
}

func (x *Exec) loop(fr0 *Frame, st0 *State, l *natLoop, prev *ssa.BasicBlock, reg *natLoop) []Outcome {
	if r, ok := x.unroll(fr0, st0, l, prev, reg); ok {
		return r
	}
	freshN++
	w := &loopWork{id: fmt.Sprintf("%s.%d@%d", fr0.fn.Name(), l.header.Index, freshN), vars: map[string]*loopVar{},
		conts: map[*Term]*loopCont{}, bufHavoc: map[*Term]*Term{}, objHavoc: map[*Term]int{}, maps: map[*Term]int{}, vers: map[string]int{}}
	w.startID = termCount
	w.kappa = mkApp("nonneg", types.Typ[types.Int], mkSym("κ:"+w.id, nil))

	// entry values of the phis
	ent := fr0.clone()
	x.evalPhis(ent, l.header, prev)
	var phis []*ssa.Phi
	for _, ins := range l.header.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
		e := ent.env[p]
		w.vars["phi:"+p.Name()] = &loopVar{name: "phi:" + p.Name(), entry: e, cur: e, typ: p.Type(), phi: p}
	}

	oblMark, undecMark := len(x.obl), len(x.undec)
	stable := false
	candsMade := false
	var outs []Outcome
	var li *LoopInfo
	for round := 0; ; round++ {
		if round > 24 {
			x.give("loop without a summary: " + w.id)
			break
		}
		x.obl = x.obl[:oblMark]
		x.undec = x.undec[:undecMark]
		fr, st := ent.clone(), st0.clone()
		li = &LoopInfo{id: w.id, kappa: w.kappa, pos: blockPos(l.header)}
		x.setHeader(fr, st, w)
		st.event(&Event{kind: "loop", name: w.id, pos: li.pos, fn: fr.fn, loop: li, stack: fr.stack})
		li.start = termCount
		head := st.clone()
		nf := len(st.facts)
		outs = x.execFrom(fr, st, l.header, firstNonPhi(l.header), l)
		var back []Outcome
		for _, o := range outs {
			if o.kind == outEdge && o.to == l.header {
				back = append(back, o)
			}
		}
		changed := x.compare(w, head, st0, back, phis, l)
		if !changed {
			if !candsMade {
				candsMade = true
				if x.makeCands(w, st0, head, back, nf) {
					continue
				}
			}
			// drop the candidates that are not preserved
			kept := w.invs[:0:0]
			for _, c := range w.invs {
				ok := true
				for i, o := range back {
					if !o.st.leq0(w.shift(c, i), 4) {
						ok = false
						break
					}
				}
				if ok {
					kept = append(kept, c)
				}
			}
			if len(kept) == len(w.invs) {
				stable = true
				li.back = nil
				for _, o := range back {
					li.back = append(li.back, loopPath{eventsAfter(o.st, li), o.st})
				}
				break
			}
			w.invs = kept
			continue
		}
		if candsMade {
			// the modes changed under the candidates: make them anew
			candsMade = false
			w.invs = nil
		}
	}
	if !stable {
		x.give("loop without a summary: " + w.id)
	}
	var vs []string
	for k := range w.vars {
		vs = append(vs, k)
	}
	sort.Strings(vs)
	for _, k := range vs {
		li.vars = append(li.vars, w.vars[k])
	}
	for _, o := range sortedConts(w.conts) {
		c := w.conts[o]
		li.conts = append(li.conts, c)
		if c.mode == 1 {
			repTab[c.rep] = &repInfo{kappa: w.kappa, bodies: c.bodies, loop: li}
		}
	}
	if stable {
		for _, v := range li.vars {
			x.elems(v, li)
		}
	}
	var res []Outcome
	for _, o := range outs {
		if o.kind != outEdge {
			res = append(res, o)
			continue
		}
		if o.to == l.header {
			continue
		}
		li.exits++
		res = append(res, x.exec(o.fr, o.st, o.to, o.from, reg)...)
	}
	return res
}

func sortedConts(m map[*Term]*loopCont) []*Term {
	var ks []*Term
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	return ks
}

func blockPos(b *ssa.BasicBlock) token.Pos {
	for _, i := range b.Instrs {
		if i.Pos().IsValid() {
			return i.Pos()
		}
	}
	for _, s := range b.Succs {
		for _, i := range s.Instrs {
			if i.Pos().IsValid() {
				return i.Pos()
			}
		}
	}
	return b.Parent().Pos()
}

func eventsAfter(st *State, li *LoopInfo) []*Event {
	var r []*Event
	for e := st.ev; e != nil && e.loop != li; e = e.prev {
		r = append(r, e)
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

// setHeader makes the state of an arbitrary iteration.
func (x *Exec) setHeader(fr *Frame, st *State, w *loopWork) {
	for o, n := range w.objHavoc {
		x.havocObj(st, o)
		st.havoc[o] = n
	}
	for p, c := range w.bufHavoc {
		x.setBuf(st, p, c)
	}
	for _, o := range sortedConts(w.conts) {
		c := w.conts[o]
		st.cont[o] = c.cur
	}
	for k, n := range w.vers {
		st.vers[k] += n
	}
	for m, n := range w.maps {
		st.mapver[m] += n
		delete(st.mapw, m)
	}
	var names []string
	for k := range w.vars {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		v := w.vars[k]
		if v.list != nil && (v.mode == 3 || v.mode == 4) {
			freshN++
			st.havoc[v.list] = freshN
			listTab[v.list].h = freshN
		}
		switch {
		case v.phi != nil:
			fr.env[v.phi] = v.cur
		case v.cell != nil:
			st.cells[v.cell] = v.cur
		case v.buf != nil:
			if b, ok := st.bufs[v.buf]; ok {
				b.head = v.cur
			}
		case v.stream != nil:
			st.streams[v.stream] = v.cur
		}
	}
	for _, c := range w.invs {
		st.addFact(mkLe0(c))
	}
	// what a counter holds is of its type
	for _, k := range names {
		v := w.vars[k]
		if v.mode != 1 || v.phi == nil && v.cell == nil {
			continue
		}
		if bits, signed, ok := intInfo(v.typ); ok && bits <= 32 {
			lo, hi := int64(0), int64(1)<<bits-1
			if signed {
				lo, hi = -(int64(1) << (bits - 1)), int64(1)<<(bits-1)-1
			}
			st.addFact(mkLe(mkInt(lo), v.cur))
			st.addFact(mkLe(v.cur, mkInt(hi)))
		}
	}
}

// shift gives a candidate in terms of the values after back edge i.
func (w *loopWork) shift(c lin, i int) lin {
	r := lin{k: c.k, m: map[*Term]int64{}}
	out := r
	for a, k := range c.m {
		t := a
		if a == w.kappa {
			t = addC(a, 1)
		} else {
			for _, v := range w.vars {
				if v.mode == 2 && v.cur == a && i < len(v.next) {
					t = v.next[i]
				}
			}
			for _, ct := range w.conts {
				if ct.mode == 1 && a.op == "len" && a.args[0] == ct.rep && i < len(ct.bodies) {
					t = addT(a, contentLen(ct.bodies[i]))
				}
			}
		}
		out = out.add(toLin(t), k)
	}
	return out
}

// atEntry gives a candidate in terms of the values on entry.
func (w *loopWork) atEntry(c lin) lin {
	out := lin{k: c.k, m: map[*Term]int64{}}
	for a, k := range c.m {
		t := a
		if a == w.kappa {
			t = tZero
		} else {
			for _, v := range w.vars {
				if v.mode == 2 && v.cur == a {
					t = v.entry
				}
			}
			for _, ct := range w.conts {
				if ct.mode == 1 && a.op == "len" && a.args[0] == ct.rep {
					t = tZero
				}
			}
		}
		out = out.add(toLin(t), k)
	}
	return out
}

func (x *Exec) makeCands(w *loopWork, st0, head *State, back []Outcome, nf int) bool {
	var cands []lin
	one := toLin(tOne)
	add := func(l lin) { cands = append(cands, l) }
	type iv struct{ cur, entry *Term }
	var ints []iv
	for _, v := range w.vars {
		if v.mode != 2 {
			continue
		}
		if _, _, ok := intInfo(v.typ); !ok {
			continue
		}
		ints = append(ints, iv{v.cur, v.entry})
		add(toLin(v.entry).add(toLin(v.cur), -1)) // entry <= v
		add(toLin(v.cur).add(toLin(v.entry), -1)) // v <= entry
		add(toLin(tZero).add(toLin(v.cur), -1))   // 0 <= v
		if v.buf != nil {
			if b, ok := head.bufs[v.buf]; ok {
				add(toLin(v.cur).add(toLin(contentLen(head.contOf(b.obj, nil))), -1))
			}
		}
	}
	for _, c := range w.conts {
		if c.mode == 1 {
			ints = append(ints, iv{mk("len", "", nil, c.rep), tZero})
		}
	}
	sort.Slice(ints, func(i, j int) bool { return ints[i].cur.id < ints[j].cur.id })
	for i := range ints {
		for j := range ints {
			if i != j {
				d := toLin(ints[i].cur).add(toLin(ints[i].entry), -1).add(toLin(ints[j].cur), -1).add(toLin(ints[j].entry), 1)
				add(d)
			}
		}
	}
	// what the back edges say, one iteration later
	for _, o := range back {
		for _, f := range o.st.facts[nf:] {
			var ls []lin
			switch f.op {
			case "le0":
				ls = []lin{toLin(f.args[0])}
			case "eq0":
				ls = []lin{toLin(f.args[0]), toLin(f.args[0]).neg()}
			}
			for _, l := range ls {
				ok := l.m[w.kappa] != 0
				for a := range l.m {
					if a != w.kappa && w.isNew(a) {
						ok = false
					}
				}
				if !ok {
					continue
				}
				c := l.m[w.kappa]
				// kappa-1 for kappa
				add(l.add(one, -c))
				// and the same bound for kappa itself: holds at the header when it guards the exit elsewhere
			}
		}
		break
	}
	// free integers: bounds that hold after each iteration
	for _, v := range w.vars {
		if v.mode != 2 || len(v.next) == 0 {
			continue
		}
		if _, _, ok := intInfo(v.typ); !ok {
			continue
		}
		nx := toLin(v.next[0])
		if kc := nx.m[w.kappa]; kc == 1 && nx.m[v.cur] == 0 {
			// it has the value of the iteration before: next[kappa-1]
			lag := nx.add(one, -1)
			add(lag.add(toLin(v.cur), -1))
			add(toLin(v.cur).add(lag, -1))
			// facts about kappa hold for the value kappa stands for
			rest := nx.add(toLin(w.kappa), -1) // nx = kappa + rest
			for _, f := range back[0].st.facts[nf:] {
				if f.op != "le0" {
					continue
				}
				l := toLin(f.args[0])
				c := l.m[w.kappa]
				if c == 0 {
					continue
				}
				add(l.add(toLin(w.kappa), -c).add(toLin(v.cur), c).add(rest, -c))
			}
		}
		for _, o := range back[:1] {
			for _, f := range o.st.facts[nf:] {
				if f.op != "le0" {
					continue
				}
				l := toLin(f.args[0])
				// l = c*next + rest, up to a constant: candidate c*cur + rest
				if c := l.m[v.cur]; c == 1 || c == -1 {
					// nx = cur + d?
					d := nx.add(toLin(v.cur), -1)
					if len(d.m) == 0 {
						add(l.add(d, -c))
					}
				}
			}
		}
	}
	// constants an iteration leaves a free integer with
	for _, v := range w.vars {
		if v.mode != 2 {
			continue
		}
		if _, _, ok := intInfo(v.typ); !ok {
			continue
		}
		for _, n := range v.next {
			if n == nil {
				continue
			}
			if _, ok := n.intVal(); ok {
				add(toLin(v.cur).add(toLin(n), -1)) // v <= n
				add(toLin(n).add(toLin(v.cur), -1)) // n <= v
			}
		}
	}
	// drop those that do not hold on entry
	seen := map[*Term]bool{}
	for _, c := range cands {
		t := c.term()
		if t.op == "int" || seen[t] {
			continue
		}
		seen[t] = true
		if st0.leq0(w.atEntry(c), 4) {
			w.invs = append(w.invs, c)
		}
	}
	return len(w.invs) > 0
}

// compare finds what an iteration changed; true if the summary has to be weakened.
func (x *Exec) compare(w *loopWork, head, st0 *State, back []Outcome, phis []*ssa.Phi, l *natLoop) bool {
	changed := false
	widen := func(v *loopVar, nexts []*Term) {
		v.next = nexts
		_, _, isInt := intInfo(v.typ)
		if v.buf != nil || v.stream != nil {
			isInt = true
		}
		switch v.mode {
		case 0:
			same := true
			for _, n := range nexts {
				if n != v.cur {
					same = false
				}
			}
			if same {
				return
			}
			changed = true
			if isInt && len(nexts) > 0 {
				d := subT(nexts[0], v.cur)
				c, ok := d.intVal()
				for _, n := range nexts {
					if subT(n, v.cur) != d {
						ok = false
					}
				}
				if ok && c != 0 {
					v.mode, v.step = 1, c
					v.cur = addT(v.entry, mulC(w.kappa, c))
					return
				}
			}
			if k, ok := appendsTo(v, nexts); ok {
				v.mode, v.step = 3, k
				freshN++
				v.list = mk("alloc", fmt.Sprintf("list:%s#%d", w.id, freshN), v.typ)
				listTab[v.list] = &listInfo{mayNil: isNilT(v.entry)}
				_, _, n0, _ := sliceParts(v.entry)
				v.cur = mk("slice", "", v.typ, v.list, tZero, addT(n0, mulC(w.kappa, k)), mk("cap", "", nil, mkSym(fmt.Sprintf("list#%d", freshN), nil)))
				return
			}
			if appendsSome(v, nexts) {
				v.mode = 4
				freshN++
				v.list = mk("alloc", fmt.Sprintf("list:%s#%d", w.id, freshN), v.typ)
				listTab[v.list] = &listInfo{mayNil: isNilT(v.entry)}
				v.cur = mk("slice", "", v.typ, v.list, tZero, x.nonneg("list"), mk("cap", "", nil, mkSym(fmt.Sprintf("list#%d", freshN), nil)))
				return
			}
			x.free(v, w)
		case 4:
			_, _, n, _ := sliceParts(v.cur)
			for _, nx := range nexts {
				o, off, m, _ := sliceParts(nx)
				if d, ok := subT(m, n).intVal(); !ok || o != v.list || off != tZero || d < 0 {
					changed = true
					x.free(v, w)
					return
				}
			}
		case 3:
			_, _, n, _ := sliceParts(v.cur)
			for _, nx := range nexts {
				o, off, m, _ := sliceParts(nx)
				if o != v.list || off != tZero || m != addC(n, v.step) {
					changed = true
					x.free(v, w)
					return
				}
			}
		case 1:
			for _, n := range nexts {
				if c, ok := subT(n, v.cur).intVal(); !ok || c != v.step {
					changed = true
					x.free(v, w)
					return
				}
			}
		}
	}
	for _, p := range phis {
		var nexts []*Term
		for _, o := range back {
			for i, pr := range l.header.Preds {
				if pr == o.from {
					nexts = append(nexts, x.val(o.fr, p.Edges[i]))
					break
				}
			}
		}
		widen(w.vars["phi:"+p.Name()], nexts)
	}
	// cells
	cells := map[*Term]bool{}
	for _, o := range back {
		for c := range o.st.cells {
			cells[c] = true
		}
	}
	for c := range head.cells {
		cells[c] = true
	}
	var cl []*Term
	for c := range cells {
		cl = append(cl, c)
	}
	sort.Slice(cl, func(i, j int) bool { return cl[i].id < cl[j].id })
	for _, c := range cl {
		if w.isNew(c) {
			// an element of an object that was there before?
			root := rootOf(c)
			if w.isNew(root) {
				continue
			}
			for a := c; a.op == "faddr" || a.op == "elem"; a = a.args[0] {
				if a.op == "elem" && !w.isNew(a.args[0]) && w.isNew(a.args[1]) {
					if _, ok := w.objHavoc[a.args[0]]; !ok {
						freshN++
						w.objHavoc[a.args[0]] = freshN
						if a.args[0].op == "alloc" && untouched(st0, a.args[0]) {
							fillTab[freshN] = w.kappa
							// what the first turn, not yet any turn, seemed to store in one element
							for k, v := range w.vars {
								if v.cell != nil && rootOf(v.cell) == a.args[0] {
									delete(w.vars, k)
								}
							}
						}
						changed = true
					}
				}
			}
			continue
		}
		t := cellType(c, head, back)
		v := w.vars["cell:"+fmt.Sprint(c.id)]
		hv, inHead := head.cells[c]
		var nexts []*Term
		diff := false
		for _, o := range back {
			bv, ok := o.st.cells[c]
			if !ok {
				if inHead {
					// forgotten meanwhile
					ht := typeOfTerm(hv)
					if ht == nil {
						ht = t
					}
					bv = o.st.deflt(c, ht)
				} else {
					bv = nil
				}
			}
			nexts = append(nexts, bv)
			if bv != hv {
				diff = true
			}
		}
		if v == nil {
			if !diff {
				continue
			}
			e, ok := st0.cells[c]
			if !ok {
				e = st0.deflt(c, t)
			}
			for i := range nexts {
				if nexts[i] == nil {
					nexts[i] = e
				}
			}
			v = &loopVar{name: "cell:" + c.String(), entry: e, cur: e, typ: t, cell: c}
			w.vars["cell:"+fmt.Sprint(c.id)] = v
			all := true
			for _, n := range nexts {
				if n != e {
					all = false
				}
			}
			if all {
				// only loaded
				delete(w.vars, "cell:"+fmt.Sprint(c.id))
				continue
			}
		}
		widen(v, nexts)
	}
	for ob, h := range w.objHavoc {
		if fillTab[h] != nil && head.havoc[ob] == h && !w.fills(ob, h, back) {
			delete(fillTab, h)
			changed = true
		}
	}
	// versions of fields and maps
	for _, o := range back {
		for k, n := range o.st.vers {
			if n != head.vers[k] && w.vers[k] == 0 {
				freshN++
				w.vers[k] = 100000 * freshN
				changed = true
			}
		}
		for m, n := range o.st.mapver {
			if n != head.mapver[m] && w.maps[m] == 0 && !w.isNew(m) {
				freshN++
				w.maps[m] = 10000 * freshN
				changed = true
			}
		}
	}
	// buffers
	for _, o := range back {
		for p, b := range o.st.bufs {
			if w.isNew(p) {
				continue
			}
			hb, ok := head.bufs[p]
			if !ok || hb.obj != b.obj {
				if _, done := w.bufHavoc[p]; !done {
					freshN++
					w.bufHavoc[p] = mkSym(fmt.Sprintf("loopbuf:%s#%d", w.id, freshN), nil)
					changed = true
				}
			}
		}
	}
	for p, hb := range head.bufs {
		if w.isNew(p) || w.bufHavoc[p] != nil {
			continue
		}
		var nexts []*Term
		for _, o := range back {
			nexts = append(nexts, o.st.bufs[p].head)
		}
		k := "head:" + fmt.Sprint(p.id)
		v := w.vars[k]
		if v == nil {
			same := true
			for _, n := range nexts {
				if n != hb.head {
					same = false
				}
			}
			if same {
				continue
			}
			v = &loopVar{name: "head:" + p.String(), entry: hb.head, cur: hb.head, typ: types.Typ[types.Int], buf: p}
			w.vars[k] = v
		}
		widen(v, nexts)
	}
	// streams
	strs := map[*Term]bool{}
	for _, o := range back {
		for r := range o.st.streams {
			strs[r] = true
		}
	}
	var sl []*Term
	for r := range strs {
		sl = append(sl, r)
	}
	sort.Slice(sl, func(i, j int) bool { return sl[i].id < sl[j].id })
	for _, r := range sl {
		if w.isNew(r) {
			continue
		}
		hc, ok := head.streams[r]
		if !ok {
			hc = tZero
		}
		var nexts []*Term
		for _, o := range back {
			n, ok := o.st.streams[r]
			if !ok {
				n = tZero
			}
			nexts = append(nexts, n)
		}
		k := "stream:" + fmt.Sprint(r.id)
		v := w.vars[k]
		if v == nil {
			same := true
			for _, n := range nexts {
				if n != hc {
					same = false
				}
			}
			if same {
				continue
			}
			v = &loopVar{name: "stream:" + r.String(), entry: hc, cur: hc, typ: types.Typ[types.Int], stream: r}
			w.vars[k] = v
		}
		widen(v, nexts)
	}
	// contents
	objs := map[*Term]bool{}
	for o := range head.cont {
		objs[o] = true
	}
	for _, o := range back {
		for c := range o.st.cont {
			objs[c] = true
		}
	}
	var ol []*Term
	for o := range objs {
		ol = append(ol, o)
	}
	sort.Slice(ol, func(i, j int) bool { return ol[i].id < ol[j].id })
	for _, ob := range ol {
		if w.isNew(ob) {
			continue
		}
		if _, ok := w.objHavoc[ob]; ok {
			continue
		}
		hc := head.contOf(ob, nil)
		c := w.conts[ob]
		diff := false
		var nexts []*Term
		for _, o := range back {
			n := o.st.contOf(ob, nil)
			nexts = append(nexts, n)
			if n != hc {
				diff = true
			}
		}
		if !diff {
			if c != nil && c.mode == 1 {
				c.bodies = nil
				for range nexts {
					c.bodies = append(c.bodies, mkStr(""))
				}
			}
			continue
		}
		if c == nil {
			c = &loopCont{obj: ob, entry: hc, cur: hc}
			w.conts[ob] = c
		}
		if c.mode < 2 {
			var bodies []*Term
			grow := true
			for _, n := range nexts {
				b := suffixAfter(n, hc)
				if b == nil {
					grow = false
					break
				}
				bodies = append(bodies, b)
			}
			if grow {
				c.bodies = bodies
				if c.mode == 0 {
					c.mode = 1
					freshN++
					c.rep = mkSym(fmt.Sprintf("rep:%s#%d", w.id, freshN), nil)
					c.cur = mkCat(c.entry, c.rep)
					changed = true
				}
				continue
			}
			c.mode = 2
			freshN++
			u := mkSym(fmt.Sprintf("loopbytes:%s#%d", w.id, freshN), nil)
			c.cur = u
			sameLen := true
			n0 := contentLen(c.entry)
			for i, n := range nexts {
				if !back[i].st.proves(mkEqInt(contentLen(n), contentLen(hc))) {
					sameLen = false
				}
			}
			if sameLen {
				c.cur = mkSub(u, tZero, n0)
			}
			changed = true
		}
	}
	// locks
	for _, o := range back {
		if !sameLocks(o.st.locks, head.locks) {
			x.obl = append(x.obl, &Obligation{kind: "lock", pos: blockPos(l.header), fn: l.header.Parent(), ok: false, desc: "an iteration leaves with other locks held than it began with", root: x.root.String()})
		}
	}
	return changed
}

// fillTab: turn k of a loop is the first to store in element k of an array
// that was zero before the loop; the array's memory in the loop to k.
var fillTab = map[int]*Term{}

func untouched(st *State, obj *Term) bool {
	if st.havoc[obj] != 0 || st.cont[obj] != nil {
		return false
	}
	for c := range st.cells {
		if rootOf(c) == obj {
			return false
		}
	}
	return true
}

// fills: the turns store in the array nowhere but at their own index.
func (w *loopWork) fills(obj *Term, h int, back []Outcome) bool {
	for _, o := range back {
		if o.st.havoc[obj] != h {
			return false
		}
		for c := range o.st.cells {
			if rootOf(c) != obj {
				continue
			}
			for a := c; a != obj; a = a.args[0] {
				if a.args[0] == obj && (a.op != "elem" || a.args[1] != w.kappa) {
					return false
				}
			}
		}
	}
	return true
}

func sameLocks(a, b map[*Term]string) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if b[k] != v {
			return false
		}
	}
	return true
}

// suffixAfter: n is h with something added at its end.
func suffixAfter(n, h *Term) *Term {
	pn, ph := pieces(n), pieces(h)
	if len(pn) < len(ph) {
		return nil
	}
	for i := range ph {
		if pn[i] == ph[i] {
			continue
		}
		// constants run together
		if i == len(ph)-1 && ph[i].op == "str" && pn[i].op == "str" && len(pn[i].s) > len(ph[i].s) && pn[i].s[:len(ph[i].s)] == ph[i].s {
			return mkCat(append([]*Term{mkStr(pn[i].s[len(ph[i].s):])}, pn[i+1:]...)...)
		}
		return nil
	}
	return mkCat(pn[len(ph):]...)
}

// appendsTo: each turn appends the same number of elements to the list.
func appendsTo(v *loopVar, nexts []*Term) (int64, bool) {
	sl, ok := types.Type(nil), false
	if v.typ != nil {
		sl = v.typ.Underlying()
	}
	s, ok := sl.(*types.Slice)
	if !ok || isByteType(s.Elem()) || len(nexts) == 0 {
		return 0, false
	}
	_, _, n, _ := sliceParts(v.cur)
	k := int64(-1)
	for _, nx := range nexts {
		if nx == nil {
			return 0, false
		}
		o, off, m, _ := sliceParts(nx)
		if appendedTab[o] != v.cur || off != tZero {
			return 0, false
		}
		d, ok := subT(m, n).intVal()
		if !ok || d < 1 || k >= 0 && d != k {
			return 0, false
		}
		k = d
	}
	return k, true
}

// appendsSome: some turns append elements to the list and others leave it.
func appendsSome(v *loopVar, nexts []*Term) bool {
	if v.typ == nil {
		return false
	}
	s, ok := v.typ.Underlying().(*types.Slice)
	if !ok || isByteType(s.Elem()) {
		return false
	}
	_, _, n, _ := sliceParts(v.cur)
	some := false
	for _, nx := range nexts {
		if nx == v.cur {
			continue
		}
		if nx == nil {
			return false
		}
		o, off, m, _ := sliceParts(nx)
		d, ok := subT(m, n).intVal()
		if appendedTab[o] != v.cur || off != tZero || !ok || d < 1 {
			return false
		}
		some = true
	}
	return some
}

// elems finds what the turns of a loop that starts with an empty list put in it.
func (x *Exec) elems(v *loopVar, li *LoopInfo) {
	if v.mode != 3 && v.mode != 4 {
		return
	}
	l := listTab[v.list]
	if _, _, n0, _ := sliceParts(v.entry); !isNilT(v.entry) && n0 != tZero {
		return
	}
	_, _, n, _ := sliceParts(v.cur)
	et := v.typ.Underlying().(*types.Slice).Elem()
	l.nonNil, l.taken = true, true
	for i, b := range li.back {
		if i >= len(v.next) || b.st.havoc[v.list] != l.h {
			l.nonNil, l.taken, l.vals = false, false, nil
			return
		}
		_, _, m, _ := sliceParts(v.next[i])
		d, _ := subT(m, n).intVal()
		at := map[*Term]bool{}
		var vals []*Term
		for k := int64(0); k < d; k++ {
			a := mkElem(v.list, addC(n, k))
			at[a] = true
			e := b.st.load(a, et)
			vals = append(vals, e)
			if !nonNilTerm(e) && !b.st.proves(notT(mkEq(e, mkNil(nil), nil))) {
				l.nonNil = false
				if x.mayBeNil(b.st, e) {
					l.taken = false
				}
			}
		}
		for c := range b.st.cells {
			if rootOf(c) == v.list && !at[c] {
				l.nonNil, l.taken, l.vals = false, false, nil
				return
			}
		}
		l.vals = append(l.vals, vals)
	}
	l.loop = li
}

func (x *Exec) free(v *loopVar, w *loopWork) {
	v.mode = 2
	freshN++
	t := v.typ
	s := mkSym(fmt.Sprintf("φ:%s:%s#%d", w.id, v.name, freshN), t)
	v.cur = s
	if t != nil {
		v.cur = expand(s, t)
	}
}

func cellType(c *Term, head *State, back []Outcome) types.Type {
	if v, ok := head.cells[c]; ok {
		if t := typeOfTerm(v); t != nil {
			return t
		}
	}
	for _, o := range back {
		if v, ok := o.st.cells[c]; ok {
			if t := typeOfTerm(v); t != nil {
				return t
			}
		}
	}
	return declaredType(c)
}

// declaredType is the type of a variable, or of a field of one.
func declaredType(c *Term) types.Type {
	switch c.op {
	case "alloc":
		if c.t != nil {
			if p, ok := c.t.Underlying().(*types.Pointer); ok {
				return p.Elem()
			}
		}
	case "faddr":
		if t := declaredType(c.args[0]); t != nil {
			if st, ok := t.Underlying().(*types.Struct); ok {
				for i := 0; i < st.NumFields(); i++ {
					if st.Field(i).Name() == c.s {
						return st.Field(i).Type()
					}
				}
			}
		}
	}
	return nil
}

func typeOfTerm(t *Term) types.Type {
	if t == nil {
		return nil
	}
	switch t.op {
	case "int", "lin", "bits", "len", "cap", "in", "sgn":
		return types.Typ[types.Int]
	case "bool", "eq", "eq0", "le0", "not":
		return types.Typ[types.Bool]
	case "str", "sub", "cat":
		return types.Typ[types.String]
	}
	return t.t
}

package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// clientRun is the analysis of one goroutine of a client, or of one of its methods.
type clientRun struct {
	fn   *ssa.Function
	x    *Exec
	outs []Outcome
}

type clientSys struct {
	cl    *Term // the client in the runs
	t     types.Type
	nw    *clientRun
	gos   []*clientRun
	calls map[string]*clientRun
	meths []*clientRun // the other methods
	mark  int
}

// isField: v is the value of the field of the object.
func isField(v, obj *Term, name string) bool {
	return v.op == "ld" && v.args[0].op == "faddr" && v.args[0].s == name && v.args[0].args[0] == obj
}

func fieldOf(v, obj *Term) string {
	if v.op == "ld" && v.args[0].op == "faddr" && v.args[0].args[0] == obj {
		return v.args[0].s
	}
	return ""
}

// client analyses what NewClient starts, and the client's methods. The
// goroutines are run on a client about which nothing is known but that it is one.
func (c *Ctx) client() *clientSys {
	nw := c.fn("protocol", "NewClient")
	ct := c.pr.NamedType("protocol", "Client")
	if nw == nil || ct == nil {
		return nil
	}
	s := ct.Underlying().(*types.Struct)
	have := map[string]bool{}
	for i := 0; i < s.NumFields(); i++ {
		have[s.Field(i).Name()] = true
	}
	for _, f := range []string{"Tags", "RPC", "ToNet", "FromNet", "FromClient", "FromServer", "Dead"} {
		if !have[f] {
			c.fail("anchor", nw.Pos(), nw, "a client has no %s", f)
			return nil
		}
	}
	sys := &clientSys{cl: mkSym("nn:c", types.NewPointer(ct)), t: ct, calls: map[string]*clientRun{}}
	x := newExec(c.pr)
	sys.nw = &clientRun{nw, x, c.runFn(x, nw, newState(), params(nw), nil)}
	seen := map[*ssa.Function]bool{}
	n := 0
	for _, o := range sys.nw.outs {
		if o.kind != outRet || len(o.rets) != 2 || !isNilT(o.rets[1]) {
			for _, e := range allEvents(o.st.events()) {
				if e.kind == "go" {
					c.fail("setup", e.pos, nw, "a goroutine is started for a client that is not returned")
				}
			}
			continue
		}
		n++
		cl := o.rets[0]
		if !c.want(cl.op == "alloc", "setup", o.pos, nw, "the client is not made by this call: %v", cl) {
			continue
		}
		c.spawned(sys, o.st.events(), cl, seen, nw)
	}
	c.want(n > 0, "setup", nw.Pos(), nw, "no path makes a client")
	for i := range messages {
		m := &messages[i]
		if m.name[0] != 'T' {
			continue
		}
		if fn := c.method("protocol", "Client", "Call"+m.name); fn != nil {
			x := newExec(c.pr)
			args := params(fn)
			args[0] = sys.cl
			sys.calls[m.name] = &clientRun{fn, x, c.runFn(x, fn, newState(), args, nil)}
			seen[fn] = true
		}
	}
	for _, fn := range c.pr.All {
		if recv := fn.Signature.Recv(); recv == nil || seen[fn] || fn.Object() == nil || !fn.Object().Exported() || !types.Identical(recv.Type(), sys.cl.t) {
			continue
		}
		x := newExec(c.pr)
		args := params(fn)
		args[0] = sys.cl
		sys.meths = append(sys.meths, &clientRun{fn, x, c.runFn(x, fn, newState(), args, nil)})
	}
	return sys
}

// spawned runs the goroutines started on a path.
func (c *Ctx) spawned(sys *clientSys, es []*Event, cl *Term, seen map[*ssa.Function]bool, by *ssa.Function) {
	top := map[*Event]bool{}
	for _, e := range es {
		top[e] = true
	}
	for _, e := range allEvents(es) {
		if e.kind != "go" {
			continue
		}
		if !top[e] {
			c.fail("setup", e.pos, by, "a goroutine is started over and over")
			continue
		}
		fn, args, free, from := goFn(e)
		if fn == nil {
			c.fail("undecided", e.pos, by, "not known which function this starts")
			continue
		}
		if seen[fn] {
			continue
		}
		seen[fn] = true
		ok := true
		rep := func(t *Term) *Term {
			if t == cl {
				return sys.cl
			}
			if cl != sys.cl && mentions(t, func(u *Term) bool { return u == cl }) {
				ok = false
			}
			return t
		}
		st := newState()
		for a, v := range from.cells {
			if r := rootOf(a); r.op == "alloc" && r != cl {
				if _, isf := a, true; isf {
					o := ok
					nv := rep(v)
					if !ok && o { // refers to the client in some other way: not known
						ok = o
						nv = nil
					}
					if nv != nil {
						st.cells[a] = nv
					}
				}
			}
		}
		var as, fs []*Term
		for _, a := range args {
			as = append(as, rep(a))
		}
		for _, a := range free {
			fs = append(fs, rep(a))
		}
		if !ok {
			c.fail("undecided", e.pos, by, "not known what the goroutine is given")
			continue
		}
		x := newExec(c.pr)
		r := &clientRun{fn, x, c.runFn(x, fn, st, as, fs)}
		sys.gos = append(sys.gos, r)
		for _, o := range r.outs {
			c.spawned(sys, o.st.events(), sys.cl, seen, fn)
		}
	}
}

// bytesField is the value and the content of the []byte field of what p points to.
func bytesField(x *Exec, st *State, p *Term) (val, content *Term) {
	t := typeOfTerm(p)
	if t == nil {
		return nil, nil
	}
	s, _ := derefStruct(t)
	if s == nil {
		return nil, nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if sl, ok := s.Field(i).Type().Underlying().(*types.Slice); ok && isByteType(sl.Elem()) {
			v := st.load(mk("faddr", s.Field(i).Name(), nil, p), s.Field(i).Type())
			return v, x.bytesOf(st, v)
		}
	}
	return nil, nil
}

// chanField is the value of the channel field of what p points to.
func chanField(st *State, p *Term) *Term {
	t := typeOfTerm(p)
	if t == nil {
		return nil
	}
	s, _ := derefStruct(t)
	if s == nil {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if _, ok := s.Field(i).Type().Underlying().(*types.Chan); ok {
			return st.load(mk("faddr", s.Field(i).Name(), nil, p), s.Field(i).Type())
		}
	}
	return nil
}

// slotStore: the event stores to the table of outstanding calls.
func slotStore(e *Event, cl *Term) (idx, val *Term, ok bool) {
	if e.kind != "store" || e.args[0].op != "elem" {
		return nil, nil, false
	}
	o := e.args[0].args[0]
	if o.op == "ptr" && isField(o.args[0], cl, "RPC") {
		return e.args[0].args[1], e.args[1], true
	}
	return nil, nil, false
}

func init() {
	register(&Check{id: "C07", title: "outstanding calls have tags of their own and replies go to them",
		rules: "pool: the pool of tags is filled once with 1..65534, each once, into a channel with room for all; assign: each message written to the server has in its tag bytes a tag taken from the pool on that turn, is otherwise the request as it was handed over, and its call is entered under that tag, in the lock, before the write; return: a tag goes back to the pool only on a turn that has received a reply with it and, before that, found and removed the call entered under it; deliver: that call's channel gets that reply, unchanged, once; drop: a reply is dropped only on a path on which its tag is out of range or no call is entered under it; only: nothing else stores to the table of calls or sends on the pool",
		not:   []string{"tags a user takes with GetTag, which do not come back"},
		run:   checkTags})
	register(&Check{id: "C08", title: "a call sends its request and returns what the reply says",
		rules: "request: the one message a call hands over is its arguments encoded as the manual has them; result: a path returns no error only if the reply is of the type that answers the request, and its values are the reply's fields; error-text: on a path with an Rerror the error is made from its text; refuse: a path that returns another error has no reply, or one of another type, or a malformed one",
		run:   checkCalls})
	register(&Check{id: "C09", title: "nothing a server does crashes or hangs a client",
		rules: "safe: every index, slice, nil access, channel close and type assertion in the client's goroutines and calls is shown to be safe for every message, given the channel invariants; invariant: every send keeps the channel invariants (messages have a whole header, tags are in range); frame: each message passed on is exactly the bytes its size says, for any split of the stream; ends: a goroutine that reads or writes the connection ends only after a failed read or write, a bad size or the client's death, and whenever it ends the client is dead; wakes: each wait of a call is a choice that includes the channel closed by that death, and the reply channel has room; unlocked: nothing is waited for with a lock held, and no path keeps one; once: channels are closed once; made: the channels the client uses are made before the goroutines that use them start",
		not:   []string{"a connection whose Write or Read never returns", "options that set the channels of a client"},
		run:   checkClientAlive})
	register(&Check{id: "C26", title: "fids from a client are unique",
		rules: "atomic: what GetFID returns is the result of one atomic addition of 1 to the counter; only: nothing else stores to the counter once the client is made, and it starts at 1",
		run:   checkFIDs})
}

func (sys *clientSys) all() []*clientRun {
	rs := append([]*clientRun{}, sys.gos...)
	for _, m := range messages {
		if r := sys.calls[m.name]; r != nil {
			rs = append(rs, r)
		}
	}
	return append(rs, sys.meths...)
}

func checkTags(c *Ctx) {
	sys := c.client()
	if sys == nil {
		return
	}
	cl := sys.cl
	c.pool(sys)
	for _, r := range sys.all() {
		var its []iteration
		loops, flat := turns(r.outs)
		its = append(its, loops...)
		for _, o := range flat {
			its = append(its, iteration{o.st.events(), o.st, true, o, 0})
		}
		for _, it := range its {
			c.tagTurn(sys, r, it)
		}
		// before the loops
		for _, o := range r.outs {
			for _, e := range o.st.events() {
				if e.loop != nil {
					break
				}
				if _, _, ok := slotStore(e, cl); ok && len(loops) > 0 {
					c.fail("only", e.pos, r.fn, "stores to the table of calls")
				}
				if e.kind == "send" && isField(e.args[0], cl, "Tags") && len(loops) > 0 {
					c.fail("only", e.pos, r.fn, "sends on the pool of tags")
				}
			}
		}
		for _, o := range r.outs {
			for _, e := range allEvents(o.st.events()) {
				if e.kind == "store" && e.args[0].op == "faddr" && e.args[0].args[0] == cl {
					switch e.args[0].s {
					case "Tags", "RPC", "ToNet", "FromNet", "FromClient", "FromServer":
						c.fail("only", e.pos, r.fn, "replaces the client's %s", e.args[0].s)
					}
				}
			}
		}
	}
	c.need("assign", 3)
	c.need("return", 1)
	c.need("deliver", 2)
	c.need("drop", 2)
}

// heldIn: the variable has the value at the end, or before a loop that may change it.
func heldIn(st *State, cell, val *Term) bool {
	for _, e := range st.events() {
		if e.loop == nil {
			continue
		}
		for _, v := range e.loop.vars {
			if v.cell == cell && v.entry == val {
				return true
			}
		}
	}
	return st.load(cell, val.t) == val
}

// madeSince: the slice is of memory made after what was received.
func madeSince(v *Term, got []*Term) bool {
	num := func(t *Term) int {
		i, n := strings.LastIndex(t.s, "#"), 0
		if i < 0 {
			return 0
		}
		fmt.Sscan(t.s[i+1:], &n)
		return n
	}
	o, off, _, _ := sliceParts(v)
	if o.op != "alloc" || off != tZero || len(got) == 0 || strings.HasPrefix(o.s, "append#") {
		return false // what is appended may be put where it was the last time
	}
	n := 0
	mentions(got[0], func(t *Term) bool {
		n = max(n, num(t))
		return false
	})
	return n > 0 && num(o) > n
}

// fellShort: a copy up to a limit met the end of the stream before it.
func fellShort(st *State, e *Event) bool {
	return e.kind == "netread" && e.name == "limited" && st.proves(mkLt(e.args[3], e.args[2]))
}

func (c *Ctx) pool(sys *clientSys) {
	nw := sys.nw.fn
	for _, o := range sys.nw.outs {
		if o.kind != outRet || !isNilT(o.rets[1]) {
			continue
		}
		cl := o.rets[0]
		var ch *Term
		var fill, tail *Event
		straight := map[*Event]bool{}
		for _, e := range o.st.events() {
			straight[e] = true
		}
		for _, e := range allEvents(o.st.events()) {
			if e.kind != "send" {
				continue
			}
			t := e.args[0]
			if el, ok := chanElemType(t, e); !ok || !isTag(el) {
				continue
			}
			if fill != nil && ch == t && straight[e] && tail == nil {
				// what the last turn of a loop does that tests at its end
				tail = e
				continue
			}
			ch = t
			c.want(fill == nil, "pool", e.pos, nw, "tags are put into the pool in two places")
			fill = e
		}
		if !c.want(fill != nil, "pool", o.pos, nw, "no tags are put into the pool") {
			continue
		}
		// in a loop, once a turn, the number of the turn
		ok := false
		for _, e := range o.st.events() {
			if e.loop == nil {
				continue
			}
			for _, b := range e.loop.back {
				for _, be := range b.events {
					if be == fill {
						ok = true
						d := subT(be.args[1], e.loop.kappa)
						k, isC := d.intVal()
						c.want(isC && k == 1 && len(e.loop.back) == 1, "pool", be.pos, nw, "the tags put into the pool are not 1, 2, 3, ...: %v", be.args[1])
						turns := e.loop.kappa
						if tail != nil {
							turns = addC(turns, 1)
							c.want(o.st.proves(mkEqInt(tail.args[1], turns)), "pool", tail.pos, nw, "the last tag put into the pool is not the one after those before: %v", tail.args[1])
						}
						c.want(o.st.proves(mkEqInt(turns, mkInt(65534))), "pool", be.pos, nw, "not all of the tags 1 to 65534 are put into the pool, or more")
						room := tZero
						if ch.op == "mkchan" && len(ch.args) == 1 {
							room = ch.args[0]
						}
						c.want(o.st.proves(mkLe(mkInt(65534), room)), "pool", be.pos, nw, "the pool has no room for all tags: %v", room)
						sv, _ := be.aux.(*sentValue)
						tags := mk("faddr", "Tags", nil, cl)
						c.want(sv != nil && sv.st.load(tags, ch.t) == ch || heldIn(o.st, tags, ch), "pool", be.pos, nw, "the channel that is filled is not the client's pool")
					}
				}
			}
		}
		c.want(ok, "pool", fill.pos, nw, "the pool is not filled in a loop")
		// the table of calls has room for each
		made := false
		for _, f := range []string{"RPC"} {
			if n, ok := c.pr.infer().constLen[f]; ok && n >= 65534 {
				made = true
			}
		}
		c.want(made, "pool", o.pos, nw, "the table of calls has no room for all tags")
	}
	c.need("pool", 6)
}

func isTag(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == "Tag"
}

func chanElemType(ch *Term, e *Event) (types.Type, bool) {
	t := typeOfTerm(ch)
	if t == nil {
		return nil, false
	}
	u, ok := t.Underlying().(*types.Chan)
	if !ok {
		return nil, false
	}
	return u.Elem(), true
}

func (c *Ctx) tagTurn(sys *clientSys, r *clientRun, it iteration) {
	cl := sys.cl
	es := allEvents(it.events)
	var writes, stores, tagSends, deliveries, tagRecvs, callRecvs, msgRecvs []*Event
	for _, e := range es {
		switch {
		case e.kind == "write" && isField(e.args[0], cl, "ToNet"):
			writes = append(writes, e)
		case e.kind == "send" && isField(e.args[0], cl, "Tags"):
			tagSends = append(tagSends, e)
		case e.kind == "send" && isField(e.args[0], cl, "FromClient"):
		case e.kind == "send" && isField(e.args[0], cl, "FromServer"):
			c.want(ownMemory(e.args[1], it.start), "deliver", e.pos, r.fn, "a reply is passed on in %v, which the next one may overwrite", e.args[1])
			if sv, _ := e.aux.(*sentValue); sv != nil {
				v, _ := bytesField(r.x, sv.st, e.args[1])
				c.want(v != nil && ownMemory(v, it.start), "deliver", e.pos, r.fn, "the bytes of a reply are passed on in memory that the next one may overwrite: %v", v)
			}
		case e.kind == "send":
			deliveries = append(deliveries, e)
		case e.kind == "recv" && isField(e.args[0], cl, "Tags"):
			tagRecvs = append(tagRecvs, e)
		case e.kind == "recv" && isField(e.args[0], cl, "FromClient"):
			callRecvs = append(callRecvs, e)
		case e.kind == "recv" && isField(e.args[0], cl, "FromServer"):
			msgRecvs = append(msgRecvs, e)
		}
		if _, _, ok := slotStore(e, cl); ok {
			stores = append(stores, e)
			c.want(guarded(e, cl), "only", e.pos, r.fn, "the table of calls is changed without the lock")
		}
	}
	pos := it.out.pos
	if len(it.events) > 0 {
		pos = it.events[0].pos
	}
	// requests
	if len(writes) > 0 {
		w := writes[0]
		c.want(len(writes) == 1, "assign", w.pos, r.fn, "%d writes for a call", len(writes))
		if !c.want(len(tagRecvs) == 1 && len(callRecvs) == 1, "assign", w.pos, r.fn, "%d calls and %d tags are taken for a message written", len(callRecvs), len(tagRecvs)) {
			return
		}
		call, tag := callRecvs[0].res[0], tagRecvs[0].res[0]
		_, b := bytesField(r.x, newState(), call)
		if b == nil {
			c.fail("undecided", w.pos, r.fn, "not known what a call holds")
			return
		}
		n := contentLen(b)
		want := mkCat(mkSub(b, tZero, mkInt(5)), mkByte(byteOf(tag, 0)), mkByte(byteOf(tag, 1)), mkSub(b, mkInt(7), addC(n, -7)))
		got := w.args[1]
		c.want(simp(it.st, got) == simp(it.st, want), "assign", w.pos, r.fn, "what is written is not the request with its tag in bytes 5 and 6: %v", got)
		entered := false
		for _, s := range stores {
			i, v, _ := slotStore(s, cl)
			if it.st.proves(mkEqInt(i, addC(tag, -1))) && v == call {
				c.want(s.n < w.n, "assign", s.pos, r.fn, "the call is entered after its request is written: the reply can be earlier")
				entered = true
			} else {
				c.fail("only", s.pos, r.fn, "the table of calls gets %v at %v", v, i)
			}
		}
		c.want(entered, "assign", w.pos, r.fn, "the call is not entered under its tag")
		for _, s := range tagSends {
			c.fail("return", s.pos, r.fn, "a tag is put back before its reply has come")
		}
		if !it.last {
			c.want(isNilT(w.res[len(w.res)-1]), "assign", w.pos, r.fn, "a failed write is ignored")
		}
		return
	}
	if len(callRecvs)+len(tagRecvs) > 0 && !it.last {
		c.fail("assign", pos, r.fn, "a call or a tag is taken, and no request is written")
		return
	}
	// replies
	if len(msgRecvs) > 0 {
		m := msgRecvs[0]
		c.want(len(msgRecvs) == 1, "deliver", m.pos, r.fn, "%d replies are taken on a turn", len(msgRecvs))
		mv, mc := bytesField(r.x, newState(), m.res[0])
		if mc == nil {
			c.fail("undecided", m.pos, r.fn, "not known what a reply holds")
			return
		}
		tag := le(mkIn(mc, mkInt(5)), mkIn(mc, mkInt(6)))
		idx := addC(tag, -1)
		cleared := -1
		for _, s := range stores {
			i, v, _ := slotStore(s, cl)
			if !it.st.proves(mkEqInt(i, idx)) || !isNilT(v) {
				c.fail("only", s.pos, r.fn, "the table of calls gets %v at %v", v, i)
				continue
			}
			cleared = s.n
		}
		c.want(len(deliveries) == len(tagSends) || it.last, "return", m.pos, r.fn, "%d deliveries and %d tags put back", len(deliveries), len(tagSends))
		for _, s := range tagSends {
			c.want(it.st.proves(mkEqInt(s.args[1], tag)), "return", s.pos, r.fn, "the tag put back is not that of the reply: %v", s.args[1])
			c.want(cleared >= 0 && cleared < s.n, "return", s.pos, r.fn, "a tag is put back while its call is still entered")
		}
		c.want(len(tagSends) <= 1, "return", m.pos, r.fn, "a tag is put back twice")
		if len(deliveries) > 0 {
			d := deliveries[0]
			c.want(len(deliveries) == 1, "deliver", d.pos, r.fn, "a reply is delivered %d times", len(deliveries))
			slot := slotOfReply(d.args[0], cl)
			if c.want(slot != nil, "deliver", d.pos, r.fn, "the reply goes to %v, which is not the channel of a call from the table", d.args[0]) {
				c.want(it.st.proves(mkEqInt(slot, idx)), "deliver", d.pos, r.fn, "the reply goes to the call at %v", slot)
			}
			sv, _ := d.aux.(*sentValue)
			c.want((d.args[1] == mv || madeSince(d.args[1], m.res)) && sv != nil && sameContent(it.st, r.x.bytesOf(sv.st, d.args[1]), mc), "deliver", d.pos, r.fn, "what is delivered is not the reply as it came: %v", d.args[1])
			c.want(cleared >= 0, "deliver", d.pos, r.fn, "the call stays entered after its reply")
			return
		}
		// dropped
		ok := it.st.proves(mkLt(tag, tOne)) || it.st.proves(mkLt(mk("len", "", nil, mk("ld", "", nil, mk("faddr", "RPC", nil, cl))), tag))
		for _, f := range it.st.facts {
			if f.op == "le0" && mentions(f, func(t *Term) bool { return t.op == "len" && isField(t.args[0], cl, "RPC") }) && it.st.proves(f) {
				// the tag is beyond the table
				l := toLin(f.args[0])
				for a, k := range l.m {
					if a.op == "len" && isField(a.args[0], cl, "RPC") && k == 1 && it.st.proves(mkLt(a, tag)) {
						ok = true
					}
				}
			}
			if f.op == "eq" {
				for k := 0; k < 2; k++ {
					if isNilT(f.args[k]) {
						if s := slotOf(f.args[1-k], cl); s != nil && it.st.proves(mkEqInt(s, idx)) {
							ok = true
						}
					}
				}
			}
		}
		if !ok {
			// the length of the table is a number the analysis knows
			if n, has := c.pr.infer().constLen["RPC"]; has && it.st.proves(mkLt(mkInt(n), tag)) {
				ok = true
			}
		}
		c.want(ok, "drop", m.pos, r.fn, "a reply may be dropped though a call waits for it")
		return
	}
	for _, s := range stores {
		c.fail("only", s.pos, r.fn, "stores to the table of calls")
	}
	for _, s := range tagSends {
		c.fail("only", s.pos, r.fn, "sends on the pool of tags")
	}
}

// slotOf is the index of the entry of the table of calls that t was loaded from.
func slotOf(t, cl *Term) *Term {
	if t.op != "ld" || t.args[0].op != "elem" {
		return nil
	}
	o := t.args[0].args[0]
	if o.op == "ptr" && isField(o.args[0], cl, "RPC") {
		return t.args[0].args[1]
	}
	return nil
}

func slotOfReply(ch, cl *Term) *Term {
	if ch.op != "ld" || ch.args[0].op != "faddr" {
		return nil
	}
	return slotOf(ch.args[0].args[0], cl)
}

func checkCalls(c *Ctx) {
	sys := c.client()
	if sys == nil {
		return
	}
	cl := sys.cl
	for i := range messages {
		m := &messages[i]
		r := sys.calls[m.name]
		if r == nil {
			continue
		}
		rm := msgByName("R" + m.name[1:])
		ps, rs := sigTypes(r.fn)
		if len(ps) != len(m.fields) || len(rs) != len(rm.fields)+1 {
			c.fail("request", r.fn.Pos(), r.fn, "%d parameters and %d results", len(ps), len(rs))
			continue
		}
		args := params(r.fn)[1:]
		nok := 0
		for _, o := range r.outs {
			if !c.want(o.kind == outRet, "result", o.pos, r.fn, "a call that does not return") {
				continue
			}
			var sends, recvs []*Event
			for _, e := range allEvents(o.st.events()) {
				switch {
				case e.kind == "send" && isField(e.args[0], cl, "FromClient"):
					sends = append(sends, e)
				case e.kind == "recv" && len(e.res) == 1 && isByteSlice(typeOfTerm(e.res[0])):
					recvs = append(recvs, e)
				case e.kind == "send":
					c.fail("request", e.pos, r.fn, "sends on %v", e.args[0])
				case e.kind == "write":
					c.fail("request", e.pos, r.fn, "writes to %v", e.args[0])
				}
			}
			if !c.want(len(sends) <= 1, "request", o.pos, r.fn, "a call hands over %d requests", len(sends)) {
				continue
			}
			var reply *Term
			if len(sends) == 1 {
				e := sends[0]
				sv, _ := e.aux.(*sentValue)
				if sv == nil {
					c.fail("undecided", e.pos, r.fn, "not known what is handed over")
					continue
				}
				v, content := bytesField(r.x, sv.st, e.args[1])
				ch := chanField(sv.st, e.args[1])
				if content == nil || ch == nil {
					c.fail("undecided", e.pos, r.fn, "not known what is handed over: %v", e.args[1])
					continue
				}
				why := matchMsg(r.x, sv.st, content, encSpec{m: m, tag: sv.st.contSlice(content, mkInt(5), mkInt(2)), vals: args, typs: ps})
				c.want(why == "", "request", e.pos, r.fn, "%s: %s", m.name, why)
				c.want(ownMemory(e.args[1], cl.id) && ownMemory(v, cl.id), "request", e.pos, r.fn, "the request is handed over in memory that is not the call's own: %v", v)
				c.want(ch.op == "mkchan" && ch.id > cl.id, "request", e.pos, r.fn, "the channel for the reply is not the call's own: %v", ch)
				for _, v := range recvs {
					if c.want(v.args[0] == ch && v.n > e.n, "result", v.pos, r.fn, "a reply is taken from %v", v.args[0]) {
						c.want(reply == nil, "result", v.pos, r.fn, "two replies")
						reply = v.res[0]
					}
				}
			} else {
				c.want(len(recvs) == 0, "result", o.pos, r.fn, "a reply to no request")
			}
			nf := len(rm.fields)
			err := o.rets[nf]
			if isNilT(err) {
				nok++
				if !c.want(reply != nil, "result", o.pos, r.fn, "a call succeeds without a reply") {
					continue
				}
				typ := mkIn(reply, mkInt(4))
				c.want(o.st.proves(mkEqInt(typ, mkInt(rm.typ))), "result", o.pos, r.fn, "a reply that may not be %s is taken for one", rm.name)
				end, why := matchDecoded(r.x, o.st, reply, mkInt(7), rm.fields, o.rets[:nf], rs)
				c.want(why == "", "result", o.pos, r.fn, "%s: %s", rm.name, why)
				if why == "" {
					c.want(o.st.proves(mkEqInt(end, mk("len", "", nil, reply))), "result", o.pos, r.fn, "%s: bytes after the last field are ignored", rm.name)
				}
				continue
			}
			if !c.want(nonNilTerm(err) || o.st.proves(notT(mkEq(err, mkNil(nil), nil))), "refuse", o.pos, r.fn, "not known whether this path fails: %v", err) {
				continue
			}
			if reply == nil {
				continue
			}
			typ := mkIn(reply, mkInt(4))
			switch {
			case o.st.proves(mkEqInt(typ, mkInt(107))):
				if refutes(o.st, reply, mkInt(7), []field{{"ename", fstr}}) == "" {
					c.ok("error-text")
					continue
				}
				text := mkSub(reply, mkInt(9), decInt(reply, mkInt(7), 2))
				c.want(mentions(err, func(t *Term) bool { return t == text }), "error-text", o.pos, r.fn, "the error of an Rerror is %v, and not its text", err)
			case o.st.proves(notT(mkEqInt(typ, mkInt(rm.typ)))):
				c.ok("refuse")
			default:
				why := refutes(o.st, reply, mkInt(7), rm.fields)
				c.want(why == "", "refuse", o.pos, r.fn, "a proper %s may be refused here: %s", rm.name, why)
			}
		}
		c.want(nok > 0, "result", r.fn.Pos(), r.fn, "no path of the call succeeds")
	}
	c.need("request", 48)
	c.need("result", 48)
	c.need("error-text", 24)
	c.need("refuse", 24)
}

// ownMemory says whether what v points to was made after the term with the number since.
func ownMemory(v *Term, since int) bool {
	o := v
	if v.op == "slice" || isByteSlice(typeOfTerm(v)) {
		o, _, _, _ = sliceParts(v)
	}
	for o = rootOf(o); bufOver[o] != nil; o = bufOver[o] {
		if o.op != "alloc" || o.id <= since {
			return false
		}
	}
	return o.op == "alloc" && o.id > since
}

func isByteSlice(t types.Type) bool {
	if t == nil {
		return false
	}
	s, ok := t.Underlying().(*types.Slice)
	return ok && isByteType(s.Elem())
}

// initially is what the cell held when the lock of the object was last taken
// before the event.
func initially(e *Event, base, a *Term, t types.Type) *Term {
	for p := e; p != nil; p = p.prev {
		if p.kind == "lock" && p.args[0].op == "faddr" && p.args[0].args[0] == base {
			if sv, ok := p.aux.(*sentValue); ok {
				return sv.st.load(a, t)
			}
		}
	}
	return nil
}

func checkClientAlive(c *Ctx) {
	sys := c.client()
	if sys == nil {
		return
	}
	cl := sys.cl
	dead := mk("faddr", "Dead", nil, cl)
	isDead := func(st *State) bool {
		for _, f := range st.facts {
			if f.op == "ld" && f.args[0] == dead {
				return true
			}
		}
		return false
	}
	// which channels the death of the client closes
	var deaths map[string]bool
	for _, r := range sys.gos {
		uses := false
		for _, o := range r.outs {
			for _, e := range allEvents(o.st.events()) {
				if e.kind == "netread" || e.kind == "write" {
					uses = true
				}
			}
		}
		if !uses {
			continue
		}
		for _, o := range r.outs {
			if o.kind != outRet || isDead(o.st) {
				continue
			}
			here := map[string]bool{}
			for _, e := range o.st.events() {
				if past, ok := e.aux.([]*Event); ok && e.kind == "oncedone" {
					for _, k := range past {
						if k.kind == "close" {
							if f := fieldOf(k.args[0], cl); f != "" {
								here[f] = true
							}
						}
					}
				}
				if f := ""; e.kind == "close" || e.kind == "recvclosed" || e.kind == "recv" {
					f = fieldOf(e.args[0], cl)
					if f != "" && (e.kind == "close" || isSignal(e.args[0])) {
						here[f] = true
					}
				}
			}
			if deaths == nil {
				deaths = here
			} else {
				for f := range deaths {
					if !here[f] {
						delete(deaths, f)
					}
				}
			}
			c.want(len(here) > 0, "ends", o.pos, r.fn, "this goroutine of the client can end and the client not be dead")
		}
	}
	if !c.want(len(deaths) > 0, "wakes", sys.nw.fn.Pos(), sys.nw.fn, "no channel tells the calls that the client is dead") {
		return
	}
	c.channelsMade(sys)
	reads, writes := 0, 0
	closers := map[string]map[*ssa.Function]bool{}
	senders := map[string]map[*ssa.Function]bool{}
	for _, r := range sys.all() {
		c.safety(r.x, "safe")
		isGo := false
		for _, g := range sys.gos {
			isGo = isGo || g == r
		}
		for _, o := range r.outs {
			if !c.want(o.kind == outRet, "safe", o.pos, r.fn, "ends in a crash") {
				continue
			}
			c.want(len(o.st.locks) == 0, "unlocked", o.pos, r.fn, "returns with a lock held")
			c.clientEvents(sys, r, o, deaths, closers, senders, isGo)
		}
		if isGo {
			c.deathCause(sys, r, deaths, isDead)
			rd, wr := c.clientTurns(sys, r, isDead)
			reads += rd
			writes += wr
		}
	}
	c.safety(sys.nw.x, "safe", "nil")
	c.want(reads > 0, "frame", sys.nw.fn.Pos(), sys.nw.fn, "nothing reads the replies")
	c.want(writes > 0, "ends", sys.nw.fn.Pos(), sys.nw.fn, "nothing writes the requests")
	// one goroutine closes a channel others send on, and only it sends
	for f, fs := range closers {
		if deaths[f] {
			c.want(len(senders[f]) == 0, "once", sys.nw.fn.Pos(), sys.nw.fn, "%s is closed and sent on", f)
			continue
		}
		c.want(len(fs) == 1, "once", sys.nw.fn.Pos(), sys.nw.fn, "%s is closed by %d functions", f, len(fs))
		for s := range senders[f] {
			c.want(fs[s], "once", s.Pos(), s, "%s is sent on by others than who closes it", f)
		}
	}
	// nobody else in the package closes them
	c.need("wakes", 24)
	c.need("unlocked", 24)
	c.need("safe", 100)
	c.need("frame", 4)
	c.need("ends", 4)
	c.need("once", 2)
	c.need("invariant", 14)
}

// isSignal: a channel without values.
func isSignal(ch *Term) bool {
	t := typeOfTerm(ch)
	if t == nil {
		return false
	}
	u, ok := t.Underlying().(*types.Chan)
	if !ok {
		return false
	}
	s, ok := u.Elem().Underlying().(*types.Struct)
	return ok && s.NumFields() == 0
}

func (c *Ctx) clientEvents(sys *clientSys, r *clientRun, o Outcome, deaths map[string]bool, closers, senders map[string]map[*ssa.Function]bool, isGo bool) {
	cl := sys.cl
	es := allEvents(o.st.events())
	top := map[*Event]bool{}
	for _, e := range o.st.events() {
		top[e] = true
	}
	add := func(m map[string]map[*ssa.Function]bool, f string) {
		if m[f] == nil {
			m[f] = map[*ssa.Function]bool{}
		}
		m[f][r.fn] = true
	}
	closed := map[*Term]int{}
	for i, e := range es {
		switch e.kind {
		case "send", "recv", "recvclosed", "netread", "write":
			waits := e.kind != "recvclosed"
			if waits && e.name == "select" && i+1 < len(es) && es[i+1].kind == "select" {
				if s, ok := es[i+1].aux.(*selInfo); ok && !s.blocking {
					waits = false
				}
			}
			if waits {
				c.want(len(e.locks) == 0, "unlocked", e.pos, r.fn, "%s with a lock held", e.kind)
			}
		}
		switch e.kind {
		case "send":
			f := fieldOf(e.args[0], cl)
			add(senders, f)
			if at, ok := closed[e.args[0]]; ok && at < e.n {
				c.fail("once", e.pos, r.fn, "sends on a channel it has closed")
			}
			sv, _ := e.aux.(*sentValue)
			if el, ok := chanElemType(e.args[0], e); ok && sv != nil {
				v := e.args[1]
				var inv []*Term
				if u, isP := el.Underlying().(*types.Pointer); isP && flatStruct(u.Elem()) != nil {
					if _, ct := bytesField(r.x, sv.st, v); ct != nil {
						inv = []*Term{mkLe(mkInt(7), contentLen(ct))}
					}
					c.want(nonNilTerm(v), "invariant", e.pos, r.fn, "may send nil: %v", v)
				} else if isByteSlice(el) {
					inv = []*Term{mkLe(mkInt(7), contentLen(r.x.bytesOf(sv.st, v)))}
				} else {
					inv = chanInv(sv.st, v, el)
				}
				for _, q := range inv {
					c.want(o.st.proves(q) || sv.st.proves(q), "invariant", e.pos, r.fn, "what is sent on %v may not be what its receivers rely on: %v is not shown", e.args[0], q)
				}
			}
		case "close":
			f := fieldOf(e.args[0], cl)
			if !c.want(f != "", "once", e.pos, r.fn, "closes %v", e.args[0]) {
				continue
			}
			add(closers, f)
			_, twice := closed[e.args[0]]
			c.want(!twice && top[e], "once", e.pos, r.fn, "%s may be closed twice", f)
			closed[e.args[0]] = e.n
			sv, _ := e.aux.(*sentValue)
			if deaths[f] || !isGo {
				// several goroutines get here: the mark in the client decides, in the lock
				was := false
				if sv != nil {
					d := initially(e, cl, mk("faddr", "Dead", nil, cl), types.Typ[types.Bool])
					was = d != nil && sv.st.proves(notT(d))
				}
				set := false
				for _, s := range es {
					if s.kind == "store" && s.args[0] == mk("faddr", "Dead", nil, cl) && s.args[1] == tTrue && guarded(s, cl) {
						set = true
					}
				}
				if o := onceOf(es, e); o != nil && rootOf(o) == cl {
					// or the first to get there does
					if c.onces == nil {
						c.onces = map[string]*Term{}
					}
					c.want(set && (c.onces[f] == nil || c.onces[f] == o), "once", e.pos, r.fn, "%s may be closed by two", f)
					c.onces[f] = o
					break
				}
				c.want(guarded(e, cl) && was && set && c.onces[f] == nil, "once", e.pos, r.fn, "%s is closed without the lock, or not only by the first to mark the client dead", f)
			}
		case "store":
			if e.args[0] == mk("faddr", "Dead", nil, cl) {
				ok := false
				for f := range deaths {
					for _, k := range es {
						if k.kind == "close" && fieldOf(k.args[0], cl) == f {
							ok = true
						}
					}
				}
				if was, isT := e.aux.(*Term); isT && o.st.proves(was) {
					ok = true // it was before
				}
				c.want(e.args[1] == tTrue && ok && guarded(e, cl), "once", e.pos, r.fn, "the client is marked dead (%v) and its calls are not told", e.args[1])
			}
		}
		if isGo {
			if e.kind == "recv" && e.name != "select" {
				f := fieldOf(e.args[0], cl)
				c.want(f == "FromServer", "wakes", e.pos, r.fn, "waits for %v alone", e.args[0])
			}
			if e.kind == "send" && e.name != "select" {
				f := fieldOf(e.args[0], cl)
				okSlot := slotOfReply(e.args[0], cl) != nil
				c.want(f == "FromServer" || f == "Tags" || okSlot, "wakes", e.pos, r.fn, "waits to send on %v", e.args[0])
			}
		}
		if (e.kind == "recv" || e.kind == "send") && e.name == "select" {
			ok := false
			if i+1 < len(es) && es[i+1].kind == "select" {
				if s, is := es[i+1].aux.(*selInfo); is {
					ok = !s.blocking
					for _, ch := range s.chans {
						if deaths[fieldOf(ch, cl)] {
							ok = true
						}
					}
				}
			}
			c.want(ok, "wakes", e.pos, r.fn, "waits for %v, and the death of the client does not end that", e.args[0])
		} else if _, isCall := e, strings.HasPrefix(r.fn.Name(), "Call"); isCall && !isGo && (e.kind == "recv" || e.kind == "send") {
			c.fail("wakes", e.pos, r.fn, "waits for %v, and the death of the client does not end that", e.args[0])
		}
		// the channel of a reply has room for it
		if e.kind == "send" && fieldOf(e.args[0], cl) == "FromClient" {
			if sv, _ := e.aux.(*sentValue); sv != nil {
				ch := chanField(sv.st, e.args[1])
				c.want(ch != nil && ch.op == "mkchan" && len(ch.args) == 1 && o.st.proves(mkLe(tOne, ch.args[0])), "wakes", e.pos, r.fn, "there is no room for a reply nobody waits for any more: the others wait behind it")
			}
		}
	}
}

// onceOf is the sync.Once the event happens in.
func onceOf(es []*Event, at *Event) *Term {
	var in *Term
	for _, e := range es {
		switch {
		case e == at:
			return in
		case e.kind == "once":
			in = e.args[0]
		case e.kind == "onceend":
			in = nil
		}
	}
	return nil
}

// deathCause: a goroutine declares the client dead only after a read or a write
// that failed, a bad size, or without a connection.
func (c *Ctx) deathCause(sys *clientSys, r *clientRun, deaths map[string]bool, isDead func(*State) bool) {
	cl := sys.cl
	null := func(st *State) bool {
		for _, f := range []string{"FromNet", "ToNet"} {
			a := mk("faddr", f, nil, cl)
			if st.proves(mkEq(st.load(a, fieldTypeOf(sys.t, f)), mkNil(nil), nil)) {
				return true
			}
		}
		return false
	}
	path := func(es []*Event, st *State) {
		cause := isDead(st) || null(st)
		var conn, start *Term
		for _, e := range es {
			switch {
			case e.kind == "netread" || e.kind == "write":
				if !isNilT(e.res[len(e.res)-1]) || fellShort(st, e) {
					cause = true
				}
				if e.kind == "netread" && conn == nil {
					conn, start = e.args[0], e.args[1]
				}
			case e.kind == "recvclosed", e.kind == "recv" && isSignal(e.args[0]):
				cause = true
			case e.kind == "store" && e.args[0] == mk("faddr", "Dead", nil, cl), e.kind == "close" && deaths[fieldOf(e.args[0], cl)]:
				bad := conn != nil && st.proves(mkLt(decInt(streamSrc(conn), start, 4), mkInt(7)))
				c.want(cause || bad, "ends", e.pos, r.fn, "the client is declared dead though nothing failed")
			}
		}
	}
	its, _ := turns(r.outs)
	for _, it := range its {
		path(it.events, it.st)
	}
	for _, o := range r.outs {
		var es []*Event
		for _, e := range o.st.events() {
			if e.loop != nil {
				break
			}
			es = append(es, e)
		}
		path(es, o.st)
	}
}

// channelsMade: when a goroutine of the client is started, each channel of the
// client that is used has been made. Options that set channels are not looked at.
func (c *Ctx) channelsMade(sys *clientSys) {
	used := map[string]bool{}
	for _, r := range sys.all() {
		for _, o := range r.outs {
			for _, e := range allEvents(o.st.events()) {
				switch e.kind {
				case "send", "recv", "recvclosed", "close", "select":
					for _, ch := range e.args {
						if f := fieldOf(ch, sys.cl); f != "" {
							used[f] = true
						}
					}
				}
			}
		}
	}
	fn := sys.nw.fn
	args := params(fn)
	if fn.Signature.Variadic() {
		args[len(args)-1] = mkNil(fn.Signature.Params().At(len(args) - 1).Type())
	}
	x := newExec(c.pr)
	for _, o := range c.runFn(x, fn, newState(), args, nil) {
		if o.kind != outRet || !isNilT(o.rets[1]) {
			continue
		}
		for _, e := range allEvents(o.st.events()) {
			sv, _ := e.aux.(*sentValue)
			if e.kind != "go" || sv == nil {
				continue
			}
			for f := range used {
				if e.args[0].op == "closure" && len(e.args[0].args) > 0 || len(e.args) > 1 {
					v := sv.st.load(mk("faddr", f, nil, o.rets[0]), fieldTypeOf(sys.t, f))
					c.want(v.op == "mkchan", "made", e.pos, fn, "a goroutine of the client is started and its channel %s is not made: %v", f, v)
				}
			}
		}
	}
	c.need("made", 8)
}

func fieldTypeOf(t types.Type, f string) types.Type {
	s := t.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == f {
			return s.Field(i).Type()
		}
	}
	return nil
}

// clientTurns looks at the loops of the goroutines that read and write the connection.
func (c *Ctx) clientTurns(sys *clientSys, r *clientRun, isDead func(*State) bool) (reads, writes int) {
	cl := sys.cl
	its, _ := turns(r.outs)
	for _, it := range its {
		es := allEvents(it.events)
		var rd, wr, snd []*Event
		told := isDead(it.st)
		closedQ := false
		for _, e := range es {
			switch {
			case e.kind == "netread":
				rd = append(rd, e)
			case e.kind == "write" && isField(e.args[0], cl, "ToNet"):
				wr = append(wr, e)
			case e.kind == "send" && isField(e.args[0], cl, "FromServer"):
				snd = append(snd, e)
			case e.kind == "recvclosed", e.kind == "recv" && isSignal(e.args[0]):
				told = true
				closedQ = true
			}
		}
		pos := it.out.pos
		if len(it.events) > 0 {
			pos = it.events[0].pos
		}
		reads += len(rd)
		writes += len(wr)
		failed := false
		for _, e := range append(append([]*Event{}, rd...), wr...) {
			if !isNilT(e.res[len(e.res)-1]) || fellShort(it.st, e) {
				failed = true
			}
		}
		bad := false
		if len(rd) > 0 {
			conn := rd[0].args[0]
			c.want(isField(conn, cl, "FromNet"), "frame", rd[0].pos, r.fn, "reads from %v", conn)
			src := streamSrc(conn)
			start := rd[0].args[1]
			size := decInt(src, start, 4)
			bad = it.st.proves(mkLt(size, mkInt(7)))
			if len(snd) > 0 {
				e := snd[0]
				c.want(len(snd) == 1, "frame", e.pos, r.fn, "a message is passed on %d times", len(snd))
				end := it.st.streams[conn]
				c.want(end != nil && it.st.proves(mkEqInt(end, addT(start, size))), "frame", e.pos, r.fn, "the bytes taken for a message are not as many as its size says: from %v to %v", start, end)
				if sv, _ := e.aux.(*sentValue); c.want(sv != nil, "frame", e.pos, r.fn, "not known what is passed on") {
					_, got := bytesField(r.x, sv.st, e.args[1])
					c.want(got != nil && sameContent(it.st, got, mkSub(src, start, size)), "frame", e.pos, r.fn, "what is passed on is not the message: %v", got)
				}
				c.want(it.st.proves(mkLe(mkInt(7), size)), "frame", e.pos, r.fn, "a message shorter than a header is passed on")
			} else if !it.last {
				c.fail("frame", pos, r.fn, "a message is read and not passed on, and reading goes on")
			}
			for _, e := range rd {
				c.want(e.args[0] == conn, "frame", e.pos, r.fn, "reads from %v as well", e.args[0])
			}
		} else if len(snd) > 0 {
			c.fail("frame", pos, r.fn, "passes on what was not read")
		}
		if it.last {
			c.want(failed || bad || told || closedQ, "ends", it.out.pos, r.fn, "a goroutine of the client ends though nothing failed")
		} else {
			c.want(!failed && !bad, "ends", pos, r.fn, "goes on after a failed read or write")
		}
	}
	return reads, writes
}

func checkFIDs(c *Ctx) {
	fn := c.method("protocol", "Client", "GetFID")
	sys := c.client()
	if fn == nil || sys == nil {
		return
	}
	cl := sys.cl
	ctr := mk("faddr", "FID", nil, cl)
	for _, r := range append(sys.all(), sys.nw) {
		for _, o := range r.outs {
			for _, e := range allEvents(o.st.events()) {
				switch {
				case e.kind == "store" && e.args[0] == ctr:
					c.fail("only", e.pos, r.fn, "stores to the counter of fids")
				case e.kind == "atomic" && e.args[0] == ctr:
					if lastName(e.name) != "LoadUint64" && lastName(e.name) != "LoadUint32" {
						c.want(r.fn == fn, "only", e.pos, r.fn, "changes the counter of fids")
					} else {
						c.ok("only")
					}
				}
			}
			if r.fn != fn {
				continue
			}
			var adds []*Event
			for _, e := range allEvents(o.st.events()) {
				if e.kind == "atomic" && e.args[0] == ctr && strings.HasPrefix(lastName(e.name), "Add") {
					adds = append(adds, e)
				}
			}
			if !c.want(o.kind == outRet && len(adds) == 1 && len(o.rets) == 1, "atomic", o.pos, fn, "not one atomic addition to the counter") {
				continue
			}
			a := adds[0]
			k, ok := a.args[1].intVal()
			c.want(ok && k == 1, "atomic", a.pos, fn, "the counter goes up by %v", a.args[1])
			w, _, _ := intInfo(fn.Signature.Results().At(0).Type())
			c.want(sameBits(toBits(o.rets[0], w), toBits(a.res[0], w)), "atomic", o.pos, fn, "what is returned is not the counter after that addition: %v", o.rets[0])
		}
	}
	for _, o := range sys.nw.outs {
		if o.kind != outRet || !isNilT(o.rets[1]) {
			continue
		}
		// before the options are run
		for _, e := range o.st.events() {
			if sv, ok := e.aux.(*sentValue); ok && e.kind == "send" {
				_ = sv
			}
		}
	}
	// the counter is touched nowhere else in the package, by address or by value
	for _, f := range c.pr.All {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				fa, ok := ins.(*ssa.FieldAddr)
				if !ok || fieldName(fa) != "FID" {
					continue
				}
				if _, t := derefStruct(fa.X.Type()); t == nil || !types.Identical(t, sys.t) {
					continue
				}
				for _, ref := range *fa.Referrers() {
					switch ref := ref.(type) {
					case *ssa.Store:
						k, isC := ref.Val.(*ssa.Const)
						c.want(f == sys.nw.fn && isC && k.Int64() == 1, "only", ref.Pos(), f, "the counter of fids is set")
					case *ssa.Call:
						n := calleeName(&ref.Call)
						c.want(strings.HasPrefix(n, "sync/atomic."), "only", ref.Pos(), f, "the counter of fids is used by %s", n)
					case *ssa.DebugRef:
					case *ssa.UnOp:
						c.fail("only", ref.Pos(), f, "the counter of fids is read without atomic access")
					default:
						c.fail("only", ref.Pos(), f, "the counter of fids is used in another way")
					}
				}
			}
		}
	}
	c.need("atomic", 3)
	c.need("only", 2)
}

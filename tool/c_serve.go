package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// goFn is the function a go statement starts, with what it is given.
func goFn(e *Event) (fn *ssa.Function, args, free []*Term, st *State) {
	f := e.args[0]
	fn = fnByTerm[f]
	sv, _ := e.aux.(*sentValue)
	if fn == nil || sv == nil {
		return nil, nil, nil, nil
	}
	return fn, e.args[1:], f.args, sv.st.clone()
}

func kindEvents(es []*Event, kind string) []*Event {
	var r []*Event
	for _, e := range es {
		if e.kind == kind {
			r = append(r, e)
		}
	}
	return r
}

// connRun is the analysis of what a server does with a connection handed to it.
type connRun struct {
	accept  *ssa.Function
	fn      *ssa.Function
	x       *Exec
	conn    *Term
	l       *Term
	outs    []Outcome // of the goroutine
	acc     Outcome
	goEvent *Event
}

const dispatchKind = "repo"

func isDispatch(e *Event) bool {
	return e.kind == dispatchKind && strings.HasSuffix(e.name, "/protocol.Dispatch") || e.kind == "dyn" && e.name == "dyn:Dispatcher"
}

func (c *Ctx) connRuns() []*connRun {
	acc := c.method("protocol", "Listener", "Accept")
	disp := c.fn("protocol", "Dispatch")
	if acc == nil || disp == nil {
		return nil
	}
	x := newExec(c.pr)
	x.opaque = func(f *ssa.Function) bool { return f == disp }
	l := mkSym("nn:l", acc.Params[0].Type())
	conn := mkSym("nn:conn", acc.Params[1].Type())
	outs := c.runFn(x, acc, newState(), []*Term{l, conn}, nil)
	var rs []*connRun
	for _, o := range outs {
		gos := kindEvents(o.st.events(), "go")
		if o.kind == outRet && isNilT(o.rets[0]) {
			if !c.want(len(gos) == 1, "handler", o.pos, acc, "an accepted connection is handed to %d goroutines", len(gos)) {
				continue
			}
		} else if len(gos) == 0 {
			continue
		}
		for _, g := range gos {
			fn, args, free, st := goFn(g)
			if fn == nil {
				c.fail("undecided", g.pos, acc, "not known which function this starts")
				continue
			}
			gx := newExec(c.pr)
			gx.opaque = x.opaque
			st.ev = nil
			gouts := c.runFn(gx, fn, st, args, free)
			rs = append(rs, &connRun{acc, fn, gx, conn, l, gouts, o, g})
		}
	}
	c.need("handler", 1)
	return rs
}

// An iteration is one turn of the loop that serves requests: either a whole
// one, or the last one, on which the loop is left.
type iteration struct {
	events []*Event
	st     *State
	last   bool
	out    Outcome
	start  int
}

// turns takes the paths of the goroutine apart into turns of its outermost loops.
// A turn after which a flag lets nothing follow but the end of the loop is its last.
func turns(outs []Outcome) (its []iteration, noloop []Outcome) {
	var loops []*LoopInfo
	backs, exits := map[*LoopInfo][]iteration{}, map[*LoopInfo][]iteration{}
	for _, o := range outs {
		es := o.st.events()
		at := -1
		for i, e := range es {
			if e.loop != nil {
				at = i
				if _, ok := backs[e.loop]; !ok {
					loops = append(loops, e.loop)
					backs[e.loop] = []iteration{}
					for _, b := range e.loop.back {
						backs[e.loop] = append(backs[e.loop], iteration{b.events, b.st, false, o, e.loop.start})
					}
				}
			}
		}
		if at < 0 {
			noloop = append(noloop, o)
			continue
		}
		l := es[at].loop
		exits[l] = append(exits[l], iteration{es[at+1:], o.st, true, o, l.start})
	}
	for _, l := range loops {
		its = append(its, chained(l, backs[l], exits[l])...)
	}
	return its, noloop
}

// chained joins the turns that set a flag on which the loop is left to the way out.
func chained(l *LoopInfo, back, exit []iteration) []iteration {
	// wants is the value of each flag that a turn starts with: 1, 0, or -1 for any
	var flags []*loopVar
	for _, v := range l.vars {
		b, ok := v.typ.(*types.Basic)
		if v.typ == nil && v.cur != nil {
			b, ok = v.cur.t.(*types.Basic)
		}
		if ok && b.Info()&types.IsBoolean != 0 && v.entry != v.cur && len(v.next) == len(back) {
			flags = append(flags, v)
		}
	}
	all := append(append([]iteration{}, back...), exit...)
	if len(flags) == 0 {
		return all
	}
	fits := func(it iteration, v *loopVar, val *Term, st *State) bool {
		switch {
		case it.st.proves(v.cur):
			return st == nil && val != tFalse || st != nil && !st.proves(notT(val))
		case it.st.proves(notT(v.cur)):
			return st == nil && val != tTrue || st != nil && !st.proves(val)
		}
		return true
	}
	reached := make([]bool, len(all)) // otherwise than from a turn that is joined to it
	for j, t := range all {
		reached[j] = true
		for _, v := range flags {
			if !fits(t, v, v.entry, nil) {
				reached[j] = false
			}
		}
	}
	var joined []iteration
	isJoined := make([]bool, len(back))
	for i, b := range back {
		var next []int
		ends := true
		for j, t := range all {
			ok := true
			for _, v := range flags {
				ok = ok && fits(t, v, v.next[i], b.st)
			}
			if ok {
				next = append(next, j)
				ends = ends && t.last
			}
		}
		if ends && len(next) > 0 {
			isJoined[i] = true
			for _, j := range next {
				t := all[j]
				joined = append(joined, iteration{append(append([]*Event{}, b.events...), t.events...), b.st, true, t.out, b.start})
			}
			continue
		}
		for _, j := range next {
			reached[j] = true
		}
	}
	var its []iteration
	for j, t := range all {
		if j < len(back) && isJoined[j] {
			continue
		}
		if reached[j] {
			its = append(its, t)
		}
	}
	return append(its, joined...)
}

func init() {
	register(&Check{id: "C06", title: "requests are framed by their size and answered one by one",
		rules: "frame: on every path round the loop that serves a connection, the bytes taken from it are exactly the size the message starts with; request: what is dispatched is the message's type and its bytes from the tag on; reply: each turn dispatches once and writes the buffer the dispatcher filled, once, to the same connection, before the next message is read; end: the loop is left only when a read or a write fails or the size cannot be one",
		run:   checkFraming})
	register(&Check{id: "C25", title: "connections and listeners are closed and nothing is served after",
		rules: "close: every path out of the goroutine that serves a connection closes it, after the last use; serve-close: every path out of Serve closes the listener and forgets it, under the lock; accepted: each connection Accept returns is served, and temporary errors are retried after a bounded pause while others end Serve with that error; shutdown: Shutdown closes every listener that is known, under the lock, and reports a failure",
		run:   checkLifecycle})
	register(&Check{id: "C24", title: "connections do not share state",
		rules: "fresh: each connection gets a server made for it by one call of the creator, in objects allocated on that path; creator: the creator of the file server returns objects and a fid table allocated in that very call; globals: no function outside package initialisation stores to a package variable or to what one points to",
		not:   []string{"servers made by the user's own creator", "the host file system, which the connections share on purpose"},
		run:   checkIsolation})
}

func checkFraming(c *Ctx) {
	for _, r := range c.connRuns() {
		src := streamSrc(r.conn)
		for _, o := range append([]Outcome{r.acc}, r.outs...) {
			for _, e := range allEvents(o.st.events()) {
				if e.kind == "invoke" && len(e.args) == 2 && e.args[0] == r.conn && strings.HasSuffix(e.name, "Deadline") {
					c.fail("end", e.pos, r.fn, "the connection is given a time after which its reads or writes fail: %s", e.name)
				}
			}
		}
		its, noloop := turns(r.outs)
		for _, o := range noloop {
			c.fail("end", o.pos, r.fn, "a path serves no requests at all")
		}
		for _, it := range its {
			reads := kindEvents(it.events, "netread")
			var calls, writes []*Event
			for _, e := range allEvents(it.events) {
				switch {
				case isDispatch(e):
					calls = append(calls, e)
				case e.kind == "write" && e.args[0] == r.conn:
					writes = append(writes, e)
				case e.kind == "write", e.kind == "go":
					c.fail("reply", e.pos, r.fn, "%s in the serving of a request: %v", e.kind, e.args)
				}
			}
			pos := it.out.pos
			if len(it.events) > 0 {
				pos = it.events[0].pos
			}
			if len(reads) == 0 {
				if it.last {
					c.fail("end", pos, r.fn, "the connection is given up before anything went wrong")
				} else {
					c.fail("frame", pos, r.fn, "a turn that reads nothing")
				}
				continue
			}
			for _, e := range reads {
				if e.args[0] != r.conn {
					c.fail("frame", e.pos, r.fn, "reads from %v", e.args[0])
				}
			}
			// nested loops may read as well: the cursor counts
			start := reads[0].args[1]
			size := decInt(src, start, 4)
			readOK := true
			for _, e := range allEvents(it.events) {
				if e.kind == "netread" && !isNilT(e.res[len(e.res)-1]) {
					readOK = false
				}
			}
			writeOK := true
			for _, e := range writes {
				if !isNilT(e.res[len(e.res)-1]) {
					writeOK = false
				}
			}
			if len(calls) > 0 {
				e := calls[0]
				c.want(len(calls) == 1, "reply", e.pos, r.fn, "%d dispatches for one message", len(calls))
				c.want(it.st.proves(mkLe(mkInt(7), size)), "frame", e.pos, r.fn, "a message is dispatched though its size may be less than a header's")
				end := it.st.streams[r.conn]
				c.want(end != nil && it.st.proves(mkEqInt(end, addT(start, size))), "frame", e.pos, r.fn, "the bytes taken for a message are not as many as its size says: from %v to %v", start, end)
				aux, _ := e.aux.(*callAux)
				if c.want(aux != nil && len(aux.conts) >= 3, "request", e.pos, r.fn, "the dispatcher's arguments are not known") {
					n := len(aux.conts)
					want := mkSub(src, addC(start, 5), addC(size, -5))
					c.want(sameContent(it.st, aux.conts[n-2], want), "request", e.pos, r.fn, "what is dispatched is not the message from its tag on: %v", aux.conts[n-2])
					c.want(simp(it.st, e.args[n-1]) == mkIn(src, addC(start, 4)), "request", e.pos, r.fn, "the type dispatched is not the message's: %v", e.args[n-1])
				}
				c.want(len(writes) == 1, "reply", e.pos, r.fn, "%d replies are written for a request", len(writes))
				if len(writes) == 1 && aux != nil {
					w := writes[0]
					got := aux.after[len(aux.conts)-2]
					c.want(got != nil && w.n > e.n && sameContent(it.st, w.args[1], got), "reply", w.pos, r.fn, "what is written is not what the dispatcher left: %v", w.args[1])
				}
			} else {
				c.want(len(writes) == 0, "reply", pos, r.fn, "a reply that no request was dispatched for")
				if !it.last {
					c.fail("reply", pos, r.fn, "a message is read and not dispatched, and the connection goes on")
				}
			}
			if it.last {
				c.want(!readOK || !writeOK || it.st.proves(mkLt(size, mkInt(7))), "end", it.out.pos, r.fn, "the connection is given up though no read or write failed")
			} else {
				c.want(readOK && writeOK, "end", pos, r.fn, "the connection goes on after a failed read or write")
			}
		}
	}
	c.need("frame", 4)
	c.need("request", 4)
	c.need("reply", 4)
	c.need("end", 4)
}

func sameContent(st *State, a, b *Term) bool {
	if a == b {
		return true
	}
	a, b = simp(st, a), simp(st, b)
	if a == b {
		return true
	}
	if a.op == "sub" && b.op == "sub" && a.args[0] == b.args[0] {
		return st.proves(mkEqInt(a.args[1], b.args[1])) && st.proves(mkEqInt(a.args[2], b.args[2]))
	}
	return false
}

func isClose(e *Event, what *Term) bool {
	return (e.kind == "invoke" || e.kind == "ext") && lastName(e.name) == "Close" && len(e.args) == 1 && e.args[0] == what
}

func checkLifecycle(c *Ctx) {
	for _, r := range c.connRuns() {
		for _, o := range r.outs {
			if !c.want(o.kind == outRet, "close", o.pos, r.fn, "the goroutine of a connection ends in a crash") {
				continue
			}
			closed := -1
			es := o.st.events()
			for _, e := range es {
				if isClose(e, r.conn) {
					closed = e.n
				} else if closed >= 0 && (e.kind == "write" || e.kind == "netread" || isDispatch(e)) {
					c.fail("close", e.pos, r.fn, "used after it was closed")
				}
				if e.loop != nil {
					for _, b := range e.loop.back {
						for _, be := range allEvents(b.events) {
							if isClose(be, r.conn) {
								c.fail("close", be.pos, r.fn, "closed on a path that goes on serving")
							}
						}
					}
				}
			}
			c.want(closed >= 0, "close", o.pos, r.fn, "a path on which the connection is not closed")
		}
		for _, e := range r.acc.st.events() {
			if isClose(e, r.conn) {
				c.fail("close", e.pos, r.accept, "closed when it is accepted")
			}
		}
	}
	c.need("close", 3)
	c.lifecycleServe()
	c.lifecycleShutdown()
}

// guarded tells whether a mutex of object base is held at the event.
func guarded(e *Event, base *Term) bool {
	for m, mode := range e.locks {
		if m.op == "faddr" && m.args[0] == base && mode == "W" {
			return true
		}
	}
	return false
}

func (c *Ctx) lifecycleServe() {
	fn := c.method("protocol", "Listener", "Serve")
	if fn == nil {
		return
	}
	x := newExec(c.pr)
	l, ln := mkSym("nn:l", fn.Params[0].Type()), mkSym("nn:ln", fn.Params[1].Type())
	outs := c.runFn(x, fn, newState(), []*Term{l, ln}, nil)
	c.safety(x, "serve-safe")
	c.tableKept(outs, l, fn)
	for _, o := range outs {
		c.want(len(o.st.locks) == 0, "serve-safe", o.pos, fn, "Serve returns with a lock held")
		if !c.want(o.kind == outRet, "serve-close", o.pos, fn, "Serve ends in a crash") {
			continue
		}
		es := o.st.events()
		tracked, closedAt, gone := -1, -1, -1
		for _, e := range es {
			switch {
			case isClose(e, ln):
				closedAt = e.n
			case e.kind == "mapset" && e.args[1] == ln:
				tracked = e.n
				c.want(guarded(e, l), "serve-close", e.pos, fn, "the table of listeners is changed without its lock")
			case e.kind == "mapdel" && e.args[1] == ln:
				gone = e.n
				c.want(guarded(e, l), "serve-close", e.pos, fn, "the table of listeners is changed without its lock")
			}
		}
		c.want(closedAt >= 0, "serve-close", o.pos, fn, "a path out of Serve that leaves the listener open")
		loops := 0
		for _, e := range es {
			if e.loop == nil {
				continue
			}
			loops++
			c.want(gone < 0 || gone > e.n, "serve-close", e.pos, fn, "Shutdown no longer knows a listener that connections are accepted from")
			for _, b := range e.loop.back {
				for _, be := range allEvents(b.events) {
					if be.kind == "mapdel" && be.args[1] == ln {
						c.fail("serve-close", be.pos, fn, "the listener is forgotten and its use goes on")
					}
				}
			}
			c.want(tracked >= 0 && tracked < e.n, "serve-close", e.pos, fn, "connections are accepted from a listener that Shutdown does not know")
			if closedAt >= 0 && closedAt < e.n {
				c.fail("accepted", e.pos, fn, "the listener is closed before it is used")
			}
		}
		if loops > 0 {
			c.want(gone > tracked, "serve-close", o.pos, fn, "a listener that is closed is still known")
		}
	}
	its, _ := turns(outs)
	for _, it := range its {
		var acc *Event
		var gos, sleeps []*Event
		for _, e := range allEvents(it.events) {
			switch {
			case e.kind == "invoke" && lastName(e.name) == "Accept" && e.args[0] == ln:
				c.want(acc == nil, "accepted", e.pos, fn, "two Accepts in a turn")
				acc = e
			case e.kind == "go":
				gos = append(gos, e)
			case e.kind == "ext" && (e.name == "time.Sleep" || (e.name == "time.After" || e.name == "time.NewTimer") && waitedFor(allEvents(it.events), e)):
				sleeps = append(sleeps, e)
				c.want(it.st.proves(mkLe(mkInt(1), e.args[0])), "accepted", e.pos, fn, "the pause after an error may be none: %v", e.args[0])
				c.want(it.st.proves(mkLe(e.args[0], mkInt(1e9))), "accepted", e.pos, fn, "the pause after an error is not bounded: %v", e.args[0])
			}
		}
		if acc == nil {
			c.fail("accepted", it.out.pos, fn, "a turn of Serve without Accept")
			continue
		}
		err := acc.res[1]
		switch {
		case isNilT(err):
			conn := acc.res[0]
			if it.last {
				// it may fail to hand the connection over; then it says so
				c.want(len(it.out.rets) == 1 && !isNilT(it.out.rets[0]) && it.out.st.proves(notT(mkEq(it.out.rets[0], mkNil(nil), nil))), "accepted", acc.pos, fn, "Serve ends without an error")
				continue
			}
			used := false
			for _, g := range gos {
				f, args, _, st := goFn(g)
				if f == nil {
					continue
				}
				for _, a := range append(append([]*Term{}, args...), g.args[0].args...) {
					if reaches(st, a, conn, 0) {
						used = true
					}
				}
			}
			c.want(used && len(gos) == 1, "accepted", acc.pos, fn, "a connection is accepted and not served exactly once")
			c.want(len(sleeps) == 0, "accepted", acc.pos, fn, "a pause after a successful Accept")
		case it.last:
			c.want(it.out.rets[0] == err, "accepted", it.out.pos, fn, "Serve ends with another error than Accept's: %v", it.out.rets[0])
			c.want(lasting(it.st, err), "accepted", it.out.pos, fn, "Serve ends at an error that may be temporary")
		default:
			c.want(temporary(it.st, err), "accepted", acc.pos, fn, "Serve goes on after an error that is not temporary")
			c.want(len(sleeps) > 0, "accepted", acc.pos, fn, "no pause before Accept is tried again")
			c.want(len(gos) == 0, "accepted", acc.pos, fn, "something is served after a failed Accept")
		}
	}
	c.need("serve-close", 4)
	c.need("accepted", 5)
}

// temporary: the path knows err to be a temporary network error.
func temporary(st *State, err *Term) bool {
	for _, f := range st.facts {
		if f.op == "app" && strings.HasSuffix(f.s, ".Temporary") && mentions(f, func(t *Term) bool { return t == err }) {
			return true
		}
	}
	return false
}

// waitedFor: what comes from the channel of a timer is waited for.
func waitedFor(es []*Event, timer *Event) bool {
	for _, e := range es {
		if e.n > timer.n && (e.kind == "recv" || e.kind == "recvclosed") && mentions(e.args[0], func(t *Term) bool { return t == timer.res[0] }) {
			return true
		}
	}
	return false
}

// lasting: the path knows err not to be one.
func lasting(st *State, err *Term) bool {
	for _, f := range st.facts {
		if f.op != "not" || !mentions(f, func(t *Term) bool { return t == err }) {
			continue
		}
		if g := f.args[0]; g.op == "istype" && (strings.HasSuffix(g.s, "net.Error") || strings.Contains(g.s, "Temporary()")) || g.op == "app" && strings.HasSuffix(g.s, ".Temporary") {
			return true
		}
	}
	return false
}

// tableKept: a table that may know listeners is not put aside for another.
func (c *Ctx) tableKept(outs []Outcome, l *Term, fn *ssa.Function) {
	var look func(es []*Event, st *State)
	look = func(es []*Event, st *State) {
		for _, e := range es {
			if e.loop != nil {
				for _, b := range e.loop.back {
					look(b.events, b.st)
				}
			}
			if e.kind != "store" || e.args[0].op != "faddr" || e.args[0].args[0] != l {
				continue
			}
			if _, ok := e.args[1].t.(*types.Map); !ok && e.args[1].op != "mkmap" {
				continue
			}
			old, _ := e.aux.(*Term)
			c.want(old != nil && (isNilT(old) || st.proves(mkEq(old, mkNil(nil), nil))), "tracked", e.pos, fn, "the table of listeners is replaced by another one")
		}
	}
	for _, o := range outs {
		look(o.st.events(), o.st)
	}
}

// reaches: the object v is or points to what.
func reaches(st *State, v, what *Term, depth int) bool {
	if v == what || mentions(v, func(t *Term) bool { return t == what }) {
		return true
	}
	if depth > 4 {
		return false
	}
	if v.op != "alloc" && v.op != "iface" {
		return false
	}
	if v.op == "iface" {
		return reaches(st, v.args[0], what, depth+1)
	}
	for a, x := range st.cells {
		if rootOf(a) == v && x != v && reaches(st, x, what, depth+1) {
			return true
		}
	}
	return false
}

func (c *Ctx) lifecycleShutdown() {
	fn := c.method("protocol", "Listener", "Shutdown")
	if fn == nil {
		return
	}
	x := newExec(c.pr)
	l := mkSym("nn:l", fn.Params[0].Type())
	outs := c.runFn(x, fn, newState(), []*Term{l}, nil)
	c.safety(x, "serve-safe")
	for _, o := range outs {
		c.want(len(o.st.locks) == 0, "serve-safe", o.pos, fn, "Shutdown returns with a lock held")
		if !c.want(o.kind == outRet, "shutdown", o.pos, fn, "Shutdown ends in a crash") {
			continue
		}
		done := false
		for _, e := range o.st.events() {
			if e.loop == nil {
				continue
			}
			over := false
			for _, b := range e.loop.back {
				var next *Event
				var key *Term
				closes, failed := 0, false
				for _, be := range allEvents(b.events) {
					switch {
					case be.kind == "mapnext":
						next, key = be, be.args[1]
						over = true
						c.want(guarded(be, l), "shutdown", be.pos, fn, "the listeners are gone through without the lock")
					case key != nil && isClose(be, key):
						closes++
						failed = !isNilT(be.res[0])
					case key == nil && be.kind == "invoke" && lastName(be.name) == "Close" && len(be.args) == 1 && allOf(o, e, be.args[0]):
						// the listeners were put in a list before
						next, key = be, be.args[0]
						over, done = true, true
						closes++
						failed = !isNilT(be.res[0])
					}
				}
				if next == nil {
					continue
				}
				if closes == 0 && listed(e.loop, b, key) {
					// on the list of those to close
					over = false
					continue
				}
				c.want(closes == 1, "shutdown", next.pos, fn, "a listener is closed %d times", closes)
				if failed {
					// the failure stays known: what is returned is not nil after this turn
					c.want(shutdownReports(e.loop, b, o), "shutdown", next.pos, fn, "a listener that cannot be closed is not reported")
				} else {
					c.want(shutdownKeeps(e.loop, b, o), "shutdown", next.pos, fn, "a failure to close a listener is forgotten when another one is closed")
				}
			}
			if over && finished(o.st, e) {
				done = true
			}
		}
		c.want(done, "shutdown", o.pos, fn, "a path on which not all listeners are closed")
	}
	c.need("shutdown", 3)
	c.need("serve-safe", 4)
}

// listed: the turn puts what it got from the map on a list, once, as every other turn does.
func listed(li *LoopInfo, b loopPath, key *Term) bool {
	for _, v := range li.vars {
		if v.mode != 3 || v.step != 1 || listTab[v.list] == nil || listTab[v.list].loop != li {
			continue
		}
		for i, bp := range li.back {
			if bp.st == b.st && len(listTab[v.list].vals[i]) == 1 && listTab[v.list].vals[i][0] == key {
				return true
			}
		}
	}
	return false
}

// allOf: v is the element for the turn of the loop of e of a list of all that a
// map had, and on the path o that loop goes through all of the list.
func allOf(o Outcome, e *Event, v *Term) bool {
	l, i := ofList(v)
	if l == nil || i != e.loop.kappa {
		return false
	}
	for _, f := range o.st.events() {
		if f.loop != l.loop || !finished(o.st, f) {
			continue
		}
		for k, b := range l.loop.back {
			var key *Term
			for _, be := range b.events {
				if be.kind == "mapnext" {
					key = be.args[1]
				}
			}
			if key == nil || len(l.vals[k]) != 1 || l.vals[k][0] != key {
				return false
			}
		}
		for _, x := range l.loop.vars {
			if x.list != nil && listTab[x.list] == l {
				_, _, n, _ := sliceParts(x.cur)
				return o.st.proves(mkLe(n, e.loop.kappa))
			}
		}
	}
	return false
}

// finished: the loop over a map was left because there was nothing more in it.
func finished(st *State, loop *Event) bool {
	for _, e := range st.events() {
		if e.n > loop.n && e.kind == "mapdone" {
			return true
		}
	}
	return false
}

func shutdownReports(li *LoopInfo, b loopPath, o Outcome) bool {
	for i, bp := range li.back {
		if bp.st != b.st {
			continue
		}
		for _, v := range li.vars {
			if v.cur == o.rets[0] && i < len(v.next) {
				return bp.st.proves(notT(mkEq(v.next[i], mkNil(nil), nil)))
			}
		}
	}
	return o.st.proves(notT(mkEq(o.rets[0], mkNil(nil), nil))) || emptyList(li, o, func(i int, v *loopVar) bool {
		_, _, n, _ := sliceParts(v.next[i])
		return li.back[i].st != b.st || li.back[i].st.proves(mkLe(tOne, n))
	})
}

// emptyList: the path o ends with an empty list of what the turns of the loop
// found, which never gets shorter and is not empty after a turn that grows says.
func emptyList(li *LoopInfo, o Outcome, grows func(int, *loopVar) bool) bool {
	for _, v := range li.vars {
		if v.mode != 3 && v.mode != 4 || listTab[v.list] == nil || listTab[v.list].loop != li {
			continue
		}
		_, _, n, _ := sliceParts(v.cur)
		ok := o.st.proves(mkEqInt(n, tZero))
		for i := range li.back {
			ok = ok && i < len(v.next) && grows(i, v)
		}
		if ok {
			return true
		}
	}
	return false
}

// shutdownKeeps: a turn that closes its listener leaves the error found before.
func shutdownKeeps(li *LoopInfo, b loopPath, o Outcome) bool {
	for i, bp := range li.back {
		if bp.st != b.st {
			continue
		}
		for _, v := range li.vars {
			if v.cur == o.rets[0] && i < len(v.next) {
				return v.next[i] == v.cur || bp.st.proves(notT(mkEq(v.next[i], mkNil(nil), nil))) || bp.st.proves(mkEq(v.cur, mkNil(nil), nil))
			}
		}
	}
	return true
}

func checkIsolation(c *Ctx) {
	for _, r := range c.connRuns() {
		var made []*Event
		for _, e := range allEvents(r.acc.st.events()) {
			if e.kind == "dyn" && strings.HasSuffix(e.name, "NsCreator") || e.kind == "dyn" && len(e.args) > 0 && e.args[0] == mk("ld", "", e.args[0].t, mk("faddr", "nsCreator", nil, r.l)) {
				made = append(made, e)
			}
		}
		if !c.want(len(made) == 1, "fresh", r.goEvent.pos, r.accept, "%d servers are made for a connection", len(made)) {
			continue
		}
		ns := made[0].res[0]
		n := 0
		seen := map[*Event]bool{}
		for _, o := range r.outs {
			for _, e := range allEvents(o.st.events()) {
				if !isDispatch(e) || seen[e] {
					continue
				}
				seen[e] = true
				n++
				srv := e.args[len(e.args)-3]
				if !c.want(srv.op == "alloc" && srv.id > r.conn.id, "fresh", e.pos, r.fn, "the server of a connection is not made for it: %v", srv) {
					continue
				}
				got := r.acc.st.load(mk("faddr", "NS", nil, srv), ns.t)
				c.want(got == ns, "fresh", e.pos, r.fn, "requests go to another server than the one made for the connection: %v", got)
				vers := r.acc.st.load(mk("faddr", "Versioned", nil, srv), types.Typ[types.Bool])
				c.want(vers == tFalse, "fresh", e.pos, r.fn, "a connection starts in the state after Tversion")
			}
		}
		c.want(n > 0, "fresh", r.goEvent.pos, r.fn, "no dispatch")
	}
	c.creator()
	c.globals()
}

// servers runs what NewUFS gives to the listener as the maker of servers, and
// calls f for each way in which that ends.
func (c *Ctx) servers(rule string, f func(fn *ssa.Function, o Outcome, fs types.Type, v *Term, mark int)) {
	nu := c.fn("filesystem", "NewUFS")
	nl := c.fn("protocol", "NewListener")
	fs := c.pr.NamedType("filesystem", "FileServer")
	if nu == nil || nl == nil || fs == nil {
		return
	}
	x := newExec(c.pr)
	x.opaque = func(f *ssa.Function) bool { return f == nl }
	outs := c.runFn(x, nu, newState(), params(nu), nil)
	n := 0
	for _, o := range outs {
		for _, e := range o.st.events() {
			if e.kind != "repo" || !strings.HasSuffix(e.name, ".NewListener") {
				continue
			}
			fn := fnByTerm[e.args[0]]
			if !c.want(fn != nil, rule, e.pos, nu, "not known what makes the servers") {
				continue
			}
			n++
			gx := newExec(c.pr)
			st := o.st.clone()
			st.ev = nil
			mark := termCount
			for _, co := range c.runFn(gx, fn, st, nil, e.args[0].args) {
				if !c.want(co.kind == outRet && len(co.rets) == 1, rule, co.pos, fn, "the creator crashes") {
					continue
				}
				f(fn, co, fs, co.rets[0], mark)
			}
		}
	}
	c.want(n > 0, rule, nu.Pos(), nu, "no listener is made")
}

// creator: what NewUFS gives to the listener makes everything anew.
func (c *Ctx) creator() {
	c.servers("creator", func(fn *ssa.Function, co Outcome, fs types.Type, v *Term, mark int) {
		f := findFS(co.st, v, fs, 0)
		if !c.want(f != nil && f.op == "alloc" && f.id > mark, "creator", co.pos, fn, "the server is not made by this call: %v", v) {
			return
		}
		s := fs.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			ft := s.Field(i).Type()
			val := co.st.load(mk("faddr", s.Field(i).Name(), nil, f), ft)
			switch ft.Underlying().(type) {
			case *types.Map:
				c.want(val.op == "mkmap" && val.id > mark, "creator", co.pos, fn, "the table %s is not made by this call: %v", s.Field(i).Name(), val)
			case *types.Pointer:
				c.want(isNilT(val) || val.op == "alloc" && val.id > mark, "creator", co.pos, fn, "%s is not made by this call: %v", s.Field(i).Name(), val)
			}
		}
	})
	c.need("creator", 3)
}

// findFS finds the file server in a server value: itself, or what it wraps.
func findFS(st *State, v *Term, fs types.Type, depth int) *Term {
	if depth > 4 {
		return nil
	}
	if v.op == "iface" {
		if p, ok := v.t.Underlying().(*types.Pointer); ok && types.Identical(p.Elem(), fs) {
			return v.args[0]
		}
		v = v.args[0]
	}
	if v.op == "alloc" {
		if p, ok := v.t.Underlying().(*types.Pointer); ok {
			if types.Identical(p.Elem(), fs) {
				return v
			}
			if s, ok := p.Elem().Underlying().(*types.Struct); ok {
				for i := 0; i < s.NumFields(); i++ {
					if f := findFS(st, st.load(mk("faddr", s.Field(i).Name(), nil, v), s.Field(i).Type()), fs, depth+1); f != nil {
						return f
					}
				}
			}
		}
	}
	return nil
}

// globals: outside initialisation nothing is stored to package variables.
func (c *Ctx) globals() {
	for _, fn := range c.pr.All {
		if isInit(fn) || fn.Pkg == nil || fn.Pkg.Pkg.Name() == "main" {
			continue
		}
		c.funcs[fn.String()] = true
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				var addr ssa.Value
				switch ins := ins.(type) {
				case *ssa.Store:
					addr = ins.Addr
				case *ssa.MapUpdate:
					addr = ins.Map
				case *ssa.Call:
					if bi, ok := ins.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "delete" || bi.Name() == "clear" || bi.Name() == "copy") {
						addr = ins.Call.Args[0]
					}
				}
				if addr == nil {
					continue
				}
				c.ok("globals")
				if g := globalRoot(addr, 0); g != nil && !harmless(g) {
					c.fail("globals", ins.Pos(), fn, "stores to package variable %s", g.Name())
				}
			}
		}
	}
	c.need("globals", 20)
}

// harmless: a variable whose value is not state of a session: the caches of
// the language (init guards) and tracing.
func harmless(g *ssa.Global) bool {
	return strings.HasPrefix(g.Name(), "init$")
}

func globalRoot(v ssa.Value, depth int) *ssa.Global {
	if depth > 12 {
		return nil
	}
	switch v := v.(type) {
	case *ssa.Global:
		return v
	case *ssa.FieldAddr:
		return globalRoot(v.X, depth+1)
	case *ssa.IndexAddr:
		return globalRoot(v.X, depth+1)
	case *ssa.UnOp:
		return globalRoot(v.X, depth+1)
	case *ssa.Slice:
		return globalRoot(v.X, depth+1)
	case *ssa.ChangeType:
		return globalRoot(v.X, depth+1)
	case *ssa.Phi:
		for _, e := range v.Edges {
			if g := globalRoot(e, depth+1); g != nil {
				return g
			}
		}
	}
	return nil
}

package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const nsIface = "invoke:protocol.NineServer."

// requests that the server executes, with the handler of each
var handlers = map[int64]string{
	100: "Rversion", 104: "Rattach", 108: "Rflush", 110: "Rwalk", 112: "Ropen", 114: "Rcreate", 116: "Rread",
	118: "Rwrite", 120: "Rclunk", 122: "Rremove", 124: "Rstat", 126: "Rwstat",
}

type dispRun struct {
	t    int64
	vers bool
	fn   *ssa.Function
	x    *Exec
	s, b *Term
	src  *Term
	outs []Outcome
}

// dispatchRuns analyses Dispatch once for each message type and each state of
// the connection; everything else in the request is arbitrary.
func (c *Ctx) dispatchRuns() []*dispRun {
	fn := c.fn("protocol", "Dispatch")
	if fn == nil {
		return nil
	}
	if len(fn.Params) != 3 {
		c.fail("anchor", fn.Pos(), fn, "other parameters than a server, a buffer and a type")
		return nil
	}
	stype := fn.Params[0].Type().Underlying().(*types.Pointer).Elem()
	var rs []*dispRun
	for _, vers := range []bool{false, true} {
		for t := int64(0); t < 256; t++ {
			x := newExec(c.pr)
			st := newState()
			s, b := mkSym("nn:s", fn.Params[0].Type()), mkSym("nn:b", fn.Params[1].Type())
			src := bufContent(x, st, b)
			// serve hands over the tag with each request: C06
			st.addFact(mkLe(mkInt(2), mk("len", "", nil, src)))
			a := fieldAddr(s, stype, "Versioned")
			if a == nil {
				c.fail("anchor", fn.Pos(), fn, "no field Versioned")
				return nil
			}
			st.store(a, types.Typ[types.Bool], mkBool(vers))
			outs := c.runFn(x, fn, st, []*Term{s, b, mkInt(t)}, nil)
			rs = append(rs, &dispRun{t, vers, fn, x, s, b, src, outs})
		}
	}
	return rs
}

func fieldAddr(p *Term, t types.Type, name string) *Term {
	s, _ := t.Underlying().(*types.Struct)
	for i := 0; s != nil && i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return mk("faddr", name, nil, p)
		}
	}
	return nil
}

func nsCalls(es []*Event) []*Event {
	var r []*Event
	for _, e := range allEvents(es) {
		if e.kind == "invoke" && strings.HasPrefix(e.name, nsIface) {
			r = append(r, e)
		}
	}
	return r
}

// rerrorText: the content is an Rerror with this tag; its text.
func rerrorText(x *Exec, st *State, content, tag *Term) (*Term, string) {
	n := contentLen(content)
	if !st.proves(mkLe(mkInt(9), n)) {
		return nil, fmt.Sprintf("the reply is %v", content)
	}
	text := st.contSlice(content, mkInt(9), addC(n, -9))
	if text == nil {
		return nil, fmt.Sprintf("the reply is %v", content)
	}
	why := matchMsg(x, st, content, encSpec{m: msgByName("Rerror"), tag: tag, vals: []*Term{text}, typs: []types.Type{types.Typ[types.String]}})
	return text, why
}

func init() {
	register(&Check{id: "C04", title: "refused requests are never executed",
		rules: "early: for each of the 256 message types but Tversion, before Tversion no path of the dispatcher calls a handler and each leaves an Rerror; unsupported: for each type without a handler no path calls one; malformed: on every path that calls a handler, the request has exactly the manual's layout; versioned: only Tversion sets the state, and no path clears it",
		run:   checkRefused})
	register(&Check{id: "C05", title: "each request gets its one matching reply",
		rules: "reply: on every path of the dispatcher, for each message type, the buffer ends up holding exactly one reply, either of the type that answers the request with the handler's results encoded, or Rerror, with the tag of the request; once: at most one handler call on a path, and the one that belongs to the type; args: its arguments are the fields of the request; accepts: a path without a handler call is refuted for a supported, well-formed request; error: a handler's error is answered with an Rerror made from it, a success never is; fits: the text of an Rerror is shorter than a 9P string can be",
		not:   []string{"strings, stat records or lists that a handler returns and that are too long for a 2-byte count"},
		run:   checkReplies})
}

func checkRefused(c *Ctx) {
	for _, r := range c.dispatchRuns() {
		tag := mkSub(r.src, tZero, mkInt(2))
		for _, o := range r.outs {
			calls := nsCalls(o.st.events())
			pos := r.fn.Pos()
			if len(calls) > 0 {
				pos = calls[0].pos
			}
			if o.kind != outRet {
				c.fail("reply", o.pos, r.fn, "type %d: a path ends without a reply", r.t)
				continue
			}
			// the state
			v := o.st.load(mk("faddr", "Versioned", nil, r.s), types.Typ[types.Bool])
			c.want(v == mkBool(r.vers || r.t == 100), "versioned", o.pos, r.fn, "type %d in state versioned=%v leaves versioned=%v", r.t, r.vers, v)
			if !r.vers && r.t != 100 {
				c.want(len(calls) == 0, "early", pos, r.fn, "type %d is executed before Tversion", r.t)
				_, why := rerrorText(r.x, o.st, bufContent(r.x, o.st, r.b), tag)
				c.want(why == "", "early", o.pos, r.fn, "type %d before Tversion is not answered with an Rerror: %s", r.t, why)
				continue
			}
			if handlers[r.t] == "" {
				c.want(len(calls) == 0, "unsupported", pos, r.fn, "type %d is executed", r.t)
				_, why := rerrorText(r.x, o.st, bufContent(r.x, o.st, r.b), tag)
				c.want(why == "", "unsupported", o.pos, r.fn, "type %d is not answered with an Rerror: %s", r.t, why)
				continue
			}
			m := msgByType(r.t)
			for _, e := range calls {
				if len(e.args)-1 != len(m.fields) {
					c.fail("malformed", e.pos, r.fn, "%s: handler with %d arguments", m.name, len(e.args)-1)
					continue
				}
				end, why := matchDecoded(r.x, atCall(o.st, e), r.src, mkInt(2), m.fields, e.args[1:], c.nsTypes(e))
				if why != "" {
					c.fail("malformed", e.pos, r.fn, "%s: not known what is executed: %s", m.name, why)
					continue
				}
				c.want(o.st.proves(mkEqInt(end, mk("len", "", nil, r.src))), "malformed", e.pos, r.fn, "%s: executed though not shown that it is complete and nothing follows", m.name)
			}
			if len(calls) == 0 {
				_, why := rerrorText(r.x, o.st, bufContent(r.x, o.st, r.b), tag)
				c.want(why == "", "malformed", o.pos, r.fn, "%s that is not executed is not answered with an Rerror: %s", m.name, why)
			}
		}
	}
	c.need("early", 2*255)
	c.need("unsupported", 2*(256-len(handlers)))
	c.need("malformed", 2*len(handlers))
	c.need("versioned", 512)
}

// nsTypes is the parameter types of the handler an event calls.
func (c *Ctx) nsTypes(e *Event) []types.Type {
	it, _ := c.pr.NamedType("protocol", "NineServer").Underlying().(*types.Interface)
	for i := 0; it != nil && i < it.NumMethods(); i++ {
		m := it.Method(i)
		if m.Name() == strings.TrimPrefix(e.name, nsIface) {
			sig := m.Type().(*types.Signature)
			var ts []types.Type
			for j := 0; j < sig.Params().Len(); j++ {
				ts = append(ts, sig.Params().At(j).Type())
			}
			return ts
		}
	}
	return make([]types.Type, len(e.args))
}

func (c *Ctx) nsResTypes(name string) []types.Type {
	it, _ := c.pr.NamedType("protocol", "NineServer").Underlying().(*types.Interface)
	for i := 0; it != nil && i < it.NumMethods(); i++ {
		if it.Method(i).Name() == name {
			return resTypes(it.Method(i).Type().(*types.Signature))
		}
	}
	return nil
}

func checkReplies(c *Ctx) {
	for _, r := range c.dispatchRuns() {
		tag := mkSub(r.src, tZero, mkInt(2))
		ok := 0
		for _, o := range r.outs {
			if !c.want(o.kind == outRet, "reply", o.pos, r.fn, "type %d: a path ends without a reply", r.t) {
				continue
			}
			calls := nsCalls(o.st.events())
			got := bufContent(r.x, o.st, r.b)
			h := handlers[r.t]
			if !c.want(len(calls) <= 1, "once", r.fn.Pos(), r.fn, "type %d: %d handler calls", r.t, len(calls)) {
				continue
			}
			if len(calls) == 0 {
				text, why := rerrorText(r.x, o.st, got, tag)
				c.want(why == "", "reply", o.pos, r.fn, "type %d, not executed: %s", r.t, why)
				if why == "" {
					c.want(boundedText(o.st, text), "fits", o.pos, r.fn, "type %d: the text of the Rerror is not bounded: %v", r.t, text)
				}
				if h != "" && (r.vers || r.t == 100) {
					why := refutes(o.st, r.src, mkInt(2), msgByType(r.t).fields)
					c.want(why == "", "accepts", o.pos, r.fn, "%s: well-formed, and may not be executed: %s", msgByType(r.t).name, why)
				}
				continue
			}
			e := calls[0]
			name := strings.TrimPrefix(e.name, nsIface)
			if !c.want(name == h, "once", e.pos, r.fn, "type %d is executed by %s", r.t, name) {
				continue
			}
			m := msgByType(r.t)
			if len(e.args)-1 != len(m.fields) {
				c.fail("args", e.pos, r.fn, "%s: handler with %d arguments", m.name, len(e.args)-1)
				continue
			}
			_, why := matchDecoded(r.x, atCall(o.st, e), r.src, mkInt(2), m.fields, e.args[1:], c.nsTypes(e))
			c.want(why == "", "args", e.pos, r.fn, "%s: %s", m.name, why)
			c.want(e.args[0] == o.st.load(mk("faddr", "NS", nil, r.s), nil2(e.args[0])), "args", e.pos, r.fn, "%s goes to another server than the connection's: %v", m.name, e.args[0])
			n := len(e.res)
			if isNilT(e.res[n-1]) {
				ok++
				rm := msgByType(r.t + 1)
				why := matchMsg(r.x, o.st, got, encSpec{m: rm, tag: tag, vals: e.res[:n-1], typs: c.nsResTypes(h)})
				c.want(why == "", "reply", o.pos, r.fn, "%s, done: %s", m.name, why)
				continue
			}
			text, why := rerrorText(r.x, o.st, got, tag)
			if c.want(why == "", "error", o.pos, r.fn, "%s, failed: %s", m.name, why) {
				err := e.res[n-1]
				c.want(mentions(text, func(t *Term) bool { return t == err }), "error", o.pos, r.fn, "%s, failed: the reply does not tell why: %v", m.name, text)
				c.want(boundedText(o.st, text), "fits", o.pos, r.fn, "%s: the text of the Rerror is not bounded: %v", m.name, text)
			}
		}
		if handlers[r.t] != "" && (r.vers || r.t == 100) {
			c.want(ok > 0, "reply", r.fn.Pos(), r.fn, "%s is never answered with success", msgByType(r.t).name)
		}
	}
	c.need("reply", 512)
	c.need("once", 512)
	c.need("args", 2*len(handlers))
	c.need("accepts", 2*len(handlers))
	c.need("error", 2*len(handlers))
	c.need("fits", 512)
}

func nil2(t *Term) types.Type {
	if t.t != nil {
		return t.t
	}
	return types.NewInterfaceType(nil, nil)
}

// boundedText: the text is at most as long as a 9P string can be, whatever the
// parts of it that come from outside are.
func boundedText(st *State, t *Term) bool {
	n := textLen(st, t, 0)
	return n >= 0 && n <= 0xFFFF || st.proves(mkLe(contentLen(t), mkInt(0xFFFF)))
}

// textLen is a bound for the length of a text; negative if there is none.
func textLen(st *State, t *Term, depth int) int {
	if depth > 8 {
		return -1
	}
	if st.proves(mkLe(contentLen(t), mkInt(4096))) {
		return 4096
	}
	switch t.op {
	case "str":
		return len(t.s)
	case "iface":
		return textLen(st, t.args[0], depth+1)
	case "int", "lin", "bits", "in", "len", "cap", "sgn", "wrap":
		return 24
	case "cat":
		s := 0
		for _, a := range t.args {
			n := textLen(st, a, depth+1)
			if n < 0 {
				return -1
			}
			s += n
		}
		return s
	case "glob", "mapget":
		return 256
	case "sym":
		if _, _, ok := intInfo(t.t); t.t != nil && ok {
			return 24
		}
		// errors of the library, whose texts are constants
		for _, e := range []string{"nn:err:short#", "nn:io.EOF", "nn:io.Err", "nn:os.Err", "nn:io/fs.Err", "nn:net.Err"} {
			if strings.HasPrefix(t.s, e) {
				return 256
			}
		}
		return -1
	case "app":
		switch {
		case strings.HasPrefix(t.s, "mapget"):
			// a table of the program's own strings
			if g := t.args[0]; g.op == "sym" && strings.HasPrefix(g.s, "nn:"+modPath) {
				return 256
			}
			return -1
		case strings.HasSuffix(t.s, "fmt.Sprintf"), strings.HasSuffix(t.s, "fmt.Errorf"):
			if len(t.args) == 0 || t.args[0].op != "str" {
				return -1
			}
			return formatLen(st, t.args[0].s, t.args[1:], depth)
		case strings.HasSuffix(t.s, "errors.New"), strings.HasSuffix(t.s, "error.Error"), strings.HasSuffix(t.s, "fmt.Sprint"):
			s := 0
			for _, a := range t.args {
				n := textLen(st, a, depth+1)
				if n < 0 {
					return -1
				}
				s += n + 1
			}
			return s
		}
		if _, _, ok := intInfo(t.t); t.t != nil && ok {
			return 24
		}
	}
	return -1
}

func formatLen(st *State, f string, args []*Term, depth int) int {
	total, ai := 0, 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			total++
			continue
		}
		i++
		prec, inPrec, num := -1, false, 0
		for i < len(f) && strings.IndexByte("+-# 0123456789.", f[i]) >= 0 {
			if f[i] == '.' {
				inPrec, num = true, 0
			} else if f[i] >= '0' && f[i] <= '9' {
				num = num*10 + int(f[i]-'0')
			}
			if inPrec {
				prec = num
			} else {
				total += num
			}
			i++
		}
		if i >= len(f) {
			break
		}
		if f[i] == '%' {
			total++
			continue
		}
		if ai >= len(args) {
			total += 16
			continue
		}
		n := textLen(st, args[ai], depth+1)
		ai++
		switch f[i] {
		case 'v', 's':
			// the precision cuts strings to so many runes
			if prec >= 0 && (n < 0 || n > 4*prec) {
				n = 4 * prec
			}
		case 'd', 'x', 't', 'c':
			n = 80
		case 'q':
			if n >= 0 {
				n = 12*n + 2
			}
		}
		if n < 0 {
			return -1
		}
		total += n
	}
	return total
}

var _ = token.NoPos

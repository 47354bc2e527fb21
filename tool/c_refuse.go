package main

import (
	"go/types"
)

func init() {
	register(&Check{
		id:    "C38",
		title: "Requests that cannot be honoured are refused",
		rules: "fid: a request about a fid succeeds only on paths that found the fid in the table; new: a walk to another fid and an attach succeed only where the new fid was found to be free; auth: an attach succeeds only where the authentication fid is NOFID; open: a read or write succeeds only where the fid was found open, an open or create only where it was found not to be, a walk of an open fid onto itself never; record: a wstat succeeds only where the record was found whole, with no owner and no group to set; target: a rename happens only where its target was looked at and is not a directory or not there",
		run:   checkRefusals,
	})
}

func checkRefusals(c *Ctx) {
	s := c.fs()
	if s == nil {
		return
	}
	str := types.Typ[types.String]
	for _, n := range handlerNames {
		r := s.runs[n]
		for _, p := range s.paths(c, r, "fid") {
			if !p.good {
				continue
			}
			fid := p.fid()
			if fid != nil && n != "Rattach" {
				c.want(p.known(fid), "fid", p.o.pos, r.fn, "%s succeeds on a fid that was not found", n)
			}
			if n == "Rattach" {
				c.want(p.st.proves(mkEqInt(r.args[1], mkInt(0xFFFFFFFF))), "auth", p.o.pos, r.fn, "an attach with an authentication fid may succeed")
				c.want(p.unknown(r.args[0]), "new", p.o.pos, r.fn, "an attach to a fid in use may succeed")
			}
			handle := func(k *Term, open bool) bool {
				for _, f := range p.st.facts {
					g, neg := f, false
					if f.op == "not" {
						g, neg = f.args[0], true
					}
					if g.op != "eq" || neg != open {
						continue
					}
					for i := 0; i < 2; i++ {
						if isNilT(g.args[i]) && p.ofFile(g.args[1-i], k, s.handle) {
							return true
						}
					}
				}
				return false
			}
			switch n {
			case "Rread", "Rwrite":
				c.want(handle(fid, true), "open", p.o.pos, r.fn, "%s succeeds on a fid that is not known to be open", n)
			case "Ropen", "Rcreate":
				c.want(handle(fid, false), "open", p.o.pos, r.fn, "%s succeeds on a fid that may be open", n)
			case "Rwalk":
				same := p.st.proves(mkEqInt(fid, r.args[1]))
				moved := false
				for _, e := range p.es {
					if e.kind == "mapset" && s.isTable(e.args[0]) || e.kind == "store" && e.args[0].op == "faddr" && e.args[0].s == s.name && p.anyFile(e.args[0].args[0]) {
						moved = true
					}
				}
				if moved && !same {
					c.want(p.unknown(r.args[1]), "new", p.o.pos, r.fn, "a walk to a fid in use may succeed")
				}
				if moved && same {
					c.want(handle(fid, false), "open", p.o.pos, r.fn, "an open fid may be walked")
				}
			case "Rwstat":
				b := r.args[1]
				dname := decField(b, mkInt(41), field{"", fstr})
				uid := decField(b, dname.end, field{"", fstr})
				gid := decField(b, uid.end, field{"", fstr})
				for _, t := range []*Term{uid.val, gid.val} {
					c.want(p.st.proves(mkEqInt(contentLen(t), tZero)) || p.st.proves(mkEq(t, mkStr(""), str)), "record", p.o.pos, r.fn, "a wstat that is to set the owner or group may succeed")
				}
				last := decField(b, gid.end, field{"", fstr})
				c.want(p.st.proves(mkLe(last.end, mk("len", "", nil, b))), "record", p.o.pos, r.fn, "a wstat whose record is cut off may succeed")
			}
		}
	}
	// renames
	r := s.runs["Rwstat"]
	for _, p := range s.paths(c, r, "target") {
		for i, e := range p.es {
			if !callIs(e, "os.Rename") {
				continue
			}
			ok := false
			for _, k := range p.es[:i] {
				if !statCall(k) || k.args[0] != e.args[1] {
					continue
				}
				if failedCall(k) {
					ok = true
					continue
				}
				if p.st.proves(mkEqInt(bitRange(fiMode(k.res[0]), 32, 31, 32), tZero)) || p.st.proves(notT(mkApp("FileInfo.IsDir", types.Typ[types.Bool], k.res[0]))) {
					ok = true
				}
			}
			c.want(ok, "target", e.pos, r.fn, "a file may be renamed onto a directory, %v", e.args[1])
		}
	}
	c.need("fid", 50)
	c.need("auth", 1)
	c.need("new", 3)
	c.need("open", 10)
	c.need("record", 50)
	c.need("target", 10)
}

package main

import "go/types"

// The 9P2000 wire format, from the manual pages intro(5) to wstat(5) and
// stat(5): written down here independently of the code under analysis.

type fkind int

const (
	u8 fkind = iota
	u16
	u32
	u64
	fstr   // s[s]: 2 bytes of length, then the bytes
	fqid   // type[1] vers[4] path[8]
	data32 // count[4] data[count]
	data16 // n[2] data[n]
	fstrs  // n[2] n*(s[s])
	fqids  // n[2] n*(qid[13])
)

type field struct {
	name string
	kind fkind
}

type message struct {
	name   string
	typ    int64
	fields []field
}

var messages = []message{
	{"Tversion", 100, []field{{"msize", u32}, {"version", fstr}}},
	{"Rversion", 101, []field{{"msize", u32}, {"version", fstr}}},
	{"Tattach", 104, []field{{"fid", u32}, {"afid", u32}, {"uname", fstr}, {"aname", fstr}}},
	{"Rattach", 105, []field{{"qid", fqid}}},
	{"Rerror", 107, []field{{"ename", fstr}}},
	{"Tflush", 108, []field{{"oldtag", u16}}},
	{"Rflush", 109, nil},
	{"Twalk", 110, []field{{"fid", u32}, {"newfid", u32}, {"wname", fstrs}}},
	{"Rwalk", 111, []field{{"wqid", fqids}}},
	{"Topen", 112, []field{{"fid", u32}, {"mode", u8}}},
	{"Ropen", 113, []field{{"qid", fqid}, {"iounit", u32}}},
	{"Tcreate", 114, []field{{"fid", u32}, {"name", fstr}, {"perm", u32}, {"mode", u8}}},
	{"Rcreate", 115, []field{{"qid", fqid}, {"iounit", u32}}},
	{"Tread", 116, []field{{"fid", u32}, {"offset", u64}, {"count", u32}}},
	{"Rread", 117, []field{{"data", data32}}},
	{"Twrite", 118, []field{{"fid", u32}, {"offset", u64}, {"data", data32}}},
	{"Rwrite", 119, []field{{"count", u32}}},
	{"Tclunk", 120, []field{{"fid", u32}}},
	{"Rclunk", 121, nil},
	{"Tremove", 122, []field{{"fid", u32}}},
	{"Rremove", 123, nil},
	{"Tstat", 124, []field{{"fid", u32}}},
	{"Rstat", 125, []field{{"stat", data16}}},
	{"Twstat", 126, []field{{"fid", u32}, {"stat", data16}}},
	{"Rwstat", 127, nil},
}

// The stat record, after its size[2].
var statFields = []field{
	{"type", u16}, {"dev", u32}, {"qid", fqid}, {"mode", u32}, {"atime", u32}, {"mtime", u32},
	{"length", u64}, {"name", fstr}, {"uid", fstr}, {"gid", fstr}, {"muid", fstr},
}

var wireConsts = map[string]int64{
	"Tversion": 100, "Rversion": 101, "Tauth": 102, "Rauth": 103, "Tattach": 104, "Rattach": 105, "Rerror": 107,
	"Tflush": 108, "Rflush": 109, "Twalk": 110, "Rwalk": 111, "Topen": 112, "Ropen": 113, "Tcreate": 114, "Rcreate": 115,
	"Tread": 116, "Rread": 117, "Twrite": 118, "Rwrite": 119, "Tclunk": 120, "Rclunk": 121, "Tremove": 122, "Rremove": 123,
	"Tstat": 124, "Rstat": 125, "Twstat": 126, "Rwstat": 127,
	"NOTAG": 0xFFFF, "NOFID": 0xFFFFFFFF,
	"QTDIR": 0x80, "QTAPPEND": 0x40, "QTEXCL": 0x20, "QTMOUNT": 0x10, "QTAUTH": 0x08, "QTTMP": 0x04, "QTSYMLINK": 0x02, "QTFILE": 0,
	"OREAD": 0, "OWRITE": 1, "ORDWR": 2, "OEXEC": 3, "OTRUNC": 0x10, "OCEXEC": 0x20, "ORCLOSE": 0x40,
	"DMDIR": 0x80000000, "DMAPPEND": 0x40000000, "DMEXCL": 0x20000000, "DMMOUNT": 0x10000000, "DMAUTH": 0x08000000, "DMTMP": 0x04000000,
	"DMREAD": 4, "DMWRITE": 2, "DMEXEC": 1,
	"IOHDRSZ": 24, "QIDLen": 13,
}

func msgByName(n string) *message {
	for i := range messages {
		if messages[i].name == n {
			return &messages[i]
		}
	}
	return nil
}

func msgByType(t int64) *message {
	for i := range messages {
		if messages[i].typ == t {
			return &messages[i]
		}
	}
	return nil
}

func width(k fkind) int {
	switch k {
	case u8:
		return 1
	case u16:
		return 2
	case u32:
		return 4
	case u64:
		return 8
	}
	return 0
}

// encInt is v in n bytes, low first.
func encInt(v *Term, n int) *Term {
	var ps []*Term
	for i := 0; i < n; i++ {
		ps = append(ps, mkByte(byteOf(v, i)))
	}
	return mkCat(ps...)
}

var qidFields = []string{"Type", "Version", "Path"}

func fieldByName(v *Term, t types.Type, name string) *Term {
	s, _ := derefStruct(t)
	if s == nil && v.t != nil {
		s, _ = derefStruct(v.t)
		t = v.t
	}
	if s == nil {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return fieldVal(v, i, t)
		}
	}
	return nil
}

func encQID(v *Term, t types.Type) *Term {
	a, b, c := fieldByName(v, t, "Type"), fieldByName(v, t, "Version"), fieldByName(v, t, "Path")
	if a == nil || b == nil || c == nil {
		return mkSym("?qid", nil)
	}
	return mkCat(encInt(a, 1), encInt(b, 4), encInt(c, 8))
}

func encStr(content *Term) *Term { return mkCat(encInt(contentLen(content), 2), content) }

// encField is the encoding of a field that is not a list.
func encField(x *Exec, st *State, f field, v *Term, t types.Type) *Term {
	switch f.kind {
	case u8, u16, u32, u64:
		return encInt(v, width(f.kind))
	case fstr:
		return encStr(x.bytesOf(st, v))
	case fqid:
		return encQID(v, t)
	case data32:
		c := x.bytesOf(st, v)
		return mkCat(encInt(contentLen(c), 4), c)
	case data16:
		c := x.bytesOf(st, v)
		return mkCat(encInt(contentLen(c), 2), c)
	}
	return nil
}

// decInt reads n bytes at pos.
func decInt(src, pos *Term, n int) *Term {
	var bs []*Term
	for i := 0; i < n; i++ {
		bs = append(bs, mkIn(src, addC(pos, int64(i))))
	}
	return le(bs...)
}

// A decoded field: its value as a term, or as the content of a string.
type decoded struct {
	kind  fkind
	val   *Term   // integers, content of strings and data
	parts []*Term // qid
	need  []*Term // positions the source must reach
	end   *Term   // where it ends
	count *Term   // lists
	start *Term   // lists: the first element
}

func decField(src, pos *Term, f field) decoded {
	d := decoded{kind: f.kind}
	switch f.kind {
	case u8, u16, u32, u64:
		n := width(f.kind)
		d.val = decInt(src, pos, n)
		d.end = addC(pos, int64(n))
	case fqid:
		d.parts = []*Term{decInt(src, pos, 1), decInt(src, addC(pos, 1), 4), decInt(src, addC(pos, 5), 8)}
		d.end = addC(pos, 13)
	case fstr, data16:
		n := decInt(src, pos, 2)
		d.val = mkSub(src, addC(pos, 2), n)
		d.end = addT(addC(pos, 2), n)
	case data32:
		n := decInt(src, pos, 4)
		d.val = mkSub(src, addC(pos, 4), n)
		d.end = addT(addC(pos, 4), n)
	case fstrs, fqids:
		d.count = decInt(src, pos, 2)
		d.start = addC(pos, 2)
	}
	return d
}

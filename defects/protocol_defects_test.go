// Demonstrations of the genuine defects found in the protocol package at the
// base commit (documentation, not a check: see DESIGN.md).  Run with
// run.sh; each fails on base and passes on the repaired tree.
package protocol

import (
	"bytes"
	"io"
	"net"
	"strings"
	"sync"
	"testing"
	"time"
)

type rec struct {
	echo
	mu    sync.Mutex
	calls []string
}

func (r *rec) Rremove(f FID) error { r.mu.Lock(); r.calls = append(r.calls, "remove"); r.mu.Unlock(); return nil }
func (r *rec) Rwrite(f FID, o Offset, b []byte) (Count, error) {
	r.mu.Lock()
	r.calls = append(r.calls, "write:"+string(b))
	r.mu.Unlock()
	return Count(len(b)), nil
}
func (r *rec) n() int { r.mu.Lock(); defer r.mu.Unlock(); return len(r.calls) }

func srv(t *testing.T) (*rec, net.Conn) {
	p, p2 := net.Pipe()
	r := &rec{}
	l, _ := NewListener(func() NineServer { return r })
	l.Accept(p2)
	var b bytes.Buffer
	MarshalTversionPkt(&b, 1, 8192, "9P2000")
	p.Write(b.Bytes())
	reply(t, p)
	return r, p
}

func reply(t *testing.T, p net.Conn) []byte {
	p.SetDeadline(time.Now().Add(3 * time.Second))
	h := make([]byte, 7)
	if _, err := io.ReadFull(p, h); err != nil {
		t.Fatalf("no reply: %v", err)
	}
	n := int(h[0]) | int(h[1])<<8 | int(h[2])<<16
	b := make([]byte, n-7)
	io.ReadFull(p, b)
	return append(h, b...)
}

func mustErr(t *testing.T, f func() error) {
	defer func() {
		if e := recover(); e != nil {
			t.Errorf("panic: %v", e)
		}
	}()
	if err := f(); err == nil {
		t.Errorf("malformed message accepted")
	}
}

// Byte-counted fields were sliced without a bounds check.
func TestDefectCountedField(t *testing.T) {
	mustErr(t, func() error {
		_, _, _, _, err := UnmarshalTwritePkt(bytes.NewBuffer([]byte{1, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 255, 255, 0, 0, 'x'}))
		return err
	})
	mustErr(t, func() error {
		_, _, _, err := UnmarshalTwstatPkt(bytes.NewBuffer([]byte{1, 0, 2, 0, 0, 0, 255, 255}))
		return err
	})
}

// A fixed-width field that is cut short was accepted.
func TestDefectShortInt(t *testing.T) {
	mustErr(t, func() error {
		_, _, err := UnmarshalTremovePkt(bytes.NewBuffer([]byte{1, 0, 2}))
		return err
	})
}

// The server executed requests that did not decode.
func TestDefectMalformedExecuted(t *testing.T) {
	r, p := srv(t)
	p.Write([]byte{7, 0, 0, 0, byte(Tremove), 1, 0})
	if b := reply(t, p); MType(b[4]) != Rerror || r.n() != 0 {
		t.Errorf("reply %v, calls %v", b, r.calls)
	}
}

// The server gave up on a header that arrived in two pieces.
func TestDefectFragmentedHeader(t *testing.T) {
	_, p := srv(t)
	m := []byte{11, 0, 0, 0, byte(Tclunk), 1, 0, 2, 0, 0, 0}
	p.SetDeadline(time.Now().Add(3 * time.Second))
	p.Write(m[:3])
	p.Write(m[3:])
	reply(t, p)
}

// A request cut off by the end of the connection was executed.
func TestDefectTruncatedExecuted(t *testing.T) {
	r, p := srv(t)
	m := []byte{23, 0, 0, 0, byte(Twrite), 1, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}
	m[0] = 200
	p.Write(m)
	p.Close()
	time.Sleep(100 * time.Millisecond)
	if r.n() != 0 {
		t.Errorf("executed %v", r.calls)
	}
}

func cli(t *testing.T) (*Client, net.Conn) {
	p, p2 := net.Pipe()
	c, err := NewClient(func(c *Client) error { c.FromNet, c.ToNet = p, p; return nil })
	if err != nil {
		t.Fatal(err)
	}
	return c, p2
}

func within(t *testing.T, f func()) {
	ch := make(chan bool)
	go func() { f(); close(ch) }()
	select {
	case <-ch:
	case <-time.After(3 * time.Second):
		t.Fatal("hung")
	}
}

// A client without a Trace function crashed on its first reply.
func TestDefectNilTrace(t *testing.T) {
	c, p := cli(t)
	go func() {
		reply(t, p)
		var b bytes.Buffer
		MarshalRclunkPkt(&b, 1)
		p.Write(b.Bytes())
	}()
	within(t, func() {
		if err := c.CallTclunk(1); err != nil {
			t.Error(err)
		}
	})
}

// The client crashed when the server hung up, and calls hung.
func TestDefectHangup(t *testing.T) {
	c, p := cli(t)
	go func() { reply(t, p); p.Close() }()
	within(t, func() {
		if err := c.CallTclunk(1); err == nil {
			t.Error("want error")
		}
		if err := c.CallTclunk(1); err == nil {
			t.Error("want error")
		}
	})
}

// A reply with a tag that is not outstanding crashed the client.
func TestDefectStrayTag(t *testing.T) {
	c, p := cli(t)
	go func() {
		h := reply(t, p)
		for _, tag := range []Tag{0, 9, NOTAG, Tag(h[5]) | Tag(h[6])<<8} {
			var b bytes.Buffer
			MarshalRclunkPkt(&b, tag)
			p.Write(b.Bytes())
		}
	}()
	within(t, func() {
		if err := c.CallTclunk(1); err != nil {
			t.Error(err)
		}
	})
}

// A reply of the wrong type was decoded as if it were the right one.
func TestDefectWrongReply(t *testing.T) {
	c, p := cli(t)
	go func() {
		h := reply(t, p)
		var b bytes.Buffer
		MarshalRremovePkt(&b, Tag(h[5])|Tag(h[6])<<8)
		p.Write(b.Bytes())
	}()
	within(t, func() {
		if err := c.CallTclunk(1); err == nil {
			t.Error("Rremove accepted as the reply to Tclunk")
		}
	})
}

// An error text longer than a 9P string made an undecodable Rerror.
func TestDefectLongError(t *testing.T) {
	_, p := srv(t)
	var b bytes.Buffer
	MarshalTversionPkt(&b, 1, 8192, strings.Repeat("x", 65535))
	p.Write(b.Bytes())
	if _, _, err := UnmarshalRerrorPkt(bytes.NewBuffer(reply(t, p)[5:])); err != nil {
		t.Error(err)
	}
}

package ufs

import (
	"bytes"
	"io/ioutil"
	"os"
	"path"
	"testing"
	"time"

	"github.com/Harvey-OS/ninep/protocol"
)

func fs(t *testing.T) (*FileServer, string) {
	d := t.TempDir()
	os.MkdirAll(path.Join(d, "root/dir"), 0777)
	ioutil.WriteFile(path.Join(d, "root/f"), []byte("hello"), 0666)
	ioutil.WriteFile(path.Join(d, "secret"), []byte("secret"), 0666)
	f := &FileServer{files: make(map[protocol.FID]*file), rootPath: path.Join(d, "root"), IOunit: 8192}
	f.Rversion(8192, "9P2000")
	if _, err := f.Rattach(0, protocol.NOFID, "", ""); err != nil {
		t.Fatal(err)
	}
	return f, d
}

func TestDefectWalkOut(t *testing.T) {
	f, _ := fs(t)
	if q, err := f.Rwalk(0, 1, []string{"..", "secret"}); err == nil && len(q) == 2 {
		t.Error("walked out of the root")
	}
	if q, err := f.Rwalk(0, 2, []string{"../secret"}); err == nil && len(q) == 1 {
		t.Error("walked out of the root")
	}
}

func TestDefectCreateOut(t *testing.T) {
	f, d := fs(t)
	f.Rwalk(0, 1, nil)
	f.Rcreate(1, "../evil", 0666, protocol.OWRITE)
	if _, err := os.Stat(path.Join(d, "evil")); err == nil {
		t.Error("created outside the root")
	}
}

func wstat(f *FileServer, fid protocol.FID, ch func(*protocol.Dir)) error {
	d := protocol.Dir{Mode: ^uint32(0), Atime: ^uint32(0), Mtime: ^uint32(0), Length: ^uint64(0)}
	ch(&d)
	var b bytes.Buffer
	protocol.Marshaldir(&b, d)
	return f.Rwstat(fid, b.Bytes())
}

func TestDefectRenameOut(t *testing.T) {
	f, d := fs(t)
	f.Rwalk(0, 1, []string{"f"})
	wstat(f, 1, func(d *protocol.Dir) { d.Name = "/../gone" })
	if _, err := os.Stat(path.Join(d, "gone")); err == nil {
		t.Error("renamed out of the root")
	}
	f, d = fs(t)
	wstat(f, 0, func(d *protocol.Dir) { d.Name = "moved" })
	if _, err := os.Stat(path.Join(d, "moved")); err == nil {
		t.Error("renamed the root out of itself")
	}
}

func TestDefectMkdirError(t *testing.T) {
	f, _ := fs(t)
	f.Rwalk(0, 1, nil)
	if _, _, err := f.Rcreate(1, "dir", protocol.DMDIR|0777, 0); err == nil {
		t.Error("mkdir of an existing directory succeeded")
	}
	f.Rwalk(0, 2, nil)
	if _, _, err := f.Rcreate(2, "f", protocol.DMDIR|0777, 0); err == nil {
		t.Error("mkdir over an existing file succeeded")
	}
}

func TestDefectReopenLeaks(t *testing.T) {
	f, _ := fs(t)
	f.Rwalk(0, 1, []string{"f"})
	f.Ropen(1, protocol.OREAD)
	h := f.files[1].file
	f.Ropen(1, protocol.OREAD)
	f.Rclunk(1)
	if h.Close() == nil {
		t.Error("first handle still open after clunk")
	}
}

func TestDefectCloneSharesHandle(t *testing.T) {
	f, _ := fs(t)
	f.Rwalk(0, 1, []string{"f"})
	f.Ropen(1, protocol.OREAD)
	f.Rwalk(1, 2, nil)
	f.Rclunk(2)
	if _, err := f.Rread(1, 0, 5); err != nil {
		t.Errorf("clunk of the clone closed the original: %v", err)
	}
}

func TestDefectAttachInUse(t *testing.T) {
	f, _ := fs(t)
	f.Rwalk(0, 1, []string{"f"})
	if _, err := f.Rattach(1, protocol.NOFID, "", ""); err == nil {
		t.Error("attach over a fid in use succeeded")
	}
}

func TestDefectVersionKeepsFids(t *testing.T) {
	f, _ := fs(t)
	f.Rwalk(0, 1, []string{"f"})
	f.Rversion(8192, "9P2000")
	if _, err := f.Rstat(1); err == nil {
		t.Error("fid survived Tversion")
	}
}

func TestDefectNegativeCount(t *testing.T) {
	defer func() {
		if e := recover(); e != nil {
			t.Errorf("panic: %v", e)
		}
	}()
	f, _ := fs(t)
	f.Rwalk(0, 1, []string{"f"})
	f.Ropen(1, protocol.OREAD)
	f.Rread(1, 0, -1)
}

func TestDefectDeniedWstatChanges(t *testing.T) {
	f, d := fs(t)
	f.Rwalk(0, 1, []string{"f"})
	if err := wstat(f, 1, func(d *protocol.Dir) { d.Mode = 0600; d.User = "x" }); err == nil {
		t.Error("want error")
	}
	if st, _ := os.Stat(path.Join(d, "root/f")); st.Mode()&0777 == 0600 {
		t.Error("refused wstat changed the mode")
	}
}

func TestDefectMtimeOnlySetsAtime(t *testing.T) {
	f, d := fs(t)
	f.Rwalk(0, 1, []string{"f"})
	at := time.Unix(1000, 0)
	os.Chtimes(path.Join(d, "root/f"), at, at)
	wstat(f, 1, func(d *protocol.Dir) { d.Mtime = 2000 })
	if got := atimeOf(path.Join(d, "root/f")); got.Unix() != 1000 {
		t.Errorf("atime changed to %v", got)
	}
}

func TestDefectDirEntryLost(t *testing.T) {
	f, d := fs(t)
	for _, n := range []string{"a", "b", "c"} {
		ioutil.WriteFile(path.Join(d, "root", n), nil, 0666)
	}
	f.Rwalk(0, 1, nil)
	f.Ropen(1, protocol.OREAD)
	names := map[string]bool{}
	off := 0
	for i := 0; i < 100; i++ {
		// every other read is too small for an entry
		b, err := f.Rread(1, protocol.Offset(off), protocol.Count([]int{8192, 10}[i%2]))
		if err != nil {
			t.Fatal(err)
		}
		if len(b) == 0 {
			if i%2 == 1 {
				continue
			}
			break
		}
		off += len(b)
		e, err := protocol.Unmarshaldir(bytes.NewBuffer(b))
		if err != nil {
			t.Fatal(err)
		}
		names[e.Name] = true
	}
	if len(names) != 5 {
		t.Errorf("%d entries of 5 were returned: %v", len(names), names)
	}
}

func TestDefectCloneToItself(t *testing.T) {
	f, _ := fs(t)
	f.Rwalk(0, 1, []string{"dir"})
	if _, err := f.Rwalk(1, 1, nil); err != nil {
		t.Error(err)
	}
}

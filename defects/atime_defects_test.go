package ufs

import (
	"os"
	"syscall"
	"time"
)

func atimeOf(n string) time.Time {
	st, _ := os.Stat(n)
	s := st.Sys().(*syscall.Stat_t)
	return time.Unix(s.Atim.Sec, s.Atim.Nsec)
}

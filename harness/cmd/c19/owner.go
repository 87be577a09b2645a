package main

import (
	"os"
	"syscall"
)

type ownerOf struct{ uid, gid int }

func (o *ownerOf) of(p string) bool {
	fi, err := os.Stat(p)
	if err != nil {
		return false
	}
	st := fi.Sys().(*syscall.Stat_t)
	o.uid, o.gid = int(st.Uid), int(st.Gid)
	return true
}

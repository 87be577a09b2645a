package h

import (
	"syscall"
	"unsafe"
)

// Utimensat sets the times of a file without following it.
func Utimensat(p string, ts []syscall.Timespec) error {
	b, err := syscall.BytePtrFromString(p)
	if err != nil {
		return err
	}
	const atFDCWD = -100
	fd := atFDCWD
	_, _, e := syscall.Syscall6(syscall.SYS_UTIMENSAT, uintptr(fd), uintptr(unsafe.Pointer(b)), uintptr(unsafe.Pointer(&ts[0])), 0x100, 0, 0)
	if e != 0 {
		return e
	}
	return nil
}

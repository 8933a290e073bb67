// prepare writes the overlay with which the programs under observation are
// built: the toolchain's syscall package with a hook in Syscall and Syscall6.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

func fatal(a ...any) { fmt.Fprintln(os.Stderr, append([]any{"prepare:"}, a...)...); os.Exit(2) }

const hook = `// Code added by the verification overlay.
package syscall

import (
	"internal/runtime/atomic"
	"unsafe"
)

var verifFd uintptr
var verifLock uint32
var verifSeq uint64
var verifMask [16]uint64
var verifHead [14]uint64
var verifReply [2]uint64

func init() {
	s, ok := Getenv("VERIF_FD")
	if !ok {
		return
	}
	fd := uintptr(0)
	for i := 0; i < len(s); i++ {
		fd = fd*10 + uintptr(s[i]-'0')
	}
	t, _ := Getenv("VERIF_TRAPS")
	n := 0
	for i := 0; i <= len(t); i++ {
		if i == len(t) || t[i] == ',' {
			if n < 1024 {
				verifMask[n/64] |= 1 << (uint(n) % 64)
			}
			n = 0
		} else {
			n = n*10 + int(t[i]-'0')
		}
	}
	verifFd = fd
}

//go:nosplit
func verifAll(trap, p, n uintptr) {
	for n > 0 {
		r, _, e := RawSyscall6(trap, verifFd, p, n, 0, 0, 0)
		if e == EINTR || e == EAGAIN {
			continue
		}
		if e != 0 || r == 0 {
			RawSyscall6(SYS_EXIT_GROUP, 97, 0, 0, 0, 0, 0)
		}
		p += r
		n -= r
	}
}

//go:nosplit
func verifStr(p uintptr) uintptr {
	n := uintptr(0)
	for p != 0 && n < 4096 && *(*byte)(unsafe.Pointer(p + n)) != 0 {
		n++
	}
	return n
}

//go:nosplit
func verifEnter() {
	for !atomic.Cas(&verifLock, 0, 1) {
		RawSyscall6(SYS_SCHED_YIELD, 0, 0, 0, 0, 0, 0)
	}
}

//go:nosplit
func verifPre(trap, a1, a2, a3, a4, a5, a6 uintptr) (act, val, seq uintptr) {
	var p1, p2, d, l1, l2, ld uintptr
	switch trap {
	case SYS_OPEN, SYS_UNLINK, SYS_MKDIR, SYS_RMDIR, SYS_CHMOD, SYS_TRUNCATE, SYS_STAT, SYS_LSTAT, SYS_CREAT, SYS_ACCESS, SYS_CHOWN, SYS_READLINK:
		p1 = a1
	case SYS_RENAME, SYS_LINK, SYS_SYMLINK:
		p1, p2 = a1, a2
	case SYS_OPENAT, SYS_UNLINKAT, SYS_MKDIRAT, SYS_FCHMODAT, SYS_NEWFSTATAT, SYS_FACCESSAT, SYS_FCHOWNAT, SYS_READLINKAT, SYS_UTIMENSAT, SYS_MKNODAT, 332, 439, 452:
		p1 = a2
	case SYS_RENAMEAT, SYS_LINKAT, 316:
		p1, p2 = a2, a4
	case SYS_SYMLINKAT:
		p1, p2 = a1, a3
	case SYS_WRITE, SYS_PWRITE64:
		d, ld = a2, a3
	}
	l1, l2 = verifStr(p1), verifStr(p2)
	verifEnter()
	verifSeq++
	seq = uintptr(verifSeq)
	h := &verifHead
	h[0], h[1], h[2] = 1, uint64(seq), uint64(trap)
	h[3], h[4], h[5], h[6], h[7], h[8] = uint64(a1), uint64(a2), uint64(a3), uint64(a4), uint64(a5), uint64(a6)
	h[9], h[10], h[11], h[12], h[13] = uint64(l1), uint64(l2), uint64(ld), 0, 0
	verifAll(SYS_WRITE, uintptr(unsafe.Pointer(h)), 112)
	verifAll(SYS_WRITE, p1, l1)
	verifAll(SYS_WRITE, p2, l2)
	verifAll(SYS_WRITE, d, ld)
	verifAll(SYS_READ, uintptr(unsafe.Pointer(&verifReply)), 16)
	act, val = uintptr(verifReply[0]), uintptr(verifReply[1])
	atomic.Store(&verifLock, 0)
	return
}

//go:nosplit
func verifPost(trap, seq, r1 uintptr, e Errno) {
	verifEnter()
	h := &verifHead
	h[0], h[1], h[2] = 2, uint64(seq), uint64(trap)
	h[3], h[4] = uint64(r1), uint64(e)
	h[9], h[10], h[11] = 0, 0, 0
	verifAll(SYS_WRITE, uintptr(unsafe.Pointer(h)), 112)
	atomic.Store(&verifLock, 0)
}

//go:nosplit
func verifCall(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno) {
	if verifFd == 0 || trap >= 1024 || verifMask[trap/64]&(1<<(trap%64)) == 0 {
		return RawSyscall6(trap, a1, a2, a3, a4, a5, a6)
	}
	act, val, seq := verifPre(trap, a1, a2, a3, a4, a5, a6)
	switch act {
	case 1: // fail
		r1, err = ^uintptr(0), Errno(val)
	case 2: // shorten the transfer
		r1, r2, err = RawSyscall6(trap, a1, a2, val, a4, a5, a6)
	default:
		r1, r2, err = RawSyscall6(trap, a1, a2, a3, a4, a5, a6)
	}
	verifPost(trap, seq, r1, err)
	return
}
`

func main() {
	out := os.Args[1]
	if err := os.MkdirAll(out, 0755); err != nil {
		fatal(err)
	}
	if len(os.Args) == 4 && os.Args[2] == "sched" {
		prepareSched(out, os.Args[3])
		return
	}
	b, err := exec.Command("go", "env", "GOROOT").Output()
	if err != nil {
		fatal(err)
	}
	src := filepath.Join(strings.TrimSpace(string(b)), "src", "syscall")
	file := filepath.Join(src, "syscall_linux.go")
	c, err := os.ReadFile(file)
	if err != nil {
		fatal(err)
	}
	s := string(c)
	for _, p := range [][2]string{
		{"\truntime_entersyscall()\n\tr1, r2, err = RawSyscall6(trap, a1, a2, a3, a4, a5, a6)\n", "\truntime_entersyscall()\n\tr1, r2, err = verifCall(trap, a1, a2, a3, a4, a5, a6)\n"},
		{"\tr1, r2, err = RawSyscall6(trap, a1, a2, a3, 0, 0, 0)\n\truntime_exitsyscall()\n", "\tr1, r2, err = verifCall(trap, a1, a2, a3, 0, 0, 0)\n\truntime_exitsyscall()\n"},
	} {
		if strings.Count(s, p[0]) != 1 {
			fatal("the toolchain's syscall package is not the expected one")
		}
		s = strings.Replace(s, p[0], p[1], 1)
	}
	write := func(name, text string) string {
		p := filepath.Join(out, name)
		if old, err := os.ReadFile(p); err != nil || string(old) != text {
			if err := os.WriteFile(p, []byte(text), 0644); err != nil {
				fatal(err)
			}
		}
		return p
	}
	ov := map[string]map[string]string{"Replace": {
		file:                                    write("syscall_linux.go", s),
		filepath.Join(src, "zz_verif_linux.go"): write("zz_verif_linux.go", hook),
	}}
	j, _ := json.MarshalIndent(ov, "", " ")
	write("overlay.json", string(j))
}

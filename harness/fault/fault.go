// Package fault runs a program built with the syscall overlay and decides on
// every file operation it makes.
package fault

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Numbers of the observed system calls (linux/amd64).
const (
	Read          = 0
	Write         = 1
	Open          = 2
	Close         = 3
	Stat          = 4
	Fstat         = 5
	Lstat         = 6
	Lseek         = 8
	Mmap          = 9
	Pread         = 17
	Pwrite        = 18
	Readv         = 19
	Writev        = 20
	Dup           = 32
	Dup2          = 33
	Sendfile      = 40
	Fcntl         = 72
	Flock         = 73
	Fsync         = 74
	Fdatasync     = 75
	Truncate      = 76
	Ftruncate     = 77
	Getdents      = 217
	Rename        = 82
	Mkdir         = 83
	Rmdir         = 84
	Creat         = 85
	Link          = 86
	Unlink        = 87
	Symlink       = 88
	Readlink      = 89
	Chmod         = 90
	Fchmod        = 91
	Chown         = 92
	Fchown        = 93
	Openat        = 257
	Mkdirat       = 258
	Fchownat      = 260
	Newfstatat    = 262
	Unlinkat      = 263
	Renameat      = 264
	Linkat        = 265
	Symlinkat     = 266
	Readlinkat    = 267
	Fchmodat      = 268
	Faccessat     = 269
	Splice        = 275
	SyncFileRange = 277
	Utimensat     = 280
	Fallocate     = 285
	Dup3          = 292
	Preadv        = 295
	Pwritev       = 296
	Renameat2     = 316
	CopyFileRange = 326
	Statx         = 332
	Faccessat2    = 439
	Fchmodat2     = 452
	Sync          = 162
	Syncfs        = 306
)

var names = map[uint64]string{Read: "read", Write: "write", Open: "open", Close: "close", Stat: "stat", Fstat: "fstat", Lstat: "lstat",
	Lseek: "lseek", Mmap: "mmap", Pread: "pread", Pwrite: "pwrite", Readv: "readv", Writev: "writev", Dup: "dup", Dup2: "dup2",
	Sendfile: "sendfile", Fcntl: "fcntl", Flock: "flock", Fsync: "fsync", Fdatasync: "fdatasync", Truncate: "truncate", Ftruncate: "ftruncate",
	Getdents: "getdents", Rename: "rename", Mkdir: "mkdir", Rmdir: "rmdir", Creat: "creat", Link: "link", Unlink: "unlink", Symlink: "symlink",
	Readlink: "readlink", Chmod: "chmod", Fchmod: "fchmod", Chown: "chown", Fchown: "fchown", Openat: "openat", Mkdirat: "mkdirat",
	Fchownat: "fchownat", Newfstatat: "stat", Unlinkat: "unlink", Renameat: "rename", Linkat: "link", Symlinkat: "symlink", Readlinkat: "readlink",
	Fchmodat: "fchmodat", Faccessat: "access", Splice: "splice", SyncFileRange: "sync_file_range", Utimensat: "utimens", Fallocate: "fallocate",
	Dup3: "dup3", Preadv: "preadv", Pwritev: "pwritev", Renameat2: "rename", CopyFileRange: "copy_file_range", Statx: "statx",
	Faccessat2: "access", Fchmodat2: "fchmodat", Sync: "sync", Syncfs: "syncfs"}

var trapList string

func init() {
	var l []string
	for t := range names {
		if t == Mmap || t == Lseek || t == Fcntl {
			continue // mmap, lseek, fcntl are observed by the fd table only when needed
		}
		l = append(l, strconv.FormatUint(t, 10))
	}
	l = append(l, "9", "8", "72")
	trapList = strings.Join(l, ",")
}

// Ev is one system call, before (Ret not valid) or after its execution.
type Ev struct {
	Seq, Trap uint64
	A         [6]uint64
	P1, P2    string // absolute
	Data      []byte
	FD        *File // file behind the descriptor argument
	Done      bool
	Ret       int64
	Errno     syscall.Errno
}

func (e *Ev) Name() string {
	if n := names[e.Trap]; n != "" {
		return n
	}
	return fmt.Sprint("sys", e.Trap)
}

func (e *Ev) String() string {
	s := e.Name()
	if e.P1 != "" {
		s += " " + e.P1
	}
	if e.P2 != "" {
		s += " " + e.P2
	}
	if e.FD != nil {
		s += " <" + e.FD.Path + ">"
	}
	if e.Data != nil {
		s += fmt.Sprintf(" %d bytes", len(e.Data))
	}
	return s
}

// Path names the file the call works on.
func (e *Ev) Path() string {
	if e.P1 != "" {
		return e.P1
	}
	if e.FD != nil {
		return e.FD.Path
	}
	return ""
}

// OpenFlags of an opening call.
func (e *Ev) OpenFlags() (flags int, mode uint32, ok bool) {
	switch e.Trap {
	case Openat:
		return int(e.A[2]), uint32(e.A[3]), true
	case Open:
		return int(e.A[1]), uint32(e.A[2]), true
	case Creat:
		return os.O_CREATE | os.O_WRONLY | os.O_TRUNC, uint32(e.A[1]), true
	}
	return 0, 0, false
}

// File is what an open descriptor of the program stands for.
type File struct {
	Path string
	Pos  int64
	Flag int
	ID   int // unique per open
}

// Act is the decision on a call.
type Act struct {
	Kind uint64 // 0 go on, 1 fail with Val, 2 shorten to Val
	Val  uint64
}

var Go = Act{}

func FailWith(e syscall.Errno) Act { return Act{1, uint64(e)} }

// Spec describes the program to run.
type Spec struct {
	Bin   string
	Args  []string
	Env   []string
	Dir   string
	Stdin string
	// Observed directory: only calls on files below it (and, with Std, writes
	// to the standard streams) are reported; everything else just goes on.
	Root string
	Std  bool
	Post func(*Ev) // called after each reported call
	Time time.Duration
	// Terminal the program runs on, instead of Stdin.
	TTY *os.File
}

type Session struct {
	Spec
	cmd    *exec.Cmd
	conn   *os.File
	fds    map[int]*File
	nextID int
	pend   map[uint64]*Ev
	Out    bytes.Buffer
	Err    bytes.Buffer
	out    *os.File
	errp   *os.File
	wg     sync.WaitGroup
	omu    sync.Mutex
	timer  *time.Timer
	Hung   bool
	Log    []string
	waited bool
	code   int
}

// Start launches the program; it stops at its first reported call.
func Start(sp Spec) (*Session, error) {
	s := &Session{Spec: sp, fds: map[int]*File{}, pend: map[uint64]*Ev{}}
	p, err := syscall.Socketpair(syscall.AF_UNIX, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0)
	if err != nil {
		return nil, err
	}
	s.conn = os.NewFile(uintptr(p[0]), "events")
	child := os.NewFile(uintptr(p[1]), "events")
	defer child.Close()
	s.cmd = exec.Command(sp.Bin, sp.Args...)
	s.cmd.Dir = sp.Dir
	s.cmd.Env = append(append([]string{}, sp.Env...), "VERIF_FD=3", "VERIF_TRAPS="+trapList, "GOMAXPROCS=1")
	s.cmd.ExtraFiles = []*os.File{child}
	s.cmd.Stdin = strings.NewReader(sp.Stdin)
	if sp.Stdin == "" {
		s.cmd.Stdin = nil
	}
	s.cmd.Stdout = &lockedWriter{s, &s.Out}
	s.cmd.Stderr = &lockedWriter{s, &s.Err}
	if sp.TTY != nil {
		s.cmd.Stdin, s.cmd.Stdout, s.cmd.Stderr = sp.TTY, sp.TTY, sp.TTY
		s.cmd.SysProcAttr = &syscall.SysProcAttr{Setsid: true, Setctty: true, Ctty: 0}
	}
	s.fds[0] = &File{Path: "<stdin>"}
	s.fds[1] = &File{Path: "<stdout>"}
	s.fds[2] = &File{Path: "<stderr>"}
	if err := s.cmd.Start(); err != nil {
		s.conn.Close()
		return nil, err
	}
	d := sp.Time
	if d == 0 {
		d = 60 * time.Second
	}
	s.timer = time.AfterFunc(d, func() { s.Hung = true; s.cmd.Process.Kill() })
	return s, nil
}

type lockedWriter struct {
	s *Session
	b *bytes.Buffer
}

func (w *lockedWriter) Write(p []byte) (int, error) {
	w.s.omu.Lock()
	defer w.s.omu.Unlock()
	return w.b.Write(p)
}

func (s *Session) abs(p string) string {
	if p == "" || filepath.IsAbs(p) {
		return filepath.Clean(p)
	}
	return filepath.Join(s.Dir, p)
}

func (s *Session) under(p string) bool {
	return s.Root != "" && (p == s.Root || strings.HasPrefix(p, s.Root+"/"))
}

func (s *Session) read() (*Ev, []uint64, error) {
	var h [112]byte
	if _, err := io.ReadFull(s.conn, h[:]); err != nil {
		return nil, nil, err
	}
	w := make([]uint64, 14)
	for i := range w {
		w[i] = binary.LittleEndian.Uint64(h[8*i:])
	}
	b := make([]byte, w[9]+w[10]+w[11])
	if _, err := io.ReadFull(s.conn, b); err != nil {
		return nil, nil, err
	}
	ev := &Ev{Seq: w[1], Trap: w[2]}
	copy(ev.A[:], w[3:9])
	if w[9] > 0 {
		ev.P1 = string(b[:w[9]])
	}
	if w[10] > 0 {
		ev.P2 = string(b[w[9] : w[9]+w[10]])
	}
	if w[11] > 0 {
		ev.Data = b[w[9]+w[10]:]
	}
	return ev, w, nil
}

func (s *Session) send(a Act) error {
	var b [16]byte
	binary.LittleEndian.PutUint64(b[:], a.Kind)
	binary.LittleEndian.PutUint64(b[8:], a.Val)
	_, err := s.conn.Write(b[:])
	return err
}

// Next returns the next call the program is about to make on the observed
// files, or io.EOF when it has ended. Reply must be called for each.
func (s *Session) Next() (*Ev, error) {
	for {
		ev, w, err := s.read()
		if err != nil {
			if errors.Is(err, io.EOF) || errors.Is(err, io.ErrUnexpectedEOF) || errors.Is(err, syscall.ECONNRESET) {
				return nil, io.EOF
			}
			return nil, err
		}
		if w[0] == 2 {
			if err := s.post(w); err != nil {
				return nil, err
			}
			continue
		}
		s.resolve(ev)
		s.pend[ev.Seq] = ev
		if !s.wanted(ev) {
			if err := s.send(Go); err != nil {
				return nil, io.EOF
			}
			continue
		}
		s.Log = append(s.Log, ev.String())
		return ev, nil
	}
}

func (s *Session) Reply(a Act) {
	s.send(a)
}

func (s *Session) resolve(ev *Ev) {
	dir := func(fd uint64, p string) string {
		if int32(fd) != -100 && !filepath.IsAbs(p) {
			if f := s.fds[int(int32(fd))]; f != nil {
				if p == "" {
					return f.Path
				}
				return filepath.Join(f.Path, p)
			}
		}
		return s.abs(p)
	}
	switch ev.Trap {
	case Open, Unlink, Mkdir, Rmdir, Chmod, Truncate, Stat, Lstat, Creat, Chown, Readlink:
		ev.P1 = s.abs(ev.P1)
	case Rename, Link:
		ev.P1, ev.P2 = s.abs(ev.P1), s.abs(ev.P2)
	case Symlink:
		ev.P2 = s.abs(ev.P2)
		ev.P1, ev.P2 = ev.P2, ev.P1
	case Symlinkat:
		ev.P1, ev.P2 = dir(ev.A[1], ev.P2), ev.P1
	case Openat, Unlinkat, Mkdirat, Fchmodat, Newfstatat, Faccessat, Fchownat, Readlinkat, Utimensat, Statx, Faccessat2, Fchmodat2:
		if ev.P1 != "" {
			ev.P1 = dir(ev.A[0], ev.P1)
		} else {
			ev.FD = s.fds[int(int32(ev.A[0]))]
		}
	case Renameat, Renameat2, Linkat:
		ev.P1, ev.P2 = dir(ev.A[0], ev.P1), dir(ev.A[2], ev.P2)
	case Mmap:
		if int32(ev.A[4]) >= 0 {
			ev.FD = s.fds[int(int32(ev.A[4]))]
		}
	case Sync:
	case CopyFileRange, Splice:
		ev.FD = s.fds[int(int32(ev.A[2]))]
	default:
		ev.FD = s.fds[int(int32(ev.A[0]))]
	}
}

func (s *Session) wanted(ev *Ev) bool {
	if ev.Trap == Sync {
		return true
	}
	if s.under(ev.P1) || s.under(ev.P2) {
		return true
	}
	if ev.FD != nil {
		if s.under(ev.FD.Path) {
			return ev.Trap != Lseek && ev.Trap != Fcntl
		}
		if s.Std && (ev.FD.Path == "<stdout>") && (ev.Trap == Write || ev.Trap == Writev) {
			return true
		}
	}
	return false
}

func (s *Session) post(w []uint64) error {
	ev := s.pend[w[1]]
	if ev == nil {
		return fmt.Errorf("result of an unknown call")
	}
	delete(s.pend, w[1])
	ev.Done, ev.Ret, ev.Errno = true, int64(w[3]), syscall.Errno(w[4])
	if ev.Errno == 0 {
		switch ev.Trap {
		case Open, Openat, Creat:
			fl, _, _ := ev.OpenFlags()
			s.nextID++
			s.fds[int(ev.Ret)] = &File{Path: ev.P1, Flag: fl, ID: s.nextID}
		case Close:
			delete(s.fds, int(int32(ev.A[0])))
		case Dup, Dup2, Dup3:
			if ev.FD != nil {
				s.fds[int(ev.Ret)] = ev.FD
			}
		case Fcntl:
			if (ev.A[1] == 0 || ev.A[1] == 1030) && ev.FD != nil {
				s.fds[int(ev.Ret)] = ev.FD
			}
		}
	}
	if s.wantedPost(ev) && s.Spec.Post != nil {
		s.Spec.Post(ev)
	}
	if ev.Errno == 0 && ev.FD != nil {
		switch ev.Trap {
		case Write, Read:
			ev.FD.Pos += ev.Ret
		case Lseek:
			ev.FD.Pos = ev.Ret
		}
	}
	return nil
}

func (s *Session) wantedPost(ev *Ev) bool {
	return s.wanted(ev) || (ev.FD != nil && s.under(ev.FD.Path))
}

// Kill ends the program at once, as kill -9 does.
func (s *Session) Kill() {
	s.cmd.Process.Kill()
}

// Stdout printed so far.
func (s *Session) Stdout() string {
	s.omu.Lock()
	defer s.omu.Unlock()
	return s.Out.String()
}

// Result of a finished program.
type Result struct {
	Out, Err string
	Code     int // -1 when killed
	Hung     bool
	Log      []string
}

func (s *Session) Wait() Result {
	if !s.waited {
		s.waited = true
		err := s.cmd.Wait()
		s.timer.Stop()
		s.conn.Close()
		s.code = s.cmd.ProcessState.ExitCode()
		_ = err
	}
	return Result{s.Out.String(), s.Err.String(), s.code, s.Hung, s.Log}
}

// Run executes the whole program, asking decide on each reported call; when
// decide returns nil the program is killed before making the call.
func Run(sp Spec, decide func(i int, ev *Ev) *Act) (Result, error) {
	s, err := Start(sp)
	if err != nil {
		return Result{}, err
	}
	for i := 0; ; i++ {
		ev, err := s.Next()
		if err == io.EOF {
			break
		}
		if err != nil {
			s.Kill()
			s.Wait()
			return Result{}, err
		}
		a := decide(i, ev)
		if a == nil {
			s.Kill()
			break
		}
		s.Reply(*a)
	}
	r := s.Wait()
	if r.Code == 97 {
		return r, fmt.Errorf("the observed program lost its controller")
	}
	return r, nil
}

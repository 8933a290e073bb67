package checks

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"verif/fault"
	"verif/kit"
)

// disk is the model of what a file system may hold after a power failure. It
// is fed with the operations really executed. File data reaches the medium on
// fsync of the file, directory entries on fsync of the directory; before that
// any prefix of the directory operations and any prefix of a file's data
// operations (the last one torn at a sector, or the length alone), or all but
// one of them, may have reached it.
type disk struct {
	durable map[string]*inode // directory entries on the medium
	pending []dirOp
	now     map[string]*inode // what running programs see
	n       int
	odd     string // something the model does not cover
}

type inode struct {
	id      int
	data    []byte
	link    string // symbolic link
	pending []dataOp
}

type dataOp struct {
	off   int64
	b     []byte
	trunc int64 // -1: write
}

type dirOp struct {
	dirs []string
	set  map[string]*inode // nil: removed
}

func newDisk(root string) *disk {
	d := &disk{durable: map[string]*inode{}, now: map[string]*inode{}}
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		kit.Must(err)
		if fi.IsDir() {
			return nil
		}
		d.n++
		in := &inode{id: d.n}
		if fi.Mode()&os.ModeSymlink != 0 {
			in.link, err = os.Readlink(p)
		} else {
			in.data, err = os.ReadFile(p)
		}
		kit.Must(err)
		d.durable[p] = in
		d.now[p] = in
		return nil
	})
	return d
}

func (d *disk) follow(m map[string]*inode, p string) string {
	for i := 0; i < 10; i++ {
		in := m[p]
		if in == nil || in.link == "" {
			return p
		}
		if filepath.IsAbs(in.link) {
			p = in.link
		} else {
			p = filepath.Join(filepath.Dir(p), in.link)
		}
	}
	return p
}

func (d *disk) dirop(set map[string]*inode) {
	op := dirOp{set: set}
	for p, in := range set {
		op.dirs = append(op.dirs, filepath.Dir(p))
		if in == nil {
			delete(d.now, p)
		} else {
			d.now[p] = in
		}
	}
	d.pending = append(d.pending, op)
}

// flushDir: the entries of a directory reach the medium, and with them all
// directory operations before the last one concerned.
func (d *disk) flushDir(dir string, all bool) {
	last := -1
	for i, op := range d.pending {
		for _, x := range op.dirs {
			if x == dir || all {
				last = i
			}
		}
	}
	for _, op := range d.pending[:last+1] {
		apply(d.durable, op)
	}
	d.pending = d.pending[last+1:]
}

func apply(m map[string]*inode, op dirOp) {
	for p, in := range op.set {
		if in == nil {
			delete(m, p)
		} else {
			m[p] = in
		}
	}
}

func (in *inode) flush() {
	for _, op := range in.pending {
		in.data = op.apply(in.data, len(op.b))
	}
	in.pending = nil
}

func (op dataOp) apply(data []byte, n int) []byte {
	if op.trunc >= 0 {
		return resize(data, int(op.trunc))
	}
	end := int(op.off) + n
	if end > len(data) {
		data = resize(data, end)
	} else {
		data = append([]byte(nil), data...)
	}
	copy(data[op.off:], op.b[:n])
	return data
}

func resize(b []byte, n int) []byte {
	o := make([]byte, n)
	copy(o, b)
	return o
}

// event feeds one executed call into the model.
func (d *disk) event(ev *fault.Ev, inodes map[int]*inode) {
	if ev.Errno != 0 {
		return
	}
	if fl, _, ok := ev.OpenFlags(); ok {
		p := d.follow(d.now, ev.P1)
		in := d.now[p]
		if in == nil {
			if fl&os.O_CREATE == 0 {
				return // a directory
			}
			d.n++
			in = &inode{id: d.n}
			d.dirop(map[string]*inode{p: in})
		}
		if fl&os.O_TRUNC != 0 && fl&3 != os.O_RDONLY {
			in.pending = append(in.pending, dataOp{trunc: 0})
		}
		inodes[int(ev.Ret)] = in
		return
	}
	fd := int(int32(ev.A[0]))
	switch ev.Trap {
	case fault.Write, fault.Pwrite:
		in := inodes[fd]
		if in == nil || ev.Ret <= 0 {
			return
		}
		off := ev.FD.Pos
		if ev.Trap == fault.Pwrite {
			off = int64(ev.A[3])
		} else if ev.FD.Flag&os.O_APPEND != 0 {
			off = int64(len(in.current()))
		}
		in.pending = append(in.pending, dataOp{off: off, b: append([]byte(nil), ev.Data[:ev.Ret]...), trunc: -1})
	case fault.Ftruncate:
		if in := inodes[fd]; in != nil {
			in.pending = append(in.pending, dataOp{trunc: int64(ev.A[1])})
		}
	case fault.Truncate:
		if in := d.now[d.follow(d.now, ev.P1)]; in != nil {
			in.pending = append(in.pending, dataOp{trunc: int64(ev.A[1])})
		}
	case fault.Fsync, fault.Fdatasync:
		if in := inodes[fd]; in != nil {
			in.flush()
		} else if ev.FD != nil {
			d.flushDir(ev.FD.Path, false)
		}
	case fault.Sync, fault.Syncfs:
		for _, in := range d.now {
			in.flush()
		}
		d.flushDir("", true)
	case fault.Close:
		delete(inodes, fd)
	case fault.Rename, fault.Renameat, fault.Renameat2:
		in := d.now[ev.P1]
		if in == nil {
			return
		}
		if ev.Trap == fault.Renameat2 && ev.A[4]&2 != 0 { // exchange
			d.dirop(map[string]*inode{ev.P1: d.now[ev.P2], ev.P2: in})
			return
		}
		d.dirop(map[string]*inode{ev.P1: nil, ev.P2: in})
	case fault.Unlink, fault.Unlinkat:
		d.dirop(map[string]*inode{ev.P1: nil})
	case fault.Link, fault.Linkat:
		if in := d.now[ev.P1]; in != nil {
			d.dirop(map[string]*inode{ev.P2: in})
		}
	case fault.Symlink, fault.Symlinkat:
		d.n++
		d.dirop(map[string]*inode{ev.P1: {id: d.n, link: ev.P2}})
	case fault.Mmap:
		if ev.A[2]&2 != 0 && ev.A[3]&1 != 0 {
			d.odd = "a file is written through a memory mapping"
		}
	case fault.Writev, fault.Pwritev, fault.Sendfile, fault.Splice, fault.CopyFileRange, fault.Fallocate:
		if inodes[fd] != nil || ev.Trap == fault.CopyFileRange || ev.Trap == fault.Splice {
			d.odd = "a file is written with " + ev.Name()
		}
	}
}

func (in *inode) current() []byte {
	b := in.data
	for _, op := range in.pending {
		b = op.apply(b, len(op.b))
	}
	return b
}

// after yields every content file p can have after power is lost now; nil
// means that the file does not exist.
func (d *disk) after(p string, yield func(desc string, b []byte) bool) {
	names := map[string]*inode{}
	for k, v := range d.durable {
		names[k] = v
	}
	seen := map[int]bool{}
	for j := 0; j <= len(d.pending); j++ {
		if j > 0 {
			apply(names, d.pending[j-1])
		}
		q := d.follow(names, p)
		in := names[q]
		id := 0
		if in != nil {
			id = in.id
		}
		if seen[id] {
			continue
		}
		seen[id] = true
		if in == nil {
			if !yield(fmt.Sprintf("%d directory operations", j), nil) {
				return
			}
			continue
		}
		if !in.contents(func(desc string, b []byte) bool {
			return yield(fmt.Sprintf("%d directory operations, inode %d %s", j, in.id, desc), b)
		}) {
			return
		}
	}
}

func (in *inode) contents(yield func(string, []byte) bool) bool {
	b := in.data
	n := len(in.pending)
	for i := 0; i <= n; i++ {
		if !yield(fmt.Sprintf("%d of %d data operations", i, n), b) {
			return false
		}
		if i == n {
			break
		}
		op := in.pending[i]
		if op.trunc < 0 {
			// torn at sectors of the file, and at the first and last byte
			cuts := map[int]bool{1: true, len(op.b) - 1: true}
			for c := 512 - int(op.off)%512; c < len(op.b); c += 512 {
				cuts[c] = true
			}
			for c := 1; c < len(op.b); c++ {
				if cuts[c] && !yield(fmt.Sprintf("%d of %d data operations and %d bytes", i, n, c), op.apply(b, c)) {
					return false
				}
			}
			// the length, not the data
			if int(op.off)+len(op.b) > len(b) && !yield(fmt.Sprintf("%d data operations and the length of the next", i), resize(b, int(op.off)+len(op.b))) {
				return false
			}
		}
		b = op.apply(b, len(op.b))
	}
	// all but one of the writes
	for i := 0; i < n; i++ {
		if in.pending[i].trunc >= 0 && i != 0 {
			continue
		}
		b := in.data
		for x, op := range in.pending {
			if x == i {
				if op.trunc < 0 && int(op.off)+len(op.b) > len(b) {
					b = resize(b, int(op.off)+len(op.b))
				}
				continue
			}
			b = op.apply(b, len(op.b))
		}
		if !yield(fmt.Sprintf("all data operations but number %d", i+1), b) {
			return false
		}
	}
	return true
}

func (d *disk) String() string {
	var s []string
	for p, in := range d.now {
		s = append(s, fmt.Sprintf("%s=%d(%d pending)", filepath.Base(p), in.id, len(in.pending)))
	}
	return strings.Join(s, " ")
}

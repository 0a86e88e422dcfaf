package simrt

import (
	"errors"
	"os"
	"path/filepath"
	"sort"
	"syscall"
)

// The simulated disk. Files are real files in a scratch directory, because bbolt maps them into memory,
// but what survives a crash is decided here: the durable image plus a seeded part of the writes that were
// not yet synced.

const sector = 512

type dwrite struct {
	off   int64
	data  []byte
	trunc bool // change of size to off
}

type dfile struct {
	durable []byte
	size    int64 // durable size
	pending []dwrite
}

type openDB struct {
	path    string
	f       *os.File
	abandon func()
	closed  bool
}

// DiskFault is what happens to one disk operation.
type DiskFault struct {
	Err   error
	Short int  // bytes written before the error (writes only)
	Crash bool // power loss instead of completing the operation; Short bytes reached the page cache
}

// DiskOp describes one disk operation.
type DiskOp struct {
	Kind string // "write", "sync", "trunc"
	Path string
	Off  int64
	Len  int
}

// DiskStats counts disk operations.
type DiskStats struct {
	Writes, Syncs, Truncs, Crashes, TornSectors, LostSectors, KeptSectors int
}

var disk struct {
	files map[string]*dfile
	open  []*openDB
	Stats DiskStats
}

// DiskHook, if set, decides the fate of each disk operation.
var DiskHook func(op DiskOp) DiskFault

// CrashHook is called when a disk fault cuts the power; it does not return to the caller.
var CrashHook func()

// DiskReset forgets everything; files still open are closed first.
func DiskReset() DiskStats {
	for _, o := range disk.open {
		if !o.closed {
			o.closed = true
			o.abandon()
		}
	}
	st := disk.Stats
	disk.files = map[string]*dfile{}
	disk.open = nil
	disk.Stats = DiskStats{}
	return st
}

func dfileOf(path string) *dfile {
	if disk.files == nil {
		disk.files = map[string]*dfile{}
	}
	d := disk.files[path]
	if d == nil {
		d = &dfile{}
		if b, err := os.ReadFile(path); err == nil {
			d.durable, d.size = b, int64(len(b))
		}
		disk.files[path] = d
	}
	return d
}

// DiskOpened registers a newly opened database.
func DiskOpened(f *os.File, abandon func()) {
	dfileOf(f.Name())
	disk.open = append(disk.open, &openDB{path: f.Name(), f: f, abandon: abandon})
}

func dead() bool { return cur != nil && cur.unwind }

var errDead = errors.New("process is dead")

// DiskWriteAt returns the function bbolt writes pages with.
func DiskWriteAt(f *os.File) func(b []byte, off int64) (int, error) {
	return func(b []byte, off int64) (int, error) {
		if dead() {
			return 0, errDead
		}
		YIO()
		disk.Stats.Writes++
		d := dfileOf(f.Name())
		var flt DiskFault
		if DiskHook != nil {
			flt = DiskHook(DiskOp{"write", filepath.Base(f.Name()), off, len(b)})
		}
		n := len(b)
		if flt.Err != nil || flt.Crash {
			n = flt.Short
			if n > len(b) {
				n = len(b)
			}
		}
		if n > 0 {
			if m, err := f.WriteAt(b[:n], off); err != nil {
				return m, err
			}
			d.pending = append(d.pending, dwrite{off: off, data: append([]byte{}, b[:n]...)})
		}
		if flt.Crash && CrashHook != nil {
			CrashHook()
		}
		if flt.Err != nil {
			return n, flt.Err
		}
		YIO()
		return n, nil
	}
}

// DiskTruncate changes the size of the file.
func DiskTruncate(f *os.File, size int64) error {
	if dead() {
		return errDead
	}
	YIO()
	disk.Stats.Truncs++
	d := dfileOf(f.Name())
	var flt DiskFault
	if DiskHook != nil {
		flt = DiskHook(DiskOp{"trunc", filepath.Base(f.Name()), size, 0})
	}
	if flt.Crash && CrashHook != nil {
		CrashHook()
	}
	if flt.Err != nil {
		return flt.Err
	}
	if err := f.Truncate(size); err != nil {
		return err
	}
	d.pending = append(d.pending, dwrite{off: size, trunc: true})
	return nil
}

// DiskSync makes everything written so far durable.
func DiskSync(f *os.File) error {
	if dead() {
		return errDead
	}
	YIO()
	disk.Stats.Syncs++
	d := dfileOf(f.Name())
	var flt DiskFault
	if DiskHook != nil {
		flt = DiskHook(DiskOp{"sync", filepath.Base(f.Name()), 0, len(d.pending)})
	}
	if flt.Crash && CrashHook != nil {
		CrashHook()
	}
	if flt.Err != nil {
		return flt.Err
	}
	d.flush()
	YIO()
	return nil
}

func (d *dfile) put(off int64, b []byte) {
	if n := off + int64(len(b)); n > d.size {
		d.resize(n)
	}
	copy(d.durable[off:], b)
}

func (d *dfile) resize(n int64) {
	if n > int64(len(d.durable)) {
		d.durable = append(d.durable, make([]byte, n-int64(len(d.durable)))...)
	}
	d.durable = d.durable[:n]
	d.size = n
}

func (d *dfile) flush() {
	for _, w := range d.pending {
		if w.trunc {
			d.resize(w.off)
		} else {
			d.put(w.off, w.data)
		}
	}
	d.pending = nil
}

// DiskPending is the number of writes that a crash could lose.
func DiskPending() int {
	n := 0
	for _, d := range disk.files {
		n += len(d.pending)
	}
	return n
}

// DiskCrash cuts the power: all open files are gone, and each file holds its durable image plus a part of
// the pending writes chosen by r. mode: 0 none, 1 all, 2 a prefix with the last write torn, 3 random
// sectors.
func DiskCrash(r *Rng, mode int) {
	disk.Stats.Crashes++
	for _, o := range disk.open {
		if !o.closed {
			o.closed = true
			o.abandon()
		}
	}
	disk.open = nil
	var names []string
	for n := range disk.files {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		d := disk.files[n]
		keep := len(d.pending)
		switch mode {
		case 0:
			keep = 0
		case 2:
			keep = r.N(len(d.pending) + 1)
		}
		for i, w := range d.pending {
			if mode != 3 && i > keep {
				break
			}
			if mode != 3 && i == keep && mode != 2 {
				break
			}
			if w.trunc {
				if mode == 1 || mode == 2 && i < keep || mode == 3 && r.P(50) {
					if w.off > d.size {
						d.resize(w.off)
					}
				}
				continue
			}
			for at := 0; at < len(w.data); {
				// Sector boundaries are absolute.
				end := int((w.off+int64(at))/sector+1)*sector - int(w.off)
				if end > len(w.data) {
					end = len(w.data)
				}
				ok := true
				switch {
				case mode == 3:
					ok = r.P(50)
				case mode == 2 && i == keep:
					ok = r.P(50)
				}
				if ok {
					d.put(w.off+int64(at), w.data[at:end])
					disk.Stats.KeptSectors++
				} else {
					disk.Stats.LostSectors++
					if at > 0 || end < len(w.data) {
						disk.Stats.TornSectors++
					}
				}
				at = end
			}
		}
		d.pending = nil
		_ = os.Remove(n)
		if err := os.WriteFile(n, d.durable[:d.size], 0o600); err != nil {
			panic(err)
		}
	}
}

// Errors a disk can report.
var (
	ErrIO    error = syscall.EIO
	ErrSpace error = syscall.ENOSPC
)

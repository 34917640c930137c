package main

import (
	"bytes"
	"errors"
	"math/rand"
	"os"
	"sync"

	"github.com/vitelabs/go-vite/v2/common/db/xleveldb/storage"
)

// cst is a storage that remembers how much of every file was synced, so that the state a
// crash would leave can be taken at any operation.
type cst struct {
	mu    sync.Mutex
	files map[storage.FileDesc]*cfile
	meta  storage.FileDesc
	lock  *clock
	ops   int
	snap  func(op int) // called with the lock held after every operation
	fail  func(op int) bool
	order int
}

type cfile struct {
	data   []byte
	synced int
	made   int
}

type clock struct{ s *cst }

func (l *clock) Unlock() {
	l.s.mu.Lock()
	if l.s.lock == l {
		l.s.lock = nil
	}
	l.s.mu.Unlock()
}

func newCst() *cst { return &cst{files: map[storage.FileDesc]*cfile{}} }

func (s *cst) op() {
	s.ops++
	if s.snap != nil {
		s.snap(s.ops)
	}
}

// image copies what is written; call with the lock held.
func (s *cst) image() *cst {
	o := newCst()
	o.meta = s.meta
	o.order = s.order
	for fd, f := range s.files {
		o.files[fd] = &cfile{data: append([]byte{}, f.data...), synced: f.synced, made: f.made}
	}
	return o
}

// tear cuts unsynced tails: of every file, or only of the newest journal.
func (s *cst) tear(rnd *rand.Rand, all bool) {
	var last storage.FileDesc
	for fd := range s.files {
		if fd.Type == storage.TypeJournal && fd.Num >= last.Num {
			last = fd
		}
	}
	for fd, f := range s.files {
		if !all && fd != last {
			f.synced = len(f.data)
			continue
		}
		if n := len(f.data) - f.synced; n > 0 {
			k := rnd.Intn(n + 1)
			switch rnd.Intn(4) {
			case 0:
				k = 0
			case 1:
				k = n - 1 - rnd.Intn(n)%12
				if k < 0 {
					k = 0
				}
			}
			f.data = f.data[:f.synced+k]
		}
		f.synced = len(f.data)
	}
}

func (s *cst) Lock() (storage.Locker, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.lock != nil {
		return nil, storage.ErrLocked
	}
	s.lock = &clock{s}
	return s.lock, nil
}
func (s *cst) Log(string) {}
func (s *cst) SetMeta(fd storage.FileDesc) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.meta = fd
	s.op()
	return nil
}
func (s *cst) GetMeta() (storage.FileDesc, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.meta.Zero() {
		return storage.FileDesc{}, os.ErrNotExist
	}
	if s.files[s.meta] == nil {
		return storage.FileDesc{}, os.ErrNotExist
	}
	return s.meta, nil
}
func (s *cst) List(t storage.FileType) (o []storage.FileDesc, err error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	for fd := range s.files {
		if fd.Type&t != 0 {
			o = append(o, fd)
		}
	}
	return
}

type cr struct{ *bytes.Reader }

func (cr) Close() error { return nil }

func (s *cst) Open(fd storage.FileDesc) (storage.Reader, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	f := s.files[fd]
	if f == nil {
		return nil, os.ErrNotExist
	}
	return cr{bytes.NewReader(f.data[:len(f.data):len(f.data)])}, nil
}

type cw struct {
	s *cst
	f *cfile
}

var errInjected = errors.New("injected storage fault")

func (w *cw) Write(b []byte) (int, error) {
	w.s.mu.Lock()
	defer w.s.mu.Unlock()
	if w.s.fail != nil && w.s.fail(w.s.ops+1) {
		w.s.op()
		return 0, errInjected
	}
	w.f.data = append(w.f.data, b...)
	w.s.op()
	return len(b), nil
}
func (w *cw) Sync() error {
	w.s.mu.Lock()
	defer w.s.mu.Unlock()
	w.f.synced = len(w.f.data)
	w.s.op()
	return nil
}
func (w *cw) Close() error { return nil }

func (s *cst) Create(fd storage.FileDesc) (storage.Writer, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.order++
	f := &cfile{made: s.order}
	s.files[fd] = f
	s.op()
	return &cw{s, f}, nil
}
func (s *cst) Remove(fd storage.FileDesc) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.files[fd] == nil {
		return os.ErrNotExist
	}
	delete(s.files, fd)
	s.op()
	return nil
}
func (s *cst) Rename(a, b storage.FileDesc) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.files[a] == nil {
		return os.ErrNotExist
	}
	s.files[b] = s.files[a]
	delete(s.files, a)
	s.op()
	return nil
}
func (s *cst) Close() error { return nil }

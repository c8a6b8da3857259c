//go:build go1.22

package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"syscall"

	zzrt "github.com/rom1mouret/ml-essentials/zzverif/simrt"
)

// injected returns an error of a failing reader or writer: one of its own or
// one that looks like that of something else.
func injected() error {
	switch zzrt.F(8) {
	case 1:
		return io.ErrUnexpectedEOF
	case 2:
		return io.ErrClosedPipe
	case 3:
		return os.ErrClosed
	case 4:
		return &os.PathError{Op: "io", Path: "/sim", Err: syscall.EIO}
	case 5:
		return fmt.Errorf("connection lost: %w", io.ErrUnexpectedEOF)
	case 6:
		return context.DeadlineExceeded
	case 7:
		return os.ErrNotExist
	}
	return errors.New("injected I/O error")
}

// slowReader delivers data in pieces chosen by the fault stream and fails at
// failAt (if not negative).
type slowReader struct {
	data   []byte
	pos    int
	mode   int // 0 everything, 1 short reads, 2 one byte
	failAt int
	failed bool
	withN  bool // deliver the error, or EOF, together with the last bytes
	empty  int
}

func newReader(data []byte) *slowReader {
	r := &slowReader{data: data, failAt: -1, mode: zzrt.F(4), withN: zzrt.F(2) == 1}
	if len(data) > 600 && r.mode == 2 {
		r.mode = 1
	}
	return r
}

func (r *slowReader) Read(p []byte) (int, error) {
	zzrt.Yield()
	if len(p) == 0 {
		return 0, nil
	}
	end := len(r.data)
	if r.failAt >= 0 && r.failAt < end {
		end = r.failAt
	}
	n := end - r.pos
	if n > len(p) {
		n = len(p)
	}
	switch r.mode {
	case 1:
		if n > 1 {
			n = 1 + zzrt.F(n)
			zzrt.Fault("reader.short-read")
		}
		if r.empty < 3 && zzrt.F(8) == 7 {
			r.empty++
			zzrt.Fault("reader.empty-read")
			return 0, nil
		}
	case 2:
		if n > 1 {
			n = 1
			zzrt.Fault("reader.short-read")
		}
	case 3:
		if zzrt.F(4) == 3 {
			zzrt.Fault("reader.delay")
			zzrt.TimeSleep(5000000)
		}
	}
	copy(p, r.data[r.pos:r.pos+n])
	r.pos += n
	if r.pos == end && (n == 0 || r.withN) {
		if r.failAt >= 0 {
			r.failed = true
			zzrt.Fault("reader.error")
			return n, injected()
		}
		return n, io.EOF
	}
	return n, nil
}

// flakyWriter keeps what is written and fails at failAt bytes (if not
// negative): with an error, or with a short count and no error.
type flakyWriter struct {
	data   []byte
	failAt int
	short  bool
	keep   bool // store the part before the failure
	failed bool
	once   bool // later writes succeed
	writes int
	delay  bool
}

func newWriter() *flakyWriter { return &flakyWriter{failAt: -1, delay: zzrt.F(4) == 3} }

func (w *flakyWriter) Write(p []byte) (int, error) {
	zzrt.Yield()
	w.writes++
	if w.delay && zzrt.F(3) == 2 {
		zzrt.Fault("writer.delay")
		zzrt.TimeSleep(3000000)
	}
	if w.failAt >= 0 && len(w.data)+len(p) > w.failAt && !(w.once && w.failed) {
		w.failed = true
		n := w.failAt - len(w.data)
		if n < 0 {
			n = 0
		}
		w.data = append(w.data, p[:n]...)
		if w.short && n < len(p) {
			zzrt.Fault("writer.short-write")
			return n, nil
		}
		zzrt.Fault("writer.error")
		return n, injected()
	}
	w.data = append(w.data, p...)
	return len(p), nil
}

package main

import (
	"context"
	"fmt"
	"io"
	"net"
	"os"
	"syscall"
	"time"
	"unsafe"

	sqlerrors "github.com/cybergarage/go-sqlparser/sql/errors"
	"github.com/cybergarage/go-sqlparser/sql/fn"

	"verif.local/sim/simrt"
)

// simErr is a unique error instance.
type simErr struct{ s string }

func (e *simErr) Error() string { return e.s }

// kindErr is a unique error instance that wraps a well-known one.
type kindErr struct {
	s     string
	inner error
}

func (e *kindErr) Error() string { return e.s + ": " + e.inner.Error() }
func (e *kindErr) Unwrap() error { return e.inner }

// errKinds are the well-known errors that injected failures wrap: code must not treat any of them as less of a failure.
var errKinds = []error{
	io.EOF, net.ErrClosed, os.ErrDeadlineExceeded, syscall.EPIPE, syscall.ECONNRESET, syscall.ENOTCONN, context.Canceled,
	io.ErrUnexpectedEOF, context.DeadlineExceeded, sqlerrors.ErrNoRows, fn.ErrNoData, sqlerrors.ErrNotExist, io.ErrClosedPipe, syscall.EINTR, sqlerrors.ErrNotFound,
}

const nErrKinds = 26

// faultErr makes a unique error of the k-th kind (1..nErrKinds).
func faultErr(k int, s string) error {
	if k == 2 {
		return &timeoutErr{s}
	}
	switch k {
	case nErrKinds:
		return &netErr{s}
	case nErrKinds - 1:
		return &net.OpError{Op: "close", Net: "sim", Err: &simErr{s}}
	case nErrKinds - 2:
		return &net.OpError{Op: "close", Net: "sim", Err: &kindErr{s, net.ErrClosed}}
	}
	if k < 2 || k-3 >= len(errKinds) {
		return &simErr{s}
	}
	return &kindErr{s, errKinds[k-3]}
}

// bareErrs are well-known errors and one shared instance, returned as they are.
var bareErrs = []error{io.EOF, net.ErrClosed, os.ErrDeadlineExceeded, sqlerrors.ErrNoRows, fn.ErrNoData, &simErr{"injected failure, the same each time"}}

// anyErr is faultErr with some of its errors being the well-known ones themselves.
func anyErr(k int, s string) error {
	if i := k - 18; 0 <= i && i < len(bareErrs) {
		return bareErrs[i]
	}
	return faultErr(k, s)
}

// netErr implements net.Error without being a timeout.
type netErr struct{ s string }

func (e *netErr) Error() string   { return e.s }
func (e *netErr) Timeout() bool   { return false }
func (e *netErr) Temporary() bool { return true }

// timeoutErr implements net.Error.
type timeoutErr struct{ s string }

func (e *timeoutErr) Error() string   { return e.s }
func (e *timeoutErr) Timeout() bool   { return true }
func (e *timeoutErr) Temporary() bool { return true }
func (e *timeoutErr) Unwrap() error   { return os.ErrDeadlineExceeded }

type simAddr string

func (a simAddr) Network() string { return "sim" }
func (a simAddr) String() string  { return string(a) }

// pipe is one direction of a simulated byte stream.
type pipe struct {
	buf    []byte
	max    int // 0: unbounded
	closed bool
	err    error // reset
}

// closeAttempt is one call of a transport's Close.
type closeAttempt struct {
	owner      int
	start, end int64
	err        error
	again      bool // the transport was already closed when the call took effect
}

// tcall is one read/write/deadline call seen by the transport.
type tcall struct {
	kind       string
	owner      int
	start, end int64
	buf        *byte
	blen       int
	n          int
	err        error
	t          time.Time
	data       []byte
}

// tconn is a simulated transport endpoint.
type tconn struct {
	id       int
	name     string
	rd, wr   *pipe
	closed   bool
	closeSeq int64
	att      []closeAttempt
	calls    []tcall
	rdl, wdl int64 // virtual deadlines, elapsed ns; 0: none
	nerr     int
	record   bool
	noFaults bool
	rkey     byte
}

func (t *tconn) f(kind string, n int) int {
	if t.noFaults {
		return 0
	}
	return simrt.F(kind, n)
}

func newTConn(id int) *tconn {
	return &tconn{id: id, name: fmt.Sprintf("t%d", id), rd: &pipe{}, wr: &pipe{}}
}

// newDuplex returns the two ends of a simulated connection.
func newDuplex(id, max int) (*tconn, *tconn) {
	a, b := &pipe{max: max}, &pipe{max: max}
	return &tconn{id: id, name: fmt.Sprintf("s%d", id), rd: a, wr: b}, &tconn{id: id, name: fmt.Sprintf("c%d", id), rd: b, wr: a}
}

func (t *tconn) newErr(what string) error {
	t.nerr++
	return &simErr{fmt.Sprintf("injected %s #%d on %s", what, t.nerr, t.name)}
}

// stalls are how long a read, a write, a row or a parameter may take, in ms.
var stalls = []int64{1, 2, 3, 1, 2, 3, 1, 2, 3, 1, 2, 3, 1, 2, 3, 500, 4_000, 45_000, 200_000}

// closeStalls are how long a close may take, in ms.
var closeStalls = []int64{1, 2, 3, 1, 2, 3, 400, 2_500, 20_000, 100_000, 400_000}

// Close is the faulty close.
func (t *tconn) Close() error {
	a := closeAttempt{owner: simrt.Owner(), start: simrt.Seq()}
	simrt.Y(20)
	if d := t.f("slow-close", len(closeStalls)); d > 0 {
		simrt.Sleep(closeStalls[d-1] * 1_000_000)
	}
	switch {
	case t.closed:
		a.again = true
		a.err = net.ErrClosed
	default:
		if k := t.f("close-fail", nErrKinds); k > 0 {
			t.nerr++
			a.err = anyErr(k, fmt.Sprintf("injected close failure #%d on %s", t.nerr, t.name))
			break
		}
		t.closed = true
		t.rd.closed = true
		t.wr.closed = true
		simrt.Wake(unsafe.Pointer(t.rd))
		simrt.Wake(unsafe.Pointer(t.wr))
	}
	a.end = simrt.Seq()
	if a.err == nil {
		t.closeSeq = a.end
	}
	t.att = append(t.att, a)
	simrt.Y(21)
	return a.err
}

func (t *tconn) rec(c tcall) {
	if t.record {
		c.end = simrt.Seq()
		t.calls = append(t.calls, c)
	}
}

func bptr(b []byte) *byte {
	if len(b) == 0 {
		return nil
	}
	return &b[0]
}

// Read blocks until data, end of stream, deadline or fault.
func (t *tconn) Read(b []byte) (n int, err error) {
	c := tcall{kind: "read", owner: simrt.Owner(), start: simrt.Seq(), buf: bptr(b), blen: len(b)}
	defer func() {
		c.n, c.err = n, err
		if t.record {
			c.data = append([]byte{}, b[:max(n, 0)]...)
		}
		t.rec(c)
	}()
	simrt.Y(22)
	if d := t.f("slow-read", len(stalls)); d > 0 {
		simrt.Sleep(stalls[d-1] * 1_000_000)
	}
	for {
		if t.closed {
			return 0, net.ErrClosed
		}
		if t.rdl != 0 && simrt.S != nil && simrt.S.SimTime() >= t.rdl {
			return 0, &timeoutErr{"i/o timeout " + t.name}
		}
		if len(b) == 0 {
			return 0, nil
		}
		if len(t.rd.buf) > 0 {
			break
		}
		if t.rd.err != nil {
			return 0, t.rd.err
		}
		if t.rd.closed {
			return 0, io.EOF
		}
		if simrt.S == nil {
			return 0, io.EOF
		}
		if t.rdl != 0 {
			simrt.BlockUntil(unsafe.Pointer(t.rd), t.rdl)
		} else {
			simrt.Block(unsafe.Pointer(t.rd))
		}
	}
	k := min(len(b), len(t.rd.buf))
	switch t.f("read-fault", 4) {
	case 1: // short
		k = 1
	case 2: // data and an error together
		if k > 1 {
			k--
		}
		switch x := simrt.Choose("partial-kind", nErrKinds+3, 1000); {
		case x > nErrKinds:
			err = io.EOF
		default:
			t.nerr++
			err = faultErr(x, fmt.Sprintf("injected partial read #%d on %s", t.nerr, t.name))
		}
	case 3: // transient error, nothing consumed
		t.nerr++
		return 0, faultErr(simrt.Choose("error-kind", nErrKinds, 1000), fmt.Sprintf("injected read error #%d on %s", t.nerr, t.name))
	case 4: // spurious timeout
		return 0, &timeoutErr{t.newErr("read timeout").Error()}
	}
	copy(b, t.rd.buf[:k])
	t.rd.buf = t.rd.buf[k:]
	simrt.Wake(unsafe.Pointer(t.rd))
	if err == nil && len(t.rd.buf) == 0 && t.rd.closed && t.f("data-with-eof", 1) > 0 {
		err = io.EOF
	}
	return k, err
}

// Write blocks while the pipe is full.
func (t *tconn) Write(b []byte) (n int, err error) {
	c := tcall{kind: "write", owner: simrt.Owner(), start: simrt.Seq(), buf: bptr(b), blen: len(b)}
	if t.record {
		c.data = append([]byte{}, b...)
	}
	defer func() { c.n, c.err = n, err; t.rec(c) }()
	simrt.Y(23)
	if d := t.f("slow-write", len(stalls)); d > 0 {
		simrt.Sleep(stalls[d-1] * 1_000_000)
	}
	k := len(b)
	switch t.f("write-fault", 5) {
	case 1: // short write with error
		k = k / 2
		err = t.newErr("short write")
	case 2: // everything written, then an error
		err = t.newErr("late write error")
	case 3:
		t.nerr++
		return 0, faultErr(simrt.Choose("error-kind", nErrKinds, 1000), fmt.Sprintf("injected write error #%d on %s", t.nerr, t.name))
	case 4:
		k = k / 3
		err = &timeoutErr{t.newErr("write timeout").Error()}
	case 5: // short write without an error: the connection passes on what it was told
		k = k / 2
	}
	for n < k {
		if t.closed {
			return n, net.ErrClosed
		}
		if t.wr.err != nil {
			return n, t.wr.err
		}
		if t.wr.closed {
			return n, io.ErrClosedPipe
		}
		if t.wdl != 0 && simrt.S != nil && simrt.S.SimTime() >= t.wdl {
			return n, &timeoutErr{"i/o timeout " + t.name}
		}
		room := k - n
		if t.wr.max > 0 && t.wr.max-len(t.wr.buf) < room {
			room = t.wr.max - len(t.wr.buf)
		}
		if room <= 0 {
			if simrt.S == nil {
				return n, io.ErrShortWrite
			}
			if t.wdl != 0 {
				simrt.BlockUntil(unsafe.Pointer(t.wr), t.wdl)
			} else {
				simrt.Block(unsafe.Pointer(t.wr))
			}
			continue
		}
		t.wr.buf = append(t.wr.buf, b[n:n+room]...)
		n += room
		simrt.Wake(unsafe.Pointer(t.wr))
		simrt.Y(24)
	}
	if k == 0 && t.closed {
		return 0, net.ErrClosed
	}
	return n, err
}

func (t *tconn) LocalAddr() net.Addr  { return simAddr("local-" + t.name) }
func (t *tconn) RemoteAddr() net.Addr { return simAddr("remote-" + t.name) }

func vdeadline(d time.Time) int64 {
	if d.IsZero() {
		return 0
	}
	v := int64(d.Sub(simrt.Epoch))
	if v <= 0 {
		v = 1
	}
	return v
}

func (t *tconn) setDl(kind string, d time.Time, r, w bool) error {
	c := tcall{kind: kind, owner: simrt.Owner(), start: simrt.Seq(), t: d}
	simrt.Y(25)
	if t.closed {
		c.err = net.ErrClosed
	} else if t.f("deadline-error", 1) > 0 {
		c.err = t.newErr("deadline error")
	} else {
		if r {
			t.rdl = vdeadline(d)
			simrt.Wake(unsafe.Pointer(t.rd))
		}
		if w {
			t.wdl = vdeadline(d)
			simrt.Wake(unsafe.Pointer(t.wr))
		}
	}
	t.rec(c)
	return c.err
}

func (t *tconn) SetDeadline(d time.Time) error      { return t.setDl("deadline", d, true, true) }
func (t *tconn) SetReadDeadline(d time.Time) error  { return t.setDl("rdeadline", d, true, false) }
func (t *tconn) SetWriteDeadline(d time.Time) error { return t.setDl("wdeadline", d, false, true) }

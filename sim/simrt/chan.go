package simrt

import (
	"iter"
	"math/rand"
	randv2 "math/rand/v2"
	"reflect"
	"runtime"
	"time"
	"unsafe"
)

// Channel operations of the code under test. Buffered channels are real ones,
// tried without blocking; an unbuffered channel's senders queue here and a
// receiver takes from the queue. A waiting task also looks again as virtual
// time passes, because library code may close or fill a channel unseen.

type chanWaiter struct {
	key   unsafe.Pointer
	v     any
	taken bool
	d     byte
}

var chanQ []*chanWaiter

//go:noinline
func chanWait(key unsafe.Pointer, n *int64) {
	*n++
	d := *n * 1000
	if *n > 1000 { // ever more rarely: a stall may last hours
		d = 1_000_000
		for k := *n - 1000; k > 0 && d < 60_000_000_000; k -= 20 {
			d += d / 2
		}
	}
	BlockUntil(key, S.now+d)
}

//go:noinline
func chanOffer(key unsafe.Pointer, v any) *chanWaiter {
	w := &chanWaiter{key: key, v: v}
	runtime.RaceReleaseMerge(unsafe.Pointer(w))
	chanQ = append(chanQ, w)
	chanWake(key)
	return w
}

//go:noinline
func (w *chanWaiter) isTaken() bool {
	if w.taken {
		runtime.RaceAcquire(unsafe.Pointer(&w.d))
	}
	return w.taken
}

//go:noinline
func (w *chanWaiter) withdraw() {
	for i, x := range chanQ {
		if x == w {
			dropWaiter(i)
			return
		}
	}
}

//go:noinline
func chanTake(key unsafe.Pointer) (any, bool) {
	for i, w := range chanQ {
		if w.key == key {
			dropWaiter(i)
			runtime.RaceAcquire(unsafe.Pointer(w))
			runtime.RaceReleaseMerge(unsafe.Pointer(&w.d))
			w.taken = true
			chanWake(key)
			return w.v, true
		}
	}
	return nil, false
}

// dropWaiter moves by hand: the runtime reports slice copies to the race detector.
func dropWaiter(i int) {
	for ; i+1 < len(chanQ); i++ {
		chanQ[i] = chanQ[i+1]
	}
	chanQ[len(chanQ)-1] = nil
	chanQ = chanQ[:len(chanQ)-1]
}

//go:noinline
func chanReset() { chanQ, recvQ, selQ = nil, nil, nil }

// selQ are the selects that wait.
var selQ []unsafe.Pointer

// chanWake wakes those who wait for a channel, and all selects.
//
//go:noinline
func chanWake(key unsafe.Pointer) {
	Wake(key)
	for _, k := range selQ {
		Wake(k)
	}
}

// inTask reports whether a simulated task is running.
//
//go:noinline
func inTask() bool { return S != nil && S.cur != nil && !S.stopped }

// Send is "ch <- v".
func Send[T any](ch chan<- T) func(T) { return func(v T) { send(ch, v) } }

func send[T any](ch chan<- T, v T) {
	if !inTask() {
		ch <- v
		return
	}
	Y(14)
	key := *(*unsafe.Pointer)(unsafe.Pointer(&ch))
	var n int64
	if cap(ch) > 0 || ch == nil {
		for {
			select {
			case ch <- v:
				chanWake(key)
				return
			default:
			}
			chanWait(key, &n)
		}
	}
	w := chanOffer(key, v)
	for !w.isTaken() {
		chanWait(key, &n)
		if w.isTaken() {
			return
		}
		select {
		case ch <- v: // a real receiver, or the panic of a closed channel
			w.withdraw()
			return
		default:
		}
	}
}

// Recv2 is "v, ok := <-ch".
func Recv2[T any](ch <-chan T) (T, bool) {
	if !inTask() {
		v, ok := <-ch
		return v, ok
	}
	Y(14)
	key := *(*unsafe.Pointer)(unsafe.Pointer(&ch))
	recvEnter(key)
	defer recvLeave(key)
	var n int64
	for {
		if ch != nil && cap(ch) == 0 {
			if v, ok := chanTake(key); ok {
				t, _ := v.(T)
				return t, true
			}
		}
		select {
		case v, ok := <-ch:
			chanWake(key)
			return v, ok
		default:
		}
		chanWait(key, &n)
	}
}

// SelCase is one case of a select.
type SelCase interface {
	try() bool  // does the operation if it can be done at once
	offer()     // makes a waiting send known to receivers
	done() bool // an offered send was taken
	withdraw()
	real() reflect.SelectCase
	got(v reflect.Value, ok bool)
}

// SelR is a receiving case.
type SelR[T any] struct {
	Val T
	Ok  bool
	ch  <-chan T
}

// SelRecv is "case v := <-ch".
func SelRecv[T any](ch <-chan T) *SelR[T] { return &SelR[T]{ch: ch} }

func (c *SelR[T]) try() bool {
	key := *(*unsafe.Pointer)(unsafe.Pointer(&c.ch))
	if c.ch != nil && cap(c.ch) == 0 {
		if v, ok := chanTake(key); ok {
			c.Val, _ = v.(T)
			c.Ok = true
			return true
		}
	}
	select {
	case c.Val, c.Ok = <-c.ch:
		chanWake(key)
		return true
	default:
	}
	return false
}
func (c *SelR[T]) offer()     {}
func (c *SelR[T]) done() bool { return false }
func (c *SelR[T]) withdraw()  {}
func (c *SelR[T]) real() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(c.ch)}
}
func (c *SelR[T]) got(v reflect.Value, ok bool) {
	reflect.ValueOf(&c.Val).Elem().Set(v)
	c.Ok = ok
}

// SelS is a sending case.
type SelS[T any] struct {
	ch chan<- T
	v  T
	w  *chanWaiter
}

// SelSend is "case ch <- v".
func SelSend[T any](ch chan<- T) func(T) *SelS[T] {
	return func(v T) *SelS[T] { return &SelS[T]{ch: ch, v: v} }
}

func (c *SelS[T]) try() bool {
	key := *(*unsafe.Pointer)(unsafe.Pointer(&c.ch))
	if c.ch == nil || c.w != nil {
		return false
	}
	if cap(c.ch) == 0 {
		if recvWaiting(key) <= 0 {
			return false
		}
		chanOffer(key, c.v) // a task waits to receive it
		return true
	}
	select {
	case c.ch <- c.v:
		chanWake(key)
		return true
	default:
	}
	return false
}

func (c *SelS[T]) offer() {
	if c.ch != nil && cap(c.ch) == 0 && c.w == nil {
		c.w = chanOffer(*(*unsafe.Pointer)(unsafe.Pointer(&c.ch)), c.v)
	}
}
func (c *SelS[T]) real() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectSend, Chan: reflect.ValueOf(c.ch), Send: reflect.ValueOf(&c.v).Elem()}
}
func (c *SelS[T]) got(reflect.Value, bool) {}
func (c *SelS[T]) done() bool              { return c.w != nil && c.w.isTaken() }
func (c *SelS[T]) withdraw() {
	if c.w != nil {
		c.w.withdraw()
	}
}

// recvQ are the channels on which tasks wait to receive.
var recvQ []unsafe.Pointer

// recvWaiting counts the tasks that wait to receive from a channel and have nothing to receive yet.
//
//go:noinline
func recvWaiting(key unsafe.Pointer) int {
	n := 0
	for _, k := range recvQ {
		if k == key {
			n++
		}
	}
	for _, w := range chanQ {
		if w.key == key {
			n--
		}
	}
	return n
}

//go:noinline
func recvEnter(key unsafe.Pointer) { recvQ = append(recvQ, key) }

//go:noinline
func recvLeave(key unsafe.Pointer) {
	for i, k := range recvQ {
		if k == key {
			for ; i+1 < len(recvQ); i++ {
				recvQ[i] = recvQ[i+1]
			}
			recvQ = recvQ[:len(recvQ)-1]
			return
		}
	}
}

//go:noinline
func selEnter(k unsafe.Pointer) { selQ = append(selQ, k) }

//go:noinline
func selLeave(k unsafe.Pointer) {
	for i, x := range selQ {
		if x == k {
			selQ[i] = selQ[len(selQ)-1]
			selQ = selQ[:len(selQ)-1]
			return
		}
	}
}

//go:noinline
func selStart(n int) int { return int(Mix(uint64(Seq()), 11) % uint64(n)) }

// Select is the select statement: the number of the case that was done, -1 for the default case.
func Select(def bool, cases ...SelCase) int {
	if !inTask() {
		var rs []reflect.SelectCase
		for _, c := range cases {
			rs = append(rs, c.real())
		}
		if def {
			rs = append(rs, reflect.SelectCase{Dir: reflect.SelectDefault})
		}
		i, v, ok := reflect.Select(rs)
		if i == len(cases) {
			return -1
		}
		cases[i].got(v, ok)
		return i
	}
	Y(14)
	var n int64
	me := unsafe.Pointer(&n)
	selEnter(me)
	defer selLeave(me)
	for first := true; ; first = false {
		for i, c := range cases {
			if c.done() {
				for j, d := range cases {
					if j != i {
						d.withdraw()
					}
				}
				return i
			}
		}
		if len(cases) > 0 {
			k := selStart(len(cases))
			for x := range cases {
				i := (x + k) % len(cases)
				if cases[i].try() {
					for _, d := range cases {
						d.withdraw()
					}
					return i
				}
			}
		}
		if def {
			return -1
		}
		if first {
			for _, c := range cases {
				c.offer()
			}
		}
		chanWait(me, &n)
	}
}

// Recv is "<-ch".
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

// ChanAll is "range ch".
func ChanAll[T any](ch <-chan T) iter.Seq[T] {
	return func(yield func(T) bool) {
		for {
			v, ok := Recv2(ch)
			if !ok || !yield(v) {
				return
			}
		}
	}
}

// CloseChan is close(ch).
func CloseChan[T any](ch chan<- T) {
	close(ch)
	chanWake(*(*unsafe.Pointer)(unsafe.Pointer(&ch)))
}

// After is time.After on the virtual clock.
func After(d time.Duration) <-chan time.Time {
	ch := make(chan time.Time, 1)
	if !inTask() {
		ch <- Now()
		return ch
	}
	Go(func() {
		Sleep(int64(d))
		ch <- Now()
		chanWake(*(*unsafe.Pointer)(unsafe.Pointer(&ch)))
	})
	return ch
}

// Timer is time.Timer on the virtual clock.
type Timer struct {
	C   <-chan time.Time
	c   chan time.Time
	f   func()
	gen *int // the running wait; nil when stopped or fired
}

// NewTimer is time.NewTimer.
func NewTimer(d time.Duration) *Timer {
	t := &Timer{c: make(chan time.Time, 1)}
	t.C = t.c
	t.start(d)
	return t
}

// AfterFunc is time.AfterFunc.
func AfterFunc(d time.Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.start(d)
	return t
}

//go:noinline
func (t *Timer) fire(g *int) bool {
	if t.gen != g {
		return false
	}
	t.gen = nil
	return true
}

func (t *Timer) start(d time.Duration) {
	g := new(int)
	t.gen = g
	Go(func() {
		nap := max(int64(d)/100, 5_000_000) // in short naps, so that a stopped timer leaves soon
		for left := int64(d); left > 0 && t.gen == g; left -= nap {
			Sleep(min(left, nap))
		}
		if !t.fire(g) {
			return
		}
		if t.f != nil {
			t.f()
			return
		}
		select {
		case t.c <- Now():
			chanWake(*(*unsafe.Pointer)(unsafe.Pointer(&t.c)))
		default:
		}
	})
}

// Stop is Timer.Stop.
//
//go:noinline
func (t *Timer) Stop() bool {
	on := t.gen != nil
	t.gen = nil
	if t.c != nil {
		select {
		case <-t.c:
		default:
		}
	}
	return on
}

// Reset is Timer.Reset.
func (t *Timer) Reset(d time.Duration) bool {
	on := t.Stop()
	t.start(d)
	return on
}

type source struct{}

func (source) Uint64() uint64 {
	if s := S; s != nil {
		return s.entropy.U64()
	}
	mainEntropy += 0x9E3779B97F4A7C15
	return Mix(mainEntropy, 7)
}
func (s source) Int63() int64 { return int64(s.Uint64() >> 1) }
func (source) Seed(int64)     {}

// RandV1 and RandV2 stand for the global generators of math/rand and math/rand/v2.
func RandV1() *rand.Rand { return rand.New(source{}) }

// RandV2 is the generator of math/rand/v2.
func RandV2() *randv2.Rand { return randv2.New(source{}) }

package simrt

import (
	"fmt"
	"iter"
	"sort"
	"time"
	"unsafe"
)

// Epoch is the virtual wall clock's origin.
var Epoch = time.Date(2024, 3, 1, 12, 0, 0, 0, time.UTC)

// Now is the virtual clock (the real one outside a simulation is never used). Like the real one
// it carries a monotonic reading, which clock jumps do not affect.
func Now() time.Time {
	if S == nil {
		return withMono(Epoch, 1)
	}
	Y(0)
	if S == nil {
		return withMono(Epoch, 1)
	}
	return withMono(Epoch.Add(time.Duration(S.NowNS())), 1+S.now)
}

type timeRep struct {
	wall uint64
	ext  int64
	loc  *time.Location
}

var (
	wallBase = time.Date(1885, 1, 1, 0, 0, 0, 0, time.UTC).Unix()
	monoOK   = func() bool {
		if unsafe.Sizeof(time.Time{}) != unsafe.Sizeof(timeRep{}) {
			return false
		}
		a, b := mono(Epoch.Add(5), 100), mono(Epoch.Add(time.Hour), 130)
		return b.Sub(a) == 30 && a.Round(0) == Epoch.Add(5) && b.Round(0) == Epoch.Add(time.Hour) && a.Sub(Epoch) == 5
	}()
)

func mono(t time.Time, m int64) time.Time {
	r := (*timeRep)(unsafe.Pointer(&t))
	r.wall = 1<<63 | uint64(t.Unix()-wallBase)<<30 | uint64(t.Nanosecond())
	r.ext = m
	return t
}

// withMono adds a monotonic reading to t (nothing, should time.Time look different one day).
func withMono(t time.Time, m int64) time.Time {
	if !monoOK {
		return t
	}
	return mono(t, m)
}

// Since is time.Since on the virtual clock.
func Since(t time.Time) time.Duration { return Now().Sub(t) }

// Until is time.Until on the virtual clock.
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

// SleepD is time.Sleep on the virtual clock.
func SleepD(d time.Duration) { Sleep(int64(d)) }

// Entropy is the simulated random device.
type Entropy struct{}

// Read fills b.
func (Entropy) Read(b []byte) (int, error) {
	s := S
	if s == nil {
		for i := range b {
			mainEntropy += 0x9E3779B97F4A7C15
			b[i] = byte(Mix(mainEntropy, 7))
		}
		return len(b), nil
	}
	switch s.EntMode {
	case 1: // all ones
		for i := range b {
			b[i] = 0xff
		}
	case 2: // all zero
		for i := range b {
			b[i] = 0
		}
	case 3: // mostly ones, few random low bits
		for i := range b {
			b[i] = 0xff
		}
		if len(b) > 0 {
			b[len(b)-1] = byte(s.entropy.U64())
		}
		if len(b) > 1 {
			b[len(b)-2] = byte(s.entropy.U64()) | 0xf0
		}
	case 4: // boundary bytes
		for i := range b {
			b[i] = [...]byte{0xff, 0xff, 0xff, 0x00, 0x7f, 0x80, 0xfe, 0x01}[s.entropy.U64()%8]
		}
	default:
		for i := range b {
			b[i] = byte(s.entropy.U64())
		}
	}
	if s.EntMode == 5 { // random, but for one word of zeros and one of ones
		for i := 0; i+8 <= len(b); i += 8 {
			if s.entropy.Intn(8) != 0 || s.entExtreme >= 2 {
				continue
			}
			for k := i; k < i+8; k++ {
				b[k] = []byte{0, 0xff}[s.entExtreme]
			}
			s.entExtreme++
		}
	}
	if s.EntMode != 0 {
		s.count("entropy-extreme")
	}
	return len(b), nil
}

var mainEntropy uint64

// ResetMainEntropy makes entropy use outside simulations deterministic.
func ResetMainEntropy(v uint64) { mainEntropy = v }

func keyHash(k any) (string, bool) {
	switch v := k.(type) {
	case string:
		return v, true
	case fmt.Stringer:
		return v.String(), true
	}
	return fmt.Sprintf("%020v", k), true
}

func orderedKeys[K comparable, V any](m map[K]V) []K {
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	if len(keys) < 2 {
		return keys
	}
	strs := make([]string, len(keys))
	idx := make([]int, len(keys))
	for i, k := range keys {
		strs[i], _ = keyHash(any(k))
		idx[i] = i
	}
	sort.Slice(idx, func(a, b int) bool { return strs[idx[a]] < strs[idx[b]] })
	shuffle(idx)
	out := make([]K, len(keys))
	for i, j := range idx {
		out[i] = keys[j]
	}
	return out
}

// shuffle is kept out of the generic code, which is compiled with the package
// that uses it and so under the race detector.
//
//go:noinline
func shuffle(out []int) {
	s := S
	if s != nil && s.MapSeed != 0 && s.cur != nil {
		s.cur.mapCalls++
		r := NewRng(Mix(s.MapSeed, uint64(s.cur.id)<<32|s.cur.mapCalls))
		for i := len(out) - 1; i > 0; i-- {
			j := r.Intn(i + 1)
			out[i], out[j] = out[j], out[i]
		}
		s.count("map-order-shuffled")
	}
}

// MapAll replaces "range m": the iteration order is the simulator's.
func MapAll[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		for _, k := range orderedKeys(m) {
			v, ok := m[k]
			if !ok {
				continue
			}
			if !yield(k, v) {
				return
			}
		}
	}
}

// MapKeys replaces maps.Keys and "range m" with one variable.
func MapKeys[M ~map[K]V, K comparable, V any](m M) iter.Seq[K] {
	return func(yield func(K) bool) {
		for _, k := range orderedKeys(m) {
			if _, ok := m[k]; !ok {
				continue
			}
			if !yield(k) {
				return
			}
		}
	}
}

// MapValues replaces maps.Values.
func MapValues[M ~map[K]V, K comparable, V any](m M) iter.Seq[V] {
	return func(yield func(V) bool) {
		for _, k := range orderedKeys(m) {
			v, ok := m[k]
			if !ok {
				continue
			}
			if !yield(v) {
				return
			}
		}
	}
}

package main

// LinOp is one completed operation of a history.
type LinOp struct {
	C         int
	Call, Ret int64
	In, Out   any
}

// LinModel is a sequential specification; states are immutable values.
type LinModel[S any] struct {
	Init S
	Step func(s S, op *LinOp) (bool, S)
	Key  func(s S) string
}

// seqLinearizable checks a history that begins with pre and ends with post,
// both sequential.
func seqLinearizable[S any](pre, ops, post []LinOp, m LinModel[S], budget int) (ok, decided bool) {
	for i := range pre {
		good, s := m.Step(m.Init, &pre[i])
		if !good {
			return false, true
		}
		m.Init = s
	}
	step := m.Step
	m.Step = func(s S, op *LinOp) (bool, S) {
		if op.C != -99 {
			return step(s, op)
		}
		good := true
		for i := 0; good && i < len(post); i++ {
			good, s = step(s, &post[i])
		}
		return good, s
	}
	all := append([]LinOp{}, ops...)
	if len(post) > 0 {
		all = append(all, LinOp{C: -99, Call: 1 << 61, Ret: 1<<61 + 1})
	}
	return linearizable(all, m, budget)
}

// linearizable searches for a linearization (Wing & Gong with memoisation).
// decided=false: the budget ran out, no verdict.
func linearizable[S any](ops []LinOp, m LinModel[S], budget int) (ok, decided bool) {
	n := len(ops)
	if n > 62 {
		return true, false
	}
	full := uint64(1)<<n - 1
	seen := map[string]struct{}{}
	steps := 0
	var rec func(done uint64, st S) (bool, bool)
	rec = func(done uint64, st S) (bool, bool) {
		if done == full {
			return true, true
		}
		steps++
		if steps > budget {
			return true, false
		}
		k := string([]byte{byte(done), byte(done >> 8), byte(done >> 16), byte(done >> 24), byte(done >> 32), byte(done >> 40), byte(done >> 48), byte(done >> 56)}) + m.Key(st)
		if _, dup := seen[k]; dup {
			return false, true
		}
		seen[k] = struct{}{}
		minRet := int64(1<<62 - 1)
		for i := 0; i < n; i++ {
			if done&(1<<i) == 0 && ops[i].Ret < minRet {
				minRet = ops[i].Ret
			}
		}
		for i := 0; i < n; i++ {
			if done&(1<<i) != 0 || ops[i].Call > minRet {
				continue
			}
			good, ns := m.Step(st, &ops[i])
			if !good {
				continue
			}
			r, d := rec(done|1<<i, ns)
			if !d {
				return true, false
			}
			if r {
				return true, true
			}
		}
		return false, true
	}
	return rec(0, m.Init)
}

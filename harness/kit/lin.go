package kit

// Op is one operation of a concurrent history, stamped with global event
// sequence numbers. Ret==0 means it never returned.
type Op struct {
	Client    int
	Kind      int
	Arg       int
	Out       int
	OK        bool
	Call, Ret uint64
}

// Hist is a recorded concurrent history.
type Hist struct {
	W   *W
	Ops []Op
}

//go:norace
//go:noinline
func (h *Hist) Call(client, kind, arg int) int {
	if RaceMode {
		return 0
	}
	s := h.W.Ev("call", kind, arg)
	h.Ops = append(h.Ops, Op{Client: client, Kind: kind, Arg: arg, Call: s})
	return len(h.Ops) - 1
}

//go:norace
//go:noinline
func (h *Hist) Return(i, out int, ok bool) {
	if RaceMode {
		return
	}
	o := &h.Ops[i]
	o.Out = out
	o.OK = ok
	o.Ret = h.W.Ev("ret", o.Kind, out)
}

// Model is a sequential specification over small string-encodable states.
type Model struct {
	Init string
	// Step returns the states op may lead to (empty: op is impossible here).
	Step func(state string, op *Op) (string, bool)
}

// Linearizable searches for a linearization (Wing & Gong with memoisation).
// ok=false,done=true: illegal. done=false: gave up (inconclusive).
func Linearizable(m Model, ops []Op, budget int) (ok, done bool) {
	n := len(ops)
	if n > 62 {
		return false, false
	}
	type key struct {
		mask  uint64
		state string
	}
	seen := map[key]bool{}
	steps := 0
	var rec func(mask uint64, state string) (bool, bool)
	var need uint64
	for i := range ops {
		if ops[i].Ret != 0 {
			need |= 1 << uint(i)
		}
	}
	rec = func(mask uint64, state string) (bool, bool) {
		if mask&need == need {
			return true, true
		}
		k := key{mask, state}
		if seen[k] {
			return false, true
		}
		seen[k] = true
		steps++
		if steps > budget {
			return false, false
		}
		// minimal return among the pending operations
		min := ^uint64(0)
		for i := range ops {
			if mask&(1<<uint(i)) == 0 && ops[i].Ret != 0 && ops[i].Ret < min {
				min = ops[i].Ret
			}
		}
		for i := range ops {
			if mask&(1<<uint(i)) != 0 || ops[i].Call > min {
				continue
			}
			ns, legal := m.Step(state, &ops[i])
			if !legal {
				continue
			}
			r, d := rec(mask|1<<uint(i), ns)
			if !d {
				return false, false
			}
			if r {
				return true, true
			}
		}
		return false, true
	}
	return rec(0, m.Init)
}

package kit

import "runtime"

// Tune restricts the fault and schedule space of a scenario.
type Tune struct {
	NoJump     bool // no clock jumps and no per-step time: the oracle reads simulated time
	NoMem      bool // no memory-level preemption
	Soft, Max  uint64
	MemHeavy   bool
	NoStall    bool
	NoPoolDrop bool
}

type prng struct{ s uint64 }

func (p *prng) next() uint64 {
	p.s += 0x9e3779b97f4a7c15
	z := p.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (p *prng) n(k int) int           { return int((p.next() >> 33) % uint64(k)) }
func (p *prng) of(v ...uint32) uint32 { return v[p.n(len(v))] }

// Config draws the swarm configuration of one run from its seed.
func Config(seed uint64, t Tune) runtime.SimConfig {
	r := &prng{seed*0xd6e8feb86659fd93 ^ 0xabcdef12345}
	c := runtime.SimConfig{Seed: seed, SoftSteps: 250000, MaxSteps: 4000000, NumCPU: 1 + r.n(4)}
	if t.Soft != 0 {
		c.SoftSteps = t.Soft
		c.MaxSteps = t.Soft * 2
	}
	if t.Max != 0 {
		c.MaxSteps = t.Max
	}
	const u = 65536
	switch k := r.n(100); {
	case k < 45:
		c.Strategy = runtime.SimStratRandom
		base := r.of(u/2, u/4, u/8, u/16, u/64, u/400)
		for i := 0; i < 4; i++ {
			c.P[i] = base
			if r.n(6) == 0 {
				c.P[i] = 0
			}
			if r.n(6) == 0 {
				c.P[i] = u / 2
			}
		}
		if !t.NoMem && r.n(10) < 6 {
			c.P[4] = r.of(u/8, u/30, u/100, u/400)
		}
		if !t.NoMem && r.n(10) < 4 {
			c.P[5] = r.of(u/8, u/30, u/100)
		}
		if !t.NoStall && r.n(4) == 0 {
			c.PStall = r.of(u/20, u/100, u/400)
			c.StallLen = uint64(r.of(50, 300, 3000))
		}
	case k < 88:
		c.Strategy = runtime.SimStratPCT
		c.PSet = r.of(u/8, u/20, u/60, u/200, u/1000)
		if !t.NoMem && r.n(10) < 7 {
			c.P[4] = 1
			c.P[5] = 1
		}
	case k < 95:
		c.Strategy = runtime.SimStratRR
	default:
		c.Strategy = runtime.SimStratSerial
	}
	if r.n(10) < 7 {
		c.PEnv = u / 2
	}
	if !t.NoPoolDrop && r.n(2) == 0 {
		c.PDrop = r.of(u/10, u/2)
	}
	if !t.NoJump {
		if r.n(3) == 0 {
			c.PJump = r.of(u/20, u/200)
		}
		c.StepCost = int64(r.of(0, 0, 50, 1000, 100000))
	}
	return c
}

package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"

	"github.com/gostdlib/concurrency/pipelines/stagedpipe/internal/verifsim/kit"
)

// minimize shrinks a failing run: first its workload choices (each candidate
// is tried with the recorded schedule and with a few fresh schedules), then
// its scheduling and fault decisions (delta debugging). The violation class
// must stay the same. The result is printed as a full report of the smallest
// failing run.
func minimize(path string, secs float64) {
	data, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var sp Spec
	if err := json.Unmarshal(data, &sp); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	s := find(sp.Prop, sp.Scenario)
	if s == nil {
		os.Exit(2)
	}
	warmup(sp.Prop)
	if secs <= 0 {
		secs = 15
	}
	end := realNow() + int64(secs*1e9)
	left := func() bool { return realNow() < end }
	base := kit.Config(sp.Seed, s.Tune)
	if sp.Config != nil {
		base = *sp.Config
	}
	tries := 0
	class := ""

	// attempt executes the workload under a recorded schedule (dec != nil) or
	// a fresh one; it returns the decisions on a failure of the same class.
	var last *Report
	attempt := func(ch []uint32, has bool, cfg runtime.SimConfig, dec []runtime.SimDec, replay bool) bool {
		tries++
		if replay {
			cfg.Strategy = runtime.SimStratReplay
			cfg.Replay = dec
		}
		w := kit.NewW(sp.Seed, sp.Prop)
		if has {
			w.SetReplay(ch)
		}
		r := runOne(s, w, &cfg)
		if r.Status == runtime.SimOK || r.Overflow {
			return false
		}
		if c := classOf(r.Status, r.Msg); class == "" {
			class = c
		} else if c != class {
			return false
		}
		last = report(sp.Prop, s, w, &cfg, r, true)
		return true
	}

	if !attempt(sp.Choices, sp.HasChoice, base, sp.Decisions, sp.Replay) {
		emit(map[string]any{"minimize": nil})
		return
	}
	cur := last
	// Under replay the same decisions must fail the same way.
	if attempt(cur.Choices, true, base, cur.Decisions, true) {
		cur = last
	} else {
		emit(map[string]any{"minimize": cur, "tries": tries})
		return
	}

	// 1. workload choices
	improved := true
	for improved && left() {
		improved = false
		for i := 0; i < len(cur.Choices) && left(); i++ {
			v := cur.Choices[i]
			if v == 0 {
				continue
			}
			cands := []uint32{0}
			if v > 2 {
				cands = append(cands, v/2)
			}
			if v > 1 {
				cands = append(cands, v-1)
			}
			for _, nv := range cands {
				ch := append([]uint32(nil), cur.Choices...)
				ch[i] = nv
				ok := attempt(ch, true, base, cur.Decisions, true)
				for k := 0; !ok && k < 25 && left(); k++ {
					cfg := kit.Config(sp.Seed+uint64(k+1)*1000003+uint64(i)*7919, s.Tune)
					if attempt(ch, true, cfg, nil, false) {
						f := last
						if attempt(f.Choices, true, cfg, f.Decisions, true) {
							base = cfg
							ok = true
						}
					}
				}
				if ok {
					cur = last
					improved = true
					break
				}
			}
		}
	}

	// 2. schedule and fault decisions
	dec := cur.Decisions
	for chunk := (len(dec) + 1) / 2; chunk >= 1 && left(); {
		removed := false
		for i := 0; i < len(dec) && left(); {
			j := i + chunk
			if j > len(dec) {
				j = len(dec)
			}
			cand := append(append([]runtime.SimDec(nil), dec[:i]...), dec[j:]...)
			if attempt(cur.Choices, true, base, cand, true) {
				dec = cand
				cur = last
				removed = true
			} else {
				i = j
			}
		}
		if chunk == 1 && !removed {
			break
		}
		if chunk > 1 {
			chunk = (chunk + 1) / 2
		}
		if chunk == 1 && removed && len(dec) > 400 {
			break
		}
	}
	// The decisions of the report are those actually taken; keep the smaller
	// list that provokes them.
	cur.Decisions = dec
	cur.Config = &base
	emit(map[string]any{"minimize": cur, "tries": tries})
}

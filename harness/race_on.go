//go:build race

package main

import (
	"fmt"
	"os"
	"runtime"
	"sort"
	"strings"
)

const raceMode = true

func raceErrors() int { return runtime.RaceErrors() }

var raceOff int64

// raceText returns the detector's report of the last race (GORACE must name a
// log_path), headed by a stable class: the two innermost functions.
func raceText() string {
	path := ""
	for _, f := range strings.Fields(os.Getenv("GORACE")) {
		if strings.HasPrefix(f, "log_path=") {
			path = fmt.Sprintf("%s.%d", f[len("log_path="):], os.Getpid())
		}
	}
	data, err := os.ReadFile(path)
	if err != nil || int64(len(data)) <= raceOff {
		return "data race (no report text): "
	}
	txt := string(data[raceOff:])
	raceOff = int64(len(data))
	var fns []string
	lines := strings.Split(txt, "\n")
	for i, l := range lines {
		t := strings.TrimSpace(l)
		if (strings.HasPrefix(t, "Read at") || strings.HasPrefix(t, "Write at") || strings.HasPrefix(t, "Previous ") ||
			strings.HasPrefix(t, "Atomic ")) && len(fns) < 2 {
			fn := "?"
			for j := i + 1; j < len(lines) && strings.TrimSpace(lines[j]) != ""; j++ {
				c := strings.TrimSpace(lines[j])
				if strings.HasPrefix(c, "runtime.") || strings.HasPrefix(c, "/") || strings.HasPrefix(c, "internal/") {
					continue
				}
				fn = strings.TrimSuffix(c, "()")
				break
			}
			if k := strings.LastIndex(fn, "/"); k >= 0 {
				fn = fn[k+1:]
			}
			fns = append(fns, fn)
		}
	}
	sort.Strings(fns)
	return "data race between " + strings.Join(fns, " and ") + ":\n" + txt
}

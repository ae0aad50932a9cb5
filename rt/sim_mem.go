// Memory hooks for packages compiled with the compiler's -race instrumentation
// but linked without the race detector: each instrumented access is a
// scheduling point of the simulator.

//go:build !race

package runtime

import "internal/abi"

// simHook reports whether pc is the entry of one of the memory hooks.
func simHook(pc uintptr) bool {
	return pc == abi.FuncPCABIInternal(raceread) || pc == abi.FuncPCABIInternal(racewrite) ||
		pc == abi.FuncPCABIInternal(racereadrange) || pc == abi.FuncPCABIInternal(racewriterange) ||
		pc == abi.FuncPCABIInternal(racefuncexit)
}

func raceread(addr uintptr) {
	if sim.on {
		simPoint1(simKMem, getcallerpc())
	}
}

func racewrite(addr uintptr) {
	if sim.on {
		simPoint1(simKMem, getcallerpc())
	}
}

func racereadrange(addr, size uintptr) {
	if sim.on {
		simPoint1(simKMem, getcallerpc())
	}
}

func racewriterange(addr, size uintptr) {
	if sim.on {
		simPoint1(simKMem, getcallerpc())
	}
}

// The call of racefuncenter comes before the function's results are zeroed,
// so the stack must not be grown or scanned there: no scheduling point.
//
//go:nosplit
func racefuncenter(pc uintptr) {}

func racefuncexit() {
	if sim.on {
		simPoint1(simKFunc, getcallerpc())
	}
}

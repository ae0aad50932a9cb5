#!/usr/bin/env python3
"""Generates the overlay that puts the Go runtime, sync, sync/atomic and time
behind the simulator (rt/sim.go).

usage: patch.py GOROOT OUTDIR mem|race

Every replacement must match exactly once (or the stated number of times):
another toolchain version makes the build stop instead of silently running
without a seam.
"""
import json, os, re, sys

GOROOT, OUT, MODE = sys.argv[1], sys.argv[2], sys.argv[3]
HERE = os.path.dirname(os.path.abspath(__file__))
SRC = os.path.join(GOROOT, "src")
overlay = {}


def die(msg):
    print("patch.py: " + msg, file=sys.stderr)
    sys.exit(2)


def put(rel, text):
    dst = os.path.join(OUT, rel.replace("/", "__"))
    old = None
    if os.path.exists(dst):
        old = open(dst).read()
    if old != text:
        with open(dst, "w") as f:
            f.write(text)
    overlay[os.path.join(SRC, rel)] = dst


def edit(rel, *subs):
    text = open(os.path.join(SRC, rel)).read()
    for s in subs:
        old, new = s[0], s[1]
        n = s[2] if len(s) > 2 else 1
        if text.count(old) != n:
            die("%s: %d matches (want %d) for %r" % (rel, text.count(old), n, old))
        text = text.replace(old, new)
    put(rel, text)


os.makedirs(OUT, exist_ok=True)

# ---- runtime --------------------------------------------------------------
put("runtime/sim.go", open(os.path.join(HERE, "sim.go")).read())
if MODE == "mem":
    put("runtime/sim_mem.go", open(os.path.join(HERE, "sim_mem.go")).read())

edit("runtime/runtime2.go",
     ("	goid         uint64\n", "	goid         uint64\n	simid, simepoch, simprio, simpts, simenv uint32\n	simatomic int32\n	simstall uint64\n"))

edit("runtime/proc.go",
     # no monitor thread: nothing preempts or retakes behind the simulator's back
     ('const haveSysmon = GOARCH != "wasm"', "const haveSysmon = false"),
     ("	// now and pollUntil are saved for work stealing later,\n",
      "	if sim.on {\n		if gp := simFind(); gp != nil {\n			return gp, false, false\n		}\n		goto top\n	}\n\n	// now and pollUntil are saved for work stealing later,\n"),
     ("func runqput(pp *p, gp *g, next bool) {\n",
      "func runqput(pp *p, gp *g, next bool) {\n	if simRunq(gp) {\n		simEnqueue(gp)\n		return\n	}\n"),
     ("func globrunqput(gp *g) {\n	assertLockHeld(&sched.lock)\n",
      "func globrunqput(gp *g) {\n	assertLockHeld(&sched.lock)\n	if simRunq(gp) {\n		simEnqueue(gp)\n		return\n	}\n"),
     ("	casgstatus(newg, _Gdead, status)\n	if pp.goidcache == pp.goidcacheend {",
      "	simNewG(newg)\n	casgstatus(newg, _Gdead, status)\n	if pp.goidcache == pp.goidcacheend {"),
     ("	casgstatus(gp, _Grunning, _Gdead)\n	gcController.addScannableStack(pp, -int64(gp.stack.hi-gp.stack.lo))\n	if isSystemGoroutine(gp, false) {",
      "	casgstatus(gp, _Grunning, _Gdead)\n	simGone(gp)\n	gcController.addScannableStack(pp, -int64(gp.stack.hi-gp.stack.lo))\n	if isSystemGoroutine(gp, false) {"),
     ("		if mainStarted {\n			wakep()\n		}\n	})\n}\n",
      "		if mainStarted {\n			wakep()\n		}\n	})\n	simPoint(simKSpawn, pc)\n}\n"),
     ("func Gosched() {\n	checkTimeouts()\n",
      "func Gosched() {\n	if sim.on && simMine(getg()) {\n		simPoint1(simKYield, getcallerpc())\n		return\n	}\n	checkTimeouts()\n"),
     ("func goexit1() {\n", "func goexit1() {\n	if raceenabled && simMine(getg()) {\n		racereleasemerge(unsafe.Pointer(&simFence))\n	}\n"),
     ("func preemptone(pp *p) bool {\n", "func preemptone(pp *p) bool {\n	if sim.on {\n		return false\n	}\n"),
     ("func os_beforeExit(exitCode int) {\n", "func os_beforeExit(exitCode int) {\n	simOSExit(exitCode)\n"),
     )

edit("runtime/panic.go",
     ("func sync_fatal(s string) {\n", "func sync_fatal(s string) {\n	simFatal(s)\n"),
     ("func fatalpanic(msgs *_panic) {\n", "func fatalpanic(msgs *_panic) {\n	simUncaught(msgs)\n"))

edit("runtime/debug.go",
     ("func NumCPU() int {\n", "func NumCPU() int {\n	if sim.on && sim.cfg.NumCPU != 0 {\n		return sim.cfg.NumCPU\n	}\n"))

edit("runtime/time_nofake.go",
     ("func nanotime() int64 {\n", "func nanotime() int64 {\n	if sim.on {\n		return sim.now\n	}\n"))
edit("runtime/timeasm.go",
     ("//go:linkname time_now time.now\nfunc time_now() (sec int64, nsec int32, mono int64)", ""))
put("runtime/time_linux_amd64.s", "//go:build ignore\n")

edit("runtime/rand.go",
     ("	if startupRand != nil {\n", "	for i := range seed {\n		seed[i] = byte(i*37 + 11)\n	}\n	if true {\n		startupRand = nil\n	} else if startupRand != nil {\n"),
     ("	mp := getg().m\n	c := &mp.chacha8\n",
      "	if sim.on {\n		if gp := getg(); gp.m.curg == gp && simMine(gp) {\n			return simRuntimeRand()\n		}\n	}\n	mp := getg().m\n	c := &mp.chacha8\n"))

edit("runtime/map.go",
     ("	r := uintptr(rand())\n", "	var r uintptr\n	if sim.on {\n		r = uintptr(simEnv(64))\n	} else {\n		r = uintptr(rand())\n	}\n"))

edit("runtime/chan.go",
     ("	chansend(c, elem, true, getcallerpc())\n", "	simPoint(simKChan, getcallerpc())\n	chansend(c, elem, true, getcallerpc())\n"),
     ("	chanrecv(c, elem, true)\n}", "	simPoint(simKChan, getcallerpc())\n	chanrecv(c, elem, true)\n}"),
     ("	_, received = chanrecv(c, elem, true)\n	return\n}\n\n// chanrecv receives", "	simPoint(simKChan, getcallerpc())\n	_, received = chanrecv(c, elem, true)\n	return\n}\n\n// chanrecv receives"),
     ("func closechan(c *hchan) {\n", "func closechan(c *hchan) {\n	simPoint(simKChan, getcallerpc())\n"),
     ("	return chansend(c, elem, false, getcallerpc())\n", "	simPoint(simKChan, getcallerpc())\n	return chansend(c, elem, false, getcallerpc())\n"),
     ("func selectnbrecv(elem unsafe.Pointer, c *hchan) (selected, received bool) {\n", "func selectnbrecv(elem unsafe.Pointer, c *hchan) (selected, received bool) {\n	simPoint(simKChan, getcallerpc())\n"),
     )
edit("runtime/select.go",
     ("func selectgo(cas0 *scase, order0 *uint16, pc0 *uintptr, nsends, nrecvs int, block bool) (int, bool) {\n",
      "func selectgo(cas0 *scase, order0 *uint16, pc0 *uintptr, nsends, nrecvs int, block bool) (int, bool) {\n	simPoint(simKChan, getcallerpc())\n"),
     ("		j := cheaprandn(uint32(norder + 1))\n",
      "		var j uint32\n		if sim.on {\n			j = simSelectOrder(norder)\n		} else {\n			j = cheaprandn(uint32(norder + 1))\n		}\n"))
if MODE == "mem":
    p = "	%s\n"
    # At a memory hook the frame of the caller may hold variables that are not
    # initialised yet (the compiler takes the hooks for leaf calls of the race
    # detector, at which nobody looks at the stack): scan it conservatively,
    # as at an asynchronous preemption.
    edit("runtime/mgcmark.go",
         ("	isAsyncPreempt := frame.fn.valid() && frame.fn.funcID == abi.FuncID_asyncPreempt\n",
          "	isAsyncPreempt := frame.fn.valid() && (frame.fn.funcID == abi.FuncID_asyncPreempt || simHook(frame.fn.entry()))\n"))
    edit("runtime/runtime1.go", ("	debug.invalidptr = 1\n", "	debug.invalidptr = 0\n"))
    edit("runtime/atomic_pointer.go",
         ("func sync_atomic_StorePointer(ptr *unsafe.Pointer, new unsafe.Pointer) {\n",
          "func sync_atomic_StorePointer(ptr *unsafe.Pointer, new unsafe.Pointer) {\n	simPoint(simKAtomic, getcallerpc())\n"),
         ("func sync_atomic_SwapPointer(ptr *unsafe.Pointer, new unsafe.Pointer) unsafe.Pointer {\n",
          "func sync_atomic_SwapPointer(ptr *unsafe.Pointer, new unsafe.Pointer) unsafe.Pointer {\n	simPoint(simKAtomic, getcallerpc())\n"),
         ("func sync_atomic_CompareAndSwapPointer(ptr *unsafe.Pointer, old, new unsafe.Pointer) bool {\n",
          "func sync_atomic_CompareAndSwapPointer(ptr *unsafe.Pointer, old, new unsafe.Pointer) bool {\n	simPoint(simKAtomic, getcallerpc())\n"))

# ---- sync -----------------------------------------------------------------


def points(rel, names, extra=()):
    text = open(os.path.join(SRC, rel)).read()
    for nm in names:
        m = re.findall(r"(?m)^func " + re.escape(nm) + r"\([^\n]*\{\n", text)
        if len(m) != 1:
            die("%s: %s matched %d times" % (rel, nm, len(m)))
        text = text.replace(m[0], m[0] + "	runtime_simPoint()\n")
    for old, new in extra:
        if text.count(old) != 1:
            die("%s: %r" % (rel, old))
        text = text.replace(old, new)
    put(rel, text)


points("sync/mutex.go", ["(m *Mutex) Lock", "(m *Mutex) TryLock", "(m *Mutex) Unlock"])
points("sync/rwmutex.go", ["(rw *RWMutex) RLock", "(rw *RWMutex) TryRLock", "(rw *RWMutex) RUnlock",
                           "(rw *RWMutex) Lock", "(rw *RWMutex) TryLock", "(rw *RWMutex) Unlock"])
points("sync/waitgroup.go", ["(wg *WaitGroup) Add", "(wg *WaitGroup) Wait"])
points("sync/once.go", ["(o *Once) Do"])
points("sync/cond.go", ["(c *Cond) Wait", "(c *Cond) Signal", "(c *Cond) Broadcast"])
points("sync/map.go", ["(m *Map) Load", "(m *Map) LoadOrStore", "(m *Map) LoadAndDelete", "(m *Map) Swap",
                       "(m *Map) CompareAndSwap", "(m *Map) CompareAndDelete", "(m *Map) Range"])
edit("sync/runtime.go",
     ("func runtime_Semacquire(s *uint32)\n",
      "func runtime_Semacquire(s *uint32)\n\nfunc runtime_simPoint()\nfunc runtime_simPoolChoice(n int) int\nfunc runtime_simEpoch() uint32\n"))
put("sync/pool.go", open(os.path.join(HERE, "sync_pool.go.txt")).read())

# ---- sync/atomic ----------------------------------------------------------
if MODE == "mem":
    doc = open(os.path.join(SRC, "sync/atomic/doc.go")).read()
    keep = {"SwapPointer", "StorePointer", "CompareAndSwapPointer", "SwapUintptr", "StoreUintptr", "CompareAndSwapUintptr"}
    T = {"Int32": ("int32", "uint32", ""), "Uint32": ("uint32", "uint32", ""),
         "Int64": ("int64", "uint64", "64"), "Uint64": ("uint64", "uint64", "64"),
         "Uintptr": ("uintptr", "uintptr", "uintptr")}
    bodies = []

    def body(name):
        m = re.match(r"(Swap|CompareAndSwap|Add|Load|Store|And|Or)(Int32|Uint32|Int64|Uint64|Uintptr|Pointer)$", name)
        op, ty = m.group(1), m.group(2)
        if ty == "Pointer":
            if op == "Load":
                return "return ra.Loadp(unsafe.Pointer(addr))"
            die("unexpected " + name)
        g, u, suf = T[ty]
        a = "(*%s)(unsafe.Pointer(addr))" % u
        if op == "Swap":
            return "return %s(ra.Xchg%s(%s, %s(new)))" % (g, suf, a, u)
        if op == "CompareAndSwap":
            return "return ra.Cas%s(%s, %s(old), %s(new))" % (suf, a, u, u)
        if op == "Add":
            d = {"": "int32(delta)", "64": "int64(delta)", "uintptr": "delta"}[suf]
            return "return %s(ra.Xadd%s(%s, %s))" % (g, suf, a, d)
        if op == "Load":
            return "return %s(ra.Load%s(%s))" % (g, suf, a)
        if op == "Store":
            return "ra.Store%s(%s, %s(val))" % (suf, a, u)
        if op in ("And", "Or"):
            f = op + {"": "32", "64": "64", "uintptr": "uintptr"}[suf]
            return "return %s(ra.%s(%s, %s(mask)))" % (g, f, a, u)

    def repl(m):
        name = m.group(1)
        if name in keep:
            return m.group(0)
        return "//go:noinline\n" + m.group(0) + " {\n	runtime_simPoint()\n	" + body(name) + "\n}"

    doc2, n = re.subn(r"(?m)^func ([A-Z]\w*)\([^\n{]*$", repl, doc)
    if n < 30:
        die("sync/atomic/doc.go: %d functions" % n)
    if doc2.count('import (\n	"unsafe"\n)') != 1:
        die("sync/atomic/doc.go imports")
    doc2 = doc2.replace('import (\n	"unsafe"\n)', 'import (\n	ra "internal/runtime/atomic"\n	"unsafe"\n)\n\nfunc runtime_simPoint()')
    doc2 = re.sub(r"(?m)^//go:noescape\n(?=//go:noinline)", "", doc2)
    put("sync/atomic/doc.go", doc2)
    asm = open(os.path.join(SRC, "sync/atomic/asm.s")).read()
    parts = re.split(r"(?m)^(?=TEXT )", asm)
    out = [parts[0]]
    for p in parts[1:]:
        nm = re.match(r"TEXT ·(\w+)\(SB\)", p).group(1)
        if nm in keep:
            out.append(p)
    put("sync/atomic/asm.s", "".join(out))
    points("sync/atomic/value.go", ["(v *Value) Load", "(v *Value) Store", "(v *Value) Swap", "(v *Value) CompareAndSwap"])
else:
    doc = open(os.path.join(SRC, "sync/atomic/doc.go")).read()
    doc = doc.replace('import (\n	"unsafe"\n)', 'import (\n	"unsafe"\n)\n\nfunc runtime_simPoint()')
    put("sync/atomic/doc.go", doc)
    points("sync/atomic/value.go", ["(v *Value) Load", "(v *Value) Store", "(v *Value) Swap", "(v *Value) CompareAndSwap"])

text = open(os.path.join(SRC, "sync/atomic/type.go")).read()
text, n = re.subn(r"(?m)^(func \(x \*\w+(?:\[T\])?\) \w+\([^\n]*?\)[^\n{]*)\{ (.*) \}$", r"\1{ runtime_simPoint(); \2 }", text)
if n < 30:
    die("sync/atomic/type.go: %d methods" % n)
text, n = re.subn(r"(?m)^(func \(x \*\w+(?:\[T\])?\) \w+\([^\n]*\{)\n", r"\1\n	runtime_simPoint()\n", text)
if n < 7:
    die("sync/atomic/type.go: %d long methods" % n)
if text.count("runtime_simPoint()") != len(re.findall(r"(?m)^func \(x \*", text)):
    die("sync/atomic/type.go: methods without a scheduling point")
put("sync/atomic/type.go", text)

# ---- context: cancellation order of children must not depend on addresses --
edit("context/context.go",
     ("	for child := range c.children {\n", "	for _, child := range simOrder(c) {\n"),
     ("	children map[canceler]struct{} // set to nil by the first cancel call\n",
      "	children map[canceler]struct{} // set to nil by the first cancel call\n	simord []canceler\n"),
     ("		p.children[child] = struct{}{}\n", "		p.children[child] = struct{}{}\n			p.simord = append(p.simord, child)\n"),
     ("// removeChild removes a context from its parent.\n",
      "func simOrder(c *cancelCtx) []canceler {\n	var out []canceler\n	for _, ch := range c.simord {\n		if _, ok := c.children[ch]; ok {\n			out = append(out, ch)\n		}\n	}\n	c.simord = nil\n	return out\n}\n\n// removeChild removes a context from its parent.\n"),
     )

json.dump({"Replace": overlay}, open(os.path.join(OUT, "overlay.json"), "w"), indent=1)

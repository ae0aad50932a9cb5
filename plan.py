"""Budgets and notes of each property's check."""

REAL = ["all packages of github.com/gostdlib/concurrency that the property anchors", "github.com/johnsiilver/{dynamics/demux,pools,...}",
        "Go runtime goroutines, channels, select, sync, sync/atomic, context, time"]
STUB = ["scheduler (seeded)", "clock and timers (simulated)", "randomness (seeded)", "sync.Pool eviction (seeded)",
        "OpenTelemetry tracer (recording fake)"]

PLAN = {}
for i in range(1, 26):
    PLAN["C%02d" % i] = {"quick": 600000 if i < 15 else 200000}
PLAN["C25"].update(mode="race", quick=30000)

CLAIMED = ["C%02d" % i for i in range(1, 26)]
NA = {}
for i in range(26, 26):
    NA["C%02d" % i] = "check still being built"

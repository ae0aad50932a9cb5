#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property texts)."""
import json, os
S, I, H, C, F = "schedules", "inputs", "histories", "configurations", "fault_sequences"
P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=(), obs=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(obs), "hook_needed": None}})


LIM, POO = "goroutines/limited/goroutines.go", "goroutines/pooled/goroutines.go"
GOR, REG = "goroutines/goroutines.go", "goroutines/internal/register/register.go"
WAI, SLI, SLO = "prim/wait/wait.go", "prim/slices/slice.go", "prim/slices/options.go"
CHA, CHO, ATO = "prim/chans/chans.go", "prim/chans/options.go", "prim/atomics/atomics.go"
STG, STS, QUE = "pipelines/stagedpipe/stagedpipe.go", "pipelines/stagedpipe/stats.go", "pipelines/stagedpipe/internal/queue/queue.go"

prop("C01", "Pools run every accepted job exactly once; Wait and Close wait for them",
     "For both goroutine pools (limited and pooled), every job whose Submit returned nil is executed exactly once with the context given to Submit, "
     "and a job whose Submit returned an error (only for a nil job or a submit option of another pool type, not for the state of the context) is never executed and has no effect on the pool. "
     "Wait and Close return only after every job submitted before them has finished (by returning or by runtime.Goexit), and they do return once those jobs finish (the pool stays usable after Wait, and its goroutines end after Close).",
     [S, H, C], "every pool kind and size, every mix of blocking and non-blocking submits from any number of goroutines (jobs may submit further jobs), every interleaving",
     "the tests run one submit loop on the real scheduler and count; they cannot force Wait/Close to overlap a submit-handoff, a job's last instruction or a saturated pool",
     [LIM, POO, "goroutines/internal/pool/pool.go"],
     [("WaitGroup incremented before the hand-off, decremented after the job", LIM + ":Submit, " + POO + ":Submit/runner")],
     [("wg", "jobs submitted and not yet finished", LIM + ":Pool, " + POO + ":Pool")], ["Submit, Wait, Close"])

prop("C02", "A pool never runs more blocking jobs than its size, and can use all of it",
     "At no instant are more than `size` jobs that were submitted without the NonBlocking option executing in a pool of that size; "
     "a blocking Submit on a full pool waits until capacity is available and then proceeds, also when its context is cancelled meanwhile. "
     "The full size is usable: `size` jobs that wait for each other all run at the same time, also after earlier jobs have finished (by returning or by runtime.Goexit).",
     [S, H, C], "every pool kind, size, job duration and submit mix under every interleaving",
     "the tests never observe the number of simultaneously running jobs, and the bound must hold at every instant of every schedule",
     [LIM, POO], [("token channel held while the job runs", LIM + ":Submit"), ("fixed number of runner goroutines", POO + ":New/runner")],
     [("queue", "capacity tokens / hand-off channel", LIM + ":Pool.queue, " + POO + ":Pool.queue")], ["jobs entering and leaving execution"])

prop("C03", "NonBlocking submits never block and their job runs even on a saturated pool",
     "A Submit with the NonBlocking option returns without waiting for any other job, however busy the pool is, and its job starts without waiting for another job to finish. "
     "This holds when every pooled goroutine is occupied by jobs that themselves wait for the newly submitted job. "
     "On a limited pool such a job does not take a slot away from blocking submits.",
     [S, H, C], "every pool kind, size and saturation state, submits from inside and outside jobs, every interleaving",
     "no test uses NonBlocking on a saturated pool; a job parked behind a busy worker only deadlocks when jobs depend on each other",
     [LIM, POO], [("fall back to a fresh goroutine when no worker can take the job now", POO + ":Submit"), ("no token taken", LIM + ":Submit")],
     (), ["Submit return, job start"])

prop("C04", "Pool gauges: Len is the size; Running counts jobs in flight, zero at rest",
     "Len always equals the size the pool was created with. "
     "Running is never negative, is never smaller than the number of jobs that are executing at that instant, and whenever nothing is moving it is at most the number of jobs submitted (including Submit calls still in progress) and not yet finished. "
     "When Wait returns with no submit in progress, Running is zero.",
     [S, H], "reads of the gauges at any instant of any history of submits, waits and closes, under every interleaving",
     "the tests read the gauges at most once at rest; the bounds must hold at every instant",
     [LIM, POO], [("running counter around the job", LIM + ":Submit, " + POO + ":Submit/runner")],
     [("running", "jobs in flight", LIM + ":Pool.running, " + POO + ":Pool.running")], ["Len, Running"])

prop("C05", "Registered pool names are unique and New always returns",
     "Creating a pool with a valid non-empty base name always returns, whatever names are in use, and the pool's GetName is the base name or, if that is taken, the base name followed by a dash and a number (a pool created with an empty name is not registered and stays unnamed, however many there are; sizes below one and names with digits, hyphens or spaces are refused). "
     "No two open pools (of either kind, created concurrently or not) ever have the same non-empty name. "
     "After Close a name may be used again, and closing one pool never frees the name of another that is still open.",
     [S, H, C], "any number of concurrent New and Close calls on both pool kinds with the same and different base names, every interleaving",
     "the tests create each name once; the collision path needs three or more open pools with one name, or New racing Close",
     [REG, LIM, POO], [("registry map under a lock, next-number search", REG + ":Register/NewName")],
     [("registry", "open pools by name", REG + ":registry")], ["New, GetName, Close"])

prop("C06", "goroutines.Errors is a linearizable error list",
     "Concurrent Record, Error and Errors calls behave as if executed one at a time: Error returns the first recorded error (nil if none) and Errors returns all recorded errors in record order, none lost or invented. "
     "A slice returned by Errors is a snapshot: neither later Record calls nor modifications of that slice by its owner change what any other caller sees.",
     [S, H], "every history of concurrent calls under every interleaving",
     "no test calls the readers concurrently with writers",
     [GOR], [("mutex", GOR + ":Errors")], [("errors", "recorded errors in order", GOR + ":Errors.errors")], ["Record, Error, Errors"])

prop("C07", "wait.Group runs every function once and Wait returns only after all of them",
     "Every function passed to Go is called exactly once with a context derived from the one given (and not at all, counting as that context's error, if the context is already cancelled when it would start), with or without a Pool, including with pool options, and also when functions themselves call Go on the group; a function that the Pool refuses (a pool option of another pool type) counts as failed with the Pool's error. "
     "Wait returns only after all of them have finished, be it by runtime.Goexit, and always returns then. "
     "Running is never negative, is never below the number of functions executing, is zero right after Wait, and the group can be used again after Wait as if new.",
     [S, H, C], "every group configuration (no pool, limited, pooled, NonBlocking), number of functions, several consecutive uses, context cancellation at any step, every interleaving",
     "the tests run fixed functions once; the gauge and reuse errors need a goroutine delayed between its last two steps across Wait",
     [WAI], [("WaitGroup and counter around each function", WAI + ":Group.Go")],
     [("count", "functions in flight", WAI + ":Group.count"), ("wg", "outstanding functions", WAI + ":Group.wg")], ["Go, Wait, Running"])

prop("C08", "wait.Group.Wait returns an error that retains every function error",
     "If no function failed Wait returns nil; otherwise the returned error matches, with errors.Is, every error returned by any function of this use of the group, however many fail at once. "
     "A bare context.Canceled or context.DeadlineExceeded is retained if it is the first error and may be dropped afterwards, but Wait is never nil when some function failed or was skipped because of cancellation. "
     "Errors never leak into a later use of the same group.",
     [S, H, F], "every number and mix of failing functions and cancellations, every interleaving of concurrent failures, consecutive uses",
     "the tests check one error at a time; losing one needs several concurrent failures",
     [WAI, CHA], [("lock-free error accumulation", WAI + ":applyErr")], [("errors", "accumulated error", WAI + ":Group.errors")], ["Wait result"])

prop("C09", "CancelOnErr is called on the first error and at Wait",
     "When a function of a wait.Group returns an error, CancelOnErr has been called by the time that function counts as finished, so the remaining functions can observe the cancellation without anyone calling Wait. "
     "If no function fails it is not called before Wait, and when Wait returns it has been called and is cleared, so a later use does not call it again.",
     [S, H, F], "errors at any position and time, with and without a pool, every interleaving",
     "the tests only look after Wait; that cancellation reaches blocked functions depends on the schedule",
     [WAI], [("cancel after recording the error; cancel in Wait", WAI + ":Group.Go/Wait")], (), ["the CancelFunc, the functions' contexts"])

prop("C10", "slices.Access handles each element exactly once and is quiescent at return",
     "Without cancellation and without stop-on-error (or with it, when nothing fails) slices.Access calls the accessor exactly once for each index with that index and that element's value, and the slice afterwards holds exactly what the modifiers stored (other elements unchanged). "
     "Whatever happens (errors, cancellation, options), no element's accessor is called twice and no accessor call is running or starts after Access has returned.",
     [S, I, C, F], "every slice length, pool configuration, error and cancellation pattern, every interleaving",
     "the tests process one slice on an idle machine; early return with work still in flight depends on when the cancellation lands",
     [SLI, SLO], [("one wait.Group function per index, joined before returning", SLI + ":Access")], (), ["accessor calls, slice contents, return"])

prop("C11", "slices.Access errors, stop-on-error, cancellation, pools work as documented",
     "Access returns nil only if every element was processed without error; an accessor error is returned (matching with errors.Is) even if the context is cancelled meanwhile, and a cancellation that left elements unprocessed returns an error. "
     "Without stop-on-error an accessor error does not keep any other element from being processed; with stop-on-error, after an error no further element is handed out once the error has been seen, in-flight accessors see their context cancelled, and the caller's own context is untouched. "
     "Every option is accepted, and when a pool is given all accessors run on that pool with the given submit options, within its limit, other jobs of that pool are not waited for, and it is left open and reusable (an option that fails makes Access return its error without calling the accessor; without a pool, up to runtime.NumCPU() accessors run at once).",
     [S, I, C, F], "every option combination, failing element set and cancellation time, every interleaving",
     "the tests use no options at all; ordering of error, cancellation and hand-out is schedule dependent",
     [SLI, SLO, WAI], [("cancel on error, option application", SLI + ":Access, " + SLO)], (), ["return value, accessor calls, pool gauges"])

prop("C12", "chans.Access handles each received value once and returns on close or cancel",
     "chans.Access calls the accessor for values received from the input, never twice for one value and never for a value it did not receive; unless it is cancelled or stopped by an error it handles every value it receives, and when the input is closed every value sent has been handled at return, and no accessor is running or starts after the return. "
     "It returns once the input is closed or its context is cancelled (also when the input is idle and never closed, and, with stop-on-error, after an accessor error) as soon as the running accessors finish. "
     "Accessor errors are returned (each matching with errors.Is when nothing was cancelled), a cancellation that ended processing early returns an error, pool options are honoured, a given pool is left open and its other jobs are not waited for; with a nil input, or an option that fails (its error is returned), it returns at once without calling the accessor.",
     [S, I, C, F], "every stream, option combination, failing value set, cancellation time and idle period, every interleaving",
     "chans has no tests at all; termination under cancellation with an idle producer can only be seen by controlling time and schedule",
     [CHA, CHO, WAI], [("receive loop, wait.Group, cancellation", CHA + ":Access")], (), ["accessor calls, return value"])

prop("C13", "chans.Modify emits one result per value and closes its output exactly once",
     "Given non-nil channels, without cancellation chans.Modify sends to the output exactly one result per input value (the modifier's value, or its error) and nothing else, and then closes the output. "
     "However it ends (close, error, stop-on-error, cancellation, invalid option), the output is closed exactly once, only after every modifier has finished and by the time Modify returns, nothing is sent after that, a modifier that succeeded has its result sent, no result is duplicated or invented, and Modify returns while the consumer keeps receiving (modifiers that fail do not need a consumer once the context is cancelled). "
     "Modifier errors are returned as for chans.Access; a nil input or output makes Modify return an error at once without running a modifier.",
     [S, I, C, F], "every stream, option combination, failing value set, consumer speed and cancellation time, every interleaving",
     "chans has no tests; a send on the closed output needs a cancellation to land while modifiers are in flight",
     [CHA, CHO], [("output closed by the returning call after the group is joined", CHA + ":Modify")], (), ["output channel, return value"])

prop("C14", "atomics.RWValue is a linearizable register with atomic updates and free reads",
     "Concurrent Load, Store and LoadReplace calls are linearizable as operations on one register that is initially the zero value; a LoadReplace applies its function to the current value with no other write in between, calls it exactly once, and stores its result, so no update is lost. "
     "A LoadReplace whose function returns an error (or panics) returns that error, changes nothing and leaves the value usable. "
     "Load never waits for a running writer, while other writers do.",
     [S, H, F], "every history of concurrent operations including replacers that fail, block or panic, on set and never-set values, every interleaving",
     "the test runs one sequential happy path; lost updates and half-done replacements need interleaved writers",
     [ATO], [("writer mutex plus atomic pointer", ATO + ":RWValue")], [("v", "current value", ATO + ":RWValue.v")], ["Load, Store, LoadReplace"])

prop("C15", "stagedpipe returns every accepted request exactly once, to its own group",
     "Every Request whose Submit returned nil comes out of the Out channel of the RequestGroup it was submitted to exactly once, with its own data as transformed by the stages, as long as all groups are drained; a Request whose Submit returned an error (nil or cancelled context) never comes out. "
     "After RequestGroup.Close the Out channel is closed only after all of the group's requests were delivered. "
     "This holds for any number of groups created, used and closed concurrently on the same Pipelines.",
     [S, I, C, H, F], "every number of pipelines, stages, groups, submitters and requests, concurrent group creation and closing, cancellation at any step, slow consumers, every interleaving",
     "the tests push fixed request sets through on the real scheduler; losing or misrouting one needs group set-up and tear-down to interleave at specific points",
     [STG], [("group number routing through the demultiplexer, per-group wait group", STG + ":RequestGroup.Submit/Close, NewRequestGroup")],
     [("demux", "receiver per group", STG + ":Pipelines.demux")], ["Submit result, Out channel"])

prop("C16", "Ordered pipelines output each group's requests in submission order",
     "With the Ordered option the accepted Requests of each group come out in the order their Submits took effect (if one Submit returned before another was called, its request comes out first), whatever order they finish processing in. "
     "A Submit that fails (nil or cancelled context) does not hold back, drop or reorder any other request of the group, and every accepted request still comes out.",
     [S, H, C, F], "every processing-time pattern, several groups, concurrent submitters, failed submits at any position, every interleaving",
     "the ordered test uses one submitter and no failing submit; gaps left by cancelled submits need a cancellation to win a race",
     [STG], [("item numbers and in-order reassembly", STG + ":RequestGroup.Submit/NewRequestGroup")],
     [("itemNum", "position in the group", STG + ":Request.itemNum")], ["Submit calls, Out channel"])

prop("C17", "Requests walk their routed stages, preprocessors first, and stop on error",
     "Each Request runs Start and then exactly the chain of stages chosen through Next, each once per routing and one at a time, with Next reset to nil before every stage and all preprocessors run in order before every stage. "
     "If a stage or preprocessor sets Err, or the Request's context is cancelled before a stage, no later preprocessor or stage of that Request runs and the Request comes out with that error; otherwise it comes out with a nil Err. "
     "Each preprocessor and stage gets the Request, its Data and its Ctx, as the previous one returned it, and the output Request carries the context it was submitted with (or one a stage derived from it), never one private to the pipeline.",
     [S, I, C, F], "every routing (branches, loops, foreign stages), preprocessor list, error position and cancellation time, with many requests in flight, every interleaving",
     "the tests run two fixed routes; cancellation between two particular stages cannot be placed without controlling the schedule",
     [STG], [("stage loop", STG + ":processReq/execStage")], (), ["stage and preprocessor calls, output Request"])

prop("C18", "DAG reports a cyclic error iff a request revisits a stage; no state leaks",
     "With the DAG option a Request comes out with a cyclic error (IsErrCyclic) if and only if its route enters some stage a second time, and that second visit is not executed (a stage is identified by its method or function, as named by the expression Next was set with, whatever its receiver); requests that visit each stage at most once are never affected. "
     "The verdict depends only on that Request's own route in this Pipelines, never on other requests in flight, finished, or processed earlier by this or another Pipelines, including output Requests that are submitted again. "
     "Without DAG revisiting is allowed.",
     [S, I, H, C], "every set of routes in flight together, reuse of output requests, chained pipelines, every interleaving and pooling decision",
     "the test runs one cyclic and one acyclic request; leaking visit lists between requests depends on pool reuse and overlap",
     [STG], [("per-request visit list from a pool", STG + ":processReq/execStage")], [("seenStages", "stages visited", STG + ":Request.seenStages")], ["output Err"])

prop("C19", "stagedpipe never gets stuck and Close shuts it down exactly once",
     "As long as every group's Out channel is drained, every Submit, RequestGroup.Close and NewRequestGroup call returns and every Out channel closes, for any number of concurrent groups, stages that take any time, errors and cancellations; a Submit blocked on a busy pipeline returns the context's error when its context is cancelled. "
     "A group whose Requests stay in a stage does not keep the calls of other groups from returning while workers are free. "
     "After all groups are finished and Pipelines.Close is called, the state machine's Close is called exactly once, after the last stage call, and the pipeline's worker goroutines end.",
     [S, C, H, F], "every configuration and workload with fair scheduling after any adversarial prefix, cancellation at any step, Pipelines.Close before or after the groups are drained",
     "the tests only ever wait with the real scheduler and never check that shutdown completes; deadlocks and missed closes are schedule dependent",
     [STG], [("wait groups per group and per pipelines; close of the internal channels", STG + ":Close, RequestGroup.Close")], [("wg", "requests in the pipelines", STG + ":Pipelines.wg")], ["StateMachine.Close, channel closes, goroutine count"])

prop("C20", "stagedpipe Stats are exact at quiescence and within bounds at every instant",
     "When all submitted Requests have come out and nothing is in flight, Stats reports Running 0, Completed equal to the number of accepted requests (including failed ones), and Min, Max and Avg equal to the minimum, maximum and mean of the requests' processing times, and likewise for the ingestion waits; with no request all are zero. "
     "At any instant Running is never negative and never below the number of requests inside a stage, and Completed never decreases and never exceeds the number submitted.",
     [S, I, H, C], "every set of processing times and overlap of requests, readers at any instant, every interleaving",
     "the tests never check Stats; real clocks make min, max and mean unpredictable, and lost updates need overlapping finishes",
     [STG, STS], [("atomic counters with compare-and-swap min/max", STS + ":setMin/setMax, " + STG + ":calcExitStats")], [("stats", "counters", STS + ":stats")], ["Stats"])

prop("C21", "stagedpipe runs up to pipelines x stages requests at once and never more",
     "With num parallel pipelines and a state machine with S public stages (plus those of objects given to CountSubStages), up to num x S requests can be inside stages at the same time, and that many really do run together when enough are submitted and each waits for the others. "
     "Never are more than num x S requests inside stages at once. New refuses a num below one, a nil state machine and a negative DelayWarning.",
     [S, C], "every num, state machine, sub-stage set and load, every interleaving",
     "the tests never measure concurrency; whether the last worker can be reached depends on the schedule",
     [STG], [("one runner goroutine per stage per pipeline", STG + ":newPipeline, numStages")], [("concurrency", "runners per pipeline", STG + ":pipeline.concurrency")], ["stages executing at once"])

prop("C22", "DelayWarning logs when output blocks longer than the limit; drops nothing",
     "With DelayWarning(d), whenever a worker has been unable to hand its finished request to the output for longer than d (and again for every further d), a warning naming the pipelines is logged, no matter how the worker's previous requests went, and none is logged for a hand-off that completes sooner than d. "
     "Warnings never cause a request to be lost, duplicated or reordered within an ordered group.",
     [S, C, F], "every consumer stall pattern and limit under simulated time, every interleaving",
     "the tests do not use the option; real time makes the boundary untestable",
     [STG], [("ticker select around the hand-off", STG + ":runner")], [("delayWarning", "limit", STG + ":pipeline.delayWarning")], ["log output, Out channel"])

prop("C23", "The internal queue is a linearizable bounded FIFO whose Close loses nothing",
     "Concurrent Push, Pop and Close on the queue are linearizable as a first-in first-out queue: every pushed value is popped at most once, in order, and none is invented. "
     "With a size limit a Push blocks while the queue holds that many values and never more are held; Pop blocks until a value is available or the queue is closed, and reports not-ok only when the queue was closed and empty, so values pushed before Close are all popped. "
     "Blocked calls proceed once space or a value appears.",
     [S, H, C], "every history of concurrent pushers and poppers, every limit, Close at any point after the pushes, every interleaving including between individual atomic steps",
     "the queue has no tests; lost or reordered values need interleavings between individual atomic operations",
     [QUE], [("lock-free linked list, limit channel, polling Pop", QUE + ":Queue, simple")], [("head/tail", "list ends", QUE + ":simple"), ("limit", "slots", QUE + ":Queue.limit")], ["Push, Pop, Close"])

prop("C24", "Every trace span the library starts ends exactly once; tracing changes nothing",
     "With a recording tracer every span started by wait.Group and stagedpipe (the group span, the RequestGroup span, each request's span and each stage's span) is ended exactly once by the time the Wait, RequestGroup.Close (for the group) or delivery of the Request it belongs to is complete, also on errors and cancellation, and spans not started by the library are never ended by it; "
     "the span of a Request that comes out with Err set, or whose Submit failed, has an error status, and the spans of different Requests of a RequestGroup have different names. A stage span's parent is its request's span, a request span belongs to the trace of its RequestGroup's first context or its own context, and nothing is recorded on a span after it ended. "
     "Results, errors and deliveries are the same with tracing on and off.",
     [S, I, F, C], "every use of groups and pipelines with errors and cancellations at any point, every interleaving",
     "no test installs a tracer",
     [WAI, STG], [("span start/end pairs", WAI + ":Go/Wait, " + STG + ":Submit/execStage/otelEnd")], (), ["a recording tracer"])

prop("C25", "No data races under documented use",
     "Concurrent use of pools, Errors, wait.Group, slices, chans, RWValue, stagedpipe and the queue as documented never contains two unsynchronised conflicting memory accesses: everything a job, accessor or stage did happens before the return of the Wait, Access, Close or the receive that reports its completion, and everything done before a Submit, Go or Push happens before the job, function or Pop it starts.",
     [S, H, C], "every documented concurrent workload under every schedule explored, judged by happens-before rather than by outcome",
     "a race is visible to a detector only in executions that contain the conflicting accesses, and the tests run without the detector on very few schedules",
     [GOR, LIM, POO, REG, WAI, SLI, CHA, ATO, STG, STS, QUE], [("channels, mutexes, atomics", "throughout")], (), ["memory accesses"])

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]), p["title"])
        # at most three sentences
        import re
        n = len(re.findall(r"[.](?:\s|$)", p["statement"]))
        if n > 3:
            print(p["id"], "sentences:", n)
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")

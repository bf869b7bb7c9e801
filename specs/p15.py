"""P15  take_until / timeout."""
from lib import *
from harness import Proof, REPO
import os
SRCS = ["p15.cpp"] + [os.path.join(REPO, "macoro/detail", x) for x in sorted(os.listdir(os.path.join(REPO, "macoro/detail"))) if x.startswith("stop") and x.endswith(".cpp")]
F = ("macoro::take_until", "macoro::request_stop", "macoro::task")
T = ("macoro::timeout::timeout/reset/request_stop/get_token/get_source/operator co_await/make_task",)
PROOFS = [client("until_" + k, ("early", "companion first", "awaitable later", "companion later", "fails", "returns"), F, unroll=60, steps=40_000_000) for k in ("void", "int", "val")] + [client("dropped", ("dropped",), F, unroll=60),
    client("timeouts", ("elapses", "triggered", "requested", "completed"), T, unroll=60, steps=40_000_000), client("combined", ("elapses", "triggered", "finishes", "stopped", "ended"), F + T, unroll=60, steps=40_000_000), client("empty", ("empty",), F + T, unroll=60), client("pool", ("triggered", "pool"), F + T + ("macoro::thread_pool::schedule_after/run",), unroll=60, steps=40_000_000)]
NATIVE_VARIANTS = ["own", "std"]
NOTE = "take_until over tasks and awaiters with void, value and tracked results or exceptions, finishing at once or later, and companions that have finished, finish inside request_stop, inside await_suspend, later or first, and may fail in request_stop, operator co_await, await_ready, await_suspend or await_resume; timeouts over schedulers that honour or ignore the token, resume at once or fail, made by constructor, reset, move construction and move assignment, with and without the caller's token, every sequence of two events; both together, with nobody else holding the stop state; with the real thread pool and virtual clock."
ASSUMPTIONS = ["take_until over awaitables with reference or move-only results does not compile, so they are not covered", "a timeout is not destroyed, reset or assigned to while its delay is pending (its scheduler would resume a destroyed coroutine)", "what a timeout's token says after its scheduler failed is left open (the companion's failure must only not replace the outcome)", "sequences of at most two events between the creation of a timeout and its completion", "schedules with several threads are explored, bounded"]

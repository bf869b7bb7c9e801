"""P23  starting on / transferring to a scheduler."""
from lib import *
from harness import Proof, REPO
import os
SRCS = ["p23.cpp"] + [os.path.join(REPO, "macoro/detail", x) for x in sorted(os.listdir(os.path.join(REPO, "macoro/detail"))) if x.startswith("stop") and x.endswith(".cpp")]
F = ("macoro::start_on", "macoro::start_on_t", "macoro::operator|", "macoro::transfer_to", "macoro::eager_task")
PROOFS = [client("started_" + k, ("awaited", "dropped", "never resumed"), F, unroll=60, steps=40_000_000) for k in ("void", "int", "ref", "val")] + [client("transfer", ("fails", "at once", "later"), F, unroll=60), client("transfer_never", ("never",), F, unroll=60), client("pool", ("pool",), F + ("macoro::thread_pool::schedule",), unroll=60), client("pools", ("pools",), F + ("macoro::thread_pool::schedule",), unroll=60)]
NATIVE_VARIANTS = ["own"]
NOTE = "Schedulers which resume at once, decline, resume inside await_suspend, later, never, or fail in schedule(), await_ready, await_suspend or await_resume; awaitables that are tasks or awaiters with void, value, reference or tracked results or exceptions, finishing at once or later; awaited as lvalue or rvalue before, during or after, or dropped; the real thread pool, and two of them."
ASSUMPTIONS = ["start_on(s, a) with an lvalue awaitable is ambiguous and does not compile, so only rvalue awaitables are covered", "a scheduler passed by value to a | start_on(s) is used only while schedule() is called: it need not outlive the expression", "an eager_task that is dropped while its scheduler or awaitable may still resume it is outside of the contract: the scheduler never resumes it then"]

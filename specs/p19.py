"""P19  coroutines written with the macros behave like the native coroutine with the same text."""
from lib import *
from harness import Proof
SRCS = ["p19.cpp"]
F = ("MC_BEGIN/MC_END/MC_AWAIT/MC_AWAIT_SET/MC_AWAIT_FN/MC_RETURN/MC_RETURN_AWAIT", "macoro::FrameBase<P>::makeAwaitContext/getAwaiter/destroyAwaiter(s)", "macoro::Frame", "macoro::await_suspend", "macoro::get_awaitable/get_awaiter")
E2 = ("destroyed early", "to the end")
PROOFS = [client("kinds_" + k, E2 + ("named",), F, unroll=200, steps=60_000_000) for k in ("void", "bool", "handle")] + [client("body", E2, F, unroll=200, steps=60_000_000), client("value", E2, F, unroll=200, steps=60_000_000), client("yields", E2, F + ("MC_YIELD/MC_YIELD_SET/MC_YIELD_AWAIT/MC_AWAIT_AWAIT/MC_RETURN_YIELD",), unroll=200, steps=60_000_000), client("tries", E2, F + ("MC_AWAIT_TRY",), unroll=200, steps=60_000_000), client("rethrow", ("over",), F, unroll=200), client("named", E2, F, unroll=200, steps=60_000_000)]
NATIVE_VARIANTS = ["own"]
NOTE = "twin proofs: the same coroutine text once native (as clang compiles it) and once with the macros, both executed symbolically; the logs of all calls on promise, awaited expression, await_transform, operator co_await, awaiter and destructors have to be identical, in order, for every way to suspend, throw, resume (own or std handle), finish, or be destroyed while suspended, and all values; additionally nothing stays alive."
ASSUMPTIONS = ["the native twin is what clang 18 makes of the text; where clang 18 deviates from the standard the comparison leaves it out (order of the initial awaiter's destruction when its await_resume throws; objects destroyed after unhandled_exception throws), there the macro coroutine alone is checked", "temporaries inside the argument of MC_AWAIT/MC_YIELD other than the awaited object itself end with the expression (a macro cannot extend them): not compared", "an initial awaiter that throws before the coroutine is resumed is not covered: with an owning return object the frame is destroyed by it, otherwise it leaks", "at most two await contexts are alive at a time in the compared texts (the macros nest no deeper)"]

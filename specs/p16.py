from lib import *
from harness import Proof
SRCS = ["p16.cpp"]
F = ("macoro::async_scope::add/join/co_await", "macoro::async_scope::join_awaiter", "macoro::scoped_task (move, assign, destroy, co_await)", "macoro::detail::scoped_task_promise (final_suspend, try_set_continuation, storage)", "macoro::detail::scoped_task_awaiter")
PROOFS = [client("pair", ("awaited", "join waits", "reported"), F, unroll=60, steps=40_000_000), client("drops", ("join waits", "reported"), F, unroll=60, steps=40_000_000), client("kinds", ("moved", "replaced", "empty", "dropped by assignment"), F, unroll=60), client("nested", ("again",), F, unroll=60), client("when_all_scope", ("done",), F + ("macoro::when_all_scope",), unroll=60), client("scope_failures", (), F + ("macoro::when_all_scope",), unroll=60)]
NATIVE_VARIANTS = ["own"]
NOTE = "client proofs: the real scope, task and awaiter code executed symbolically for every outcome, value and order of completing, dropping, awaiting and joining two (pair) or three (drops) tasks on one thread; preemptive schedules (drop against complete, join against last completion, joiner destroys the scope) are a bounded stand-in."
ASSUMPTIONS = ["the number of tasks per scope in the proofs is two or three; values are unbounded", "concurrent orders of drop/complete/join are explored (bounded), not proved: the barrier they rely on is proved in P17"]

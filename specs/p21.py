from lib import *
SRCS = ["p21.cpp"]
W = "macoro::wrapped_awaitable<A>"
F = ("macoro::wrap, operator|", W + "::operator co_await", W + "::awaiter::await_ready/await_suspend/await_resume", "macoro::Ok/Err, result<T>(tags)")
VE = ("value", "error")
PROOFS = [client(n, ("suspended",) + VE, F) for n in ("val_void", "val_bool", "val_handle", "ref", "nothing")] + [client("rref", ("suspended",) + VE, F)] + \
    [client(n, VE + ("unused",), F + ("macoro::task<T>::operator co_await",)) for n in ("task_val", "task_ref", "task_void")] + [client(n, VE, F + ("macoro::detail::try_resume", "MC_AWAIT_TRY/MC_AWAIT_SET")) for n in ("macro_val", "macro_ref")]
NOTE = ("Contract of wrapped_awaitable::awaiter against the awaiter protocol: for every value / exception of the inner awaitable, ready or not, each await_suspend style (void, bool incl. declining, handle), value / lvalue reference / rvalue reference / void results, lvalue, rvalue and piped wrapping, native and macro coroutines: "
    "started, suspended, resumed, destroyed exactly once, result equals the inner outcome, referenced objects unmodified. Trusted: clang front end and coroutine lowering, VC generator, z3.")
ASSUMPTIONS = ["inner awaitables stand for all awaitables obeying the awaiter protocol"]

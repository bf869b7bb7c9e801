from lib import *
SRCS = ["p01.cpp"]
R = "macoro::result<T,E>"; V = "macoro::result<void,E>"
VE = ("value", "error")
def both(n, c, f): return [client(n + "_t", c, (R + f,)), client(n + "_v", c, (V + f,))]
PROOFS = both("make", VE, "::result(Ok/Err tags), has_value, has_error, operator bool, value, operator*, error") + both("copies", ("copied", "moved", "copy-assigned", "move-assigned") + VE, "::copy/move construction and assignment") + \
    both("assigns", VE, "::operator=(Ok/Err tags)") + both("fallbacks", VE, "::value_or/error_or") + both("compares", ("same", "different"), "::operator==/!=") + \
    both("unwraps", VE, "::operator co_await, result_awaiter::await_resume") + both("exceptions", ("rethrown",), "::result_rethrow<exception_ptr>, value, error") + \
    [client("defaults", (), (R + "::result()",)), client("coro", VE, ("macoro::detail::result_promise", "result_promise::Ret::operator result")), client("strong", ("failed", "assigned"), (R + "::operator=(OkTag)",))]
NOTE = ("Per-operation contracts over the abstract value (side, content): from a result in any state built in any way, each constructor, copy, move, assignment, query, accessor, fallback, comparison and unwrap operation (T and void, const and non-const, lvalue and rvalue tags) is verified for all contents; "
    "payload ghost magic/live count proves no double destruction, no modification of copied-from objects. Result coroutines and exception_ptr errors included. Trusted: clang front end and coroutine lowering, VC generator, z3, libstdc++ exception runtime model.")
ASSUMPTIONS = ["payload types d::Val, Er stand for all T, E (the templates only construct, copy, move, compare and destroy them)"]

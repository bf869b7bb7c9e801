"""P14  sync_wait / make_blocking.  The flag m_is_set is protected by the promise's mutex; the completing side sets it once, notifies before
it lets go of the mutex and never touches the frame again; the blocked side returns only after reading it set under the mutex, and never
sleeps once it is set."""
from lib import *
from harness import Proof
SRCS = ["p14.cpp"]
PR = "macoro::detail::blocking_promise<d::GateAwaiter<d::Val> &>"
class Frame(WordProto):
    def __init__(s, L): s.L = L
    def atomic(s, eng, st, a, *r): raise Unsupported("atomic in the blocking promise")
    def plain_off(s, eng, st, a, off, sz, kind, v):
        g = st.ghost; L = s.L
        if g.get("gone"): eng.fail(st, "mem:use-after-release", "%s of the blocking frame after %s" % (kind, g["gone"]), "mem")
        if off is not None and off <= L.flag < off + sz and not is_held(st, L.m):
            if L.role == "set" and kind == "load": return None          # nobody else writes it
            eng.fail(st, "race:flag", "%s of m_is_set without holding the mutex" % kind, "mem")
        return None
class Mx(LockInv):
    def __init__(s, base, flag, m, cv, role): s.base = base; s.flag = flag; s.m = m; s.cv = cv; s.role = role
    def acquire(s, eng, st, m, waiting=False):
        if s.role == "set": return [st]
        out = []
        for v in (0, 1):
            t = st.copy(); eng.wobj(t, s.base).cells[s.flag] = (1, v); t.note("the signal is %sset" % ("" if v else "not ")); t.ghost["flagval"] = v; out.append(t)
        return out
    def release(s, eng, st, m, waiting=False):
        v = eng.raw_load(eng.obj(st, s.base), s.flag, 1)
        if s.role == "set":
            eng.oblige(st, not waiting, "guarantee:completer-never-sleeps", "the completing side sleeps")
            if v.__class__ is int and v == 1:
                eng.oblige(st, bool(st.ghost.get("notified")), "guarantee:notified-before-unlock", "the signal is set but nobody is notified before the mutex is released (afterwards the frame may be gone): the caller sleeps for ever")
                st.ghost["set"] = 1; st.ghost["gone"] = "the signal was given (the blocked caller may have destroyed the frame)"
            return [st]
        fv = st.ghost["flagval"]
        eng.oblige(st, eng.valid(st, bv(v, 8) == z3.Extract(7, 0, bv(fv, 64))), "guarantee:waiter-does-not-write", "the waiting side changes the flag")
        if waiting: eng.oblige(st, eng.valid(st, bv(v, 8) == 0), "guarantee:no-sleep-when-set", "the caller goes to sleep although the signal was given: nobody will wake it")
        return [st]
    def notify(s, eng, st, m, allw):
        eng.oblige(st, s.role == "set", "guarantee:waiter-does-not-notify", "")
        if is_held(st, s.m): st.ghost["notified"] = 1
def mk(eng, role):
    m = eng.m; st = eng.start_state(); size = 16 + const(m, "SZ_p"); h = coro(eng, st, "blocking frame", perm=False, size=size)
    mo, co, fl = 16 + m.field(PR, "m_mutex"), 16 + m.field(PR, "m_cv"), 16 + m.field(PR, "m_is_set")
    o = eng.wobj(st, h); o.cells[fl] = (1, 0)
    for x in range(mo, mo + 40, 8): o.cells[x] = (8, 0)
    st.ghost["flagval"] = 0; L = Mx(h, fl, h + mo, h + co, role); guard(eng, st, h + mo, L); share(eng, st, h, Frame(L))
    return st, h, L
def p_set(fn):
    def go(eng):
        st, h, L = mk(eng, "set"); eng.covers = ("exit",)
        def ex(st, v):
            eng.reached.add("exit"); eng.oblige(st, st.ghost.get("set") == 1, "post:signalled", "completion is not signalled: the caller is blocked for ever")
            eng.oblige(st, not is_held(st, L.m), "post:unlocked", "the mutex stays locked"); no_leaks(eng, st)
        eng.run(st, fn, [h if fn == "f_final" else h + 16], ex)
    return go
def p_wait(eng):
    st, h, L = mk(eng, "wait"); eng.covers = ("exit",)
    def ex(st, v):
        eng.reached.add("exit"); eng.oblige(st, eng.valid(st, bv(st.ghost["flagval"], 64) == 1), "post:returns-only-when-signalled", "returns before the awaitable completed")
        eng.oblige(st, not is_held(st, L.m), "post:unlocked", "the mutex stays locked"); no_leaks(eng, st)
    eng.run(st, "f_wait", [h + 16], ex)
def p_final_ready(eng):
    st = eng.start_state(); eng.covers = ("exit",)
    def ex(st, v): eng.reached.add("exit"); eng.oblige(st, z3.Not(boolof(v)), "post:suspends-at-end", "the frame is released at its end while the caller still needs it")
    eng.run(st, "f_final_ready", [], ex)
BP = "macoro::detail::blocking_promise"
F = ("macoro::sync_wait", "macoro::make_blocking", "macoro::blocking_task", BP + "::value/await_transform/await_ready/await_suspend/unhandled_exception")
PROOFS = [Proof("promise.set", p_set("f_set"), (BP + "::set",)), Proof("final_awaiter.await_suspend", p_set("f_final"), (BP + "::final_awaiter::await_suspend",)), Proof("promise.wait", p_wait, (BP + "::wait",)), Proof("final_awaiter.await_ready", p_final_ready, (BP + "::final_awaiter::await_ready",))] + \
    [client(n, c, F) for n, c in (("wait_now", ("threw", "value")), ("wait_raw", ("awaitable", "odd")), ("wait_later", ("assigned", "dropped", "collected", "self")), ("wait_wrapped", ("wrapped",)))]
NOTE = ("Mutex/condition-variable contract on the promise's flag: set(), wait() and the final suspension are proved for every interference (spurious and early wake-ups by loop invariant); lemma clients prove value, reference and exception delivery, moves and uncollected outcomes. "
    "Trusted: std::mutex / std::condition_variable contracts, clang front end and coroutine lowering, VC generator, z3.")
ASSUMPTIONS = ["std::mutex and std::condition_variable behave as specified (a notified or spurious wake-up returns with the mutex held)", "payload types d::Val, int, int&, void stand for all T"]

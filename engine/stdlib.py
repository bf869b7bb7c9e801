"""Contracts (assumed, listed as trusted) for the runtime and libstdc++ functions that are not inlined."""
import re
import z3
from ir import UNDEF, OBJ_SHIFT

def install(eng):
    from vp import Throw, Push, Unsupported, PathEnd, bv, simp
    H = eng.hooks
    def new(eng, st, I, a):
        n = a[0]
        if n.__class__ is not int: return eng.alloc_sym(st, n) if hasattr(eng, "alloc_sym") else (_ for _ in ()).throw(Unsupported("symbolic allocation size"))
        return eng.alloc(st, n, "heap", "new#%d" % st.nobj)
    def delete(eng, st, I, a):
        p = a[0]
        if p.__class__ is int and p == 0: return None
        p = eng.ptr(st, p, "delete")
        if p.__class__ is not int: raise Unsupported("delete of symbolic pointer")
        o = eng.obj(st, p)
        if o is None or o.base != p: eng.fail(st, "mem:bad-free", "delete of a pointer that was not allocated", "mem")
        if o.dead: eng.fail(st, "mem:double-free", "delete of %s after %s" % (o.name, o.dead), "mem")
        if o.kind != "heap": eng.fail(st, "mem:bad-free", "delete of %s (%s)" % (o.name, o.kind), "mem")
        eng.release(st, p, "deallocation")
        if eng.on_obj_free: eng.on_obj_free(eng, st, p)
        return None
    for n in ("_Znwm", "_Znam", "_ZnwmSt11align_val_t", "_ZnwmRKSt9nothrow_t", "malloc"): H[n] = new
    for n in ("_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "free"): H[n] = delete
    def term(eng, st, I, a): eng.fail(st, "reach:terminate", "std::terminate reached")
    for n in ("_ZSt9terminatev", "abort", "__clang_call_terminate", "__cxa_pure_virtual"): H[n] = term
    def assertfail(eng, st, I, a):
        eng.fail(st, "assert", "assertion in the code fails: %s" % eng.cstr(st, a[0]))
    H["__assert_fail"] = assertfail; H["_ZSt21__glibcxx_assert_failPKciS0_S0_"] = assertfail
    # ---- exceptions
    def alloc_exc(eng, st, I, a):
        p = eng.alloc(st, a[0], "exc", "exception#%d" % st.nobj)
        st.excs[p] = {"type": None, "ref": 0, "dtor": None}
        return p
    def free_exc(eng, st, I, a): eng.release(st, a[0], "__cxa_free_exception"); return None
    def throw(eng, st, I, a):
        i = dict(st.excs[a[0]]); i["type"] = a[1]; i["dtor"] = a[2]; i["ref"] = 1; st.excs[a[0]] = i
        st.note("throw", eng.exc_name(st, a[0]), "at", eng.where(st))
        return Throw(a[0])
    def begin_catch(eng, st, I, a):
        st.caught = st.caught + (a[0],)
        st.note("catch", eng.exc_name(st, a[0]))
        return a[0]
    def end_catch(eng, st, I, a):
        e = st.caught[-1]; st.caught = st.caught[:-1]
        if e < 0: return None            # rethrown out of this handler
        r = eng.exc_addref(st, e, -1)
        return r
    def rethrow(eng, st, I, a):
        if not st.caught: eng.fail(st, "reach:terminate", "rethrow without exception")
        e = st.caught[-1]; eng.exc_addref(st, e, +1)
        return Throw(e)
    H["__cxa_allocate_exception"] = alloc_exc; H["__cxa_free_exception"] = free_exc; H["__cxa_throw"] = throw
    H["__cxa_begin_catch"] = begin_catch; H["__cxa_end_catch"] = end_catch; H["__cxa_rethrow"] = rethrow
    H["__cxa_get_exception_ptr"] = lambda eng, st, I, a: a[0]
    H["_ZSt19uncaught_exceptionsv"] = lambda eng, st, I, a: 0
    def current(eng, st, I, a):        # sret exception_ptr
        e = st.caught[-1] if st.caught else 0
        if e: eng.exc_addref(st, e, +1)
        eng.store(st, a[0], 8, e); return None
    H["_ZSt17current_exceptionv"] = current
    def rethrow_ptr(eng, st, I, a):
        e = eng.load(st, a[0], 8)
        if e.__class__ is int and e == 0: eng.fail(st, "exception:null-rethrow", "rethrow of an empty exception_ptr")
        if e is UNDEF: eng.fail(st, "mem:uninit-read", "rethrow of an uninitialised exception_ptr")
        eng.exc_addref(st, e, +1)
        st.note("rethrow", eng.exc_name(st, e))
        return Throw(e)
    H["_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE"] = rethrow_ptr
    def addref(d):
        def f(eng, st, I, a):
            e = eng.load(st, a[0], 8)
            if e is UNDEF: eng.fail(st, "mem:uninit-read", "exception_ptr not initialised", "mem")
            if e.__class__ is int and e == 0: return None
            return eng.exc_addref(st, e, d)
        return f
    H["_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv"] = addref(+1)
    H["_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv"] = addref(-1)
    def ep_copy(eng, st, I, a):
        e = eng.load(st, a[1], 8)
        if e is UNDEF: eng.fail(st, "mem:uninit-read", "copy of an uninitialised exception_ptr", "mem")
        eng.store(st, a[0], 8, e)
        if not (e.__class__ is int and e == 0): eng.exc_addref(st, e, +1)
        return None
    H["_ZNSt15__exception_ptr13exception_ptrC1ERKS0_"] = ep_copy; H["_ZNSt15__exception_ptr13exception_ptrC2ERKS0_"] = ep_copy
    def ep_dtor(eng, st, I, a):
        e = eng.load(st, a[0], 8)
        if e is UNDEF: eng.fail(st, "mem:uninit-read", "exception_ptr not initialised", "mem")
        if e.__class__ is int and e == 0: return None
        return eng.exc_addref(st, e, -1)
    H["_ZNSt15__exception_ptr13exception_ptrD1Ev"] = ep_dtor; H["_ZNSt15__exception_ptr13exception_ptrD2Ev"] = ep_dtor
    def ep_swap(eng, st, I, a):
        x = eng.load(st, a[0], 8); y = eng.load(st, a[1], 8); eng.store(st, a[0], 8, y); eng.store(st, a[1], 8, x); return None
    H["_ZNSt15__exception_ptr13exception_ptr4swapERS0_"] = ep_swap
    # std exception classes: opaque bodies
    def mkexc(vt):
        def f(eng, st, I, a):
            eng.store(st, a[0], 8, 0x5fff00000000); return None
        return f
    for c in ("13runtime_error", "11logic_error", "16invalid_argument", "12out_of_range", "12length_error"):
        for k in ("C1EPKc", "C2EPKc", "C1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", "C2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", "C1ERKS_", "C2ERKS_", "C1EOS_", "C2EOS_"):
            H["_ZNSt%s%s" % (c, k)] = mkexc(c)
        for k in ("D1Ev", "D2Ev", "D0Ev"): H["_ZNSt%s%s" % (c, k)] = lambda eng, st, I, a: None
    for k in ("D1Ev", "D2Ev", "D0Ev"): H["_ZNSt9exception" + k] = lambda eng, st, I, a: None
    # guards, atexit, once
    def guard_acq(eng, st, I, a):
        v = eng.load(st, a[0], 1)
        return 0 if v.__class__ is int and v == 1 else 1
    def guard_rel(eng, st, I, a): eng.store(st, a[0], 1, 1); return None
    H["__cxa_guard_acquire"] = guard_acq; H["__cxa_guard_release"] = guard_rel; H["__cxa_guard_abort"] = lambda eng, st, I, a: None
    H["__cxa_atexit"] = lambda eng, st, I, a: 0; H["__cxa_thread_atexit"] = lambda eng, st, I, a: 0
    def thrower(name, ti):
        def f(eng, st, I, a):
            p = eng.new_exc(st, name, eng.m.gaddr.get(ti, "any"))
            i = dict(st.excs[p]); i["ref"] = 1; st.excs[p] = i
            return Throw(p)
        return f
    H["_ZSt20__throw_length_errorPKc"] = thrower("length_error", "_ZTISt12length_error")
    H["_ZSt17__throw_bad_allocv"] = thrower("bad_alloc", "_ZTISt9bad_alloc")
    H["_ZSt28__throw_bad_array_new_lengthv"] = thrower("bad_array_new_length", "_ZTISt20bad_array_new_length")
    H["_ZSt26__throw_bad_variant_accessPKc"] = thrower("bad_variant_access", "_ZTISt18bad_variant_access")
    H["_ZSt27__throw_bad_optional_accessv"] = thrower("bad_optional_access", "_ZTISt19bad_optional_access")
    H["_ZSt25__throw_bad_function_callv"] = thrower("bad_function_call", "_ZTISt17bad_function_call")
    H["_ZSt24__throw_out_of_range_fmtPKcz"] = thrower("out_of_range", "_ZTISt12out_of_range")
    H["sched_yield"] = lambda eng, st, I, a: 0
    # threads: who runs is part of the state (st.ghost["tid"]); hashing and the number of processors are arbitrary (deterministic per key)
    H["pthread_self"] = lambda eng, st, I, a: st.ghost.get("tid", 0x7001)
    H["vp_thread"] = lambda eng, st, I, a: st.ghost.__setitem__("tid", 0x7001 + a[0])
    H["_ZNSt6thread20hardware_concurrencyEv"] = lambda eng, st, I, a: st.ghost["hwc"] if "hwc" in st.ghost else 2
    def hash_bytes(eng, st, I, a):
        n = a[1]; v = eng.load(st, a[0], n) if n in (1, 2, 4, 8) else None
        if v is None: return eng.fresh("hash", 64)
        k = ("hashof", str(v)); h = st.ghost.get(k)
        if h is None: h = eng.fresh("hash", 64); st.ghost[k] = h
        return h
    H["_ZSt11_Hash_bytesPKvmm"] = hash_bytes

    # ---- harness intrinsics
    def w_of(I): return I.w
    def vp_nondet(eng, st, I, a): return eng.fresh("nd", I.w) if I.w != 1 else eng.freshb("nd")
    for k in ("vp_nondet_u64", "vp_nondet_u32", "vp_nondet_u16", "vp_nondet_u8", "vp_nondet_bool", "vp_nondet_int"): H[k] = vp_nondet
    def vp_assume(eng, st, I, a):
        from vp import boolof
        eng.assume(st, a[0] if a[0].__class__ is int else boolof(a[0]))
        if not eng.feasible(st, z3.BoolVal(True)) or (st.pc and eng.check(st) == "unsat"): raise PathEnd()
        return None
    H["vp_assume"] = vp_assume
    def vp_assert(eng, st, I, a):
        from vp import boolof
        c = a[0]
        if c is UNDEF: eng.fail(st, "mem:uninit-read", "asserted condition depends on uninitialised memory", "mem")
        eng.oblige(st, c if c.__class__ is int else boolof(c), eng.cstr(st, a[1]), "specification: " + eng.cstr(st, a[1]))
        return None
    H["vp_assert"] = vp_assert
    def vp_cover(eng, st, I, a):
        if not eng.quiet: eng.reached.add(eng.cstr(st, a[0]))
        return None
    H["vp_cover"] = vp_cover
    def vp_fork(eng, st, I, a):       # n-way nondeterministic choice, forked
        n = a[0]; out = []
        for i in range(n):
            t = st.copy() if i < n - 1 else st
            t.note("choice", i, "of", n); out.append((t, i))
        return out
    H["vp_choice"] = vp_fork
    def vp_event(eng, st, I, a):
        st.ghost["events"] = st.ghost.get("events", ()) + ((eng.cstr(st, a[0]),) + tuple(a[1:]),)
        st.note("event", st.ghost["events"][-1])
        return None
    H["vp_event"] = vp_event
    H["vp_note"] = lambda eng, st, I, a: st.note(eng.cstr(st, a[0]))

    # ---- clock of a client (ghost "now", nanoseconds): it moves only while everything sleeps.  A spec may install its own hooks before.
    def now(st): return st.ghost.get("now", 1 << 40)
    def advance(eng, st, to):
        n = bv(now(st), 64); to = bv(to, 64)
        st.ghost["now"] = z3.simplify(z3.If(to > n, to, n))
        return st
    H["_ZNSt6chrono3_V212steady_clock3nowEv"] = H["_ZNSt6chrono3_V212system_clock3nowEv"] = lambda eng, st, I, a: now(st)
    H["vp_clock"] = lambda eng, st, I, a: now(st)
    def sleepns(eng, st, I, a): advance(eng, st, bv(now(st), 64) + bv(eng.load(st, a[0], 8), 64))
    eng.rhooks.append((re.compile(r"void std::this_thread::sleep_for<long, std::ratio<1l, 1000000000l>.*"), sleepns))
    def wait_until(eng, st, I, a):
        m = eng.load(st, a[1], 8)
        if not held(st, m): eng.fail(st, "lock:held", "waiting on a condition without holding the mutex")
        dl = eng.load(st, a[2], 8); L = lockinv(eng, st, m)
        if L is None:
            t = st.copy(); t.note("spurious wake-up"); k = t.ghost.get("spurious", 0); t.ghost["spurious"] = k + 1
            advance(eng, st, dl); outs = [st] + ([t] if k < 1 else [])
        else:
            outs = []
            for t in (L.release_until(eng, st, m, dl) if hasattr(L, "release_until") else L.release(eng, st, m, waiting=True)): outs += L.acquire(eng, t, m, waiting=True)
        res = []
        for t in outs:
            d2 = eng.load(t, a[2], 8)           # libstdc++ compares the clock with the deadline it was given (by reference) after the wait
            res.append((t, z3.If(bv(now(t), 64) < bv(d2, 64), z3.BitVecVal(0, 32), z3.BitVecVal(1, 32))))
        return res
    eng.rhooks.append((re.compile(r"std::cv_status std::condition_variable::(__wait_until_impl<|wait_until<std::chrono::_V2::steady_clock).*"), wait_until))

    # ---- mutexes and condition variables: contract by lock invariant (ghost ("lock", address) -> lib.LockInv); without one the client is sequential
    def held(st, a): return st.ghost.get(("held", a))
    def lockinv(eng, st, a):
        if a.__class__ is not int: raise Unsupported("symbolic mutex")
        return st.ghost.get(("lock", a))
    def deadobj(eng, st, a, what):
        o = eng.obj(st, a)
        if o is None: eng.fail(st, "mem:invalid-pointer", what + " of something that is no mutex", "mem")
        if o.dead: eng.fail(st, "mem:use-after-release", "%s of a mutex in %s after %s" % (what, o.name, o.dead), "mem")
        p = st.ghost.get(("proto", o.base))
        if p is not None: p.plain(eng, st, a, 1, "lock", None)
    def lock(eng, st, I, a):
        m = a[0]; deadobj(eng, st, m, "lock")
        if held(st, m): eng.fail(st, "lock:not-recursive", "a mutex is locked twice by the same thread: it blocks for ever")
        L = lockinv(eng, st, m); st.ghost[("held", m)] = 1
        if L is None: return 0
        return [(t, 0) for t in L.acquire(eng, st, m)]
    def unlock(eng, st, I, a):
        m = a[0]; deadobj(eng, st, m, "unlock")
        if not held(st, m): eng.fail(st, "lock:held", "a mutex is unlocked that is not locked")
        L = lockinv(eng, st, m); st.ghost.pop(("held", m))
        if L is None: return 0
        return [(t, 0) for t in L.release(eng, st, m)]
    H["pthread_mutex_lock"] = lock; H["pthread_mutex_unlock"] = unlock
    def trylock(eng, st, I, a):
        m = a[0]; deadobj(eng, st, m, "try_lock")
        if held(st, m): return 16
        L = lockinv(eng, st, m)
        if L is None: st.ghost[("held", m)] = 1; return 0
        t = st.copy(); t.ghost[("held", m)] = 1
        return [(st, 16)] + [(u, 0) for u in L.acquire(eng, t, m)]
    H["pthread_mutex_trylock"] = trylock
    def nop(eng, st, I, a): return 0
    for n in ("pthread_mutex_init", "pthread_mutex_destroy"): H[n] = nop
    H["_ZNSt18condition_variableC1Ev"] = H["_ZNSt18condition_variableD1Ev"] = H["_ZNSt18condition_variableC2Ev"] = H["_ZNSt18condition_variableD2Ev"] = nop
    def cvwait(timed):
        def f(eng, st, I, a):
            m = eng.load(st, a[1], 8)                    # unique_lock: mutex pointer, owns flag
            if not held(st, m): eng.fail(st, "lock:held", "waiting on a condition without holding the mutex")
            L = lockinv(eng, st, m)
            if L is None: eng.fail(st, "lock:blocks-for-ever", "waits for another thread although everything already ran")
            out = []
            for t in L.release(eng, st, m, waiting=True):
                out += L.acquire(eng, t, m, waiting=True)
            return [(t, None if not timed else eng.fresh("cv_status", 32)) for t in out]
        return f
    H["_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE"] = cvwait(False)
    def pcw(timed):
        def f(eng, st, I, a):
            m = a[1]
            if not held(st, m): eng.fail(st, "lock:held", "waiting on a condition without holding the mutex")
            L = lockinv(eng, st, m)
            if L is None: eng.fail(st, "lock:blocks-for-ever", "waits for another thread although everything already ran")
            out = []
            for t in L.release(eng, st, m, waiting=True): out += L.acquire(eng, t, m, waiting=True)
            return [(t, 0 if not timed else (0 if k == 0 else 110)) for t0 in out for k, t in ((0, t0), (1, t0.copy())) if timed or k == 0]
        return f
    H["pthread_cond_clockwait"] = lambda eng, st, I, a: pcw(True)(eng, st, I, a)
    H["pthread_cond_wait"] = pcw(False); H["pthread_cond_timedwait"] = pcw(True)
    def notify(allw):
        def f(eng, st, I, a):
            o = eng.obj(st, a[0])
            if o is None or o.dead: eng.fail(st, "mem:use-after-release", "notify on a condition variable in %s after %s" % (o and o.name, o and o.dead), "mem")
            p = st.ghost.get(("proto", o.base))
            if p is not None: p.plain(eng, st, a[0], 1, "notify", None)
            for k, L in list(st.ghost.items()):
                if k.__class__ is tuple and k[0] == "lock" and L.cv == a[0]: L.notify(eng, st, k[1], allw)
            return None
        return f
    H["_ZNSt18condition_variable10notify_allEv"] = notify(True); H["_ZNSt18condition_variable10notify_oneEv"] = notify(False)
def cstr(eng, st, p):
    from vp import Unsupported
    try:
        o = eng.obj(st, p); off = p - o.base; out = ""
        while True:
            v = eng.raw_load(o, off, 1)
            if v == 0: return out
            out += chr(v); off += 1
    except Exception: return "?"

"""The contract of a thread pool's shared state (P12, P13).  The mutex protects the queue, the delay heap and the number of work tokens; the
containers are replaced by their (assumed) contracts over ghost state: any number of queued coroutines and any earliest deadline.  Each queue
owns the right to resume its entries; taking an entry out moves that right to the worker, which has to use it exactly once."""
from lib import *
SN = "macoro::detail::thread_pool_state"
def f64(x): return bv(x, 64)
def le(a, b): return f64(a) <= f64(b)           # time points are signed
_sy = {}
def syms(c):
    k = c.get_id()
    if k not in _sy:
        out = set(); todo = [c]; seen = set()
        while todo:
            x = todo.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_const(x):
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.add(x.decl().name())
            else: todo += x.children()
        _sy[k] = (c, out)
    return _sy[k][1]
class Opaque(WordProto):
    """the containers are only accessed through their contracts; after the state may be gone nothing is accessed"""
    def __init__(s, P): s.P = P
    def alive(s, eng, st): 
        if st.ghost.get("gone"): eng.fail(st, "mem:use-after-release", "the pool's state is accessed after %s" % GONE[st.ghost["gone"]], "mem")
    def atomic(s, eng, st, a, *r): raise Unsupported("atomic in the pool's state")
    def plain_off(s, eng, st, a, off, sz, kind, v):
        s.alive(eng, st)
        if off is None: raise Unsupported("symbolic offset in the pool's state")
        for n, (lo, hi) in s.P.regions.items():
            if lo <= off < hi and kind in ("load", "store"):
                if n in ("dq", "hp"): raise Unsupported("%s of the inside of a container without contract" % kind)
                if n == "work" and not is_held(st, s.P.mtx): eng.fail(st, "race:" + n, "%s of the number of work tokens without holding the mutex" % kind, "mem")
        return None
GONE = {1: "its last work token was given back (the workers may have returned and the pool be destroyed)", 2: "the coroutine was queued and the mutex released (it may have run and ended the pool)"}
class Pool(LockInv):
    """kind: 'worker' (run), 'client' (everything else); prop: obligations of P12 or P13 or both"""
    def __init__(s, eng, st, role, prop="P12"):
        m = eng.m; s.role = role; s.prop = prop; s.size = const(m, "SZ_state"); s.a = eng.alloc(st, s.size, "global", "pool state")
        o = m.field; s.off = {k: o(SN, n) for k, n in (("mtx", "mMutex"), ("cv", "mCondition"), ("dq", "mDeque"), ("hp", "mDelayHeap"), ("work", "mWork"), ("thr", "mThreads"), ("idx", "mDelayOpIdx"))}
        s.regions = {"dq": (s.off["dq"], s.off["dq"] + const(m, "SZ_deque")), "hp": (s.off["hp"], s.off["hp"] + 24), "work": (s.off["work"], s.off["work"] + 8)}
        s.mtx = s.a + s.off["mtx"]; s.cv = s.a + s.off["cv"]; s.dq = s.a + s.off["dq"]; s.hp = s.a + s.off["hp"]
        ob = eng.wobj(st, s.a)
        for x in range(s.off["mtx"], s.off["mtx"] + 40, 8): ob.cells[x] = (8, 0)
        g = st.ghost; g["now"] = eng.fresh("now", 64); 
        for k in ("dqn", "hpn", "hpmin", "dqf", "hpf", "hand", "shape", "pushed", "notified", "gone"): g[k] = 0
        s.dslot = eng.alloc(st, 8, "global", "queue entry"); s.hslot = eng.alloc(st, const(m, "SZ_op"), "global", "heap entry"); s.dco = s.newcoro(eng, st, "queued coroutine"); s.hco = s.newcoro(eng, st, "delayed coroutine"); s.tmpl = {x: eng.obj(st, x) for x in (s.dslot, s.hslot, s.dco, s.hco)}
        for x in s.tmpl: st.mem.pop(x >> OBJ_SHIFT)
        guard(eng, st, s.mtx, s); share(eng, st, s.a, Opaque(s)); s.install(eng); s.hv(eng, st)
    def only(s, p): return s.prop == p
    def v(s, eng, st, c): return True if eng.quiet else eng.valid(st, c)       # while an invariant is searched nothing is checked
    def ob(s, eng, st, prop, c, key, why):
        if s.prop in (prop, "both"): eng.oblige(st, c, key, why)
        elif c is not True and c.__class__ is bool and not c: raise PathEnd()
    def forget(s, eng, st):
        """what was known about earlier contents is dropped (sound: fewer assumptions), the last reading of the clock stays"""
        keep = []; nowid = f64(st.ghost["now"]).get_id()
        for c in st.pc:
            ids = syms(c); 
            if ids and all(n.split("!")[0] in ("dqn", "hpn", "deadline", "work", "op", "now", "idx") for n in ids): continue
            keep.append(c)
        st.pc = tuple(keep)
    def hv(s, eng, st):
        g = st.ghost; s.forget(eng, st)
        for k in ("dqf", "hpf"):
            if g[k]:
                b = g[k]; o = eng.wobj(st, b); o.dead = "the mutex was released (the container may have changed)"; g[k] = 0
        for k in ("dqn", "hpn"): g[k] = eng.fresh(k, 64); eng.assume(st, z3.ULT(g[k], 1 << 40))
        g["hpmin"] = eng.fresh("deadline", 64); g["shape"] = 0
        w = eng.fresh("work", 64); eng.assume(st, z3.ULT(w, 1 << 40)); eng.wobj(st, s.a).cells[s.off["work"]] = (8, w)
        if s.role == "token": eng.assume(st, z3.UGE(w, 1))
        i = eng.fresh("op", 64); eng.wobj(st, s.a).cells[s.off["idx"]] = (8, i)
        g["now"] = s.later(eng, st)
    def later(s, eng, st):
        n = eng.fresh("now", 64); eng.assume(st, n >= f64(st.ghost["now"])); return n
    def work(s, eng, st): return f64(eng.raw_load(eng.obj(st, s.a), s.off["work"], 8))
    def acquire(s, eng, st, m, waiting=False):
        if st.ghost["gone"]: eng.fail(st, "mem:use-after-release", "the pool's mutex is locked after %s" % GONE[st.ghost["gone"]], "mem")
        s.hv(eng, st); return s.acquired(eng, st)
    def acquired(s, eng, st): return [st]
    def release(s, eng, st, m, waiting=False): return s.rel(eng, st, waiting, None)
    def release_until(s, eng, st, m, dl): return s.rel(eng, st, True, dl)
    def rel(s, eng, st, waiting, dl):
        g = st.ghost; z = f64(0); dqn, hpn = f64(g["dqn"]), f64(g["hpn"]); w = s.work(eng, st)
        s.ob(eng, st, "P13", g["shape"] == 0, "lock:heap-ordered", "the delay heap is not in heap order when the mutex is released: another item than the earliest is taken next")
        if g["hpf"] and g["shape"] == 0: s.ob(eng, st, "P13", s.v(eng, st, f64(eng.raw_load(eng.obj(st, g["hpf"]), s.fo["deadline"], 8)) == f64(g["hpmin"])), "lock:heap-unchanged", "the deadline of an entry is changed without restoring the order of the heap")
        if waiting:
            s.ob(eng, st, "P12", g["hand"] == 0, "worker:item-in-hand", "the worker sleeps although it has taken a coroutine out of the queue")
            s.ob(eng, st, "P12", s.v(eng, st, dqn == z), "worker:sleeps-with-queued", "the worker sleeps although a coroutine is queued: nobody need wake it")
            if dl is None:
                s.ob(eng, st, "P13", s.v(eng, st, hpn == z), "worker:sleeps-without-deadline", "the worker sleeps for ever although a delayed item is queued")
                s.ob(eng, st, "P12", s.v(eng, st, z3.Or(w != z, hpn != z, dqn != z)), "worker:sleeps-without-work", "the worker sleeps although no work token or item is left: it never returns")
            else: s.ob(eng, st, "P13", s.v(eng, st, z3.And(hpn != z, f64(dl) <= f64(g["hpmin"]))), "worker:sleeps-too-long", "the worker sleeps longer than until the earliest deadline")
            return [st]
        if g["pushed"]:
            s.ob(eng, st, "P12", g["notified"] >= 1, "client:notified", "a coroutine is queued but no worker is notified before the mutex is released (afterwards the pool may be gone): a sleeping worker misses it")
            if s.role != "worker": g["gone"] = 2
        if s.role == "token" and g.get("dec"):
            if eng.valid(st, w == z): s.ob(eng, st, "P12", g["notified"] == 2, "token:all-notified", "the last work token is given back but not every worker is notified: sleeping workers never return"); g["gone"] = 1
            else:
                # another token may still be there or not
                c = w == z; out = []
                if eng.feasible(st, c):
                    t = st.copy(); eng.assume(t, c); s.ob(eng, t, "P12", g["notified"] == 2, "token:all-notified", "the last work token is given back but not every worker is notified: sleeping workers never return"); t.ghost["gone"] = 1; out.append(t)
                if eng.feasible(st, z3.Not(c)): eng.assume(st, z3.Not(c)); st.ghost["gone"] = 1; out.append(st)
                return out
        return [st]
    def notify(s, eng, st, m, allw): st.ghost["notified"] = max(st.ghost["notified"], 2 if allw else 1)
    # ---------------------------------------------------------------- containers
    def locked(s, eng, st, what):
        if st.ghost["gone"]: eng.fail(st, "mem:use-after-release", "the %s is accessed after %s" % (what, GONE[st.ghost["gone"]]), "mem")
        if not is_held(st, s.mtx): eng.fail(st, "race:" + what, "the %s is accessed without holding the mutex" % what, "mem")
    def take(s, eng, st, slot, hoff):
        h = eng.raw_load(eng.obj(st, slot), hoff, 8); s.ob(eng, st, "P12", st.ghost["hand"] == 0, "worker:item-dropped", "a coroutine is taken out of the queue while the one before has not been resumed")
        st.res[("resume", h)] = 1; st.ghost["hand"] = h; eng.wobj(st, slot).dead = "it was taken out of the container"
    def revive(s, eng, st, h):
        st.mem[h >> OBJ_SHIFT] = s.tmpl[h].copy(st.tok); return h
    def newcoro(s, eng, st, name):
        def resumed(eng, st, h):
            if is_held(st, s.mtx): eng.fail(st, "worker:resumes-unlocked", "a coroutine is resumed while the mutex is held: using the pool in it blocks for ever")
            s.ob(eng, st, "P12", st.ghost["hand"] == h, "worker:resumes-taken", "another coroutine than the one taken out is resumed"); st.ghost["hand"] = 0
            cur = eng.m.gaddr.get("_ZN6macoro6detail17thread_pool_state16mCurrentExecutorE")
            if cur is not None: c = eng.raw_load(eng.obj(st, cur), 0, 8); s.ob(eng, st, "P12", c.__class__ is int and c == s.a, "worker:current", "a coroutine is resumed while the thread is not marked as running this pool: dispatching does not continue inline")
            st.ghost["now"] = s.later(eng, st); eng.reached.add("resumed") if not eng.quiet else None; eng.wobj(st, h).dead = "it was resumed"
        return coro(eng, st, name, resumed, perm=False)
    def dfront(s, eng, st):
        g = st.ghost; s.locked(eng, st, "queue"); s.ob(eng, st, "P12", s.v(eng, st, f64(g["dqn"]) != 0), "queue:not-empty", "the front of an empty queue is read")
        if not eng.feasible(st, f64(g["dqn"]) != 0): raise PathEnd()
        if not g["dqf"]:
            h = s.revive(eng, st, s.dco); a = s.revive(eng, st, s.dslot); o = eng.wobj(st, a); o.cells[0] = (8, h); g["dqf"] = a
        return g["dqf"]
    def dpop(s, eng, st):
        g = st.ghost; s.locked(eng, st, "queue"); s.ob(eng, st, "P12", s.v(eng, st, f64(g["dqn"]) != 0), "queue:not-empty", "an empty queue is popped")
        if not g["dqf"]: s.dfront(eng, st)
        s.ob(eng, st, "P13", s.v(eng, st, z3.Or(f64(g["hpn"]) == 0, f64(g["hpmin"]) > f64(g["now"]))), "worker:due-first", "a queued coroutine is taken although a delayed item is due")
        s.take(eng, st, g["dqf"], 0); g["dqf"] = 0; g["dqn"] = z3.simplify(f64(g["dqn"]) - 1)
    def dpush(s, eng, st, ref):
        g = st.ghost; s.locked(eng, st, "queue"); h = eng.load(st, ref, 8); s.give(eng, st, h); g["dqn"] = z3.simplify(f64(g["dqn"]) + 1)
    def give(s, eng, st, h):
        if h.__class__ is not int or not st.res.get(("resume", h)): eng.fail(st, "client:queued-once", "a coroutine is queued that is not suspended here or is queued already")
        del st.res[("resume", h)]; st.ghost["pushed"] = st.ghost["pushed"] + 1; st.ghost["notified"] = 0
    def hfront(s, eng, st):
        g = st.ghost; s.locked(eng, st, "delay heap"); s.ob(eng, st, "P13", s.v(eng, st, f64(g["hpn"]) != 0), "heap:not-empty", "the front of an empty delay heap is read")
        if not eng.feasible(st, f64(g["hpn"]) != 0): raise PathEnd()
        if g["shape"]: raise Unsupported("front of the delay heap while it is not in order")
        if not g["hpf"]:
            h = s.revive(eng, st, s.hco); a = s.revive(eng, st, s.hslot); o = eng.wobj(st, a); o.cells[s.fo["handle"]] = (8, h); o.cells[s.fo["deadline"]] = (8, g["hpmin"]); o.cells[s.fo["idx"]] = (8, eng.fresh("idx", 64)); g["hpf"] = a
        return g["hpf"]
    def hpop(s, eng, st):
        g = st.ghost; s.locked(eng, st, "delay heap"); s.ob(eng, st, "P13", g["shape"] == 2, "heap:pop-back", "an entry is removed that is not the earliest (the back of the heap)")
        s.ob(eng, st, "P13", s.v(eng, st, f64(g["hpmin"]) <= f64(g["now"])), "worker:not-early", "a delayed item is taken out before its deadline")
        s.take(eng, st, g["hpf"], s.fo["handle"]); g["hpf"] = 0; g["hpn"] = z3.simplify(f64(g["hpn"]) - 1); g["shape"] = 0
        g["hpmin"] = n = eng.fresh("deadline", 64)
    def happend(s, eng, st, idx, h, dl):
        g = st.ghost; s.locked(eng, st, "delay heap"); s.ob(eng, st, "P13", g["shape"] == 0, "heap:append", "two entries are appended before the heap is put in order"); s.give(eng, st, h); g["hpn"] = z3.simplify(f64(g["hpn"]) + 1); g["shape"] = 1
        g["newdl"] = dl; g["newidx"] = idx
    def algo(s, eng, st, what):
        g = st.ghost; s.locked(eng, st, "delay heap")
        if what == "pop": 
            if g["shape"]: eng.fail(st, "heap:order", "pop_heap on something that is no heap")
            s.hfront(eng, st); g["shape"] = 2
        else:
            if g["shape"] == 2 or what == "push" and g["shape"] == 3: s.ob(eng, st, "P13", False, "heap:order", "push_heap / make_heap after pop_heap: the entry taken out comes back")
            if g["shape"] == 1: n = f64(g["newdl"]); g["hpmin"] = z3.simplify(z3.If(z3.And(f64(g["hpn"]) != 1, f64(g["hpmin"]) <= n), f64(g["hpmin"]), n))
            g["shape"] = 0
    def install(s, eng):
        m = eng.m; D = "macoro::detail::thread_pool_delay_op"; s.esize = const(m, "SZ_op"); s.fo = {k: m.field(D, k) for k in ("idx", "handle", "deadline")}
        dq = r"std::deque<macoro::coroutine_handle<void>, std::allocator<macoro::coroutine_handle<void>\s?>\s?>::"; hp = r"std::vector<macoro::detail::thread_pool_delay_op, std::allocator<macoro::detail::thread_pool_delay_op>\s?>::"
        def chk(a, x, what):
            if a != x: raise Unsupported("another container than the pool's " + what)
        def d(name, fn): eng.rhook(r"(.* )?" + dq + name, lambda eng, st, I, a: (chk(a[0], s.dq, "queue"), fn(eng, st, *a[1:]))[1])
        def h(name, fn): eng.rhook(r"(.* )?" + hp + name, lambda eng, st, I, a: (chk(a[0], s.hp, "delay heap"), fn(eng, st, *a[1:]))[1])
        def bad(what):
            def f(*a): raise Unsupported("no contract: " + what)
            return f
        d(r".*", bad("queue operation")); h(r".*", bad("delay heap operation"))
        def dsize(eng, st): s.locked(eng, st, "queue"); return st.ghost["dqn"]
        def hsize(eng, st): s.locked(eng, st, "delay heap"); return st.ghost["hpn"]
        d(r"size\(\) const", dsize); h(r"size\(\) const", hsize)
        d(r"empty\(\) const", lambda eng, st: eng.icmp("eq", dsize(eng, st), 0, 64)); h(r"empty\(\) const", lambda eng, st: eng.icmp("eq", hsize(eng, st), 0, 64))
        d(r"front\(\)( const)?", s.dfront); d(r"pop_front\(\)", s.dpop); h(r"front\(\)( const)?", s.hfront); h(r"pop_back\(\)", s.hpop)
        d(r"(push_back\(.*|.*emplace_back<macoro::coroutine_handle<void>.*)", s.dpush)
        def lifo(what):
            def f(eng, st, *a): s.ob(eng, st, "P12", False, "queue:first-in-first-out", what + ": coroutines are not resumed in the order of scheduling"); raise Unsupported(what)
            return f
        d(r"(push_front\(.*|.*emplace_front<.*)", lifo("a coroutine is queued in front")); d(r"(pop_back|back)\(\).*", lifo("the newest entry is taken"))
        def emplace(eng, st, i, hh, dl): s.happend(eng, st, eng.load(st, i, 8), eng.load(st, hh, 8), eng.load(st, dl, 8))
        h(r"emplace_back<.*", emplace)
        h(r"push_back\(.*", lambda eng, st, x: s.happend(eng, st, eng.load(st, x + s.fo["idx"], 8), eng.load(st, x + s.fo["handle"], 8), eng.load(st, x + s.fo["deadline"], 8)))
        h(r"(begin|end|cbegin|cend)\(\)( const)?", lambda eng, st: s.hp)
        for n in ("push", "pop", "make"):
            def al(eng, st, I, a, n=n):
                if a[0] != s.hp or a[1] != s.hp: raise Unsupported("heap algorithm on another range")
                return s.algo(eng, st, n)
            eng.rhook(r"(.* )?std::%s_heap<__gnu_cxx::__normal_iterator<macoro::detail::thread_pool_delay_op\*, .*" % n, al)
        def clock(eng, st, I, a):
            st.ghost["now"] = s.later(eng, st)
            return st.ghost["now"]
        eng.hook("_ZNSt6chrono3_V212steady_clock3nowEv", clock)
def caller(eng, st, P, name="coroutine"):
    return coro(eng, st, name, None, perm=True)
def p_run(prop):
    def go(eng):
        st = eng.start_state(); P = Pool(eng, st, "worker", prop); eng.eager_loops = lambda f: True; eng.cand_skip = lambda p: p != ("g", "hpmin") and p != ("m", P.hslot, P.fo["deadline"]) and (p[0] == "g" or p[0] == "m" and p[1] in (P.a, P.dslot, P.hslot)); p = eng.alloc(st, 64, "global", "pool"); eng.wobj(st, p).cells[0] = (8, P.a); eng.covers = ("returns", "resumed")
        cur = eng.m.gaddr["_ZN6macoro6detail17thread_pool_state16mCurrentExecutorE"]
        def ex(st, v):
            g = st.ghost; eng.reached.add("returns"); 
            P.ob(eng, st, "P12", g["hand"] == 0, "post:nothing-in-hand", "the worker returns with a coroutine it has taken out but not resumed")
            P.ob(eng, st, "P12", eng.valid(st, f64(g["dqn"]) == 0), "post:queue-empty", "the worker returns although a coroutine is queued"); P.ob(eng, st, "P13", eng.valid(st, f64(g["hpn"]) == 0), "post:heap-empty", "the worker returns although a delayed item is queued")
            P.ob(eng, st, "P12", eng.valid(st, P.work(eng, st) == 0), "post:no-work-left", "the worker returns although a work token is outstanding"); P.ob(eng, st, "P12", not is_held(st, P.mtx), "post:unlocked", "the mutex stays locked")
            c = eng.raw_load(eng.obj(st, cur), 0, 8); P.ob(eng, st, "P12", c == 0, "post:not-current", "the thread stays marked as running the pool"); no_leaks(eng, st)
        eng.run(st, "f_run", [p], ex)
    return go
def p_post(fn, prop="P12", inline=False):
    def go(eng):
        st = eng.start_state(); P = Pool(eng, st, "client", prop); h = caller(eng, st, P); eng.covers = ("exit",) + (("inline",) if inline else ()); cur = eng.m.gaddr["_ZN6macoro6detail17thread_pool_state16mCurrentExecutorE"]
        other = eng.alloc(st, 8, "global", "another pool")
        for c in ((0, other, P.a) if inline else (0,)):
            t = st.copy(); eng.obj(t, cur); eng.wobj(t, cur).cells[0] = (8, c)
            def ex(st, v, c=c):
                eng.reached.add("exit"); own = c == P.a
                if own: eng.reached.add("inline"); P.ob(eng, st, "P12", st.ghost["pushed"] == 0 and bool(st.res.get(("resume", h))), "post:continues-inline", "dispatching on a worker of the pool queues the coroutine"); st.res.pop(("resume", h), None)
                else: P.ob(eng, st, "P12", st.ghost["pushed"] == 1, "post:queued-once", "the coroutine is queued %s times" % st.ghost["pushed"])
                if inline: P.ob(eng, st, "P12", eng.valid(st, boolof(v) == z3.BoolVal(own)), "post:answer", "the caller is told the opposite")
                P.ob(eng, st, "P12", not is_held(st, P.mtx), "post:unlocked", "the mutex stays locked"); no_leaks(eng, st)
            eng.run(t, fn, [P.a, h], ex)
    return go
def p_token(fn):
    def go(eng):
        st = eng.start_state(); P = Pool(eng, st, "token" if fn != "f_work" else "client", "P12"); w = eng.alloc(st, 8, "global", "token"); eng.covers = ("exit",); inc = fn == "f_work"
        if not inc: eng.wobj(st, w).cells[0] = (8, P.a); st.ghost["dec"] = 1
        def acq(eng, st): st.ghost["w0"] = P.work(eng, st); return [st]
        P.acquired = acq; rel0 = P.rel
        def rel(eng, st, waiting, dl): P.ob(eng, st, "P12", eng.valid(st, P.work(eng, st) == f64(st.ghost["w0"]) + (1 if inc else -1)), "guarantee:counts-one", "the number of outstanding work tokens is not changed by one"); st.ghost["counted"] = st.ghost.get("counted", 0) + 1; return rel0(eng, st, waiting, dl)
        P.rel = rel
        def ex(st, v):
            eng.reached.add("exit"); P.ob(eng, st, "P12", st.ghost.get("counted", 0) == 1, "post:counted-once", "the token is counted %s times" % st.ghost.get("counted", 0)); P.ob(eng, st, "P12", not is_held(st, P.mtx), "post:unlocked", "")
            if not inc: c = eng.raw_load(eng.obj(st, w), 0, 8); P.ob(eng, st, "P12", c == 0 or fn == "f_work_dtor", "post:given-back", "the token can be given back twice")
        eng.run(st, fn, [w, P.a] if inc else [w], ex)
    return go
# ------------------------------------------------------------------ delayed scheduling: registration
class Delay(Pool):
    """post_after: rely = once registered, the cancellation callback may run (or have run) at any time after the request"""
    def setup(s, eng, st, possible, frame):
        g = st.ghost; g["possible"] = possible; g["req"] = 0; g["reg"] = 0; g["ran"] = 0; g["tick"] = (); s.frame = frame
        def requested(eng, st, I, a):
            s.framed(eng, st, a[0])
            if not st.ghost["possible"]: return 0
            if st.ghost["req"]: return 1
            t = st.copy(); t.ghost["req"] = 1; t.note("stop was requested"); return [(st, 0), (t, 1)]
        eng.rhook(r"(macoro|std)::stop_token::stop_requested\(\)( const)?", requested)
        eng.rhook(r"(macoro|std)::stop_token::stop_possible\(\)( const)?", lambda eng, st, I, a: (s.framed(eng, st, a[0]), st.ghost["possible"])[1])
        def emplace(eng, st, I, a):
            s.framed(eng, st, a[0]); g = st.ghost
            s.ob(eng, st, "P13", not is_held(st, s.mtx), "register:unlocked", "the cancellation is registered while the mutex is held: a callback that runs at once blocks for ever")
            s.ob(eng, st, "P13", not g["reg"], "register:once", "the cancellation is registered twice"); lam = a[-1]; o = eng.obj(st, lam); lo = lam - o.base
            g["lam"] = tuple(v for c, (z, v) in sorted(o.cells.items()) if z == 8 and lo <= c < lo + 16); g["reg"] = 1; out = [st]
            if g["possible"]: t = st.copy(); t.ghost["req"] = t.ghost["ran"] = 1; t.note("stop was requested, the callback ran"); out.append(t)
            return [(t, a[0]) for t in out]
        eng.rhook(r".*optional<(macoro|std)::stop_callback.*>::emplace<.*", emplace)
    def framed(s, eng, st, a):
        o = eng.obj(st, a if a.__class__ is int else a.base)
        if o is None or o.dead: eng.fail(st, "mem:use-after-release", "the awaiter is accessed after %s" % (o and o.dead), "mem")
    def acquired(s, eng, st):
        st.ghost["w_i"] = eng.raw_load(eng.obj(st, s.a), s.off["idx"], 8)
        if st.ghost["reg"] and not st.ghost["ran"]: t = st.copy(); t.ghost["req"] = t.ghost["ran"] = 1; t.note("stop was requested, the callback ran"); return [st, t]
        return [st]
    def happend(s, eng, st, idx, h, dl):
        g = st.ghost; now = f64(g["now"]); D = f64(g["D"]); d = f64(dl)
        if g["ran"]: s.ob(eng, st, "P13", s.v(eng, st, d <= now), "post:cancelled-is-due", "the cancellation callback may have run before the item was queued, but the item is queued for later: the cancellation is lost")
        elif g["req"]: s.ob(eng, st, "P13", s.v(eng, st, z3.Or(d <= now, d == D)), "post:deadline", "another deadline is queued")
        else: s.ob(eng, st, "P13", s.v(eng, st, d == D), "post:deadline", "another deadline is queued although the item was not cancelled")
        if g["possible"] and not g["req"]: s.ob(eng, st, "P13", g["reg"] == 1, "register:before-visible", "the item is queued before its cancellation is registered: a worker may resume (and destroy) the coroutine meanwhile, or the cancellation is lost")
        Pool.happend(s, eng, st, idx, h, dl)
    def rel(s, eng, st, waiting, dl):
        g = st.ghost; i = eng.raw_load(eng.obj(st, s.a), s.off["idx"], 8); g["tick"] = g["tick"] + ((g["w_i"], i),); outs = Pool.rel(s, eng, st, waiting, dl)
        for t in outs:
            if t.ghost["pushed"]: eng.wobj(t, s.frame).dead = "the coroutine was queued (it may have been resumed and destroyed)"
        return outs
def p_after(eng):
    st0 = eng.start_state(); fr = eng.alloc(st0, 128, "global", "awaiter in the coroutine's frame"); P = Delay(eng, st0, "client", "P13"); h = caller(eng, st0, P); eng.covers = ("exit", "queued", "posted")
    D = eng.fresh("D", 64); eng.assume(st0, z3.And(D >= 0, D < 1 << 62)); st0.ghost["D"] = D
    for pos in (0, 1):
        st = st0.copy(); P.setup(eng, st, pos, fr)
        for x in range(0, 128, 8): eng.wobj(st, fr).cells[x] = (8, 0)
        def ex(st, v):
            g = st.ghost; eng.reached.add("exit"); P.ob(eng, st, "P13", g["pushed"] == 1, "post:queued-once", "the coroutine is queued %s times" % g["pushed"]); P.ob(eng, st, "P13", not is_held(st, P.mtx), "post:unlocked", "the mutex stays locked")
            if "newidx" in g:
                eng.reached.add("queued")
                if g["reg"]:
                    i = f64(g["newidx"]); P.ob(eng, st, "P13", any(eng.valid(st, z3.And(i == f64(a), f64(b) == f64(a) + 1)) for a, b in g["tick"]), "post:number-unique", "the number of the item may be given to another one: cancelling one cancels another")
                    P.ob(eng, st, "P13", any(eng.valid(st, f64(x) == i) for x in g["lam"] if x.__class__ is not tuple), "post:number-registered", "the callback cancels another item than the one queued")
            else: eng.reached.add("posted"); P.ob(eng, st, "P13", g["req"] == 1, "post:immediate-only-if-requested", "the coroutine is resumed at once although stop was not requested")
            no_leaks(eng, st)
        eng.run(st, "f_after", [P.a, h, D, fr, fr + 64], ex)
# ------------------------------------------------------------------ cancellation of one item
class Cancel(Pool):
    def setup(s, eng, st, target):
        m = eng.m; hp = r"std::vector<macoro::detail::thread_pool_delay_op, std::allocator<macoro::detail::thread_pool_delay_op>\s?>::"; st.ghost["changed"] = 0
        s.es = eng.alloc(st, s.esize, "global", "the item"); s.os = eng.alloc(st, s.esize, "global", "another item")
        for x in (s.es, s.os):
            o = eng.wobj(st, x); o.cells[s.fo["idx"]] = (8, target if x == s.es else 0); o.cells[s.fo["handle"]] = (8, 0); o.cells[s.fo["deadline"]] = (8, 0)
        def at(eng, st, I, a):
            if a[0] != s.hp: raise Unsupported("another container")
            g = st.ghost; s.locked(eng, st, "delay heap"); i = f64(a[1]); s.ob(eng, st, "P13", s.v(eng, st, z3.ULT(i, f64(g["hpn"]))), "heap:in-bounds", "an entry outside of the delay heap is accessed"); out = []
            hit = z3.And(f64(g["pos"]) == i, f64(g["pos"]) != f64(M64)); 
            if eng.feasible(st, hit): t = st.copy(); eng.assume(t, hit); out.append((t, s.es))
            if eng.feasible(st, z3.Not(hit)): eng.assume(st, z3.Not(hit)); o = eng.wobj(st, s.os); n = eng.fresh("other", 64); eng.assume(st, n != f64(target)); o.cells[s.fo["idx"]] = (8, n); out.append((st, s.os))
            return out
        eng.rhook(r"(.* )?" + hp + r"(operator\[\]|at)\(unsigned long\)( const)?", at)
    def acquired(s, eng, st):
        g = st.ghost; g["pos"] = p = eng.fresh("pos", 64); eng.assume(st, z3.Or(p == f64(M64), z3.ULT(p, f64(g["hpn"])))); return [st]
    def algo(s, eng, st, what):
        g = st.ghost; d = eng.raw_load(eng.obj(st, s.es), s.fo["deadline"], 8)
        if what != "make": raise Unsupported("heap operation in the cancellation")
        g["ordered"] = 1; g["setto"] = d
    def changed(s, eng, st): d = eng.raw_load(eng.obj(st, s.es), s.fo["deadline"], 8); return not (d.__class__ is int and d == 0)
    def rel(s, eng, st, waiting, dl):
        g = st.ghost; outs = []
        s.ob(eng, st, "P13", eng.raw_load(eng.obj(st, s.os), s.fo["deadline"], 8) == 0, "cancel:others-unchanged", "the deadline of another item is changed")
        there = f64(g["pos"]) != f64(M64)
        if s.changed(eng, st):
            d = f64(eng.raw_load(eng.obj(st, s.es), s.fo["deadline"], 8)); s.ob(eng, st, "P13", s.v(eng, st, d <= f64(g["now"])), "cancel:due", "the cancelled item does not become due")
            s.ob(eng, st, "P13", g.get("ordered") == 1 and eng.valid(st, f64(g["setto"]) == d), "lock:heap-ordered", "the deadline of an entry is changed without restoring the order of the heap"); g["did"] = 1; g["notified"] = g["notified"] if g.get("did") else 0
        else: s.ob(eng, st, "P13", s.v(eng, st, z3.Not(there)), "cancel:found", "the item is queued but its deadline is not changed: the cancellation is lost")
        return [st]
def p_cancel(eng):
    st = eng.start_state(); P = Cancel(eng, st, "client", "P13"); t = eng.fresh("target", 64); P.setup(eng, st, t); eng.covers = ("cancelled", "gone")
    for c in ("did", "ordered", "setto", "pos"): st.ghost[c] = 0
    def ex(st, v):
        g = st.ghost; P.ob(eng, st, "P13", not is_held(st, P.mtx), "post:unlocked", "the mutex stays locked")
        if g["did"].__class__ is int and g["did"]: eng.reached.add("cancelled"); P.ob(eng, st, "P13", g["notified"] >= 1, "cancel:notified", "no worker is woken for the cancelled item: it fires only at its old deadline")
        else: eng.reached.add("gone")
        no_leaks(eng, st)
    eng.run(st, "f_cancel", [P.a, t], ex)

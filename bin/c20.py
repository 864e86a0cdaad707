#!/usr/bin/env python3
"""The Python binding (src/python/centaurus), executed on symbolic values under the protocol of the native runners.
MODE trace: adapters and channels over whole traces; step: the final stage's list keeping for unrestricted counts; history: Context, workers and queues over several parses."""
import sys, os, json, types, importlib.util, threading, collections
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import ctypes as real_ctypes, queue as _q
from pysym import *
REPO = os.environ.get("CENTAURUS_REPO", "/repo")
NAMES = ["A", "B", "C"]
EN = None; LIB = None; SCHED = None
# ---- stand-in for the foreign-function library: nothing native is loaded
class Fn:
    def __init__(self, name): self.name = name; self.argtypes = None; self.restype = None
    def __call__(self, *a):
        f = getattr(LIB, self.name, None)
        if f is None: raise AttributeError("no native function " + self.name)
        if self.argtypes is not None and len(a) < len(self.argtypes): EN.ensure(False, "a native function gets all its arguments")
        return f(*a)
class Dll:
    def __init__(self, *a, **k): self.__dict__["f"] = {}
    def __getattr__(self, n): return self.f.setdefault(n, Fn(n))
def plain(name):
    class T(real_ctypes.Structure if name == "Structure" else object):
        def __init__(self, value=None): self.value = value
    T.__name__ = name; return T
STRUCTS = {}
class Structure:
    def __init_subclass__(cls, **k): STRUCTS[cls.__name__] = cls
class Ptr:
    def __init__(self, v): self.v = v
    def __getitem__(self, i): return self.v[i]
    @property
    def contents(self): return self.v[0]
def CFUNCTYPE(res, *args):
    class CallBack:
        restype, argtypes = res, args
        def __init__(self, f): self.f = f
        def __call__(self, *a):
            a = a[:len(args)]
            try: r = self.f(*a)
            except SystemExit: EN.ensure(EN.dead or bool(EN.violations), "a callback of the binding does not fail"); raise Dead()
            except Dead: raise
            return 0 if r is None else r
    return CallBack
fake = types.ModuleType("ctypes")
for n in "c_void_p c_wchar_p c_char_p c_int c_long c_size_t c_bool c_int64 c_uint64 c_longlong".split(): setattr(fake, n, plain(n))
fake.POINTER = lambda t: ("POINTER", t); fake.Structure = Structure; fake.CFUNCTYPE = CFUNCTYPE; fake.RTLD_GLOBAL = 0; fake.CDLL = Dll; fake.PyDLL = Dll
class Bytes:
    def __init__(self, start, n): self.start, self.n = start, n
    def decode(self, *a): return self
fake.string_at = lambda p, n=-1: Bytes(getattr(p, "value", p), n)
fake.cast = lambda p, t: p; fake.byref = lambda x: x; fake.__getattr__ = lambda n: getattr(real_ctypes, n)
# ---- stand-in for processes: threads of which one runs at a time; which one is a choice
class Sched:
    def __init__(self, en, delays=1000): self.delays = delays; self.log = ""; self.en, self.threads, self.err, self.done = en, [], None, False; self.cur = self.new(None)
    def new(self, f): t = dict(f=f, ev=threading.Event(), cond=None, dead=False, n=len(self.threads)); self.threads.append(t); return t
    def spawn(self, f):
        t = self.new(f)
        def run():
            t["ev"].wait()
            try:
                if not self.err: f()
            except Dead:
                self.err = self.err or "dead"
            except BaseException as e:
                if not (self.en.dead or self.done): self.err = self.err or e
            t["dead"] = True; self.switch(exiting=True)
        th = threading.Thread(target=run, daemon=True); t["th"] = th; th.start(); return t
    def switch(self, exiting=False):
        me = self.cur; me["ev"].clear()
        if self.err or self.done: nxt = self.threads[0]
        else:
            r = [t for t in self.threads if not t["dead"] and (t["cond"] is None or t["cond"]())]
            if not r: self.err = "stuck"; nxt = self.threads[0]
            else:
                try:
                    v = self.en.choose("run", len(r)) if self.delays else 0; self.delays -= v > 0; nxt = r[v]
                except Dead: self.err = "dead"; nxt = self.threads[0]
        self.cur = nxt; self.log += str(nxt["n"])
        if nxt is not me: nxt["ev"].set()
        if exiting: return
        if nxt is not me: me["ev"].wait()
        if self.err and me is self.threads[0]:
            e = self.err
            if e == "stuck": self.en.ensure(False, "every parse ends")
            if isinstance(e, BaseException): self.en.ensure(False, "no process fails (%s: %s)" % (type(e).__name__, e))
            raise Dead()
        if self.err or self.done: raise Dead()
    def wait(self, cond):
        if cond(): return
        self.cur["cond"] = cond; me = self.cur; self.switch(); me["cond"] = None
    def pause(self): self.switch()
    def end(self):  # let every other thread run out
        self.done = True
        for t in self.threads[1:]:
            if not t["dead"]: t["ev"].set(); t["th"].join(2)
class Queue:
    def __init__(self, *a): self.d = collections.deque(); self.pending = 0
    def put(self, x, *a): self.d.append(x); self.pending += 1
    def get(self, *a):
        SCHED.wait(lambda: bool(self.d)) if SCHED else EN.ensure(bool(self.d), "a value list is there when it is fetched")
        if not self.d: EN.kill()
        return self.d.popleft()
    def empty(self): return not self.d
    def task_done(self): self.pending -= 1
    def join(self): SCHED.wait(lambda: self.pending == 0)
    def close(self): pass
    def join_thread(self): pass
    def cancel_join_thread(self): pass
class Process:
    def __init__(self, group=None, target=None, name=None, args=(), kwargs={}, daemon=None): self.t = None; self.f = lambda: target(*args, **kwargs)
    def start(self): EN.ensure(self.t is None, "a process is started once"); self.t = SCHED.spawn(self.f)
    def join(self, *a): SCHED.wait(lambda: self.t["dead"])
    def is_alive(self): return self.t is not None and not self.t["dead"]
    def terminate(self): pass
fmp = types.ModuleType("multiprocessing")
for n in("Queue", "JoinableQueue", "SimpleQueue"): setattr(fmp, n, Queue)
fmp.Process = Process; fmp.get_context = lambda *a: fmp; fmp.cpu_count = lambda: 2; fmp.set_start_method = lambda *a, **k: None
def load():
    """the binding's modules, from the current tree"""
    sys.modules["ctypes"], sys.modules["multiprocessing"] = fake, fmp
    try:
        d = os.path.join(REPO, "src/python/centaurus")
        for m in [k for k in sys.modules if k.split(".")[0] == "centaurus"]: del sys.modules[m]
        sp = importlib.util.spec_from_file_location("centaurus", d + "/__init__.py", submodule_search_locations=[d]); p = importlib.util.module_from_spec(sp); sys.modules["centaurus"] = p; sp.loader.exec_module(p)
        return sys.modules["centaurus.listener"], sys.modules["centaurus.context"], sys.modules["centaurus.corelib"]
    finally: sys.modules["ctypes"], sys.modules["multiprocessing"] = real_ctypes, __import__("multiprocessing") if False else REALMP
REALMP = sys.modules.get("multiprocessing")
if REALMP is None: import multiprocessing as REALMP
# ---- what the native side does
class BaseLib:
    def GrammarCreate(s, f): return 1
    def GrammarDestroy(s, g): pass
    def GrammarEnumMachines(s, g, cb):
        for i, n in enumerate(NAMES): cb(n, i + 1)
    def GrammarOptimize(s, g): pass
    def GrammarPrint(s, *a): pass
    def ParserCreate(s, g, dry): return 2
    def ParserDestroy(s, p): pass
    def ChaserCreate(s, g): return 3
    def ChaserDestroy(s, p): pass
class Entry:
    def __init__(self, id, start, end): self.id, self.start, self.end = id, start, end
class Value:
    """an opaque result of a handler; its truth and its equality to others are open"""
    def __init__(self, n): self.n = n
    def __bool__(self): return bool(EN.choose("truth", 2))
    def __eq__(self, o): return True if o is self else bool(EN.choose("equal", 2))
    def __len__(self): return EN.choose("len", 2)
    __hash__ = object.__hash__
class Node:
    def __init__(self): self.kids = []; self.par = None; self.val = None; self.done = False; self.id = 1; self.start = self.end = 0
def tree(en, n):
    T = []; marks = []; st = []
    while True:
        if not st:
            if T: break
            op = True
        elif len(T) == n: op = False
        elif len(st) == 1: op = True
        else: op = bool(en.choose("open", 2))
        if op:
            x = Node(); x.par = st[-1] if st else None
            if st: st[-1].kids.append(x)
            st.append(x); T.append(x); marks.append((x, True))
        else: x = st.pop(); marks.append((x, False))
    return T, marks
CUR = [None]
class Chunks:
    """A trace cut into chunks, reduced as the native runners do it: the instances inside a chunk by the chunk's worker, the others by the final stage."""
    def __init__(self, marks, cuts):
        self.c = [[]]
        for i, m in enumerate(marks):
            if i in cuts: self.c.append([])
            self.c[-1].append(m)
        at = {}
        for k, c in enumerate(self.c):
            for x, o in c: at[(x, o)] = k
        self.inner = {x: at[(x, True)] == at[(x, False)] for x, o in marks}; self.at = at
    def stage2(self, k, cb):
        for x, o in self.c[k]:
            if not o and self.inner[x]: self.call(x, cb, 0)
    def call(self, x, cb, queued):
        n = sum(1 for y in x.kids if y.val is not None); self.node = x; CUR[0] = self; x.ret = cb(Ptr([Entry(x.id, x.start, x.end)]), Ptr([queued]), n)
        EN.ensure(x.done, "the handler of every instance is called"); EN.ensure(x.ret == (0 if x.val is None else 1), "the number of values a reduction adds")
        if not x.done: EN.kill()
    def stage3(self, cb, xfer):
        queued = 0
        for k, c in enumerate(self.c):
            xfer(k)
            for x, o in c:
                if o: continue
                if self.inner[x]:  # a value is handed over if nothing in the chunk has used it
                    if k > 0 and x.val is not None and (x.par is None or not self.inner[x.par]): queued += 1
                else: self.call(x, cb, queued); queued = 0
class Handler:
    """handlers of rules A and B and one for all others"""
    def __init__(self, cur, vals, win): self.cur, self.vals, self.win = cur, vals, win
    def parseA(self, ctx): return self.h(0, ctx)
    def parseB(self, ctx): return self.h(1, ctx)
    def defaultact(self, ctx): return self.h(2, ctx)
    def h(self, k, ctx):
        x = self.cur(); en = EN
        if not en.ensure(not x.done, "the handler of an instance is called once"): en.kill()
        x.done = True; en.ensure(expr(x.id) == k + 1, "the handler of the instance's own rule"); want = [y.val for y in x.kids if y.val is not None]
        en.ensure(all(y.done for y in x.kids), "children come before their parents"); en.ensure(len(ctx) == len(want), "the number of child values"); got = list(ctx); en.ensure(len(got) == len(want) and all(a is b for a, b in zip(got, want)), "the child values in order")
        for i in range(len(want)): en.ensure(ctx[i] is want[i], "a child value by its number")
        for t in(ctx.read(), ctx.readbytes()): en.ensure(z3.And(expr(t.start) == expr(self.win) + expr(x.start), expr(t.n) == expr(x.end) - expr(x.start)) if not isinstance(t.start, int) or not isinstance(t.n, int) else t.start == self.win + x.start and t.n == x.end - x.start, "the text of the instance")
        x.val = self.vals(); return x.val
def newval(en, tag=[0]):
    if en.choose("result", 2) == 0: return None
    tag[0] += 1; return Value(tag[0])
def trace(n, ids):
    def f(en):
        global LIB, EN, SCHED
        EN, LIB, SCHED = en, BaseLib(), None; li, cx, co = MODS; T, marks = tree(en, 1 + en.choose("instances", n))
        cuts = {i for i in range(1, len(marks)) if en.choose("cut", 2)}
        for x in T:
            x.id = en.fresh("rule", 1, ids); x.start = en.fresh("start", 0, 2**48 - 1); x.end = en.fresh("end", 0, 2**48 - 1); en.assume(x.start <= x.end) if not isinstance(x.start, int) else None
        ch = Chunks(marks, cuts); win = en.fresh("window", 1, 2**47); nb = len(ch.c) + 1; chan = tuple(Queue() for _ in range(nb)); bank = lambda k: (k * 2 + 1) % nb if nb % 2 else (nb - 1 - k)
        g = co.Grammar("g"); h = Handler(lambda: ch.node, lambda: newval(en), win)
        # one worker takes all chunks, or each chunk has its own, in any order
        order = list(range(len(ch.c))); one = en.choose("workers", 2); order = order if not en.choose("backwards", 2) else order[::-1]; a2 = None
        for k in order:
            if a2 is None or not one: a2 = li.Stage2ListenerAdapter(g, h, chan, win)
            red, xf = co.ReductionListener(a2.reduction_callback), co.TransferListener(a2.transfer_callback); xf(-1, k); ch.stage2(k, red); xf(bank(k), -1)
            en.ensure(len(chan[bank(k)].d) == 1 and sum(len(c.d) for c in chan) == 1 + order.index(k), "a chunk's values are sent to the channel of its buffer")
        a3 = li.Stage3ListenerAdapter(g, h, chan, win); red, xf = co.ReductionListener(a3.reduction_callback), co.TransferListener(a3.transfer_callback); ch.stage3(red, lambda k: xf(bank(k), k))
        en.ensure(all(x.done for x in T), "every instance is reduced"); en.ensure(all(not c.d for c in chan), "every channel is emptied"); en.reach("reduced"); en.obs.append(len(cuts))
    return f
def step(chunks, size, calls):
    def f(en):
        global LIB, EN, SCHED
        EN, LIB, SCHED = en, BaseLib(), None; li, cx, co = MODS; nc = 1 + en.choose("chunks", chunks); have = []; queued = []; chan = tuple(Queue() for _ in range(nc)); vals = [[Value((k, i)) for i in range(en.choose("values", size + 1))] for k in range(nc)]
        cur = {}
        class H:
            def defaultact(s, ctx): cur["n"] = len(ctx); cur["v"] = [ctx[i] for i in range(cur["n"])]; cur["l"] = list(ctx); return cur["r"]
        a = li.Stage3ListenerAdapter(co.Grammar("g"), H(), chan, 0); red, xf = co.ReductionListener(a.reduction_callback), co.TransferListener(a.transfer_callback)
        left = calls; tot = 0
        for k in range(nc):
            chan[k].put(list(vals[k])); xf(k, k)
            if k == 0: have += vals[0]
            else: queued += vals[k]
            for _ in range(en.choose("calls", left + 1)):
                left -= 1; s = en.fresh("queued", 0, len(queued)); n = en.fresh("children", 0, 10**6); en.assume(n <= s + len(have)) if not isinstance(s + len(have) - n, int) else None
                cur.clear(); r = Value(("r", left)) if en.choose("result", 2) else None; cur["r"] = r; ret = red(Ptr([Entry(1, 0, 0)]), Ptr([s]), n)
                if not en.ensure("n" in cur, "the handler is called"): en.kill()
                si, ni = int(s), int(n); have += queued[:si]; del queued[:si]; want = have[len(have) - ni:]; del have[len(have) - ni:]
                en.ensure(cur["n"] == ni, "the number of child values"); en.ensure(len(cur["v"]) == ni and all(p is q for p, q in zip(cur["v"], want)) and len(cur["l"]) == ni and all(p is q for p, q in zip(cur["l"], want)), "the child values in order"); en.ensure(ret == (r is not None), "the number of values a reduction adds")
                if r is not None: have.append(r)
                tot += 1
        en.reach("reduced" if tot else "none"); en.obs.append(tot)
    return f
class Hist(BaseLib):
    """The shared memory of one master process and the runners on it."""
    def __init__(self, en, pid): self.en, self.pid, self.mem, self.h, self.files = en, pid, None, {}, {}; self.nh = 10
    def new(self, **k): self.nh += 1; self.h[self.nh] = types.SimpleNamespace(**k); return self.nh
    def Stage1RunnerCreate(s, f, p, size, num):
        s.en.ensure(p == 2, "the parser is passed on"); s.en.ensure(s.mem is None, "a parse sets up its memory when no other is in use")
        d = s.files[f.decode() if isinstance(f, bytes) else f]; s.mem = types.SimpleNamespace(file=f, size=size, num=num, ch=d["ch"], d=d, state=["new"] * len(d["ch"].c), bank=[None] * num, done=False, users=0); return s.new(kind=1, mem=s.mem)
    def fill(s, m):
        for k, st in enumerate(m.state):
            if st == "new":
                b = k % m.num
                if m.bank[b] is None: m.bank[b] = k; m.state[k] = "filled"
                else: break
    def open(s, kind, f, size, num, pid):
        m = s.mem; s.en.ensure(pid == s.pid, "workers look for their master's memory")
        if not s.en.ensure(m is not None, "the memory of a parse is there when a worker opens it"): s.en.kill()
        s.en.ensure(m.file == f and m.size == size and m.num == num, "all participants work on the same file and the same buffers"); return s.new(kind=kind, mem=m)
    def Stage2RunnerCreate(s, f, size, num, pid): return s.open(2, f, size, num, pid)
    def Stage3RunnerCreate(s, f, size, num, pid): return s.open(3, f, size, num, pid)
    def RunnerRegisterListener(s, h, a, b): s.h[h].cb, s.h[h].xf = a, b
    def RunnerGetWindow(s, h): return s.win
    def RunnerStart(s, h):
        r = s.h[h]; r.started = True
        if r.kind == 1: r.mem.go = True; s.fill(r.mem)
    def RunnerDestroy(s, h):
        if s.h.get(h) is None: return
        r = s.h.pop(h)
        if r.kind == 1:
            if s.mem is r.mem: s.mem = None
    def RunnerWait(s, h):
        r = s.h[h]; m = r.mem; s.en.ensure(getattr(r, "started", False), "a runner is started before it is waited for")
        if r.kind == 1: SCHED.wait(lambda: m.done)
        elif r.kind == 2:
            while True:
                SCHED.wait(lambda: m.done or "filled" in m.state)
                if m.done: break
                k = m.state.index("filled"); m.state[k] = "busy"; r.xf(-1, k); m.ch.stage2(k, r.cb); r.xf(k % m.num, -1); m.state[k] = "reduced"; SCHED.pause()
        else:
            def nxt(k):
                if k: s.free(m, k - 1)
                SCHED.wait(lambda: m.state[k] == "reduced"); r.xf(k % m.num, k)
            m.ch.stage3(r.cb, nxt); s.free(m, len(m.state) - 1); m.done = True
    def free(s, m, k): m.state[k] = "free"; m.bank[k % m.num] = None; s.fill(m)
def history(parses, workers, cuts, restart, delays=1000):
    def f(en):
        global LIB, EN, SCHED
        EN = en; li, cx, co = MODS; LIB = Hist(en, os.getpid()); SCHED = Sched(en, delays); win = LIB.win = en.fresh("window", 1, 2**47)
        try:
            for i in range(parses):
                T, marks = [], []; root = Node(); a, b = Node(), Node(); a.par = b.par = root; root.kids = [a, b]; root.id, a.id, b.id = 1, 2, 3; T = [root, a, b]; marks = [(root, True), (a, True), (a, False), (b, True), (b, False), (root, False)]
                for k, x in enumerate(T): x.start = en.fresh("start", 0, 2**48 - 1); x.end = en.fresh("end", 0, 2**48 - 1)
                LIB.files["f%d" % i] = dict(T=T, ch=Chunks(marks, cuts[i]), fin=None)
            class Hd:
                def defaultact(s, ctx):
                    x = CUR[0].node
                    if not en.ensure(CUR[0] is LIB.mem.ch and not x.done, "handlers are called once for each instance of the current text"): en.kill()
                    x.done = True; want = [y.val for y in x.kids if y.val is not None]; got = list(ctx); en.ensure(len(got) == len(want) and all(p is q for p, q in zip(got, want)), "the child values in order"); t = ctx.readbytes(); en.ensure(t.start == win + x.start, "the text of the instance"); en.ensure(t.n == x.end - x.start, "the text of the instance"); x.val = ("v", id(x)); return x.val
            c = cx.Context("g"); c.attach(Hd()); w = 1 + en.choose("workers", workers); 
            for rnd in range(1 + (restart and en.choose("restart", 2))):
                c.start(w)
                for i in range(rnd, parses if not restart else rnd + 1):
                    r = c.parse("f%d" % i); d = LIB.files["f%d" % i]; en.ensure(r is d["T"][0].val, "the final value is what the parse returns"); en.ensure(all(x.done for x in d["T"]), "every instance is reduced before the parse returns")
                c.stop()
            en.ensure(LIB.mem is None, "the memory of the last parse is given back"); en.reach("reduced"); en.obs.append(SCHED.log)
        finally: SCHED.end(); SCHED = None
    return f
def layouts(en):
    """the structure passed to the reduction callback, as both sides declare it: any bytes read the same through either"""
    global EN; EN = en; li, cx, co = MODS; off, f, al = 0, {}, 1
    for n, t in co.SymbolEntry._fields_:
        sz = real_ctypes.sizeof(getattr(real_ctypes, t.__name__)); off = (off + sz - 1) // sz * sz; f[n] = (off, sz); off += sz
    by = [en.fresh("byte", 0, 255) for _ in range(max(off, max(o + z for o, z in CPP.values())))]
    def rd(o, sz): return sum((by[o + k] * 256 ** k for k in range(sz)), 0)
    idp = rd(*CPP["id"]); en.assume(idp <= 32767) if not isinstance(idp, int) else None
    for n in("id", "start", "end"): en.ensure(rd(*f[n]) == rd(*CPP[n]), "the binding reads %s where the library puts it" % n)
    en.reach("reduced")
def main():
    global MODS, CPP
    a = dict(zip(sys.argv[1::2], sys.argv[2::2])); tier = a.get("--tier", "quick"); d = tier != "quick"; out = a.get("--out"); only = a.get("--run"); rp = a.get("--replay"); lim = float(a.get("--limit", "400"))
    CPP = json.loads(a.get("--layout", '{"id":[0,8],"start":[8,8],"end":[16,8]}')); import logging; logging.disable(logging.CRITICAL); MODS = load(); sys.path.insert(0, ".")
    runs = [("pt", "whole traces", trace(4 if d else 3, 3 if d else 2)), ("ps", "final stage, unrestricted counts", step(3 if d else 2, 2, 3 if d else 2)), ("pl", "structure layout", layouts), ("ph", "several parses, one text after the other", history(3 if d else 2, 2 if d else 1, [{2, 3}, {1, 2, 4}, set()], False)), ("pw", "two workers, two parses", history(2, 2, [{3}, set()], False, 6 if d else 4)), ("pr", "stopping and starting again", history(2, 1, [{2}, {3}], True))]
    if rp:
        m = json.load(open(rp)); f = dict((n, g) for n, w, g in runs)[m["run"]]; en = Engine(replay=[tuple(x) for x in m["model"]]); en.begin([]); 
        try: f(en)
        except Dead: pass
        for v, _ in en.violations: print("REPLAY-VIOLATION", v)
        print("OBS", [conc(en, o) for o in en.obs]); return 1 if en.violations else 0
    res = []
    for n, w, f in runs:
        if only and n != only: continue
        t = time.time(); en = Engine(); ok = en.explore_all(f, lim, int(os.environ.get('SYMX_JOBS', '8'))); res.append(dict(run=n, what=w, complete=ok, stats=en.stats, reached=en.reached, violations=[dict(msg=v, model=m) for v, m in en.violations], samples=[dict(model=m, obs=o) for m, o in en.samples], wall_s=round(time.time() - t, 2)))
    if out: json.dump(res, open(out, "w"))
    else:
        for r in res: print(r["run"], r["complete"], r["stats"], r["reached"], r["violations"][:1], r["wall_s"])
    return 0
if __name__ == "__main__": sys.exit(main())

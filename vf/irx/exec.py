"""Symbolic execution of LLVM IR: one path at a time, z3 decides branches, obligations and memory bounds."""
import time
import z3
from . import lia, linr, logr
from .terms import *
from .terms import _asbv, _ev2
from . import terms as tm
from .llparse import Module, Ty, PTR, I, sx

BASE = 0x10000
SB = 42	# bits of an address within its object
SMASK = (1 << SB) - 1


class Inconclusive(Exception):
    pass


class ForkRetry(Exception):
    def __init__(self, cond):
        self.cond = cond


class NeedFP(Exception):
    pass


FPOPS = {"fadd", "fsub", "fmul", "fdiv", "u2f", "s2f", "f2u", "f2s", "fneg", "fabs"}


class PathEnd(Exception):
    pass


class Violation(Exception):
    def __init__(self, kind, msg, cond=None):
        self.kind, self.msg, self.cond = kind, msg, cond


class Obj:
    __slots__ = ("slot", "size", "kind", "freed", "ro", "cells", "layers", "default", "owner", "name", "align")

    def __init__(self, slot, size, kind, owner, name="", default="uninit", ro=False):
        self.slot, self.size, self.kind, self.owner, self.name = slot, size, kind, owner, name
        self.freed = False
        self.ro = ro
        self.cells = {}
        self.layers = ()
        self.default = default
        self.align = 16

    def clone(self, owner):
        o = Obj.__new__(Obj)
        o.slot, o.size, o.kind, o.freed, o.ro = self.slot, self.size, self.kind, self.freed, self.ro
        o.cells = dict(self.cells)
        o.layers, o.default, o.name, o.align = self.layers, self.default, self.name, self.align
        o.owner = owner
        return o

    @property
    def base(self):
        return (self.slot << SB) + BASE


class Frame:
    __slots__ = ("fn", "regs", "blk", "i", "prev", "ret", "allocas", "va")

    def __init__(self, fn, ret):
        self.fn, self.regs, self.blk, self.i, self.prev, self.ret = fn, {}, fn.entry, 0, None, ret
        self.allocas = []
        self.va = ()

    def clone(self):
        f = Frame.__new__(Frame)
        f.fn, f.regs, f.blk, f.i, f.prev, f.ret = self.fn, dict(self.regs), self.blk, self.i, self.prev, self.ret
        f.allocas = list(self.allocas)
        f.va = self.va
        return f


class State:
    def __init__(self):
        self.frames = []
        self.mem = {}
        self.pc = []
        self.facts = set()
        self.model = None
        self.inputs = []
        self.nslot = 0
        self.nv = 0
        self.heap = 0
        self.notes = {}
        self.depth = 0
        self.owner = object()

    def clone(self):
        s = State()
        self.owner = object()       # neither side may change the shared objects in place any more
        s.frames = [f.clone() for f in self.frames]
        s.mem = dict(self.mem)
        s.pc = list(self.pc)
        s.facts = set(self.facts)
        s.model = self.model
        s.inputs = list(self.inputs)
        s.nslot, s.nv, s.heap, s.depth = self.nslot, self.nv, self.heap, self.depth
        s.notes = dict(self.notes)
        return s

    def wobj(self, slot):
        o = self.mem[slot]
        if o.owner is not self.owner:
            o = o.clone(self.owner)
            self.mem[slot] = o
        return o


def ptr(slot):
    return const((slot << SB) + BASE, 64)


class Engine:
    def __init__(self, mod, deadline=None, qtimeout=30, maxsteps=None, maxpaths=None, checks=True):
        self.m = mod
        self.deadline = deadline
        self.qtimeout = qtimeout
        self.resetsolver()
        self.stats = dict(paths=0, queries=0, solver_s=0.0, steps=0, forks=0, obligations=0, syntactic=0, unsat=0, sat=0, lia=0, lra=0)
        self.pos = {}
        self.violations = []
        self.reached = set()
        self.fnsused = set()
        self.builtins = {}
        self.stop_first = True
        self.maxpaths = maxpaths
        from . import builtins
        builtins.install(self)
        self.ops = {k[3:]: getattr(self, k) for k in dir(self) if k.startswith("op_")}

    # --- solver --------------------------------------------------------------------------
    def mksolver(self, timeout):
        s = z3.Solver()
        s.set("timeout", int(timeout * 1000))
        return s

    fpmode = False

    def enter(self, t, push):
        """assert a term: new applications of uninterpreted functions come with their consistency constraints"""
        if push:
            self.solver.push()
        new = order([t], self.zseen)
        mine = []
        for x in new:
            self.zseen[x] = None
            op = x.op
            if op == "uf":
                k = (x.args[0], len(x.args), x.w)
                l = self.zapps.setdefault(k, [])
                for y in l:
                    c = TRUE
                    for u, v in zip(x.args[1:], y.args[1:]):
                        c = and_(c, eq(u, v)) if u.w == v.w else FALSE
                        if c is FALSE:
                            break
                    if c is not FALSE:
                        self.solver.add(z3b(or_(not_(c), eq(x, y))))
                l.append(x)
                mine.append(k)
            elif not self.fpmode and (op[0] == "f" and op in FPOPS or op in FPOPS or op.startswith("fcmp")):
                self.undo(new, mine)
                raise NeedFP()
        self.solver.add(z3b(t))
        return new, mine

    def undo(self, new, mine):
        for x in new:
            self.zseen.pop(x, None)
        for k in reversed(mine):
            self.zapps[k].pop()

    def sync(self, pc):
        st = self.stack
        n = 0
        while n < len(st) and n < len(pc) and st[n][0] is pc[n]:
            n += 1
        if len(st) > n:
            self.solver.pop(len(st) - n)
            for c, new, mine in reversed(st[n:]):
                self.undo(new, mine)
            del st[n:]
        for c in pc[n:]:
            new, mine = self.enter(c, True)
            st.append((c, new, mine))

    def resetsolver(self):
        self.solver = self.mksolver(self.qtimeout)
        self.stack = []
        self.zseen, self.zapps = {}, {}

    def big(self, ts, lim=4000):
        seen, stack = set(), list(ts)
        while stack:
            x = stack.pop()
            if x in seen:
                continue
            seen.add(x)
            if len(seen) > lim:
                return True
            stack.extend(subterms(x))
        return False

    def guessed(self, pc, extra, guess, few=False):
        """a valuation satisfying pc and extra, looked for among variations of one that satisfies pc"""
        import random
        t0 = time.time()
        fixed = set(order(list(pc), {})) if pc else ()
        names = {x.args[0] for x in fixed if x.op == "v"}

        class Tab(dict):
            def get(self, k, d=None):
                if k not in self:
                    self[k] = rnd.getrandbits(64)
                return self[k]

        for k in range(6 if few else 30):
            rnd = random.Random(k)
            env = Env({n: guess.vals.get(n, 0) for n in names}, {}, lambda n, w: rnd.getrandbits(w))
            for x in fixed:
                if x.op == "uf":
                    t = env.ufs.setdefault(x.args[0], (Tab(), 0))
                    t[0][tuple(guess.ev(y) for y in x.args[1:])] = guess.ev(x)
            for x in order(list(extra), {}):
                if x.op == "uf":
                    env.ufs.setdefault(x.args[0], (Tab(), 0))
            if all(env.ev(e) for e in extra) and all(env.ev(e) for e in pc):
                return env
            if time.time() - t0 > 20:
                break
        if few:
            return None
        # a rare case: make a condition inside the terms come out the other way
        conds = sorted({x.args[0] for x in order(list(extra), {}) if x.op == "ite"}, key=lambda x: x.id)[:24]
        for c in conds:
            if time.time() - t0 > 40:
                break
            s = z3.SolverFor("QF_BV")
            s.set("timeout", 1500)
            for p in pc + [not_(c) if guess.ev(c) else c]:
                s.add(z3b(p))
            if s.check() != z3.sat:
                continue
            m = s.model()
            vals = {d.name(): m[d] for d in m.decls()}
            vals = {n: v.as_long() if z3.is_bv_value(v) else int(z3.is_true(v)) for n, v in vals.items()}
            if any(n.startswith("uf!") for n in vals):
                continue
            for k in range(3):
                rnd = random.Random(k)
                env = Env(dict(vals), {}, lambda n, w: rnd.getrandbits(w))
                if all(env.ev(e) for e in extra) and all(env.ev(e) for e in pc):
                    return env
        return None

    def query(self, pc, extra, guess=None):
        """sat under pc and extra: an Env, or None when unsat"""
        if self.deadline and time.time() > self.deadline:
            raise Inconclusive("time limit")
        t0 = time.time()
        if guess is not None and not self.fpmode and not self.fpabs and self.big(extra):
            # before the solver has to digest a large formula
            env = self.guessed(pc, extra, guess, True)
            if env is not None:
                self.stats["queries"] += 1
                self.stats["sat"] += 1
                self.stats["solver_s"] += time.time() - t0
                return env
        while True:
            tmp = []
            try:
                self.sync(pc)
                self.solver.push()
                for e in extra:
                    tmp.append(self.enter(e, False))
                break
            except NeedFP:
                self.fpmode = True
                self.resetsolver()
        self.solver.set("timeout", 150)
        r = self.solver.check()
        if r == z3.unknown:
            if lia.unsat(pc, extra):
                r = z3.unsat
                self.stats["lia"] += 1
            else:
                env = self.guessed(pc, extra, guess) if guess is not None and not self.fpmode and not self.fpabs else None
                if env is not None:
                    self.solver.pop()
                    for new, mine in reversed(tmp):
                        self.undo(new, mine)
                    self.stats["queries"] += 1
                    self.stats["sat"] += 1
                    self.stats["solver_s"] += time.time() - t0
                    return env
                self.solver.set("timeout", int(self.qtimeout * 1000))
                r = self.solver.check()
        env = self.toenv(self.solver.model()) if r == z3.sat else None
        why = self.solver.reason_unknown() if r == z3.unknown else ""
        if r != z3.unsat and self.pos and logr.hasfp(list(extra) + pc):
            if logr.check(pc, extra, self.pos, logr.Facts(self.cur.facts))[0] == z3.unsat:
                r, env = z3.unsat, None
                self.stats["lra"] += 1
            elif self.lin and linr.check(pc, extra, self.pos)[0] == z3.unsat:
                r, env = z3.unsat, None
                self.stats["lra"] += 1
        if r == z3.unknown and not (self.deadline and time.time() > self.deadline):
            s = z3.SolverFor("QF_BV" if not self.fpmode else "QF_FPBV")
            s.set("timeout", int(self.qtimeout * 2000))
            for a in self.solver.assertions():
                s.add(a)
            r = s.check()
            if r == z3.sat:
                env = self.toenv(s.model())
        self.solver.pop()
        for new, mine in reversed(tmp):
            self.undo(new, mine)
        dt = time.time() - t0
        self.stats["queries"] += 1
        self.stats["solver_s"] += dt
        if self.trace and dt > self.trace:
            import sys
            if __import__('os').environ.get('IRX_DUMP'):
                s2 = z3.Solver()
                self.sync(pc)
                for e in extra:
                    s2.add(z3b(e))
                s2.add(self.solver.assertions())
                open("/tmp/slow_%d.smt2" % self.stats["queries"], "w").write(s2.to_smt2())
            print("slow query %.1fs %s: %s" % (dt, r, [show(z, 6)[:1500] for z in extra]), file=sys.stderr)
        if r == z3.unknown:
            raise Inconclusive("solver gave up: " + str(why))
        self.stats["sat" if r == z3.sat else "unsat"] += 1
        return env

    def toenv(self, m):
        vals, byid = {}, {}
        for d in m.decls():
            n = d.name()
            v = m[d]
            if z3.is_bv_value(v):
                v = v.as_long()
            else:
                v = int(z3.is_true(v))
            if n.startswith("uf!"):
                byid[int(n[3:])] = v
            else:
                vals[n] = v
        env = Env(vals, {})
        for k, l in self.zapps.items():
            env.ufs.setdefault(k[0], ({}, 0))
        for x in sorted((x for l in self.zapps.values() for x in l), key=lambda x: x.id):
            env.ufs[x.args[0]][0][tuple(env.ev(y) for y in x.args[1:])] = byid.get(x.id, 0)
        return env

    def ensure_model(self, st):
        if st.model is None:
            st.model = self.query(st.pc, [])
            if st.model is None:
                raise PathEnd()
        return st.model

    def known(self, st, c):
        """True / False when pc implies c / not c; None when both are possible"""
        if c.op == "c":
            return bool(cv(c))
        if c in st.facts:
            return True
        n = not_(c)
        if n in st.facts:
            return False
        v = self.ensure_model(st).ev(c)
        if self.query(st.pc, [n] if v else [c]) is None:
            st.facts.add(c if v else n)
            return bool(v)
        if self.pos and logr.hasfp([c] + (st.pc if self.lin else [])) and self.query(st.pc, [c] if v else [n]) is None:
            st.facts.add(n if v else c)
            return not v
        return None

    tainted = {}

    def secret(self, t):
        """does the term contain bytes of a secret array?"""
        d = self.tainted
        if t not in d:
            for x in order([t], d):
                d[x] = (x.op == "uf" and x.args[0].startswith("secret")) or any(d[y] for y in subterms(x))
        return d[t]

    def released(self, st, o):
        if not st.notes.get("watch"):
            return
        for lay in (o.cells,) + tuple(l for l in o.layers if isinstance(l, dict)):
            for k, (t, i) in lay.items():
                if t.op != "c" and self.secret(t):
                    x = self.rdbyte(st, o, const(k, 64))
                    if x.op == "c" or not self.secret(x):
                        continue
                    self.obligation(st, eq(x, const(0, 8)), "secret", "storage is released holding secret bytes (%s offset %d)" % (o.name, k))

    def proved(self, st, c):
        """pc implies c (an undecided solver counts as no)"""
        if c.op == "c":
            return bool(cv(c))
        if c in st.facts:
            return True
        if not self.ensure_model(st).ev(c):
            return False
        try:
            return self.must(st, c)[0]
        except Inconclusive:
            if self.deadline and time.time() > self.deadline:
                raise
            return False

    def must(self, st, c):
        """pc implies c?  Otherwise an Env falsifying it is returned as (False, env)"""
        if c.op == "c":
            return (True, None) if cv(c) else (False, self.ensure_model(st))
        if c in st.facts:
            return True, None
        md = self.ensure_model(st)
        if not md.ev(c) and not (self.pos and logr.hasfp([c] + (st.pc if self.lin else []))):
            return False, md
        env = self.query(st.pc, [not_(c)], md)
        if env is None:
            st.facts.add(c)
            return True, None
        return False, env

    def refined(self, st, c, env):
        """a falsifying Env in which the floating-point inputs fit, where one is found"""
        if not self.fpabs or not logr.hasfp([c] + st.pc):
            return env
        if not self.pos:
            return self.exactfp(st, [not_(c)]) or env
        if self.lin:
            eqs = linr.refine(st.pc, [not_(c)], self.pos)
            if eqs is not None:
                r = self.query(st.pc, [not_(c)] + eqs)
                if r is not None:
                    return r
        eqs = logr.refine(st.pc, [not_(c)], self.pos, logr.Facts(st.facts), self.query)
        if eqs is None:
            return env
        return self.query(st.pc, [not_(c)] + eqs) or env

    def exactfp(self, st, extra, timeout=40):
        """a model in which the abstracted floating-point operations have their IEEE values (None when none is found)"""
        s = z3.Solver()
        s.set("timeout", timeout * 1000)
        self.sync(st.pc)
        self.solver.push()
        tmp = [self.enter(e, False) for e in extra]
        for a in self.solver.assertions():
            s.add(a)
        for x in list(self.zseen):
            if logr.isfp(x):
                y = tm.mk(logr.fpname(x), x.args[1:], x.w)
                s.add(z3b(x) == z3b(y) if x.w == 1 else _asbv(z3t(x)) == _asbv(z3t(y)))
        self.solver.pop()
        for new, mine in reversed(tmp):
            self.undo(new, mine)
        return self.toenv(s.model()) if s.check() == z3.sat else None

    def assume(self, st, c):
        if c.op == "c":
            if not cv(c):
                raise PathEnd()
            return
        if c in st.facts:
            return
        md = st.model
        if md is None or not md.ev(c):
            md = self.query(st.pc, [c])
            if md is None:
                raise PathEnd()
        self.addpc(st, c, md)

    def addpc(self, st, c, md):
        if c.op == "and":
            for x in c.args:
                if x not in st.facts:
                    st.pc.append(x)
                    st.facts.add(x)
        else:
            st.pc.append(c)
            st.facts.add(c)
        st.model = md
        st.depth += 1

    # --- violations ------------------------------------------------------------------------
    def report(self, st, kind, msg, env):
        fr = st.frames[-1]
        where = "%s:%s" % (fr.fn.name, fr.blk)
        vals = []
        for t in st.inputs:
            if t[0] == "arr":
                tab, dflt = env.ufs.get(t[1], ({}, 0))
                if callable(tab):
                    tab = {}
                ent = sorted((k[0], v) for k, v in tab.items() if k[0] < (1 << 24))
                vals.append(("arr", t[1], dflt, ent))
            else:
                vals.append((t[0], env.ev(t[1])))
        self.violations.append(dict(kind=kind, msg=msg, where=where, inputs=vals,
                                    stack=[f.fn.name for f in st.frames]))

    def obligation(self, st, c, kind, msg):
        """c must hold on this path"""
        self.stats["obligations"] += 1
        if c.op == "c" and cv(c):
            self.stats["syntactic"] += 1
            return
        ok, env = self.must(st, c)
        if not ok:
            self.report(st, kind, msg, self.refined(st, c, env))
            if self.stop_first:
                raise Violation(kind, msg)
            self.assume(st, c)

    # --- memory ----------------------------------------------------------------------------
    def alloc(self, st, size, kind, name="", default="uninit", align=16):
        st.nslot += 1
        slot = 0x10000 + st.nslot
        if not isinstance(size, T):
            size = const(size, 64)
        o = Obj(slot, size, kind, st.owner, name, default)
        o.align = align
        st.mem[slot] = o
        return ptr(slot)

    def depick(self, st, p):
        """replace choices in a pointer that this path has decided"""
        while p.op != "c":
            c, its = lin(p)
            new = None
            for k, x in its:
                if x.op == "ite":
                    g = x.args[0]
                    if g in st.facts:
                        y = x.args[1]
                    elif not_(g) in st.facts:
                        y = x.args[2]
                    else:
                        continue
                    new = add(const(c, 64), *[mulc(y if z is x else z, j) for j, z in its])
                    break
            if new is None:
                return p
            p = new
        return p

    def decide(self, st, p):
        """a pointer without choices between values (forks as needed)"""
        p = self.depick(st, p)
        if p.op != "c":
            for k, x in lin(p)[1]:
                if x.op == "ite":
                    raise ForkRetry(x.args[0])
        return p

    def resolve(self, st, p, n, write, what="access"):
        """object and offset (T) for an access of n bytes (T or int) at p; checks bounds"""
        if p.op != "c":
            p = self.depick(st, p)
        if p.op == "c":
            v = cv(p)
            slot = v >> SB
        else:
            c, its = lin(p)
            slot = umin(p) >> SB
            if slot and slot == umax(p) >> SB and slot in st.mem:
                its = ()
            else:
                slot = self.ensure_model(st).ev(p) >> SB
            if its == ():
                pass
            elif slot not in st.mem or abs(((c + (1 << (SB - 1))) >> SB) - slot) > 1:
                # not a known base plus an offset: decide choices between pointers first
                for k, x in its:
                    if x.op == "ite":
                        raise ForkRetry(x.args[0])
                for x in order([p], ()):
                    if x.op == "ite" and x.w == 64 and x.args[0] not in st.facts and not_(x.args[0]) not in st.facts:
                        raise ForkRetry(x.args[0])
        o = st.mem.get(slot)
        if o is None:
            self.report(st, "memory", "%s through an invalid pointer" % what, self.ensure_model(st))
            raise Violation("memory", "invalid pointer")
        if o.freed:
            self.report(st, "memory", "%s to freed object %s" % (what, o.name), self.ensure_model(st))
            raise Violation("memory", "use after free")
        if o.ro and write:
            self.report(st, "memory", "write to constant %s" % o.name, self.ensure_model(st))
            raise Violation("memory", "write to constant")
        off = sub(p, const(o.base, 64))
        nt = n if isinstance(n, T) else const(n, 64)
        self.stats["obligations"] += 1
        if off.op == "c" and o.size.op == "c" and nt.op == "c":
            if cv(off) + cv(nt) <= cv(o.size):
                self.stats["syntactic"] += 1
                return o, off
            ok = FALSE
        else:
            ok = and_(ule(nt, o.size), ule(off, sub(o.size, nt)))
        good, env = self.must(st, ok)
        if not good:
            self.report(st, "memory", "%s of %s bytes outside %s (size %s)" % (what, env.ev(nt), o.name or "object", env.ev(o.size)), env)
            if self.stop_first:
                raise Violation("memory", "out of bounds")
            self.assume(st, ok)
        return o, off

    def dflt(self, o, off):
        if o.default == "zero":
            return const(0, 8)
        if isinstance(o.default, tuple):
            return uf(o.default[1], (off,), 8)
        return uf("uninit%d" % o.slot, (off,), 8)

    def rdbyte(self, st, o, off, layers=None, cells=None):
        """one byte at offset off (T)"""
        if cells is None:
            cells = o.cells
            layers = o.layers
        conds, keys = [], set()
        v = None
        lay = cells
        k = len(layers)
        oc = cv(off) if off.op == "c" else None
        while True:
            if isinstance(lay, dict):
                if oc is not None:
                    x = lay.get(oc)
                    if x is not None:
                        v = ext(x[0], 8 * x[1], 8) if x[0].w > 8 else x[0]
                        break
                elif lay:
                    lo, hi = umin(off), umax(off)
                    cand = [(kk, x) for kk, x in lay.items() if lo <= kk <= hi]
                    if len(cand) > 8192:
                        raise Inconclusive("symbolic index over %d cells" % len(cand))
                    # a table: byte-sized runs of constants become one mux
                    for kk, x in sorted(cand):
                        c = eq(off, const(kk, 64))
                        if c is FALSE:
                            continue
                        if c in st.facts:
                            pass
                        val = ext(x[0], 8 * x[1], 8)
                        conds.append((c, val))
                        keys.add(kk)
                        if c is TRUE:
                            break
            else:
                lo, ln, fn = lay
                if oc is not None and lo.op == "c" and ln.op == "c":
                    if cv(lo) <= oc < cv(lo) + cv(ln):
                        v = fn(self, st, const(oc - cv(lo), 64))
                        break
                else:
                    d = sub(off, lo)
                    c = ult(d, ln)
                    kn = self.known(st, c)
                    if kn is True:
                        v = fn(self, st, d)
                        break
                    if kn is None:
                        conds.append((c, fn(self, st, d)))
            if k == 0:
                if oc is None and keys and o.default != "zero" and not isinstance(o.default, tuple):
                    # are all possible offsets accounted for?
                    a, b = min(keys), max(keys)
                    oth = [c for c, _ in conds if not (c.op == "eq" and c.args[0] is off or c.op == "eq" and c.args[1] is off)]
                    if len(keys) == b - a + 1 and len(conds) - len(oth) <= len(keys) and not any(c is conds[-1][0] for c in oth) and \
                            self.proved(st, or_(ult(sub(off, const(a, 64)), const(b - a + 1, 64)), *oth)):
                        v = conds.pop()[1]
                        break
                v = self.dflt(o, off)
                break
            k -= 1
            lay = layers[k]
        for c, x in reversed(conds):
            v = ite(c, x, v)
        return v

    def rdchunk(self, st, o, off, layers, cells, k):
        """k consecutive bytes at offset off; whole-range questions are settled with one query per layer"""
        if off.op == "c" or k == 1:
            return [self.rdbyte(st, o, add(off, const(i, 64)), layers, cells) for i in range(k)]
        n = len(layers)
        lay = cells
        while isinstance(lay, dict) and not lay and n:
            n -= 1
            lay = layers[n]
        if isinstance(lay, dict):
            if lay or n:
                lo, hi = umin(off), umax(off) + k - 1
                if any(lo <= kk <= hi for kk in lay) or hi > ONES[64]:
                    ks = sorted(lay)
                    out = const(ks[-1] + 1, 64), const(ks[0], 64)
                    if not self.proved(st, or_(not_(ult(off, out[0])), and_(ult(off, out[1]), not_(ult(sub(out[1], off), const(k, 64)))))):
                        return [self.rdbyte(st, o, add(off, const(i, 64)), layers[:n], lay) for i in range(k)]
            if n:
                return self.rdchunk(st, o, off, layers[:n - 1], layers[n - 1] if isinstance(layers[n - 1], dict) else {}, k) \
                    if isinstance(layers[n - 1], dict) else self.rdchunk(st, o, off, layers[:n], {}, k)
            return [self.dflt(o, add(off, const(i, 64))) for i in range(k)]
        lo, ln, fn = lay
        d = sub(off, lo)
        a = ult(d, ln)
        if self.ensure_model(st).ev(a):
            if self.proved(st, and_(a, not_(ult(sub(ln, d), const(k, 64))))):
                ch = getattr(fn, "chunk", None)
                if ch:
                    return ch(self, st, d, k)
                return [fn(self, st, add(d, const(i, 64))) for i in range(k)]
        elif self.proved(st, and_(not_(a), ult(d, const(-k + 1, 64)))):
            return self.rdchunk(st, o, off, layers[:n], {}, k)
        return [self.rdbyte(st, o, add(off, const(i, 64)), layers[:n + 1], {}) for i in range(k)]

    def load(self, st, p, n):
        o, off = self.resolve(st, p, n, False, "read")
        return self.loadat(st, o, off, n)

    def loadat(self, st, o, off, n):
        if off.op == "c":
            k = cv(off)
            cells = o.cells
            x = cells.get(k)
            if x is not None:
                t, j = x
                for i in range(1, n):
                    y = cells.get(k + i)
                    if y is None or y[0] is not t or y[1] != j + i:
                        break
                else:
                    return t if (j == 0 and t.w == 8 * n) else ext(t, 8 * j, 8 * n)
            bs = []
            for i in range(n):
                x = cells.get(k + i)
                if x is not None:
                    bs.append(ext(x[0], 8 * x[1], 8))
                else:
                    bs.append(self.rdbyte(st, o, const(k + i, 64)))
            bs.reverse()
            return cat(bs) if n > 1 else bs[0]
        if n % 4 == 0 and not o.layers:
            x = self.loadmux(st, o, off, n)
            if x is not None:
                return x
        bs = self.rdchunk(st, o, off, o.layers, o.cells, n)
        bs.reverse()
        return cat(bs) if n > 1 else bs[0]

    def loadmux(self, st, o, off, n):
        """words at a + k * e for a narrow e: a multiplexer for each 32-bit word"""
        c, its = lin(off)
        if len(its) != 1:
            return None
        k, x = its[0]
        sh = 0
        if x.op == "cat":
            var = [(i, p) for i, p in enumerate(x.args) if p.op != "c"]
            if len(var) != 1:
                return None
            i, e = var[0]
            base = 0
            for p in x.args:
                base = base << p.w | (cv(p) if p.op == "c" else 0)
            sh = sum(p.w for p in x.args[i + 1:])
        else:
            e, base = x, 0
        if e.w > self.muxw:
            return None
        vals = [self.loadat(st, o, const(c + k * (base + (v << sh)), 64), n) for v in range(1 << e.w)]
        out = []
        for w in range(n // 4):
            v = None
            for j in range(len(vals) - 1, -1, -1):
                t = ext(vals[j], 32 * w, 32)
                v = t if v is None else ite(eq(e, const(j, e.w)), t, v)
            out.append(v)
        out.reverse()
        return cat(out) if len(out) > 1 else out[0]

    def store(self, st, p, t):
        n = t.w // 8
        o, off = self.resolve(st, p, n, True, "write")
        o = st.wobj(o.slot)
        self.storeat(st, o, off, t)

    def storeat(self, st, o, off, t):
        n = t.w // 8
        if off.op == "c":
            k = cv(off)
            if n == 1:
                o.cells[k] = (t, 0)
            else:
                for i in range(n):
                    o.cells[k + i] = (t, i)
        else:
            def fn(ex, s, i, t=t, n=n):
                if i.op == "c":
                    return ext(t, 8 * cv(i), 8)
                r = ext(t, 8 * (n - 1), 8)
                for j in range(n - 2, -1, -1):
                    r = ite(eq(i, const(j, 64)), ext(t, 8 * j, 8), r)
                return r
            self.pushrange(o, off, const(n, 64), fn)

    def freeze(self, o):
        """immutable snapshot of the contents"""
        if o.cells:
            o.layers = o.layers + (o.cells,)
            o.cells = {}
        return o.layers

    def pushrange(self, o, lo, ln, fn):
        self.freeze(o)
        o.layers = o.layers + ((lo, ln, fn),)

    def reader(self, st, p, n):
        """bounds-check a read of n (T) bytes at p and return fn(ex, st, i) -> byte"""
        o, off = self.resolve(st, p, n, False, "read")
        if o.owner is not st.owner:
            o = st.wobj(o.slot)
        lay = self.freeze(o)
        if off.op == "c" and n.op != "c" and o.size.op == "c" and lay and isinstance(lay[-1], dict) and cv(o.size) <= 1 << 16:
            # a short stretch of known bytes: a table of exactly those that can be meant
            m = next((k for k in range(1, min(cv(o.size) - cv(off), 128) + 1) if ult(n, const(k + 1, 64)) in st.facts), None)
            if m is not None:
                tab = [self.rdbyte(st, o, const(cv(off) + k, 64), lay, {}) for k in range(m)]

                def tfn(ex, s, i, tab=tab):
                    if i.op == "c":
                        return tab[min(cv(i), len(tab) - 1)]
                    v = tab[-1]
                    for k in range(len(tab) - 2, -1, -1):
                        v = ite(eq(i, const(k, 64)), tab[k], v)
                    return v
                return tfn

        def fn(ex, s, i, o=o, lay=lay, off=off):
            return ex.rdbyte(s, o, add(off, i), lay, {})
        fn.chunk = lambda ex, s, i, k: ex.rdchunk(s, o, add(off, i), lay, {}, k)
        return fn

    def copy(self, st, d, s, n):
        """memmove semantics; n is T"""
        if n.op == "c" and cv(n) == 0:
            return
        if n.op != "c":
            z = self.known(st, eq(n, const(0, 64)))
            if z is None:
                # nothing is accessed when n is zero
                ok = None
            elif z:
                return
        if n.op == "c" and cv(n) <= self.cellmax:
            so, soff = self.resolve(st, s, n, False, "read")
            do, doff = self.resolve(st, d, n, True, "write")
            k = cv(n)
            if soff.op == "c" and doff.op == "c":
                a, b = cv(soff), cv(doff)
                out = []
                for i in range(k):
                    x = so.cells.get(a + i)
                    out.append(x if x is not None else (self.rdbyte(st, so, const(a + i, 64)), 0))
                do = st.wobj(do.slot)
                for i in range(k):
                    do.cells[b + i] = out[i]
                return
            if k <= 64 and doff.op == "c":
                out = self.rdchunk(st, so, soff, so.layers, so.cells, k)
                do = st.wobj(do.slot)
                for i in range(k):
                    do.cells[cv(doff) + i] = (out[i], 0)
                return
        fn = self.reader(st, s, n)
        do, doff = self.resolve(st, d, n, True, "write")
        do = st.wobj(do.slot)
        self.pushrange(do, doff, n, fn)

    def fill(self, st, d, byte, n):
        if n.op == "c" and cv(n) == 0:
            return
        if n.op != "c" and self.known(st, eq(n, const(0, 64))):
            return
        do, doff = self.resolve(st, d, n, True, "write")
        do = st.wobj(do.slot)
        if n.op == "c" and cv(n) <= self.cellmax and doff.op == "c":
            for i in range(cv(n)):
                do.cells[cv(doff) + i] = (byte, 0)
            return
        self.pushrange(do, doff, n, lambda ex, s, i: byte)

    # --- typed access ----------------------------------------------------------------------
    def flat(self, v, ty):
        """value of a first-class type as one term"""
        if isinstance(v, list):
            if ty.k == "<":
                return cat([self.flat(x, ty.e) for x in reversed(v)])
            raise Inconclusive("aggregate store")
        return v

    def unflat(self, t, ty):
        if ty.k == "<":
            w = ty.e.bits
            return [ext(t, i * w, w) for i in range(ty.n)]
        return t

    def loadty(self, st, p, ty):
        if ty.k in ("{", "["):
            if ty.k == "{":
                return [self.loadty(st, add(p, const(o, 64)), e) for o, e in zip(ty.offs, ty.e)]
            return [self.loadty(st, add(p, const(i * ty.e.size, 64)), ty.e) for i in range(ty.n)]
        n = ty.size
        if ty.k == "i" and ty.n % 8:
            return ext(self.load(st, p, n), 0, ty.n)
        if ty.k == "i" and ty.n > 64 and (ty.n // 8) != n:
            return ext(self.load(st, p, ty.n // 8), 0, ty.n)
        return self.unflat(self.load(st, p, n), ty)

    def storety(self, st, p, v, ty):
        if ty.k in ("{", "["):
            if ty.k == "{":
                for o, e, x in zip(ty.offs, ty.e, v):
                    self.storety(st, add(p, const(o, 64)), x, e)
            else:
                for i, x in enumerate(v):
                    self.storety(st, add(p, const(i * ty.e.size, 64)), x, ty.e)
            return
        t = self.flat(v, ty)
        if t.w % 8:
            t = zext(t, (t.w + 7) // 8 * 8)
        self.store(st, p, t)

    # --- start -----------------------------------------------------------------------------
    def initial(self, entry):
        st = State()
        m = self.m
        for n, (ty, init, ro) in m.glob.items():
            slot = m.slot[n]
            o = Obj(slot, const(ty.size, 64), "global", st.owner, n, "zero", ro)
            o.align = max(16, ty.align)
            st.mem[slot] = o
            if init is not None:
                self.initobj(o, 0, init, ty)
        for n in m.fns:
            st.mem[m.slot[n]] = Obj(m.slot[n], const(0, 64), "fn", st.owner, n)
        for n in m.decl:
            st.mem[m.slot[n]] = Obj(m.slot[n], const(0, 64), "fn", st.owner, n)
        f = m.fns[entry]
        st.frames.append(Frame(f, None))
        self.fnsused.add(entry)
        st.model = Env()
        return st

    def initobj(self, o, off, v, ty):
        if isinstance(v, list):
            if ty.k == "{":
                for x, e, d in zip(v, ty.e, ty.offs):
                    self.initobj(o, off + d, x, e)
            elif ty.k == "<":
                t = self.flat(v, ty)
                for i in range(t.w // 8):
                    o.cells[off + i] = (t, i)
            else:
                for i, x in enumerate(v):
                    self.initobj(o, off + i * ty.e.size, x, ty.e)
            return
        t = v if v.w % 8 == 0 else zext(v, (v.w + 7) // 8 * 8)
        if t.op == "c" and cv(t) == 0:
            return
        for i in range(t.w // 8):
            o.cells[off + i] = (t, i)

    # --- running ---------------------------------------------------------------------------
    def run(self, entry="@vf_harness", init=None):
        work = [init or self.initial(entry)]
        self.work = work
        self.finals = []
        try:
            while work:
                st = work.pop()
                self.runpath(st)
                if self.violations and self.stop_first:
                    break
                if self.maxpaths and self.stats["paths"] > self.maxpaths:
                    raise Inconclusive("path limit %d" % self.maxpaths)
        finally:
            self.stats["left"] = len(work)
        return self.violations

    def runpath(self, st):
        self.cur = st
        steps = 0
        ops = self.ops
        try:
            while True:
                fr = st.frames[-1]
                blk = fr.fn.blocks[fr.blk]
                n = len(blk)
                while True:
                    ins = blk[fr.i]
                    steps += 1
                    if steps & 4095 == 0 and self.deadline and time.time() > self.deadline:
                        raise Inconclusive("time limit")
                    try:
                        r = ops[ins.op](st, fr, ins)
                    except ForkRetry as f:
                        self.fork(st, f.cond)
                        continue
                    if r is None:
                        fr.i += 1
                    else:
                        break
                if r == "end":
                    self.stats["paths"] += 1
                    return
        except PathEnd:
            self.stats["paths"] += 1
        except Violation:
            self.stats["paths"] += 1
        finally:
            self.stats["steps"] += steps

    def fork(self, st, c):
        """continue st with c (if possible); queue the other side"""
        md = self.ensure_model(st)
        v = md.ev(c)
        n = not_(c)
        other = n if v else c
        mine = c if v else n
        if mine in st.facts:
            return bool(v)
        env = self.query(st.pc, [other])
        if env is not None and self.pos and logr.hasfp([c] + (st.pc if self.lin else [])) and self.query(st.pc, [mine]) is None:
            # the model's floating-point values are only the abstraction's
            self.addpc(st, other, env)
            return not v
        if env is not None:
            s2 = st.clone()
            self.addpc(s2, other, env)
            self.work.append(s2)
            self.stats["forks"] += 1
            self.addpc(st, mine, md)
        else:
            st.facts.add(mine)
        return bool(v)

    def jump(self, st, fr, lab):
        fr.prev, fr.blk, fr.i = fr.blk, lab, 0
        blk = fr.fn.blocks[lab]
        if blk[0].op == "phi":
            prev, regs = fr.prev, fr.regs
            new = []
            for ins in blk:
                if ins.op != "phi":
                    break
                o = ins.x[prev]
                new.append((ins.res, regs[o[1]] if o[0] == "r" else o[1]))
            for r, v in new:
                regs[r] = v
            fr.i = len(new)
        return "jump"

    # --- instructions ----------------------------------------------------------------------
    def v(self, fr, o):
        return fr.regs[o[1]] if o[0] == "r" else o[1]

    def bin(f):
        def g(self, st, fr, ins):
            a, b = ins.a
            a = fr.regs[a[1]] if a[0] == "r" else a[1]
            b = fr.regs[b[1]] if b[0] == "r" else b[1]
            if isinstance(a, list):
                fr.regs[ins.res] = [f(self, st, x, y, ins) for x, y in zip(a, b)]
            else:
                fr.regs[ins.res] = f(self, st, a, b, ins)
        return g

    op_add = bin(lambda s, st, a, b, i: add(a, b))
    op_sub = bin(lambda s, st, a, b, i: sub(a, b))
    op_mul = bin(lambda s, st, a, b, i: mul(a, b))
    op_and = bin(lambda s, st, a, b, i: and_(a, b))
    op_xor = bin(lambda s, st, a, b, i: xor(a, b))

    def _or(self, st, a, b, ins):
        if "disjoint" in ins.x and a.w > 1:
            if not (tm._zeropart(a) | tm._zeropart(b) == ONES[a.w]):
                return add(a, b)
        return or_(a, b)
    op_or = bin(_or)

    def _div(name):
        def f(self, st, a, b, ins):
            self.obligation(st, not_(eq(b, const(0, b.w))), "ub", "division by zero")
            if name in ("sdiv", "srem") and umax(a) < 1 << (a.w - 1) and umax(b) < 1 << (a.w - 1):
                return binop("u" + name[1:], a, b)
            return binop(name, a, b)
        return f
    op_udiv = bin(_div("udiv"))
    op_urem = bin(_div("urem"))
    op_sdiv = bin(_div("sdiv"))
    op_srem = bin(_div("srem"))

    def _sh(name):
        def f(self, st, a, b, ins):
            if b.op != "c" or cv(b) >= a.w:
                self.obligation(st, ult(b, const(a.w, b.w)), "ub", "shift amount not less than the width")
            if b.op != "c" and a.w <= 64 and self.concretize_shifts:
                k = self.known_value(st, b)
                if k is not None:
                    b = k
            return binop(name, a, b)
        return f
    _shl = bin(_sh("shl"))

    def op_shl(self, st, fr, ins):
        a, b = ins.a
        a = fr.regs[a[1]] if a[0] == "r" else a[1]
        b = fr.regs[b[1]] if b[0] == "r" else b[1]
        if isinstance(a, list) and all(k.op == "c" and cv(k) < k.w for k in b):
            fr.regs[ins.res] = [tm.shlv(x, cv(k)) for x, k in zip(a, b)]
        else:
            self._shl(st, fr, ins)
    op_lshr = bin(_sh("lshr"))
    op_ashr = bin(_sh("ashr"))
    concretize_shifts = False
    trace = float(__import__('os').environ.get('IRX_TRACE', '0'))

    def known_value(self, st, t):
        v = const(self.ensure_model(st).ev(t), t.w)
        return v if self.known(st, eq(t, v)) else None

    fpabs = False
    cellmax = 4096      # copies of constant size up to this are done byte by byte
    muxw = 7            # width of an index that is turned into a multiplexer
    lin = False

    def fp(self, name, args, w):
        """floating-point operation (an arbitrary function of its operands when fpabs is set)"""
        if self.fpabs and name.startswith("fcmp_"):
            # only olt, ole, oeq, uno are left to the abstraction
            a, b = args
            k = name[5:]
            if k in ("ogt", "oge"):
                return self.fp("fcmp_ol" + k[2], (b, a), 1)
            if k in ("ugt", "uge", "ult", "ule"):
                return not_(self.fp("fcmp_" + {"ugt": "ole", "uge": "olt", "ult": "oge", "ule": "ogt"}[k], args, 1))
            if k in ("une", "ord"):
                return not_(self.fp("fcmp_" + {"une": "oeq", "ord": "uno"}[k], args, 1))
        if name in ("fadd", "fmul", "fcmp_oeq", "fcmp_uno") and args[0].id > args[1].id:
            args = (args[1], args[0])
        t = fp(name, args, w)
        if self.fpabs and name in ("fmul", "fdiv") and w == 64:
            # zero times or divided by a positive number made from an integer
            for x, y in ((args[0], args[1]), (args[1], args[0])) if name == "fmul" else (args,):
                if x.op == "c" and cv(x) == 0 and self.pos and y in self.pos:
                    return x
                if x.op == "c" and cv(x) == 0 and y.op == "uf" and y.args[0].startswith("fpa_u2f_") and \
                        self.cur is not None and self.proved(self.cur, not_(eq(y.args[1], const(0, y.args[1].w)))):
                    return x
        if self.fpabs and t.op != "c":
            t = uf("fpa_%s_%d_%d" % (name, args[0].w, w), args, w)
        return t

    def _fp(name):
        return lambda self, st, a, b, ins: self.fp(name, (a, b), a.w)
    op_fadd = bin(_fp("fadd"))
    op_fsub = bin(_fp("fsub"))
    op_fmul = bin(_fp("fmul"))
    op_fdiv = bin(_fp("fdiv"))

    def op_fneg(self, st, fr, ins):
        fr.regs[ins.res] = self.fp("fneg", (self.v(fr, ins.a[0]),), 64)

    def op_freeze(self, st, fr, ins):
        fr.regs[ins.res] = self.v(fr, ins.a[0])

    ICMP = {"eq": lambda a, b: eq(a, b), "ne": lambda a, b: not_(eq(a, b)), "ult": ult, "ugt": lambda a, b: ult(b, a),
            "ule": ule, "uge": lambda a, b: ule(b, a), "slt": slt, "sgt": lambda a, b: slt(b, a),
            "sle": lambda a, b: not_(slt(b, a)), "sge": lambda a, b: not_(slt(a, b))}

    def op_icmp(self, st, fr, ins):
        a, b = self.v(fr, ins.a[0]), self.v(fr, ins.a[1])
        f = self.ICMP[ins.x]
        fr.regs[ins.res] = [f(x, y) for x, y in zip(a, b)] if isinstance(a, list) else f(a, b)

    def op_fcmp(self, st, fr, ins):
        a, b = self.v(fr, ins.a[0]), self.v(fr, ins.a[1])
        fr.regs[ins.res] = self.fp("fcmp_" + ins.x, (a, b), 1)

    def op_load(self, st, fr, ins):
        p = self.v(fr, ins.a[0])
        if ins.x and ins.x > 1 and ins.ty.k == "<":
            self.chkalign(st, p, ins.x)
        fr.regs[ins.res] = self.loadty(st, p, ins.ty)

    def op_store(self, st, fr, ins):
        p = self.v(fr, ins.a[1])
        if ins.x and ins.x > 1 and ins.ty.k == "<":
            self.chkalign(st, p, ins.x)
        self.storety(st, p, self.v(fr, ins.a[0]), ins.ty)

    def chkalign(self, st, p, al):
        if p.op == "c":
            o = st.mem.get(cv(p) >> SB)
            if o is not None:
                off = (cv(p) & SMASK) - BASE
                if al <= o.align and off % al == 0:
                    return
                if al > o.align and off % o.align == 0:
                    pass
                self.report(st, "memory", "misaligned vector access", self.ensure_model(st))
                raise Violation("memory", "misaligned")

    def op_getelementptr(self, st, fr, ins):
        b = self.v(fr, ins.a[0])
        t = ins.ty
        off = 0
        acc = [b]
        first = True
        for it, o in ins.x:
            i = fr.regs[o[1]] if o[0] == "r" else o[1]
            if isinstance(i, list) or isinstance(b, list):
                raise Inconclusive("vector getelementptr")
            if first:
                sz = t.size
                first = False
            elif t.k == "{":
                k = cv(i)
                off += t.offs[k]
                t = t.e[k]
                continue
            else:
                t = t.e
                sz = t.size
            if i.op == "c":
                off += sx(i) * sz
            else:
                acc.append(mulc(sext(i, 64), sz))
        acc.append(const(off, 64))
        fr.regs[ins.res] = add(*acc)

    def op_jmp(self, st, fr, ins):
        return self.jump(st, fr, ins.x)

    def op_br(self, st, fr, ins):
        c = self.v(fr, ins.a[0])
        if c.op == "c":
            return self.jump(st, fr, ins.x[0] if cv(c) else ins.x[1])
        if c in st.facts:
            return self.jump(st, fr, ins.x[0])
        if not_(c) in st.facts:
            return self.jump(st, fr, ins.x[1])
        r = self.fork(st, c)
        return self.jump(st, fr, ins.x[0] if r else ins.x[1])

    def op_switch(self, st, fr, ins):
        c = self.v(fr, ins.a[0])
        d, cases = ins.x
        if c.op == "c":
            for k, l in cases:
                if k is c:
                    return self.jump(st, fr, l)
            return self.jump(st, fr, d)
        for k, l in cases:
            e = eq(c, k)
            if e.op == "c":
                if cv(e):
                    return self.jump(st, fr, l)
                continue
            if e in st.facts:
                return self.jump(st, fr, l)
            if not_(e) in st.facts:
                continue
            if self.fork(st, e):
                return self.jump(st, fr, l)
        return self.jump(st, fr, d)

    def op_ret(self, st, fr, ins):
        v = self.v(fr, ins.a[0]) if ins.a else None
        for s in fr.allocas:
            o = st.wobj(s)
            o.freed = True
            if st.notes.get("watch"):
                self.released(st, o)
        st.frames.pop()
        if not st.frames:
            return "end"
        caller = st.frames[-1]
        if fr.ret is not None and v is not None:
            caller.regs[fr.ret] = v
        caller.i += 1
        return "jump"

    def op_phi(self, st, fr, ins):
        raise Inconclusive("phi out of place")

    def op_select(self, st, fr, ins):
        c, a, b = (self.v(fr, o) for o in ins.a)
        if isinstance(c, list):
            r = [ite(x, y, z) for x, y, z in zip(c, a, b)]
        elif isinstance(a, list):
            r = [ite(c, y, z) for y, z in zip(a, b)]
        else:
            if c.op == "ult" and a.w >= 32 and not self.fpmode or c in st.facts or not_(c) in st.facts:
                k = self.known(st, c)
                if k is not None:
                    c = TRUE if k else FALSE
            r = ite(c, a, b)
        fr.regs[ins.res] = r

    def castop(f):
        def g(self, st, fr, ins):
            a = self.v(fr, ins.a[0])
            if isinstance(a, list):
                fr.regs[ins.res] = [f(x, ins.ty.e.bits) for x in a]
            else:
                fr.regs[ins.res] = f(a, ins.ty.bits)
        return g

    def fpcast(name, w=None):
        def g(self, st, fr, ins):
            fr.regs[ins.res] = self.fp(name, (self.v(fr, ins.a[0]),), w or ins.ty.bits)
        return g
    op_trunc = castop(lambda a, w: ext(a, 0, w))
    op_zext = castop(lambda a, w: zext(a, w))
    op_sext = castop(lambda a, w: sext(a, w))
    op_ptrtoint = castop(lambda a, w: zext(ext(a, 0, min(w, 64)), w))
    op_inttoptr = castop(lambda a, w: zext(a, 64) if a.w < 64 else ext(a, 0, 64))
    op_uitofp = fpcast("u2f", 64)
    op_sitofp = fpcast("s2f", 64)
    op_fptoui = fpcast("f2u")
    op_fptosi = fpcast("f2s")

    def op_bitcast(self, st, fr, ins):
        a = self.v(fr, ins.a[0])
        if isinstance(a, list) and ins.ty.k == "<":
            w0, w1 = a[0].w, ins.ty.e.bits
            if w0 > w1 and w0 % w1 == 0:
                fr.regs[ins.res] = [x for t in a for x in self.lanes(t, w1)]
                return
            if w1 > w0 and w1 % w0 == 0:
                k = w1 // w0
                fr.regs[ins.res] = [self.unlanes(a[i:i + k]) for i in range(0, len(a), k)]
                return
        fr.regs[ins.res] = self.unflat(self.flat(a, ins.x), ins.ty)

    # vectors change their lane width back and forth: find the wide terms again
    joins = {}

    def lanes(self, t, w):
        if t.op == "cat" and all(p.w % w == 0 for p in t.args):
            return [x for p in reversed(t.args) for x in self.lanes(p, w)]
        if t.w == w:
            return [t]
        l = [ext(t, i, w) for i in range(0, t.w, w)]
        if t.op != "c" and t.op != "v":
            self.joins[tuple(l)] = t
        return l

    def unlanes(self, l):
        r = self.joins.get(tuple(l))
        if r is not None:
            return r
        if len(l) % 2 == 0 and len(l) > 2:
            k = len(l) // 2
            return cat((self.unlanes(l[k:]), self.unlanes(l[:k])))
        return cat(l[::-1])

    def op_alloca(self, st, fr, ins):
        sz = const(ins.ty.size, 64)
        if ins.a:
            sz = mul(zext(self.v(fr, ins.a[0]), 64) if self.v(fr, ins.a[0]).w < 64 else self.v(fr, ins.a[0]), sz)
        p = self.alloc(st, sz, "stack", "%s:%s" % (fr.fn.name, ins.res), align=max(16, ins.x or 1))
        fr.allocas.append(cv(p) >> SB)
        fr.regs[ins.res] = p

    def op_unreachable(self, st, fr, ins):
        self.report(st, "ub", "unreachable code reached", self.ensure_model(st))
        raise Violation("ub", "unreachable")

    def op_extractelement(self, st, fr, ins):
        v, i = self.v(fr, ins.a[0]), self.v(fr, ins.a[1])
        fr.regs[ins.res] = v[cv(i)]

    def op_insertelement(self, st, fr, ins):
        v, e, i = (self.v(fr, o) for o in ins.a)
        v = list(v)
        v[cv(i)] = e
        fr.regs[ins.res] = v

    def op_shufflevector(self, st, fr, ins):
        a, b = self.v(fr, ins.a[0]), self.v(fr, ins.a[1])
        l = a + b
        z = const(0, ins.ty.e.bits)
        fr.regs[ins.res] = [l[k] if k >= 0 else z for k in ins.x]

    def op_extractvalue(self, st, fr, ins):
        v = self.v(fr, ins.a[0])
        for k in ins.x:
            v = v[k]
        fr.regs[ins.res] = v

    def op_insertvalue(self, st, fr, ins):
        v, e = self.v(fr, ins.a[0]), self.v(fr, ins.a[1])

        def put(v, idx):
            v = list(v)
            v[idx[0]] = e if len(idx) == 1 else put(v[idx[0]], idx[1:])
            return v
        fr.regs[ins.res] = put(v, ins.x)

    def op_call(self, st, fr, ins):
        fn, tys = ins.x
        if fn[0] == "f":
            name = fn[1]
        else:
            p = self.v(fr, fn) if fn[0] == "r" else fn[1]
            if p.op != "c":
                p = self.decide(st, p)
            if p.op != "c":
                raise Inconclusive("symbolic call target")
            name = self.m.byslot.get(cv(p) >> SB)
            if name is None or cv(p) & SMASK != BASE:
                self.report(st, "memory", "call through an invalid pointer", self.ensure_model(st))
                raise Violation("memory", "invalid call")
        args = [self.v(fr, o) for o in ins.a]
        b = self.builtins.get(name)
        if b is not None:
            r = b(self, st, fr, ins, args)
            if ins.res is not None:
                fr.regs[ins.res] = r
            return None
        f = self.m.fns.get(name)
        if f is None:
            raise Inconclusive("call of unmodelled function " + name)
        self.fnsused.add(name)
        nf = Frame(f, ins.res)
        for (t, n), a in zip(f.params, args):
            nf.regs[n] = a
        if f.vararg:
            k = len(f.params)
            nf.va = tuple(zip(tys[k:], args[k:]))
        st.frames.append(nf)
        if len(st.frames) > 200:
            raise Inconclusive("call depth")
        return "call"

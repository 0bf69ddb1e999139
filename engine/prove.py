"""Turns vp_* events of a symbolic run into solver queries and collects results for one harness."""
import os, sys
import time, math
from fractions import Fraction
import numpy as np
import z3
from . import poly as P
from .symexec import (Executor, EngineError, PathEnd, Cond, SI, RI, UNDEF, c_not, c_expr, Undef)
from .realdom import RealDomain, RV, Stats, is_const, cval, zq, NOD

class Result:
    def __init__(self, name):
        self.name = name
        self.obligations = 0      # distinct (label, path condition, goal) decided
        self.discharged = 0
        self.trivial = 0          # of those: closed by normal form (query with constant-false goal)
        self.unknown = []         # labels undecided
        self.cex = []             # dict(label, inputs, how)
        self.labels = {}          # label -> count
        self.witness = {}         # label -> (inputs, a, b)
        self.reached = {}         # label -> inputs (solver model of the path condition)
        self.errors = []
        self.functions = {}
        self.stats = {}
        self.notes = set()
        self.wall = 0
        self.samples = []

class Prover:
    def __init__(self, mod, name, cfg):
        self.mod = mod
        self.name = name
        self.cfg = cfg
        self.stats = Stats()
        self.res = Result(name)
        self.seen = set()
        self.cex_count = {}
        self.pending = {}
        self.done_labels = set()
        self.qt = cfg.get('qtimeout', 8000)

    def label(self, ex, p):
        o, off = p
        out = bytearray()
        while True:
            c = o.cells.get(off)
            b = c[2] if c else 0
            if not b: break
            out.append(b); off += 1
        return out.decode()

    def run(self):
        t0 = time.time()
        cfg = dict(self.cfg)
        cfg['stats'] = self.stats
        fp = self.cfg.get('mode') == 'fp'
        if fp:
            from .fpdom import FPDomain
            fac = lambda ex, h: FPDomain(ex, h, cfg)
        else:
            fac = lambda ex, h: RealDomain(ex, h, cfg)
        ex = Executor(self.mod, fac)
        self.ex = ex
        deadline = t0 + cfg.get('deadline', 120)
        ex.run(self.name, self.handle, maxpaths=cfg.get('maxpaths', 20000), deadline=deadline)
        r = self.res
        self.reach()
        r.errors = sorted(set(ex.errors))
        r.functions = ex.funcs_seen
        r.stats = dict(ex.stats)
        r.stats.update(queries=self.stats.queries, solver_s=round(self.stats.time, 3), sat=self.stats.sat, unsat=self.stats.unsat,
                       solver_unknown=self.stats.unknown, feasibility=self.stats.feas)
        r.stats['complete'] = ex.exhausted and not ex.errors
        r.wall = time.time() - t0
        return r

    # ------------------------------------------------------------------
    def handle(self, kind, ex, *a):
        dom = ex.dom
        if kind == 'pathend':
            self.res.notes |= getattr(dom, 'notes', set())
            return
        if kind == 'memerror':
            self.memerror(ex, a[0])
            return
        if kind == 'vp_real': return dom.input_real()
        if kind == 'vp_range':
            return dom.input_real(self.num(dom, a[0]), self.num(dom, a[1]))
        if kind == 'vp_unit':
            p, n = a
            vals = dom.input_unit(n)
            for i, v in enumerate(vals):
                ex.store(('f', 64), v, (p[0], p[1] + 8 * i))
            return
        if kind == 'vp_choice':
            v = ex.choose(a[0])
            dom.events.append(('c', v))
            return v
        if kind == 'vp_int':
            def s(x): return x - (1 << 32) if x >> 31 else x
            return dom.input_int(s(a[0]), s(a[1]))
        if kind == 'vp_trig_den':
            dom.trig_den = a[0]; return
        if kind == 'vp_assume':
            dom.assume_cond(self.as_cond(ex, a[0]))
            if not dom.alive.any():
                # keep only feasible paths
                r, m = dom.query(dom.pc, None, set(), self.qt, feas=True, opaque=True)
                if r == 'unsat': raise PathEnd()
            return
        if kind == 'vp_check':
            lab = self.label(ex, a[1])
            return self.check_cond(ex, self.as_cond(ex, a[0]), lab)
        if kind == 'vp_eqi':
            lab = self.label(ex, a[2])
            if a[0] is UNDEF or a[1] is UNDEF:
                return self.check_cond(ex, dom.unknown_cond('undefined int'), lab)
            return self.check_cond(ex, ex.icmp('eq', 32, a[0], a[1]), lab)
        if kind in ('vp_eq', 'vp_le', 'vp_near'):
            lab = self.label(ex, a[-1])
            return self.check_num(ex, kind, a[:-1], lab)
        if kind == 'vp_f32': return dom.input_fp(32)
        if kind == 'vp_f64': return dom.input_fp(64)
        if kind in ('vp_same32', 'vp_same64'):
            lab = self.label(ex, a[2])
            return self.check_cond(ex, dom.same(a[0], a[1]), lab, ops=(a[0], a[1]))
        raise EngineError("unknown harness call " + kind)

    def num(self, dom, v):
        k = dom.const_of(v)
        if k is None:
            # recognised multiples of pi
            return float(v.arr[0])
        return float(k)

    def as_cond(self, ex, c):
        if c is UNDEF: return ex.dom.unknown_cond('undefined condition')
        if isinstance(c, (Cond, bool)): return c
        if isinstance(c, (int, SI)): return ex.icmp('ne', 8, c, 0) if isinstance(c, SI) else c != 0
        raise EngineError("condition %r" % (c,))

    def feasible(self, dom):
        return dom.query(dom.pc, None, set(), self.qt, feas=True)

    def count(self, ex, lab, gkey):
        """dedupe: same label, same goal, same path condition"""
        r = self.res
        dom = ex.dom
        key = (lab, gkey, tuple(sorted(e.get_id() for e in dom.pc)), tuple(dom.events))
        r.labels[lab] = r.labels.get(lab, 0) + 1
        r.obligations += 1
        return True

    def inputs_from(self, dom, vec):
        """native input list from values of the symbolic inputs"""
        out = []
        k = 0
        for ev in dom.events:
            if ev[0] == 'c': out.append(float(ev[1]))
            else:
                out.append(float(vec[k])); k += 1
        return out

    def sample_vec(self, dom, j):
        if dom.has_ite: return tuple(float(a[j]) for _, _, a in dom.inputs)
        return tuple(float(dom.vars[i].arr[j]) for i in dom.inputs)

    def witness(self, ex, lab, aarr, barr):
        if lab in self.res.witness: return
        dom = ex.dom
        ok = dom.alive & ~np.isnan(aarr) & ~np.isnan(barr)
        js = np.nonzero(ok)[0]
        if len(js):
            j = int(js[len(js) // 2])
            self.res.witness[lab] = (self.inputs_from(dom, self.sample_vec(dom, j)), float(aarr[j]), float(barr[j]))
            return
        # no sample point on this path: unless another path has one, the solver is asked for one at the end
        if lab in self.res.reached: return
        l = self.pending.setdefault(lab, [])
        if len(l) < 6 and not (l and l[-1][0] is dom): l.append((dom, list(dom.pc)))

    def reach(self):
        """no obligation is vacuous: a model of the path condition for every label without a sample point"""
        done = {}
        for lab, l in self.pending.items():
            if lab in self.res.witness: continue
            for dom, pc in l:
                key = (id(dom), tuple(x.get_id() for x in pc))
                if key not in done:
                    r, m = dom.query(pc, None, set(), 1500, feas=True)
                    done[key] = dom.model_inputs(m) if r == 'sat' else None
                if done[key] is not None:
                    self.res.reached[lab] = self.inputs_from(dom, done[key])
                    break

    def add_cex(self, lab, dom, cands):
        self.cex_count[lab] = self.cex_count.get(lab, 0) + 1
        self.res.cex.append(dict(label=lab, cands=[(self.inputs_from(dom, v), how) for v, how in cands]))

    def memerror(self, ex, msg):
        dom = ex.dom
        lab = 'memory safety: ' + msg
        self.res.obligations += 1
        self.res.labels[lab] = self.res.labels.get(lab, 0) + 1
        if self.cex_count.get(lab, 0) >= 4:
            self.res.unknown.append(lab)
            return
        js = np.nonzero(dom.alive)[0]
        cands = [(self.sample_vec(dom, int(j)), 'point on the path') for j in js[:2]]
        r, m = self.feasible(dom)
        if r == 'sat': cands.append((dom.model_inputs(m), 'solver model'))
        elif r == 'unsat':
            self.res.discharged += 1
            return
        if cands: self.add_cex(lab, dom, cands)
        else: self.res.unknown.append(lab)

    # ------------------------------------------------------------------
    def check_cond(self, ex, c, lab, ops=None):
        dom = ex.dom
        self.count(ex, lab, None)
        one = np.ones(dom.K)
        if not isinstance(c, Cond):
            if ops is None: self.witness(ex, lab, one * (1 if c else 0), one)
            elif not (dom.is_undef(ops[0]) or dom.is_undef(ops[1])):
                self.witness(ex, lab, ops[0].arr.astype(float), ops[1].arr.astype(float))
            if c:
                self.res.discharged += 1; self.res.trivial += 1
                return
            self.refute(ex, lab, [], None, set(), np.zeros(dom.K, dtype=bool) | True)
            return
        e = z3.simplify(c.e)
        if ops is not None and not (dom.is_undef(ops[0]) or dom.is_undef(ops[1])):
            self.witness(ex, lab, ops[0].arr.astype(float), ops[1].arr.astype(float))
        else:
            self.witness(ex, lab, np.where(c.arr < 0, np.nan, c.arr), one)
        self.refute(ex, lab, [z3.Not(e)], None, set(), (c.arr == 0), budget_label=lab)

    def check_num(self, ex, kind, a, lab):
        dom = ex.dom
        self.count(ex, lab, None)
        vals = []
        for x in a:
            if x is UNDEF: x = dom.undef(64, 'undef')
            vals.append(x)
        A, B = vals[0], vals[1]
        self.witness(ex, lab, A.arr, B.arr)
        if any(dom.is_undef(x) for x in vals):
            self.refute(ex, lab, [], None, set(), np.ones(dom.K, dtype=bool))
            return
        if dom.has_ite:   # bit-exact domain
            c = dom.rel(kind, vals)
            self.refute(ex, lab, [z3.Not(c.e)], None, set(), c.arr == 0)
            return
        d = dom.add_(A, B, -1)
        scale = 1 + np.maximum(np.abs(A.arr), np.abs(B.arr))
        if kind == 'vp_eq':
            p = dom.reduce(d.num)
            if not p:
                bad = dom.alive & (np.abs(A.arr - B.arr) > 1e-4 * scale)
                if bad.sum() * 2 > dom.alive.sum():   # single samples may be ill-conditioned
                    # numeric noise or an encoding error; replay settles it
                    j = int(np.nonzero(bad)[0][0])
                    self.res.errors.append("normal form and samples disagree for %s: %r" % (lab, (A.arr[j], B.arr[j])))
                    raise EngineError("normal form and samples disagree for " + lab)
                self.res.discharged += 1; self.res.trivial += 1
                return
            p = dom.simplify_sign(p) if len(p) < 2000 else p
            if os.environ.get('VP_DEBUG'): print('RESIDUAL', lab, str(dom.zpoly(p)).replace('\n', ' ')[:600], 'PC', str(dom.build(dom.pc)[0]).replace('\n', ' ')[:900], file=sys.stderr)
            bad = dom.alive & (np.abs(d.arr) > max(1e-11, min(1e-7, 10 * self.cfg.get('tol', 1e-7))) * scale)
            if not bad.any():
                c0 = dom.cond_zero(p)
                if not isinstance(c0, Cond):
                    if c0:
                        self.res.discharged += 1
                        return
                elif dom.has_big(dom.pc + [c0.e]):
                    st, m = dom.query(dom.pc + [z3.Not(c0.e)], None, set(), self.qt, opaque=True)
                    if st == 'unsat':
                        self.res.discharged += 1
                        return
            goal = dom.zpoly(p) != 0
            den = dom.den_poly(d.den)
            n, dn = dom.zpoly(d.num), dom.zpoly(den)
            margin = n * n > dn * dn * zq(Fraction(1, 10000))
            used = P.pvars(p)
            mused = dom.deps_of(d) | used
            self.refute(ex, lab, [], goal, used, bad, margin, mused, worst=np.abs(d.arr) / scale)
            return
        if kind == 'vp_le':
            c = dom.fcmp('ole', A, B)
            bad = dom.alive & (d.arr > 1e-7 * scale)
        else:
            eps = vals[2]
            lo = dom.fcmp('ole', d, eps)
            hi = dom.fcmp('oge', d, dom.fneg(eps))
            from .symexec import c_and
            c = c_and(lo, hi)
            bad = dom.alive & (np.abs(d.arr) > eps.arr + 1e-7 * scale)
        if not isinstance(c, Cond):
            if c:
                self.res.discharged += 1; self.res.trivial += 1
            else:
                self.refute(ex, lab, [], None, set(), np.ones(dom.K, dtype=bool))
            return
        n, dn = dom.zpoly(d.num), dom.zpoly(dom.den_poly(d.den))
        if kind == 'vp_le':
            margin = n * dn > dn * dn * zq(Fraction(1, 100))
            mu = dom.deps_of(d)
        else:
            e2 = dom.zrv(eps) + zq(Fraction(1, 100))
            margin = n * n > dn * dn * e2 * e2
            mu = dom.deps_of(d) | dom.deps_of(eps)
        self.refute(ex, lab, [z3.Not(c.e)], None, set(), bad, margin, mu)

    def pc_margin(self, dom, m):
        out = []
        used = set()
        for k, s in enumerate(dom.sgn):
            if s == {1} or s == {-1}:
                p = dom.atoms[k]
                vs = P.pvars(p)
                if len(p) == 1 and all(dom.vars[v].kind in ('sqrt', 'pi') for v in vs): continue
                z = dom.zpoly(p)
                out.append(z >= m if s == {1} else z <= -m)
                used |= vs
        return out, used

    def refute(self, ex, lab, neg, goal, used, bad, margin=None, mused=None, budget_label=None, worst=None):
        """Is the path condition with neg and goal satisfiable?  unsat: discharged.  sat: counterexample candidates."""
        dom = ex.dom
        r = self.res
        bad = bad & dom.alive
        ncex = self.cex_count.get(lab, 0)
        if ncex >= self.cfg.get('maxcex', 6):
            r.unknown.append(lab + ' (further paths not examined after counterexamples)')
            return
        suspicious = bool(bad.any())
        if not suspicious:
            if not dom.has_ite and dom.has_big(dom.pc + neg):
                st, m = dom.query(dom.pc + neg, goal, used, self.qt, opaque=True)
                if st == 'unsat':
                    r.discharged += 1
                    return
            st, m = dom.query(dom.pc + neg, goal, used, self.qt)
            if st == 'unsat':
                r.discharged += 1
                return
            if st == 'unknown':
                # second attempt, other strategy
                st, m = self.second(dom, neg, goal, used)
                if st == 'unsat':
                    r.discharged += 1
                    return
        else:
            st, m = 'suspicious', None
        # counterexample candidates, most robust first
        cands = []
        t = self.cfg.get('cextimeout', 3000)
        if not dom.has_ite:
            pm, pu = self.pc_margin(dom, zq(Fraction(1, 50)))
            if margin is not None:
                s2, m2 = dom.query(dom.pc + neg + [], z3.And([margin] + pm), (mused or set()) | used | pu, t, bounds=True)
                if s2 == 'sat': cands.append((dom.model_inputs(m2), 'solver model with margin'))
            else:
                g = [goal] if goal is not None else []
                s2, m2 = dom.query(dom.pc + neg, z3.And(pm + g) if pm or g else None, used | pu, t, bounds=True)
                if s2 == 'sat': cands.append((dom.model_inputs(m2), 'solver model with margin'))
            if suspicious:
                js = np.nonzero(bad)[0]
                if worst is not None: js = js[np.argsort(-np.nan_to_num(worst[js]))]
                for j in list(js[:3]):
                    j = int(j)
                    s3, m3 = dom.query(dom.pc + neg, margin if margin is not None else goal, (mused or set()) | used, t, pins=lambda seen, j=j: self.pins(dom, seen, j))
                    if s3 == 'sat':
                        cands.append((dom.model_inputs(m3), 'solver model, inputs near a candidate point'))
                    cands.append((self.sample_vec(dom, j), 'candidate point (solver %s)' % s3))
            s4, m4 = dom.query(dom.pc + neg, goal, used, t, bounds=True)
            if s4 == 'sat': cands.append((dom.model_inputs(m4), 'solver model, bounded inputs'))
            if s4 == 'unsat' and st == 'suspicious':
                s5, m5 = dom.query(dom.pc + neg, goal, used, self.qt)
                if s5 == 'unsat':
                    r.discharged += 1
                    return
        elif suspicious:
            for j in list(np.nonzero(bad)[0][:2]):
                cands.append((self.sample_vec(dom, int(j)), 'candidate point'))
            st, m = dom.query(dom.pc + neg, goal, used, self.qt)
            if st == 'unsat':
                r.discharged += 1
                return
        if st == 'sat': cands.append((dom.model_inputs(m), 'solver model'))
        if not cands:
            if st == 'suspicious':
                st, m = dom.query(dom.pc + neg, goal, used, self.qt)
                if st == 'unsat':
                    r.discharged += 1
                    return
                if st == 'sat': cands.append((dom.model_inputs(m), 'solver model'))
        if not cands:
            r.unknown.append(lab)
            return
        self.add_cex(lab, dom, cands)

    def second(self, dom, neg, goal, used):
        if dom.has_ite: return 'unknown', None
        zs, u2 = dom.build(dom.pc + neg)
        cons, seen = dom.closure(used | u2)
        fs = zs + cons + ([goal] if goal is not None else [])
        t0 = time.time()
        s = z3.Tactic('default').solver() if False else z3.Solver()
        s.set('timeout', int(self.qt))
        s.add(*fs)
        try: x = s.check()
        except z3.Z3Exception: x = z3.unknown
        self.stats.queries += 1
        self.stats.time += time.time() - t0
        if x == z3.unsat: self.stats.unsat += 1; return 'unsat', None
        if x == z3.sat: self.stats.sat += 1; return 'sat', s.model()
        self.stats.unknown += 1
        return 'unknown', None

    def pins(self, dom, seen, j):
        out = []
        for i in seen:
            v = dom.vars[i]
            x = v.arr[j]
            if np.isnan(x) or np.isinf(x): continue
            if v.kind == 'input' or v.isint:
                out.append(v.z == zq(Fraction(float(x))))
            elif v.kind in ('unit',):
                e = Fraction(1, 10**4)
                out += [v.z >= zq(Fraction(float(x)) - e), v.z <= zq(Fraction(float(x)) + e)]
            elif v.kind in ('sin', 'cos', 'delta') or v.rule is None and v.kind not in ('sqrt', 'pi', 'undef'):
                e = Fraction(1, 10**9)
                out += [v.z >= zq(Fraction(float(x)) - e), v.z <= zq(Fraction(float(x)) + e)]
        return out

"""First-order layer: formulas with quantifiers over 64-bit indices, discharged by instantiation + z3 (QF_AUFBV)."""
import z3, time, itertools, subprocess, tempfile, os

_cnt = itertools.count()
def fresh_name(p): return '%s!%d' % (p, next(_cnt))
def bv(v, w=64): return z3.BitVecVal(v, w)
def isnum(t): return z3.is_bv_value(t)

class F: pass
class All(F):
    def __init__(self, vs, body): self.vs, self.body = vs, body
class Ex(F):
    def __init__(self, vs, body): self.vs, self.body = vs, body
class AndF(F):
    def __init__(self, xs): self.xs = xs
class OrF(F):
    def __init__(self, xs): self.xs = xs
class NotF(F):
    def __init__(self, x): self.x = x

class Let(F):
    """body with vs fixed by a definition that always has exactly one solution"""
    def __init__(self, vs, defs, body): self.vs, self.defs, self.body = vs, defs, body

def isF(x): return isinstance(x, F)
def tob(x):
    if isinstance(x, bool): return z3.BoolVal(x)
    return x
def and_(*xs):
    xs = [tob(x) for x in xs]
    if any(isF(x) for x in xs): return AndF(xs)
    xs = [x for x in xs if not z3.is_true(x)]
    if any(z3.is_false(x) for x in xs): return z3.BoolVal(False)
    return z3.BoolVal(True) if not xs else xs[0] if len(xs) == 1 else z3.And(*xs)
def or_(*xs):
    xs = [tob(x) for x in xs]
    if any(isF(x) for x in xs): return OrF(xs)
    xs = [x for x in xs if not z3.is_false(x)]
    if any(z3.is_true(x) for x in xs): return z3.BoolVal(True)
    return z3.BoolVal(False) if not xs else xs[0] if len(xs) == 1 else z3.Or(*xs)
def not_(x):
    x = tob(x)
    if isF(x): return NotF(x)
    if z3.is_true(x): return z3.BoolVal(False)
    if z3.is_false(x): return z3.BoolVal(True)
    if z3.is_not(x): return x.arg(0)
    return z3.Not(x)
def imp(a, b): return or_(not_(a), b)
def iff(a, b): return and_(imp(a, b), imp(b, a)) if isF(a) or isF(b) else tob(a) == tob(b)
MAXEXP = 300
def forall(lo, hi, fn, hint='k'):
    lo, hi = _b(lo), _b(hi)
    if isnum(lo) and isnum(hi) and hi.as_long() - lo.as_long() <= MAXEXP:
        return and_(*[fn(bv(i)) for i in range(lo.as_long(), hi.as_long())])
    k = z3.BitVec(fresh_name('?' + hint), 64)
    return All([k], imp(and_(z3.ULE(lo, k), z3.ULT(k, hi)), fn(k)))
def exists(lo, hi, fn, hint='k'):
    lo, hi = _b(lo), _b(hi)
    if isnum(lo) and isnum(hi) and hi.as_long() - lo.as_long() <= MAXEXP:
        return or_(*[fn(bv(i)) for i in range(lo.as_long(), hi.as_long())])
    k = z3.BitVec(fresh_name('?' + hint), 64)
    return Ex([k], and_(z3.ULE(lo, k), z3.ULT(k, hi), fn(k)))
def first(n, p, body, hint='f'):
    """body(w) where w is the first index below n with p, or n when there is none"""
    w = z3.BitVec(fresh_name('?' + hint), 64)
    return Let([w], and_(z3.ULE(w, n), forall(0, w, lambda j: not_(p(j)), 'j'), imp(z3.ULT(w, n), p(w))), body(w))
def _b(x): return bv(x) if isinstance(x, int) else x

def ite(c, a, b):
    if z3.is_true(c): return a
    if z3.is_false(c): return b
    if a is b or a.eq(b): return a
    return z3.If(c, a, b)

def prenex(f, pos, univ, ground, guard):
    """assert f (pos) / not f: split in ground facts and universally quantified facts (existentials skolemised at top level)."""
    f = tob(f)
    def emit(body):
        g = or_(*guard, body) if guard else body
        if univ: ground.append((list(univ), g))
        else: ground.append(([], g))
    if not isF(f):
        if z3.is_and(f) and pos:
            for c in f.children(): prenex(c, pos, univ, ground, guard)
            return
        emit(f if pos else not_(f)); return
    if isinstance(f, NotF): return prenex(f.x, not pos, univ, ground, guard)
    if (isinstance(f, AndF) and pos) or (isinstance(f, OrF) and not pos):
        for x in f.xs: prenex(x, pos, univ, ground, guard)
        return
    if (isinstance(f, All) and pos) or (isinstance(f, Ex) and not pos):
        return prenex(f.body, pos, univ + f.vs, ground, guard)
    if (isinstance(f, All) and not pos) or (isinstance(f, Ex) and pos):
        if univ:
            sub = []
            for v in f.vs:
                fn = z3.Function(fresh_name('sk'), *([u.sort() for u in univ] + [v.sort()]))
                sub.append((v, fn(*univ)))
            return prenex(substF(f.body, sub), pos, univ, ground, guard)
        sub = [(v, z3.Const(fresh_name('sk'), v.sort())) for v in f.vs]
        return prenex(substF(f.body, sub), pos, univ, ground, guard)
    if isinstance(f, Let):
        sub = []
        for v in f.vs:
            if univ:
                fn = z3.Function(fresh_name('sk'), *([u.sort() for u in univ] + [v.sort()])); sub.append((v, fn(*univ)))
            else:
                sub.append((v, z3.Const(fresh_name('let'), v.sort())))
        prenex(substF(f.defs, sub), True, univ, ground, [])
        return prenex(substF(f.body, sub), pos, univ, ground, guard)
    # disjunction with quantifiers inside
    xs = f.xs
    plain = [x for x in xs if not isF(x)]; qs = [x for x in xs if isF(x)]
    g2 = guard + [(x if pos else not_(x)) for x in plain]
    if len(qs) == 1: return prenex(qs[0], pos, univ, ground, g2)
    # several quantified disjuncts: name each one
    names = []
    for x in qs:
        if univ:
            fn = z3.Function(fresh_name('d'), *([u.sort() for u in univ] + [z3.BoolSort()])); n = fn(*univ)
        else: n = z3.Bool(fresh_name('d'))
        names.append(n); prenex(x, pos, univ, ground, [z3.Not(n)])
    g = or_(*(g2 + names))
    ground.append((list(univ), g))

def substF(f, sub):
    f = tob(f)
    if not isF(f): return z3.substitute(f, *sub)
    if isinstance(f, NotF): return NotF(substF(f.x, sub))
    if isinstance(f, AndF): return AndF([substF(x, sub) for x in f.xs])
    if isinstance(f, OrF): return OrF([substF(x, sub) for x in f.xs])
    if isinstance(f, All): return All(f.vs, substF(f.body, sub))
    if isinstance(f, Ex): return Ex(f.vs, substF(f.body, sub))
    if isinstance(f, Let): return Let(f.vs, substF(f.defs, sub), substF(f.body, sub))

# ---- instantiation
def bases(a, memo):
    i = a.get_id()
    if i in memo: return memo[i]
    if not z3.is_app(a):
        memo[i] = frozenset(); return memo[i]
    d = a.decl(); k = d.kind()
    if k == z3.Z3_OP_STORE: r = bases(a.arg(0), memo) | (bases(a.arg(2), memo) if z3.is_array(a.arg(2)) else frozenset())
    elif k == z3.Z3_OP_ITE: r = bases(a.arg(1), memo) | bases(a.arg(2), memo)
    elif k == z3.Z3_OP_SELECT: r = bases(a.arg(0), memo)
    elif k == z3.Z3_OP_CONST_ARRAY: r = frozenset()
    elif k == z3.Z3_OP_UNINTERPRETED: r = frozenset([d.name()])
    else: r = frozenset()
    memo[i] = r
    return r

def collect(t, seen, out, bm, ufs=None, eqs=None):
    st = [t]
    while st:
        x = st.pop(); i = x.get_id()
        if i in seen: continue
        seen.add(i); seen_keep.append(x)
        if not z3.is_app(x): continue
        k = x.decl().kind()
        if k == z3.Z3_OP_UNINTERPRETED and z3.is_bv(x) and x.size() == 64 and x.decl().name()[:3] in ('sk!', 'it!'): out.setdefault('?' + x.decl().name()[:2], {})[i] = x
        if k == z3.Z3_OP_SELECT or k == z3.Z3_OP_STORE:
            for b in bases(x.arg(0), bm): out.setdefault(b, {})[x.arg(1).get_id()] = x.arg(1)
        elif k == z3.Z3_OP_UNINTERPRETED and x.num_args():
            for j in range(x.num_args()):
                a = x.arg(j)
                if z3.is_bv(a): out.setdefault((x.decl().name(), j), {})[a.get_id()] = a
        elif k == z3.Z3_OP_EQ and z3.is_array(x.arg(0)) and eqs is not None:
            eqs.append((bases(x.arg(0), bm), bases(x.arg(1), bm)))
        st.extend(x.children())
seen_keep = []

def lin_off(idx, k, sub):
    """idx = k + off (bitvectors, same width) -> off term or None; also zero-extended forms."""
    if idx.eq(k): return bv(0, k.size())
    if idx.sort() != k.sort(): return None
    off = z3.simplify(z3.substitute(idx, (k, bv(0, k.size()))))
    # linear iff idx - k - off == 0 after simplification
    d = z3.simplify(idx - k - off)
    if z3.is_bv_value(d) and d.as_long() == 0: return off
    return None

def occurs(t, k):
    seen = set(); st = [t]; kid = k.get_id()
    while st:
        x = st.pop()
        if x.get_id() == kid: return True
        if x.get_id() in seen: continue
        seen.add(x.get_id()); st.extend(x.children())
    return False

def triggers(body, vs):
    """For each var: list of (basekey, offset term)."""
    res = {v.get_id(): {} for v in vs}
    seen = set(); st = [body]; bm = {}
    while st:
        x = st.pop(); i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if not z3.is_app(x): continue
        k = x.decl().kind()
        cands = []
        if k == z3.Z3_OP_SELECT or k == z3.Z3_OP_STORE:
            cands = [(b, x.arg(1)) for b in bases(x.arg(0), bm)]
        elif k == z3.Z3_OP_UNINTERPRETED and x.num_args():
            cands = [((x.decl().name(), j), x.arg(j)) for j in range(x.num_args()) if z3.is_bv(x.arg(j))] if x.decl().name()[:3] != 'sk!' and x.decl().name()[:2] != 'd!' else []
        if k == z3.Z3_OP_EQ and z3.is_bv(x.arg(0)):
            for a, b in ((x.arg(0), x.arg(1)), (x.arg(1), x.arg(0))):
                for v in vs:
                    if a.sort() == v.sort() and occurs(a, v) and not any(occurs(b, w) for w in vs):
                        o = lin_off(a, v, None)
                        if o is not None and not any(occurs(o, w) for w in vs): res[v.get_id()][('=', b.get_id(), o.get_id())] = ('=', z3.simplify(b - o), 0)
        for b, ix in cands:
            for v in vs:
                m = None
                # scaled: v*c + off  -> k = (t-off)/c
                if occurs(ix, v):
                    o = lin_off(ix, v, None)
                    if o is not None and not any(occurs(o, w) for w in vs if w is not v): m = (b, o, 1)
                    elif ix.sort() == v.sort():
                        s1 = z3.simplify(z3.substitute(ix, (v, bv(1, v.size()))) - z3.substitute(ix, (v, bv(0, v.size()))))
                        if z3.is_bv_value(s1) and s1.as_signed_long() == -1:
                            o = z3.simplify(z3.substitute(ix, (v, bv(0, v.size()))))
                            if not any(occurs(o, w) for w in vs): m = (b, o, -1)
                        elif z3.is_bv_value(s1) and s1.as_long() not in (0, 1) and s1.as_signed_long() > 0:
                            o = z3.simplify(z3.substitute(ix, (v, bv(0, v.size()))))
                            if not any(occurs(o, w) for w in vs): m = (b, o, s1.as_long())
                if m: res[v.get_id()][(m[0], m[1].get_id(), m[2])] = m
        st.extend(x.children())
    return {i: words(list(d.values())) for i, d in res.items()}
def words(l):
    """the bytes of a word form one pattern: all of them"""
    res = []; done = set()
    for i, (b, o, m) in enumerate(l):
        if i in done: continue
        if m < 1 or b == '=': res.append((b, o, m)); continue
        cl = [(0, i)]
        for j in range(i + 1, len(l)):
            if j not in done and l[j][0] == b and l[j][2] == m and l[j][1].sort() == o.sort():
                d = z3.simplify(l[j][1] - o)
                if z3.is_bv_value(d) and abs(d.as_signed_long()) <= 8: cl.append((d.as_signed_long(), j))
        if len(cl) < 3: res.append((b, o, m)); continue
        d0, j0 = min(cl); done |= {j for _, j in cl}; res.append((b, l[j0][1], (m,) + tuple(sorted(d - d0 for d, _ in cl))))
    return res

class Result:
    def __init__(self, status, model=None, t=0, backend='z3', n=0): self.status, self.model, self.t, self.backend, self.ninst = status, model, t, backend, n

_trig_cache = {}
STAT, STAT_T = None, []
def ite_cond(t, seen=None):
    """an if-then-else condition of t that has no if-then-else inside"""
    seen = set() if seen is None else seen
    if t.get_id() in seen or not z3.is_app(t): return None
    seen.add(t.get_id())
    if t.decl().kind() == z3.Z3_OP_ITE:
        return ite_cond(t.arg(0), seen) if has_ite(t.arg(0)) else t.arg(0)
    for c in t.children():
        r = ite_cond(c, seen)
        if r is not None: return r
    return None
def has_ite(t, seen=None):
    seen = set() if seen is None else seen
    if t.get_id() in seen or not z3.is_app(t): return False
    seen.add(t.get_id())
    return t.decl().kind() == z3.Z3_OP_ITE or any(has_ite(c, seen) for c in t.children())
def conj(t):
    if z3.is_and(t):
        r = []
        for c in t.children(): r += conj(c)
        return r
    if z3.is_not(t) and z3.is_or(t.arg(0)):
        r = []
        for c in t.arg(0).children(): r += conj(z3.simplify(z3.Not(c)))
        return r
    return [t]
def rewriting(hyps, goal, leaves=40):
    """decides goals that are equalities of the same sum written in two ways: cases over the conditions of the goal, then simplification"""
    hs = [h for h in hyps if not isF(h)]
    keep = []
    defs = [(h.arg(0), h.arg(1)) for h in hs if z3.is_eq(h) and z3.is_const(h.arg(0)) and h.arg(0).decl().name().startswith('ghost.')]
    if defs: goal = z3.substitute(goal, *defs); keep.append(goal)
    def facts(l):
        out = {}
        for h in l:
            for x in conj(h):
                if z3.is_false(x): return None
                out[x.get_id()] = x
        return out
    def done(g, f):
        for c in conj(g):
            if z3.is_true(c) or c.get_id() in f: continue
            if z3.is_or(c) and any(x.get_id() in f for x in c.children()): continue
            return False
        return True
    n = [0]
    def go(g, l):
        g = z3.simplify(g); keep.append(g)
        f = facts(l)
        if f is None: return True
        if done(g, f): return True
        n[0] += 1
        if n[0] > leaves: return False
        c = ite_cond(g)
        if c is None: return False
        known = [True, False]
        if c.get_id() in f: known = [True]
        else:
            nc = z3.simplify(z3.Not(c)); keep.append(nc)
            if nc.get_id() in f: known = [False]
        cc = conj(c); 
        for b in known:
            sub = [(c, z3.BoolVal(b))]
            if b and len(cc) > 1: sub += [(x, z3.BoolVal(True)) for x in cc]
            l2 = [z3.simplify(z3.substitute(h, *sub)) for h in l] + [c if b else z3.simplify(z3.Not(c))]; keep.extend(l2)
            if not go(z3.substitute(g, *sub), l2): return False
        return True
    if not has_ite(goal):
        g = z3.simplify(goal); keep.append(g); l = [z3.simplify(h) for h in hs]; keep.extend(l); f = facts(l)
        return f is None or done(g, f)
    return go(goal, [z3.simplify(h) for h in hs])
def exact_div(t, m):
    """t / m for a syntactic multiple of m"""
    if z3.is_bv_value(t): return bv(t.as_signed_long() // m) if t.as_signed_long() % m == 0 and t.size() == 64 else None
    if not z3.is_app(t): return None
    k = t.decl().kind()
    if k == z3.Z3_OP_BMUL and z3.is_bv_value(t.arg(0)):
        c = t.arg(0).as_signed_long()
        if c % m: return None
        y = t.arg(1) if t.num_args() == 2 else None
        return None if y is None else y if c == m else z3.simplify(y * (c // m))
    if k == z3.Z3_OP_BADD:
        xs = [exact_div(a, m) for a in t.children()]
        if any(x is None for x in xs): return None
        r = xs[0]
        for x in xs[1:]: r = r + x
        return z3.simplify(r)
    return None
def off_step(t, m):
    """t is plainly no multiple of m"""
    x = z3.simplify(z3.URem(t, bv(m)))
    return z3.is_bv_value(x) and x.as_long() != 0
_nrm = {}
def nrm(t):
    i = t.get_id()
    if i not in _nrm:
        if len(_nrm) > 200000: _nrm.clear()
        _nrm[i] = (t, z3.simplify(t))
    return _nrm[i][1]
def prove(hyps, goal, timeout=20, rounds=3, maxinst=600, extra_terms=(), want_model=True, small=()):
    """valid / refuted (model of instantiated negation) / unknown"""
    t0 = time.time()
    if not isF(goal) and rewriting(hyps, goal): return Result('valid', None, time.time() - t0, 'z3 rewriter', 0)
    facts = []
    for h in hyps: prenex(h, True, [], facts, [])
    nh = len(facts)
    prenex(goal, False, [], facts, [])
    goalfacts = [g for vs, g in facts[nh:] if not vs]
    ground = [g for vs, g in facts if not vs]
    univ = [(vs, g) for vs, g in facts if vs]
    s = z3.SolverFor('QF_AUFBV')
    s.set('timeout', int(timeout * 1000))
    for g in ground: s.add(g)
    n = 0
    if univ and ground:
        s.set('timeout', 1000)
        if s.check() == z3.unsat: return Result('valid', None, time.time() - t0, 'z3', 0)
        s.set('timeout', int(timeout * 1000))
    if univ:
        seen, terms, bm, eqs = set(), {}, {}, []
        for g in ground: collect(g, seen, terms, bm, None, eqs)
        done = set()
        trg = []
        for vs, g in univ:
            key = (g.get_id(),) + tuple(v.get_id() for v in vs)
            if key not in _trig_cache: _trig_cache[key] = (g, triggers(g, vs), list(vs))
            trg.append((vs, g, _trig_cache[key][1]))
        extra = [bv(0)] + list(extra_terms)
        for r in range(rounds):
            # merge bases connected by array equalities
            new = []
            for vs, g, tr in trg:
                cl = []
                for v in vs:
                    c = {}
                    for b, o, m in tr[v.get_id()]:
                        if m == 0:
                            c[o.get_id()] = o; continue
                        keys = {b}
                        for e1, e2 in eqs:
                            if b in e1 or b in e2: keys |= set(e1) | set(e2)
                        for kk in keys:
                            ts = list(terms.get(kk, {}).values())
                            if isinstance(m, tuple):
                                ts = [t for t in ts if t.sort() == v.sort()]; have = {nrm(t).get_id() for t in ts}
                                ts = [t for t in ts if all(nrm(t + d).get_id() in have for d in m[2:])]; m = m[0]
                            for t in ts:
                                if t.sort() != v.sort(): continue
                                if m == -1:
                                    x = z3.simplify(o - t); c[x.get_id()] = x; continue
                                x = nrm(t - o) if not (isnum(o) and o.as_long() == 0) else t
                                if m != 1:
                                    y = exact_div(nrm(x), m)
                                    if y is None and (r > 1 or v.decl().name()[:2] == '?h' or off_step(x, m)): continue
                                    x = z3.simplify(z3.UDiv(x, bv(m))) if y is None else y
                                c.setdefault(nrm(x).get_id(), x)
                    if len(vs) == 1:
                        for t in extra: c[t.get_id()] = t
                        nm = v.decl().name()
                        if v.size() == 64 and (nm[:2] == '?h' or not tr[v.get_id()]):      # what earlier iterations established; formulas without a pattern
                            for t in list(terms.get('?sk', {}).values()): c[t.get_id()] = t
                            if nm[:2] != '?h':
                                for t in list(terms.get('?it', {}).values()): c[t.get_id()] = t
                    elif v.decl().name()[:2] == '?y':       # an inner variable without a pattern
                        for t in extra + list(terms.get('?sk', {}).values()) + list(terms.get('?it', {}).values()): c[t.get_id()] = t
                    cl.append(list(c.values()))
                for combo in itertools.product(*cl):
                    key = (g.get_id(),) + tuple(x.get_id() for x in combo)
                    if key in done: continue
                    done.add(key); new.append((g, list(zip(vs, combo)), combo))
                    if STAT is not None: STAT[g.get_id()] = STAT.get(g.get_id(), 0) + 1; STAT_T.append((r, str(g)[:60], str(combo)[:150]))
                    if n + len(new) > maxinst: break
                if n + len(new) > maxinst: break
            if not new: break
            for g, sub, keep in new:
                inst = z3.substitute(g, *sub)
                seen_keep.append(inst); s.add(inst); n += 1
                collect(inst, seen, terms, bm, None, eqs)
            if n >= maxinst: break
            if r < rounds - 1 and not lets_in(terms):
                # early exit if already unsat (cheap check)
                s.set('timeout', 2000)
                if s.check() == z3.unsat:
                    return Result('valid', None, time.time() - t0, 'z3', n)
                s.set('timeout', int(timeout * 1000))
    s, sub = merge_lets(s, ground, univ and terms, timeout)
    s.set('timeout', int(min(timeout, 3) * 1000))
    r = s.check()
    if r == z3.unknown:
        r, be = race(s, min(timeout, 30))
        if r == z3.unsat: return Result('valid', None, time.time() - t0, be, n)
        if r == z3.sat and not want_model: return Result('refuted', None, time.time() - t0, be, n)
        if r == z3.sat: r = z3.unknown      # a model is wanted from z3
    if r == z3.unknown:
        r = split_check(s, goalfacts, sub, min(timeout, 20))
    if r == z3.unknown:
        s.set('timeout', int(timeout * 1000)); r = s.check()
    if r == z3.unsat: return Result('valid', None, time.time() - t0, 'z3', n)
    if r == z3.sat:
        m = s.model()
        if want_model and small:
            # prefer a small model
            for c in small:
                s.push(); s.add(c); s.set('timeout', 5000)
                if s.check() == z3.sat: m = s.model()
                else: s.pop()
        res = Result('refuted', m, time.time() - t0, 'z3', n); res.solver = s
        return res
    # second back end
    r2 = cvc5_check(s, timeout)
    if r2 == 'unsat': return Result('valid', None, time.time() - t0, 'cvc5', n)
    return Result('unknown', None, time.time() - t0, 'z3+cvc5', n)

def lets_in(terms): return any(z3.is_const(t) and t.decl().name().startswith('let!') for d in terms.values() for t in d.values())
def alts(f):
    """a disjunction of cases equivalent to f (structural)"""
    if z3.is_or(f): return list(f.children())
    if z3.is_not(f):
        x = f.arg(0)
        if z3.is_and(x): return [not_(c) for c in x.children()]
        if z3.is_or(x): return alts_and([not_(c) for c in x.children()])
        if z3.is_not(x): return alts(x.arg(0))
        if z3.is_implies(x): return alts_and([x.arg(0), not_(x.arg(1))])
        return [f]
    if z3.is_and(f): return alts_and(f.children())
    return [f]
def alts_and(cs):
    best, bi = None, None
    for i, c in enumerate(cs):
        a = alts(c)
        if len(a) > 1 and (best is None or len(a) > len(best)): best, bi = a, i
    if best is None: return [z3.And(*cs)] if len(cs) > 1 else list(cs)
    rest = [c for i, c in enumerate(cs) if i != bi]
    return [z3.And(*(rest + [x])) for x in best]
def split_check(s, goalfacts, sub, timeout):
    """case split on the negated goal"""
    best = max((alts(f) for f in goalfacts), key=len, default=[])
    if len(best) < 2: return z3.unknown
    fs = list(s.assertions()); t0 = time.time()
    for x in best:
        s2 = z3.SolverFor('QF_AUFBV'); s2.set('timeout', int(timeout * 1000))
        for f in fs: s2.add(f)
        s2.add(z3.simplify(z3.substitute(x, *sub)) if sub else x)
        r = s2.check()
        if r != z3.unsat: return z3.unknown
        if time.time() - t0 > timeout * 3: return z3.unknown
    return z3.unsat
def merge_lets(s, ground, terms, timeout):
    """definitional constants that provably equal another index term are replaced by it (an equivalence-preserving simplification)"""
    if not terms: return s, []
    lets, cands = {}, {}
    for d in terms.values():
        for t in d.values():
            if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.size() == 64:
                n = t.decl().name()
                if n.startswith('let!'): lets[n] = t
                elif n.startswith(('six!', 'idx!', 'k!', 'it!')): cands[n] = t
    if not lets or not cands: return s, []
    sub = []
    s.set('timeout', 3000)
    for w in lets.values():
        for t in cands.values():
            s.push(); s.add(w != t); r = s.check(); s.pop()
            if r == z3.unsat: sub.append((w, t)); break
    if sub:
        fs = [z3.simplify(z3.substitute(f, *sub)) for f in s.assertions()]
        s = z3.SolverFor('QF_AUFBV')
        for f in fs: s.add(f)
    s.set('timeout', int(timeout * 1000))
    return s, sub

def race(s, timeout):
    """z3 in process and cvc5 beside it; the first answer counts"""
    txt = '(set-logic QF_AUFBV)\n' + s.to_smt2()
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f: f.write(txt)
    cmds = {'cvc5': ['cvc5', '--tlimit=%d' % int(timeout * 1000)], 'z3': ['z3', '-T:%d' % int(timeout + 1)], 'z3-new': ['z3-new', '-T:%d' % int(timeout + 1)]}
    ps = {}
    try:
        for k, c in cmds.items():
            ps[k] = subprocess.Popen(c + [f.name], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        t0 = time.time(); nap = .01
        while ps and time.time() - t0 < timeout + 5:
            for k in list(ps):
                if ps[k].poll() is None: continue
                o = ps.pop(k).communicate()[0].decode().split('\n')[0].strip()
                if o in ('sat', 'unsat'): return (z3.unsat if o == 'unsat' else z3.sat), k
            time.sleep(nap); nap = min(.1, nap * 1.5)
        return z3.unknown, None
    finally:
        for p in ps.values():
            p.kill(); p.communicate()
        os.unlink(f.name)

def cvc5_check(s, timeout):
    txt = '(set-logic QF_AUFBV)\n' + s.to_smt2()
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f: f.write(txt)
    try:
        r = subprocess.run(['cvc5', '--tlimit=%d' % int(timeout * 1000), f.name], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=timeout + 5)
        o = r.stdout.decode().strip()
        return o.split('\n')[0] if o else 'unknown'
    except Exception: return 'unknown'
    finally: os.unlink(f.name)

"""Loops: concrete unrolling when every test is decided; otherwise induction over a ghost iteration counter.

For a loop with body step B the engine introduces `it` (completed iterations).  A modified scalar whose
step is a constant is replaced by its closed form v0 + c*it; every other modified leaf v becomes a trace
function v(k) with v(0)=entry value and, for all k < it, v(k+1)=B(v(k)) - the exact semantics of the loop.
Invariants (given by contracts, plus generated candidates) are kept only when proved initially and
preserved by one arbitrary iteration."""
import z3, re, time
from fol import *
import fol
import core
from core import Loc, BLoc, Ptr, Dead, Unsupported, Out, sel, simp, b2, ext, zext

BV64 = z3.BitVecSort(64)

def run(g, s, cond, inc, body, st, env, first_test):
    if g.mode == 'bmc': return unroll(g, s, cond, inc, body, st, env, first_test, g.unroll, True)
    const_cond = cond is None or cond.get('k') == 'int'
    if first_test and not const_cond:
        r = try_concrete(g, s, cond, inc, body, st, env)
        if r is not None: return r
    return inductive(g, s, cond, inc, body, st, env, first_test)

def unroll(g, s, cond, inc, body, st, env, first_test, limit, cut):
    outs = []; cur = [st]; ft = first_test
    for n in range(limit + 1):
        nxt = []
        for c in cur:
            ex, bk, ot = g.iter_once(cond, inc, body, c, env, ft)
            outs += [Out('n', x) for x in ex] + ot
            nxt += bk
        cur = [a for a, _ in g.merge([(x, 0) for x in nxt if g.feasible(x)])]
        if not cur: break
    if cur: g.cut += 1
    return merge_outs(g, outs)

def unwound(g, s, cond, inc, body, st, env, first_test, limit):
    """complete unrolling: the state left after `limit` iterations must be unreachable (an obligation)"""
    outs = []; cur = [st]
    for n in range(limit + 1):
        nxt = []
        for c in cur:
            ex, bk, ot = g.iter_once(cond, inc, body, c, env, first_test)
            outs += [Out('n', x) for x in ex] + ot
            nxt += bk
        cur = [a for a, _ in g.merge([(x, 0) for x in nxt if g.feasible(x)])]
        if not cur: break
    for c in cur: g.check(c, z3.BoolVal(False), 'loop at %s ends within %d iterations' % (s.get('loc', '?'), limit), 'unwind')
    return merge_outs(g, outs)

def merge_outs(g, outs):
    n = [(o.st, 0) for o in outs if o.k == 'n']
    return [o for o in outs if o.k != 'n'] + [Out('n', a) for a, _ in g.merge(n)]

def cond_truth(g, cond, st, env):
    """truth of the loop test if decided syntactically and without side effects"""
    s2 = st.clone(); g.quiet += 1
    g.thr.append([]); g.choice_stack.append({'choices': [], 'pos': 0})
    try: return g.truth(s2, g.ev_cond(cond, s2, env))
    except (core.NeedFork, Dead): return None
    finally: g.quiet -= 1; g.thr.pop(); g.choice_stack.pop()

def try_concrete(g, s, cond, inc, body, st, env):
    if cond_truth(g, cond, st, env) is None: return None
    outs = []; cur = [st]
    for n in range(70):
        nxt = []
        for c in cur:
            t = cond_truth(g, cond, c, env)
            if t is None:
                outs += inductive(g, s, cond, inc, body, c, env, True); continue
            ex, bk, ot = g.iter_once(cond, inc, body, c, env, True)
            outs += [Out('n', x) for x in ex] + ot
            nxt += bk
        cur = nxt
        if not cur: return merge_outs(g, outs)
    raise Unsupported('concrete loop longer than 70 iterations')

_num = re.compile(r'~(\d+)')
def root_exists(root, limit):
    m = _num.search(root)
    return m is None or int(m.group(1)) < limit

class Item:
    """a modified piece of state: memory leaf or pointer index"""
    def __init__(self, key, kind, sub, entry): self.key, self.kind, self.sub, self.entry = key, kind, sub, entry
    def get(self, g, st):
        if self.kind == 'mem':
            t = st.mem.get(self.key)
            return t if t is not None else g.leaf_const(self.key[0], self.key[1], self.entry.sort())
        p = st.refs[self.key]
        if self.sub == 'idx': return p.idx
        return p.loc.idxs[self.sub] if isinstance(p, Ptr) else p.idxs[self.sub]
    def set(self, g, st, v):
        if self.kind == 'mem': st.mem[self.key] = v; return
        p = st.refs[self.key]
        if self.sub == 'idx': st.refs[self.key] = Ptr(p.kind, p.loc, v, p.ety)
        else:
            l = p.loc; ix = list(l.idxs); ix[self.sub] = v
            st.refs[self.key] = Ptr(p.kind, Loc(l.root, l.path, ix, l.ty, l.sl), p.idx, p.ety)
    def name(self):
        n = self.key[0].split('~')[0] + ('.' + '.'.join(self.key[1]) if self.key[1] else '')
        return n if self.kind == 'mem' else n + '@'

def diff_items(g, base, states, limit, items):
    have = {(i.key, i.kind, i.sub) for i in items}
    new = []
    for st in states:
        for k, t in st.mem.items():
            if k[0].startswith(('lit.', 'glob.')) or not root_exists(k[0], limit): continue
            if (k, 'mem', None) in have: continue
            if k[1] and k[1][-1] == '#w': continue
            o = base.mem.get(k)
            if o is None: o = g.leaf_const(k[0], k[1], t.sort())
            if not o.eq(t):
                have.add((k, 'mem', None)); new.append(Item(k, 'mem', None, o))
        for k, p in st.refs.items():
            if not root_exists(k[0], limit): continue
            q = base.refs.get(k)
            if q is p or q is None: 
                if q is None and k not in base.refs and root_exists(k[0], limit) and (k[0], k[1] + ('#w',)) in st.mem:
                    pass
                continue
            if isinstance(p, Ptr) and isinstance(q, Ptr):
                if p.kind == 'null' and q.kind == 'null': continue
                if p.kind != q.kind or p.loc.root != q.loc.root or p.loc.path != q.loc.path or p.ety != q.ety: raise Unsupported('pointer %s changes target in loop' % (k,))
                if isinstance(p.loc, BLoc): raise Unsupported('byte view pointer in loop')
                if p.idx is not None and not p.idx.eq(q.idx) and (k, 'ref', 'idx') not in have:
                    have.add((k, 'ref', 'idx')); new.append(Item(k, 'ref', 'idx', q.idx))
                for i, (x, y) in enumerate(zip(p.loc.idxs, q.loc.idxs)):
                    if not x.eq(y) and (k, 'ref', i) not in have:
                        have.add((k, 'ref', i)); new.append(Item(k, 'ref', i, y))
            elif isinstance(p, Loc) and isinstance(q, Loc):
                if not p.same(q): raise Unsupported('reference rebinding in loop')
    return new

class LoopCtx:
    """what contract hints see: values of items at an iteration"""
    def __init__(self, g, st, items, vals, it, entry): self.g, self.st, self.items, self.vals, self.it, self.entry = g, st, items, vals, it, entry

def inductive(g, s, cond, inc, body, st, env, first_test, stable=frozenset()):
    uw = g.unwind.get(g.where().rsplit('::', 1)[-1]) if g.unwind else None
    if uw: return unwound(g, s, cond, inc, body, st, env, first_test, uw)
    if not g.inductive: raise Unsupported('inductive loop disabled')
    limit = next(g.roots)
    loopid = '%s' % s.get('loc', '?')
    itn = z3.BitVec(fresh_name('it'), 64)
    items = []; closed = {}
    entry = st
    havoc = {}
    disc = g.discover
    def mkH(use_closed):
        h = entry.clone()
        for i in items:
            if use_closed and i in closed:
                c = closed[i]; w = i.entry.size() if c != 0 else 64
                i.set(g, h, core.add(i.entry, simp((itn if w == 64 else ext(w - 1, 0, itn)) * z3.BitVecVal(c, w))) if c != 0 else i.entry)
            else: i.set(g, h, havoc[i])
        return h
    def body_run(h):
        return g.iter_once(cond, inc, body, h, env, first_test)
    # 1. modified state
    g.quiet += 1; g.discover += 1
    nob = len(g.obls)
    try:
        for _ in range(12):
            for i in items:
                if i not in havoc: havoc[i] = z3.Const(fresh_name('hv_' + i.name()), i.entry.sort())
            h = mkH(False)
            ex, bk, ot = body_run(h.clone())
            new = diff_items(g, h, bk, limit, items)
            # entry value of a new item is its value at loop entry
            for i in new: i.entry = i.get(g, entry)
            if not new: break
            items += new
        else: raise Unsupported('loop modification set does not stabilise')
    finally:
        g.quiet -= 1; g.discover -= 1; del g.obls[nob:]
    if not bk:
        # body never loops back: a single pass is exact
        ex, bk, ot = body_run(entry.clone())
        return merge_outs(g, [Out('n', x) for x in ex] + ot)
    # 2. closed forms
    for i in items:
        if (i.key, i.kind, i.sub) in stable: closed[i] = 0; continue
        if not z3.is_bv(i.entry): continue
        ds = set()
        for b in bk:
            d = simp(i.get(g, b) - havoc[i])
            ds.add(d.as_long() if isnum(d) else None)
        if len(ds) == 1 and None not in ds: closed[i] = ds.pop()
    opened = [i for i in items if i not in closed]
    tr = {}
    for i in opened:
        f = z3.Function(fresh_name('tr_' + i.name()), BV64, i.entry.sort()); tr[i] = f; havoc[i] = f(itn)
    h0 = mkH(True)
    h0.pc.append(z3.ULT(itn, bv(1 << 62)))
    if disc:
        # only the shape of the modification matters to the caller
        g.quiet += 1
        try: ex, bk, ot = body_run(h0.clone())
        finally: g.quiet -= 1
        return merge_outs(g, [Out('n', x) for x in ex] + ot)
    # 3. one arbitrary iteration (quiet) to get the step
    c0 = next(fol._cnt); r0 = next(g.roots)
    g.quiet += 1
    try: ex, bk, ot = body_run(h0.clone())
    finally: g.quiet -= 1
    annotated = getattr(g, 'hints_only', False) and bool(g.loop_hints.get(g.where()))
    if annotated and g.hints_only == 'some':        # only the loops the hint has invariants for
        g.hint_facts = []; g.hint_it = itn; annotated = any(hint(g, LoopCtx(g, h0, items, {i: i.get(g, h0) for i in items}, itn, entry), env) for hint in g.loop_hints[g.where()])
    fmap = {}       # values born in iteration k, as functions of k
    hist = history(g, h0, bk, items, closed, tr, itn, c0, r0, fmap)
    base = [] if annotated is True else hist(itn)     # facts valid when `it` iterations were completed
    for i in opened: base.append(tr[i](bv(0)) == i.entry)
    # 4. candidate invariants
    g.hint_facts = []; g.hint_it = itn
    cands = gen_candidates(g, s, cond, h0, ex, bk, ot, items, closed, havoc, itn, entry, env, loopid, c0, r0, fmap)
    base += g.hint_facts       # instances of definitions of specification functions
    vals_h = {i: i.get(g, h0) for i in items}
    link = [f(itn) == z3.Const(n, f.range()) for n, f in fmap.items()] if len(bk) == 1 else []       # this iteration's own values
    good = []
    ent_vals = {i: i.entry for i in items}
    for c in cands:
        try: f = c.fn(ent_vals, bv(0))
        except KeyError: continue
        if f is None: continue
        if quick(g, entry.pc, f): good.append(c)
    nbk = [( {i: i.get(g, b) for i in items}, b) for b in bk]
    changed = True; rounds = 0
    while changed and good and rounds < 8:
        changed = False; rounds += 1
        hyp = [c.fn(vals_h, itn) for c in good] + base + link
        keep = []
        for c in good:
            ok = True
            for vals, b in nbk:
                f = c.fn(vals, simp(itn + 1))
                if not (split_last if c.split else quick)(g, b.pc + hyp, f, extra=(itn,)): ok = False; break
            if ok: keep.append(c)
            else: changed = True
        good = keep
    # state proved unchanged by every iteration is taken out of the loop's modified set
    un = {(c.unch.key, c.unch.kind, c.unch.sub) for c in good if getattr(c, 'unch', None) is not None}
    if un - stable: return inductive(g, s, cond, inc, body, entry.clone(), env, first_test, stable | un)
    g.invlog.append((g.where(), loopid, [c.name for c in good], [c.name for c in cands if c not in good and c.user]))
    for c in good: g.stat['inv'] = g.stat.get('inv', 0) + 1
    # 5. final run with the invariants
    h = h0.clone()
    for f in base: h.pc.append(f)
    for c in good: h.pc.append(c.fn(vals_h, itn))
    if len(bk) and any(c.user and c not in good for c in cands):
        g.failed_invs += [(g.where(), loopid, c.name) for c in cands if c.user and c not in good]
    ex, bk, ot = body_run(h)
    return merge_outs(g, [Out('n', x) for x in ex] + ot)

def split_last(g, hyps, f, extra=()):
    """a statement about all k: the case of the last iteration is taken apart"""
    if not isinstance(f, All) or len(f.vs) != 1: return quick(g, hyps, f, extra)
    v, it = f.vs[0], extra[0]
    return quick(g, hyps, substF(f.body, [(v, it)]), extra) and quick(g, hyps, All(f.vs, or_(v == it, f.body)), extra)

def quick(g, hyps, f, extra=()):
    f = b2(f)
    if not isF(f):
        f = simp(f)
        if z3.is_true(f): return True
    r = prove(hyps, f, timeout=g.inv_timeout, rounds=3, extra_terms=extra, want_model=False)
    g.stat['inv_queries'] = g.stat.get('inv_queries', 0) + 1
    g.stat['inv_time'] = g.stat.get('inv_time', 0) + r.t
    return r.status == 'valid'

def consts_of(t, seen, out):
    st = [t]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): st.append(x.body()); continue
        if not z3.is_app(x): continue
        if x.num_args() == 0:
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.append(x)
        else:
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.append(x)
            st.extend(x.children())
_fresh = re.compile(r'!(\d+)$')
def is_new(name, c0, r0):
    m = _fresh.search(name)
    if m: return int(m.group(1)) > c0
    m = _num.search(name)
    return m is not None and int(m.group(1)) > r0
def generalise(f, itn, k, c0, r0, fmap):
    """f with `it` := k and constants born in the iteration turned into functions of k; None if impossible"""
    if isF(f):
        if isinstance(f, All) :
            if len(f.vs) > 1: 
                b = generalise_body(f.body, itn, k, c0, r0, fmap, f.vs)
                return None if b is None else All(f.vs, b)
            b = generalise_body(f.body, itn, k, c0, r0, fmap, f.vs)
            return None if b is None else All(f.vs, b)
        if isinstance(f, AndF):
            xs = [generalise(x, itn, k, c0, r0, fmap) for x in f.xs]; return None if any(x is None for x in xs) else AndF(xs)
        if isinstance(f, OrF):
            xs = [generalise(x, itn, k, c0, r0, fmap) for x in f.xs]; return None if any(x is None for x in xs) else OrF(xs)
        if isinstance(f, NotF):
            x = generalise(f.x, itn, k, c0, r0, fmap); return None if x is None else NotF(x)
        if isinstance(f, Ex):
            b = generalise_body(f.body, itn, k, c0, r0, fmap, f.vs)
            return None if b is None else Ex(f.vs, b)
        return None
    out = []; consts_of(f, set(), out)
    sub = [(itn, k)]
    for x in out:
        if x.eq(itn): continue
        n = x.decl().name()
        if x.num_args() == 0:
            if n.startswith('?'): continue
            if is_new(n, c0, r0):
                if n not in fmap: fmap[n] = z3.Function(fresh_name('h_' + n.split('!')[0]), BV64, x.sort())
                sub.append((x, fmap[n](k)))
        elif is_new(n, c0, r0): return None
    return z3.substitute(f, *sub)
def generalise_body(b, itn, k, c0, r0, fmap, vs): return generalise(b, itn, k, c0, r0, fmap)

def history(g, h0, bk, items, closed, tr, itn, c0, r0, fmap):
    n0 = len(h0.pc)
    def facts(upto):
        res = []
        if len(bk) != 1: 
            # several unmergeable back edges: keep the disjunction of their ground facts
            return res
        b = bk[0]
        k = z3.BitVec(fresh_name('?h'), 64)
        parts = []
        for f in b.pc[n0:]:
            x = generalise(f, itn, k, c0, r0, fmap)
            if x is not None: parts.append(x)
        for i in tr:
            v = i.get(g, b)
            x = generalise(tr[i](simp(itn + 1)) == v if not (core.has_lam(v) if z3.is_array(v) else False) else z3.BoolVal(True), itn, k, c0, r0, fmap)
            if x is not None and not z3.is_true(x): parts.append(x)
        if z3.is_expr(upto):
            for p in parts:
                res.append(All([k], imp(z3.ULT(k, upto), p)))
                hn = (g.hist_n or {}).get(g.where().rsplit('::', 1)[-1], 0)
                if not isF(p):
                    for kk in range(hn): res.append(z3.Implies(z3.ULT(bv(kk), upto), z3.simplify(z3.substitute(p, (k, bv(kk))))))
                if not isF(p): res.append(z3.Implies(upto != 0, z3.substitute(p, (k, simp(upto - 1)))))
        return res
    return facts

class Cand:
    def __init__(self, name, fn, user=False, split=False): self.name, self.fn, self.user, self.split = name, fn, user, split

def atoms(t, out, seen):
    if not z3.is_expr(t) or t.get_id() in seen: return
    seen.add(t.get_id())
    if z3.is_app(t):
        k = t.decl().kind()
        if k in (z3.Z3_OP_ULEQ, z3.Z3_OP_SLEQ, z3.Z3_OP_ULT, z3.Z3_OP_SLT, z3.Z3_OP_UGEQ, z3.Z3_OP_SGEQ, z3.Z3_OP_UGT, z3.Z3_OP_SGT) or (k == z3.Z3_OP_EQ and z3.is_bv(t.arg(0))):
            out.append(t)
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES, z3.Z3_OP_ITE):
            for c in t.children(): atoms(c, out, seen)

def gen_candidates(g, s, cond, h0, ex, bk, ot, items, closed, havoc, itn, entry, env, loopid, c0, r0, fmap):
    cands = []
    hv = {i: i.get(g, h0) for i in items}
    hints = g.loop_hints.get(g.where(), []) + g.loop_hints.get('*', [])
    if hints and getattr(g, 'hints_only', False):
        for hint in hints:
            for c in hint(g, LoopCtx(g, h0, items, hv, itn, entry), env) or []: cands.append(c)
        if cands or g.hints_only != 'some': return cands
    def templ(t):
        """term over the havocked state -> function of (vals, it)"""
        sub_from = [(i, havoc[i]) for i in items if i not in closed]
        def fn(vals, it):
            sub = [(itn, it)]
            for i, hc in sub_from: sub.append((hc, vals[i]))
            return z3.substitute(t, *sub)
        return fn
    # monotonicity of open scalars
    for i in items:
        if i in closed or not z3.is_bv(i.entry): continue
        cands.append(Cand('%s >= entry' % i.name(), lambda v, it, i=i: z3.UGE(v[i], i.entry)))
        cands.append(Cand('%s <= entry' % i.name(), lambda v, it, i=i: z3.ULE(v[i], i.entry)))
        cands.append(Cand('%s <= it' % i.name(), lambda v, it, i=i: z3.ULE(v[i] if v[i].size() == 64 else zext(v[i], 64), it) if v[i].size() <= 64 else None))
        if v_is_len(i): cands.append(Cand('%s <= entry+it' % i.name(), lambda v, it, i=i: z3.ULE(v[i], i.entry + it)))
        if v_is_len(i): cands.append(Cand('%s sane' % i.name(), lambda v, it, i=i: z3.ULT(v[i], bv(core.SIZE_MAX_BOUND))))
    for i in items:
        if i not in closed:
            c = Cand('%s unchanged' % i.name(), lambda v, it, i=i: v[i] == i.entry); c.unch = i; cands.append(c)
    # narrow counters: the iteration count stays within the distance to zero / to the top (no wrap-around)
    for i in items:
        if i not in closed or not z3.is_bv(i.entry): continue
        if i.entry.size() == 64:
            if closed[i] == (1 << 64) - 1: cands.append(Cand('%s does not pass 0' % i.name(), lambda v, it, i=i: z3.ULE(it, i.entry)))
            continue
        w = i.entry.size(); c = closed[i]; c = c - (1 << w) if c >> (w - 1) else c
        if c == -1:
            cands.append(Cand('%s does not pass -1' % i.name(), lambda v, it, i=i, w=w: z3.If(i.entry < 0, it == 0, z3.ULE(it, zext(i.entry, 64) + 1))))
            cands.append(Cand('%s does not pass 0' % i.name(), lambda v, it, i=i, w=w: z3.ULE(it, zext(i.entry, 64))))
        elif c < -1: cands.append(Cand('%s does not pass 0' % i.name(), lambda v, it, i=i, c=c: z3.And(z3.ULE(it, bv(1 << 40)), z3.ULE(it * (-c), zext(i.entry, 64)))))
        elif c > 1: cands.append(Cand('%s does not wrap' % i.name(), lambda v, it, i=i, w=w, c=c: z3.And(z3.ULE(it, bv(1 << 40)), z3.ULE(zext(i.entry, 64) + it * c, bv((1 << w) - 1)))))
        elif c == 1: cands.append(Cand('%s does not wrap' % i.name(), lambda v, it, i=i, w=w: z3.ULE(zext(i.entry, 64) + it, bv((1 << w) - 1))))
    # pointers walking through a buffer stay inside it
    for i in items:
        if i.kind != 'ref' or i.sub != 'idx': continue
        p = h0.refs.get(i.key)
        if not isinstance(p, Ptr) or p.kind != 'elem' or (p.loc.root, p.loc.path + ('.len',)) in {j.key for j in items}: continue
        try: ln = g.rdleaf(h0, p.loc, ('.len',), BV64)
        except Exception: continue
        if not z3.is_bv(ln) or ln.size() != 64: continue
        c = closed.get(i)
        if c is None: cands.append(Cand('%s within its buffer' % i.name(), lambda v, it, i=i, ln=ln: z3.ULE(v[i], ln)))
        elif 0 < c < 1 << 32: cands.append(Cand('%s within its buffer' % i.name(), lambda v, it, i=i, ln=ln, c=c: z3.And(z3.ULE(i.entry, ln), z3.ULE(it, bv(1 << 44)), z3.ULE(it * c, ln - i.entry))))
    # comparisons of the loop test and of the exit conditions, weakened
    ats = []; seen = set()
    n0 = len(h0.pc)
    for st in ex + bk:
        for f in st.pc[n0:]:
            if not isF(f): atoms(f, ats, seen)
    ats = ats[:24]
    done = set()
    for a in ats:
        x, y = a.arg(0), a.arg(1)
        o = []; consts_of(a, set(), o)
        if any(is_new(c.decl().name(), c0, r0) for c in o): continue
        sg = a.decl().kind() in (z3.Z3_OP_SLEQ, z3.Z3_OP_SLT, z3.Z3_OP_SGEQ, z3.Z3_OP_SGT)
        for p, q, nm in ((x, y, '<='), (y, x, '<=')):
            t = (p <= q) if sg else z3.ULE(p, q)
            t = t if not z3.is_true(simp(t)) else None
            if t is None or t.get_id() in done: continue
            done.add(t.get_id()); core._selc[('keep', t.get_id())] = t
            cands.append(Cand('atom %d' % len(done), templ(t)))
    # arrays written at one affine index per iteration: frame + content
    for i in items:
        if i in closed or not z3.is_array(i.entry) or len(bk) != 1: continue
        v = i.get(g, bk[0])
        cands += array_cands(g, i, v, havoc[i], items, closed, itn, templ, bk[0], n0, c0, r0, fmap)
    for hint in g.loop_hints.get(g.where(), []) + g.loop_hints.get('*', []):
        for c in hint(g, LoopCtx(g, h0, items, hv, itn, entry), env) or []: cands.append(c)
    return cands

def v_is_len(i): return i.kind == 'mem' and i.key[1] and i.key[1][-1] == '.len'

def array_cands(g, i, v, hc, items, closed, itn, templ, b, n0, c0, r0, fmap):
    """v = Store*(hc, e(it), val(it)) : prefix content and frame"""
    res = []
    stores = []; t = v; conds = []
    while True:
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_STORE: stores.append((t.arg(1), t.arg(2))); t = t.arg(0); continue
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
            # conditional write: unify as a store of a conditional value when one side is the old array
            a, c = t.arg(1), t.arg(2)
            if a.eq(hc) or c.eq(hc):
                w = c if a.eq(hc) else a
                if z3.is_app(w) and w.decl().kind() == z3.Z3_OP_STORE and w.arg(0).eq(hc):
                    old = sel(hc, w.arg(1))
                    stores.append((w.arg(1), core.ite(t.arg(0), w.arg(2) if c.eq(hc) else old, old if c.eq(hc) else w.arg(2)))); t = hc
        break
    if not t.eq(hc) or not stores: return res
    opens = [h for h in items if h not in closed]
    def dep(x):
        o = []; consts_of(x, set(), o)
        ids = {y.decl().name() for y in o if y.num_args() == 1 and y.arg(0).eq(itn)}
        return {it2 for it2 in opens if it2.get(g, b) is not None and any(n.startswith('tr_') for n in ids) and any(n == _trname(it2, items) for n in ids)}
    idxs = [e for e, _ in stores]
    # frame below the entry length / constant indices untouched
    lens = [j for j in items if v_is_len(j) and j.key[0] == i.key[0] and i.key[1][:len(j.key[1]) - 1] == j.key[1][:-1]]
    fresh = any(isnum(simp(j.entry)) and simp(j.entry).as_long() == 0 for j in lens)      # a list that starts empty has no old content
    for j in lens if not fresh else []:
        res.append(Cand('frame below entry length of ' + i.name(), lambda vals, it, j=j: forall(bv(0), j.entry, lambda k: sel(vals[i], k) == sel(i.entry, k))))
    srt = v.sort().range()
    for e, val in stores:
        lin = linear_in(e, itn)
        if lin is not None and lin[1] == 1:
            lo = lin[0]
            if not fresh: res.append(Cand('frame of ' + i.name(), lambda vals, it, lo=lo: All1(lambda k: imp(not_(z3.And(z3.ULE(lo, k), z3.ULT(k, lo + it))), sel(vals[i], k) == sel(i.entry, k)))))
            # content: val with old element -> entry element
            val2 = z3.substitute(val, (z3.Select(hc, e), sel(i.entry, e)))
            o = []; consts_of(val2, set(), o)
            val2 = generalise(val2, itn, itn, c0, r0, fmap)
            if val2 is not None and not any(y.eq(hc) or (y.num_args() == 1 and y.decl().name().startswith('tr_') and y.arg(0).eq(itn)) for y in o):
                res.append(Cand('content of ' + i.name(), lambda vals, it, lo=lo, val2=val2: forall(bv(0), it, lambda k: sel(vals[i], simp(lo + k)) == z3.substitute(val2, (itn, k)))))
    return res
def _trname(i, items): return None
def linear_in(e, itn):
    if e.sort() != itn.sort(): return None
    a = simp(z3.substitute(e, (itn, bv(0)))); d = simp(z3.substitute(e, (itn, bv(1))) - a)
    if not isnum(d): return None
    if isnum(simp(e - a - itn * d)) and simp(e - a - itn * d).as_long() == 0: return a, d.as_long()
    return None
def All1(fn):
    k = z3.BitVec(fresh_name('?a'), 64)
    return All([k], fn(k))

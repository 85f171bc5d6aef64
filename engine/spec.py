"""Contracts: pre/postconditions over views of the symbolic state; verification of a function against its contract."""
import z3, time, itertools, traceback
from fol import *
import fol, core
from core import Loc, BLoc, Ptr, State, Env, Engine, Unsupported, Dead, Out, sel, simp, b2, ext, zext, sext, cat
from prog import ToolError

class View:
    """reads program state by field name; scalars come out as terms"""
    def __init__(self, g, st, loc): object.__setattr__(self, '_', (g, st, loc))
    def __getattr__(self, n):
        g, st, loc = self._
        if n == 'len': return g.clen(st, loc)
        if n.startswith('s_'):  # stream leaves
            return g.rdleaf(st, loc, ('.' + n[2:],), z3.BitVecSort(64 if n[2:] in ('len', 'pos', 'ppos') else 32))
        if n == 'data': return g.rdleaf(st, loc, ('[]',), z3.ArraySort(z3.BitVecSort(64), z3.BitVecSort(8) if g.is_stream(loc.ty) else g.sort(g.container_elem(loc.ty))))
        if n == 'props':
            l = Loc(loc.root, loc.path + ('props_*',), loc.idxs, g.props_cls()); return View(g, st, l)
        if g.rec(loc.ty) and g.rec(loc.ty).get('tmpl') == 'std::pair':
            i = ('first', 'second').index(n); l = Loc(loc.root, loc.path + (n,), loc.idxs, g.rec(loc.ty)['targs'][i])
        else: l = g.fld(st, loc, n)
        return self.mk(l)
    def mk(self, l):
        g, st, _ = self._
        if isinstance(l, Ptr): return l
        if g.is_class(l.ty) and not g.is_iter(l.ty): return View(g, st, l)
        return g.load(st, l)
    def __getitem__(self, i):
        g, st, loc = self._
        if isinstance(i, int): i = bv(i)
        return self.mk(g.elem(loc, i))
    def byte(self, i):
        g, st, loc = self._
        if isinstance(i, int): i = bv(i)
        return sel(self.data, i)
    def le(self, off, n):
        """little-endian value of n bytes at off (no bounds meaning)"""
        if isinstance(off, int): off = bv(off)
        return cat([self.byte(core.add(off, bv(i))) for i in reversed(range(n))]) if n > 1 else self.byte(off)
    @property
    def loc(self): return self._[2]
    def obj(self, cls):
        g, st, loc = self._
        return View(g, st, Loc(loc.root, loc.path, loc.idxs, cls))

class Side:
    pass
class Ctx:
    """old (c.o) and new (c.n) views, arguments, result, outcome"""
    def __init__(self, g, fn): self.g, self.fn = g, fn
    def a(self, i): return self.args_old[i]
    def an(self, i): return self.args_new[i]

class Contract:
    def __init__(self, qn, ensures=None, requires=None, throws=None, modifies=(), sel=None, label=None, safe=True, maythrow=False, anyexc=False, cfgs=(32, 64), hints=(), inline=True, pure=False, nounwind_frame=True, frame=True, exc_cls=('pe_bliss::pe_exception',), opts=None):
        self.qn, self.ensures, self.requires, self.throws, self.modifies, self.sel = qn, ensures, requires, throws, modifies, sel
        self.label = label or qn; self.safe, self.maythrow = safe, maythrow; self.cfgs = cfgs; self.hints = hints; self.inline = inline
        self.frame = frame; self.nounwind_frame = nounwind_frame; self.exc_cls = exc_cls; self.opts = opts or {}
    def matches(self, p):
        fs = p.find(self.qn)
        if self.sel: fs = [f for f in fs if self.sel(f)]
        return fs
    def mkctx(self, g, fn, obj, env, st):
        c = Ctx(g, fn); c.st0 = st.clone(); c.obj = obj
        c.locs = [env.vars.get(p['id']) for p in fn['params']]
        c.o = Side(); c.n = Side()
        if obj is not None: c.o.this = View(g, c.st0, obj)
        c.args_old = [self.argview(g, c.st0, l) for l in c.locs]
        return c
    def argview(self, g, st, l):
        if isinstance(l, (Loc, BLoc)):
            if g.is_class(l.ty) and not g.is_iter(l.ty): return View(g, st, l)
            try: return g.load(st, l)
            except Unsupported: return None
        return l
    def post(self, c, st, ret, thrown=None):
        g = c.g
        if c.obj is not None: c.n.this = View(g, st, c.obj)
        c.args_new = [self.argview(g, st, l) for l in c.locs]
        c.st1 = st; c.thrown = thrown
        rt = c.fn['ret']
        if isinstance(ret, (Loc, BLoc)) and g.is_class(ret.ty) and not g.is_iter(ret.ty): c.retloc = ret; c.ret = View(g, st, ret)
        elif isinstance(ret, (Loc, BLoc)): c.retloc = ret; c.ret = g.load(st, ret)
        else: c.ret = ret
        return c
    # --- use at call sites
    def apply(self, g, fn, obj, env, st):
        c = self.mkctx(g, fn, obj, env, st)
        s = st.clone()
        for lbl, f in norm(self.requires(c) if self.requires else []): g.check(s, f, 'precondition of %s: %s' % (self.label, lbl), 'pre')
        outs = []
        th = self.throws(c) if self.throws else (z3.Bool(fresh_name('maythrow')) if self.maythrow else z3.BoolVal(False))
        if th is None: th = z3.Bool(fresh_name('maythrow'))
        if not isF(th): th = simp(th)
        if isF(th) or not z3.is_false(th):
            s2 = s.clone(); s2.pc.append(b2(th))
            self.havoc(g, s2, c, fn)
            if isF(th) or g.feasible(s2): outs.append(Out('t', s2, {'cls': 'pe_bliss::pe_exception', 'loc': None, 'where': self.label}))
        if not isF(th) and z3.is_true(th): return outs
        s.pc.append(not_(th))
        ret = self.havoc(g, s, c, fn, True)
        self.post(c, s, ret)
        for lbl, f in norm(self.ensures(c) if self.ensures else []):
            s.pc.append(b2(f))
            if z3.is_expr(ret) and not isF(f) and z3.is_eq(f) and f.arg(0).eq(ret) and not mentions(f.arg(1), ret): ret = f.arg(1)     # the result is given by a term
        outs.append(Out('r', s, ret))
        return outs
    def havoc(self, g, s, c, fn, wantret=False):
        mods = self.modifies(c) if callable(self.modifies) else self.modifies
        for l in mods: havoc_loc(g, s, l)
        if not wantret: return None
        rt = fn['ret']; ty = g.T(rt)
        if ty['k'] == 'void': return None
        if 'ret' in self.opts: return self.opts['ret'](c, g, s)
        if g.is_class(rt) and not g.is_iter(rt):
            return g.temp('tmpret', rt)
        if ty['k'] in ('int', 'bool', 'enum', 'float'): return z3.Const(fresh_name('ret_' + fn['qn'].rsplit('::', 1)[-1]), g.sort(rt))
        raise Unsupported('contract result type of ' + fn['qn'])

def mentions(t, x):
    todo, seen = [t], set()
    while todo:
        a = todo.pop()
        if a.eq(x): return True
        if a.get_id() not in seen: seen.add(a.get_id()); todo += a.children()
    return False
def havoc_loc(g, s, loc):
    """forget the value at loc (all leaves below it)"""
    if loc.sl:
        g.store(s, loc, z3.Const(fresh_name('hv'), g.sort(loc.ty))); return
    d = sum(1 for x in loc.path if x == '[]') - len(loc.idxs)     # whole-container locations name every element
    for sfx, srt in g.leaves(loc.ty):
        srt = g.lift_sort(srt, d)
        g.wrleaf(s, loc, sfx, srt, z3.Const(fresh_name('hv'), srt))

def norm(r):
    if r is None: return []
    if not isinstance(r, (list, tuple)): r = [('post', r)]
    res = []
    for i, x in enumerate(r):
        if isinstance(x, tuple): res.append(x)
        else: res.append(('clause %d' % i, x))
    return res

class FnResult:
    def __init__(self): self.obls = []; self.error = None; self.notes = []; self.stat = {}

def initial(g, fn):
    st = State(); env = Env(None, None, fn)
    obj = None
    if fn.get('cls') and not fn.get('static') : 
        obj = Loc('this', (), [], fn['cls']); env.this = obj
    for i, p in enumerate(fn['params']):
        ty = g.T(p['t'])
        t = g.strip(p['t'])
        if t == 'pe_bliss::pe_properties': t = g.props_cls()
        if ty['k'] == 'ptr':
            l = Loc('a%d' % i, (), [], p['t'])
            t = '#heap ' + ty['to']; g.p.types.setdefault(t, {'k': 'heap'})
            st.refs[('a%d' % i, ())] = Ptr('elem', Loc('buf%d' % i, (), [], t), z3.BitVec('a%d.off' % i, 64), ty['to'])
        else: l = Loc('a%d' % i, (), [], t)
        env.vars[p['id']] = l
    return st, env, obj

def generate(prog, con, fn, cfg, contracts, mode='ded', unroll=3, opts=None):
    """obligations of one function against its contract"""
    g = Engine(prog, cfg, mode, unroll)
    g.contracts = {k: c for k, c in contracts.items()}
    g.no_contract = {fn['key']}
    for q, h in con.opts.get('loop_hints', {}).items(): g.loop_hints.setdefault(q, []).extend(h if isinstance(h, list) else [h])
    for k, v in con.opts.items():
        if k in ('inv_timeout', 'prune', 'maxdepth', 'unroll', 'unwind', 'hist_n', 'hints_only'): setattr(g, k, v)
    if con.opts.get('no_contracts') or mode == 'bmc': g.contracts = {}
    for uc in con.opts.get('use', ()) if mode != 'bmc' else ():
        for f in uc.matches(prog): g.contracts[f['key']] = uc
    for q in con.opts.get('inline', ()):
        for f in prog.find(q): g.no_contract.add(f['key'])
    st, env, obj = initial(g, fn)
    if con.opts.get('setup'): con.opts['setup'](g, st, env, obj)
    c = con.mkctx(g, fn, obj, env, st); c.proving = True
    for lbl, f in norm(con.requires(c) if con.requires else []): st.pc.append(b2(f))
    if opts and opts.get('assume'):
        for f in opts['assume'](c): st.pc.append(b2(f))
    if getattr(con, 'defs', None):
        for lbl, f in norm(con.defs(c)): st.pc.append(b2(f))      # definitions of specification functions at this state
    npre = len(st.pc); g.hint_ctx = c
    g.curfn.append(fn['qn'])
    c.st0 = st.clone()
    if obj is not None: c.o.this = View(g, c.st0, obj)
    c.args_old = [con.argview(g, c.st0, l) for l in c.locs]
    g.cur_loc = fn.get('loc', '')
    outs = g.exec_fn(fn, obj, env, st.clone())
    th = con.throws(c) if con.throws else None
    g.cur_loc = fn.get('endloc', '')
    covers = []
    for o in outs:
        if o.k == 'r':
            con.post(c, o.st, o.v)
            if th is not None and not con.opts.get('throws_only_if'): 
                for n_, d_ in enumerate(disjuncts(th)): g.obls.append(core.Obl(list(o.st.pc), not_(d_), 'returns only when the exceptional condition does not hold' + (' (case %d)' % (n_ + 1) if n_ else ''), g.cur_loc, 'nothrow', fn['qn']))
            for lbl, f in norm(con.ensures(c) if con.ensures else []) + norm(con.opts['post_proof'](c) if con.opts.get('post_proof') else []): g.obls.append(core.Obl(list(o.st.pc), b2(f), lbl, g.cur_loc, 'post', fn['qn']))
            if con.frame: frame_obls(g, con, c, o.st, fn)
            covers.append(('return', o.st.pc))
        elif o.k == 't':
            cls = o.v['cls']
            if cls not in con.exc_cls and not any(derives(prog, cls, x) for x in con.exc_cls):
                g.obls.append(core.Obl(list(o.st.pc), z3.BoolVal(False), 'exception of foreign type %s' % cls, o.v.get('where') or '', 'exctype', fn['qn']))
            elif th is None and not con.maythrow:
                g.obls.append(core.Obl(list(o.st.pc), z3.BoolVal(False), 'no exception expected', o.v.get('where') or '', 'throws', fn['qn']))
            elif th is not None:
                g.obls.append(core.Obl(list(o.st.pc), b2(th), 'throws only under the exceptional condition', o.v.get('where') or '', 'throws', fn['qn']))
            if con.opts.get('exc_ensures'):
                con.post(c, o.st, None, o.v)
                for lbl, f in norm(con.opts['exc_ensures'](c)): g.obls.append(core.Obl(list(o.st.pc), b2(f), 'on exception: ' + lbl, o.v.get('where') or '', 'excpost', fn['qn']))
            if con.opts.get('exc_frame') : frame_obls(g, con, c, o.st, fn, con.opts['exc_frame'])
            covers.append(('throw', o.st.pc))
    g.ctx = c; g.covers = covers; g.precond = st.pc[:npre]
    return g

def disjuncts(f):
    if isinstance(f, OrF): return [d for x in f.xs for d in disjuncts(x)]
    if not isF(f) and z3.is_or(f): return [d for x in f.children() for d in disjuncts(x)]
    return [f]
def derives(p, t, want):
    if t == want: return True
    r = p.records.get(t)
    if not r: return False
    return any(derives(p, p.types[b['t']]['name'], want) for b in r.get('bases', []))

def frame_obls(g, con, c, st, fn, extra=None):
    """every leaf of the pre-state objects not under modifies is unchanged"""
    mods = con.modifies(c) if callable(con.modifies) else con.modifies
    if mods == 'any': return
    roots = {'this'} | {'a%d' % i for i in range(len(fn['params']))} | {'buf%d' % i for i in range(len(fn['params']))}
    byval = {'a%d' % i for i, p in enumerate(fn['params']) if g.T(p['t'])['k'] not in ('ref', 'ptr')}
    for k in list(st.mem):
        root, path = k
        if root not in roots or root in byval: continue
        if path and path[-1] in ('#w', '#init'): continue
        t = st.mem[k]; o = c.st0.mem.get(k)
        if o is None: o = g.leaf_const(root, path, t.sort())
        if t.eq(o): continue
        ms = [m for m in mods if m.root == root and path[:len(m.path)] == m.path]
        if any(not m.idxs and not m.sl for m in ms): continue
        goal = frame_goal(t, o, [m for m in ms], 0)
        if z3.is_array(t) and path:
            # container content matters below its length only
            pth = path[:path.index('[]')] if '[]' in path else None
            if pth is not None:
                ln = c.st0.mem.get((root, pth + ('.len',)))
                if ln is None and not (g.T_path_arr(root, pth) if hasattr(g, 'T_path_arr') else False): ln = g.leaf_const(root, pth + ('.len',), z3.BitVecSort(64))
                goal = frame_goal(t, o, ms, 0, ln if has_len(g, root, pth) else None)
        g.obls.append(core.Obl(list(st.pc), goal, 'frame: %s.%s unchanged' % (root, '.'.join(path)), g.cur_loc, 'frame', fn['qn']))
def has_len(g, root, pth):
    return (root, pth) not in getattr(g, 'fixed_arrays', set())
def frame_goal(t, o, ms, d, ln=None):
    if not z3.is_array(t) :
        if any(len(m.idxs) <= d and m.sl is None for m in ms): return z3.BoolVal(True)
        sls = [m.sl for m in ms if m.sl]
        if sls:
            # union leaf: only the modified slice may change
            parts = []
            w = t.size(); mask = 0
            for lo, n, tot in sls: mask |= ((1 << n) - 1) << lo
            return (t & bv(~mask & ((1 << w) - 1), w)) == (o & bv(~mask & ((1 << w) - 1), w))
        return t == o
    def at(k):
        live = [m for m in ms if len(m.idxs) > d]
        ex = [m.idxs[d] == k for m in live]
        inner = frame_goal(sel(t, k), sel(o, k), [], d + 1)
        r = or_(*[and_(m.idxs[d] == k, frame_goal(sel(t, k), sel(o, k), [m], d + 1)) for m in live], inner)
        return r
    if any(len(m.idxs) <= d and m.sl is None for m in ms): return z3.BoolVal(True)
    k = z3.BitVec(fresh_name('?fr'), 64)
    b = at(k)
    if ln is not None: b = imp(z3.ULT(k, ln), b)
    return All([k], b)

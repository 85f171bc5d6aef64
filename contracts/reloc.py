"""C02: one relocated value. The bytes at the address move by the difference and nothing else does."""
from common import *
import sections, view
from view import VC
from sections import mapped_inv, covers, pick
RW = {'unsigned short': 2, 'unsigned int': 4, 'unsigned long': 8}
def pmod(c):
    g = c.g; l = c.locs[0]; ts = dict((x[0], x[1]) for x in g.fields('pe_bliss::section')); tp = dict((x[0], x[1]) for x in g.fields('pe_bliss::pe_base'))
    return [Loc(l.root, l.path + ('sections_', '[]', f), l.idxs, ts[f]) for f in ('raw_data_', 'old_size_')] + [Loc(l.root, l.path + ('full_headers_data_',), l.idxs, tp['full_headers_data_'])]
def parts(c): pe = c.a(0); n = RW[c.fn['ta'][0]]; return pe, w64(c.a(1)), n, pe.full_headers_data_.len
def req(c):
    pe = c.a(0); hl = pe.full_headers_data_.len
    return wf(pe) + [mapped_inv(pe), ('headers below 4 GiB', z3.ULT(hl, bv(1 << 32))), ('sections begin past the headers', forall(0, pe.sections_.len, lambda i: z3.ULE(hl, S(pe, i).va)))]
def pw(c, body): pe, rva, n, hl = parts(c); return first(pe.sections_.len, covers(pe, rva), body)
def inh(c): pe, rva, n, hl = parts(c); return z3.ULT(rva + n, hl)
def ins(c):
    pe, rva, n, hl = parts(c); return lambda w: z3.And(z3.ULT(w, pe.sections_.len), z3.ULE(rva - S(pe, w).va + n, S(pe, w).rawlen))
def throws(c): return pw(c, lambda w: z3.And(z3.Not(inh(c)), z3.Not(ins(c)(w))))
def moved(c, old, new, base):
    """the n bytes at base hold the old number plus the difference, little-endian"""
    n = RW[c.fn['ta'][0]]; num = lambda b: cat([b(base + k) for k in reversed(range(n))])
    return num(new) == num(old) + c.a(2)
def ensures(c):
    pe, rva, n, hl = parts(c); o, m = pe, c.an(0)
    def sec_same(i):
        a, b = S(o, i), S(m, i); return z3.And(a.rawlen == b.rawlen, b.inv(), z3.Implies(b.mapped, z3.UGE(b.len, b.avs)))
    def hdr(k): return m.full_headers_data_.byte(k)
    def hdo(k): return o.full_headers_data_.byte(k)
    def other(w):
        return forall(0, o.sections_.len, lambda i: forall(0, S(o, i).rawlen, lambda k: z3.Or(S(m, i).byte(k) == S(o, i).byte(k), z3.And(z3.Not(inh(c)), i == w, z3.ULE(rva - S(o, w).va, k), z3.ULT(k, rva - S(o, w).va + n))), 'k'))
    return [('headers keep their length', m.full_headers_data_.len == hl), ('sections keep their raw length', forall(0, o.sections_.len, sec_same)),
            ('a value in the headers moves by the difference', z3.Implies(inh(c), moved(c, hdo, hdr, rva))), ('the rest of the headers stays', forall(0, hl, lambda k: z3.Or(hdr(k) == hdo(k), z3.And(inh(c), z3.ULE(rva, k), z3.ULT(k, rva + n))))),
            ('a value in a section moves by the difference', pw(c, lambda w: z3.Implies(z3.Not(inh(c)), moved(c, S(o, w).byte, S(m, w).byte, rva - S(o, w).va)))), ('every other byte of the sections stays', pw(c, other))]
C('C02', 'pe_bliss::rebase_value', requires=req, throws=throws, ensures=ensures, modifies=pmod, opts={'nocall': True, 'quick_cfgs': (32,), 'use': []})
def good(s): return z3.And(s.inv(), z3.Implies(s.mapped, z3.UGE(s.len, s.avs)))
def kept(o, m):
    """headers and sections keep their lengths, and sections their representation"""
    return and_(m.full_headers_data_.len == o.full_headers_data_.len, forall(0, o.sections_.len, lambda i: z3.And(S(o, i).rawlen == S(m, i).rawlen, good(S(m, i)))))
# ---- the whole rebasing, over one arbitrary place of the image: a number of bytes at address GA, met by no entry but entry GJ of table GT (if there is one)
B64 = z3.BitVecSort(64)
USABLE = z3.Function('place_can_be_rebased', B64, B64, z3.BoolSort())        # bytes, address: depends on lengths and section headers only, which `kept` leaves alone
GA, GW, GT, GJ = (z3.BitVec('ghost.place_' + x, 64) for x in ('address', 'section', 'table', 'entry'))
C('C02', 'pe_bliss::rebase_value', label='rebase_value (lengths)', requires=req, throws=throws, ensures=lambda c: [('lengths kept', kept(c.a(0), c.an(0)))], modifies=pmod, opts={'nocall': True, 'quick_cfgs': (32,), 'use': []})
RB = 'pe_bliss::rebase_image_base'
def place(GN):
    def num(b): return cat([b(k) for k in reversed(range(GN))]) if GN > 1 else b(0)
    def hv(pe): return lambda k: pe.full_headers_data_.byte(GA + k)
    def sv(pe): return lambda k: S(pe, GW).byte(GA - S(pe, GW).va + k)
    def inhd(pe): return z3.ULE(GA + GN, pe.full_headers_data_.len)
    def value(pe):
        """the little-endian number at the place"""
        return z3.If(inhd(pe), num(hv(pe)), num(sv(pe)))
    def cut(v): return ext(8 * GN - 1, 0, v)
    def g_defs(c):
        pe, rva, n, hl = parts(c); s = S(pe, GW); p = covers(pe, GA)
        return req(c) + [('definition: usable places', pw(c, lambda w: USABLE(bv(n), rva) == z3.Or(inh(c), ins(c)(w)))), ('the place is below 4 GiB', z3.ULE(GA, bv((1 << 32) - GN))),
                         ('the place is in the headers or in the raw data of its section', or_(z3.ULE(GA + GN, hl), and_(z3.ULT(GW, pe.sections_.len), p(GW), forall(0, GW, lambda j: z3.Not(p(j)), 'j'), z3.ULE(GA - s.va + GN, s.rawlen))))]
    def apart(a, n): return z3.Or(z3.ULE(a + n, GA), z3.ULE(GA + GN, a))
    def g_ens(c):
        pe, rva, n, hl = parts(c); m = c.an(0); r = [('headers keep their length', m.full_headers_data_.len == hl)]
        for nm, cond, v in (('headers', inhd(pe), hv), ('section', z3.Not(inhd(pe)), sv)):
            if n == GN: r.append(('the same place in the %s moves by the difference' % nm, z3.Implies(z3.And(cond, rva == GA), num(v(m)) == num(v(pe)) + c.a(2))))
            r += [('byte %d of a place apart in the %s stays' % (k, nm), z3.Implies(z3.And(cond, apart(rva, n)), v(m)(k) == v(pe)(k))) for k in range(GN)]
        return r
    RV = VC('C02', 'pe_bliss::rebase_value', label='rebase_value (one place of %d bytes)' % GN, requires=view.fn_req, defs=g_defs, throws=lambda c: z3.Not(USABLE(bv(RW[c.fn['ta'][0]]), w64(c.a(1)))), ensures=g_ens, modifies=pmod, opts={'nocall': True, 'quick_cfgs': (32,) if GN == 1 else (), 'use': []})
    RV.mod = __name__
    def entry(c, t, j):
        """type, address and number of bytes of entry j of table t"""
        tb = c.a(1)[t]; e = tb.relocations_[j]; ty = w64(e.type_)
        return ty, w64(tb.rva_) + w64(e.rva_), z3.If(z3.Or(ty == 1, ty == 2), bv(2), z3.If(ty == 3, bv(4), bv(8)))
    def ok(c, t, j):
        ty, a, n = entry(c, t, j); return z3.Or(ty == 0, z3.And(z3.Or(ty == 1, ty == 2, ty == 3, ty == 10), z3.ULE(a, bv(0xffffffff)), USABLE(n, a)))
    def ntab(c): return c.a(1).len
    def nrel(c, t): return c.a(1)[t].relocations_.len
    def r_throws(c): return exists(0, ntab(c), lambda t: exists(0, nrel(c, t), lambda j: not_(ok(c, t, j)), 'j'), 't')
    def r_req(c):
        def sole(t, j):
            ty, a, n = entry(c, t, j); me = z3.And(t == GT, j == GJ); return z3.If(me, z3.And(a == GA, n == GN, ty != 0), z3.Or(ty == 0, apart(a, n)))
        return view.fn_req(c) + [('no other entry touches the place', forall(0, ntab(c), lambda t: forall(0, nrel(c, t), lambda j: sole(t, j), 'j'), 't'))]
    def moved_value(c):
        old = c.a(0); d = c.a(2) - ibase(old); ty = entry(c, GT, GJ)[0]; return cut(z3.If(ty == 1, z3.LShR(d, bv(16)), d)) + value(old)
    def r_hint(g, L, env):
        import loops
        c = g.hint_ctx; loc = c.a(0).loc; o = View(g, L.entry, loc)
        def at(vals):
            h = L.entry.clone()
            for i in L.items: i.set(g, h, vals[i])
            return View(g, h, loc)
        cur = [L.st.refs.get(i.key) for i in L.items if i.kind == 'ref' and i.sub == 'idx']
        cur = [p for p in cur if p is not None and p.kind == 'elem' and p.loc.root == c.a(1).loc.root]
        if len(cur) != 1:      # not walked by a pointer: nothing to state the invariants over
            g.failed_invs.append((g.where(), '', 'position')); return []
        ix = cur[0].loc.idxs; n = nrel(c, ix[0]) if ix else ntab(c)
        usable = (lambda j: ok(c, ix[0], j)) if ix else (lambda t: forall(0, nrel(c, t), lambda j: ok(c, t, j), 'j'))
        met = (lambda it: z3.And(GT == ix[0], z3.ULT(GJ, it), z3.ULT(GJ, nrel(c, ix[0])))) if ix else (lambda it: z3.And(z3.ULT(GT, it), z3.ULT(GJ, nrel(c, GT))))
        d = c.a(2) - ibase(c.a(0)); ty = entry(c, GT, GJ)[0]; mv = cut(z3.If(ty == 1, z3.LShR(d, bv(16)), d)) + value(o)
        return [loops.Cand('position', lambda vals, it: z3.ULE(it, n), True), loops.Cand('entries so far are usable', lambda vals, it: forall(0, it, usable, 't'), True),
                loops.Cand('headers keep their length', lambda vals, it: at(vals).full_headers_data_.len == o.full_headers_data_.len, True), loops.Cand('the place', lambda vals, it: value(at(vals)) == z3.If(met(it), mv, value(o)), True)]
    def r_ens(c):
        return [('the place moves by the difference if an entry names it, and stays otherwise', value(c.an(0)) == z3.If(z3.And(z3.ULT(GT, ntab(c)), z3.ULT(GJ, nrel(c, GT))), moved_value(c), value(c.a(0)))), ('the new base is stored', ibase(c.an(0)) == (w64(lo32(c.a(2))) if c.g.cfg == 32 else c.a(2)))]
    def r_mod(c): g = c.g; return pmod(c) + [g.fld(c.st0, g.fld(c.st0, nt(c.a(0)).loc, 'OptionalHeader'), 'ImageBase')]
    C('C02', RB, label='rebase_image_base (one place of %d bytes)' % GN, requires=r_req, throws=r_throws, ensures=r_ens, modifies=r_mod, opts={'nocall': True, 'quick_cfgs': {1: (32, 64), 2: (), 4: (), 8: ()}[GN], 'soft': True, 'use': [RV], 'loop_hints': {RB: r_hint}, 'inv_timeout': 60, 'hints_only': True})
for n in (1, 2, 4, 8): place(n)

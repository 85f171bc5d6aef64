"""Icon and cursor groups: the headers of a file from the bytes of a group."""
from common import *
NC = {'nocall': True}
RI = 'pe_bliss::resource_cursor_icon_reader::'
def cnt(d): return zext(cat([d.byte(bv(5)), d.byte(bv(4))]), 64)
def gbad(d): return z3.Or(z3.ULT(d.len, 6), z3.ULT(d.len, 6 + 14 * cnt(d)))
def hdrs(r, d, n):
    """byte r of an icon file: file header, then for each of n images the first eight bytes of its group entry and eight zeros"""
    return [('file header', z3.And(*[r(bv(q)) == d.byte(bv(q)) for q in range(6)]))] + [('byte %d of every directory entry' % k, forall(0, n, lambda j, k=k: r(6 + 16 * j + k) == (d.byte(6 + 14 * j + k) if k < 8 else bv(0, 8)), 'j')) for k in range(16)]
def fi_ens(c):
    d, r = c.a(1), c.an(0); n = cnt(d)
    return [('number of images', w64(c.ret) == n), ('one directory entry per image', r.len == 6 + 16 * n)] + hdrs(r.byte, d, n)
def fi_hint(g, L, env):
    import loops
    d = View(g, L.entry, Loc('a1', (), [], g.hint_ctx.locs[1].ty)); out = [loops.Cand('images so far', lambda vals, it: z3.ULE(it, cnt(d)), True), loops.Cand('the counter is the iteration', lambda vals, it: zext(ext(15, 0, it), 64) == it, True)]
    for i in L.items:
        if i.kind == 'mem' and i.key[0] == 'a0' and z3.is_array(i.entry): 
            for m in range(17): out.append(loops.Cand('headers so far (%d)' % m, lambda vals, it, i=i, m=m: hdrs(lambda q: sel(vals[i], q), d, it)[m][1], True, m > 0))
        if i.kind == 'mem' and i.key == ('a0', ('.len',)): out.append(loops.Cand('length so far', lambda vals, it, i=i: vals[i] == 6 + 16 * it, True))
    return out
C('N02', RI + 'format_icon_headers', requires=lambda c: [('resource below 4 GiB', z3.ULT(c.a(1).len, bv(1 << 32))), ('nothing collected yet', c.a(0).len == 0)], throws=lambda c: gbad(c.a(1)), modifies=lambda c: [c.locs[0]], ensures=fi_ens, cfgs=(32,), opts={'nocall': True, 'loop_hints': {RI + 'format_icon_headers': fi_hint}, 'inv_timeout': 20, 'hints_only': True})

# ---- one image of a group
def number(d, j): return cat([d.byte(18 + 14 * j + 1), d.byte(18 + 14 * j)])
def match(d, i): return lambda j: zext(number(d, j), 32) == i
def pres_hint(fn_):
    def h(g, L, env):
        import loops
        d = View(g, L.entry, Loc('a0', (), [], g.hint_ctx.locs[0].ty)); idv = g.load(L.entry, g.hint_ctx.locs[1])
        return [loops.Cand('entries seen', lambda vals, it: z3.ULE(it, cnt(d)), True), loops.Cand('the counter is the iteration', lambda vals, it: zext(ext(15, 0, it), 64) == it, True),
                loops.Cand('no match so far', lambda vals, it: forall(0, it, lambda j: not_(match(d, idv)(j)), 'j'), True, True)]
    return {RI + fn_: h}
def pres(c, d, i, r, o, entry, extra):
    """headers of a file with the first entry of the group that names the image"""
    n = cnt(d); P = match(d, i)
    hdr = z3.And(*[r.byte(bv(q)) == (d.byte(bv(q)) if q < 4 else bv(1 if q == 4 else 0, 8)) for q in range(6)])
    return [('found exactly when an entry has the number', iff(c.ret, exists(0, n, P))), ('nothing is collected when there is none', imp(z3.Not(c.ret), r.len == o.len)), ('headers of one image', imp(c.ret, and_(r.len == 22, hdr))),
            ('directory entry of the first match', imp(c.ret, exists(0, n, lambda j: and_(P(j), *[r.byte(bv(6 + k)) == e for k, e in enumerate(entry(j))], forall(0, j, lambda m: not_(P(m)), 'm')), 'j')))] + extra
P_REQ = lambda k: lambda c: [('resource below 4 GiB', z3.ULT(c.a(0).len, bv(1 << 32))), ('nothing collected yet', c.a(k).len == 0)]
ico = lambda d: lambda j: [d.byte(6 + 14 * j + k) for k in range(8)] + [bv(0, 8)] * 8
def cur(d, raw):
    def e(j):
        h = z3.LShR(cat([d.byte(6 + 14 * j + 3), d.byte(6 + 14 * j + 2)]), bv(1, 16))
        return [d.byte(6 + 14 * j), ext(7, 0, h), bv(0, 8), bv(0, 8)] + [raw.byte(bv(k)) for k in range(4)] + [bv(0, 8)] * 8
    return e
C('N02', RI + 'check_icon_presence', requires=P_REQ(2), throws=lambda c: gbad(c.a(0)), modifies=lambda c: [c.locs[2]], ensures=lambda c: pres(c, c.a(0), c.a(1), c.an(2), c.a(2), ico(c.a(0)), []), cfgs=(32,), opts={**NC, 'loop_hints': pres_hint('check_icon_presence'), 'inv_timeout': 10, 'hints_only': True})
C('N02', RI + 'check_cursor_presence', requires=P_REQ(2), throws=lambda c: or_(gbad(c.a(0)), and_(z3.ULT(c.a(3).len, 4), exists(0, cnt(c.a(0)), match(c.a(0), c.a(1))))), modifies=lambda c: [c.locs[2]], ensures=lambda c: pres(c, c.a(0), c.a(1), c.an(2), c.a(2), cur(c.a(0), c.a(3)), []), cfgs=(32,), opts={**NC, 'loop_hints': pres_hint('check_cursor_presence'), 'inv_timeout': 10, 'hints_only': True})
def ap_ens(c):
    o, n, im = c.a(0), c.an(0), c.a(2); e = 6 + 16 * zext(c.a(1), 64)
    le = lambda at, w: cat([n.byte(at + k) for k in reversed(range(w))])
    return [('image is appended', n.len == o.len + im.len), ('size of the image', le(e + 8, 4) == lo32(im.len)), ('place of the image', le(e + 12, 4) == lo32(o.len)), ('bytes of the image', forall(0, im.len, lambda q: n.byte(o.len + q) == im.byte(q))),
            ('everything else is kept', forall(0, o.len, lambda q: or_(and_(z3.ULE(e + 8, q), z3.ULT(q, e + 16)), n.byte(q) == o.byte(q))))]
C('N02', 'pe_bliss::append_image', requires=lambda c: [('the directory entry is there', z3.ULE(22 + 16 * zext(c.a(1), 64), c.a(0).len)), ('file below 4 GiB', z3.ULT(c.a(0).len + c.a(2).len, bv(1 << 32))), ('image below 4 GiB', z3.ULT(c.a(2).len, bv(1 << 32))), ('file so far below 4 GiB', z3.ULT(c.a(0).len, bv(1 << 32)))], modifies=lambda c: [c.locs[0]], ensures=ap_ens, cfgs=(32,), opts=NC)

"""Resource formats over the bytes of one resource: bitmaps, message tables, string tables."""
from common import *
from utils import STRIP
UCS = C('', 'pe_bliss::pe_utils::from_ucs2', label='from_ucs2 (assumed: a string of fewer than 2^40 characters or a documented exception)', maythrow=True, ensures=lambda c: z3.ULT(c.ret.len, bv(1 << 40)), opts={'nocall': True, 'assumed': True})
def bm_ens(c):
    d, r = c.a(0), c.ret; n = d.len; le = lambda v, o, w: cat([v.byte(bv(o + k)) for k in reversed(range(w))])
    clr, bits = le(d, 32, 4), le(d, 14, 2)
    off = 54 + z3.If(clr != 0, 4 * clr, z3.If(z3.ULE(bits, 8), bv(4, 32) << z3.ZeroExt(16, bits), bv(0, 32)))
    return [('length of the file', r.len == n + 14), ('signature', z3.And(r.byte(bv(0)) == 0x42, r.byte(bv(1)) == 0x4d)), ('total size', le(r, 2, 4) == lo32(n + 14)), ('reserved', le(r, 6, 4) == 0), ('offset of the pixels', le(r, 10, 4) == off),
            ('everything behind the file header is the resource', forall(0, n, lambda k: r.byte(k + 14) == d.byte(k)))]
C('N01', 'pe_bliss::resource_bitmap_reader::create_bitmap', requires=lambda c: [('resource below 4 GiB', z3.ULT(c.a(0).len, bv(1 << 32)))], throws=lambda c: z3.ULT(c.a(0).len, 40), ensures=bm_ens, opts={'nocall': True})
C('N04', 'pe_bliss::resource_string_table_reader::parse_string_list', requires=lambda c: [('resource below 4 GiB', z3.ULT(c.a(1).len, bv(1 << 32)))], maythrow=True, opts={'nocall': True, 'use': [UCS]})
def ml_hint(g, L, env):
    import loops
    d = View(g, L.entry, Loc('a0', (), [], g.hint_ctx.locs[0].ty)); return [loops.Cand('blocks so far', lambda vals, it: z3.ULE(it, zext(cat([d.byte(bv(k)) for k in (3, 2, 1, 0)]), 64)))]
ML = 'pe_bliss::resource_message_list_reader::parse_message_list'
C('N04', ML, requires=lambda c: [('resource below 4 GiB', z3.ULT(c.a(0).len, bv(1 << 32)))], maythrow=True, cfgs=(32,), opts={'nocall': True, 'use': [UCS, STRIP], 'hints_only': True, 'loop_hints': {ML: ml_hint}})

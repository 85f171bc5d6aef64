"""Utility functions, file checksum, image kind detection."""
from common import *
UT = 'pe_bliss::pe_utils::'
NC = {'nocall': True}
C('D02', UT + 'is_power_of_2', ensures=lambda c: [('true exactly for zero and powers of two', c.ret == z3.Or(c.a(0) == 0, z3.Or(*[c.a(0) == bv(1 << k, c.a(0).size()) for k in range(c.a(0).size())])))], opts=NC)
for t, w in (('unsigned int', 32), ('unsigned long', 64), ('unsigned short', 16)):
    areq = lambda c: [('alignment is a power of two', pow2(c.a(1))), ('alignment fits the value type', z3.ULE(c.a(1), bv(0x8000 if c.a(0).size() == 16 else 0x80000000, 32)))]
    def down(c):
        x, a, r = zx(c.a(0)), zx(c.a(1)), zx(c.ret)
        return [('a multiple of the alignment', (r & (a - 1)) == 0), ('not above the value', z3.ULE(r, x)), ('nearest: less than one alignment below', z3.ULT(x - r, a))]
    def up(c):
        W = c.a(0).size(); x, a, r = zx(c.a(0)), zx(c.a(1)), zx(c.ret); e = (x + a - 1) & ~(a - 1)
        return [('the nearest multiple not below the value (modulo the type width)', r == (e & bv((1 << W) - 1, 72)))]
    C('D02', UT + 'align_down', sel=ptypes(t, 'unsigned int'), requires=areq, ensures=down, opts=NC)
    C('D02', UT + 'align_up', sel=ptypes(t, 'unsigned int'), requires=areq, ensures=up, opts=NC)
def zx(x): return zext(x, 72)
# the forms used at call sites: an exact term
def al_req(c): return [('alignment is a power of two', pow2(c.a(1))), ('value below 2^40', z3.ULE(w64(c.a(0)), bv(1 << 40)))]
def al_ret(up): return lambda c, *x: ext(c.a(0).size() - 1, 0, (align_up if up else align_down)(c.a(0), c.a(1)))
ALUSE = [C('D02', UT + ('align_up' if up else 'align_down'), label='align_%s (%s, exact form)' % ('up' if up else 'down', t), sel=ptypes(t, 'unsigned int'), requires=al_req, ensures=lambda c, up=up: [('exact value', c.ret == al_ret(up)(c))], opts=dict(nocall=True, ret=al_ret(up)))
         for t in ('unsigned int', 'unsigned long') for up in (True, False)]
C('D02', UT + 'is_sum_safe', ensures=lambda c: [('true exactly when the sum does not wrap', c.ret == z3.ULE(zext(c.a(0), 64) + zext(c.a(1), 64), bv(0xffffffff)))], opts=NC)
def nullt(w):
    def req(c):
        p = c.args_old[0]; return [('the buffer holds the bound', z3.And(z3.ULT(p.idx, bv(1 << 40)), z3.ULT(c.a(1), bv(1 << 40)), z3.ULE(p.idx + z3.UDiv(c.a(1), bv(w)), c.g.clen(c.st0, p.loc))))]
    def ens(c):
        p = c.args_old[0]; v = View(c.g, c.st0, p.loc); n = z3.UDiv(c.a(1), bv(w))
        return [('found inside the bound', imp(c.ret, exists(0, n, lambda i: v.byte(p.idx + i) == 0))), ('not missed inside the bound', imp(not_(c.ret), forall(0, n, lambda i: v.byte(p.idx + i) != 0)))]
    return req, ens
for t, w in (('const char*', 1), ('const unsigned char*', 1), ('const unsigned short*', 2)):
    r, e = nullt(w)
    C('D02', UT + 'is_null_terminated', sel=ptypes(t, 'unsigned long'), requires=r, ensures=e, opts=NC)
STRIP = C('D02', UT + 'strip_nullbytes', requires=lambda c: [('length below 2^40', z3.ULT(c.a(0).len, bv(1 << 40)))], modifies=lambda c: [c.locs[0]], ensures=lambda c: [
    ('never longer', z3.ULE(c.an(0).len, c.a(0).len)), ('kept characters unchanged', forall(0, c.an(0).len, lambda i: c.an(0).byte(i) == c.a(0).byte(i))),
    ('only zeros dropped', forall(c.an(0).len, c.a(0).len, lambda i: c.a(0).byte(i) == 0)), ('no zero left at the end', z3.Or(c.an(0).len == 0, c.an(0).byte(c.an(0).len - 1) != 0))], opts=NC)
C('D02', 'pe_bliss::operator==', sel=lambda f: 'guid' in f['params'][0]['t'], ensures=lambda c: [('equal exactly when every field is equal', c.ret == z3.And(c.a(0).Data1 == c.a(1).Data1, c.a(0).Data2 == c.a(1).Data2, c.a(0).Data3 == c.a(1).Data3, *[c.a(0).Data4[i] == c.a(1).Data4[i] for i in range(8)]))], opts=NC)
# ---- streams
def sok(c, k=0): return [('stream is in good state', c.a(k).s_st == 0), ('position inside the stream', z3.ULE(c.a(k).s_pos, c.a(k).s_len)), ('stream is shorter than 2^40', z3.ULT(c.a(k).s_len, bv(1 << 40)))]
def restored(c, k=0): return [('read position as before', c.an(k).s_pos == c.a(k).s_pos), ('good state as before', c.an(k).s_st == 0), ('exception mask as before', c.an(k).s_exc == c.a(k).s_exc)]
def smod(c, k=0): 
    l = c.locs[k]; return [Loc(l.root, l.path + (s,), l.idxs, l.ty) for s in ('.pos', '.st', '.exc')]
C('D02', UT + 'get_file_size', requires=sok, modifies=smod, ensures=lambda c: [('the length of the stream', c.ret == c.a(0).s_len)] + restored(c), opts=NC)

# ---- file checksum: the documented one's-complement style sum, as a recursive specification function over the words of the file
DOS = 64
def dword(v, i):
    """little-endian 32-bit word at byte i, zero beyond the end"""
    n = v.s_len
    b = [z3.If(z3.ULT(i + k, n), v.byte(i + k), bv(0, 8)) for k in range(4)]
    return cat([b[3], b[2], b[1], b[0]])
SUM = z3.Function('pe_checksum_after_words', z3.BitVecSort(64), z3.BitVecSort(64))
def step(s, w):
    t = (s & 0xffffffff) + zext(w, 64) + z3.LShR(s, bv(32))
    return z3.If(z3.UGT(t, bv(1 << 32)), (t & 0xffffffff) + z3.LShR(t, bv(32)), t)
def lfanew(v, at): return cat([v.byte(at + 60 + k) for k in (3, 2, 1, 0)])
def ck_req(c):
    return sok(c) + [('definition of the word sum', SUM(bv(0)) == 0)]
def unfold(v, k):
    """definition of the word sum, one more word"""
    return SUM(k + 1) == z3.If(k * 4 == sext(lfanew(v, v.s_pos), 64) + 88, SUM(k), step(SUM(k), dword(v, k * 4)))
def bad_dos(v, at): return z3.Or(z3.UGT(at + DOS, v.s_len), v.byte(at) != 0x4d, v.byte(at + 1) != 0x5a)
def ck_post(c):
    v = c.a(0); n = v.s_len; s = SUM(z3.UDiv(n + 3, bv(4)))
    f = (s & 0xffff) + z3.LShR(s, bv(16)); f = f + z3.LShR(f, bv(16))
    return [('the documented checksum', c.ret == lo32((f & 0xffff) + n))] + restored(c)
def ck_hint(g, L, env):
    """invariants of the word loop: running sum, read position and state of the stream"""
    import loops
    g.hint_facts.append(unfold(View(g, core.State(), Loc('a0', (), [], 'std::basic_istream<char,std::char_traits<char>>')), L.it))
    out = []; n = z3.BitVec('a0..len', 64); nw = z3.UDiv(n + 3, bv(4))
    out.append(loops.Cand('word count', lambda vals, it: z3.ULE(it, nw), True))
    for i in L.items:
        if i.kind != 'mem': continue
        if 'checksum' in i.key[0] and z3.is_bv(i.entry): out.append(loops.Cand('running sum is the word sum', lambda vals, it, i=i: vals[i] == SUM(it), True))
        if i.key == ('a0', ('.pos',)): out.append(loops.Cand('position', lambda vals, it, i=i: vals[i] == z3.If(z3.ULE(it * 4, n), it * 4, n), True))
        if i.key == ('a0', ('.st',)): out.append(loops.Cand('state', lambda vals, it, i=i: vals[i] == z3.If(z3.ULE(it * 4, n), bv(0, 32), bv(6, 32)), True))
    return out
C('D01', 'pe_bliss::calculate_checksum', requires=ck_req, throws=lambda c: bad_dos(c.a(0), c.a(0).s_pos), modifies=smod, ensures=ck_post,
  opts={**NC, 'loop_hints': {'pe_bliss::calculate_checksum': ck_hint}, 'hints_only': True, 'inv_timeout': 30, 'exc_ensures': restored})
# ---- kind of an image in a stream
def magic_at(v): return sext(lfanew(v, v.s_pos), 64)
def rd(v, i, n): return cat([v.byte(i + k) for k in reversed(range(n))])
def bad_nt(c):
    v = c.a(0); e = magic_at(v); n = v.s_len
    m = rd(v, e + 24, 2)
    return z3.Or(bad_dos(v, v.s_pos), e < 0, z3.UGT(e + 120, n), rd(v, e, 4) != 0x4550, z3.And(m != 0x10b, m != 0x20b))
C('B03', PB + 'get_pe_type', sel=dl(1), requires=sok, throws=bad_nt, modifies=smod, ensures=lambda c: [('64-bit exactly for the 64-bit magic', (c.ret == (z3.BitVecVal(1, c.ret.size()))) == (rd(c.a(0), magic_at(c.a(0)) + 24, 2) == 0x20b)), ('one of the two kinds', z3.ULE(c.ret, z3.BitVecVal(1, c.ret.size())))] + restored(c), opts={**NC, 'exc_ensures': restored})
C('B03 B01', PB + 'read_dos_header', sel=dl(2), requires=lambda c: sok(c) + [('exceptions are off', c.a(0).s_exc == 0)], throws=lambda c: bad_dos(c.a(0), c.a(0).s_pos), modifies=lambda c: smod(c) + [c.locs[1]], ensures=lambda c: [('the header is the next 64 bytes', z3.And(c.an(1).e_magic == 0x5a4d, c.an(1).e_lfanew == lfanew(c.a(0), c.a(0).s_pos)))], opts=NC)
prop('D01', bounded=['checksum'], secs=8)
prop('D02', bounded=['utils'], secs=5)

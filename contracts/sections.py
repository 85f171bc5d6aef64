"""Section objects and bounded access to section data."""
from common import *
from addr import va_req

def inv(s): return z3.And(z3.ULE(s.len, bv(1 << 32)), z3.Implies(s.mapped, z3.ULE(s.old, s.len)))
def sinv(v): return inv(Sec(v, z3.BitVecVal(0x1000, 32)))
def rq(c): return [('section representation invariant', sinv(c.o.this))]
def same_hdr(c): return hdr_eq(c.n.this, c.o.this)
HF = ('VirtualAddress', 'SizeOfRawData', 'PointerToRawData', 'Characteristics', 'PointerToRelocations', 'PointerToLinenumbers', 'NumberOfRelocations', 'NumberOfLinenumbers')
def hdr_eq(a, b): return z3.And(*[getattr(a.header_, f) == getattr(b.header_, f) for f in HF], a.header_.Misc.VirtualSize == b.header_.Misc.VirtualSize)
def logical_same(n, o, al=0x1000):
    """same logical raw content"""
    x, y = Sec(n, z3.BitVecVal(al, 32)), Sec(o, z3.BitVecVal(al, 32))
    return [('logical raw length unchanged', x.rawlen == y.rawlen), ('logical raw bytes unchanged', forall(0, y.rawlen, lambda i: x.byte(i) == y.byte(i)))]
BUF = lambda c: [c.g.fld(c.st0, c.obj, 'raw_data_'), c.g.fld(c.st0, c.obj, 'old_size_')]
HDR = lambda *fs: lambda c: [c.g.fld(c.st0, c.g.fld(c.st0, c.obj, 'header_'), f) for f in fs]
VSZ = lambda c: [c.g.fld(c.st0, c.g.fld(c.st0, c.g.fld(c.st0, c.obj, 'header_'), 'Misc'), 'VirtualSize')]

C('A04', SEC + 'get_raw_data', requires=rq, modifies=BUF,
  ensures=lambda c: [('returns the buffer itself', z3.BoolVal(c.retloc.path == ('raw_data_',) and c.retloc.root == c.obj.root)), ('representation is unmapped', c.n.this.old_size_ == bv(-1)), ('length is the raw length', c.ret.len == Sec(c.o.this, bv(0x1000, 32)).rawlen)] + logical_same(c.n.this, c.o.this), opts={'nocall': True})
def virt_post(c):
    al = c.a(0); s0 = Sec(c.o.this, al); n = c.n.this; s1 = Sec(n, al)
    want = z3.If(z3.UGT(s0.avs, s0.rawlen), s0.avs, s0.rawlen)
    return [('invariant', inv(s1)), ('virtual length covers the aligned virtual size', z3.UGE(c.ret.len, z3.If(z3.And(s0.mapped), s0.len, want))),
            ('exact virtual length when not already mapped', z3.Implies(z3.Not(s0.mapped), c.ret.len == want)),
            ('bytes past the raw data read as zero', imp(z3.Not(s0.mapped), forall(s0.rawlen, c.ret.len, lambda i: c.ret.byte(i) == 0))),
            ] + logical_same(n, c.o.this)
def virt_req(c): return rq(c) + [('alignment is a power of two', pow2(c.a(0))), ('aligned virtual size below 4 GiB', z3.ULT(Sec(c.o.this, c.a(0)).avs, bv(1 << 32)))]
C('A04', SEC + 'get_virtual_data', requires=virt_req, modifies=BUF, ensures=virt_post, opts={'nocall': True})
C('A04', SEC + 'set_raw_data', modifies=BUF, ensures=lambda c: [('unmapped', c.n.this.old_size_ == bv(-1)), ('length', c.n.this.raw_data_.len == c.a(0).len), ('content', forall(0, c.a(0).len, lambda i: c.n.this.raw_data_.byte(i) == c.a(0).byte(i)))], opts={'nocall': True})
C('A04', SEC + 'empty', requires=rq, ensures=lambda c: [('empty iff raw length is zero', c.ret == (Sec(c.o.this, bv(0x1000, 32)).rawlen == 0))], opts={'nocall': True})
C('A04', SEC + 'set_name', modifies=HDR('Name'), ensures=lambda c: [('name truncated to eight bytes, zero padded', z3.And(*[w64(c.n.this.header_.Name[i]) == z3.If(z3.ULT(bv(i), c.a(0).len), w64(c.a(0).byte(i)), bv(0)) for i in range(8)]))], opts={'nocall': True})
def name_post(c):
    nm = c.o.this.header_.Name; n = bv(8)
    for i in reversed(range(8)): n = z3.If(nm[i] == 0, bv(i), n)
    return [('length up to first zero byte or eight', c.ret.len == n), ('content', forall(0, 8, lambda i: z3.Implies(z3.ULT(i, n), c.ret.byte(i) == nm[i])))]
C('A04', SEC + 'get_name', ensures=name_post, opts={'nocall': True})
FL = {'readable': 0x40000000, 'writeable': 0x80000000, 'executable': 0x20000000, 'shared': 0x10000000, 'discardable': 0x02000000}
for n, b in FL.items():
    C('A04', SEC + n, sel=dl(1), modifies=HDR('Characteristics'), ensures=lambda c, b=b: [('only the attribute bit changes', c.n.this.header_.Characteristics == z3.If(c.a(0), c.o.this.header_.Characteristics | b, c.o.this.header_.Characteristics & ~bv(b, 32)))], opts={'nocall': True})
    C('A04', SEC + n, sel=dl(0), ensures=lambda c, b=b: [('attribute bit', c.ret == ((c.o.this.header_.Characteristics & b) != 0))], opts={'nocall': True})
def avs_req(c): return [('alignment is a power of two', pow2(c.a(0))), ('fits 32 bits', z3.ULT(Sec(c.o.this, c.a(0)).avs, bv(1 << 32)))]
C('A04', SEC + 'get_aligned_virtual_size', requires=avs_req, ensures=lambda c: [('virtual size (raw size if zero) rounded up', w64(c.ret) == Sec(c.o.this, c.a(0)).avs)])
C('A04', SEC + 'get_aligned_raw_size', requires=lambda c: [('alignment is a power of two', pow2(c.a(0))), ('fits 32 bits', z3.ULT(align_up(c.o.this.header_.SizeOfRawData, c.a(0)), bv(1 << 32)))],
  ensures=lambda c: [('raw size rounded up', w64(c.ret) == align_up(c.o.this.header_.SizeOfRawData, c.a(0)))])
for g, f in (('get_virtual_address', 'VirtualAddress'), ('get_size_of_raw_data', 'SizeOfRawData'), ('get_pointer_to_raw_data', 'PointerToRawData'), ('get_characteristics', 'Characteristics')):
    C('A04', SEC + g, ensures=lambda c, f=f: c.ret == getattr(c.o.this.header_, f), opts={'nocall': True})
    C('A04', SEC + g.replace('get_', 'set_'), modifies=HDR(f), ensures=lambda c, f=f: getattr(c.n.this.header_, f) == c.a(0), opts={'nocall': True})
C('A04', SEC + 'get_virtual_size', ensures=lambda c: c.ret == c.o.this.header_.Misc.VirtualSize, opts={'nocall': True})
C('A04', SEC + 'set_virtual_size', modifies=VSZ, ensures=lambda c: c.n.this.header_.Misc.VirtualSize == c.a(0), opts={'nocall': True})
C('A04', SEC + '#ctor', sel=lambda f: not f['params'], modifies='any', ensures=lambda c: [('starts empty', z3.And(c.n.this.raw_data_.len == 0, c.n.this.old_size_ == bv(-1), *[getattr(c.n.this.header_, f) == 0 for f in HF]))], opts={'nocall': True})

# ---- bounded reads through the image
def vw(pe, i, raw): return pe
def bufmod(c):
    o = c.obj; g = c.g
    ts = {f[0]: f[1] for f in g.fields('pe_bliss::section')}
    return [Loc(o.root, o.path + ('sections_', '[]', f), o.idxs, ts[f]) for f in ('raw_data_', 'old_size_')]
def view_len(s, raw): return z3.If(raw, s.rawlen, z3.If(s.mapped, s.len, z3.If(z3.UGT(s.avs, s.rawlen), s.avs, s.rawlen)))
def view_byte(s, raw, i): return z3.If(z3.Or(z3.ULT(i, s.rawlen)), s.byte(i), z3.If(s.mapped, s.byte(i), bv(0, 8)))
def tsize(c): return c.g.p.sizeof(c.fn['ta'][0])
def pick(bs): return list(enumerate(bs)) if len(bs) <= 8 else [(k, b) for k, b in enumerate(bs) if k < 4 or k >= len(bs) - 4]
def ret_bytes(c):
    g = c.g
    if hasattr(c, 'retloc') and c.ret is not None and isinstance(c.ret, View): return g.obj_bytes(c.st1, c.retloc)
    v = g.to_raw(c.ret, {'k': 'int'}) if not z3.is_bool(c.ret) else g.to_raw(c.ret, {'k': 'bool'})
    return [ext(8 * i + 7, 8 * i, v) for i in range(v.size() // 8)]
def mapped_inv(pe): return ('mapped sections hold exactly their aligned virtual size and are zero past the raw bytes', forall(0, pe.sections_.len, lambda i: and_(S(pe, i).inv(), z3.Implies(S(pe, i).mapped, z3.UGE(S(pe, i).len, S(pe, i).avs)))))
def rd_ensures(c):
    pe = c.o.this; hl = pe.full_headers_data_.len; rva = w64(c.a(0)); n = tsize(c); raw = c.a(1) == 0
    bs = ret_bytes(c)
    inh = z3.And(c.a(2), z3.ULE(rva + n, hl))
    def at(i):
        s = S(pe, i); o = rva - s.va
        return z3.And(z3.ULT(i, pe.sections_.len), z3.ULE(o + n, view_len(s, raw)), *[b == view_byte(s, raw, o + k) for k, b in pick(bs)])
    hd = z3.And(inh, *[b == pe.full_headers_data_.byte(rva + k) for k, b in pick(bs)])
    return [('value is the bytes at that address, all inside the headers or the section view', first(pe.sections_.len, covers(pe, rva), lambda w: z3.Or(hd, at(w))))]
def covers(pe, rva): return lambda i: S(pe, i).inside(w64(rva))
def rd_throws(c):
    pe = c.o.this; rva = w64(c.a(0)); n = tsize(c); raw = c.a(1) == 0; hl = pe.full_headers_data_.len
    ok = lambda i: z3.And(z3.ULT(i, pe.sections_.len), z3.ULE(rva - S(pe, i).va + n, view_len(S(pe, i), raw)))
    return first(pe.sections_.len, covers(pe, rva), lambda w: z3.And(z3.Not(z3.And(c.a(2), z3.ULT(rva + n, hl))), z3.Not(ok(w))))
def rd_req(c): return wf(c.o.this) + [mapped_inv(c.o.this), ('view selector', z3.ULE(c.a(1), bv(1, 32))), ('headers below 4 GiB', z3.ULT(c.o.this.full_headers_data_.len, bv(1 << 32)))]
READ0 = C('', PB + 'section_data_from_rva', sel=lambda f: f.get('ta') and len(f['params']) == 3 and f['params'][0]['t'] == 'unsigned int', requires=rd_req, throws=rd_throws, ensures=rd_ensures, modifies=bufmod, opts={'nocall': True, 'quick_cfgs': (32,)})

# ---- totals, remaining lengths, pointers
def hl(c): return c.o.this.full_headers_data_.len
def win(c, body): return first(c.o.this.sections_.len, covers(c.o.this, c.a(0)), body)
def nsec(c): return c.o.this.sections_.len
def llen(s, raw): return z3.If(raw, s.rawlen, s.avs)
def len_req(k): return lambda c: wf(c.o.this) + [('view selector', z3.ULE(c.a(k), bv(1, 32))), ('headers below 4 GiB', z3.ULT(hl(c), bv(1 << 32))), ('raw data below 4 GiB', forall(0, nsec(c), lambda i: z3.ULT(S(c.o.this, i).len, bv(1 << 32))))]
C('A03', PB + 'section_data_length_from_rva', sel=ptypes('unsigned int', 'enum pe_bliss::section_data_type', 'bool'), requires=len_req(1), modifies=bufmod,
  throws=lambda c: win(c, lambda w: z3.And(w == nsec(c), z3.Not(z3.And(c.a(2), z3.ULT(w64(c.a(0)), hl(c)))))),
  ensures=lambda c: [('total length of the headers or of the section view', win(c, lambda w: w64(c.ret) == z3.If(z3.And(c.a(2), z3.ULT(w64(c.a(0)), hl(c))), hl(c), llen(S(c.o.this, w), c.a(1) == 0))))])
def rem(s, raw, rva): return z3.If(z3.UGE(rva - s.va, llen(s, raw)), bv(0), llen(s, raw) - (rva - s.va))
def inh2(c): return z3.And(c.a(3), z3.ULT(w64(c.a(0)), hl(c)), z3.ULT(w64(c.a(1)), hl(c)))
C('A03', PB + 'section_data_length_from_rva', sel=ptypes('unsigned int', 'unsigned int', 'enum pe_bliss::section_data_type', 'bool'), requires=len_req(2), modifies=bufmod,
  throws=lambda c: win(c, lambda w: z3.And(z3.Not(inh2(c)), z3.Or(w == nsec(c), z3.ULT(w64(c.a(1)), S(c.o.this, w).va)))),
  ensures=lambda c: [('bytes from the inner address to the end of the view, zero when past it', win(c, lambda w: w64(c.ret) == z3.If(inh2(c), hl(c) - w64(c.a(1)), rem(S(c.o.this, w), c.a(2) == 0, w64(c.a(1))))))])
def sarg(c): return Sec(c.a(0), salign(c.o.this))
def sreq(k=None, lim=1 << 32): return lambda c: [('section alignment is a power of two', pow2(salign(c.o.this))), ('section ends below 4 GiB', sarg(c).wf()), ('raw data is below the limit', z3.ULT(sarg(c).len, bv(lim)))] + ([('view selector', z3.ULE(c.a(k), bv(1, 32)))] if k else [])
def smod(c): return [c.g.fld(c.st0, c.locs[0], 'raw_data_'), c.g.fld(c.st0, c.locs[0], 'old_size_')]
C('A03', PB + 'section_data_length_from_rva', sel=ptypes('const pe_bliss::section&', 'unsigned int', 'enum pe_bliss::section_data_type'), modifies=smod,
  requires=lambda c: sreq(2, 1 << 31)(c) + [('view below 2 GiB', z3.ULT(sarg(c).avs, bv(1 << 31)))],
  throws=lambda c: z3.Not(sarg(c).inside(w64(c.a(1)))),
  ensures=lambda c: [('bytes from the address to the end of the view, zero when past it', w64(c.ret) == rem(sarg(c), c.a(2) == 0, w64(c.a(1)))), ('section representation invariant', sinv(c.an(0)))] + logical_same(c.an(0), c.a(0)))
def sread_throws(c):
    s = sarg(c); rva = w64(c.a(1)); n = tsize(c)
    return z3.Not(z3.And(s.inside(rva), z3.ULE(rva + n, bv(0xffffffff)), z3.ULE(rva - s.va + n, view_len(s, c.a(2) == 0))))
def ptr_in(c, path, idx, ln):
    p = c.ret
    if not isinstance(p, core.Ptr) or p.kind != 'elem' or p.loc.path != path: return [('pointer into the expected buffer', z3.BoolVal(False))]
    return [('pointer is at the displacement of the address', p.idx == idx), ('pointer does not pass the end of the buffer', z3.ULE(p.idx, ln))]
def new_rawlen(c, sec_idx):
    return c.n.this.sections_[sec_idx].raw_data_.len
def ptr_post(c):
    p = c.ret
    if isinstance(p, core.Ptr) and p.kind == 'elem' and p.loc.path == ('full_headers_data_',): return [('header pointer', z3.And(p.idx == w64(c.a(0)), z3.ULT(p.idx, hl(c))))]
    if isinstance(p, core.Ptr) and p.kind == 'elem' and p.loc.path == ('sections_', '[]', 'raw_data_'):
        i = p.loc.idxs[0]
        return [('pointer into the section that contains the address', win(c, lambda w: i == w)), ('pointer is at the displacement of the address', p.idx == w64(c.a(0)) - S(c.o.this, i).va), ('pointer does not pass the end of the buffer', z3.ULE(p.idx, new_rawlen(c, i)))]
    return [('pointer into the headers or a section buffer', z3.BoolVal(False))]
C('A03', PB + 'section_data_from_rva', sel=both(ptypes('unsigned int', 'bool')), requires=lambda c: wf(c.o.this), modifies=bufmod,
  throws=lambda c: win(c, lambda w: z3.And(z3.Not(z3.And(c.a(1), z3.ULT(w64(c.a(0)), hl(c)))), z3.Or(w == nsec(c), S(c.o.this, w).rawlen == 0, z3.UGT(w64(c.a(0)) - S(c.o.this, w).va, S(c.o.this, w).rawlen)))), ensures=ptr_post, opts={'nocall': True})
def ptrv_len(s, raw): return z3.If(raw, s.rawlen, s.avs)
C('A03', PB + 'section_data_from_rva', sel=both(lambda f: not f.get('ta'), ptypes('unsigned int', 'enum pe_bliss::section_data_type', 'bool')), modifies=bufmod, requires=lambda c: wf(c.o.this) + [mapped_inv(c.o.this), ('view selector', z3.ULE(c.a(1), bv(1, 32)))],
  throws=lambda c: win(c, lambda w: z3.And(z3.Not(z3.And(c.a(2), z3.ULT(w64(c.a(0)), hl(c)))), z3.Or(w == nsec(c), z3.And(c.a(1) == 0, z3.UGT(w64(c.a(0)) - S(c.o.this, w).va, S(c.o.this, w).rawlen))))), ensures=ptr_post, opts={'nocall': True})
def sptr_post(c):
    p = c.ret
    if isinstance(p, core.Ptr) and p.kind == 'elem' and p.loc.root == c.locs[0].root and p.loc.path[-1:] == ('raw_data_',):
        return [('pointer is at the displacement of the address', p.idx == w64(c.a(1)) - sarg(c).va), ('pointer does not pass the end of the buffer', z3.ULE(p.idx, c.an(0).raw_data_.len))]
    return [('pointer into the section buffer', z3.BoolVal(False))]
C('A03', PB + 'section_data_from_rva', sel=ptypes('pe_bliss::section&', 'unsigned int'), requires=sreq(), modifies=smod,
  throws=lambda c: z3.Or(z3.Not(sarg(c).inside(w64(c.a(1)))), sarg(c).rawlen == 0, z3.UGT(w64(c.a(1)) - sarg(c).va, sarg(c).rawlen)), ensures=sptr_post, opts={'nocall': True})
C('A03', PB + 'section_data_from_rva', sel=both(lambda f: not f.get('ta'), ptypes('const pe_bliss::section&', 'unsigned int', 'enum pe_bliss::section_data_type')), modifies=smod,
  requires=lambda c: sreq(2)(c) + [('mapped sections hold their aligned virtual size', z3.Implies(sarg(c).mapped, z3.UGE(sarg(c).len, sarg(c).avs)))],
  throws=lambda c: z3.Or(z3.Not(sarg(c).inside(w64(c.a(1)))), z3.And(c.a(2) == 0, z3.UGT(w64(c.a(1)) - sarg(c).va, sarg(c).rawlen))), ensures=sptr_post, opts={'nocall': True})
def sread_post(c):
    s = sarg(c); o = w64(c.a(1)) - s.va; raw = c.a(2) == 0; bs = ret_bytes(c)
    return [('value is the bytes at that address, all inside the section view', z3.And(z3.ULE(o + tsize(c), view_len(s, raw)), *[b == view_byte(s, raw, o + k) for k, b in pick(bs)]))]
TS = lambda f: f.get('ta') and len(f['params']) == 3 and f['params'][0]['t'] == 'const pe_bliss::section&'
def sread_req(c): return sreq(2)(c) + [('mapped sections hold their aligned virtual size', z3.Implies(sarg(c).mapped, z3.UGE(sarg(c).len, sarg(c).avs)))]
C('A03', PB + 'section_data_from_rva', sel=TS, requires=sread_req, throws=sread_throws, modifies=smod, ensures=sread_post, opts={'nocall': True})
# the same through a virtual address
class ByVA:
    """the context seen by the RVA form: argument k is the RVA of the virtual address given"""
    def __init__(self, c, ks): self.__dict__.update(c=c, ks=ks)
    def __getattr__(self, n): return getattr(self.c, n)
    def a(self, i): return lo32(self.va(i)) if i in self.ks else self.c.a(i)
    def va(self, i): return w64(self.c.a(i)) - ibase(self.c.o.this)
    def bad(self): return z3.Or(*[z3.UGT(self.va(k), bv(0xffffffff)) for k in self.ks])
def byva(ks, requires, throws, ensures):
    return dict(requires=lambda c: va_req(c) + requires(ByVA(c, ks)), throws=lambda c: or_(ByVA(c, ks).bad(), throws(ByVA(c, ks))), ensures=lambda c: ensures(ByVA(c, ks)))
def find(sel, name): return next(x for x in ALL if x.qn == PB + name and x.sel is sel)
def vaof(name, con, ks, sel, modifies, quick=(32,), ta=None): C('A03', PB + name.replace('_rva', '_va'), sel=sel, modifies=modifies, opts={'nocall': True, 'quick_cfgs': quick, 'use': [] if name == 'section_data_from_rva' and not ta else [con]}, **byva(ks, con.requires, con.throws, con.ensures))
IT = ('unsigned int', 'unsigned long')
R = [x for x in ALL if x.qn.startswith(PB + 'section_data')]
def by(name, *ts, ta=None):
    pt = list(ts); d = {'params': [{'t': t} for t in pt], 'ta': ta}
    return next(x for x in R if x.qn == PB + name and x.sel(d))
EN = 'enum pe_bliss::section_data_type'
for t in IT:
    D = 'section_data_from_rva'
    vaof(D, by(D, 'unsigned int', 'bool'), (0,), ptypes(t, 'bool'), bufmod)
    vaof(D, by(D, 'unsigned int', EN, 'bool'), (0,), both(lambda f: not f.get('ta'), ptypes(t, EN, 'bool')), bufmod)
    vaof(D, by(D, 'unsigned int', EN, 'bool', ta=['unsigned int']), (0,), both(lambda f: f.get('ta') == ['unsigned int'], ptypes(t, EN, 'bool')), bufmod, (32,) if t == IT[0] else (), ta=1)
    vaof(D, by(D, 'pe_bliss::section&', 'unsigned int'), (1,), ptypes('pe_bliss::section&', t), smod)
    vaof(D, by(D, 'const pe_bliss::section&', 'unsigned int', EN), (1,), both(lambda f: not f.get('ta'), ptypes('const pe_bliss::section&', t, EN)), smod)
    N = 'section_data_length_from_rva'
    vaof(N, by(N, 'unsigned int', EN, 'bool'), (0,), ptypes(t, EN, 'bool'), bufmod)
    vaof(N, by(N, 'unsigned int', 'unsigned int', EN, 'bool'), (0, 1), ptypes(t, t, EN, 'bool'), bufmod)
    vaof(N, by(N, 'const pe_bliss::section&', 'unsigned int', EN), (1,), ptypes('const pe_bliss::section&', t, EN), smod)
prop('A03', secs=20)
prop('A04')

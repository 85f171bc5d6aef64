"""The logical image: what bounded reads deliver, as functions of the address, the view and the number of bytes.
The directory readers are specified over these functions; the access functions are proved to compute them (definitions
`defs` tie the functions to the headers and sections) and to leave the logical image as it is."""
from common import *
import common, sections
from sections import view_len, view_byte, mapped_inv, bufmod, tsize, covers
B64, BOOL = z3.BitVecSort(64), z3.BoolSort()
IMG = z3.Bool('ghost.image_is_well_formed')
RD = z3.Function('image_byte', BOOL, BOOL, B64, B64, B64, z3.BitVecSort(8))      # raw view, headers included, bytes read, address, byte
OK = z3.Function('image_readable', BOOL, BOOL, B64, B64, BOOL)                    # raw view, headers included, bytes read, address
TOT = z3.Function('image_total', BOOL, BOOL, B64, z3.BitVecSort(32)); TOK = z3.Function('image_has', BOOL, BOOL, B64, BOOL)
ROK = z3.Function('image_rest_known', BOOL, BOOL, B64, B64, BOOL); REM = z3.Function('image_rest', BOOL, BOOL, B64, B64, z3.BitVecSort(32))
NC = {'nocall': True}
class VC(Contract):
    """definitions are assumed while the body is verified; callers see the abstract form only"""
    def __init__(self, props, qn, **kw):
        self.defs = kw.pop('defs'); Contract.__init__(self, qn, **kw); self.props = props.split(); self.mod = __name__; ALL.append(self)
def img_inv(pe):
    """exactly mapped sections"""
    return sections.wf(pe) + [('mapped sections hold exactly their virtual data, zero past the raw bytes', forall(0, pe.sections_.len, lambda i: exact(S(pe, i)))), ('headers below 4 GiB', z3.ULT(pe.full_headers_data_.len, bv(1 << 32)))]
def mx(s): return z3.If(z3.UGT(s.avs, s.rawlen), s.avs, s.rawlen)
def exact(s): return z3.And(s.inv(), z3.Implies(s.mapped, s.len == mx(s)))
def zero_tail(s): return forall(s.rawlen, s.len, lambda i: z3.Implies(s.mapped, s.byte(i) == 0), 'z')
def img_inv(pe):
    return wf(pe) + [('mapped sections hold exactly their virtual data', forall(0, pe.sections_.len, lambda i: exact(S(pe, i)))), ('mapped sections are zero past the raw bytes', forall(0, pe.sections_.len, lambda i: zero_tail(S(pe, i)))),
                     ('headers below 4 GiB', z3.ULT(pe.full_headers_data_.len, bv(1 << 32)))]
def preserved(c):
    """the logical image is the same afterwards"""
    o, n = c.o.this, c.n.this
    def same(i):
        a, b = S(o, i), S(n, i)
        return and_(exact(b), zero_tail(b), a.rawlen == b.rawlen, forall(0, a.rawlen, lambda k: a.byte(k) == b.byte(k), 'p'))
    return [('the logical image is unchanged', forall(0, o.sections_.len, same, 's'))]
def fn_req(c): return [('the image is well-formed', IMG)]
def sect_at(pe, rva, n, raw): return lambda w: z3.And(z3.ULT(w, pe.sections_.len), z3.ULE(rva - S(pe, w).va + n, view_len(S(pe, w), raw)))
THOROUGH = common.THOROUGH
# --- typed reads
def rargs(c): return (c.a(1) == 0, c.a(2), bv(tsize(c)), w64(c.a(0)))
def rd_defs(c):
    pe = c.o.this; raw, hdr, n, rva = rargs(c); hl = pe.full_headers_data_.len
    inh = z3.And(hdr, z3.ULT(rva + n, hl)); ok = OK(raw, hdr, n, rva); N = tsize(c)
    def d(w):
        s = S(pe, w); o = rva - s.va
        body = lambda k: z3.Implies(ok, RD(raw, hdr, n, rva, k) == z3.If(inh, pe.full_headers_data_.byte(rva + k), view_byte(s, raw, o + k)))
        return and_(forall(0, N, body, 'b') if N > 8 else z3.And(*[body(bv(k)) for k in range(N)]), ok == z3.Or(inh, sect_at(pe, rva, n, raw)(w)))
    return sections.rd_req(c) + [('definition of the logical image at this address', first(pe.sections_.len, covers(pe, rva), d))]
def rd_ens(c):
    raw, hdr, n, rva = rargs(c)
    bs = list(enumerate(sections.ret_bytes(c)))
    if getattr(c, 'proving', False) and not THOROUGH: bs = sections.pick([b for _, b in bs])     # wide reads: the inner bytes are left to the thorough run
    return [('bytes %d.. of the value are those of the logical image at that address' % bs[i][0], z3.And(*[b == RD(raw, hdr, n, rva, bv(k)) for k, b in bs[i:i + 2]])) for i in range(0, len(bs), 2)]
TYPED = sections.READ0.sel
READ = VC('A03', PB + 'section_data_from_rva', sel=TYPED, requires=fn_req, defs=rd_defs, throws=lambda c: z3.Not(OK(*rargs(c))), ensures=rd_ens, modifies=bufmod, opts={**NC, 'quick_cfgs': (32,), 'replay_as': sections.READ0})
KEEP = C('A03', PB + 'section_data_from_rva', label='section_data_from_rva (logical image kept)', sel=TYPED, requires=lambda c: img_inv(c.o.this), maythrow=True, ensures=preserved, modifies=bufmod, opts={**NC, 'quick_cfgs': (32,)})
# --- totals and remaining lengths
def keep(con): return C('A03', con.qn, label=con.qn + ' (logical image kept)', sel=con.sel, requires=lambda c: img_inv(c.o.this) + con.requires(c), maythrow=True, ensures=preserved, modifies=bufmod, opts={**NC, 'quick_cfgs': (32,)})
def lift(con, args, ok, val, word):
    """abstract form of a proved contract con: the result is the function val of the arguments, an exception exactly when not ok"""
    def defs(c):
        """both sides name the same choice of section"""
        return con.requires(c) + [('definition: exceptional', iff(ok(*args(c)), not_(con.throws(c)))), ('definition: value', imp(ok(*args(c)), word(c, val(*args(c)))))]
    r = VC('A03', con.qn, sel=con.sel, requires=fn_req, defs=defs, throws=lambda c: z3.Not(ok(*args(c))), ensures=lambda c: [('the value is that of the logical image', c.ret == val(*args(c)))], modifies=bufmod, opts={**NC, 'quick_cfgs': (32,), 'replay_as': con})
    keep(con); return r
class AsRet:
    """context in which the result is the given term"""
    def __init__(self, c, v): self.__dict__.update(c=c, ret=v)
    def __getattr__(self, n): return getattr(self.c, n)
def as_ret(con): return lambda c, v: and_(*[f for _, f in norm(con.ensures(AsRet(c, v)))])
def by(name, *ts):
    f = {'params': [{'t': t} for t in ts], 'ta': None}
    return next(x for x in ALL if x.mod == 'sections' and x.qn == PB + name and x.sel(f))
EN = sections.EN
L1, L2 = by('section_data_length_from_rva', 'unsigned int', EN, 'bool'), by('section_data_length_from_rva', 'unsigned int', 'unsigned int', EN, 'bool')
TOTAL = lift(L1, lambda c: (c.a(1) == 0, c.a(2), w64(c.a(0))), TOK, TOT, as_ret(L1))
REST = lift(L2, lambda c: (c.a(2) == 0, c.a(3), w64(c.a(0)), w64(c.a(1))), ROK, REM, as_ret(L2))
# --- pointers: a buffer of their own that holds what the logical image has from that address on
PLEN = z3.Function('image_tail_length', BOOL, BOOL, B64, B64); PBA = z3.Function('image_tail', BOOL, BOOL, B64, z3.ArraySort(B64, z3.BitVecSort(8))); POK = z3.Function('image_pointer', BOOL, BOOL, B64, BOOL)
P3 = by('section_data_from_rva', 'unsigned int', EN, 'bool')
def pargs(c): return (c.a(1) == 0, c.a(2), w64(c.a(0)))
def p_defs(c):
    pe = c.o.this; raw, hdr, rva = a = pargs(c); hl = pe.full_headers_data_.len; inh = z3.And(hdr, z3.ULT(rva, hl))
    def d(w):
        s = S(pe, w); o = rva - s.va; ln = z3.If(inh, hl - rva, view_len(s, raw) - o)
        return and_(imp(POK(*a), z3.And(PLEN(*a) == ln, z3.ULE(PLEN(*a), bv(1 << 33)))), forall(0, ln, lambda k: z3.Implies(POK(*a), sel(PBA(*a), k) == z3.If(inh, pe.full_headers_data_.byte(rva + k), view_byte(s, raw, o + k))), 'b'))
    r = c.args_old; d2 = L2.ensures(AsRet(Arg(c, [c.a(0), c.a(0), c.a(1), c.a(2)]), REM(raw, hdr, rva, rva))); t2 = L2.throws(Arg(c, [c.a(0), c.a(0), c.a(1), c.a(2)]))
    return sections.rd_req(c) + [('raw data below 4 GiB', forall(0, pe.sections_.len, lambda i: z3.ULT(S(pe, i).len, bv(1 << 32)))), ('definition: exceptional', iff(POK(*a), not_(P3.throws(c)))), ('definition: tail of the logical image', first(pe.sections_.len, covers(pe, rva), d)),
                                 ('definition: remaining length, exceptional', iff(ROK(raw, hdr, rva, rva), not_(t2))), ('definition: remaining length', imp(ROK(raw, hdr, rva, rva), and_(*[f for _, f in norm(d2)])))]
class Arg:
    """context with other arguments"""
    def __init__(self, c, args): self.__dict__.update(c=c, args=args)
    def __getattr__(self, n): return getattr(self.c, n)
    def a(self, i): return self.args[i]
def p_ens(c):
    raw, hdr, rva = a = pargs(c); r = [('the rest of the view is there', z3.Implies(ROK(raw, hdr, rva, rva), z3.UGE(PLEN(*a), w64(REM(raw, hdr, rva, rva))))), ('the rest is sane', z3.ULE(PLEN(*a), bv(1 << 33)))]
    if getattr(c, 'proving', False):
        p = c.ret; v = View(c.g, c.st1, p.loc); hd = p.loc.path == ('full_headers_data_',)
        r += sections.ptr_post(c) + [('the buffer holds the rest of the view from there', v.len == p.idx + PLEN(*a)), ('and its bytes', forall(0, PLEN(*a), lambda k: sel(v.data, p.idx + k) == sel(PBA(*a), k)))]
    return r
def p_ret(c, g, s):
    t = '#heap const char'; g.p.types.setdefault(t, {'k': 'heap'}); h = '#heap char'; g.p.types.setdefault(h, {'k': 'heap'})
    l = Loc(g.newroot('img'), (), [], h); a = pargs(c)
    s.mem[(l.root, ('.len',))] = PLEN(*a); s.mem[(l.root, ('[]',))] = PBA(*a)
    return core.Ptr('elem', l, bv(0), 'char')
POINT = VC('A03', PB + 'section_data_from_rva', sel=P3.sel, requires=fn_req, defs=p_defs, throws=lambda c: z3.Not(POK(*pargs(c))), ensures=p_ens, modifies=bufmod, opts={**NC, 'quick_cfgs': (32,), 'replay_as': P3, 'ret': p_ret})
keep(P3)
USE = [READ, TOTAL, REST, POINT]

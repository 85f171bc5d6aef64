"""Loading and writing images: the parts of the stored image that are plain state, and the header recalculation before writing."""
from common import *
from headers import floc, fv
from sections import inv, hdr_eq
from accessors import deq, getter
from utils import ALUSE
from layout import hloc, bloc, base_req, F32, soi
O = PB
NC = {'nocall': True}
def G(props, n, f, **kw): C(props, O + n, ensures=getter(f), opts=NC, cfgs=(32,), **kw)
G('B02', 'has_overlay', 'has_overlay_'); G('B02', 'get_full_headers_data', 'full_headers_data_'); G('B02 B04', 'get_stub_overlay', 'rich_overlay_')
G('B02', 'get_dos_header', 'dos_header_')
G('B02', 'get_image_sections', 'sections_', sel=const(True))
G('B02', 'get_image_sections', 'sections_', sel=const(False))
def fl(c, f): return [c.g.fld(c.st0, c.o.this.loc, f)]
C('B02 B04', O + 'set_stub_overlay', cfgs=(32,), modifies=lambda c: fl(c, 'rich_overlay_'), opts=NC, ensures=lambda c: [('the stub is the data given', deq(c.g, c.st1, c.g.fld(c.st1, c.n.this.loc, 'rich_overlay_'), c.st0, c.locs[0]))])
C('B02 B04', O + 'strip_stub_overlay', cfgs=(32,), modifies=lambda c: fl(c, 'rich_overlay_'), opts=NC, ensures=lambda c: [('no stub is left', c.n.this.rich_overlay_.len == 0)])
C('B02 B04', O + 'fill_stub_overlay', cfgs=(32,), modifies=lambda c: fl(c, 'rich_overlay_'), opts=NC, ensures=lambda c: [('length unchanged', c.n.this.rich_overlay_.len == c.o.this.rich_overlay_.len), ('every byte is the one given', forall(0, c.n.this.rich_overlay_.len, lambda i: c.n.this.rich_overlay_.byte(i) == c.a(0)))])

# ---- header recalculation before writing
class On:
    """the context of a contract whose object is argument k"""
    def __init__(self, c, k=0):
        self.g, self.st0 = c.g, c.st0; self.o = type('S', (), {})(); self.o.this = c.a(k); self.locs = c.locs
SUMR = z3.Function('aligned_raw_sizes_before', z3.BitVecSort(64), z3.BitVecSort(64))     # ghost: sum of the aligned raw sizes of the sections before k
def SM(k): return z3.If(k == 0, bv(0), SUMR(k))
START = z3.BitVec('ghost.start_of_section_data', 64)
def PTR(c, k): return START + SM(k)
def strip(c): return c.a(2)
def data_start(c, pe, stub=None):
    """file offset behind the section table, and the aligned start of section data"""
    ntsz = bv(248 if c.g.cfg == 32 else 264); l = z3.If(strip(c), bv(0), align_up(c.a(0).rich_overlay_.len, bv(4)))
    head = z3.If(strip(c), bv(16), bv(64)) + l + ntsz - 8 * zext(bv(16, 32) - opt(pe).NumberOfRvaAndSizes, 64) + 40 * pe.sections_.len
    return head
def has_bi(pe): return z3.And(z3.UGT(opt(pe).NumberOfRvaAndSizes, bv(11, 32)), opt(pe).DataDirectory[bv(11)].VirtualAddress != 0)
def bi(c): return z3.And(c.a(4), has_bi(c.a(0)))
def start(c): 
    h = data_start(c, c.a(0)); d = z3.If(bi(c), h + w64(opt(c.a(0)).DataDirectory[bv(11)].Size), h)
    return align_up(d, falign(c.a(0)))
def contrib(pe, k):
    h = pe.sections_[k].header_; return z3.If(h.SizeOfRawData == 0, bv(0), align_up(h.SizeOfRawData, falign(pe)))
def rb_req(c):
    pe = c.a(0); n = pe.sections_.len
    return [('section alignment is a power of two', pow2(salign(pe))), ('file alignment is a power of two', pow2(falign(pe))), ('directory count is at most sixteen', z3.ULE(opt(pe).NumberOfRvaAndSizes, bv(16, 32))),
            ('section count is sane', z3.ULE(n, bv(0x60))), ('last section ends below 4 GiB', z3.Or(n == 0, S(pe, n - 1).wf())), ('stub is shorter than 2 GiB', F32(2 * pe.rich_overlay_.len)), ('headers end below 4 GiB', F32(start(c))),
            ('raw sizes fit 32 bits', forall(0, n, lambda k: F32(align_up(pe.sections_[k].header_.SizeOfRawData, falign(pe))), 'r')),
            ('definition of the start of section data', START == start(c)), ('the file is shorter than 4 GiB', forall(0, n + 1, lambda k: z3.And(F32(SM(k)), F32(PTR(c, k))), 'q'))]
def rb_throws(c): pe = c.a(0); return z3.And(c.a(3), pe.sections_.len != 0, z3.UGT(lo32(start(c)), (pe.sections_[bv(0)].header_.VirtualAddress)))
def rb_hint(g, L, env):
    import loops
    c = g.hint_ctx
    v = View(g, L.entry, Loc('a0', (), [], 'pe_bliss::pe_base')); n = v.sections_.len
    g.hint_facts.append(imp(z3.ULT(L.it, n), SUMR(L.it + 1) == SM(L.it) + contrib(v, L.it)))
    out = [loops.Cand('section count', lambda vals, it: z3.ULE(it, n), True)]
    for i in L.items:
        if i.kind == 'mem' and z3.is_bv(i.entry) and i.entry.size() == 64: out.append(loops.Cand('next data offset', lambda vals, it, i=i: vals[i] == PTR(c, it), True))
        if i.kind == 'mem' and i.key[1] and i.key[1][-1] == '.PointerToRawData' or (i.kind == 'mem' and z3.is_array(i.entry)):
            out.append(loops.Cand('offsets written so far', lambda vals, it, i=i: forall(0, it, lambda j: sel(vals[i], j) == z3.If(v.sections_[j].header_.SizeOfRawData != 0, lo32(PTR(c, j)), sel(i.entry, j)), 'w'), True))
            out.append(loops.Cand('rest untouched', lambda vals, it, i=i: forall(it, n, lambda j: sel(vals[i], j) == sel(i.entry, j), 'u'), True))
    return out
def rb_post(c):
    o, n = c.a(0), c.an(0); k = o.sections_.len; h = data_start(c, o); dh = c.an(1)
    lf = z3.If(strip(c), fv(n, 'O.BaseOfCode'), dh.e_lfanew)
    stub = z3.If(strip(c), bv(0), align_up(o.rich_overlay_.len, bv(4)))
    return [('the header offset names the place behind the stub', w64(lf) == z3.If(strip(c), bv(16), 64 + stub)), ('stub is dropped exactly when asked', n.rich_overlay_.len == z3.If(strip(c), bv(0), o.rich_overlay_.len)),
            ('header size is the aligned end of everything in front of the data, if wanted', hsize(n) == z3.If(c.a(3), lo32(start(c)), hsize(o))),
            ('section count', w64(fv(n, 'F.NumberOfSections')) == k), ('optional header size', w64(fv(n, 'F.SizeOfOptionalHeader')) == bv(224 if c.g.cfg == 32 else 240) - 8 * (bv(16) - w64(opt(o).NumberOfRvaAndSizes))),
            ('image ends with its last section', imp(k != 0, soi(n) == (lambda s: s.va + s.avs)(S(o, k - 1)))),
            ('bound import data goes behind the section table', opt(n).DataDirectory[bv(11)].VirtualAddress == z3.If(bi(c), lo32(h), opt(o).DataDirectory[bv(11)].VirtualAddress)),
            ('every section with raw data points at its place, right behind the previous one', forall(0, k, lambda j: z3.Implies(o.sections_[j].header_.SizeOfRawData != 0, w64(n.sections_[j].header_.PointerToRawData) == PTR(c, j)), 'p')),
            ('sections without raw data keep their pointer', forall(0, k, lambda j: z3.Implies(o.sections_[j].header_.SizeOfRawData == 0, n.sections_[j].header_.PointerToRawData == o.sections_[j].header_.PointerToRawData), 'p')),
            ('DOS header is that of the image', z3.And(dh.e_magic == o.dos_header_.e_magic, dh.e_lfarlc == o.dos_header_.e_lfarlc, dh.e_cblp == o.dos_header_.e_cblp, dh.e_sp == o.dos_header_.e_sp))]
def rb_mod(c):
    k = On(c); g = c.g; h = g.fld(c.st0, g.fld(c.st0, g.fld(c.st0, c.locs[0], 'sections_'), '[]') if False else g.elem(g.fld(c.st0, c.locs[0], 'sections_'), bv(0)), 'header_')
    p = g.fld(c.st0, h, 'PointerToRawData'); p = Loc(p.root, p.path, [], p.ty)
    dd = g.fld(c.st0, g.fld(c.st0, nt(c.a(0)).loc, 'OptionalHeader'), 'DataDirectory')
    return [c.locs[1], g.fld(c.st0, c.locs[0], 'rich_overlay_'), p, g.fld(c.st0, g.elem(dd, bv(11)), 'VirtualAddress')] + floc(k, 'O.BaseOfCode', 'O.SizeOfHeaders', 'O.SizeOfImage', 'F.NumberOfSections', 'F.SizeOfOptionalHeader')
C('B04', 'pe_bliss::rebuild_pe', sel=lambda f: 'image_dos_header' in f['params'][1]['t'], requires=rb_req, throws=rb_throws, modifies=rb_mod, ensures=rb_post, opts={**NC, 'loop_hints': {'pe_bliss::rebuild_pe': rb_hint}, 'inv_timeout': 20, 'use': ALUSE})
prop('B01', level='other', bounded=['b01'], secs=12)
prop('B02', level='other', bounded=['b02'], secs=12)
prop('B03', level='other', bounded=['b03'], secs=12)
prop('B04', level='other', bounded=['b04'], secs=15)

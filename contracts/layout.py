"""Keeping the section table, raw sizes and image size consistent while sections are added, resized and realigned."""
from common import *
from headers import floc, fv
from sections import inv, sinv, hdr_eq, HF, pow2
O = 'pe_bliss::pe_base::'
NC = {'nocall': True}
def base_req(c): return [('section alignment is a power of two', pow2(salign(c.o.this))), ('file alignment is a power of two', pow2(falign(c.o.this)))]
def soi(pe): return w64(opt(pe).SizeOfImage)
def F32(x): return z3.ULT(x, bv(1 << 32))
def hloc(c, base, *fs):
    g = c.g; h = g.fld(c.st0, base, 'header_'); out = []
    for f in fs:
        l = h
        for part in f.split('.'): l = g.fld(c.st0, l, part)
        out.append(l)
    return out
def bloc(c, base): return [c.g.fld(c.st0, base, 'raw_data_'), c.g.fld(c.st0, base, 'old_size_')]
def A0(c): return Sec(c.a(0), salign(c.o.this))
def A0n(c): return Sec(c.an(0), salign(c.o.this))
def prep(s, fa, sa):
    """(raw size, virtual size) prescribed for a section with raw length s.rawlen"""
    rs = align_up(s.rawlen, fa)
    vs = z3.If(s.vs == 0, rs, z3.If(z3.UGT(align_up(rs, fa), align_up(s.vs, sa)), align_up(rs, fa), align_up(s.vs, sa)))
    return rs, vs
def same_content(n, o, upto=None):
    L = o.rawlen
    return forall(0, L, lambda i: n.byte(i) == o.byte(i))
def prep_req(c):
    s = A0(c); rs, vs = prep(s, falign(c.o.this), salign(c.o.this))
    return base_req(c) + [('section representation invariant', inv(s)), ('sizes fit 32 bits', z3.And(F32(rs), F32(vs), F32(align_up(vs, salign(c.o.this))), F32(align_up(s.vs, salign(c.o.this)))))]
def prep_post(c):
    s, n = A0(c), A0n(c); rs, vs = prep(s, falign(c.o.this), salign(c.o.this))
    return [('raw size is the data length rounded up to file alignment', n.rsz == rs), ('virtual size is the larger of the aligned raw and aligned virtual size, or the raw size when unset', n.vs == vs),
            ('data length unchanged', n.rawlen == s.rawlen), ('data unchanged', same_content(n, s)), ('not mapped', z3.Not(n.mapped))]
C('A07', O + 'prepare_section', requires=prep_req, throws=lambda c: z3.And(A0(c).rawlen == 0, A0(c).vs == 0),
  modifies=lambda c: hloc(c, c.locs[0], 'SizeOfRawData', 'Misc.VirtualSize') + bloc(c, c.locs[0]), ensures=prep_post)
C('A07', O + 'update_image_size', requires=lambda c: base_req(c) + [('last section ends below 4 GiB', z3.Or(c.o.this.sections_.len == 0, S(c.o.this, c.o.this.sections_.len - 1).wf()))], modifies=lambda c: floc(c, 'O.SizeOfImage'),
  ensures=lambda c: [('image ends with its last section, or with its headers', soi(c.n.this) == z3.If(c.o.this.sections_.len == 0, w64(hsize(c.o.this)), (lambda s: s.va + s.avs)(S(c.o.this, c.o.this.sections_.len - 1))))])
C('A07', O + 'update_number_of_sections', modifies=lambda c: floc(c, 'F.NumberOfSections'), requires=lambda c: [('section count is sane', z3.ULE(c.o.this.sections_.len, bv(0xffff)))],
  ensures=lambda c: [('header count equals the number of sections', z3.And(w64(fv(c.n.this, 'F.NumberOfSections')) == c.o.this.sections_.len, w64(c.ret) == c.o.this.sections_.len))], opts=NC)
# a section that is not part of the image
def svs_req(c):
    pe = c.o.this; n = pe.sections_.len
    return base_req(c) + [('last section ends below 4 GiB', z3.Or(n == 0, S(pe, n - 1).wf())), ('section representation invariant', inv(A0(c)))]
C('A07', O + 'set_section_virtual_size', label='set_section_virtual_size (section outside the image)', requires=svs_req, throws=lambda c: z3.Or(c.o.this.sections_.len == 0, z3.And(c.a(1) == 0, A0(c).rawlen == 0)),
  modifies=lambda c: hloc(c, c.locs[0], 'Misc.VirtualSize') + floc(c, 'O.SizeOfImage'),
  ensures=lambda c: [('virtual size is as asked, or the raw size when zero', A0n(c).vs == z3.If(c.a(1) == 0, A0(c).rsz, w64(c.a(1)))),
                     ('image size matches its last section', soi(c.n.this) == (lambda s: s.va + s.avs)(S(c.o.this, c.o.this.sections_.len - 1)))], opts=NC)
def attached(g, st, env, obj, k):
    """argument 0 is section k of the image"""
    fn = env.fn; l = env.vars[fn['params'][0]['id']]
    env.vars[fn['params'][0]['id']] = g.elem(g.fld(st, Loc(obj.root, obj.path + ('props_*',), obj.idxs, g.props_cls()), 'x') if False else g.fld(st, obj, 'sections_'), k)
ATT = z3.BitVec('attached.index', 64)
def att_opts(**kw): return dict(nocall=True, quick_cfgs=(32,), setup=lambda g, st, env, obj: attached(g, st, env, obj, ATT), noreplay=True, **kw)
def att_req(c):
    pe = c.o.this; n = pe.sections_.len
    return base_req(c) + [('the section is part of the image', z3.ULT(ATT, n)), ('section count is sane', z3.ULE(n, bv(0xffff))), ('sections end below 4 GiB', forall(0, n, lambda i: S(pe, i).wf(), 's'))]
def attmod(c, *fs):
    l = c.locs[0]; return hloc(c, l, *fs)
def att_svs_post(c):
    o, n = c.o.this, c.n.this; ns = S(n, ATT)
    return [('virtual size is as asked, or the raw size when zero', ns.vs == z3.If(c.a(1) == 0, S(o, ATT).rsz, w64(c.a(1)))),
            ('image size matches the resized last section', z3.Implies(F32(ns.va + ns.avs), soi(n) == ns.va + ns.avs))]
C('A07', O + 'set_section_virtual_size', label='set_section_virtual_size (section of the image)', requires=lambda c: att_req(c) + [('new end below 4 GiB', (lambda s: F32(s.va + align_up(z3.If(c.a(1) == 0, s.rsz, w64(c.a(1))), s.al) + align_up(s.rsz, s.al)))(S(c.o.this, ATT)))],
  throws=lambda c: z3.Or(ATT != c.o.this.sections_.len - 1, z3.And(c.a(1) == 0, S(c.o.this, ATT).rawlen == 0)),
  modifies=lambda c: attmod(c, 'Misc.VirtualSize') + floc(c, 'O.SizeOfImage'), ensures=att_svs_post, opts=att_opts())
def add_req(c):
    pe = c.o.this; s = A0(c); rs, vs = prep(s, falign(pe), salign(pe)); n = pe.sections_.len; L = S(pe, n - 1)
    va = new_va(c)
    return base_req(c) + [('sections are well formed', forall(0, n, lambda i: S(pe, i).wf(), 's')), ('section representation invariant', inv(s)), ('file alignment does not exceed section alignment', z3.ULE(falign(pe), salign(pe))),
        ('sizes and addresses fit 32 bits', z3.And(F32(rs), F32(vs), F32(align_up(vs, salign(pe))), F32(align_up(s.vs, salign(pe))), F32(va), F32(va + align_up(vs, salign(pe))), z3.Implies(n != 0, F32(align_up(L.rawlen, falign(pe)))), F32(soi(pe) + align_up(vs, salign(pe)))))]
def new_va(c):
    pe = c.o.this; s = A0(c); n = pe.sections_.len; L = S(pe, n - 1)
    return z3.If(n != 0, align_up(L.va + L.avs, salign(pe)), z3.If(s.va == 0, align_up(hsize(pe), salign(pe)), align_up(s.va, salign(pe))))
def add_post(c):
    o, n = c.o.this, c.n.this; s = A0(c); k = o.sections_.len; t = S(n, k); rs, vs = prep(s, falign(o), salign(o)); L, M = S(o, k - 1), S(n, k - 1)
    return [('one more section', n.sections_.len == k + 1), ('header count equals the number of sections', w64(fv(n, 'F.NumberOfSections')) == k + 1),
            ('the new section is last, section aligned and right behind the previous one', t.va == new_va(c)), ('its raw and virtual sizes are those prepared', z3.And(t.rsz == rs, t.vs == vs)),
            ('its data is the data given', z3.And(t.rawlen == s.rawlen)), ('its bytes are the bytes given', forall(0, s.rawlen, lambda i: t.byte(i) == s.byte(i))),
            ('its name and flags are those given', z3.And(t.ch == s.ch, *[t.v.header_.Name[i] == s.v.header_.Name[i] for i in range(8)])),
            ('image grows by the aligned virtual size', soi(n) == soi(o) + align_up(vs, salign(o))),
            ('previous last section keeps its address and gets an aligned raw size', z3.Implies(k != 0, z3.And(M.va == L.va, M.vs == L.vs, M.rsz == z3.If(c.a(1), align_up(L.rawlen, falign(o)), L.rsz)))),
            ('other sections are untouched', forall(0, k - 1, lambda i: z3.Implies(k != 0, hdr_eq(n.sections_[i], o.sections_[i])), 'i')),
            ('returns the new section', z3.BoolVal(c.retloc.path == ('sections_', '[]'))), ('result index', z3.BoolVal(True) if not c.retloc.idxs else c.retloc.idxs[0] == k)]
C('A07', O + 'add_section', requires=add_req, throws=lambda c: z3.Or(z3.UGE(c.o.this.sections_.len, bv(0x60)), z3.And(A0(c).rawlen == 0, A0(c).vs == 0)), modifies='any', ensures=add_post, opts=NC)
# realignment: only zero bytes at the end of the data are dropped or added
def tail_zero(o, frm): return forall(frm, o.rawlen, lambda i: o.byte(i) == 0)
def realign_req(c):
    pe = c.o.this; s = S(pe, w64(c.a(0)))
    return base_req(c) + [('section count is sane', z3.ULE(pe.sections_.len, bv(0xffff))), ('sections are well formed', forall(0, pe.sections_.len, lambda i: S(pe, i).wf(), 's')), ('raw data below 4 GiB', z3.Implies(z3.ULT(w64(c.a(0)), pe.sections_.len), z3.And(F32(s.len), F32(align_up(s.rsz, falign(pe))), F32(s.va + align_up(s.rawlen, salign(pe))))))]
def realign_post(c):
    o, n = c.o.this, c.n.this; k = w64(c.a(0)); s, t = S(o, k), S(n, k); last = k == o.sections_.len - 1
    return [('raw size equals the data length', t.rsz == t.rawlen), ('last section ends in a nonzero byte or is empty', imp(last, z3.Or(t.rawlen == 0, t.byte(t.rawlen - 1) != 0))),
            ('last section only loses trailing zeros', imp(last, and_(z3.ULE(t.rawlen, s.rawlen), tail_zero(s, t.rawlen)))), ('other sections get their aligned raw size', z3.Implies(z3.Not(last), t.rawlen == align_up(s.rsz, falign(o)))),
            ('kept bytes unchanged', forall(0, t.rawlen, lambda i: z3.Implies(z3.ULT(i, s.rawlen), t.byte(i) == s.byte(i)))), ('added bytes are zero', forall(s.rawlen, t.rawlen, lambda i: t.byte(i) == 0)),
            ('image ends with its last section', imp(last, soi(n) == t.va + t.avs)), ('image size unchanged for the others', z3.Implies(z3.Not(last), soi(n) == soi(o)))]
def rmod(c):
    g = c.g; l = g.elem(g.fld(c.st0, c.obj, 'sections_'), w64(c.a(0)))
    return hloc(c, l, 'SizeOfRawData') + bloc(c, l) + floc(c, 'O.SizeOfImage')
C('A07', O + 'realign_section', requires=realign_req, throws=lambda c: z3.UGE(w64(c.a(0)), c.o.this.sections_.len), modifies=rmod, ensures=realign_post)
C('A07', O + 'section_attached', label='section_attached (section outside the image)', ensures=lambda c: c.ret == False, opts=NC)
C('A07', O + 'section_attached', label='section_attached (section of the image)', requires=lambda c: [('the section is part of the image', z3.ULT(ATT, c.o.this.sections_.len))], ensures=lambda c: c.ret == True, opts=att_opts())
# recalculation after the data of a section changed
def fasa(c): return [('file alignment does not exceed section alignment', z3.ULE(falign(c.o.this), salign(c.o.this)))]
def rec_post(c):
    s, n = A0(c), A0n(c); pe = c.o.this; rs, vs = prep(s, falign(pe), salign(pe)); strip = c.a(1)
    return [('no more data than before', z3.ULE(n.rawlen, s.rawlen)), ('without stripping the data keeps its length', z3.Implies(z3.Not(strip), n.rawlen == s.rawlen)), ('only zero bytes at the end are dropped', tail_zero(s, n.rawlen)),
            ('kept bytes unchanged', forall(0, n.rawlen, lambda i: n.byte(i) == s.byte(i))), ('raw size covers exactly the data, file aligned unless stripped', z3.Or(n.rsz == rs, z3.And(strip, n.rsz == n.rawlen))),
            ('virtual size as prescribed', n.vs == vs), ('virtual view is large enough for the raw data', z3.UGE(align_up(n.vs, salign(pe)), align_up(n.rsz, falign(pe))))]
def rec_mod(c): return hloc(c, c.locs[0], 'SizeOfRawData', 'Misc.VirtualSize') + bloc(c, c.locs[0])
C('A07', O + 'recalculate_section_sizes', label='recalculate_section_sizes (section outside the image)', requires=lambda c: prep_req(c) + fasa(c), throws=lambda c: z3.And(A0(c).rawlen == 0, A0(c).vs == 0), modifies=rec_mod, ensures=rec_post, opts=NC)
def rec_last(c):
    last = ATT == c.o.this.sections_.len - 1; n = A0n(c)
    return [('image ends with its last section', imp(last, soi(c.n.this) == n.va + n.avs)), ('image size unchanged for the others', z3.Implies(z3.Not(last), soi(c.n.this) == soi(c.o.this)))]
def rec_end(c):
    s = A0(c); return [('new end below 4 GiB', F32(s.va + align_up(prep(s, falign(c.o.this), salign(c.o.this))[1], salign(c.o.this))))]
C('A07', O + 'recalculate_section_sizes', label='recalculate_section_sizes (section of the image)', requires=lambda c: att_req(c) + prep_req(c) + fasa(c) + rec_end(c), throws=lambda c: z3.And(A0(c).rawlen == 0, A0(c).vs == 0), modifies=lambda c: rec_mod(c) + floc(c, 'O.SizeOfImage'), ensures=lambda c: rec_post(c) + rec_last(c), opts=att_opts())
# growing a section
def remaining(s, raw, rva):
    L = z3.If(raw, s.rawlen, s.avs)
    return z3.If(z3.UGE(rva - s.va, L), bv(0), L - (rva - s.va))
def exp_req(c):
    pe = c.o.this; s = A0(c); need = w64(c.a(1)) - s.va + w64(c.a(2)); G = bv(1 << 31); n = pe.sections_.len; L = S(pe, n - 1)
    return base_req(c) + fasa(c) + [('section representation invariant', inv(s)), ('everything stays below 2 GiB', z3.And(z3.ULT(s.va, G), z3.ULT(s.len, G), z3.ULT(s.avs, G), z3.ULT(s.vs, G), z3.ULT(s.rsz, G), z3.Implies(z3.UGE(w64(c.a(1)), s.va), z3.ULT(need, G)), z3.ULE(w64(salign(pe)), bv(1 << 30)))), ('last section ends below 4 GiB', z3.Or(n == 0, L.wf())),
        ('expansion kind', z3.ULE(c.a(3), bv(1, 32)))]
def exp_throws(c):
    return z3.Or(c.o.this.sections_.len == 0, z3.Not(A0(c).inside(w64(c.a(1)))))
def exp_post(c):
    pe = c.o.this; s, n = A0(c), A0n(c); raw = c.a(3) == 0; rva = w64(c.a(1)); need = rva - s.va + w64(c.a(2)); grow = z3.ULT(remaining(s, raw, rva), w64(c.a(2)))
    return [('expands exactly when too little remains', c.ret == grow), ('enough room afterwards', z3.UGE(remaining(n, raw, rva), w64(c.a(2)))),
            ('raw data grows to the exact end when raw room is wanted, and is untouched otherwise', n.rawlen == z3.If(z3.And(grow, raw), need, s.rawlen)),
            ('existing bytes unchanged', forall(0, s.rawlen, lambda i: n.byte(i) == s.byte(i))), ('added bytes are zero', forall(s.rawlen, n.rawlen, lambda i: n.byte(i) == 0)),
            ('header raw size follows the data', n.rsz == z3.If(z3.And(grow, raw), align_up(need, falign(pe)), s.rsz)), ('virtual size follows', z3.If(grow, z3.If(raw, z3.UGE(n.avs, n.rawlen), n.vs == need), n.vs == s.vs))]
C('A07', O + 'expand_section', label='expand_section (section outside the image)', requires=exp_req, throws=exp_throws, modifies=lambda c: rec_mod(c) + floc(c, 'O.SizeOfImage'), ensures=exp_post, opts=dict(nocall=True, quick_cfgs=(32,)))
C('A07', O + 'expand_section', label='expand_section (section of the image)', requires=lambda c: att_req(c) + exp_req(c), throws=lambda c: z3.Or(ATT != c.o.this.sections_.len - 1, exp_throws(c)), modifies=lambda c: rec_mod(c) + floc(c, 'O.SizeOfImage'), ensures=exp_post, opts={**att_opts(), 'quick_cfgs': ()})
prop('A07')

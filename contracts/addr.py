"""Address translation and section lookup."""
from common import *
PG = 'pe_bliss::pe_properties_generic<pe_bliss::pe_types_class_%d>::'

# --- VA <-> RVA
def va_req(c): return [('image does not wrap the address space', z3.ULE(ibase(c.o.this), bv(-(1 << 32))))] if c.g.cfg == 64 else []
for t, w in (('unsigned int', 32), ('unsigned long', 64)):
    C('A01', PB + 'va_to_rva', sel=ptypes(t, 'bool'), requires=va_req,
      throws=lambda c: z3.And(c.a(1), z3.Not(z3.And(z3.ULE(ibase(c.o.this), w64(c.a(0))), z3.ULE(w64(c.a(0)) - ibase(c.o.this), bv(0xffffffff))))),
      ensures=lambda c: [('RVA is VA minus image base', c.ret == lo32(w64(c.a(0)) - ibase(c.o.this)))])
C('A01', PB + 'rva_to_va_32', cfgs=(32,),
  throws=lambda c: z3.UGT(w64(c.a(0)) + ibase(c.o.this), bv(0xffffffff)),
  ensures=lambda c: [('VA is image base plus RVA', w64(c.ret) == w64(c.a(0)) + ibase(c.o.this))])
C('A01', PB + 'rva_to_va_64', ensures=lambda c: [('VA is image base plus RVA', c.ret == w64(c.a(0)) + ibase(c.o.this))])
C('A01', PB + 'rva_to_va', cfgs=(32,), sel=ptypes('unsigned int', 'unsigned int&'), modifies=lambda c: [c.locs[1]],
  throws=lambda c: z3.UGT(w64(c.a(0)) + ibase(c.o.this), bv(0xffffffff)),
  ensures=lambda c: [('VA is image base plus RVA', w64(c.an(1)) == w64(c.a(0)) + ibase(c.o.this))])
C('A01', PB + 'rva_to_va', sel=ptypes('unsigned int', 'unsigned long&'), modifies=lambda c: [c.locs[1]],
  ensures=lambda c: [('VA is image base plus RVA', c.an(1) == w64(c.a(0)) + ibase(c.o.this))])

# --- section lookup
def covers(pe, rva): return lambda i: S(pe, i).inside(w64(rva))
def ret_first(c, p):
    pe = c.o.this; n = pe.sections_.len; i = c.ret.loc.idxs[0]
    return list(zip(('result is an element of the section list', 'result satisfies the lookup', 'no earlier section satisfies it'), first_match(n, p, i)))
def ret_sec(c, g, s):
    return Loc(c.obj.root, c.obj.path + ('sections_', '[]'), c.obj.idxs + [z3.BitVec(fresh_name('six'), 64)], 'pe_bliss::section')
C('A02 A03 A04', PB + 'section_from_rva', requires=lambda c: wf(c.o.this), throws=lambda c: none_match(c.o.this.sections_.len, covers(c.o.this, c.a(0))),
  ensures=lambda c: ret_first(c, covers(c.o.this, c.a(0))), opts={'ret': ret_sec})
def offs(pe, off): return lambda i: z3.And(z3.ULE(S(pe, i).rptr, w64(off)), z3.ULT(w64(off), S(pe, i).rptr + S(pe, i).rsz))
def wf_raw(c): return wf(c.o.this) + [('raw ranges end below 4 GiB', forall(0, c.o.this.sections_.len, lambda i: z3.ULT(S(c.o.this, i).rptr + S(c.o.this, i).rsz, bv(1 << 32))))]
C('A02', PB + 'section_from_file_offset', requires=wf_raw, throws=lambda c: none_match(c.o.this.sections_.len, offs(c.o.this, c.a(0))),
  ensures=lambda c: ret_first(c, offs(c.o.this, c.a(0))), opts={'ret': ret_sec})
C('A02', PB + 'rva_to_file_offset', requires=lambda c: wf(c.o.this),
  throws=lambda c: and_(z3.UGE(c.a(0), hsize(c.o.this)), none_match(c.o.this.sections_.len, covers(c.o.this, c.a(0)))),
  ensures=lambda c: [('header addresses map to themselves', z3.Implies(z3.ULT(c.a(0), hsize(c.o.this)), c.ret == c.a(0))),
                     ('offset of the containing section plus displacement', imp(z3.UGE(c.a(0), hsize(c.o.this)), exists(0, c.o.this.sections_.len, lambda i: and_(covers(c.o.this, c.a(0))(i), forall(0, i, lambda j: z3.Not(covers(c.o.this, c.a(0))(j))), c.ret == lo32(S(c.o.this, i).rptr + w64(c.a(0)) - S(c.o.this, i).va)))))])
C('A02', PB + 'file_offset_to_rva', requires=wf_raw,
  throws=lambda c: and_(z3.UGE(c.a(0), hsize(c.o.this)), none_match(c.o.this.sections_.len, offs(c.o.this, c.a(0)))),
  ensures=lambda c: [('header offsets map to themselves', z3.Implies(z3.ULT(c.a(0), hsize(c.o.this)), c.ret == c.a(0))),
                     ('address of the containing section plus displacement', imp(z3.UGE(c.a(0), hsize(c.o.this)), exists(0, c.o.this.sections_.len, lambda i: and_(offs(c.o.this, c.a(0))(i), forall(0, i, lambda j: z3.Not(offs(c.o.this, c.a(0))(j))), c.ret == lo32(S(c.o.this, i).va + w64(c.a(0)) - S(c.o.this, i).rptr)))))])
C('A02', PB + 'section_and_offset_from_rva', requires=lambda c: wf(c.o.this), throws=lambda c: none_match(c.o.this.sections_.len, covers(c.o.this, c.a(0))),
  ensures=lambda c: [])
C('A02', PB + 'rva_from_section_offset', ensures=lambda c: c.ret == c.a(0).header_.VirtualAddress + c.a(1))
prop('A01')
prop('A02')

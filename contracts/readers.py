"""Directory readers, specified over the logical image (view.py)."""
from common import *
from view import *
import view
VIRT, HDR = z3.BoolVal(False), z3.BoolVal(True)
def rdt(n, rva, off, w):
    """little-endian field of w bytes at offset off of an n-byte read from the virtual view"""
    return cat([RD(VIRT, HDR, bv(n), rva, bv(off + k)) for k in reversed(range(w))]) if w > 1 else RD(VIRT, HDR, bv(n), rva, bv(off))
def rdok(n, rva): return OK(VIRT, HDR, bv(n), rva)
def dd(pe, i): return opt(pe).DataDirectory[bv(i)]
def dirs(pe): return opt(pe).NumberOfRvaAndSizes
def has_dir(pe, i): return z3.And(z3.UGT(dirs(pe), bv(i, 32)), dd(pe, i).VirtualAddress != 0)
def tot(rva): return TOT(VIRT, HDR, rva)
def rest(rva, inside): return REM(VIRT, HDR, w64(rva), w64(inside))
def restok(rva, inside): return ROK(VIRT, HDR, w64(rva), w64(inside))
def pmod(k=0): return lambda c: [Loc(c.locs[k].root, c.locs[k].path + ('sections_', '[]', f), c.locs[k].idxs, dict((x[0], x[1]) for x in c.g.fields('pe_bliss::section'))[f]) for f in ('raw_data_', 'old_size_')]
def R(prop_, qn, **kw):
    o = {**NC, 'use': USE, 'by': 'A03', **kw.pop('opts', {})}
    rq = kw.pop('req', lambda c: [])
    return C(prop_, 'pe_bliss::' + qn, requires=lambda c: fn_req(c) + rq(c), modifies=kw.pop("modifies", pmod()), opts=o, **kw)

# ---- exception directory: RUNTIME_FUNCTION entries of 12 bytes
def ex(c):
    pe = c.a(0); base, size = dd(pe, 3).VirtualAddress, dd(pe, 3).Size
    at = lambda j: w64(lo32(w64(base) + 12 * j))
    beg, end, unw = (lambda j, o=o: rdt(12, at(j), o, 4) for o in (0, 4, 8))
    room = lambda j: z3.UGE(w64(size), 12 * j + 12)
    return pe, base, room, at, beg, end, unw
def ex_bad0(c):
    pe, base, *_ = ex(c); return z3.Or(z3.Not(restok(base, base)), z3.ULT(rest(base, base), 12), base & 3 != 0)
def ex_live(c):
    """entry j is present and well-formed"""
    pe, base, room, at, beg, end, unw = ex(c)
    return lambda j: z3.And(room(j), rdok(12, at(j)), beg(j) != 0, z3.ULE(beg(j), end(j)), rdok(6, w64(unw(j))))
def ex_throws(c):
    pe, base, room, at, beg, end, unw = ex(c); live = ex_live(c)
    bad = lambda j: z3.And(room(j), z3.Or(z3.Not(rdok(12, at(j))), z3.And(beg(j) != 0, z3.Or(z3.UGT(beg(j), end(j)), z3.Not(rdok(6, w64(unw(j))))))))
    return and_(has_dir(pe, 3), or_(ex_bad0(c), exists(0, bv(1 << 32), lambda j: and_(bad(j), forall(0, j, live)))))
def ex_ens(c):
    pe, base, room, at, beg, end, unw = ex(c); r = c.ret; n = r.len; live = ex_live(c)
    e = lambda j: r[j]
    u = lambda j, o: rdt(6, w64(unw(j)), o, 1)
    return [('no directory, no entries', z3.Implies(z3.Not(has_dir(pe, 3)), n == 0)),
            ('every entry returned is a present and well-formed table entry', forall(0, n, live)),
            ('the list ends where the table ends or with its zero entry', imp(has_dir(pe, 3), z3.Or(z3.Not(room(n)), z3.And(rdok(12, at(n)), beg(n) == 0)))),
            ('addresses are those of the table entry', forall(0, n, lambda j: z3.And(e(j).begin_address_ == beg(j), e(j).end_address_ == end(j), e(j).unwind_info_address_ == unw(j)))),
            ('unwind description is that of the entry', forall(0, n, lambda j: z3.And(w64(e(j).flags_) == w64(z3.LShR(u(j, 0), bv(3, 8))), w64(e(j).size_of_prolog_) == w64(u(j, 1)), w64(e(j).count_of_codes_) == w64(u(j, 2)))))]
R('J01', 'get_exception_directory_data', throws=ex_throws, ensures=ex_ens)

# ---- thread-local storage: directory of 24 / 40 bytes, callbacks as a zero-terminated table of addresses
def va_sane(c): return [('image does not wrap the address space', z3.ULE(ibase(c.a(0)), bv(-(1 << 32))))]
class Tls:
    def __init__(self, c):
        pe = self.pe = c.a(0); w = self.w = 4 if c.g.cfg == 32 else 8; n = self.n = 4 * w + 8; d = self.d = w64(dd(pe, 9).VirtualAddress)
        f = lambda k, ww=w: w64(rdt(n, d, k, ww))
        s, e, self.index, self.cb = (f(k * w) for k in range(4)); self.zf, self.ch = (rdt(n, d, 4 * w + k, 4) for k in (0, 4))
        drop = z3.And(s == e, z3.Not(self.vok(e))); self.s, self.e = (z3.If(drop, bv(0), x) for x in (s, e))
        m = bv(0xffffffff if w == 4 else -1); self.len = (self.e - self.s) & m; self.m = m
    def vok(self, va): b = ibase(self.pe); return z3.And(z3.ULE(b, va), z3.ULE(va - b, bv(0xffffffff)))
    def rva(self, va): return lo32(va - ibase(self.pe))
    def at(self, j): return (self.cb + w64(lo32(j * self.w))) & self.m
    def val(self, j): return w64(rdt(self.w, w64(self.rva(self.at(j))), 0, self.w))
    def readable(self, j): return z3.And(self.vok(self.at(j)), rdok(self.w, w64(self.rva(self.at(j)))))
    def live(self, j): return z3.And(self.readable(j), self.val(j) != 0)
    def hasdata(self): return z3.And(self.s != 0, self.s != self.e)
    def hascb(self): return z3.And(self.cb != 0, self.rva(self.cb) != 0)
def tls_throws(c):
    t = Tls(c); r = w64(t.rva(t.s)); bad = lambda v: z3.And(v != 0, z3.Not(t.vok(v)))
    return or_(z3.Not(has_dir(t.pe, 9)), z3.Not(rdok(t.n, t.d)), z3.And(t.s != 0, z3.Or(z3.Not(t.vok(t.s)), z3.Not(restok(r, r)), z3.ULT(w64(rest(r, r)), t.len))), bad(t.e), bad(t.index), bad(t.cb), z3.And(t.hasdata(), z3.Not(POK(VIRT, HDR, r))),
               and_(t.hascb(), exists(0, bv(1 << 62), lambda j: and_(z3.Not(t.readable(j)), forall(0, j, t.live)))))
def tls_ens(c):
    t = Tls(c); r = c.ret; n = r.callbacks_.len; z = lambda v: z3.If(v != 0, t.rva(v), bv(0, 32)); a = w64(t.rva(t.s))
    return [('addresses are those of the directory, relative to the image base', z3.And(r.start_rva_ == z(t.s), r.end_rva_ == z(t.e), r.index_rva_ == z(t.index), r.callbacks_rva_ == z(t.cb))),
            ('size of zero fill and characteristics', z3.And(r.size_of_zero_fill_ == t.zf, r.characteristics_ == t.ch)),
            ('length of the data', r.raw_data_.len == z3.If(t.hasdata(), t.len, bv(0))), ('the data are the bytes of the image', forall(0, r.raw_data_.len, lambda k: r.raw_data_.byte(k) == sel(PBA(VIRT, HDR, a), k))),
            ('no table, no callbacks', z3.Implies(z3.Not(t.hascb()), n == 0)), ('every callback is the next nonzero table entry', forall(0, n, lambda j: z3.And(t.live(j), r.callbacks_[j] == t.rva(t.val(j))))),
            ('the list ends with the zero entry', z3.Implies(t.hascb(), z3.And(t.readable(n), t.val(n) == 0)))]
R('G01', 'get_tls_info_base', sel=lambda f: '32' in str(f.get('ta')), cfgs=(32,), throws=tls_throws, ensures=tls_ens)
R('G01', 'get_tls_info_base', sel=lambda f: '64' in str(f.get('ta')), cfgs=(64,), req=va_sane, throws=tls_throws, ensures=tls_ens)

# ---- .NET header (72 bytes)
def dn(c): pe = c.a(0); return pe, w64(dd(pe, 14).VirtualAddress)
NETF = dict(cb=(0, 4), MajorRuntimeVersion=(4, 2), MinorRuntimeVersion=(6, 2), MetaData=8, Flags=(16, 4), Resources=24, StrongNameSignature=32, CodeManagerTable=40, VTableFixups=48, ExportAddressTableJumps=56, ManagedNativeHeader=64)
NETF['#f5.EntryPointToken'] = (20, 4)       # member of an anonymous union
def dn_ens(c):
    pe, d = dn(c); h = c.ret.header_; r = []
    for f, o in NETF.items():
        v = h
        for x in f.split('.'): v = getattr(v, x)
        r.append(('field %s is that of the stored header' % f, v == rdt(72, d, *o) if isinstance(o, tuple) else z3.And(v.VirtualAddress == rdt(72, d, o, 4), v.Size == rdt(72, d, o + 4, 4))))
    return r
R('L01', 'get_basic_dotnet_info', throws=lambda c: z3.Or(z3.Not(has_dir(c.a(0), 14)), z3.Not(rdok(72, dn(c)[1]))), ensures=dn_ens)

# ---- load configuration: directory of 72 / 112 bytes outside the headers, handler table, lock prefix table
NOHDR = z3.BoolVal(False)
# field: (offset, width) for PE32, PE32+; width 0 is the address width
CFGF = dict(time_stamp_=(4, 4, 4), major_version_=(8, 8, 2), minor_version_=(10, 10, 2), global_flags_clear_=(12, 12, 4), global_flags_set_=(16, 16, 4), critical_section_default_timeout_=(20, 20, 4), decommit_free_block_threshold_=(24, 24, 0), decommit_total_free_threshold_=(28, 32, 0),
            lock_prefix_table_va_=(32, 40, 0), max_allocation_size_=(36, 48, 0), virtual_memory_threshold_=(40, 56, 0), process_heap_flags_=(44, 72, 4), process_affinity_mask_=(48, 64, 0), service_pack_version_=(52, 76, 2), edit_list_va_=(56, 80, 0), security_cookie_va_=(60, 88, 0), se_handler_table_va_=(64, 96, 0), se_handler_count_=(68, 104, 0))
def rdn(n, rva, off, w): return cat([RD(VIRT, NOHDR, bv(n), rva, bv(off + k)) for k in reversed(range(w))])
class Cfg:
    def __init__(self, c):
        pe = self.pe = c.a(0); x = c.g.cfg == 64; w = self.w = 8 if x else 4; n = self.n = 112 if x else 72; d = self.d = w64(dd(pe, 10).VirtualAddress); self.m = bv(-1 if x else 0xffffffff)
        self.f = {k: w64(rdn(n, d, v[x], v[2] or w)) for k, v in CFGF.items()}; self.size = w64(rdn(n, d, 0, 4)); self.tab, self.cnt, self.lp = (self.f[k] for k in ('se_handler_table_va_', 'se_handler_count_', 'lock_prefix_table_va_'))
    def ok(self, n, rva): return OK(VIRT, NOHDR, bv(n), rva)
    def vok(self, va): b = ibase(self.pe); return z3.And(z3.ULE(b, va), z3.ULE(va - b, bv(0xffffffff)))
    def rva(self, va): return lo32(va - ibase(self.pe))
    def sat(self, j): return w64(self.rva((self.tab + 4 * j) & self.m))
    def sok(self, j): return z3.And(self.vok((self.tab + 4 * j) & self.m), self.ok(4, self.sat(j)))
    def lat(self, k): return (self.lp + w64(lo32(k)) * self.w) & self.m
    def lrd(self, k): return z3.And(self.vok(self.lat(k)), self.ok(self.w, w64(self.rva(self.lat(k)))))
    def lval(self, k): return w64(rdn(self.w, w64(self.rva(self.lat(k))), 0, self.w))
    def live(self, k): return z3.And(self.lrd(k), self.lval(k) != 0, self.vok(self.lval(k)))
    def over(self): return z3.Or(z3.UGE(self.cnt, bv(0x3fffffff)), z3.UGE(self.tab, self.m - self.cnt * 4))
def cfg_throws(c):
    t = Cfg(c); bad = lambda k: z3.Or(z3.Not(t.lrd(k)), z3.And(t.lval(k) != 0, z3.Not(t.vok(t.lval(k)))))
    return or_(z3.Not(has_dir(t.pe, 10)), z3.Not(t.ok(t.n, t.d)), z3.ULT(t.size, t.n), t.over(), exists(0, t.cnt, lambda j: z3.Not(t.sok(j))), and_(t.lp != 0, exists(0, bv(1 << 62), lambda k: and_(bad(k), forall(0, k, t.live)))))
def cfg_ens(c):
    t = Cfg(c); r = c.ret; s, l = r.se_handlers_, r.lock_prefixes_
    return [('field %s is that of the stored directory' % k, w64(getattr(r, k)) == v) for k, v in t.f.items()] + [
        ('one handler per table entry', s.len == t.cnt), ('every handler is the table entry', forall(0, s.len, lambda j: s[j] == rdn(4, t.sat(j), 0, 4))),
        ('no table, no lock prefixes', z3.Implies(t.lp == 0, l.len == 0)), ('every lock prefix is the next nonzero table entry', forall(0, l.len, lambda k: z3.And(t.live(k), l[k] == t.rva(t.lval(k))))),
        ('the lock prefixes end with the zero entry', z3.Implies(t.lp != 0, z3.And(t.lrd(l.len), t.lval(l.len) == 0)))]
R('H01', 'get_image_config_base', sel=lambda f: '32' in str(f.get('ta')), cfgs=(32,), throws=cfg_throws, ensures=cfg_ens)
R('H01', 'get_image_config_base', sel=lambda f: '64' in str(f.get('ta')), cfgs=(64,), req=va_sane, throws=cfg_throws, ensures=cfg_ens)

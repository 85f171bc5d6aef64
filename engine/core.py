"""Symbolic executor / VC generator over the extracted typed AST."""
import z3, itertools, sys
from fol import *
from prog import ToolError
sys.setrecursionlimit(20000)

class Unsupported(ToolError): pass
class Dead(Exception): pass
class NeedFork(Exception):
    def __init__(self, n): self.n = n

def b2(c): return z3.BoolVal(c) if isinstance(c, bool) else c

class Loc:
    """Access path: root variable + field path ('[]' marks an element step) + index terms (+ bit slice of a union leaf)."""
    __slots__ = ('root', 'path', 'idxs', 'ty', 'sl')
    def __init__(self, root, path, idxs, ty, sl=None): self.root, self.path, self.idxs, self.ty, self.sl = root, path, idxs, ty, sl
    def same(self, o): return isinstance(o, Loc) and self.root == o.root and self.path == o.path and len(self.idxs) == len(o.idxs) and all(a.eq(b) for a, b in zip(self.idxs, o.idxs)) and self.sl == o.sl
    def __repr__(self): return 'Loc(%s.%s %s)' % (self.root, '.'.join(self.path), self.idxs)
class BLoc:
    """Typed view of bytes inside a byte container or object."""
    __slots__ = ('base', 'off', 'ty', 'sl')
    def __init__(self, base, off, ty, sl=None): self.base, self.off, self.ty, self.sl = base, off, ty, sl
    def same(self, o): return isinstance(o, BLoc) and self.base.same(o.base) and self.off.eq(o.off) and self.sl == o.sl
class Ptr:
    """kind: null | elem (container, idx) | obj (Loc) | byte (container or object, byte offset); ety = pointee type"""
    __slots__ = ('kind', 'loc', 'idx', 'ety', 'end')
    def __init__(self, kind, loc=None, idx=None, ety=None): self.kind, self.loc, self.idx, self.ety = kind, loc, idx, ety
    def __repr__(self): return 'Ptr(%s %s %s %s)' % (self.kind, self.loc, self.idx, self.ety)
class FnVal:
    def __init__(self, f): self.f = f
class Closure:
    def __init__(self, f, env, this): self.f, self.env, self.this = f, env, this
class Opaque:
    """float and other values outside the logic"""
    def __init__(self, w=64): self.w = w

class Obl:
    __slots__ = ('hyps', 'goal', 'label', 'loc', 'kind', 'fn')
    def __init__(self, hyps, goal, label, loc, kind, fn): self.hyps, self.goal, self.label, self.loc, self.kind, self.fn = hyps, goal, label, loc, kind, fn

class State:
    __slots__ = ('mem', 'refs', 'pc', 'exc')
    def __init__(self): self.mem, self.refs, self.pc, self.exc = {}, {}, [], None
    def clone(self):
        s = State(); s.mem, s.refs, s.pc, s.exc = dict(self.mem), dict(self.refs), list(self.pc), self.exc
        return s
    def become(self, o): self.mem, self.refs, self.pc, self.exc = o.mem, o.refs, o.pc, o.exc

class Out:
    __slots__ = ('k', 'st', 'v')
    def __init__(self, k, st, v=None): self.k, self.st, self.v = k, st, v

class Env:
    def __init__(self, this=None, parent=None, fn=None): self.vars, self.this, self.parent, self.fn = {}, this, parent, fn
    def get(self, i):
        e = self
        while e is not None:
            if i in e.vars: return e.vars[i]
            e = e.parent
        raise Unsupported('unbound variable')

SIZE_MAX_BOUND = 1 << 40   # assumption: no container is longer than 2^40 elements

class Engine:
    def __init__(self, prog, cfg=32, mode='ded', unroll=4):
        self.p, self.cfg, self.mode, self.unroll = prog, cfg, mode, unroll
        self.obls = []
        self.roots = itertools.count(1)
        self.thr = []          # stack of lists of throw outcomes
        self.choice_stack = [] # forks
        self.contracts = {}    # key -> contract applied at call sites
        self.no_contract = set()
        self.loop_hints = {}
        self.sort_cache, self.leaf_cache = {}, {}
        self.used_contracts, self.inlined, self.trusted = set(), set(), set(); self.used_keys = set()
        self.depth = 0
        self.quiet = 0
        self.curfn = []
        self.pruner = z3.SolverFor('QF_AUFBV'); self.pruner.set('timeout', 500)
        self.stat = {}
        self.cut = 0
        self.unwind = {}; self.hist_n = {}; self.inductive = True
        self.invlog = []
        self.maxdepth = 40
        self.max_paths = 4000
        self.discover = 0; self.inv_timeout = 3; self.failed_invs = []
        import stdmodel
        self.std = stdmodel.Std(self)

    # ---------- types
    def T(self, t): return self.p.types[t]
    def props_cls(self): return 'pe_bliss::pe_properties_generic<pe_bliss::pe_types_class_%d>' % self.cfg
    def strip(self, t):
        ty = self.T(t)
        return ty['to'] if ty['k'] == 'ref' else t
    def is_class(self, t): return self.T(t)['k'] in ('rec', 'arr')
    def rec(self, t):
        ty = self.T(t)
        return self.p.records[ty['name']] if ty['k'] == 'rec' else None
    def container_elem(self, t):
        """element type of vector/basic_string/array types, else None"""
        ty = self.T(t)
        if ty['k'] == 'arr': return ty['of']
        r = self.rec(t)
        if r and r.get('tmpl') in ('std::vector', 'std::basic_string') : return r['targs'][0]
        if t.startswith('#heap '): return t[6:]
        return None
    def is_string(self, t):
        r = self.rec(t); return bool(r) and r.get('tmpl') == 'std::basic_string'
    def is_stream(self, t):
        r = self.rec(t)
        return bool(r) and (r.get('qn') in ('std::basic_istream', 'std::basic_ostream', 'std::basic_ios', 'std::basic_iostream', 'std::basic_stringstream', 'std::basic_istringstream', 'std::basic_ostringstream', 'std::ios_base'))
    def fields(self, t):
        """all fields incl. bases: list of (name, type, bitoff, field record)"""
        r = self.rec(t); res = []
        for b in r.get('bases', []):
            br = self.p.records[self.T(b['t'])['name']]
            if br.get('std'): continue
            for n, ft, off, f in self.fields(b['t']): res.append((n, ft, off + b.get('off', 0) * 8, f))
        for f in r.get('fields', []): res.append((f['n'], f['t'], f['off'], f))
        return res
    def field(self, t, name):
        for n, ft, off, f in self.fields(t):
            if n == name: return ft, off, f
        raise Unsupported('no field %s in %s' % (name, t))
    def has_raw_layout(self, t):
        """records kept as one raw bit-vector leaf (unions, bit-fields)"""
        r = self.rec(t)
        if not r or r.get('std'): return False
        fs = r.get('fields', [])
        if (r.get('union') or any(f.get('bf') for f in fs)) and r['size'] <= 64:
            return not any(self.has_ptr(f['t']) for f in fs)
        return False
    def has_ptr(self, t):
        ty = self.T(t)
        if ty['k'] in ('ptr', 'ref'): return True
        if ty['k'] == 'arr': return self.has_ptr(ty['of'])
        if ty['k'] == 'rec':
            r = self.p.records[ty['name']]
            if r.get('std'): return True
            return any(self.has_ptr(f['t']) for f in r.get('fields', []))
        return False
    def sort(self, t):
        ty = self.T(t)
        if ty['k'] == 'bool': return z3.BoolSort()
        if ty['k'] in ('int', 'enum', 'float'): return z3.BitVecSort(ty['w'])
        return z3.BitVecSort(64)
    def leaves(self, t):
        """[(suffix path, sort)] of a type"""
        if t in self.leaf_cache: return self.leaf_cache[t]
        self.leaf_cache[t] = [(('#rec',), z3.BitVecSort(64))]  # recursion guard
        ty = self.T(t) if not t.startswith('#heap ') else {'k': 'heap'}
        k = ty['k']; res = []
        if k in ('bool', 'int', 'enum', 'float'): res = [((), self.sort(t))]
        elif k in ('ptr', 'ref', 'fn', 'memptr', 'other'): res = []
        elif k == 'arr':
            res = [(('[]',) + p, z3.ArraySort(z3.BitVecSort(64), s)) for p, s in self.leaves(ty['of'])]
        else:
            e = self.container_elem(t)
            if e is not None:
                res = [(('.len',), z3.BitVecSort(64))] + [(('[]',) + p, z3.ArraySort(z3.BitVecSort(64), s)) for p, s in self.leaves(e)]
            elif self.is_stream(t):
                res = [(('.len',), z3.BitVecSort(64)), (('[]',), z3.ArraySort(z3.BitVecSort(64), z3.BitVecSort(8))), (('.pos',), z3.BitVecSort(64)), (('.st',), z3.BitVecSort(32)), (('.exc',), z3.BitVecSort(32)), (('.ppos',), z3.BitVecSort(64))]
            else:
                r = self.rec(t)
                if self.has_raw_layout(t): res = [(('#u',), z3.BitVecSort(r['size'] * 8))]
                elif r.get('std'):
                    if r.get('tmpl') == 'std::pair':
                        for i, n in enumerate(('first', 'second')):
                            for p, s in self.leaves(r['targs'][i]): res.append(((n,) + p, s))
                    elif r.get('tmpl') in ('std::map', 'std::multimap', 'std::set'):
                        res = [(('.id',), z3.BitVecSort(64)), (('.len',), z3.BitVecSort(64))]
                    elif r.get('qn') == 'std::fpos': res = [((), z3.BitVecSort(64))]
                    elif r.get('tmpl') == '__gnu_cxx::__normal_iterator' or 'iterator' in r.get('qn', ''): res = []
                    else: res = [(('.id',), z3.BitVecSort(64))]
                else:
                    for n, ft, off, f in self.fields(t):
                        fty = self.T(ft)
                        if fty['k'] == 'ptr' and fty['to'] == 'pe_bliss::pe_properties':
                            for p, s in self.leaves(self.props_cls()): res.append(((n + '*',) + p, s))
                        else:
                            for p, s in self.leaves(ft): res.append(((n,) + p, s))
        self.leaf_cache[t] = res
        return res
    def reffields(self, t):
        """paths of pointer/reference fields (no lifts)"""
        ty = self.T(t) if not t.startswith('#heap ') else {'k': 'heap'}
        if ty['k'] != 'rec': return []
        r = self.rec(t)
        if self.is_iter(t): return [()]
        if r.get('std'):
            if r.get('tmpl') == 'std::pair':
                res = []
                for i, n in enumerate(('first', 'second')):
                    if self.T(r['targs'][i])['k'] in ('ptr', 'ref') : res.append((n,))
                    else: res += [(n,) + x for x in self.reffields(r['targs'][i])]
                return res
            return []
        res = []
        for n, ft, off, f in self.fields(t):
            fty = self.T(ft)
            if fty['k'] in ('ptr', 'ref'): res.append((n,))
            elif fty['k'] == 'rec': res += [(n,) + x for x in self.reffields(ft)]
        return res
    def is_iter(self, t):
        r = self.rec(t)
        return bool(r) and bool(r.get('std')) and ('iterator' in r.get('qn', ''))

    # ---------- memory
    def newroot(self, n): return '%s~%d' % (n, next(self.roots))
    def leaf_const(self, root, path, srt): return z3.Const(root + ('.' + '.'.join(path) if path else ''), srt)
    def rd(self, st, root, path, srt):
        k = (root, path)
        t = st.mem.get(k)
        if t is None:
            t = self.leaf_const(root, path, srt)
        return t
    def lift_sort(self, s, n):
        for _ in range(n): s = z3.ArraySort(z3.BitVecSort(64), s)
        return s
    def rdleaf(self, st, loc, suffix, srt):
        t = self.rd(st, loc.root, loc.path + suffix, self.lift_sort(srt, len(loc.idxs)))
        for i in loc.idxs: t = sel(t, i)
        return t
    def wrleaf(self, st, loc, suffix, srt, v):
        k = (loc.root, loc.path + suffix)
        if not loc.idxs: st.mem[k] = v; return
        t = self.rd(st, loc.root, loc.path + suffix, self.lift_sort(srt, len(loc.idxs)))
        st.mem[k] = upd(t, loc.idxs, v)
    def load(self, st, loc):
        """scalar or pointer value at loc"""
        t = loc.ty; ty = self.T(t)
        if ty['k'] in ('ptr', 'ref') or self.is_iter(t):
            if isinstance(loc, BLoc): raise Unsupported('pointer load from bytes')
            if ty.get('to') == 'pe_bliss::pe_properties': return self.default_ref(st, loc)
            if loc.idxs: raise Unsupported('pointer inside container')
            r = st.refs.get((loc.root, loc.path))
            if r is None: 
                r = self.default_ref(st, loc)
            return r
        if isinstance(loc, BLoc):
            n = self.p.sizeof(t)
            if loc.sl: return self.slice_get(self.read_raw(st, loc.base, loc.off, loc.sl[2] // 8), loc.sl, ty)
            raw = self.read_raw(st, loc.base, loc.off, n)
            return self.raw_to(raw, ty)
        if loc.sl:
            lo, w, tot = loc.sl
            raw = self.rdleaf(st, loc, ('#u',), z3.BitVecSort(tot))
            return self.slice_get(raw, loc.sl, ty)
        return self.rdleaf(st, loc, (), self.sort(t))
    def slice_get(self, raw, sl, ty):
        lo, w, tot = sl
        v = ext(lo + w - 1, lo, raw)
        if ty['k'] == 'bool': return v != 0
        if ty['w'] > w: v = (sext if ty['s'] else zext)(v, ty['w'])
        return v
    def raw_to(self, raw, ty):
        if ty['k'] == 'bool': return simp(ext(0, 0, raw) == 1)
        return raw
    def to_raw(self, v, ty):
        if ty['k'] == 'bool': return ite(v, bv(1, 8), bv(0, 8))
        return v
    def default_ref(self, st, loc):
        if self.T(loc.ty).get('to') == 'pe_bliss::pe_properties':
            l = Loc(loc.root, loc.path[:-1] + (loc.path[-1] + '*',), loc.idxs, self.props_cls())
            return Ptr('obj', l, None, 'pe_bliss::pe_properties')
        raise Unsupported('uninitialised pointer %r' % loc)
    def store(self, st, loc, v):
        t = loc.ty; ty = self.T(t)
        if ty['k'] in ('ptr', 'ref') or self.is_iter(t):
            if isinstance(loc, BLoc) or loc.idxs:
                raise Unsupported('pointer store in container')
            st.refs[(loc.root, loc.path)] = v
            st.mem[(loc.root, loc.path + ('#w',))] = bv(0)
            return
        if isinstance(loc, BLoc):
            if loc.sl:
                raw = self.read_raw(st, loc.base, loc.off, loc.sl[2] // 8)
                self.write_raw(st, loc.base, loc.off, self.slice_set(raw, loc.sl, v, ty)); return
            self.write_raw(st, loc.base, loc.off, self.to_raw(v, ty)); return
        if loc.sl:
            lo, w, tot = loc.sl
            raw = self.rdleaf(st, loc, ('#u',), z3.BitVecSort(tot))
            self.wrleaf(st, loc, ('#u',), z3.BitVecSort(tot), self.slice_set(raw, loc.sl, v, ty)); return
        self.wrleaf(st, loc, (), self.sort(t), v)
    def slice_set(self, raw, sl, v, ty):
        lo, w, tot = sl
        v = self.to_raw(v, ty)
        v = ext(w - 1, 0, v) if v.size() > w else v
        parts = []
        if lo + w < tot: parts.append(ext(tot - 1, lo + w, raw))
        parts.append(v)
        if lo > 0: parts.append(ext(lo - 1, 0, raw))
        return cat(parts)
    # bytes of containers / objects
    def read_raw(self, st, base, off, n):
        """little-endian n bytes at byte offset off of base; emits the bounds obligation"""
        if isinstance(base, BLoc): return self.read_raw(st, base.base, add(base.off, off), n)
        e = self.container_elem(base.ty)
        if e is not None and self.T(e)['k'] in ('int', 'enum', 'bool'):
            es = self.p.sizeof(e)
            ln = self.clen(st, base)
            if es == 1:
                self.obl_bounds(st, off, bv(n), self.cap(st, base), 'read %d bytes' % n)
                bs = [self.byte_at(st, base, add(off, bv(i))) for i in range(n)]
                return cat(list(reversed(bs)))
            so = simp(off)
            if isnum(so):
                o = so.as_long()
                self.obl_bounds(st, off, bv(n), simp(self.cap(st, base) * es), 'read %d bytes' % n)
                bs = []
                for i in range(n):
                    el = self.elem_read(st, base, bv((o + i) // es)); b = (o + i) % es
                    bs.append(ext(b * 8 + 7, b * 8, el))
                return cat(list(reversed(bs)))
            self.obl_bounds(st, off, bv(n), simp(self.cap(st, base) * es), 'read %d bytes' % n)
            if n == es:
                self.check(st, z3.URem(off, bv(es)) == 0, 'aligned element view', 'align')
                return self.elem_read(st, base, z3.UDiv(off, bv(es)))
            raise Unsupported('wide element byte read')
        # object
        so = simp(off)
        if not isnum(so): raise Unsupported('symbolic offset in object')
        o = so.as_long()
        by = self.obj_bytes(st, base)
        if o + n > len(by):
            self.check(st, z3.BoolVal(False), 'read past object', 'bounds'); raise Dead()
        return cat(list(reversed(by[o:o + n])))
    def cap(self, st, base):
        """addressable elements from the start: strings have the terminating zero"""
        ln = self.clen(st, base)
        return simp(ln + 1) if self.is_string(base.ty) else ln
    def clen(self, st, base):
        ty = self.T(base.ty) if not base.ty.startswith('#heap ') else {'k': 'h'}
        if ty['k'] == 'arr': return bv(ty['n'])
        ln = self.rdleaf(st, base, ('.len',), z3.BitVecSort(64))
        return ln
    def elem_read(self, st, base, i):
        e = self.container_elem(base.ty)
        v = self.rdleaf(st, base, ('[]',), z3.ArraySort(z3.BitVecSort(64), self.sort(e)))
        return sel(v, i)
    def byte_at(self, st, base, i):
        e = self.container_elem(base.ty)
        v = self.elem_read(st, base, i)
        if self.T(e)['k'] == 'bool': v = ite(v, bv(1, 8), bv(0, 8))
        if self.is_string(base.ty):
            ln = self.clen(st, base)
            c = simp(i == ln)
            if z3.is_false(c): return v
            if z3.is_true(c): return bv(0, 8)
            return ite(c, bv(0, 8), v)
        return v
    def write_raw(self, st, base, off, v):
        if isinstance(base, BLoc): return self.write_raw(st, base.base, add(base.off, off), v)
        n = v.size() // 8
        e = self.container_elem(base.ty)
        if e is not None and self.T(e)['k'] in ('int', 'enum'):
            es = self.p.sizeof(e)
            if es == 1:
                self.obl_bounds(st, off, bv(n), self.clen(st, base), 'write %d bytes' % n)
                srt = z3.ArraySort(z3.BitVecSort(64), z3.BitVecSort(8))
                a = self.rdleaf(st, base, ('[]',), srt)
                for i in range(n): a = z3.Store(a, add(off, bv(i)), ext(i * 8 + 7, i * 8, v))
                self.wrleaf(st, base, ('[]',), srt, a)
                return
            self.obl_bounds(st, off, bv(n), simp(self.clen(st, base) * es), 'write %d bytes' % n)
            so = simp(off)
            if n % es == 0 and isnum(so) and so.as_long() % es == 0:
                srt = z3.ArraySort(z3.BitVecSort(64), self.sort(e))
                a = self.rdleaf(st, base, ('[]',), srt)
                for i in range(n // es): a = z3.Store(a, bv(so.as_long() // es + i), ext((i + 1) * es * 8 - 1, i * es * 8, v))
                self.wrleaf(st, base, ('[]',), srt, a); return
            raise Unsupported('wide element byte write')
        so = simp(off)
        if not isnum(so): raise Unsupported('symbolic offset object write')
        o = so.as_long(); sz = self.p.sizeof(base.ty)
        if o + n > sz:
            self.check(st, z3.BoolVal(False), 'write past object', 'bounds'); raise Dead()
        if o == 0 and n == sz: full = v
        else:
            by = self.obj_bytes(st, base)
            by[o:o + n] = [ext(i * 8 + 7, i * 8, v) for i in range(n)]
            full = cat(list(reversed(by)))
        self.obj_from_raw(st, base, full)
    def layout(self, t, bit=0):
        """[(suffix, elem idx list, bit offset, type)] of scalar parts of a flat type"""
        ty = self.T(t)
        if ty['k'] in ('int', 'bool', 'enum', 'float'): return [((), [], bit, t)]
        if ty['k'] == 'arr':
            es = self.p.sizeof(ty['of']) * 8; res = []
            for i in range(ty['n']):
                for s, ix, b, tt in self.layout(ty['of'], bit + i * es): res.append((('[]',) + s, [bv(i)] + ix, b, tt))
            return res
        if ty['k'] == 'rec':
            if self.has_raw_layout(t): return [(('#u',), [], bit, '#raw%d' % (self.rec(t)['size'] * 8))]
            if self.rec(t).get('std'): raise Unsupported('byte layout of ' + t)
            res = []
            for n, ft, off, f in self.fields(t):
                for s, ix, b, tt in self.layout(ft, bit + off): res.append(((n,) + s, ix, b, tt))
            return res
        raise Unsupported('byte layout of ' + t)
    def obj_bytes(self, st, loc):
        if isinstance(loc, BLoc):
            v = self.read_raw(st, loc.base, loc.off, self.p.sizeof(loc.ty)); return [ext(i * 8 + 7, i * 8, v) for i in range(self.p.sizeof(loc.ty))]
        if loc.sl:
            raw = self.rdleaf(st, loc, ('#u',), z3.BitVecSort(loc.sl[2])); v = ext(loc.sl[0] + loc.sl[1] - 1, loc.sl[0], raw)
            return [ext(i * 8 + 7, i * 8, v) for i in range(v.size() // 8)]
        n = self.p.sizeof(loc.ty); by = [None] * n
        for s, ix, b, t in self.layout(loc.ty):
            l = Loc(loc.root, loc.path, loc.idxs, t)
            if t.startswith('#raw'): v = self.rdleaf(st, loc, s, z3.BitVecSort(int(t[4:])))
            else:
                v = self.to_raw(self.rd_deep(st, loc, s, ix, self.sort(t)), self.T(t))
            for i in range(v.size() // 8): by[b // 8 + i] = ext(i * 8 + 7, i * 8, v)
        for i in range(n):
            if by[i] is None: by[i] = z3.BitVec(fresh_name('pad'), 8)
        return by
    def rd_deep(self, st, loc, s, ix, srt):
        t = self.rd(st, loc.root, loc.path + s, self.lift_sort(srt, len(loc.idxs) + len(ix)))
        for i in list(loc.idxs) + ix: t = sel(t, i)
        return t
    def wr_deep(self, st, loc, s, ix, srt, v):
        k = (loc.root, loc.path + s); al = list(loc.idxs) + ix
        if not al: st.mem[k] = v; return
        t = self.rd(st, loc.root, loc.path + s, self.lift_sort(srt, len(al)))
        st.mem[k] = upd(t, al, v)
    def obj_from_raw(self, st, loc, raw):
        if loc.sl:
            full = self.rdleaf(st, loc, ('#u',), z3.BitVecSort(loc.sl[2]))
            self.wrleaf(st, loc, ('#u',), z3.BitVecSort(loc.sl[2]), self.slice_set(full, loc.sl, raw, {'k': 'int'})); return
        for s, ix, b, t in self.layout(loc.ty):
            if t.startswith('#raw'):
                w = int(t[4:]); self.wr_deep(st, loc, s, ix, z3.BitVecSort(w), ext(b + w - 1, b, raw))
            else:
                w = self.p.sizeof(t) * 8; v = ext(b + w - 1, b, raw)
                self.wr_deep(st, loc, s, ix, self.sort(t), self.raw_to(v, self.T(t)))
    def copy(self, st, dst, src):
        """*dst = *src for class types (src may be a byte view)"""
        if isinstance(src, BLoc):
            raw = self.read_raw(st, src.base, src.off, self.p.sizeof(src.ty))
            if isinstance(dst, BLoc): self.write_raw(st, dst.base, dst.off, raw)
            else: self.obj_from_raw(st, dst, raw)
            return
        if isinstance(dst, BLoc):
            by = self.obj_bytes(st, src); self.write_raw(st, dst.base, dst.off, cat(list(reversed(by)))); return
        if dst.same(src): return
        if src.sl or dst.sl:
            by = self.obj_bytes(st, src); self.obj_from_raw(st, dst, cat(list(reversed(by)))); return
        vals = [(s, srt, self.rdleaf(st, src, s, srt)) for s, srt in self.leaves(src.ty)]
        rf = []
        for p in self.reffields(src.ty):
            v = st.refs.get((src.root, src.path + p))
            if v is not None: rf.append((p, v))
        for s, srt, v in vals: self.wrleaf(st, dst, s, srt, v)
        if not dst.idxs and not src.idxs:
            for p, v in rf: st.refs[(dst.root, dst.path + p)] = v
        elif rf and self.reffields(src.ty): 
            pass
    def zero(self, st, loc):
        if isinstance(loc, BLoc):
            n = self.p.sizeof(loc.ty); self.write_raw(st, loc.base, loc.off, bv(0, 8 * n)); return
        ty = self.T(loc.ty)
        if ty['k'] in ('ptr',) : self.store(st, loc, Ptr('null')); return
        if loc.sl: self.store(st, loc, bv(0, ty['w']) if ty['k'] != 'bool' else z3.BoolVal(False)); return
        for s, srt in self.leaves(loc.ty): self.wrleaf(st, loc, s, srt, zero_of(srt))
        for p in self.reffields(loc.ty):
            if not loc.idxs: st.refs[(loc.root, loc.path + p)] = Ptr('null')
    def temp(self, n, ty): return Loc(self.newroot(n), (), [], ty)

    # ---------- obligations / path conditions
    def where(self): return self.curfn[-1] if self.curfn else '?'
    def check(self, st, goal, label, kind='assert', loc=None):
        goal = b2(goal)
        if not isF(goal):
            g = simp(goal)
            if z3.is_true(g):
                if not self.quiet: self.stat['trivial'] = self.stat.get('trivial', 0) + 1
                return
        if not self.quiet:
            self.obls.append(Obl(list(st.pc), goal, label, loc or getattr(self, 'cur_loc', ''), kind, self.where()))
        st.pc.append(goal)
    def obl_bounds(self, st, off, n, ln, label):
        # off + n <= ln without wrap-around
        g = and_(z3.ULE(n, ln), z3.ULE(off, ln - n)) if not isnum(ln) or not isnum(n) else (z3.ULE(off, bv(ln.as_long() - n.as_long())) if ln.as_long() >= n.as_long() else z3.BoolVal(False))
        self.check(st, g, label, 'bounds')
        if z3.is_false(simp(b2(g))): raise Dead()
    def assume(self, st, c):
        c = b2(c)
        if not isF(c):
            c = simp(c) if not (z3.is_const(c)) else c
            if z3.is_true(c): return
        st.pc.append(c)
    def feasible(self, st, c=None):
        s = z3.SolverFor('QF_AUFBV'); s.set('timeout', 400)
        for h in st.pc:
            if not isF(h): s.add(h)
        if c is not None: s.add(c)
        return s.check() != z3.unsat

    # ---------- merging
    def merge(self, outs):
        """outs: list of (state, value); returns list of (state, value), merged as far as possible"""
        if len(outs) <= 1: return outs
        res = [outs[0]]
        for o in outs[1:]:
            for i, r in enumerate(res):
                m = self.merge2(r, o)
                if m is not None: res[i] = m; break
            else: res.append(o)
        return res
    def merge2(self, a, b):
        (sa, va), (sb, vb) = a, b
        pa, pb = sa.pc, sb.pc
        n = 0
        while n < len(pa) and n < len(pb) and (pa[n] is pb[n] or (not isF(pa[n]) and not isF(pb[n]) and pa[n].eq(pb[n]))): n += 1
        xa, xb = pa[n:], pb[n:]
        if not xa or not xb: return None if (xa or xb) else self._merge_same(a, b)
        sel_ = None
        if not isF(xa[0]) and not isF(xb[0]):
            if not_(xa[0]).eq(xb[0]) or not_(xb[0]).eq(xa[0]): sel_ = xa[0]
            elif z3.is_false(simp(z3.And(xa[0], xb[0]))): sel_ = xa[0]
        if sel_ is None:
            ga = [x for x in xa if not isF(x)]; gb = [x for x in xb if not isF(x)]
            # need mutually exclusive guards
            s = z3.SolverFor('QF_AUFBV'); s.set('timeout', 300); s.add(*ga); s.add(*gb)
            if not ga or s.check() != z3.unsat: return None
            sel_ = and_(*ga)
        for k in sa.mem:
            # a stream that failed and one that did not are followed separately
            if k[1] and k[1][-1] == '.st' and k in sb.mem and not sa.mem[k].eq(sb.mem[k]) and isnum(sa.mem[k]) and isnum(sb.mem[k]): return None
        ok, v = self.mergeval(sel_, va, vb, sa, sb)
        if not ok: return None
        st = State()
        for k in set(sa.refs) | set(sb.refs):
            ra, rb = sa.refs.get(k), sb.refs.get(k)
            if ra is None or rb is None: 
                continue
            ok, r = self.mergeval(sel_, ra, rb, sa, sb)
            if not ok:
                return None
            st.refs[k] = r
        st.pc = pa[:n]
        if len(xa) == 1 and len(xb) == 1 and not isF(xa[0]) and not isF(xb[0]) and (xa[0].eq(not_(xb[0])) or xb[0].eq(not_(xa[0]))): pass
        else:
            for x in xa:
                if x is not sel_: st.pc.append(imp(sel_, x))
            for x in xb:
                st.pc.append(imp(not_(sel_), x)) if not (not isF(x) and x.eq(not_(sel_))) else None
        for k in set(sa.mem) | set(sb.mem):
            ta, tb = sa.mem.get(k), sb.mem.get(k)
            if ta is None: ta = self.leaf_const(k[0], k[1], tb.sort())
            if tb is None: tb = self.leaf_const(k[0], k[1], ta.sort())
            st.mem[k] = ite(sel_, ta, tb)
        st.exc = sa.exc if sa.exc is sb.exc else None
        return (st, v)
    def _merge_same(self, a, b): return None
    def mergeval(self, c, a, b, sa=None, sb=None):
        if a is b: return True, a
        if a is None or b is None: return False, None
        if z3.is_expr(a) and z3.is_expr(b):
            if a.sort() != b.sort(): return False, None
            return True, ite(c, a, b)
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.kind == 'null' and b.kind == 'null': return True, a
            if a.kind != b.kind or a.kind == 'null' or a.ety != b.ety: return False, None
            l = self.mergeloc(c, a.loc, b.loc)
            if l is None: return False, None
            return True, Ptr(a.kind, l, ite(c, a.idx, b.idx) if a.idx is not None else None, a.ety)
        if isinstance(a, (Loc, BLoc)) and isinstance(b, (Loc, BLoc)):
            if a.same(b): return True, a
            l = self.mergeloc(c, a, b)
            if l is not None: return True, l
            if isinstance(a, Loc) and isinstance(b, Loc) and a.ty == b.ty and a.root.startswith('tmp') and b.root.startswith('tmp') and not a.idxs and not b.idxs and not a.path and not b.path and sa is not None:
                # class temporaries: merge by value
                t = self.temp('tmpm', a.ty)
                self.copy(sa, t, a); self.copy(sb, t, b)
                return True, t
            return False, None
        if isinstance(a, Opaque) and isinstance(b, Opaque): return True, a
        return False, None
    def mergeloc(self, c, a, b):
        if type(a) is not type(b): return None
        if isinstance(a, BLoc):
            l = self.mergeloc(c, a.base, b.base)
            if l is None or a.ty != b.ty or a.sl != b.sl: return None
            return BLoc(l, ite(c, a.off, b.off), a.ty, a.sl)
        if a.root != b.root or a.path != b.path or a.ty != b.ty or a.sl != b.sl or len(a.idxs) != len(b.idxs): return None
        return Loc(a.root, a.path, [ite(c, x, y) for x, y in zip(a.idxs, b.idxs)], a.ty, a.sl)

    def fork(self, n):
        """choose among n alternatives inside an expression: handled by re-execution"""
        ch = self.choice_stack[-1]
        if ch['pos'] < len(ch['choices']):
            c = ch['choices'][ch['pos']]; ch['pos'] += 1
            return c
        raise NeedFork(n)

    def decide(self, st, c):
        """truth of c on this path, forking when both are possible; quantified conditions stay symbolic"""
        c = simp(b2(c))
        if z3.is_true(c) or z3.is_false(c) or not self.choice_stack: return c
        if not self.feasible(st, z3.Not(c)): return z3.BoolVal(True)
        if not self.feasible(st, c): return z3.BoolVal(False)
        i = self.fork(2)
        st.pc.append(c if i == 0 else not_(c))
        return z3.BoolVal(i == 0)
    def with_forks(self, st, fn):
        """run fn(state) -> outcomes; re-execute for each alternative of an unmergeable choice"""
        work = [[]]; outs = []
        snap = st
        while work:
            ch = work.pop()
            s = snap.clone()
            self.choice_stack.append({'choices': ch, 'pos': 0})
            self.thr.append([])
            nob = len(self.obls); ni = self.roots
            try:
                r = fn(s)
                outs += r + self.thr[-1]
            except NeedFork as e:
                del self.obls[nob:]
                for i in range(e.n): work.append(ch + [i])
            except Dead:
                outs += self.thr[-1]
            finally:
                self.thr.pop(); self.choice_stack.pop()
            if len(outs) > self.max_paths: raise Unsupported('too many paths')
        return outs

    # ---------- statements
    def exec(self, s, st, env):
        if s is None: return [Out('n', st)]
        k = s['k']
        m = getattr(self, 's_' + k, None)
        if m is None: raise Unsupported('statement ' + k + ' ' + str(s.get('what')))
        if 'loc' in s: self.cur_loc = s['loc']
        return m(s, st, env)
    def s_block(self, s, st, env): return self.seq(s['b'], st, env)
    def seq(self, stmts, st, env):
        cur = [st]; done = []
        for x in stmts:
            nxt = []
            for c in cur:
                for o in self.exec(x, c, env):
                    if o.k == 'n': nxt.append(o.st)
                    else: done.append(o)
            cur = [a for a, _ in self.merge([(c, 0) for c in nxt])] if len(nxt) > 1 else nxt
            if not cur: break
        return done + [Out('n', c) for c in cur]
    def s_nop(self, s, st, env): return [Out('n', st)]
    def s_expr(self, s, st, env):
        def f(x): self.ev(s['e'], x, env); return [Out('n', x)]
        return self.with_forks(st, f)
    def s_decl(self, s, st, env):
        def f(x):
            for v in s['v']: self.declare(v, x, env)
            return [Out('n', x)]
        return self.with_forks(st, f)
    def declare(self, v, st, env):
        t = v['t']; ty = self.T(t)
        if ty['k'] == 'ref':
            env.vars[v['id']] = self.ev_lv(v['init'], st, env); return
        loc = self.temp(v['n'] or 'anon', t)
        env.vars[v['id']] = loc
        if v['init'] is not None: self.init(loc, v['init'], st, env)
        elif ty['k'] == 'rec': pass
    def init(self, loc, e, st, env):
        """initialise object at loc with expression e"""
        ty = self.T(loc.ty)
        if ty['k'] == 'ref':
            st.refs[(loc.root, loc.path)] = self.ev_lv(e, st, env); return
        if e['k'] == 'init': return self.ev_initlist(loc, e, st, env)
        if self.is_class(loc.ty) and not self.is_iter(loc.ty): self.ev_class(e, st, env, loc)
        else:
            v = self.ev(e, st, env)
            self.store(st, loc, v)
    def ev_initlist(self, loc, e, st, env):
        ty = self.T(loc.ty)
        if not isinstance(loc, BLoc): self.zero(st, loc)
        if ty['k'] == 'arr':
            for i, x in enumerate(e['a']): self.init(self.elem(loc, bv(i)), x, st, env)
        elif ty['k'] == 'rec':
            fs = self.fields(loc.ty)
            for x, f in zip(e['a'], fs): self.init(self.fld(st, loc, f[0]), x, st, env)
        else:
            if e['a']: self.store(st, loc, self.ev(e['a'][0], st, env))
    def truth(self, st, c):
        """1 / 0 / None"""
        c = simp(b2(c))
        if z3.is_true(c): return 1
        if z3.is_false(c): return 0
        return None
    def branch(self, st, c):
        """[(state, taken)]"""
        c = simp(b2(c))
        if z3.is_true(c): return [(st, True)]
        if z3.is_false(c): return [(st, False)]
        a, b = st.clone(), st
        a.pc.append(c); b.pc.append(not_(c))
        res = []
        if self.mode == 'bmc' or self.prune:
            if self.feasible(a): res.append((a, True))
            if not res or self.feasible(b): res.append((b, False))
            return res
        return [(a, True), (b, False)]
    prune = True
    def s_if(self, s, st, env):
        def f(x):
            if s.get('cv'): self.declare(s['cv'], x, env)
            c = self.ev_cond(s['c'], x, env)
            return [Out('n', x, c)]
        pre = [st]
        if s.get('init'): 
            pre = []; rest = []
            for o in self.exec(s['init'], st, env): (pre.append(o.st) if o.k == 'n' else rest.append(o))
        else: rest = []
        outs = list(rest)
        for p in pre:
            for o in self.with_forks(p, f):
                if o.k != 'n': outs.append(o); continue
                nrm = []
                for b, taken in self.branch(o.st, o.v):
                    for q in self.exec(s['a'] if taken else s['b'], b, env):
                        (nrm.append((q.st, 0)) if q.k == 'n' else outs.append(q))
                outs += [Out('n', a) for a, _ in self.merge(nrm)]
        return outs
    def s_return(self, s, st, env):
        fn = env_fn(env)
        def f(x):
            if s['e'] is None: return [Out('r', x, None)]
            rt = fn['ret']
            if self.T(rt)['k'] == 'ref': v = self.ev_lv(s['e'], x, env)
            elif self.is_class(rt) and not self.is_iter(rt): 
                t = self.temp('tmpr', rt); v = self.ev_class(s['e'], x, env, t)
                if not (isinstance(v, Loc) and v.root == t.root): self.copy(x, t, v); v = t
            else: v = self.ev(s['e'], x, env)
            return [Out('r', x, v)]
        return self.with_forks(st, f)
    def s_break(self, s, st, env): return [Out('b', st)]
    def s_continue(self, s, st, env): return [Out('c', st)]
    def s_switch(self, s, st, env):
        res = []
        for o in self.with_forks(st, lambda x: [Out('n', x, self.ev(s['c'], x, env))]):
            if o.k != 'n': res.append(o); continue
            body = s['b']['b'] if s['b']['k'] == 'block' else [s['b']]
            flat = []  # (labels, stmt)
            for x in body:
                labels = []
                while x is not None and x['k'] in ('case', 'default'):
                    labels.append(x['v'] if x['k'] == 'case' else 'default'); x = x['b']
                flat.append((labels, x))
            v = o.v; cur = o.st; entries = []; rest = []
            for i, (ls, x) in enumerate(flat):
                for l in ls:
                    if l == 'default': entries.append((i, None))
                    else:
                        cv = self.ev(l, cur, env)
                        if cv.size() != v.size(): cv = zext(cv, v.size()) if cv.size() < v.size() else ext(v.size() - 1, 0, cv)
                        entries.append((i, cv))
            conds = [v == c for i, c in entries if c is not None]
            starts = {}
            for i, c in entries:
                cc = (v == c) if c is not None else not_(or_(*conds))
                starts.setdefault(i, []).append(cc)
            if not any(c is None for i, c in entries): starts.setdefault(len(flat), []).append(not_(or_(*conds)))
            nrm = []
            for i, cs in starts.items():
                c = simp(or_(*cs))
                if z3.is_false(c): continue
                b = cur.clone()
                if not z3.is_true(c): b.pc.append(c)
                if not self.feasible(b): continue
                for q in self.seq([x for _, x in flat[i:]], b, env):
                    if q.k in ('n', 'b'): nrm.append((q.st, 0))
                    else: res.append(q)
            res += [Out('n', a) for a, _ in self.merge(nrm)]
        return res
    def exc_matches(self, exc, ht):
        """thrown type qn vs handler type id"""
        if ht is None: return True
        h = self.T(ht)
        if h['k'] == 'ref': h = self.T(h['to'])
        want = h.get('name', '')
        def derived(t):
            if t == want: return True
            r = self.p.records.get(t)
            if r is None: return want == 'std::exception' 
            if any(derived(self.T(b['t'])['name']) for b in r.get('bases', [])): return True
            return False
        if want == 'std::exception' and exc['cls'] in ('std::ios_base::failure', 'std::length_error', 'std::out_of_range', 'std::bad_alloc', 'std::runtime_error', 'std::range_error'): return True
        return derived(exc['cls'])
    def s_try(self, s, st, env):
        res = []; nrm = []
        for o in self.exec(s['b'], st, env):
            if o.k == 'n': nrm.append((o.st, 0)); continue
            if o.k != 't': res.append(o); continue
            for h in s['h']:
                if self.exc_matches(o.v, h.get('t')):
                    saved = o.st.exc; o.st.exc = o.v
                    if 'v' in h and h['v'] is not None and h['v'].get('id'): env.vars[h['v']['id']] = o.v.get('loc') or self.temp('exc', 'int')
                    for q in self.exec(h['b'], o.st, env):
                        q.st.exc = saved
                        (nrm.append((q.st, 0)) if q.k == 'n' else res.append(q))
                    break
            else: res.append(o)
        return res + [Out('n', a) for a, _ in self.merge(nrm)]

    # loops -------------------------------------------------
    def s_for(self, s, st, env):
        outs = []
        for o in self.exec(s['init'], st, env):
            if o.k != 'n': outs.append(o)
            else: outs += self.loop(s, s['c'], s['inc'], s['b'], o.st, env, True)
        return outs
    def s_while(self, s, st, env): return self.loop(s, s['c'], None, s['b'], st, env, True)
    def s_do(self, s, st, env): return self.loop(s, s['c'], None, s['b'], st, env, False)
    def s_forrange(self, s, st, env):
        outs = []; cur = [st]
        for d in s['pre']:
            nxt = []
            for c in cur:
                for o in self.exec(d, c, env): (nxt.append(o.st) if o.k == 'n' else outs.append(o))
            cur = nxt
        body = {'k': 'block', 'b': [s['var'], s['b']]}
        for c in cur: outs += self.loop(s, s['c'], s['inc'], body, c, env, True)
        return outs
    def iter_once(self, cond, inc, body, st, env, first_test=True):
        """one iteration from st: returns (exits, backs, others): exit states (cond false / break), back-edge states, return/throw outcomes"""
        exits, backs, oth = [], [], []
        start = []
        if first_test and cond is not None:
            for o in self.with_forks(st, lambda x: [Out('n', x, self.ev_cond(cond, x, env))]):
                if o.k != 'n': oth.append(o); continue
                for b, taken in self.branch(o.st, o.v):
                    (start if taken else exits).append(b)
        else: start = [st]
        ends = []
        for b in start:
            for o in self.exec(body, b, env):
                if o.k in ('n', 'c'): ends.append((o.st, 0))
                elif o.k == 'b': exits.append(o.st)
                else: oth.append(o)
        ends = [a for a, _ in self.merge(ends)]
        if inc is not None:
            n2 = []
            for e in ends:
                for o in self.with_forks(e, lambda x: (self.ev(inc, x, env), [Out('n', x)])[1]):
                    (n2.append((o.st, 0)) if o.k == 'n' else oth.append(o))
            ends = [a for a, _ in self.merge(n2)]
        if not first_test and cond is not None:
            n2 = []
            for e in ends:
                for o in self.with_forks(e, lambda x: [Out('n', x, self.ev_cond(cond, x, env))]):
                    if o.k != 'n': oth.append(o); continue
                    for b, taken in self.branch(o.st, o.v):
                        (n2 if taken else exits).append((b, 0) if taken else b)
            ends = [a for a, _ in self.merge(n2)]
        return exits, ends, oth
    def loop(self, s, cond, inc, body, st, env, first_test):
        import loops
        return loops.run(self, s, cond, inc, body, st, env, first_test)

    # ---------- expressions
    def ev_cond(self, e, st, env):
        v = self.ev(e, st, env)
        if isinstance(v, Ptr): return z3.BoolVal(v.kind != 'null')
        if z3.is_bool(v): return v
        return simp(v != 0)
    def ev(self, e, st, env):
        """rvalue of scalar / pointer / iterator; Loc for class types"""
        k = e['k']
        if self.is_class_expr(e): return self.ev_class(e, st, env, None)
        if e.get('lv') and k not in ('cast',) and k != 'fn':
            loc = self.ev_lv(e, st, env)
            return self.load_or_loc(st, loc)
        m = getattr(self, 'e_' + k, None)
        if m is None: raise Unsupported('expression %s %s' % (k, e.get('what', '')))
        return m(e, st, env)
    def load_or_loc(self, st, loc):
        if isinstance(loc, (FnVal, Closure)): return loc
        if self.is_class(loc.ty) and not self.is_iter(loc.ty): return loc
        return self.load(st, loc)
    def is_class_expr(self, e):
        t = e.get('t')
        if t is None or t not in self.p.types: return False
        ty = self.T(t)
        if ty['k'] == 'ref': return False
        return self.is_class(t) and not self.is_iter(t) and e['k'] not in ('lambda',) and not self.rec_lambda(t)
    def rec_lambda(self, t):
        r = self.rec(t); return bool(r) and bool(r.get('lambda'))
    def e_int(self, e, st, env):
        ty = self.T(e['t']); v = int(e['v'])
        if ty['k'] == 'bool': return z3.BoolVal(v != 0)
        return bv(v, ty['w'])
    def e_float(self, e, st, env):
        import struct
        w = self.T(e['t'])['w']
        if 'v' not in e or w not in (32, 64): return z3.BitVec(fresh_name('flt'), w)
        return bv(int.from_bytes(struct.pack('<f' if w == 32 else '<d', float(e['v'])), 'little'), w)
    def e_null(self, e, st, env): return Ptr('null')
    def e_zero(self, e, st, env):
        ty = self.T(e['t'])
        if ty['k'] == 'bool': return z3.BoolVal(False)
        if ty['k'] == 'ptr': return Ptr('null')
        return bv(0, ty['w'])
    def e_this(self, e, st, env): 
        l = env_this(env)
        return Ptr('obj', l, None, l.ty)
    def e_fn(self, e, st, env): return FnVal(e['f'])
    def e_lambda(self, e, st, env):
        caps = {}
        for c in e['caps']:
            if c.get('this'): continue
            if c['ref']: caps[c['var']] = env.get(c['var'])
            else:
                t = self.temp('cap', c['t']) if self.T(c['t'])['k'] != 'ref' else None
                if t is None: caps[c['var']] = env.get(c['var'])
                else: self.init(t, c['init'], st, env); caps[c['var']] = t
        cl = Env(env_this_opt(env), None, env_fn_opt(env)); cl.vars = caps
        return Closure(e['f'], cl, env_this_opt(env))
    def e_mat(self, e, st, env): return self.ev(e['e'], st, env)
    def e_cond(self, e, st, env):
        c = self.ev_cond(e['c'], st, env)
        return self.choose(st, c, lambda s: self.ev(e['a'], s, env), lambda s: self.ev(e['b'], s, env))
    def choose(self, st, c, fa, fb):
        outs = []
        for b, taken in self.branch(st.clone(), c):
            try: outs.append((b, (fa if taken else fb)(b)))
            except Dead: pass
        return self.settle(st, outs)
    def settle(self, st, outs):
        """make st continue as the merge of outs; returns the value; may fork"""
        if not outs: raise Dead()
        m = self.merge(outs)
        if len(m) == 1: s, v = m[0]
        else: s, v = m[self.fork(len(m))]
        st.become(s)
        return v
    def e_init(self, e, st, env):
        if not e['a']: return self.e_zero(e, st, env)
        return self.ev(e['a'][0], st, env)
    def e_un(self, e, st, env):
        op = e['op']; x = e['e']
        if op == '&':
            if x['k'] == 'fn': return FnVal(x['f'])
            l = self.ev_lv(x, st, env)
            return self.addr(l)
        if op in ('++', '--'):
            l = self.ev_lv(x, st, env); old = self.load(st, l)
            new = self.ptr_add(old, bv(1 if op == '++' else -1)) if isinstance(old, Ptr) else (old + 1 if op == '++' else old - 1)
            new = simp(new) if z3.is_expr(new) else new
            self.store(st, l, new)
            return old if e['post'] else new
        v = self.ev(x, st, env)
        if op == '!':
            if isinstance(v, Ptr): return z3.BoolVal(v.kind == 'null')
            return not_(simp(v)) if z3.is_bool(v) else simp(v == 0)
        if op == '-': return simp(-v)
        if op == '~': return simp(~v)
        if op == '+': return v
        raise Unsupported('unary ' + op)
    def addr(self, l):
        if isinstance(l, (FnVal, Closure)): return l
        if isinstance(l, BLoc): return Ptr('byte', l.base, l.off, l.ty)
        if l.path and l.path[-1] == '[]' and not l.sl:
            return Ptr('elem', Loc(l.root, l.path[:-1], l.idxs[:-1], self.owner_type(l)), l.idxs[-1], l.ty)
        return Ptr('obj', l, None, l.ty)
    def owner_type(self, l):
        """type of the container of an element location"""
        if getattr(l, 'sl', None): raise Unsupported('owner')
        return self._owner[(l.root, l.path[:-1])]
    _owner = None
    def elem(self, cont, i):
        e = self.container_elem(cont.ty)
        if isinstance(cont, BLoc): return BLoc(cont.base, add(cont.off, simp(i * self.p.sizeof(e))), e)
        if self._owner is None: self._owner = {}
        self._owner[(cont.root, cont.path)] = cont.ty
        return Loc(cont.root, cont.path + ('[]',), list(cont.idxs) + [i], e)
    def fld(self, st, base, name):
        ft, off, f = self.field(base.ty, name)
        if isinstance(base, BLoc):
            if f.get('bf'):
                tot = self.p.sizeof(base.ty) * 8
                return BLoc(base.base, base.off, ft, (off, f['bw'], tot))
            return BLoc(base.base, add(base.off, bv(off // 8)), ft)
        fty = self.T(ft)
        if base.sl:
            return Loc(base.root, base.path, base.idxs, ft, (base.sl[0] + off, f['bw'] if f.get('bf') else self.p.sizeof(ft) * 8, base.sl[2]))
        if self.has_raw_layout(base.ty):
            tot = self.rec(base.ty)['size'] * 8
            return Loc(base.root, base.path, base.idxs, ft, (off, f['bw'] if f.get('bf') else self.p.sizeof(ft) * 8, tot))
        if fty['k'] == 'ref':
            r = st.refs.get((base.root, base.path + (name,)))
            if r is None: raise Unsupported('reference field %s' % name)
            return r
        return Loc(base.root, base.path + (name,), base.idxs, ft)
    def ptr_add(self, p, n):
        if p.kind == 'elem': return Ptr('elem', p.loc, simp(p.idx + n), p.ety)
        if p.kind == 'byte': return Ptr('byte', p.loc, simp(p.idx + n * self.p.sizeof(p.ety)), p.ety)
        if p.kind == 'map': raise Unsupported('map iterator arithmetic')
        if p.kind == 'obj' and isnum(simp(n)) and simp(n).as_long() == 0: return p
        if p.kind == 'obj': return Ptr('byte', p.loc, simp(n * self.p.sizeof(p.ety)), p.ety)
        raise Unsupported('arithmetic on %s pointer' % p.kind)
    def deref(self, st, p):
        if p.kind == 'null':
            self.check(st, z3.BoolVal(False), 'null dereference', 'bounds'); raise Dead()
        if p.kind == 'obj': return p.loc
        if p.kind == 'elem':
            n = self.cap(st, p.loc) if self.is_string(p.loc.ty) else self.clen(st, p.loc)
            self.check(st, z3.ULT(p.idx, n), 'dereference inside the container', 'bounds')
            return self.elem_at(st, p.loc, p.idx)
        if p.kind == 'byte': return BLoc(p.loc, p.idx, p.ety)
        raise Unsupported('deref ' + p.kind)
    def elem_at(self, st, cont, i):
        """element location; for strings index == size() is the terminating zero"""
        if not isinstance(cont, BLoc) and self.is_string(cont.ty):
            # writes at size() are not distinguished; reads give zero
            srt = z3.ArraySort(z3.BitVecSort(64), self.sort(self.container_elem(cont.ty)))
            ln = self.clen(st, cont)
            c = simp(z3.ULT(i, ln))
            if not z3.is_true(c):
                a = self.rdleaf(st, cont, ('[]',), srt)
                ic = simp(sel(a, ln) == 0)
                if not z3.is_true(ic):
                    if self.entails_quick(st, c): pass
                    else: self.wrleaf(st, cont, ('[]',), srt, z3.Store(a, ln, bv(0, srt.range().size())))
        return self.elem(cont, i)
    def entails_quick(self, st, c):
        s = z3.SolverFor('QF_AUFBV'); s.set('timeout', 300)
        for h in st.pc:
            if not isF(h): s.add(h)
        s.add(not_(c))
        return s.check() == z3.unsat
    # lvalues
    def ev_lv(self, e, st, env):
        k = e['k']
        if not e.get('lv'):
            # materialise a prvalue
            t = e.get('t')
            if k == 'lambda' or k == 'fn': return self.ev(e, st, env)
            loc = self.temp('tmp', t)
            if self.is_class(t) and not self.is_iter(t):
                if self.rec_lambda(t): return self.ev(e, st, env)
                v = self.ev_class(e, st, env, loc)
                return v
            self.store(st, loc, self.ev(e, st, env))
            return loc
        if k == 'var': 
            v = env.get(e['id'])
            return v
        if k == 'glob': return self.glob(e, st, env)
        if k == 'mat': 
            x = e['e']
            if x.get('lv'): return self.ev_lv(x, st, env)
            return self.ev_lv(x, st, env)
        if k == 'mem':
            if e['arrow']:
                p = self.ev(e['e'], st, env); base = self.deref(st, p)
            else:
                base = self.ev_lv(e['e'], st, env)
            if isinstance(base, Loc) and self.T(e['own'])['k'] == 'rec' and self.rec(e['own']).get('tmpl') == 'std::pair':
                r = self.rec(base.ty); i = 0 if e['f'] == 'first' else 1
                if self.T(r['targs'][i])['k'] == 'ref': return st.refs[(base.root, base.path + (e['f'],))]
                return Loc(base.root, base.path + (e['f'],), base.idxs, r['targs'][i])
            return self.fld(st, base, e['f'])
        if k == 'un':
            if e['op'] == '*':
                p = self.ev(e['e'], st, env)
                if isinstance(p, (FnVal, Closure)): return p
                return self.deref(st, p)
            if e['op'] in ('++', '--'):
                l = self.ev_lv(e['e'], st, env); old = self.load(st, l)
                new = self.ptr_add(old, bv(1 if e['op'] == '++' else -1)) if isinstance(old, Ptr) else simp(old + 1 if e['op'] == '++' else old - 1)
                self.store(st, l, new); return l
        if k == 'sub':
            i = self.ev(e['i'], st, env); i = self.to64(i, e['i']['t'])
            p = self.ev(e['b'], st, env)
            if isinstance(p, Ptr): return self.deref(st, self.ptr_add(p, i))
            raise Unsupported('subscript')
        if k == 'bin':
            if e['op'] == ',': self.ev(e['a'], st, env); return self.ev_lv(e['b'], st, env)
            return self.assign(e, st, env)
        if k == 'cond':
            c = self.ev_cond(e['c'], st, env)
            return self.choose(st, c, lambda s: self.ev_lv(e['a'], s, env), lambda s: self.ev_lv(e['b'], s, env))
        if k == 'cast':
            ck = e['ck']
            if ck in ('NoOp', 'LValueBitCast') or ck in ('DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived'):
                l = self.ev_lv(e['e'], st, env)
                if ck == 'LValueBitCast': return self.deref(st, self.recast(self.addr(l), e['t']))
                return l
            if ck == 'LValueToRValue': return self.ev_lv(e['e'], st, env)
            if ck == 'Dynamic': return self.ev_lv(e['e'], st, env)
        if k in ('call', 'mcall', 'pmfcall'):
            v = self.ev_call(e, st, env)
            if isinstance(v, (Loc, BLoc, FnVal, Closure)): return v
            raise Unsupported('call does not yield an lvalue: %s -> %r' % (e.get('f', {}).get('qn'), v))
        if k == 'str':
            return self.strlit(e, st)
        if k == 'fn': return FnVal(e['f'])
        if k == 'ctor' or k == 'init': return self.ev_class(e, st, env, None)
        raise Unsupported('lvalue %s' % k)
    def strlit(self, e, st):
        w = e['cw'] * 8
        root = 'lit.' + '_'.join(map(str, e['v'])) + '.%d' % w
        t = e['t']
        key = (root, ('[]',))
        if key not in st.mem:
            a = z3.K(z3.BitVecSort(64), bv(0, w))
            for i, c in enumerate(e['v']): a = z3.Store(a, bv(i), bv(c, w))
            st.mem[key] = a
        return Loc(root, (), [], t)
    def glob(self, e, st, env):
        g = self.p.globals.get(e['n'])
        if g is None: raise Unsupported('global ' + e['n'])
        loc = Loc('glob.' + e['n'], (), [], g['t'])
        if g.get('const') and 'init' in g and (loc.root, ('#init',)) not in st.mem:
            st.mem[(loc.root, ('#init',))] = bv(1)
            self.init(loc, g['init'], st, env)
        return loc
    def to64(self, v, t):
        ty = self.T(t)
        if z3.is_bool(v): return ite(v, bv(1), bv(0))
        if v.size() == 64: return v
        return simp((sext if ty['s'] else zext)(v, 64))
    # casts
    def e_cast(self, e, st, env):
        ck = e['ck']; x = e['e']; t = e['t']
        if ck == 'LValueToRValue':
            l = self.ev_lv(x, st, env)
            return self.load_or_loc(st, l)
        if ck in ('NoOp', 'UserDefinedConversion', 'ConstructorConversion'):
            if e.get('lv'): return self.load_or_loc(st, self.ev_lv(x, st, env))
            return self.ev(x, st, env)
        if ck in ('DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived'):
            if e.get('lv'): return self.load_or_loc(st, self.ev_lv(x, st, env))
            return self.ev(x, st, env)
        if ck == 'ArrayToPointerDecay':
            l = self.ev_lv(x, st, env)
            if isinstance(l, BLoc): return Ptr('byte', l.base, l.off, self.T(l.ty)['of'])
            return Ptr('elem', l, bv(0), self.T(l.ty)['of'])
        if ck == 'FunctionToPointerDecay': return self.ev_lv(x, st, env)
        if ck == 'NullToPointer': return Ptr('null')
        if ck == 'ToVoid':
            self.ev(x, st, env) if not x.get('lv') else self.ev_lv(x, st, env); return None
        if ck == 'BitCast':
            p = self.ev(x, st, env)
            return self.recast(p, self.T(t)['to'])
        if ck == 'IntegralToPointer' or ck == 'PointerToIntegral': raise Unsupported(ck)
        v = self.ev(x, st, env)
        if ck == 'PointerToBoolean': return z3.BoolVal(v.kind != 'null')
        return self.conv(v, x['t'], t, ck)
    def conv(self, v, ft, tt, ck='IntegralCast'):
        a, b = self.T(self.strip(ft)), self.T(self.strip(tt))
        if b['k'] == 'bool':
            return v if z3.is_bool(v) else simp(v != 0)
        if b['k'] == 'float' or a['k'] == 'float':
            if a['k'] == 'float' and b['k'] == 'float' and a['w'] == b['w']: return v
            if not z3.is_bv(v): v = ite(v, bv(1, 32), bv(0, 32))
            if a['k'] == 'float' and a['w'] == 64 and b['k'] in ('int', 'enum') and not b.get('s'):
                # exact for nonnegative values below 2^width (truncation); anything else stays unspecified
                e = simp(z3.LShR(v, bv(52))); m = zext((v & bv((1 << 52) - 1)) | bv(1 << 52), 128)
                t = ite(z3.ULT(e, bv(1023)), bv(0, 128), z3.LShR(m << zext(e - 1023, 128), bv(52, 128)))
                f = z3.Function('conv_float_%s_64_%d' % (b['k'], b['w']), v.sort(), z3.BitVecSort(b['w']))
                return simp(ite(z3.ULT(e, bv(1023 + b['w'])), ext(b['w'] - 1, 0, t), f(v)))
            f = z3.Function('conv_%s_%s_%d_%d' % (a['k'], b['k'], v.size(), b['w']), v.sort(), z3.BitVecSort(b['w']))
            return f(v)
        w = b['w']
        if z3.is_bool(v): return ite(v, bv(1, w), bv(0, w))
        if v.size() == w: return v
        if v.size() > w: return simp(ext(w - 1, 0, v))
        return simp((sext if a.get('s') else zext)(v, w))
    def recast(self, p, ety):
        if p.kind == 'null' or isinstance(p, (FnVal,)): return p
        if ety == p.ety: return p
        if ety == 'void': return p
        if p.kind == 'elem':
            es = self.p.sizeof(p.ety)
            try: ts = self.p.sizeof(ety)
            except Exception: ts = None
            if ts == 1 and es == 1 and self.container_elem(p.loc.ty) == p.ety and self.T(ety)['k'] == 'int': return Ptr('elem', p.loc, p.idx, p.ety)
            if self.T(p.ety)['k'] == 'rec':
                # view an element record as bytes
                return Ptr('byte', self.elem(p.loc, p.idx), bv(0), ety)
            return Ptr('byte', p.loc, simp(p.idx * es), ety)
        if p.kind == 'obj': return Ptr('byte', p.loc, bv(0), ety)
        if p.kind == 'byte':
            e = self.container_elem(p.loc.ty) if isinstance(p.loc, Loc) else None
            if e is not None and e == ety and self.p.sizeof(e) == 1: return Ptr('elem', p.loc, p.idx, e)
            return Ptr('byte', p.loc, p.idx, ety)
        raise Unsupported('cast of %s' % p.kind)
    # binary
    def e_bin(self, e, st, env):
        op = e['op']
        if op == ',':
            self.ev(e['a'], st, env); return self.ev(e['b'], st, env)
        if op.endswith('=') and op not in ('==', '!=', '<=', '>='):
            l = self.assign(e, st, env); return self.load_or_loc(st, l)
        if op in ('&&', '||'):
            a = self.ev_cond(e['a'], st, env)
            if op == '&&': return self.choose_bool(st, a, lambda s: self.ev_cond(e['b'], s, env), None)
            return self.choose_bool(st, a, None, lambda s: self.ev_cond(e['b'], s, env))
        a = self.ev(e['a'], st, env); b = self.ev(e['b'], st, env)
        return self.binop(op, a, b, e['a']['t'], e['b']['t'], e['t'], st)
    def choose_bool(self, st, a, fa, fb):
        """short-circuit; pure right operands do not fork the state"""
        a = simp(b2(a)); isand = fa is not None
        if z3.is_true(a): return fa(st) if isand else z3.BoolVal(True)
        if z3.is_false(a): return z3.BoolVal(False) if isand else fb(st)
        s2 = st.clone(); s2.pc.append(a if isand else not_(a))
        n0 = len(s2.pc)
        if not self.feasible(s2): return z3.BoolVal(not isand)
        mem0, refs0 = s2.mem, s2.refs
        try: v = (fa or fb)(s2)
        except Dead:
            st.pc.append(not_(a) if isand else a); return z3.BoolVal(not isand)
        for h in s2.pc[n0:]: st.pc.append(imp(a if isand else not_(a), h))
        if any(st.mem.get(k) is not t and not (k in st.mem and st.mem[k].eq(t)) for k, t in s2.mem.items()) :
            # side effects: merge values
            c = a if isand else not_(a)
            for k, t in s2.mem.items():
                o = st.mem.get(k)
                if o is None: o = self.leaf_const(k[0], k[1], t.sort())
                st.mem[k] = ite(c, t, o)
            for k, r in s2.refs.items():
                if k not in st.refs: st.refs[k] = r
                elif st.refs[k] is not r:
                    ok, m = self.mergeval(c, r, st.refs[k])
                    if not ok: raise Unsupported('pointer side effect in short-circuit')
                    st.refs[k] = m
        v = b2(v)
        return simp(and_(a, v)) if isand else simp(or_(a, v))
    def ptr_cmp_val(self, p):
        return p
    def binop(self, op, a, b, ta, tb, tr, st):
        if isinstance(a, Ptr) or isinstance(b, Ptr): return self.ptr_bin(op, a, b, ta, tb, st)
        ta = self.strip(ta); ty = self.T(ta); sg = ty.get('s', False)
        if ty['k'] == 'float' or self.T(self.strip(tb))['k'] == 'float':
            rt = self.T(tr)
            f = z3.Function('fp_%s_%d' % (op, a.size()), a.sort(), b.sort(), z3.BoolSort() if rt['k'] == 'bool' else z3.BitVecSort(rt['w']))
            return f(a, b)
        if z3.is_bool(a) and z3.is_bool(b):
            if op == '==': return simp(a == b)
            if op == '!=': return simp(a != b)
            if op == '|': return or_(a, b)
            if op == '&': return and_(a, b)
        if z3.is_bool(a): a = ite(a, bv(1, 32), bv(0, 32))
        if z3.is_bool(b): b = ite(b, bv(1, 32), bv(0, 32))
        if op in ('<<', '>>'):
            tw = a.size()
            if b.size() < tw: b = zext(b, tw)
            elif b.size() > tw: b = ext(tw - 1, 0, b)
            return simp(a << b if op == '<<' else (a >> b if sg else z3.LShR(a, b)))
        if op == '+': return add(a, b)
        if op == '-': return simp(a - b)
        if op == '*': return simp(a * b)
        if op in ('/', '%'):
            self.check(st, b != 0, 'division by zero', 'div')
            if op == '/': return simp(a / b if sg else z3.UDiv(a, b))
            return simp(z3.SRem(a, b) if sg else z3.URem(a, b))
        if op == '&': return simp(a & b)
        if op == '|': return simp(a | b)
        if op == '^': return simp(a ^ b)
        if op == '==': return simp(a == b)
        if op == '!=': return simp(a != b)
        if op == '<': return simp(a < b if sg else z3.ULT(a, b))
        if op == '<=': return simp(a <= b if sg else z3.ULE(a, b))
        if op == '>': return simp(a > b if sg else z3.UGT(a, b))
        if op == '>=': return simp(a >= b if sg else z3.UGE(a, b))
        raise Unsupported('binary ' + op)
    def ptr_bin(self, op, a, b, ta, tb, st):
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if op in ('==', '!='):
                if (a.kind == 'null') != (b.kind == 'null'): r = z3.BoolVal(False)
                elif a.kind == 'null': r = z3.BoolVal(True)
                elif a.kind == 'map' or b.kind == 'map': r = self.std.map_iter_eq(a, b)
                else:
                    la, ia = self.norm_ptr(a); lb, ib = self.norm_ptr(b)
                    if la.root == lb.root and la.path == lb.path:
                        r = and_(*([x == y for x, y in zip(la.idxs, lb.idxs)] + ([ia == ib] if ia is not None else [])))
                    else: r = z3.BoolVal(False)
                r = simp(r)
                return r if op == '==' else not_(r)
            la, ia = self.norm_ptr(a); lb, ib = self.norm_ptr(b)
            if not (la.root == lb.root and la.path == lb.path): raise Unsupported('pointers to different objects')
            if ia is None: ia = bv(0)
            if ib is None: ib = bv(0)
            if op == '-':
                d = simp(ia - ib)
                if a.kind == 'byte' and self.p.sizeof(a.ety) != 1: d = simp(d / self.p.sizeof(a.ety))
                return d
            return simp({'<': z3.ULT, '<=': z3.ULE, '>': z3.UGT, '>=': z3.UGE}[op](ia, ib))
        if isinstance(a, Ptr): 
            n = self.to64(b, tb)
            return self.ptr_add(a, n if op == '+' else simp(-n))
        return self.ptr_add(b, self.to64(a, ta))
    def norm_ptr(self, p):
        if p.kind == 'obj':
            l = p.loc
            if l.path and l.path[-1] == '[]': return Loc(l.root, l.path[:-1], l.idxs[:-1], None), l.idxs[-1]
            return l, None
        if p.kind == 'byte' and isinstance(p.loc, Loc) and p.loc.path and p.loc.path[-1] == '[]' and self.T(p.loc.ty)['k'] == 'rec': raise Unsupported('byte pointer compare')
        return p.loc, p.idx
    def assign(self, e, st, env):
        op = e['op']
        if op == '=':
            if self.is_class(e['t']) and not self.is_iter(e['t']):
                r = self.ev_class(e['b'], st, env, None); l = self.ev_lv(e['a'], st, env); self.copy(st, l, r); return l
            v = self.ev(e['b'], st, env); l = self.ev_lv(e['a'], st, env)
            self.store(st, l, v); return l
        b = self.ev(e['b'], st, env); l = self.ev_lv(e['a'], st, env); a = self.load(st, l)
        o = op[:-1]
        if isinstance(a, Ptr): v = self.ptr_add(a, self.to64(b, e['b']['t']) if o == '+' else simp(-self.to64(b, e['b']['t'])))
        else:
            clt = e['clt']; a2 = self.conv(a, e['a']['t'], clt)
            v = self.binop(o, a2, b, clt, e['b']['t'], e['ct'], st)
            v = self.conv(v, e['ct'], e['a']['t'])
        self.store(st, l, v); return l
    def e_new(self, e, st, env):
        if 'n' in e:
            n = self.to64(self.ev(e['n'], st, env), e['n']['t'])
            t = '#heap ' + e['at']; self.p.types.setdefault(t, {'k': 'heap'})
            loc = self.temp('heap', t); self.wrleaf(st, loc, ('.len',), z3.BitVecSort(64), n)
            return Ptr('elem', loc, bv(0), e['at'])
        loc = self.temp('heapobj', e['at'])
        if e.get('init') is not None: self.init(loc, e['init'], st, env)
        return Ptr('obj', loc, None, e['at'])
    def e_delete(self, e, st, env): self.ev(e['e'], st, env); return None
    def e_throw(self, e, st, env):
        if e['e'] is None:
            exc = st.exc
            if exc is None: raise Unsupported('rethrow without exception')
        else:
            loc = self.ev_class(e['e'], st, env, None) if self.is_class(e['e']['t']) else None
            exc = {'cls': self.T(e['e']['t']).get('name', e['e']['t']), 'loc': loc, 'where': e.get('loc')}
        self.raise_(st, exc); raise Dead()
    def raise_(self, st, exc):
        self.thr[-1].append(Out('t', st.clone(), exc))
    def throw_if(self, st, c, cls):
        """std contract: throws cls when c"""
        c = simp(b2(c))
        if z3.is_false(c): return
        s2 = st.clone()
        if not z3.is_true(c): s2.pc.append(c)
        if self.feasible(s2): self.raise_(s2, {'cls': cls, 'loc': None, 'where': self.cur_loc})
        if z3.is_true(c): raise Dead()
        st.pc.append(not_(c))

    # class-valued expressions
    def ev_class(self, e, st, env, target):
        """evaluate a class prvalue/lvalue; constructs in target when given and possible; returns a Loc"""
        k = e['k']
        if e.get('lv') and k not in ('mat',):
            return self.ev_lv(e, st, env)
        if k in ('mat',): return self.ev_class(e['e'], st, env, target)
        if k == 'cast':
            return self.ev_class(e['e'], st, env, target) if not e['e'].get('lv') else self.ev_lv(e['e'], st, env)
        if k == 'ctor':
            t = target or self.temp('tmp', e['t'])
            self.construct(t, e, st, env); return t
        if k in ('init',):
            t = target or self.temp('tmp', e['t']); self.ev_initlist(t, e, st, env); return t
        if k == 'zero':
            t = target or self.temp('tmp', e['t']); self.zero(st, t); return t
        if k in ('call', 'mcall', 'pmfcall'):
            v = self.ev_call(e, st, env)
            if isinstance(v, Ptr): raise Unsupported('class call value')
            if target is not None: 
                if v is None: raise Unsupported('void class value')
                self.copy(st, target, v); return target
            return v
        if k == 'cond':
            c = self.ev_cond(e['c'], st, env)
            t = target or self.temp('tmp', e['t'])
            def f(x):
                def g(s):
                    v = self.ev_class(x, s, env, t)
                    if v is not t: self.copy(s, t, v)
                    return t
                return g
            return self.choose(st, c, f(e['a']), f(e['b']))
        if k == 'bin' and e['op'] == ',':
            self.ev(e['a'], st, env); return self.ev_class(e['b'], st, env, target)
        raise Unsupported('class expression ' + k)
    def construct(self, loc, e, st, env):
        f = e['f']; args = e['args']
        if 'key' not in f: return self.std.ctor(loc, e, st, env)
        if f.get('cc') in ('copy', 'move') and (f.get('triv') or f['key'] not in self.p.funcs):
            src = self.ev_lv(args[0], st, env); self.copy(st, loc, src); return
        if f.get('cc') == 'default' and f['key'] not in self.p.funcs:
            if e.get('zero'): self.zero(st, loc)
            return
        if self.p.funcs.get(f['key'], {}).get('defaulted') and f.get('cc') in ('copy', 'move'):
            src = self.ev_lv(args[0], st, env); self.copy(st, loc, src); return
        if e.get('zero'): self.zero(st, loc)
        self.call(f, loc, [(a, None) for a in args], st, env)
    # calls
    def e_call(self, e, st, env): return self.ev_call(e, st, env, True)
    def e_mcall(self, e, st, env): return self.ev_call(e, st, env, True)
    def e_ctor(self, e, st, env):
        if self.is_iter(e['t']): return self.std.iter_ctor(e, st, env)
        t = self.temp('tmp', e['t']); self.construct(t, e, st, env)
        return self.load_or_loc(st, t)
    def e_pmf(self, e, st, env): return FnVal(e['f'])
    def ev_call(self, e, st, env, rv=False):
        """value of a call: Loc for references and classes"""
        if 'loc' in e: self.cur_loc = e['loc']
        if e['k'] == 'mcall':
            f = e['f']
            if 'key' not in f: r = self.std.mcall(e, st, env)
            else:
                if e.get('arrow'): obj = self.deref(st, self.ev(e['obj'], st, env))
                else: obj = self.ev_lv(e['obj'], st, env)
                r = self.call(f, obj, [(a, None) for a in e['args']], st, env, e.get('qual'))
        elif e['k'] == 'pmfcall': raise Unsupported('pointer-to-member call')
        elif 'f' in e:
            f = e['f']
            if 'key' not in f: r = self.std.call(e, st, env)
            elif e.get('mop'):
                o = e['args'][0]
                obj = self.ev_lv(o, st, env)
                if isinstance(obj, Closure): r = self.call_closure(obj, e['args'][1:], st, env)
                else:
                    if f.get('asg') and (f.get('triv') or self.p.funcs.get(f['key'], {}).get('defaulted') or f['key'] not in self.p.funcs):
                        src = self.ev_lv(e['args'][1], st, env); self.copy(st, obj, src); r = obj
                    else: r = self.call(f, obj, [(a, None) for a in e['args'][1:]], st, env)
            else: r = self.call(f, None, [(a, None) for a in e['args']], st, env)
        else:
            c = self.ev(e['callee'], st, env)
            if isinstance(c, FnVal): r = self.call(c.f, None, [(a, None) for a in e['args']], st, env)
            elif isinstance(c, Closure): r = self.call_closure(c, e['args'], st, env)
            else: raise Unsupported('indirect call')
        if rv and isinstance(r, (Loc, BLoc)) and e.get('lv'): return self.load_or_loc(st, r)
        return r
    def bind_args(self, fn, args, st, env, tgt):
        for p, (a, v) in zip(fn['params'], args):
            ty = self.T(p['t'])
            if a is None: # already evaluated: Loc for ref/class, value otherwise
                if ty['k'] == 'ref': tgt.vars[p['id']] = v
                elif self.is_class(p['t']) and not self.is_iter(p['t']) and not isinstance(v, Closure):
                    l = self.temp(p['n'] or 'arg', p['t']); self.copy(st, l, v); tgt.vars[p['id']] = l
                elif isinstance(v, (Closure, FnVal)): tgt.vars[p['id']] = v
                else:
                    l = self.temp(p['n'] or 'arg', p['t']); self.store(st, l, v); tgt.vars[p['id']] = l
                continue
            if ty['k'] == 'ref': tgt.vars[p['id']] = self.ev_lv(a, st, env)
            else:
                if self.rec_lambda(p['t']): tgt.vars[p['id']] = self.ev(a, st, env); continue
                l = self.temp(p['n'] or 'arg', p['t'])
                if self.is_class(p['t']) and not self.is_iter(p['t']):
                    v = self.ev_class(a, st, env, l)
                    if v is not l: self.copy(st, l, v)
                else: self.store(st, l, self.ev(a, st, env))
                tgt.vars[p['id']] = l
    def resolve(self, f, obj, qual):
        key = f['key']
        if f.get('virt') and not qual and obj is not None:
            cls = obj.ty
            if cls == 'pe_bliss::pe_properties': cls = self.props_cls()
            for k in self.all_over(key):
                if self.p.funcs[k].get('cls') == cls and not self.p.funcs[k].get('pure'): return k
        return key
    def all_over(self, key):
        res = [key]; st = [key]
        while st:
            for o in self.p.overriders.get(st.pop(), []):
                if o not in res: res.append(o); st.append(o)
        return res
    def call(self, f, obj, args, st, env, qual=False):
        key = self.resolve(f, obj, qual)
        fn = self.p.funcs.get(key)
        if fn is None or fn.get('pure'):
            if f.get('cc') == 'default': return None
            raise Unsupported('no body for ' + f['qn'])
        e2 = Env(obj, None, fn)
        self.bind_args(fn, args, st, env, e2)
        c = self.contracts.get(key)
        if c is not None and key not in self.no_contract:
            self.used_contracts.add(fn['qn']); self.used_keys.add(key)
            return self.apply_contract(c, fn, obj, e2, st)
        return self.run_body(fn, obj, e2, st)
    def call_closure(self, c, args, st, env):
        fn = self.p.funcs[c.f['key']]
        e2 = Env(c.this, c.env, fn)
        self.bind_args(fn, [(a, None) if isinstance(a, dict) else (None, a) for a in args], st, env, e2)
        return self.run_body(fn, c.this, e2, st)
    def apply_contract(self, c, fn, obj, env, st):
        outs = c.apply(self, fn, obj, env, st)
        return self.finish_call(st, outs)
    def run_body(self, fn, obj, env, st):
        self.depth += 1
        if self.depth > self.maxdepth: self.depth -= 1; raise Unsupported('inline depth (recursion): ' + fn['qn'])
        self.inlined.add(fn['qn'])
        self.curfn.append(fn['qn']); saved_loc = getattr(self, 'cur_loc', '')
        try: outs = self.exec_fn(fn, obj, env, st.clone())
        finally: self.depth -= 1; self.curfn.pop(); self.cur_loc = saved_loc
        return self.finish_call(st, outs)
    def exec_fn(self, fn, obj, env, st):
        """outcomes 'r' (value) and 't'"""
        cur = [st]; outs = []
        if 'inits' in fn:
            def f(x):
                for i in fn['inits']:
                    if 'base' in i:
                        r = self.rec(i['base'])
                        if r.get('std'):
                            continue
                        self.init(Loc(obj.root, obj.path, obj.idxs, i['base']), i['e'], x, env)
                    elif 'f' in i:
                        ft = i['ft']; fty = self.T(ft)
                        if fty['k'] == 'ref': x.refs[(obj.root, obj.path + (i['f'],))] = self.ev_lv(i['e'], x, env)
                        else: self.init_field(obj, i, x, env)
                    elif i.get('deleg'):
                        self.construct(obj, i['e'], x, env)
                    else: raise Unsupported('initialiser')
                return [Out('n', x)]
            cur = []
            for o in self.with_forks(st, f): (cur.append(o.st) if o.k == 'n' else outs.append(o))
        for c in cur:
            for o in self.exec(fn['body'], c, env):
                if o.k == 'n': o.k = 'r'; o.v = None
                outs.append(o)
        return outs
    def init_field(self, obj, i, st, env):
        l = self.fld(st, obj, i['f'])
        if self.T(i['ft'])['k'] == 'ptr' and self.T(i['ft'])['to'] == 'pe_bliss::pe_properties':
            v = self.ev(i['e'], st, env)
            self.set_props(st, l, v); return
        self.init(l, i['e'], st, env)
    def set_props(self, st, l, v):
        dst = Loc(l.root, l.path[:-1] + (l.path[-1] + '*',), l.idxs, self.props_cls())
        if v.kind == 'null': return
        self.copy(st, dst, Loc(v.loc.root, v.loc.path, v.loc.idxs, self.props_cls()))
    def finish_call(self, st, outs):
        rets = []
        for o in outs:
            if o.k == 't': self.thr[-1].append(o)
            elif o.k == 'r': rets.append((o.st, o.v if o.v is not None else z3.BoolVal(True)))
            else: raise Unsupported('stray outcome ' + o.k)
        if not rets: raise Dead()
        v = self.settle(st, rets)
        return v

def env_this(env):
    e = env
    while e is not None:
        if e.this is not None: return e.this
        e = e.parent
    raise Unsupported('this')
def env_this_opt(env):
    try: return env_this(env)
    except Unsupported: return None
def env_fn(env): return env.fn
def env_fn_opt(env): return env.fn

def simp(t):
    if t is True or t is False: return z3.BoolVal(t)
    if z3.is_bv_value(t) or z3.is_const(t): return t
    return z3.simplify(t)
_lam = {}
def has_lam(t):
    i = t.get_id()
    r = _lam.get(i)
    if r is not None: return r[1]
    if z3.is_quantifier(t): v = True
    elif z3.is_app(t) and z3.is_array(t) and t.num_args():
        k = t.decl().kind()
        if k == z3.Z3_OP_STORE: v = has_lam(t.arg(0)) or has_lam(t.arg(2))
        elif k == z3.Z3_OP_ITE: v = has_lam(t.arg(1)) or has_lam(t.arg(2))
        elif k == z3.Z3_OP_SELECT: v = has_lam(t.arg(0))
        elif k == z3.Z3_OP_CONST_ARRAY: v = has_lam(t.arg(0))
        else: v = False
    else: v = False
    _lam[i] = (t, v)
    return v
_selc = {}
def sel(a, i):
    """select with read-over-write, beta reduction of lambda arrays, pushed through conditionals"""
    key = (a.get_id(), i.get_id())
    r = _selc.get(key)
    if r is not None: return r[2]
    v = _sel(a, i)
    _selc[key] = (a, i, v)
    return v
def _sel(a, i):
    t = a; n = 0
    while True:
        if z3.is_quantifier(t):
            return z3.simplify(z3.substitute_vars(t.body(), i))
        if not z3.is_app(t): break
        k = t.decl().kind()
        if k == z3.Z3_OP_STORE:
            j = t.arg(1)
            if j.eq(i): return t.arg(2)
            if isnum(j) and isnum(i): t = t.arg(0); continue
            d = z3.simplify(j - i)
            if isnum(d):
                if d.as_long() == 0: return t.arg(2)
                t = t.arg(0); continue
            if has_lam(t): return ite(simp(j == i), t.arg(2), sel(t.arg(0), i))
            break
        if k == z3.Z3_OP_CONST_ARRAY: return t.arg(0)
        if k == z3.Z3_OP_ITE:
            if has_lam(t) or t.arg(1).decl().kind() == z3.Z3_OP_STORE or t.arg(2).decl().kind() == z3.Z3_OP_STORE or z3.is_array(t.sort().range()):
                return ite(t.arg(0), sel(t.arg(1), i), sel(t.arg(2), i))
            break
        break
    return z3.Select(t, i)
def lam(fn, hint='j'):
    k = z3.BitVec(fresh_name('l' + hint), 64)
    return z3.Lambda([k], fn(k))
def upd(t, idxs, v):
    if len(idxs) == 1: return z3.Store(t, idxs[0], v)
    return z3.Store(t, idxs[0], upd(sel(t, idxs[0]), idxs[1:], v))
def add(a, b):
    if isnum(b) and b.as_long() == 0: return a
    if isnum(a) and a.as_long() == 0: return b
    return z3.simplify(a + b)
def ext(hi, lo, v):
    if lo == 0 and hi == v.size() - 1: return v
    return z3.simplify(z3.Extract(hi, lo, v))
def zext(v, w): return z3.ZeroExt(w - v.size(), v) if v.size() < w else v
def sext(v, w): return z3.SignExt(w - v.size(), v) if v.size() < w else v
def cat(parts):
    if len(parts) == 1: return parts[0]
    return z3.simplify(z3.Concat(*parts))
def zero_of(s):
    if s == z3.BoolSort(): return z3.BoolVal(False)
    if isinstance(s, z3.ArraySortRef): return z3.K(z3.BitVecSort(64), zero_of(s.range()))
    return bv(0, s.size())

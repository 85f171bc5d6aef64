"""Trusted contracts of the standard library operations the code uses."""
import z3
from fol import *
import core
from core import Loc, BLoc, Ptr, FnVal, Closure, Dead, Unsupported, Out, sel, upd, add, ext, zext, sext, cat, zero_of, simp, lam, State, Env, b2

BV64 = z3.BitVecSort(64)
EOFB, FAILB, BADB = 2, 4, 1

class Std:
    def __init__(self, eng): self.g = eng; self.used = set(); self.settled = {}

    # ---- helpers
    def A(self, st, loc, s, srt): return self.g.rdleaf(st, loc, ('[]',) + s, srt)
    def eleaves(self, cont):
        e = self.g.container_elem(cont.ty)
        return [(s, srt) for s, srt in self.g.leaves(e)]
    def setlen(self, st, cont, n): self.g.wrleaf(st, cont, ('.len',), BV64, n)
    def arr(self, st, cont, s, srt): return self.g.rdleaf(st, cont, ('[]',) + s, z3.ArraySort(BV64, srt))
    def setarr(self, st, cont, s, srt, a): self.g.wrleaf(st, cont, ('[]',) + s, z3.ArraySort(BV64, srt), a)
    def empty(self, st, cont):
        self.setlen(st, cont, bv(0))
        for s, srt in self.eleaves(cont): self.setarr(st, cont, s, srt, zero_of(z3.ArraySort(BV64, srt)))
    def splice(self, old, off, n, fn, inside=None):
        """array equal to old outside [off, off+n), fn(k - off) inside"""
        n = simp(n)
        if isnum(n) and n.as_long() <= 64:
            a = old
            for i in range(n.as_long()): a = z3.Store(a, add(off, bv(i)), fn(bv(i)))
            return a
        def body(k):
            c = simp(z3.And(z3.ULE(off, k), z3.ULT(k - off, n)))
            return core.ite(c, fn(simp(k - off)), sel(old, k))
        return lam(body)
    def copy_range(self, st, dst, doff, src, soff, n):
        """dst[doff..doff+n) = src[soff..soff+n), element-wise (same element type)"""
        for s, srt in self.eleaves(dst):
            sa = self.src_arr(st, src, s, srt)
            da = self.arr(st, dst, s, srt)
            self.setarr(st, dst, s, srt, self.splice(da, doff, n, lambda k: sa(simp(soff + k))))
    def src_arr(self, st, src, s, srt):
        """reader of elements; byte views and objects are read as bytes"""
        g = self.g
        if isinstance(src, Loc) and g.container_elem(src.ty) is not None:
            e = g.container_elem(src.ty)
            if g.sort(e) == srt or s:
                a = self.arr(st, src, s, srt)
                if g.is_string(src.ty):
                    ln = g.clen(st, src)
                    return lambda k: core.ite(simp(k == ln), bv(0, srt.size()), sel(a, k)) if False else sel(a, k)
                return lambda k: sel(a, k)
        # bytes of an object
        by = g.obj_bytes(st, src) if not isinstance(src, BLoc) else None
        if by is None: raise Unsupported('byte source')
        def f(k):
            k = simp(k)
            if isnum(k): return by[k.as_long()] if k.as_long() < len(by) else bv(0, 8)
            r = bv(0, 8)
            for i, b in enumerate(by): r = core.ite(simp(k == i), b, r)
            return r
        return f
    def src_of_ptr(self, st, p):
        """(container-or-object Loc, element offset, length available) of a char-like pointer"""
        g = self.g
        if p.kind == 'elem': return p.loc, p.idx, g.cap(st, p.loc)
        if p.kind == 'byte':
            l = p.loc
            if isinstance(l, Loc) and g.container_elem(l.ty) is not None:
                es = g.p.sizeof(g.container_elem(l.ty))
                if es == 1: return l, p.idx, g.cap(st, l)
                ts = g.p.sizeof(p.ety) if p.ety != 'void' else 1
                if ts == es: 
                    return l, simp(z3.UDiv(p.idx, bv(es))), g.cap(st, l)
                raise Unsupported('wide element bytes')
            return l, p.idx, bv(g.p.sizeof(l.ty))
        if p.kind == 'obj': return p.loc, bv(0), bv(g.p.sizeof(p.loc.ty))
        raise Unsupported('pointer source ' + p.kind)
    def trust(self, n): self.g.trusted.add(n)

    def memcpy(self, st, d, s, n):
        g = self.g; n = simp(n)
        if isinstance(d, Ptr) and d.kind == 'null' or s.kind == 'null':
            if not (isnum(n) and n.as_long() == 0): g.check(st, n == 0, 'memcpy with null', 'bounds')
            return
        if isnum(n) and n.as_long() <= 512:
            k = n.as_long()
            if k == 0: return
            ds, ss = self.bytes_ptr(d), self.bytes_ptr(s)
            v = g.read_raw(st, ss.loc, ss.idx, k)
            g.write_raw(st, ds.loc, ds.idx, v)
            return
        ds, ss = self.bytes_ptr(d), self.bytes_ptr(s)
        de, se = (g.container_elem(x.loc.ty) if isinstance(x.loc, Loc) else None for x in (ds, ss))
        if de is None or g.p.sizeof(de) != 1: raise Unsupported('memcpy of symbolic size to object')
        g.obl_bounds(st, ds.idx, n, g.clen(st, ds.loc), 'memcpy destination')
        if se is not None and g.p.sizeof(se) == 1:
            g.obl_bounds(st, ss.idx, n, g.cap(st, ss.loc), 'memcpy source')
            sa = self.arr(st, ss.loc, (), z3.BitVecSort(8)); da = self.arr(st, ds.loc, (), z3.BitVecSort(8))
            self.setarr(st, ds.loc, (), z3.BitVecSort(8), self.splice(da, ds.idx, n, lambda k: sel(sa, simp(ss.idx + k))))
            return
        if se is not None:
            es = g.p.sizeof(se)
            g.obl_bounds(st, ss.idx, n, simp(g.clen(st, ss.loc) * es), 'memcpy source')
            sa = self.arr(st, ss.loc, (), g.sort(se)); da = self.arr(st, ds.loc, (), z3.BitVecSort(8))
            def byte(k):
                o = simp(ss.idx + k); w = sel(sa, simp(z3.UDiv(o, bv(es)))); r = simp(z3.URem(o, bv(es)))
                return simp(z3.Extract(7, 0, z3.LShR(w, ext(w.size() - 1, 0, simp(r * 8)) if w.size() <= 64 else r)))
            self.setarr(st, ds.loc, (), z3.BitVecSort(8), self.splice(da, ds.idx, n, byte))
            return
        raise Unsupported('memcpy of symbolic size from object')
    def bytes_ptr(self, p):
        g = self.g
        if p.kind == 'byte': return p
        if p.kind == 'elem':
            es = g.p.sizeof(p.ety)
            if g.T(p.ety)['k'] == 'rec': return Ptr('byte', g.elem(p.loc, p.idx), bv(0), 'char')
            return Ptr('byte', p.loc, simp(p.idx * es), 'char')
        if p.kind == 'obj': return Ptr('byte', p.loc, bv(0), 'char')
        raise Unsupported('bytes of ' + p.kind)
    def val(self, e, st, env): return self.g.ev(e, st, env)
    def u64(self, e, st, env): return self.g.to64(self.g.ev(e, st, env), e['t'])

    # ---- constructors
    def ctor(self, loc, e, st, env):
        g = self.g; f = e['f']; args = e['args']; q = f['qn']; t = e['t']; r = g.rec(t) or {}
        self.trust(q)
        args = [a for a in args if not g.strip(a.get('t', '')).startswith('std::allocator')]
        tm = r.get('tmpl')
        if tm in ('std::vector', 'std::basic_string'):
            if not args: return self.empty(st, loc)
            if f.get('cc') in ('copy', 'move'):
                src = g.ev_class(args[0], st, env, None); return g.copy(st, loc, src)
            pt = f['pt']
            if tm == 'std::vector':
                if len(args) >= 1 and g.T(g.strip(args[0]['t']))['k'] == 'int':
                    n = self.u64(args[0], st, env); self.setlen(st, loc, n)
                    if len(args) == 1 or args[1].get('k') == 'zero':
                        for s, srt in self.eleaves(loc): self.setarr(st, loc, s, srt, zero_of(z3.ArraySort(BV64, srt)))
                        return
                    raise Unsupported('vector(n, v)')
                p, q2 = g.ev(args[0], st, env), g.ev(args[1], st, env)
                return self.assign_range(st, loc, p, q2)
            # string
            a0 = args[0]; k0 = g.T(g.strip(a0['t']))
            if len(args) >= 1 and k0['k'] == 'ptr' and len(args) >= 2 and g.T(g.strip(args[1]['t']))['k'] == 'int':
                p = g.ev(a0, st, env); n = self.u64(args[1], st, env); return self.str_from(st, loc, p, n)
            if len(args) == 1 and k0['k'] == 'ptr':
                p = g.ev(a0, st, env); n = self.strlen(st, p); return self.str_from(st, loc, p, n)
            if k0['k'] == 'int' and len(args) == 2:
                n = self.u64(a0, st, env); c = g.ev(args[1], st, env); self.setlen(st, loc, n)
                self.setarr(st, loc, (), c.sort(), z3.K(BV64, c)); return
            if len(args) == 2 and g.is_iter(a0['t']): return self.assign_range(st, loc, g.ev(a0, st, env), g.ev(args[1], st, env))
            raise Unsupported('string ctor')
        if tm == 'std::pair':
            if f.get('cc') in ('copy', 'move'):
                return g.copy(st, loc, g.ev_class(args[0], st, env, None))
            if len(args) == 2:
                for i, (n, a) in enumerate(zip(('first', 'second'), args)):
                    ft = r['targs'][i]
                    if g.T(ft)['k'] == 'ref': st.refs[(loc.root, loc.path + (n,))] = g.ev_lv(a, st, env)
                    else: 
                        l = Loc(loc.root, loc.path + (n,), loc.idxs, ft)
                        if g.is_class(ft) and not g.is_iter(ft):
                            v = g.ev_class(a, st, env, None); g.copy(st, l, v)
                        else:
                            v = g.ev(a, st, env)
                            if z3.is_expr(v): v = g.conv(v, g.strip(a['t']), ft)
                            g.store(st, l, v)
                return
            if len(args) == 1:
                src = g.ev_class(args[0], st, env, None)
                sr = g.rec(src.ty)
                for i, n in enumerate(('first', 'second')):
                    ft = r['targs'][i]; l = Loc(loc.root, loc.path + (n,), loc.idxs, ft); sl = Loc(src.root, src.path + (n,), src.idxs, sr['targs'][i])
                    if g.is_class(ft) and not g.is_iter(ft): g.copy(st, l, sl)
                    else:
                        v = g.load(st, sl)
                        if z3.is_expr(v): v = g.conv(v, sr['targs'][i], ft)
                        g.store(st, l, v)
                return
            if not args: return g.zero(st, loc)
        if q.startswith('std::allocator'): return
        if r.get('qn') == 'std::fpos':
            if args:
                v = g.ev(args[0], st, env) if not g.is_class_expr(args[0]) else None
                if v is None:
                    g.copy(st, loc, g.ev_class(args[0], st, env, None)); return
                if isinstance(v, Loc): g.copy(st, loc, v); return
                st.mem[(loc.root, loc.path)] = g.to64(v, args[0]['t'])
            else: st.mem[(loc.root, loc.path)] = bv(0)
            return
        if tm in ('std::map', 'std::multimap', 'std::set'):
            if f.get('cc') in ('copy', 'move'): return g.copy(st, loc, g.ev_class(args[0], st, env, None))
            st.mem[(loc.root, loc.path + ('.len',))] = bv(0); st.mem[(loc.root, loc.path + ('.id',))] = bv(0); return
        if tm == 'std::unique_ptr':
            if args: 
                p = g.ev(args[0], st, env); st.refs[(loc.root, loc.path + ('.p',))] = p
            else: st.refs[(loc.root, loc.path + ('.p',))] = Ptr('null')
            return
        if g.is_stream(t) and r.get('tmpl') == 'std::basic_stringstream':
            g.zero(st, loc); return
        if q in ('std::runtime_error::#ctor', 'std::exception::#ctor'): return
        raise Unsupported('constructor ' + q)
    def str_from(self, st, loc, p, n):
        g = self.g; n = simp(n)
        if p.kind == 'null': g.check(st, n == 0, 'string from null', 'bounds'); return self.empty(st, loc)
        e = g.container_elem(loc.ty); es = g.p.sizeof(e)
        if isinstance(p.loc, BLoc): raise Unsupported('string from byte view')
        if p.kind == 'byte' and g.container_elem(p.loc.ty) is not None and g.p.sizeof(g.container_elem(p.loc.ty)) == 1 and es == 2:
            # wide string from bytes
            nb = simp(n * 2)
            g.check(st, z3.ULT(n, bv(core.SIZE_MAX_BOUND)), 'string length sane', 'bounds')
            g.obl_bounds(st, p.idx, nb, g.cap(st, p.loc), 'string source')
            a = self.arr(st, p.loc, (), z3.BitVecSort(8)); base = p.idx
            self.setlen(st, loc, n)
            self.setarr(st, loc, (), z3.BitVecSort(16), self.splice(z3.K(BV64, bv(0, 16)), bv(0), n, lambda k: cat([sel(a, simp(base + k * 2 + 1)), sel(a, simp(base + k * 2))])))
            return
        src, off, cap = self.src_of_ptr(st, p)
        g.obl_bounds(st, off, n, cap, 'string source')
        self.setlen(st, loc, n)
        f = self.src_arr(st, src, (), g.sort(e))
        z = z3.K(BV64, bv(0, es * 8))
        if isnum(off) and off.as_long() == 0 and isinstance(src, Loc) and g.container_elem(src.ty) is not None:
            self.setarr(st, loc, (), g.sort(e), self.arr(st, src, (), g.sort(e)))
        else: self.setarr(st, loc, (), g.sort(e), self.splice(z, bv(0), n, lambda k: f(simp(off + k))) if isnum(n) else lam(lambda k: f(simp(off + k))))
    def strlen(self, st, p):
        g = self.g
        if p.kind == 'elem' and p.loc.root.startswith('lit.') and isnum(p.idx):
            vals = [int(x) for x in p.loc.root.split('.')[1].split('_') if x != '']
            v = vals[p.idx.as_long():]
            n = v.index(0) if 0 in v else len(v)
            return bv(n)
        src, off, cap = self.src_of_ptr(st, p)
        e = g.container_elem(src.ty) if isinstance(src, Loc) else None
        if e is None: raise Unsupported('strlen of object')
        a = self.arr(st, src, (), g.sort(e)); cp = cap
        w = g.sort(e).size()
        ln = g.clen(st, src)
        rd = lambda k: (core.ite(simp(k == ln), bv(0, w), sel(a, k)) if g.is_string(src.ty) else sel(a, k))
        # obligation: a terminator exists inside the addressable range
        if g.is_string(src.ty):
            g.check(st, z3.ULE(off, ln), 'C string inside the buffer', 'bounds')
        else:
            g.check(st, exists(off, ln, lambda k: sel(a, k) == 0), 'C string terminated inside the buffer', 'bounds')
        n = z3.BitVec(fresh_name('strlen'), 64)
        g.assume(st, and_(z3.ULT(n, bv(core.SIZE_MAX_BOUND)), z3.ULT(off + n, cp), rd(simp(off + n)) == 0))
        if isnum(cp) and cp.as_long() <= 64:
            for j in range(cp.as_long()): st.pc.append(imp(z3.And(z3.ULE(off, bv(j)), z3.ULT(bv(j), simp(off + n))), sel(a, bv(j)) != 0))
        k = z3.BitVec(fresh_name('?sl'), 64)
        st.pc.append(All([k], imp(and_(z3.ULE(off, k), z3.ULT(k, off + n)), sel(a, k) != 0)))
        return n
    def iter_ctor(self, e, st, env):
        a = e['args']
        if not a: return Ptr('null')
        return self.g.ev(a[0], st, env)
    def assign_range(self, st, loc, p, q):
        g = self.g
        n = simp(q.idx - p.idx)
        se = g.container_elem(p.loc.ty); de = g.container_elem(loc.ty)
        if g.T(se)['k'] != 'rec' and g.sort(se) != g.sort(de): raise Unsupported('range of other type')
        self.setlen(st, loc, n)
        for s, srt in self.eleaves(loc):
            a = self.arr(st, p.loc, s, srt)
            self.setarr(st, loc, s, srt, a if isnum(p.idx) and p.idx.as_long() == 0 else lam(lambda k: sel(a, simp(p.idx + k))))

    # ---- member calls
    def mcall(self, e, st, env):
        g = self.g; q = e['f']['qn']; args = e['args']; self.trust(q)
        cls, m = q.rsplit('::', 1)
        if cls in ('std::vector', 'std::basic_string'):
            obj = g.deref(st, g.ev(e['obj'], st, env)) if e.get('arrow') else g.ev_lv(e['obj'], st, env)
            if isinstance(obj, BLoc): raise Unsupported('container in bytes')
            fn = getattr(self, 'c_' + m.replace('operator[]', 'index').replace('operator=', 'assign_op').replace('operator+=', 'append_op'), None)
            if fn is None: raise Unsupported(q)
            return fn(obj, args, st, env, e)
        if cls in ('std::basic_istream', 'std::basic_ios', 'std::basic_ostream', 'std::ios_base', 'std::basic_stringstream', 'std::basic_istringstream'):
            obj = g.deref(st, g.ev(e['obj'], st, env)) if e.get('arrow') else g.ev_lv(e['obj'], st, env)
            fn = getattr(self, 'f_' + m, None)
            if fn is None: raise Unsupported(q)
            if isinstance(obj, Loc): self.settle(st, obj)
            return fn(obj, args, st, env, e)
        if cls == 'std::fpos':
            obj = g.ev_lv(e['obj'], st, env)
            return g.rdleaf(st, obj, (), BV64)
        if cls == '__gnu_cxx::__normal_iterator':
            if m == 'operator->': 
                p = g.ev(e['obj'], st, env); return g.addr(g.deref(st, p))
        if cls == 'std::unique_ptr':
            obj = g.ev_lv(e['obj'], st, env); key = (obj.root, obj.path + ('.p',))
            if m == 'get': return st.refs[key]
            if m == 'release': p = st.refs[key]; st.refs[key] = Ptr('null'); return p
            if m == 'reset': st.refs[key] = g.ev(args[0], st, env) if args else Ptr('null'); return None
            if m == 'operator->': return st.refs[key]
        if cls in ('std::map', 'std::multimap', 'std::set'): return self.map_call(cls, m, e, st, env)
        raise Unsupported('std member ' + q)
    def map_call(self, cls, m, e, st, env):
        g = self.g
        obj = g.ev_lv(e['obj'], st, env); key = (obj.root, obj.path + ('.len',))
        if m == 'empty': return simp(g.rdleaf(st, obj, ('.len',), BV64) == 0)
        if m == 'size': return g.rdleaf(st, obj, ('.len',), BV64)
        if m == 'clear': g.wrleaf(st, obj, ('.len',), BV64, bv(0)); g.wrleaf(st, obj, ('.id',), BV64, bv(0)); return None
        if m == 'insert' and len(e['args']) == 1:
            # the arguments are evaluated (and checked); contents of maps and sets are not modelled
            g.ev_class(e['args'][0], st, env, None) if g.is_class(e['args'][0]['t']) and not g.is_iter(e['args'][0]['t']) else g.ev(e['args'][0], st, env)
            n = g.rdleaf(st, obj, ('.len',), BV64); k = z3.BitVec(core.fresh_name('map_len'), 64); st.pc.append(z3.Or(k == n, k == n + 1)); st.pc.append(z3.ULT(k, bv(1 << 40)))
            g.wrleaf(st, obj, ('.len',), BV64, k); g.wrleaf(st, obj, ('.id',), BV64, z3.BitVec(core.fresh_name('map_id'), 64))
            return g.temp('ins', e['t'])
        raise Unsupported(cls + '::' + m)
    def c_size(self, o, a, st, env, e): return self.len(st, o)
    c_length = c_size
    def len(self, st, o):
        n = self.g.clen(st, o)
        if not isnum(n): 
            c = z3.ULT(n, bv(core.SIZE_MAX_BOUND))
            if z3.is_select(n) or z3.is_const(n):
                if not any((not isF(h)) and h.eq(c) for h in st.pc): st.pc.append(c)
        return n
    def c_empty(self, o, a, st, env, e): return simp(self.len(st, o) == 0)
    def c_begin(self, o, a, st, env, e): return Ptr('elem', o, bv(0), self.g.container_elem(o.ty))
    def c_end(self, o, a, st, env, e): return Ptr('elem', o, self.len(st, o), self.g.container_elem(o.ty))
    c_cbegin, c_cend = c_begin, c_end
    def c_data(self, o, a, st, env, e): self.len(st, o); return Ptr('elem', o, bv(0), self.g.container_elem(o.ty))
    c_c_str = c_data
    def c_index(self, o, a, st, env, e):
        i = self.u64(a[0], st, env); n = self.len(st, o)
        g = self.g
        if g.is_string(o.ty): g.check(st, z3.ULE(i, n), 'string index within size', 'bounds')
        else: g.check(st, z3.ULT(i, n), 'vector index within size', 'bounds')
        return g.elem_at(st, o, i)
    def c_at(self, o, a, st, env, e):
        i = self.u64(a[0], st, env); n = self.len(st, o)
        self.g.throw_if(st, z3.UGE(i, n), 'std::out_of_range'); return self.g.elem(o, i)
    def c_back(self, o, a, st, env, e):
        n = self.len(st, o); self.g.check(st, n != 0, 'back() of non-empty container', 'bounds'); return self.g.elem(o, simp(n - 1))
    def c_front(self, o, a, st, env, e):
        n = self.len(st, o); self.g.check(st, n != 0, 'front() of non-empty container', 'bounds'); return self.g.elem(o, bv(0))
    def c_clear(self, o, a, st, env, e): self.empty(st, o)
    def c_reserve(self, o, a, st, env, e):
        n = self.u64(a[0], st, env) if a else None
        return None
    def c_push_back(self, o, a, st, env, e):
        g = self.g; n = self.len(st, o); el = g.elem(o, n); et = el.ty
        if g.is_class(et) and not g.is_iter(et):
            v = g.ev_class(a[0], st, env, None)
            n = self.len(st, o); el = g.elem(o, n)
            g.copy(st, el, v)
        else:
            v = g.ev(a[0], st, env); g.store(st, el, v)
        self.setlen(st, o, add(n, bv(1)))
    def c_pop_back(self, o, a, st, env, e):
        n = self.len(st, o); self.g.check(st, n != 0, 'pop_back() of non-empty container', 'bounds'); self.setlen(st, o, simp(n - 1))
    def c_resize(self, o, a, st, env, e):
        g = self.g; n = self.u64(a[0], st, env); old = self.len(st, o)
        g.throw_if(st, z3.UGE(n, bv(core.SIZE_MAX_BOUND)), 'std::length_error')
        fill = g.ev(a[1], st, env) if len(a) > 1 and a[1].get('k') != 'zero' and not (g.is_class_expr(a[1])) else None
        for s, srt in self.eleaves(o):
            z = fill if fill is not None else zero_of(srt)
            arr = self.arr(st, o, s, srt)
            if isnum(old) and old.as_long() == 0: na = z3.K(BV64, z)
            else:
                shrink = simp(z3.ULE(n, old))
                if z3.is_true(shrink): na = arr
                else:
                    d = simp(n - old)
                    if isnum(d) and 0 <= d.as_long() <= 64:
                        na = arr
                        for i in range(d.as_long()): na = z3.Store(na, add(old, bv(i)), z)
                    else: na = lam(lambda k: core.ite(simp(z3.ULT(k, old)), sel(arr, k), z))
            self.setarr(st, o, s, srt, na)
        self.setlen(st, o, n)
    def c_assign_op(self, o, a, st, env, e):
        g = self.g
        if g.T(g.strip(a[0]['t']))['k'] == 'ptr':
            p = g.ev(a[0], st, env); t = g.temp('tmps', o.ty); self.str_from(st, t, p, self.strlen(st, p)); g.copy(st, o, t); return o
        src = g.ev_class(a[0], st, env, None); g.copy(st, o, src); return o
    def c_assign(self, o, a, st, env, e):
        g = self.g; t = g.temp('tmps', o.ty)
        k0 = g.T(g.strip(a[0]['t']))['k']
        if k0 == 'ptr' and len(a) == 2: self.str_from(st, t, g.ev(a[0], st, env), self.u64(a[1], st, env))
        elif k0 == 'ptr': p = g.ev(a[0], st, env); self.str_from(st, t, p, self.strlen(st, p))
        elif k0 == 'rec' and g.is_iter(g.strip(a[0]['t'])): self.assign_range(st, t, g.ev(a[0], st, env), g.ev(a[1], st, env))
        elif k0 == 'rec' and len(a) == 1: g.copy(st, t, g.ev_class(a[0], st, env, None))
        elif k0 == 'int':
            n = self.u64(a[0], st, env); c = g.ev(a[1], st, env); self.setlen(st, t, n); self.setarr(st, t, (), c.sort(), z3.K(BV64, c))
        else: raise Unsupported('assign')
        g.copy(st, o, t); return o
    def append_cont(self, st, o, src, soff, n):
        g = self.g; old = self.len(st, o)
        g.throw_if(st, z3.UGE(simp(old + n), bv(core.SIZE_MAX_BOUND)), 'std::length_error')
        f = self.src_arr(st, src, (), g.sort(g.container_elem(o.ty)))
        for s, srt in self.eleaves(o):
            self.setarr(st, o, s, srt, self.splice(self.arr(st, o, s, srt), old, n, lambda k: f(simp(soff + k))))
        self.setlen(st, o, simp(old + n))
    def c_append(self, o, a, st, env, e):
        g = self.g; k0 = g.T(g.strip(a[0]['t']))['k']
        if k0 == 'ptr':
            p = g.ev(a[0], st, env)
            n = self.u64(a[1], st, env) if len(a) > 1 else self.strlen(st, p)
            src, off, cap = self.src_of_ptr(st, p)
            g.obl_bounds(st, off, n, cap, 'append source')
            self.append_cont(st, o, src, off, n); return o
        if k0 == 'int':
            n = self.u64(a[0], st, env); c = g.ev(a[1], st, env); old = self.len(st, o)
            g.throw_if(st, z3.UGE(simp(old + n), bv(core.SIZE_MAX_BOUND)), 'std::length_error')
            self.setarr(st, o, (), c.sort(), self.splice(self.arr(st, o, (), c.sort()), old, n, lambda k: c)); self.setlen(st, o, simp(old + n)); return o
        src = g.ev_class(a[0], st, env, None); self.append_cont(st, o, src, bv(0), self.len(st, src)); return o
    def c_append_op(self, o, a, st, env, e):
        g = self.g
        if g.T(g.strip(a[0]['t']))['k'] == 'int':
            c = g.ev(a[0], st, env); old = self.len(st, o); self.setarr(st, o, (), c.sort(), z3.Store(self.arr(st, o, (), c.sort()), old, c)); self.setlen(st, o, simp(old + 1)); return o
        return self.c_append(o, a, st, env, e)
    def c_substr(self, o, a, st, env, e):
        g = self.g; pos = self.u64(a[0], st, env) if a else bv(0); n = self.len(st, o)
        cnt = self.u64(a[1], st, env) if len(a) > 1 else bv(-1 & (2**64 - 1))
        g.throw_if(st, z3.UGT(pos, n), 'std::out_of_range')
        m = core.ite(simp(z3.ULT(simp(n - pos), cnt)), simp(n - pos), cnt)
        t = g.temp('tmps', o.ty); a_ = self.arr(st, o, (), g.sort(g.container_elem(o.ty)))
        self.setlen(st, t, m)
        self.setarr(st, t, (), a_.sort().range(), a_ if isnum(pos) and pos.as_long() == 0 else lam(lambda k: sel(a_, simp(pos + k))))
        return t
    def c_erase(self, o, a, st, env, e):
        g = self.g; n = self.len(st, o)
        if g.is_iter(g.strip(a[0]['t'])):
            p = g.ev(a[0], st, env)
            if len(a) == 2: q = g.ev(a[1], st, env); pos, cnt = p.idx, simp(q.idx - p.idx)
            else: pos, cnt = p.idx, bv(1)
            g.check(st, and_(z3.ULE(pos, n), z3.ULE(cnt, n - pos)), 'erase inside the container', 'bounds')
            ret = Ptr('elem', o, pos, p.ety)
        else:
            pos = self.u64(a[0], st, env); cnt = self.u64(a[1], st, env) if len(a) > 1 else bv(-1 & (2**64 - 1))
            g.throw_if(st, z3.UGT(pos, n), 'std::out_of_range')
            cnt = core.ite(simp(z3.ULT(simp(n - pos), cnt)), simp(n - pos), cnt); ret = o
        if not z3.is_true(simp(simp(pos + cnt) == n)):
            for s, srt in self.eleaves(o):
                a_ = self.arr(st, o, s, srt)
                self.setarr(st, o, s, srt, lam(lambda k: core.ite(simp(z3.ULT(k, pos)), sel(a_, k), sel(a_, simp(k + cnt)))))
        self.setlen(st, o, simp(n - cnt)); return ret
    def c_swap(self, o, a, st, env, e):
        g = self.g; p = g.ev_lv(a[0], st, env); t = g.temp('tmps', o.ty); g.copy(st, t, o); g.copy(st, o, p); g.copy(st, p, t)
    def c_compare(self, o, a, st, env, e): raise Unsupported('compare')
    def c_find(self, o, a, st, env, e): raise Unsupported('string find')
    def c_insert(self, o, a, st, env, e):
        g = self.g
        if g.is_iter(g.strip(a[0]['t'])) and len(a) == 2:
            p = g.ev(a[0], st, env); n = self.len(st, o)
            v = g.ev_class(a[1], st, env, None) if g.is_class(g.container_elem(o.ty)) else g.ev(a[1], st, env)
            g.check(st, z3.ULE(p.idx, n), 'insert inside the container', 'bounds')
            for s, srt in self.eleaves(o):
                a_ = self.arr(st, o, s, srt); x = g.rdleaf(st, v, s, srt) if isinstance(v, Loc) else v
                self.setarr(st, o, s, srt, lam(lambda k: core.ite(simp(z3.ULT(k, p.idx)), sel(a_, k), core.ite(simp(k == p.idx), x, sel(a_, simp(k - 1))))))
            self.setlen(st, o, simp(n + 1)); return Ptr('elem', o, p.idx, p.ety)
        raise Unsupported('insert')

    # ---- streams
    def s8(self, st, o): return self.g.rdleaf(st, o, ('[]',), z3.ArraySort(BV64, z3.BitVecSort(8)))
    def fl(self, st, o, n, w=64): return self.g.rdleaf(st, o, (n,), z3.BitVecSort(w))
    def sfl(self, st, o, n, v): self.g.wrleaf(st, o, (n,), v.sort(), v)
    def setstate(self, st, o, bits_if):
        """bits_if: list of (cond, bit)"""
        s = self.fl(st, o, '.st', 32)
        for c, b in bits_if: s = core.ite(simp(b2(c)), s | bv(b, 32), s)
        s = simp(s); self.sfl(st, o, '.st', s)
        self.g.throw_if(st, (s & self.fl(st, o, '.exc', 32)) != 0, 'std::ios_base::failure')
    def settle(self, st, o):
        """a stream state and position the path condition determines are replaced by their value"""
        s = simp(self.fl(st, o, '.st', 32))
        if not isnum(s):
            k = (s.get_id(), len(st.pc), st.pc[-1].get_id() if st.pc and not isF(st.pc[-1]) else id(st.pc[-1]) if st.pc else 0)
            if k not in self.settled: self.settled[k] = (not self.g.feasible(st, s != 0), s, st.pc[-1] if st.pc else None)
            if self.settled[k][0]: s = bv(0, 32)
            self.sfl(st, o, '.st', s)
        if isnum(s) and s.as_long() == 0:
            p = simp(self.fl(st, o, '.pos'))
            if z3.is_app(p) and p.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_BADD) and 'if' in p.sexpr()[:4000].lower():
                self.sfl(st, o, '.pos', self.settle_ite(st, p))
    def settle_ite(self, st, t, d=0):
        if d > 6 or not z3.is_app(t): return t
        if t.decl().kind() == z3.Z3_OP_ITE and z3.is_bv(t):
            c = t.arg(0)
            if not self.g.feasible(st, z3.Not(c)): return self.settle_ite(st, t.arg(1), d + 1)
            if not self.g.feasible(st, c): return self.settle_ite(st, t.arg(2), d + 1)
            return t
        if t.decl().kind() == z3.Z3_OP_BADD: return simp(z3.Sum([self.settle_ite(st, x, d + 1) for x in t.children()]))
        return t
    def good(self, st, o): return simp(self.fl(st, o, '.st', 32) == 0)
    def f_good(self, o, a, st, env, e): return self.good(st, o)
    def f_bad(self, o, a, st, env, e): return simp((self.fl(st, o, '.st', 32) & BADB) != 0)
    def f_fail(self, o, a, st, env, e): return simp((self.fl(st, o, '.st', 32) & (BADB | FAILB)) != 0)
    def f_eof(self, o, a, st, env, e): return simp((self.fl(st, o, '.st', 32) & EOFB) != 0)
    def f_rdstate(self, o, a, st, env, e): return self.fl(st, o, '.st', 32)
    def f_clear(self, o, a, st, env, e):
        s = self.g.ev(a[0], st, env) if a and a[0].get('k') != 'zero' else bv(0, 32)
        self.sfl(st, o, '.st', s)
        self.g.throw_if(st, (s & self.fl(st, o, '.exc', 32)) != 0, 'std::ios_base::failure')
    def f_setstate(self, o, a, st, env, e):
        s = self.g.ev(a[0], st, env) | self.fl(st, o, '.st', 32); self.sfl(st, o, '.st', s)
        self.g.throw_if(st, (s & self.fl(st, o, '.exc', 32)) != 0, 'std::ios_base::failure')
    def f_exceptions(self, o, a, st, env, e):
        if not a: return self.fl(st, o, '.exc', 32)
        m = self.g.ev(a[0], st, env); self.sfl(st, o, '.exc', m)
        self.g.throw_if(st, (self.fl(st, o, '.st', 32) & m) != 0, 'std::ios_base::failure')
    def fpos(self, st, v):
        t = self.g.temp('fpos', 'std::fpos<__mbstate_t>') if 'std::fpos<__mbstate_t>' in self.g.p.types else self.g.temp('fpos', next(k for k in self.g.p.types if k.startswith('std::fpos')))
        st.mem[(t.root, ())] = v
        return t
    def slen(self, st, o):
        n = self.fl(st, o, '.len'); c = z3.ULT(n, bv(core.SIZE_MAX_BOUND))
        if not isnum(n) and not any((not isF(h)) and h.eq(c) for h in st.pc): st.pc.append(c)
        p = self.fl(st, o, '.pos')
        return n
    def f_tellg(self, o, a, st, env, e):
        self.slen(st, o)
        ok = self.good(st, o)
        self.setstate(st, o, [(not_(ok), FAILB)])
        return self.fpos(st, core.ite(simp((self.fl(st, o, '.st', 32) & (BADB | FAILB)) != 0), bv(2**64 - 1), self.fl(st, o, '.pos')))
    def f_seekg(self, o, a, st, env, e):
        g = self.g; n = self.slen(st, o)
        if len(a) == 1:
            v = g.ev(a[0], st, env)
            off = g.rdleaf(st, v, (), BV64) if isinstance(v, Loc) else g.to64(v, a[0]['t']); base = bv(0)
        else:
            v = g.ev(a[0], st, env); off = g.rdleaf(st, v, (), BV64) if isinstance(v, Loc) else g.to64(v, a[0]['t'])
            d = simp(g.ev(a[1], st, env))
            if not isnum(d): raise Unsupported('seekdir')
            base = [bv(0), self.fl(st, o, '.pos'), n][d.as_long()]
        s = simp(self.fl(st, o, '.st', 32) & bv(0xffffffff ^ EOFB, 32)); self.sfl(st, o, '.st', s)
        if len(a) == 1 or True: g.throw_if(st, (s & self.fl(st, o, '.exc', 32)) != 0, 'std::ios_base::failure')
        ok0 = simp(s == 0)
        self.setstate(st, o, [(not_(ok0), FAILB)])
        np = simp(base + off)
        valid = simp(z3.And(np >= 0, np <= n))
        if z3.is_true(ok0): valid = g.decide(st, valid)
        self.sfl(st, o, '.pos', core.ite(simp(and_(ok0, valid)), np, self.fl(st, o, '.pos')))
        self.setstate(st, o, [(and_(ok0, not_(valid)), FAILB)])
        return o
    def f_gcount(self, o, a, st, env, e): raise Unsupported('gcount')
    def f_read(self, o, a, st, env, e):
        g = self.g; p = g.ev(a[0], st, env); n = self.u64(a[1], st, env); ln = self.slen(st, o)
        ok = self.good(st, o); pos = self.fl(st, o, '.pos')
        self.setstate(st, o, [(not_(ok), FAILB)])
        inside = simp(z3.ULE(pos, ln))
        if not z3.is_true(inside) and not g.feasible(st, z3.Not(inside)): inside = z3.BoolVal(True)
        avail = core.ite(inside, simp(ln - pos), bv(0))
        # negative counts read nothing
        if z3.is_true(ok) and isnum(simp(n)): 
            fits = g.decide(st, z3.ULE(n, avail)); full = fits
            if z3.is_true(fits): avail = simp(ln - pos)
        else: fits = z3.ULE(n, avail); full = simp(and_(ok, fits))
        cnt = core.ite(ok, core.ite(simp(fits), n, avail), bv(0)); cnt = simp(cnt)
        data = self.s8(st, o)
        nn = simp(n)
        bp = self.bytes_ptr(p) if p.kind != 'null' else p
        if isinstance(bp.loc, Loc) and g.container_elem(bp.loc.ty) is not None and g.p.sizeof(g.container_elem(bp.loc.ty)) == 1:
            g.obl_bounds(st, bp.idx, nn, g.cap(st, bp.loc), 'stream read destination')
            da = self.arr(st, bp.loc, (), z3.BitVecSort(8))
            self.setarr(st, bp.loc, (), z3.BitVecSort(8), self.splice(da, bp.idx, cnt, lambda k: sel(data, simp(pos + k))))
        elif isnum(nn):
            k = nn.as_long()
            cur = g.read_raw(st, bp.loc, bp.idx, k) if k else None
            if k:
                bs = [core.ite(simp(z3.ULT(bv(i), cnt)), sel(data, add(pos, bv(i))), ext(i * 8 + 7, i * 8, cur)) for i in range(k)]
                g.write_raw(st, bp.loc, bp.idx, cat(list(reversed(bs))))
        else:
            raise Unsupported('stream read of symbolic size')
        self.sfl(st, o, '.pos', simp(pos + cnt))
        self.setstate(st, o, [(and_(ok, not_(full)), EOFB | FAILB)])
        return o
    def f_get(self, o, a, st, env, e):
        g = self.g
        if a: raise Unsupported('get(c)')
        ln = self.slen(st, o); ok = self.good(st, o); pos = self.fl(st, o, '.pos')
        self.setstate(st, o, [(not_(ok), FAILB)])
        has = simp(and_(ok, z3.ULT(pos, ln)))
        v = core.ite(has, zext(sel(self.s8(st, o), pos), 32), bv(0xffffffff, 32))
        self.sfl(st, o, '.pos', core.ite(has, simp(pos + 1), pos))
        self.setstate(st, o, [(and_(ok, z3.UGE(pos, ln)), EOFB | FAILB)])
        return v
    # output: content array + put position; a good stream accepts everything (device failures are outside the model)
    def f_write(self, o, a, st, env, e):
        g = self.g; p = g.ev(a[0], st, env); n = simp(self.u64(a[1], st, env)); ok = self.good(st, o)
        bp = self.bytes_ptr(p); pos = self.fl(st, o, '.ppos'); data = self.s8(st, o)
        if isinstance(bp.loc, Loc) and g.container_elem(bp.loc.ty) is not None and g.p.sizeof(g.container_elem(bp.loc.ty)) == 1:
            g.obl_bounds(st, bp.idx, n, g.cap(st, bp.loc), 'stream write source')
            sa = self.arr(st, bp.loc, (), z3.BitVecSort(8)); fn = lambda k: sel(sa, simp(bp.idx + k))
        elif isnum(n):
            raw = g.read_raw(st, bp.loc, bp.idx, n.as_long()); by = [ext(i * 8 + 7, i * 8, raw) for i in range(n.as_long())]
            def fn(k):
                return by[k.as_long()]
        else: 
            # an object written with a symbolic size: bounded by its own size
            size = g.p.sizeof(bp.loc.ty)
            g.obl_bounds(st, bp.idx, n, bv(size), 'stream write source')
            f0 = self.src_arr(st, bp.loc, (), z3.BitVecSort(8)); fn = lambda k: f0(simp(bp.idx + k))
        if isnum(n) and n.as_long() > 64:
            old = data; base = pos
            def body(k):
                r = sel(old, k)
                if isinstance(bp.loc, Loc) and g.container_elem(bp.loc.ty) is not None: return core.ite(simp(z3.And(z3.ULE(base, k), z3.ULT(k - base, n))), fn(simp(k - base)), r)
                for i in range(n.as_long()): r = core.ite(simp(k == base + i), by[i], r)
                return r
            nd = data
            if not (isinstance(bp.loc, Loc) and g.container_elem(bp.loc.ty) is not None):
                for i in range(n.as_long()): nd = z3.Store(nd, add(pos, bv(i)), by[i])
            else: nd = lam(body)
        else: nd = self.splice(data, pos, n, fn)
        self.out_set(st, o, nd, simp(pos + n)); return o
    def out_set(self, st, o, nd, np):
        ok = self.good(st, o)
        old = self.s8(st, o); ln = self.fl(st, o, '.len'); pos = self.fl(st, o, '.ppos')
        self.g.wrleaf(st, o, ('[]',), old.sort(), core.ite(ok, nd, old))
        np2 = core.ite(ok, np, pos)
        self.sfl(st, o, '.ppos', np2)
        self.sfl(st, o, '.len', core.ite(simp(z3.UGT(np2, ln)), np2, ln))
        self.setstate(st, o, [(not_(ok), BADB)] if not z3.is_true(ok) else [])
    def f_put(self, o, a, st, env, e):
        c = self.g.ev(a[0], st, env); pos = self.fl(st, o, '.ppos')
        self.out_set(st, o, z3.Store(self.s8(st, o), pos, c), simp(pos + 1)); return o
    def f_tellp(self, o, a, st, env, e):
        return self.fpos(st, core.ite(self.good(st, o), self.fl(st, o, '.ppos'), bv(2**64 - 1)))
    def f_seekp(self, o, a, st, env, e):
        g = self.g
        if len(a) != 1: raise Unsupported('seekp')
        v = g.ev(a[0], st, env); off = g.rdleaf(st, v, (), BV64) if isinstance(v, Loc) else g.to64(v, a[0]['t'])
        ok = self.good(st, o); valid = simp(z3.And(off >= 0, off <= self.fl(st, o, '.len')))
        self.sfl(st, o, '.ppos', core.ite(simp(and_(ok, valid)), off, self.fl(st, o, '.ppos')))
        self.setstate(st, o, [(not_(and_(ok, valid)), FAILB)]); return o
    f_operator_bool = None

    # ---- free functions and operators
    def call(self, e, st, env):
        g = self.g; q = e['f']['qn']; a = e['args']; self.trust(q)
        n = q.rsplit('::', 1)[-1]
        if q in ('memcpy', '__builtin_memcpy', 'memmove'):
            d = g.ev(a[0], st, env); s = g.ev(a[1], st, env); c = self.u64(a[2], st, env); self.memcpy(st, d, s, c); return d
        if q == 'memset' or q == '__builtin_memset':
            d = g.ev(a[0], st, env); v = g.ev(a[1], st, env); c = simp(self.u64(a[2], st, env)); b8 = ext(7, 0, v)
            bp = self.bytes_ptr(d)
            if isnum(c):
                k = c.as_long()
                if k: g.write_raw(st, bp.loc, bp.idx, cat([b8] * k))
            else:
                if g.container_elem(bp.loc.ty) is None or g.p.sizeof(g.container_elem(bp.loc.ty)) != 1: raise Unsupported('memset')
                g.obl_bounds(st, bp.idx, c, g.clen(st, bp.loc), 'memset destination')
                self.setarr(st, bp.loc, (), z3.BitVecSort(8), self.splice(self.arr(st, bp.loc, (), z3.BitVecSort(8)), bp.idx, c, lambda k: b8))
            return d
        if q == 'memcmp':
            x, y, c = g.ev(a[0], st, env), g.ev(a[1], st, env), simp(self.u64(a[2], st, env))
            bx, by = self.bytes_ptr(x), self.bytes_ptr(y)
            if isnum(c):
                k = c.as_long()
                rx, ry = g.read_raw(st, bx.loc, bx.idx, k), g.read_raw(st, by.loc, by.idx, k)
                r = z3.BitVec(fresh_name('memcmp'), 32); g.assume(st, (r == 0) == (rx == ry)); return r
            raise Unsupported('memcmp')
        if q == 'std::pow':
            # 2 to a small natural number: the double with that exponent; anything else is unspecified
            x, y = g.ev(a[0], st, env), g.ev(a[1], st, env)
            if isinstance(x, Loc): x = g.load(st, x)
            if isinstance(y, Loc): y = g.load(st, y)
            tx, ty = g.T(g.strip(a[0]['t'])), g.T(g.strip(a[1]['t'])); f = z3.Function('pow_%d_%d' % (x.size(), y.size()), x.sort(), y.sort(), z3.BitVecSort(64))
            two = z3.is_bv_value(simp(x)) and simp(x).as_long() == (0x40000000 if x.size() == 32 else 0x4000000000000000)
            if two and ty['k'] in ('int', 'enum') and not ty.get('s') and y.size() <= 64:
                y64 = zext(y, 64); return simp(ite(z3.ULE(y64, bv(1023)), (y64 + 1023) << bv(52), f(x, y)))
            return f(x, y)
        if q in ('std::min', 'std::max'):
            la, lb = g.ev_lv(a[0], st, env), g.ev_lv(a[1], st, env)
            x, y = g.load(st, la), g.load(st, lb); sg = g.T(la.ty).get('s')
            lt = (x < y) if sg else z3.ULT(x, y); gt = (y < x) if sg else z3.ULT(y, x)
            t = g.temp('tmpv', la.ty); g.store(st, t, core.ite(simp(gt), y, x) if n == 'min' else core.ite(simp(lt), y, x)); return t
        if q.startswith('__gnu_cxx::') or e.get('mop'): 
            r = self.op(n, q, e, a, st, env)
            if r is not NotImplemented: return r
        if q in ('std::find_if', 'std::find'): return self.find_if(q, a, st, env, e)
        if q in ('std::any_of', 'std::all_of', 'std::none_of'):
            p, idx = None, None
            r = self.find_if('std::find_if', a, st, env, e, neg=(q == 'std::all_of')); q2 = g.ev(a[1], st, env)
            found = simp(r.idx != q2.idx)
            return found if q == 'std::any_of' else not_(found)
        if q == 'std::make_pair':
            t = g.temp('tmp', e['t']); r = g.rec(e['t'])
            for i, (nm, x) in enumerate(zip(('first', 'second'), a)):
                ft = r['targs'][i]; l = Loc(t.root, (nm,), [], ft)
                if g.is_class(ft) and not g.is_iter(ft): g.copy(st, l, g.ev_class(x, st, env, None))
                else:
                    v = g.ev(x, st, env)
                    if isinstance(v, Loc): v = g.load(st, v)
                    g.store(st, l, v)
            return t
        if q in ('std::move', 'std::forward'): return g.ev_lv(a[0], st, env)
        if q == 'std::swap':
            x, y = g.ev_lv(a[0], st, env), g.ev_lv(a[1], st, env)
            if g.is_class(x.ty):
                t = g.temp('tmps', x.ty); g.copy(st, t, x); g.copy(st, x, y); g.copy(st, y, t)
            else:
                vx, vy = g.load(st, x), g.load(st, y); g.store(st, x, vy); g.store(st, y, vx)
            return None
        if q in ('std::operator==', 'std::operator!=', 'std::operator<', 'std::operator+', 'std::operator<=', 'std::operator>', 'std::operator>='):
            return self.str_op(n, e, a, st, env)
        if q == 'std::sort': return self.sort(a, st, env, e)
        if q == 'std::copy' : return self.copy_alg(a, st, env, e)
        if q == 'std::fill':
            p, r, v = g.ev(a[0], st, env), g.ev(a[1], st, env), g.ev(a[2], st, env)
            if isinstance(v, Loc): v = g.load(st, v)
            g.check(st, and_(z3.ULE(p.idx, r.idx), z3.ULE(r.idx, g.clen(st, p.loc))), 'fill range', 'bounds')
            self.setarr(st, p.loc, (), v.sort(), self.splice(self.arr(st, p.loc, (), v.sort()), p.idx, simp(r.idx - p.idx), lambda k: v)); return None
        if q == 'std::max_element' : return self.max_element(a, st, env, e)
        if q in ('std::operator|', 'std::operator&', 'std::operator~', 'std::operator^', 'std::operator|=', 'std::operator&='):
            if n in ('operator|=', 'operator&='):
                l = g.ev_lv(a[0], st, env); x, y = g.load(st, l), g.ev(a[1], st, env); g.store(st, l, simp(x | y if n == 'operator|=' else x & y)); return l
            x = g.ev(a[0], st, env)
            if n == 'operator~': return simp(~x)
            y = g.ev(a[1], st, env)
            return simp({'operator|': x | y, 'operator&': x & y, 'operator^': x ^ y}[n])
        if q == 'std::count_if': raise Unsupported(q)
        raise Unsupported('std call ' + q)
    def op(self, n, q, e, a, st, env):
        g = self.g; cls = q.rsplit('::', 1)[0]
        if cls in ('__gnu_cxx::__normal_iterator', '__gnu_cxx', 'std') and g.T(g.strip(a[0]['t']))['k'] in ('rec', 'ptr') and (g.T(g.strip(a[0]['t']))['k'] == 'ptr' or g.is_iter(g.strip(a[0]['t']))):
            if n in ('operator*',): return g.deref(st, g.ev(a[0], st, env))
            if n == 'operator->': return g.addr(g.deref(st, g.ev(a[0], st, env)))
            if n == 'operator[]': 
                p = g.ev(a[0], st, env); i = self.u64(a[1], st, env); return g.deref(st, g.ptr_add(p, i))
            if n in ('operator++', 'operator--'):
                l = g.ev_lv(a[0], st, env); p = g.load(st, l); np = g.ptr_add(p, bv(1 if n == 'operator++' else -1))
                g.store(st, l, np)
                return p if len(a) == 2 else l
            if n in ('operator+=', 'operator-='):
                l = g.ev_lv(a[0], st, env); p = g.load(st, l); d = self.u64(a[1], st, env)
                g.store(st, l, g.ptr_add(p, d if n == 'operator+=' else simp(-d))); return l
            if n == 'operator+': p = g.ev(a[0], st, env); return g.ptr_add(p, self.u64(a[1], st, env))
            if n == 'operator-':
                p = g.ev(a[0], st, env)
                if g.T(g.strip(a[1]['t']))['k'] == 'int': return g.ptr_add(p, simp(-self.u64(a[1], st, env)))
                return g.ptr_bin('-', p, g.ev(a[1], st, env), None, None, st)
            if n in ('operator==', 'operator!=', 'operator<', 'operator<=', 'operator>', 'operator>='):
                return g.ptr_bin(n[8:], g.ev(a[0], st, env), g.ev(a[1], st, env), None, None, st)
            if n == 'operator=':
                l = g.ev_lv(a[0], st, env); v = g.ev(a[1], st, env); g.store(st, l, v); return l
        if cls in ('std::vector', 'std::basic_string'):
            o = g.ev_lv(a[0], st, env)
            fn = getattr(self, 'c_' + n.replace('operator[]', 'index').replace('operator=', 'assign_op').replace('operator+=', 'append_op'), None)
            if fn is None: raise Unsupported(q)
            return fn(o, a[1:], st, env, e)
        if cls == 'std::pair' and n == 'operator=':
            o = g.ev_lv(a[0], st, env); g.copy(st, o, g.ev_class(a[1], st, env, None)); return o
        if cls in ('std::map', 'std::multimap', 'std::set') and n == 'operator=':
            o = g.ev_lv(a[0], st, env); g.copy(st, o, g.ev_class(a[1], st, env, None)); return o
        if cls == 'std::unique_ptr' and n == 'operator->':
            o = g.ev_lv(a[0], st, env); return st.refs[(o.root, o.path + ('.p',))]
        if cls == 'std::unique_ptr' and n == 'operator*':
            o = g.ev_lv(a[0], st, env); return g.deref(st, st.refs[(o.root, o.path + ('.p',))])
        if cls == 'std::fpos': 
            pass
        return NotImplemented
    def pred_at(self, st, p, pred, k):
        """truth of the predicate on element k (pure)"""
        g = self.g; s2 = st.clone(); el = g.elem(p.loc, k)
        saved = list(g.obls)
        g.thr.append([]); g.choice_stack.append({'choices': [], 'pos': 0})
        s2.pc = list(st.pc) + [z3.ULT(k, self.g.clen(st, p.loc))]
        n0 = len(s2.pc)
        try:
            if isinstance(pred, Closure): v = g.call_closure(pred, [self.as_arg(el)], s2, None)
            elif isinstance(pred, FnVal): v = g.call(pred.f, None, [(None, el)], s2, None)
            else:
                op = self.call_op(pred)
                v = g.call(op, pred, [(None, el)], s2, None)
            if g.thr[-1]: raise Unsupported('predicate throws')
        finally: g.thr.pop(); g.choice_stack.pop()
        for (r, pth), t in s2.mem.items():
            o = st.mem.get((r, pth))
            if o is not None and not o.eq(t): raise Unsupported('predicate with side effects')
        return b2(v)
    def as_arg(self, v): return v
    def call_op(self, obj):
        fs = [f for f in self.g.p.funcs.values() if f.get('cls') == obj.ty and f['qn'].endswith('::operator()') and not f.get('pure')]
        if not fs: raise Unsupported('call operator of ' + obj.ty)
        f = fs[0]
        return {'key': f['key'], 'qn': f['qn']}
    def find_if(self, q, a, st, env, e, neg=False):
        g = self.g; p, r = g.ev(a[0], st, env), g.ev(a[1], st, env)
        if p.kind != 'elem': raise Unsupported('find_if range')
        g.check(st, and_(z3.ULE(p.idx, r.idx), z3.ULE(r.idx, g.cap(st, p.loc))), 'valid range', 'bounds')
        if q == 'std::find':
            v = g.ev(a[2], st, env)
            if isinstance(v, Loc): v = g.load(st, v) if not g.is_class(v.ty) else v
            if isinstance(v, Loc): raise Unsupported('find of class value')
            ea = self.arr(st, p.loc, (), v.sort() if v.sort() == g.sort(p.ety) else g.sort(p.ety))
            if v.sort() != g.sort(p.ety): v = g.conv(v, g.strip(a[2]['t']), p.ety)
            P = lambda k: sel(ea, k) == v
        else:
            pe = a[2]
            pred = g.ev(pe, st, env) if not g.is_class_expr(pe) else g.ev_class(pe, st, env, None)
            if isinstance(pred, Loc) and pred.ty not in g.p.types: pass
            k0 = z3.BitVec(fresh_name('?fi'), 64)
            body = self.pred_at(st, p, pred, k0)
            P = lambda k: z3.substitute(body, (k0, k))
        if neg: P0 = P; P = lambda k: not_(P0(k))
        lo, hi = simp(p.idx), simp(r.idx)
        if isnum(lo) and isnum(hi) and hi.as_long() - lo.as_long() <= 32:
            idx = hi
            for i in reversed(range(lo.as_long(), hi.as_long())): idx = core.ite(simp(P(bv(i))), bv(i), idx)
            return Ptr('elem', p.loc, idx, p.ety)
        idx = z3.BitVec(fresh_name('found'), 64)
        st.pc.append(z3.And(z3.ULE(lo, idx), z3.ULE(idx, hi)))
        st.pc.append(imp(idx != hi, P(idx)))
        k = z3.BitVec(fresh_name('?fk'), 64)
        st.pc.append(All([k], imp(z3.And(z3.ULE(lo, k), z3.ULT(k, idx)), not_(P(k)))))
        return Ptr('elem', p.loc, idx, p.ety)
    def str_op(self, n, e, a, st, env):
        g = self.g
        ts = [g.strip(x['t']) for x in a]
        if any(g.T(t)['k'] == 'rec' and g.is_iter(t) for t in ts) or all(g.T(t)['k'] == 'ptr' for t in ts):
            return g.ptr_bin(n[8:], g.ev(a[0], st, env), g.ev(a[1], st, env), None, None, st)
        if any(g.rec(t) and g.rec(t).get('qn') == 'std::fpos' for t in ts):
            v = []
            for x in a:
                y = g.ev(x, st, env); v.append(g.rdleaf(st, y, (), BV64) if isinstance(y, Loc) else g.to64(y, x['t']))
            return simp({'operator==': v[0] == v[1], 'operator!=': v[0] != v[1]}[n])
        def strv(x, t):
            if g.T(t)['k'] in ('ptr',):
                p = g.ev(x, st, env); l = g.temp('tmps', next(tt for tt in ts if g.is_string(tt))); self.str_from(st, l, p, self.strlen(st, p)); return l
            if g.T(t)['k'] == 'arr':
                l0 = g.ev_lv(x, st, env); p = Ptr('elem', l0, bv(0), g.T(t)['of']); l = g.temp('tmps', next(tt for tt in ts if g.is_string(tt))); self.str_from(st, l, p, self.strlen(st, p)); return l
            if g.T(t)['k'] == 'int':
                c = g.ev(x, st, env); l = g.temp('tmps', next(tt for tt in ts if g.is_string(tt))); self.setlen(st, l, bv(1)); self.setarr(st, l, (), c.sort(), z3.Store(z3.K(BV64, bv(0, c.size())), bv(0), c)); return l
            return g.ev_class(x, st, env, None)
        l, r = strv(a[0], ts[0]), strv(a[1], ts[1])
        if not (g.is_string(l.ty) and g.is_string(r.ty)): raise Unsupported('operator on ' + str(ts))
        if n == 'operator+':
            t = g.temp('tmps', l.ty); g.copy(st, t, l); self.append_cont(st, t, r, bv(0), self.len(st, r)); return t
        w = g.sort(g.container_elem(l.ty))
        la, ra, ln, rn = self.arr(st, l, (), w), self.arr(st, r, (), w), self.len(st, l), self.len(st, r)
        if n in ('operator==', 'operator!='):
            if isnum(simp(ln)) or isnum(simp(rn)):
                m = simp(ln).as_long() if isnum(simp(ln)) else simp(rn).as_long()
                if m <= 300:
                    c = simp(and_(ln == rn, *[sel(la, bv(i)) == sel(ra, bv(i)) for i in range(m)]))
                    return c if n == 'operator==' else not_(c)
            c = z3.Bool(fresh_name('streq'))
            f = and_(ln == rn, forall(bv(0), ln, lambda k: sel(la, k) == sel(ra, k)))
            st.pc.append(or_(not_(c), f)); st.pc.append(or_(c, not_(f)))
            return c if n == 'operator==' else not_(c)
        raise Unsupported('string ' + n)
    def sort(self, a, st, env, e):
        g = self.g; p, r = g.ev(a[0], st, env), g.ev(a[1], st, env)
        n = g.clen(st, p.loc)
        perm = z3.Function(fresh_name('perm'), BV64, BV64); inv = z3.Function(fresh_name('perminv'), BV64, BV64)
        k = z3.BitVec(fresh_name('?p'), 64)
        lo, hi = p.idx, r.idx
        rng = lambda x: z3.And(z3.ULE(lo, x), z3.ULT(x, hi))
        st.pc.append(All([k], imp(rng(k), z3.And(rng(perm(k)), inv(perm(k)) == k))))
        k = z3.BitVec(fresh_name('?p'), 64)
        st.pc.append(All([k], imp(rng(k), z3.And(rng(inv(k)), perm(inv(k)) == k))))
        for s, srt in self.eleaves(p.loc):
            old = self.arr(st, p.loc, s, srt)
            self.setarr(st, p.loc, s, srt, lam(lambda j: core.ite(simp(rng(j)), sel(old, perm(j)), sel(old, j))))
        if len(a) > 2:
            comp = g.ev(a[2], st, env) if not g.is_class_expr(a[2]) else g.ev_class(a[2], st, env, None)
            i, j = z3.BitVec(fresh_name('?i'), 64), z3.BitVec(fresh_name('?j'), 64)
            try:
                s2 = st.clone(); g.thr.append([]); g.choice_stack.append({'choices': [], 'pos': 0})
                try:
                    ei, ej = g.elem(p.loc, i), g.elem(p.loc, j)
                    if isinstance(comp, Closure): v = g.call_closure(comp, [ej, ei], s2, None)
                    elif isinstance(comp, FnVal): v = g.call(comp.f, None, [(None, ej), (None, ei)], s2, None)
                    else: v = g.call(self.call_op(comp), comp, [(None, ej), (None, ei)], s2, None)
                finally: g.thr.pop(); g.choice_stack.pop()
                if len(s2.pc) == len(st.pc):
                    st.pc.append(All([i, j], imp(z3.And(rng(i), rng(j), z3.ULT(i, j)), not_(v))))
            except Unsupported: pass
        return None
    def max_element(self, a, st, env, e): raise Unsupported('max_element')
    def copy_alg(self, a, st, env, e):
        g = self.g; p, r, d = g.ev(a[0], st, env), g.ev(a[1], st, env), g.ev(a[2], st, env)
        n = simp(r.idx - p.idx)
        g.check(st, and_(z3.ULE(p.idx, r.idx), z3.ULE(r.idx, g.clen(st, p.loc))), 'copy source range', 'bounds')
        g.obl_bounds(st, d.idx, n, g.clen(st, d.loc), 'copy destination')
        self.copy_range(st, d.loc, d.idx, p.loc, p.idx, n)
        return g.ptr_add(d, n)

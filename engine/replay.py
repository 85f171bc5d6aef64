"""Counterexample replay: model -> concrete objects -> the real library code -> contract evaluated on the result."""
import z3, os, subprocess, hashlib, glob, json, shutil, time
import fol
from fol import *
import fol, core, spec
from core import Loc, BLoc, Ptr, State, Env, Engine, Unsupported, sel
from prog import ToolError, REPO, VERIF, BUILD, sh

MAXLEN = 70000
class NoReplay(Exception): pass

# ---------- sanitized build of the library under test
CXX = ['g++', '-std=gnu++17', '-g1', '-O1', '-w', '-fno-access-control', '-fsanitize=address,undefined', '-fno-sanitize=alignment,vptr,enum,bool,shift-base', '-fno-sanitize-recover=undefined', '-D_GLIBCXX_ASSERTIONS']
CXX[1] = '-std=gnu++11'
def lib_hash(extra=''):
    h = hashlib.sha256(extra.encode())
    for f in sorted(glob.glob(os.path.join(REPO, 'src', 'pe_lib', '*'))):
        h.update(os.path.basename(f).encode()); h.update(open(f, 'rb').read())
    return h.hexdigest()[:16]
def build_lib():
    d = os.path.join(BUILD, 'asan-' + lib_hash(' '.join(CXX)))
    lib = os.path.join(d, 'libpe.a')
    if os.path.exists(lib): return lib
    import tempfile
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='asan', dir=BUILD)
    srcs = sorted(glob.glob(os.path.join(REPO, 'src', 'pe_lib', '*.cpp')))
    from concurrent.futures import ThreadPoolExecutor
    def one(s):
        o = os.path.join(tmp, os.path.basename(s) + '.o')
        r = sh(CXX + ['-c', s, '-o', o, '-I' + os.path.join(REPO, 'src', 'pe_lib')])
        if r.returncode: raise ToolError('build %s: %s' % (s, r.stderr.decode()[-800:]))
        return o
    with ThreadPoolExecutor(8) as p: objs = list(p.map(one, srcs))
    r = sh(['ar', 'rcs', os.path.join(tmp, 'libpe.a')] + objs)
    if r.returncode: raise ToolError('ar')
    for o in objs: os.unlink(o)
    try: os.rename(tmp, d)
    except OSError: shutil.rmtree(tmp, ignore_errors=True)
    return lib
def compile_driver(src, out, opt=('-O1',)):
    opt = list(opt) + ['-I' + os.path.join(VERIF, 'harness')]
    lib = build_lib()
    r = sh(CXX + list(opt) + [src, lib, '-o', out, '-I' + os.path.join(REPO, 'src', 'pe_lib')])
    if r.returncode: raise ToolError('compile %s: %s' % (src, r.stderr.decode()[-1500:]))
ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:redzone=128:allocator_may_return_null=0:max_allocation_size_mb=1024:abort_on_error=0:exitcode=77', UBSAN_OPTIONS='print_stacktrace=0:halt_on_error=1:exitcode=77')

# ---------- model -> python values
class Conc:
    def __init__(self, g, model, st): self.g, self.m, self.st = g, model, st
    def ev(self, t):
        v = self.m.eval(t, model_completion=True) if self.m is not None else z3.simplify(t)
        if z3.is_true(v): return 1
        if z3.is_false(v): return 0
        if z3.is_bv_value(v): return v.as_long()
        v = z3.simplify(v)
        if z3.is_bv_value(v): return v.as_long()
        if z3.is_true(v): return 1
        if z3.is_false(v): return 0
        raise NoReplay('model value %s' % str(v)[:80])
    def value(self, l):
        g = self.g; t = l.ty
        ty = g.T(t) if not t.startswith('#heap ') else {'k': 'heap'}
        k = ty['k']
        if k in ('bool', 'int', 'enum', 'float'): return self.ev(g.load(self.st, l))
        if k in ('ptr', 'ref', 'fn', 'memptr', 'other'): return None
        if g.is_stream(t):
            rd = lambda n, w: self.ev(g.rdleaf(self.st, l, (n,), z3.BitVecSort(w)))
            n = rd('.len', 64)
            if n > MAXLEN: raise NoReplay('stream too long')
            d = g.rdleaf(self.st, l, ('[]',), z3.ArraySort(z3.BitVecSort(64), z3.BitVecSort(8)))
            return {'data': bytes(self.ev(sel(d, bv(i))) for i in range(n)), 'pos': rd('.pos', 64), 'st': rd('.st', 32), 'exc': rd('.exc', 32), 'ppos': rd('.ppos', 64)}
        e = g.container_elem(t)
        if e is not None:
            n = self.ev(g.clen(self.st, l))
            if n > MAXLEN: raise NoReplay('container too long (%d)' % n)
            return [self.value(g.elem(l, bv(i))) for i in range(n)]
        if g.has_raw_layout(t): return self.ev(g.rdleaf(self.st, l, ('#u',), z3.BitVecSort(g.rec(t)['size'] * 8)))
        r = g.rec(t)
        if r.get('std'):
            if r.get('tmpl') == 'std::pair': return {n: self.value(Loc(l.root, l.path + (n,), l.idxs, r['targs'][i])) for i, n in enumerate(('first', 'second'))}
            if r.get('qn') == 'std::fpos': return self.ev(g.load(self.st, l))
            return None
        res = {}
        for n, ft, off, f in g.fields(t):
            fty = g.T(ft)
            if fty['k'] == 'ptr' and fty['to'] == 'pe_bliss::pe_properties':
                res[n] = self.value(Loc(l.root, l.path + (n + '*',), l.idxs, g.props_cls()))
            else: res[n] = self.value(Loc(l.root, l.path + (n,), l.idxs, ft))
        return res

def nolimit():
    """address sanitizer needs the whole address space"""
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (resource.getrlimit(resource.RLIMIT_AS)[1],) * 2)

# ---------- python values -> leaf memory
def assign(g, mem, root, path, t, v, idx=()):
    """accumulate {(root,path): {idx: int}}"""
    ty = g.T(t); k = ty['k']
    def put(p, x): mem.setdefault((root, path + p), {})[idx] = x
    if v is None: return
    if k in ('bool', 'int', 'enum', 'float'): put((), v); return
    if g.is_stream(t):
        put(('.len',), len(v['data'])); put(('.pos',), v['pos']); put(('.st',), v['st']); put(('.exc',), v['exc']); put(('.ppos',), v.get('ppos', 0))
        mem.setdefault((root, path + ('[]',)), {})
        for i, b in enumerate(v['data']): mem[(root, path + ('[]',))][idx + (i,)] = b
        return
    e = g.container_elem(t)
    if e is not None:
        if k != 'arr': put(('.len',), len(v))
        for p, s in g.leaves(e): mem.setdefault((root, path + ('[]',) + p), {})
        for i, x in enumerate(v): assign(g, mem, root, path + ('[]',), e, x, idx + (i,))
        return
    if g.has_raw_layout(t): put(('#u',), v); return
    r = g.rec(t)
    if r is None: return
    if r.get('std'):
        if r.get('tmpl') == 'std::pair':
            for i, n in enumerate(('first', 'second')): assign(g, mem, root, path + (n,), r['targs'][i], v[n], idx)
        elif r.get('qn') == 'std::fpos': put((), v)
        return
    for n, ft, off, f in g.fields(t):
        fty = g.T(ft)
        if fty['k'] == 'ptr' and fty['to'] == 'pe_bliss::pe_properties': assign(g, mem, root, path + (n + '*',), g.props_cls(), v[n], idx)
        elif n in v: assign(g, mem, root, path + (n,), ft, v[n], idx)
def to_terms(g, mem, types):
    """dicts -> z3 terms; needs leaf sorts"""
    res = {}
    for (root, path), d in mem.items():
        srt = types.get((root, path))
        if srt is None: continue
        base, depth = srt
        def build(items, depth):
            if depth == 0:
                x = items.get((), 0)
                return z3.BoolVal(bool(x)) if base == z3.BoolSort() else z3.BitVecVal(x, base.size())
            groups = {}
            for ix, x in items.items(): groups.setdefault(ix[0], {})[ix[1:]] = x
            arr = z3.K(z3.BitVecSort(64), build({}, depth - 1) if depth > 1 else core.zero_of(base))
            for i in sorted(groups): arr = z3.Store(arr, bv(i), build(groups[i], depth - 1))
            return arr
        res[(root, path)] = build(d, depth)
    return res
def leaf_types(g, root, t, out):
    for p, s in g.leaves(t):
        d = 0; b = s
        while isinstance(b, z3.ArraySortRef): d += 1; b = b.range()
        out[(root, p)] = (b, d)

# ---------- C++ generation
def cpp_type(t):
    return t.replace('unsigned long', 'uint64_t') if t == 'unsigned long' else t
class Gen:
    def __init__(self, g): self.g = g; self.n = 0; self.out = []
    def props(self): return 'pe_bliss::pe_properties_generic<pe_bliss::pe_types_class_%d>' % self.g.cfg
    def w(self, s): self.out.append(s)
    def setv(self, ex, t, v):
        g = self.g; ty = g.T(t); k = ty['k']
        if v is None: return
        if k in ('bool', 'int', 'enum', 'float'):
            self.w('set_(%s, 0x%xull);' % (ex, v)); return
        e = g.container_elem(t)
        if e is not None:
            if k != 'arr': self.w('%s.resize(%d);' % (ex, len(v)))
            ety = g.T(e)
            if ety['k'] in ('int', 'enum', 'bool'):
                nz = [(i, x) for i, x in enumerate(v)]
                if v and g.p.sizeof(e) == 1:
                    self.n += 1; nm = 'd%d_' % self.n
                    self.w('{ static const unsigned char %s[] = {%s}; memcpy((void*)&%s[0], %s, %d); }' % (nm, ','.join(str(x) for x in v), ex, nm, len(v)))
                else:
                    for i, x in nz: self.w('set_(%s[%d], 0x%xull);' % (ex, i, x))
            else:
                for i, x in enumerate(v): self.setv('%s[%d]' % (ex, i), e, x)
            return
        if g.has_raw_layout(t):
            n = g.rec(t)['size']
            self.n += 1
            self.w('{ static const unsigned char d%d_[] = {%s}; memcpy((void*)&%s, d%d_, %d); }' % (self.n, ','.join(str((v >> (8 * i)) & 255) for i in range(n)), ex, self.n, n)); return
        r = g.rec(t)
        if r is None: return
        if r.get('std'):
            if r.get('tmpl') == 'std::pair':
                for i, n in enumerate(('first', 'second')): self.setv('%s.%s' % (ex, n), r['targs'][i], v[n])
            return
        for n, ft, off, f in g.fields(t):
            fty = g.T(ft)
            if fty['k'] == 'ptr' and fty['to'] == 'pe_bliss::pe_properties':
                self.setv('(*(%s*)%s.%s)' % (self.props(), ex, n), g.props_cls(), v[n])
            elif n and n in v: self.setv('%s.%s' % (ex, n), ft, v[n])
    def dump(self, ex, t):
        g = self.g; ty = g.T(t); k = ty['k']
        if k in ('bool', 'int', 'enum', 'float'): self.w('put_(%s);' % ex); return
        if g.is_stream(t): self.w('puts_(%s);' % ex); return
        e = g.container_elem(t)
        if e is not None:
            self.n += 1; i = 'i%d_' % self.n
            if k != 'arr': self.w('put_((uint64_t)%s.size());' % ex); n = '%s.size()' % ex
            else: n = str(ty['n'])
            self.w('for(size_t %s = 0; %s < %s; ++%s) {' % (i, i, n, i)); self.dump('%s[%s]' % (ex, i), e); self.w('}')
            return
        if g.has_raw_layout(t): self.w('putraw_(&%s, %d);' % (ex, g.rec(t)['size'])); return
        r = g.rec(t)
        if r is None: return
        if r.get('std'):
            if r.get('tmpl') == 'std::pair':
                for i, n in enumerate(('first', 'second')): self.dump('%s.%s' % (ex, n), r['targs'][i])
            return
        for n, ft, off, f in g.fields(t):
            fty = g.T(ft)
            if fty['k'] == 'ptr' and fty['to'] == 'pe_bliss::pe_properties': self.dump('(*(%s*)%s.%s)' % (self.props(), ex, n), g.props_cls())
            elif n: self.dump('%s.%s' % (ex, n), ft)
    def parse(self, toks, t):
        g = self.g; ty = g.T(t); k = ty['k']
        if k in ('bool', 'int', 'enum', 'float'): return int(next(toks))
        if g.is_stream(t):
            n = int(next(toks)); h = next(toks)
            return {'data': bytes.fromhex(h[1:]), 'pos': int(next(toks)), 'st': int(next(toks)), 'exc': int(next(toks)), 'ppos': int(next(toks))}
        e = g.container_elem(t)
        if e is not None:
            n = int(next(toks)) if k != 'arr' else ty['n']
            return [self.parse(toks, e) for _ in range(n)]
        if g.has_raw_layout(t): return int(next(toks))
        r = g.rec(t)
        if r is None: return None
        if r.get('std'):
            if r.get('tmpl') == 'std::pair': return {n: self.parse(toks, r['targs'][i]) for i, n in enumerate(('first', 'second'))}
            return None
        res = {}
        for n, ft, off, f in g.fields(t):
            fty = g.T(ft)
            if fty['k'] == 'ptr' and fty['to'] == 'pe_bliss::pe_properties': res[n] = self.parse(toks, g.props_cls())
            elif n: res[n] = self.parse(toks, ft)
        return res

PRE = r'''
#include <sstream>
#include <iostream>
#include <cstring>
#include <cstdio>
#include <cstdint>
#include "pe_bliss.h"
#include "pe_bliss_resources.h"
#include "pe_checksum.h"
#include "entropy.h"
#include "file_version_info.h"
template<class T, class V> static void set_(T& t, V v) { t = (T)v; }
template<class T> static void put_(const T& t) { unsigned long long v = 0; memcpy(&v, &t, sizeof(T)); printf("%llu ", v); }
static void putraw_(const void* p, size_t n) { unsigned __int128 v = 0; const unsigned char* c = (const unsigned char*)p; std::string s; 
  /* decimal not needed: hex */ printf("0x"); for(size_t i = n; i-- > 0;) printf("%02x", c[i]); printf(" "); }
static uint32_t st_(std::ios& s) { uint32_t r = 0; if(s.rdstate() & std::ios::badbit) r |= 1; if(s.rdstate() & std::ios::eofbit) r |= 2; if(s.rdstate() & std::ios::failbit) r |= 4; return r; }
static uint32_t ex_(std::ios& s) { uint32_t r = 0; if(s.exceptions() & std::ios::badbit) r |= 1; if(s.exceptions() & std::ios::eofbit) r |= 2; if(s.exceptions() & std::ios::failbit) r |= 4; return r; }
template<class S> static void puts_(S& s0) { std::stringstream& s = (std::stringstream&)s0; std::string d = s.str(); printf("%zu x", d.size()); for(unsigned char c : d) printf("%02x", c);
  uint32_t st = st_(s), ex = ex_(s); s.exceptions(std::ios::goodbit); s.clear(); long long g = s.tellg(), p = s.tellp(); printf(" %llu %u %u %llu ", (unsigned long long)(g < 0 ? 0 : g), st, ex, (unsigned long long)(p < 0 ? 0 : p)); }
using namespace pe_bliss; using namespace pe_bliss::pe_win;
'''
DEFCTOR = {'pe_bliss::pe_base': 'pe_bliss::pe_base %(n)s(pe_bliss::pe_properties_%(cfg)d(), 0x1000);'}
IOS = {1: 'badbit', 2: 'eofbit', 4: 'failbit'}
def iosbits(v): return 'std::ios::iostate(' + ('|'.join('std::ios::' + IOS[b] for b in (1, 2, 4) if v & b) or '0') + ')'

def toks_of(s):
    for x in s.split():
        yield str(int(x, 16)) if x.startswith('0x') else x

class Replay:
    """runs fn on concrete values; returns dict(outcome, post values, ret, stderr)"""
    def __init__(self, g, con, fn): self.g, self.con, self.fn = g, con, fn; self.G = Gen(g)
    def argtypes(self):
        return [self.g.strip(p['t']) for p in self.fn['params']]
    def declare(self, nm, t, v):
        g, G = self.g, self.G
        ty = g.T(t)
        if g.is_stream(t):
            G.w('std::stringstream %s(std::string("%s", %d), std::ios::in | std::ios::out | std::ios::binary);' % (nm, ''.join('\\%03o' % b for b in v['data']), len(v['data'])))
            if v['pos'] <= len(v['data']): G.w('%s.seekg(%d);' % (nm, v['pos']))
            else: raise NoReplay('stream position')
            G.w('%s.seekp(%d);' % (nm, min(v['ppos'], len(v['data']))))
            st = v['st'] & 7; ex = v['exc'] & 7
            if st & ex: raise NoReplay('stream state raises immediately')
            G.w('%s.clear(%s); %s.exceptions(%s);' % (nm, iosbits(st), nm, iosbits(ex)))
            return
        if ty['k'] == 'rec' and ty['name'] in DEFCTOR: G.w(DEFCTOR[ty['name']] % {'n': nm, 'cfg': g.cfg})
        elif t == g.props_cls(): G.w('%s %s;' % (G.props(), nm))
        elif ty['k'] == 'rec': G.w('%s %s;' % (self.tn(t), nm))
        elif ty['k'] == 'arr': raise NoReplay('array argument')
        else: G.w('%s %s;' % (self.tn(t), nm))
        G.setv(nm, t, v)
    def tn(self, t):
        if t == self.g.props_cls(): return self.G.props()
        return t[5:] if t.startswith('enum ') else t
    def source(self, vals):
        g, G, fn = self.g, self.G, self.fn
        G.out = []
        cls = fn.get('cls'); name = fn['qn'].rsplit('::', 1)[-1]
        if name in ('#dtor',): raise NoReplay('destructor')
        isctor = name == '#ctor'
        G.w('int main() {')
        if cls and not fn.get('static') and not isctor: self.declare('obj', cls, vals['this'])
        an = []
        for i, (p, t) in enumerate(zip(fn['params'], self.argtypes())):
            ty = g.T(t)
            if ty['k'] == 'ptr':
                b = vals.get('buf%d' % i)
                if b is None: raise NoReplay('pointer argument')
                et = self.tn(ty['to'])
                G.w('std::vector<%s> buf%d(%d);' % (et, i, len(b)))
                for j, x in enumerate(b): G.w('set_(buf%d[%d], 0x%xull);' % (i, j, x))
                # exact heap block so that overreads are seen
                G.w('%s* a%d = new %s[%d]; if(%d) memcpy((void*)a%d, &buf%d[0], %d * sizeof(%s)); a%d += %d;' % (et, i, et, len(b), len(b), i, i, len(b), et, i, vals['off%d' % i]))
                an.append('a%d' % i); continue
            self.declare('a%d' % i, t, vals['a%d' % i]); an.append('a%d' % i)
        if fn.get('ta') and name == name.split('<')[0]: name += '<%s>' % ', '.join(self.tn(x) if isinstance(x, str) else str(x) for x in fn['ta'])
        rt = fn['ret'] if not isctor else 'void'; rty = g.T(rt) if not isctor else {'k': 'void'}
        if isctor:
            call = '%s obj(%s);' % (cls.replace(g.props_cls(), G.props()), ', '.join(an))
        elif cls and not fn.get('static'): call = '%s.%s(%s)' % ('((const %s&)obj)' % self.tn(cls) if fn.get('const') else 'obj', name, ', '.join(an))
        else: call = '%s(%s)' % (fn['qn'] if not fn.get('ta') else fn['qn'].rsplit('::', 1)[0] + '::' + name, ', '.join(an))
        G.w('int out_ = 0; std::string what_;')
        G.w('try {')
        if isctor: G.w(call); self.after(isctor, 'this'); 
        elif rty['k'] == 'void': G.w(call + ';'); G.w('printf("R ");')
        elif rty['k'] == 'ref':
            t = g.strip(rt); G.w('auto& r_ = %s; printf("R ");' % call)
            if t == 'pe_bliss::section' and cls == 'pe_bliss::pe_base': G.w('{ unsigned long long d_ = ((char*)&r_ - (char*)obj.sections_.data()) / sizeof(section); put_(d_); }')
            elif g.is_class(t): G.dump('r_', t)
            else: G.w('put_(r_);')
        elif rty['k'] == 'ptr': G.w('auto r_ = %s; printf("R ");' % call)
        elif g.is_class(rt): G.w('auto r_ = %s; printf("R ");' % call); G.dump('r_', rt)
        else: G.w('auto r_ = %s; printf("R "); put_(r_);' % call)
        G.w('} catch(const pe_exception& e) { printf("T pe_bliss::pe_exception "); } catch(const std::ios_base::failure& e) { printf("T std::ios_base::failure "); } catch(const std::bad_alloc& e) { printf("T std::bad_alloc "); } catch(const std::length_error& e) { printf("T std::length_error "); } catch(const std::out_of_range&) { printf("T std::out_of_range "); } catch(const std::exception& e) { printf("T std::exception "); }')
        if not isctor: self.after(isctor, None)
        G.w('return 0; }')
        return PRE + '\n'.join(G.out)
    def after(self, isctor, _):
        g, G, fn = self.g, self.G, self.fn
        if isctor: G.w('printf("R ");')
        if fn.get('cls') and not fn.get('static'): G.w('printf("P "); '); G.dump('obj', fn['cls'])
        for i, (p, t) in enumerate(zip(fn['params'], self.argtypes())):
            if g.T(t)['k'] == 'ptr': 
                et = g.T(t)['to']
                G.w('printf("B ");'); G.w('for(size_t q = 0; q < buf%d.size(); ++q) put_((a%d - %d)[q]);' % (i, i, self.vals['off%d' % i])); continue
            G.w('printf("A "); '); G.dump('a%d' % i, t)
    def run(self, vals, workdir, tag):
        self.vals = vals
        src = os.path.join(workdir, tag + '.cpp'); exe = os.path.join(workdir, tag)
        open(src, 'w').write(self.source(vals))
        compile_driver(src, exe)
        try: r = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=20, env=ENV, preexec_fn=nolimit)
        except subprocess.TimeoutExpired: raise NoReplay('no answer within 20 s')
        finally:
            try: os.unlink(exe)
            except OSError: pass
        err = r.stderr.decode(errors='replace')
        if r.returncode != 0 and ('allocation-size-too-big' in err or 'out-of-memory' in err or 'out of memory' in err): raise NoReplay('input too large to run')
        if r.returncode != 0: return {'out': 'crash', 'err': err, 'rc': r.returncode}
        g, G, fn = self.g, self.G, self.fn
        tk = toks_of(r.stdout.decode())
        o = next(tk); res = {'out': 'return' if o == 'R' else 'throw', 'err': err}
        isctor = fn['qn'].endswith('#ctor')
        if o == 'T': 
            res['cls'] = next(tk)
            if isctor: return res
        elif not isctor:
            rt = fn['ret']; rty = g.T(rt)
            if rty['k'] == 'ref':
                t = g.strip(rt)
                res['ret'] = ('sec', int(next(tk))) if t == 'pe_bliss::section' and fn.get('cls') == 'pe_bliss::pe_base' else (t, G.parse(tk, t))
            elif rty['k'] not in ('void', 'ptr'): res['ret'] = (rt, G.parse(tk, rt))
        if fn.get('cls') and not fn.get('static'):
            next(tk); res['this'] = G.parse(tk, fn['cls'])
        for i, t in enumerate(self.argtypes()):
            next(tk)
            if g.T(t)['k'] == 'ptr': res['buf%d' % i] = [G.parse(tk, g.T(t)['to']) for _ in vals['buf%d' % i]]
            else: res['a%d' % i] = G.parse(tk, t)
        return res

def concretise(g, con, fn, model):
    c = g.ctx; cc = Conc(g, model, c.st0); vals = {}
    if c.obj is not None and not fn['qn'].endswith('#ctor'): vals['this'] = cc.value(c.obj)
    for i, (p, l) in enumerate(zip(fn['params'], c.locs)):
        ty = g.T(g.strip(p['t']))
        if ty['k'] == 'ptr':
            q = g.load(c.st0, l)
            if not isinstance(q, Ptr) or q.kind != 'elem': raise NoReplay('pointer argument')
            vals['buf%d' % i] = cc.value(q.loc); vals['off%d' % i] = cc.ev(q.idx)
            if vals['off%d' % i] > len(vals['buf%d' % i]): raise NoReplay('pointer outside its buffer')
        else: vals['a%d' % i] = cc.value(l)
    return vals

def decide(f, timeout=5):
    f = core.b2(f)
    if not isF(f):
        f = z3.simplify(f)
        if z3.is_true(f): return True
        if z3.is_false(f): return False
    ex = [bv(i) for i in range(16)]
    if prove([], f, timeout=timeout, extra_terms=ex).status == 'valid': return True
    if prove([], not_(f), timeout=timeout, extra_terms=ex).status == 'valid': return False
    return None

def state_of(g, con, fn, vals):
    mem, types = {}, {}
    objs = []
    if 'this' in vals: objs.append(('this', fn['cls'], vals['this']))
    for i, p in enumerate(fn['params']):
        t = g.strip(p['t'])
        if 'a%d' % i in vals: objs.append(('a%d' % i, t if t != 'pe_bliss::pe_properties' else g.props_cls(), vals['a%d' % i]))
        if 'buf%d' % i in vals:
            h = '#heap ' + g.T(t)['to']; r = 'buf%d' % i
            mem.setdefault((r, ('.len',)), {})[()] = len(vals[r]); mem.setdefault((r, ('[]',)), {})
            types[(r, ('.len',))] = (z3.BitVecSort(64), 0); types[(r, ('[]',))] = (g.sort(g.T(t)['to']), 1)
            for j, x in enumerate(vals[r]): mem[(r, ('[]',))][(j,)] = x
    for r, t, v in objs:
        leaf_types(g, r, t, types); assign(g, mem, r, (), t, v)
    st = State(); st.mem = to_terms(g, mem, types)
    return st

def judge(g, con, fn, vals, res):
    """list of violated clauses (strings) of the contract on a concrete run; None if the precondition is not met"""
    p = g.p
    g2 = Engine(p, g.cfg)
    st0 = state_of(g2, con, fn, vals)
    st, env, obj = spec.initial(g2, fn)
    st0.refs = dict(st.refs)
    for i, q in enumerate(fn['params']):
        if 'off%d' % i in vals:
            o = st0.refs[('a%d' % i, ())]; st0.refs[('a%d' % i, ())] = Ptr('elem', o.loc, bv(vals['off%d' % i]), o.ety)
    if con.opts.get('setup'): con.opts['setup'](g2, st0, env, obj)
    c = con.mkctx(g2, fn, obj, env, st0)
    for lbl, f in norm_(con.requires(c) if con.requires else []):
        if decide(f) is not True: return None
    if res['out'] == 'crash':
        if 'ERROR: AddressSanitizer' in res['err'] or 'runtime error' in res['err'] or 'Assertion' in res['err']:
            if 'allocation-size-too-big' in res['err'] or 'out-of-memory' in res['err']: return []
            return ['memory safety: ' + first_err(res['err'])]
        return ['abnormal termination rc=%s %s' % (res.get('rc'), first_err(res['err']))]
    if res['out'] == 'timeout': return ['termination: ' + res['err']]
    th = con.throws(c) if con.throws else None
    bad = []
    vals1 = {k: v for k, v in res.items() if k in ('this',) or k[:1] == 'a' and k[1:].isdigit() or k[:3] == 'buf'}
    st1 = state_of(g2, con, fn, vals1); st1.refs = dict(st0.refs)
    for k, v in st0.mem.items(): st1.mem.setdefault(k, v)
    if res['out'] == 'throw':
        cls = res['cls']
        if cls == 'std::bad_alloc': return []
        if cls not in con.exc_cls: return ['exception of foreign type ' + cls]
        if th is None and not con.maythrow: bad.append('no exception expected')
        elif th is not None and decide(th) is False: bad.append('throws although the exceptional condition does not hold')
        if con.opts.get('exc_ensures') and 'this' in res or con.opts.get('exc_ensures') and not fn.get('cls'):
            con.post(c, st1, None, {'cls': cls})
            for lbl, f in norm_(con.opts['exc_ensures'](c)):
                if decide(f) is False: bad.append('on exception: ' + lbl)
        return bad
    if th is not None and not con.opts.get('throws_only_if') and decide(th) is True: bad.append('returns although the exceptional condition holds')
    ret = None
    if 'ret' in res:
        t, v = res['ret']
        if t == 'sec': ret = Loc('this', ('sections_', '[]'), [bv(v)], 'pe_bliss::section')
        elif g2.is_class(t):
            mem, types = {}, {}; leaf_types(g2, 'ret', t, types); assign(g2, mem, 'ret', (), t, v)
            st1.mem.update(to_terms(g2, mem, types)); ret = Loc('ret', (), [], t)
        else: ret = z3.BoolVal(bool(v)) if g2.T(t)['k'] == 'bool' else bv(v, g2.T(t)['w'])
    elif g2.T(fn['ret'])['k'] == 'ptr' if not fn['qn'].endswith('#ctor') else False: return bad
    con.post(c, st1, ret)
    for lbl, f in norm_(con.ensures(c) if con.ensures else []):
        if decide(f) is False: bad.append(lbl)
    if con.frame and not bad:
        g2.cur_loc = ''
        spec.frame_obls(g2, con, c, st1, fn)
        for o in g2.obls:
            if decide(o.goal) is False: bad.append(o.label)
    return bad
from spec import norm as norm_
def first_err(e):
    for l in e.split('\n'):
        if 'ERROR: AddressSanitizer' in l or 'runtime error' in l or 'Assertion' in l: return l.strip()[:200]
    return e.strip()[:200]

def small_scalars(es, limit):
    """keep the plain numbers of the initial state small (or minus one): such inputs are quick to run"""
    out = []; seen = set(); todo = list(es)
    while todo:
        e = todo.pop()
        if isinstance(e, fol.F):
            todo += [x for x in list(getattr(e, 'xs', [])) + [getattr(e, 'x', None)] if x is not None]; continue      # bodies with bound variables are left alone
        if not hasattr(e, 'get_id') or e.get_id() in seen: continue
        seen.add(e.get_id())
        if z3.is_const(e):
            if e.decl().kind() == z3.Z3_OP_UNINTERPRETED and z3.is_bv(e) and e.size() >= 32: out.append(z3.Or(z3.ULE(e, limit), e == -1))
        elif z3.is_quantifier(e): todo.append(e.body())
        elif z3.is_app(e): todo += e.children()
    return out
def small_lens(g, limit):
    """constraints that keep the container lengths of the initial state small"""
    cs = []
    c = g.ctx
    roots = []
    if c.obj is not None: roots.append(('this', g.ctx.fn['cls']))
    for i, p in enumerate(g.ctx.fn['params']):
        t = g.strip(p['t'])
        if g.T(t)['k'] == 'ptr': roots.append(('buf%d' % i, '#heap ' + g.T(t)['to']))
        elif g.is_class(t): roots.append(('a%d' % i, t if t != 'pe_bliss::pe_properties' else g.props_cls()))
    for r, t in roots:
        for path, srt in g.leaves(t):
            if path and path[-1] == '.len':
                x = c.st0.mem.get((r, path))
                if x is None: x = g.leaf_const(r, path, srt)
                def rec(x):
                    if z3.is_array(x):
                        for i in range(4): rec(sel(x, bv(i)))
                    else: cs.append(z3.ULE(x, bv(limit)))
                rec(x)
    return z3.And(*cs) if cs else z3.BoolVal(True)

def try_replay(prog, con, fn, cfg, obl_filter=None, unroll=4, timeout=15, budget=120, workdir=None, log=None):
    """search a concrete violating input: loops unrolled, model replayed on the real code"""
    t0 = time.time(); tried = 0
    con = con.opts.get('replay_as', con)
    try: g = spec.generate(prog, con, fn, cfg, {}, mode='bmc', unroll=unroll)
    except ToolError as e: return None, 'replay generation: %s' % e
    why = 'no refuted obligation in the unrolled program'
    seen = set()
    for o in g.obls:
        if time.time() - t0 > budget: return None, 'replay budget'
        if z3.is_true(o.goal): continue
        for lim, mag in ((6, 1 << 13), (40, 1 << 16), (6, 0), (40, 0), (700, 0)):
            if time.time() - t0 > budget: return None, 'replay budget'
            r = prove(o.hyps + [small_lens(g, lim)] + (small_scalars(o.hyps + [o.goal], mag) if mag else []), o.goal, timeout=timeout, extra_terms=[bv(i) for i in range(8)], maxinst=1500)
            if r.status != 'refuted': continue
            try:
                vals = concretise(g, con, fn, r.model)
                key = json.dumps(vals, default=lambda b: b.hex(), sort_keys=True)
                if key in seen: break
                seen.add(key); tried += 1
                R = Replay(g, con, fn)
                res = R.run(vals, workdir, 'cex%d' % tried)
                bad = judge(g, con, fn, vals, res)
            except (NoReplay, ToolError, StopIteration) as e: why = 'replay: %s' % e; continue
            if bad: return {'clauses': bad, 'values': vals, 'result': res, 'source': open(os.path.join(workdir, 'cex%d.cpp' % tried)).read(), 'obligation': o.label}, None
            why = 'the model did not reproduce on the real code (%s)' % ('precondition' if bad is None else 'contract satisfied')
            if tried > 12: return None, why
    return None, why

"""Loads the typed AST of the library: rebuilds it from /repo's working tree with the extractor."""
import os, lzma, subprocess, json, hashlib, glob, sys, concurrent.futures as cf, tempfile, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
BUILD = os.environ.get('VP_BUILD', os.path.join(VERIF, 'build'))

class ToolError(Exception):
    pass

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)

def build_extractor(rebuild=False):
    src = os.path.join(VERIF, 'extract', 'extract.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    out = os.path.join(BUILD, 'extract-' + h)
    if os.path.exists(out) and not rebuild:
        return out
    os.makedirs(BUILD, exist_ok=True)
    # prebuilt from this very source (named by its hash); anything else is rebuilt
    pre = os.path.join(VERIF, 'extract', 'extract-%s.xz' % h)
    if os.path.exists(pre) and not rebuild:
        tmp = out + '.%d' % os.getpid()
        with open(tmp, 'wb') as f: f.write(lzma.open(pre).read())
        os.chmod(tmp, 0o755)
        if sh([tmp, '--version']).returncode in (0, 1, 2):
            os.rename(tmp, out); return out
        os.unlink(tmp)
    flags = subprocess.check_output(['llvm-config-18', '--cxxflags']).decode().split()
    flags = [f for f in flags if not f.startswith('-std=') and f != '-DNDEBUG']
    tmp = out + '.%d' % os.getpid()
    r = sh(['clang++-18', '-std=c++17', '-O0', '-fno-rtti'] + flags + [src, '-o', tmp, '-L/usr/lib/llvm-18/lib', '-l:libclang-cpp.so.18.1', '-lLLVM'])
    if r.returncode:
        raise ToolError('extractor build failed: ' + r.stderr.decode()[-2000:])
    os.rename(tmp, out)
    return out

class Prog:
    def __init__(self):
        self.types, self.records, self.funcs, self.globals = {}, {}, {}, {}
        self.by_qn = {}
        self.overriders = {}
        self._sz = {}
    def merge(self, d, tag):
        self.types.update(d['types'])
        for k, v in d['records'].items():
            if v is not None and (k not in self.records or 'fields' in v or self.records[k] is None): self.records[k] = v
        for k, v in d['funcs'].items():
            if k not in self.funcs or (self.funcs[k].get('pure') and not v.get('pure')): self.funcs[k] = v
        for k, v in d['globals'].items():
            if k not in self.globals or 'init' in v: self.globals[k] = v
    def finish(self):
        for k, v in self.funcs.items():
            v['key'] = k
            self.by_qn.setdefault(v['qn'], []).append(v)
            for o in v.get('over', []):
                self.overriders.setdefault(o, []).append(k)
    def find(self, qn, nparams=None, ptypes=None, cls=None, ta=None, const=None):
        r = []
        for f in self.by_qn.get(qn, []):
            if f.get('pure'): continue
            if nparams is not None and len(f['params']) != nparams: continue
            if ptypes is not None and [p['t'] for p in f['params']] != list(ptypes): continue
            if ta is not None and f.get('ta') != list(ta): continue
            if const is not None and f.get('const') != const: continue
            r.append(f)
        return r
    def sizeof(self, t):
        if t in self._sz: return self._sz[t]
        ty = self.types[t]; k = ty['k']
        if k in ('int', 'enum', 'float'): s = ty['w'] // 8
        elif k == 'bool': s = 1
        elif k == 'arr': s = ty['n'] * self.sizeof(ty['of'])
        elif k in ('ptr', 'ref'): s = 8
        elif k == 'rec': s = self.records[ty['name']]['size']
        else: raise ToolError('sizeof ' + t)
        self._sz[t] = s
        return s

import re
PT = re.compile(r'pe_bliss::pe_types<pe_bliss::pe_win::image_nt_headers(32|64)[^<>]*>')
def load(extra=(), files=None, only=None):
    ex = build_extractor()
    lib = os.path.join(REPO, 'src', 'pe_lib')
    srcs = sorted(glob.glob(os.path.join(lib, '*.cpp')))
    if only: srcs = [s for s in srcs if os.path.basename(s) in only]
    if not srcs: raise ToolError('no sources')
    tmp = tempfile.mkdtemp(prefix='vpx')
    try:
        def one(a):
            i, s, root = a
            out = os.path.join(tmp, '%d.json' % i)
            r = sh([ex, out, root, s, '-std=c++11', '-w', '-fno-access-control', '-I' + lib, '-resource-dir', '/usr/lib/llvm-18/lib/clang/18'])
            if r.returncode: raise ToolError('extract %s: %s' % (s, r.stderr.decode()[-1500:]))
            txt = open(out, encoding='latin-1').read()
            return json.loads(PT.sub(r'pe_bliss::pe_types_class_\1', txt))
        jobs = [(i, s, lib) for i, s in enumerate(srcs)]
        for e in list(extra) + [os.path.join(VERIF, 'extract', 'inst.cpp')]: jobs.append((len(jobs), e, lib + ':' + VERIF))
        p = Prog()
        with cf.ThreadPoolExecutor(8) as pool:
            for (i, s, root), d in zip(jobs, pool.map(one, jobs)): p.merge(d, s)
        p.finish()
        return p
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

if __name__ == '__main__' and '--stats' in sys.argv:
    import time
    t = time.time(); p = load(); print(len(p.funcs), len(p.records), len(p.types), time.time() - t)
    bad = {}
    def walk(o, f):
        if isinstance(o, dict):
            if o.get('k') in ('unsupported', 'dependent'): bad.setdefault((o.get('k'), o.get('what')), set()).add(f)
            for v in o.values(): walk(v, f)
        elif isinstance(o, list):
            for v in o: walk(v, f)
    for k, v in p.funcs.items(): walk(v, v['qn'])
    for k, v in bad.items(): print(k, list(v)[:5])
    stdf = {}
    def walk2(o, f):
        if isinstance(o, dict):
            if o.get('k') in ('call', 'mcall', 'ctor') and 'f' in o and 'key' not in o['f']: stdf.setdefault(o['f']['qn'], set()).add(f)
            for v in o.values(): walk2(v, f)
        elif isinstance(o, list):
            for v in o: walk2(v, f)
    for k, v in p.funcs.items(): walk2(v.get('body'), v['qn']); walk2(v.get('inits'), v['qn'])
    for k in sorted(stdf): print(len(stdf[k]), k)

if __name__ == '__main__':
    # setup: rebuild the extractor from source and check that it runs; with --save also refresh the prebuilt copy
    o = build_extractor(rebuild=True)
    if '--save' in sys.argv:
        for f in glob.glob(os.path.join(VERIF, 'extract', 'extract-*.xz')): os.unlink(f)
        t = o + '.s'; shutil.copy(o, t); sh(['strip', t])
        with lzma.open(os.path.join(VERIF, 'extract', os.path.basename(o) + '.xz'), 'wb') as f: f.write(open(t, 'rb').read())
        os.unlink(t)
    print('extractor ready: ' + o)

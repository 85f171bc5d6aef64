#!/usr/bin/env python3
"""mutate.py FILE.cpp HARNESS[,HARNESS..] [N] [SECS] [SEED]: one-token mutants of a library source, tried against the bounded harnesses.
Prints the survivors. Works on VP_REPO (default /repo) read-only; scratch in /tmp/mu."""
import sys, os, re, random, subprocess, concurrent.futures as cf
sys.path.insert(0, '/verif/engine')
import replay
from prog import REPO
def mutants(lines):
    out = []; incom = False
    for i, l in enumerate(lines):
        s = l.strip()
        if not s or 'reserve(' in s or s.startswith(('//', '#', 'case ', 'using ', 'template', 'namespace', '{', '}', 'const std::string', ':')): continue
        code = re.sub(r'//.*', '', l)
        if not l.startswith((' ', '\t')): continue
        code0 = re.sub(r'"[^"]*"', lambda m: '"' + '\0' * (len(m.group()) - 2) + '"', code)
        def put(a, b, new, why): out.append((i, code[:a] + new + code[b:], why))
        for m in re.finditer(r'<=|>=|==|!=|&&|\|\||(?<![<\-:\w])[<>](?![<>=:])(?= )|(?<= )[<>](?= )|(?<![+\w(])\+(?![+=])|(?<= )-(?![-=>])|(?<= )\*(?= )|(?<= )/(?= )|\+=|-=', code0):
            t = m.group(); r = {'<=': '<', '>=': '>', '==': '!=', '!=': '==', '&&': '||', '||': '&&', '<': '<=', '>': '>=', '+': '-', '-': '+', '*': '+', '/': '*', '+=': '-=', '-=': '+='}[t]
            if t in '<>' and ('_cast' in code0 or 'vector<' in code0 or 'pair<' in code0) and code0[m.start() - 1] != ' ': continue
            put(m.start(), m.end(), r, '%s -> %s' % (t, r))
        for m in re.finditer(r'(?<![\w.])(0x[0-9a-fA-F]+|\d+)(?![\w.])', code0):
            v = int(m.group(), 0); put(m.start(), m.end(), str(v + 1), '%s -> %d' % (m.group(), v + 1))
            if v > 1: put(m.start(), m.end(), str(v - 1), '%s -> %d' % (m.group(), v - 1))
        m = re.match(r'\s*(?:else )?if\((.*)\)\s*$', code0)
        if m: out.append((i, re.sub(r'if\(', 'if(false && (', code, 1).rstrip() + ')', 'condition dropped')) if code.count('(') == code.count(')') else None; out.append((i, re.sub(r'if\(', 'if(true || (', code, 1).rstrip() + ')', 'condition always')) if code.count('(') == code.count(')') else None
        if re.match(r'\s*[\w.>\-\[\]()*]+(\([^;]*\)|\s*[+\-|&]?=[^=].*);\s*$', code0) and not re.match(r'\s*(return|throw|const|uint|std::|typename|static|[\w:]+(<[\w:, ]*>)?[&*]? \w+\s*=)', code0): out.append((i, ';', 'statement dropped'))
        for m in re.finditer(r'\bsizeof\(([^()]*)\)', code0): put(m.start(), m.end(), '(sizeof(%s) - 1)' % m.group(1), 'sizeof - 1'); put(m.start(), m.end(), '(sizeof(%s) + 1)' % m.group(1), 'sizeof + 1')
    return [x for x in out if x]
def main():
    f, hs = sys.argv[1], sys.argv[2].split(','); n = int((sys.argv + ['40'] * 9)[3]); secs = (sys.argv + [''] * 9)[4] or '4'; random.seed(int((sys.argv + ['1'] * 9)[5] or 1))
    lib = replay.build_lib(); src = os.path.join(REPO, 'src/pe_lib', f); inc = '-I' + os.path.dirname(src); d = '/tmp/mu/%d' % os.getpid(); os.makedirs(d)
    lines = open(src, newline='').read().replace('\r', '').split('\n'); ms = mutants(lines); random.shuffle(ms); ms = ms[:n]
    for h in hs:
        r = subprocess.run(replay.CXX + ['-O1', '-c', '/verif/harness/%s.cpp' % h, '-o', '%s/%s.o' % (d, h), inc, '-I/verif/harness']); assert not r.returncode
    def one(a):
        k, (i, new, why) = a; t = list(lines); t[i] = new; c = '%s/%d_%s' % (d, k, f)
        open(c, 'w').write('\n'.join(t)); o = c + '.o'
        r = subprocess.run(replay.CXX + ['-c', c, '-o', o, inc], capture_output=True)
        if r.returncode: return k, 'nocompile'
        res = 'SURVIVED'
        for h in hs:
            e = '%s.%s' % (c, h)
            subprocess.run(replay.CXX + ['%s/%s.o' % (d, h), o, '-Wl,--allow-multiple-definition', lib, '-o', e], check=True, capture_output=True)
            r = subprocess.run([e, 'quick', '1', secs], env=replay.ENV, capture_output=True)
            if os.path.exists(e): os.unlink(e)
            if r.returncode or b'\nFAIL' in b'\n' + r.stdout: res = 'caught'; break
        os.unlink(o); os.unlink(c); return k, res
    cnt = {}
    with cf.ThreadPoolExecutor(int(os.environ.get('MUJ', '7'))) as p:
        for k, res in p.map(one, list(enumerate(ms))):
            cnt[res] = cnt.get(res, 0) + 1
            if res == 'SURVIVED': i, new, why = ms[k]; print('%s:%d %s\n   - %s\n   + %s' % (f, i + 1, why, lines[i].strip(), new.strip()), flush=True)
    print(f, cnt); subprocess.run(['rm', '-rf', d])
main()

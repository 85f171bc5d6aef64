"""C01: reading the relocation blocks, over the logical image."""
from common import *
from view import *
from readers import rdt, rdok, dd, has_dir, rest, restok, R
BLK = z3.Function('address_of_relocation_block', z3.BitVecSort(64), z3.BitVecSort(64))     # ghost: block 0 is at the directory, each next behind the previous one
def has(pe): return z3.And(has_dir(pe, 5), nt(pe).FileHeader.Characteristics & 1 == 0)
class Rel:
    def __init__(self, c):
        pe = self.pe = c.a(0); self.base = w64(dd(pe, 5).VirtualAddress); self.total = w64(dd(pe, 5).Size)
    def at(self, k): return z3.If(k == 0, self.base, BLK(k))
    def size(self, k): return w64(rdt(8, self.at(k), 4, 4))
    def rva(self, k): return rdt(8, self.at(k), 0, 4)
    def word(self, k, j): return rdt(2, self.at(k) + 8 + 2 * j, 0, 2)
    def count(self, k): return z3.LShR(self.size(k) - 8, bv(1))
    def there(self, k): return z3.And(self.size(k) != 0, z3.ULT(self.at(k) - self.base, self.total))
    def sized(self, k): return z3.And(z3.UGE(self.size(k), 8), self.size(k) & 1 == 0, z3.ULE(self.at(k) + self.size(k), bv(0xffffffff)))
    def words(self, k): return forall(0, self.count(k), lambda j: rdok(2, self.at(k) + 8 + 2 * j), 'y')
    def sane(self, k): return and_(self.sized(k), self.words(k))
    def next_ok(self, k): return z3.Or(z3.UGE(self.at(k + 1) - self.base, self.total), rdok(8, self.at(k + 1)))
    def live(self, k): return and_(self.there(k), self.sane(k), self.next_ok(k))
def rl_throws(c):
    t = Rel(c); b = dd(t.pe, 5).VirtualAddress
    return and_(has(t.pe), or_(z3.Not(restok(b, b)), z3.ULT(rest(b, b), 8), z3.Not(rdok(8, t.base)), exists(0, bv(1 << 62), lambda k: and_(t.there(k), or_(not_(t.sane(k)), z3.Not(t.next_ok(k))), forall(0, k, t.live, 'l')), 'k')))
def rl_ens(c):
    t = Rel(c); r = c.ret; n = r.len
    return [('no directory, no tables', z3.Implies(z3.Not(has(t.pe)), n == 0)), ('every table is a block of the directory', forall(0, n, t.live, 'k')), ('the list ends where the directory ends or with an empty block', imp(has(t.pe), not_(t.there(n)))),
            ('page address of every table', forall(0, n, lambda k: r[k].rva_ == t.rva(k), 'k')), ('one entry per word of the block', forall(0, n, lambda k: r[k].relocations_.len == t.count(k), 'k'))]
def rl_hint(g, L, env):
    import loops
    c = g.hint_ctx; t = Rel(c); it = g.hint_it; M = [i for i in L.items if i.kind == 'mem']
    def one(f): r = [i for i in M if f(i)]; return r[0] if len(r) == 1 else None
    tab = one(lambda i: i.key[1] == ('[]', 'relocations_', '.len'))
    if tab is None: return []      # the words of one block: inferred
    root = tab.key[0]; ln = one(lambda i: i.key == (root, ('.len',))); rv = one(lambda i: i.key == (root, ('[]', 'rva_')))
    w32 = lambda i: i.key[1] == () and z3.is_bv(i.entry) and i.entry.size() == 32
    rd = one(lambda i: w32(i) and isnum(simp(i.entry))); pos = one(lambda i: w32(i) and not isnum(simp(i.entry)))
    va = one(lambda i: i.key[1][-1:] == ('VirtualAddress',)); sz = one(lambda i: i.key[1][-1:] == ('SizeOfBlock',))
    if None in (ln, rv, rd, pos, va, sz):
        g.failed_invs.append((g.where(), '', 'position')); return []
    g.hint_facts.append(t.at(it + 1) == t.at(it) + t.size(it))     # definition of BLK
    K = lambda nm, f, **kw: loops.Cand(nm, f, True, **kw)
    return [K('one table per block', lambda v, it: v[ln] == it), K('position', lambda v, it: z3.And(w64(v[pos]) == t.at(it), z3.UGE(t.at(it), t.base), z3.ULE(t.at(it), bv(0xffffffff)))),
            K('bytes read', lambda v, it: w64(v[rd]) == t.at(it) - t.base), K('header of the block', lambda v, it: z3.And(rdok(8, t.at(it)), v[va] == t.rva(it), w64(v[sz]) == t.size(it))),
            K('blocks so far are there', lambda v, it: forall(0, it, t.there, 'k')), K('blocks so far have a size', lambda v, it: forall(0, it, t.sized, 'k')), K('words so far are there', lambda v, it: forall(0, it, t.words, 'k'), split=True), K('next blocks are there', lambda v, it: forall(0, it, t.next_ok, 'k')), K('page addresses so far', lambda v, it: forall(0, it, lambda k: sel(v[rv], k) == t.rva(k), 'k')),
            K('entries so far', lambda v, it: forall(0, it, lambda k: sel(v[tab], k) == t.count(k), 'k'))]
GR = 'pe_bliss::get_relocations'
G = R('C01', 'get_relocations', req=lambda c: [('padding entries are listed', c.a(1))], throws=rl_throws, ensures=rl_ens, opts={'loop_hints': {GR: rl_hint}, 'inv_timeout': 20, 'maxinst': 4000, 'soft': 'all', 'quick_cfgs': (32,), 'timeout': 120, 'hints_only': 'some'})
G.mod = __name__

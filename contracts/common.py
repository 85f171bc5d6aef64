"""Shared specification vocabulary."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'engine'))
import z3
from fol import *
import core
from core import zext, sext, ext, cat, sel, simp, Loc
from spec import Contract, View, norm

ALL = []
THOROUGH = os.environ.get('VP_TIER') == 'thorough'
EXPANDERS = []   # functions(program) that add contracts tabulated from the declarations found
def C(props, qn, ensures=None, **kw):
    c = Contract(qn, ensures, **kw)
    c.props = props.split() if isinstance(props, str) else list(props)
    c.mod = sys._getframe(1).f_globals.get('__name__')
    ALL.append(c)
    return c
PB = 'pe_bliss::pe_base::'
SEC = 'pe_bliss::section::'
U = z3.ULE
def w64(x): return zext(x, 64) if x.size() < 64 else x
def lo32(x): return ext(31, 0, x)
def pow2(x): return z3.And(x != 0, (x & (x - 1)) == 0)
def align_up(x, a):
    """smallest multiple of the power of two a that is >= x (64-bit arithmetic)"""
    x, a = w64(x), w64(a)
    return (x + (a - 1)) & ~(a - 1)
def align_down(x, a):
    x, a = w64(x), w64(a)
    return x & ~(a - 1)
def dl(n): return lambda f: len(f['params']) == n
def ptypes(*ts): return lambda f: [p['t'] for p in f['params']] == list(ts)
def const(b): return lambda f: bool(f.get('const')) == b
def both(*ps): return lambda f: all(p(f) for p in ps)

# ---- views
def nt(pe): return pe.props.nt_headers_
def opt(pe): return nt(pe).OptionalHeader
def fhdr(pe): return nt(pe).FileHeader
def salign(pe): return opt(pe).SectionAlignment
def falign(pe): return opt(pe).FileAlignment
def hsize(pe): return opt(pe).SizeOfHeaders
def ibase(pe): return w64(opt(pe).ImageBase)
def sections(pe): return pe.sections_
class Sec:
    """a section of image pe in 64-bit arithmetic"""
    def __init__(self, v, al):
        self.v, self.al = v, al
        h = v.header_
        self.va, self.rsz, self.rptr, self.ch = w64(h.VirtualAddress), w64(h.SizeOfRawData), w64(h.PointerToRawData), h.Characteristics
        self.vs = w64(h.Misc.VirtualSize)
        self.avs = z3.If(z3.And(self.rsz != 0, self.vs == 0), align_up(self.rsz, al), align_up(self.vs, al))
        old = v.old_size_
        self.mapped = old != bv(-1)
        self.old = old
        self.len = v.raw_data_.len
        self.rawlen = z3.If(self.mapped, old, self.len)      # logical raw length
    def inside(self, rva): return z3.And(z3.ULE(self.va, rva), z3.ULT(rva, self.va + self.avs))
    def byte(self, i):
        """raw byte i"""
        return self.v.raw_data_.byte(i)
    def wf(self):
        return z3.And(z3.ULT(self.va + self.avs, bv(1 << 32)), self.inv())
    def inv(self):
        """representation: mapped => old size within the buffer; lengths are sane"""
        return z3.And(z3.ULE(self.len, bv(1 << 32)), z3.Or(z3.Not(self.mapped), z3.And(z3.ULE(self.old, self.len))))
    def vbyte(self, i):
        """virtual view: raw bytes then zeros"""
        return z3.If(z3.ULT(i, self.rawlen), self.byte(i), bv(0, 8))
def S(pe, i): return Sec(pe.sections_[i], salign(pe))
def sec(c, k=0, al=None): return Sec(c.a(k), al)
def wf(pe, extra=None):
    """well-formed image: power-of-two alignment and sections that end below 4 GiB"""
    r = [('section alignment is a power of two', pow2(salign(pe))),
         ('sections end below 4 GiB', forall(0, pe.sections_.len, lambda i: S(pe, i).wf(), 's')),
         ('section count is sane', z3.ULE(pe.sections_.len, bv(0xffff)))]
    return r
def first_match(n, p, i):
    """i is the first index below n with p"""
    return [z3.ULT(i, n), p(i), forall(0, i, lambda j: z3.Not(p(j)), 'j')]
def none_match(n, p): return forall(0, n, lambda j: z3.Not(p(j)), 'j')

# ---- properties: level, bounded stand-ins and fallback searches per property id
PROPS = {}
def prop(pid, **kw): PROPS[pid] = kw
TRUSTED = ['clang 18 front end (typed AST of every function on each run)', 'extractor /verif/extract/extract.cpp', 'verification-condition generator /verif/engine (symbolic execution, loop induction, quantifier instantiation)', 'z3 and cvc5']
ASSUMPTIONS = ['x86-64 LP64 type sizes and record layouts as computed by clang; machine integers are exact bit-vectors', 'no container holds more than 2^40 elements; allocation succeeds', 'distinct reference parameters do not alias unless a contract says so', 'standard library calls behave as their contracts in engine/stdmodel.py say']

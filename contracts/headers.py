"""Header accessors and the data directory table."""
from common import *
from sections import hdr_eq
# name: (struct, field); every accessor is checked through the image, for both image kinds
GET = {'get_ep': 'O.AddressOfEntryPoint', 'get_file_alignment': 'O.FileAlignment', 'get_section_alignment': 'O.SectionAlignment', 'get_size_of_image': 'O.SizeOfImage',
       'get_number_of_rvas_and_sizes': 'O.NumberOfRvaAndSizes', 'get_characteristics': 'F.Characteristics', 'get_checksum': 'O.CheckSum', 'get_dll_characteristics': 'O.DllCharacteristics',
       'get_time_date_stamp': 'F.TimeDateStamp', 'get_machine': 'F.Machine', 'get_size_of_headers': 'O.SizeOfHeaders', 'get_subsystem': 'O.Subsystem', 'get_size_of_optional_header': 'F.SizeOfOptionalHeader',
       'get_pe_signature': 'N.Signature', 'get_magic': 'O.Magic', 'get_minor_os_version': 'O.MinorOperatingSystemVersion', 'get_major_os_version': 'O.MajorOperatingSystemVersion',
       'get_minor_subsystem_version': 'O.MinorSubsystemVersion', 'get_major_subsystem_version': 'O.MajorSubsystemVersion', 'get_number_of_sections': 'F.NumberOfSections',
       'get_image_base_32': 'O.ImageBase', 'get_image_base_64': 'O.ImageBase'}
SET = {'set_ep': 'O.AddressOfEntryPoint', 'set_number_of_rvas_and_sizes': 'O.NumberOfRvaAndSizes', 'set_characteristics': 'F.Characteristics', 'set_checksum': 'O.CheckSum', 'set_dll_characteristics': 'O.DllCharacteristics',
       'set_time_date_stamp': 'F.TimeDateStamp', 'set_machine': 'F.Machine', 'set_subsystem': 'O.Subsystem', 'set_number_of_sections': 'F.NumberOfSections', 'set_size_of_image': 'O.SizeOfImage',
       'set_size_of_headers': 'O.SizeOfHeaders', 'set_size_of_optional_header': 'F.SizeOfOptionalHeader', 'set_file_alignment_unchecked': 'O.FileAlignment', 'set_base_of_code': 'O.BaseOfCode',
       'set_image_base': 'O.ImageBase', 'set_image_base_64': 'O.ImageBase'}
for k in ('heap', 'stack'):
    for w in ('commit', 'reserve'):
        f = 'O.SizeOf%s%s' % (k.capitalize(), w.capitalize())
        GET['get_%s_size_%s_32' % (k, w)] = f; GET['get_%s_size_%s_64' % (k, w)] = f; SET['set_%s_size_%s' % (k, w)] = f
def fv(pe, f):
    v = nt(pe)
    if f[0] == 'O': v = v.OptionalHeader
    if f[0] == 'F': v = v.FileHeader
    return getattr(v, f[2:])
def floc(c, *fs):
    g = c.g; out = []
    for f in fs:
        l = nt(c.o.this).loc
        if f[0] == 'O': l = g.fld(c.st0, l, 'OptionalHeader')
        if f[0] == 'F': l = g.fld(c.st0, l, 'FileHeader')
        for part in f[2:].split('.'): l = g.fld(c.st0, l, part)
        out.append(l)
    return out
def fit(v, w): return v if v.size() == w else (ext(w - 1, 0, v) if v.size() > w else zext(v, w))
for n, f in GET.items():
    C('A05', PB + n, ensures=lambda c, f=f: [('returns the header field', c.ret == fit(fv(c.o.this, f), c.ret.size()))], opts={'nocall': True})
for n, f in SET.items():
    C('A05', PB + n, modifies=lambda c, f=f: floc(c, f), ensures=lambda c, f=f: [('writes the header field', fv(c.n.this, f) == fit(c.a(0), fv(c.o.this, f).size()))], opts={'nocall': True})
for k in ('heap', 'stack'):
    for w in ('commit', 'reserve'):
        C('A05', PB + 'get_%s_size_%s' % (k, w), modifies=lambda c: [c.locs[0]], ensures=lambda c, f='O.SizeOf%s%s' % (k.capitalize(), w.capitalize()): [('returns the header field', c.an(0) == fit(fv(c.o.this, f), c.an(0).size()))], opts={'nocall': True})
C('A05', PB + 'get_image_base', modifies=lambda c: [c.locs[0]], ensures=lambda c: [('returns the image base', c.an(0) == fit(fv(c.o.this, 'O.ImageBase'), c.an(0).size()))], opts={'nocall': True})
for p, fn in (('O.Major%sVersion', 0), ('O.Minor%sVersion', 1)): pass
for n, x in (('set_os_version', 'OperatingSystem'), ('set_subsystem_version', 'Subsystem')):
    C('A05', PB + n, modifies=lambda c, x=x: floc(c, 'O.Major%sVersion' % x, 'O.Minor%sVersion' % x),
      ensures=lambda c, x=x: [('writes major', fv(c.n.this, 'O.Major%sVersion' % x) == c.a(0)), ('writes minor', fv(c.n.this, 'O.Minor%sVersion' % x) == c.a(1))], opts={'nocall': True})
C('A05', PB + 'set_characteristics_flags', modifies=lambda c: floc(c, 'F.Characteristics'), ensures=lambda c: fv(c.n.this, 'F.Characteristics') == fv(c.o.this, 'F.Characteristics') | c.a(0), opts={'nocall': True})
C('A05', PB + 'clear_characteristics_flags', modifies=lambda c: floc(c, 'F.Characteristics'), ensures=lambda c: fv(c.n.this, 'F.Characteristics') == fv(c.o.this, 'F.Characteristics') & ~c.a(0), opts={'nocall': True})
C('A05', PB + 'check_characteristics_flag', ensures=lambda c: c.ret == ((fv(c.o.this, 'F.Characteristics') & c.a(0)) != 0), opts={'nocall': True})
C('A05', PB + 'is_console', ensures=lambda c: c.ret == (fv(c.o.this, 'O.Subsystem') == 3), opts={'nocall': True})
C('A05', PB + 'is_gui', ensures=lambda c: c.ret == (fv(c.o.this, 'O.Subsystem') == 2), opts={'nocall': True})
C('A05', PB + 'get_sizeof_nt_header', ensures=lambda c: c.ret == bv(248 if c.g.cfg == 32 else 264, 32), opts={'nocall': True})
C('A05', PB + 'get_sizeof_opt_headers', ensures=lambda c: c.ret == bv(224 if c.g.cfg == 32 else 240, 32), opts={'nocall': True})
C('A05', PB + 'get_pe_type', sel=dl(0), ensures=lambda c: c.ret == fit(bv(0 if c.g.cfg == 32 else 1), c.ret.size()), opts={'nocall': True})
C('A05 A07', PB + 'set_file_alignment', modifies=lambda c: floc(c, 'O.FileAlignment'),
  throws=lambda c: z3.Or(z3.ULT(c.a(0), bv(512, 32)), (c.a(0) & (c.a(0) - 1)) != 0, z3.UGT(c.a(0), salign(c.o.this))),
  ensures=lambda c: [('writes the header field', falign(c.n.this) == c.a(0))], opts={'nocall': True})
prop('A05')

# ---- data directory table
NDIR = lambda pe: opt(pe).NumberOfRvaAndSizes
def drva(pe, i): return opt(pe).DataDirectory[i].VirtualAddress
def dsz(pe, i): return opt(pe).DataDirectory[i].Size
def dreq(c): return [('directory count is at most sixteen', z3.ULE(NDIR(c.o.this), bv(16, 32)))]
def dloc(c, f, i=0):
    g = c.g; l = g.fld(c.st0, g.fld(c.st0, nt(c.o.this).loc, 'OptionalHeader'), 'DataDirectory')
    return g.fld(c.st0, g.elem(l, w64(c.a(i))), f)
def dexists(pe, i): return z3.And(z3.ULT(w64(i), w64(NDIR(pe))), drva(pe, w64(i)) != 0)
missing = lambda c: z3.UGE(c.a(0), NDIR(c.o.this))
C('A06', PB + 'directory_exists', requires=dreq, ensures=lambda c: [('present iff counted and its address is nonzero', c.ret == dexists(c.o.this, c.a(0)))], opts={'nocall': True})
C('A06', PB + 'get_directory_rva', requires=dreq, throws=missing, ensures=lambda c: c.ret == drva(c.o.this, w64(c.a(0))), opts={'nocall': True})
C('A06', PB + 'get_directory_size', requires=dreq, throws=missing, ensures=lambda c: c.ret == dsz(c.o.this, w64(c.a(0))), opts={'nocall': True})
C('A06', PB + 'set_directory_rva', requires=dreq, throws=missing, modifies=lambda c: [dloc(c, 'VirtualAddress')], ensures=lambda c: drva(c.n.this, w64(c.a(0))) == c.a(1), opts={'nocall': True})
C('A06', PB + 'set_directory_size', requires=dreq, throws=missing, modifies=lambda c: [dloc(c, 'Size')], ensures=lambda c: dsz(c.n.this, w64(c.a(0))) == c.a(1), opts={'nocall': True})
def rm_post(c):
    o, n = c.o.this, c.n.this; i = w64(c.a(0)); ex = dexists(o, c.a(0))
    ch = fv(o, 'F.Characteristics'); dc = fv(o, 'O.DllCharacteristics')
    return [('entry is cleared', z3.Implies(ex, z3.And(drva(n, i) == 0, dsz(n, i) == 0))), ('directory is gone', z3.Not(dexists(n, c.a(0)))),
            ('other entries are untouched', z3.And(*[z3.Implies(z3.Or(i != k, z3.Not(ex)), z3.And(drva(n, bv(k)) == drva(o, bv(k)), dsz(n, bv(k)) == dsz(o, bv(k)))) for k in range(16)])),
            ('relocations removed => marked stripped and not dynamic base; exports removed => no longer a DLL; otherwise flags unchanged',
             z3.And(fv(n, 'F.Characteristics') == z3.If(z3.And(ex, i == 5), ch | 1, z3.If(z3.And(ex, i == 0), ch & bv(0xdfff, 16), ch)), fv(n, 'O.DllCharacteristics') == z3.If(z3.And(ex, i == 5), dc & bv(0xffbf, 16), dc)))]
C('A06', PB + 'remove_directory', requires=dreq, modifies=lambda c: [dloc(c, 'VirtualAddress'), dloc(c, 'Size')] + floc(c, 'F.Characteristics', 'O.DllCharacteristics'), ensures=rm_post, opts={'nocall': True})
for n, i in {'has_imports': 1, 'has_exports': 0, 'has_resources': 2, 'has_security': 4, 'has_tls': 9, 'has_config': 10, 'has_bound_import': 11, 'has_delay_import': 13, 'is_dotnet': 14, 'has_exception_directory': 3, 'has_debug': 6}.items():
    C('A06', PB + n, requires=dreq, ensures=lambda c, i=i: [('present iff counted and its address is nonzero', c.ret == dexists(c.o.this, bv(i, 32)))], opts={'nocall': True})
C('A06', PB + 'has_reloc', requires=dreq, ensures=lambda c: [('relocations present and not marked stripped', c.ret == z3.And(dexists(c.o.this, bv(5, 32)), (fv(c.o.this, 'F.Characteristics') & 1) == 0))], opts={'nocall': True})
def strip_post(c):
    o, n = c.o.this, c.n.this; N = w64(NDIR(o)); M = w64(NDIR(n)); mc = w64(c.a(0))
    kept = lambda k: z3.And(drva(o, bv(k)) != 0, z3.Or(bv(k) != 12, z3.Not(c.a(1))))
    return [('count never grows', z3.ULE(M, N)), ('returned value is the new count', w64(c.ret) == M),
            ('only empty trailing entries are stripped (or the import address table when asked)', z3.And(*[z3.Implies(z3.And(z3.ULE(M, bv(k)), z3.ULT(bv(k), N)), z3.Not(kept(k))) for k in range(16)])),
            ('at least the minimum stays', z3.Or(M == N, z3.UGE(M, mc))),
            ('stops at the first entry that must stay', z3.Or(M == mc, M == 0, M == N, z3.Or(*[z3.And(M == k + 1, kept(k)) for k in range(16)])))]
C('A06', PB + 'strip_data_directories', requires=lambda c: dreq(c) + [('minimum is a sane count', z3.ULE(c.a(0), bv(0x7fffffff, 32)))], modifies=lambda c: floc(c, 'O.NumberOfRvaAndSizes'), ensures=strip_post, opts={'nocall': True, 'hist_n': {'strip_data_directories': 17}})
prop('A06')

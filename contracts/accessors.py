"""Accessors of the description classes: a getter returns its field, a setter stores its argument and changes nothing else.
The tables say which field each accessor stands for; the convention get_x / set_x -> x_ covers all but the listed exceptions."""
from common import *
NS = 'pe_bliss::'
def same_loc(a, b): return isinstance(a, Loc) and isinstance(b, Loc) and a.root == b.root and tuple(a.path) == tuple(b.path) and len(a.idxs) == len(b.idxs) and all(x is y or x.eq(y) for x, y in zip(a.idxs, b.idxs))
def deq(g, s1, l1, s2, l2, d=0):
    """equal values: containers by length and elements, records field by field"""
    if d == 0 and s1 is s2 and same_loc(l1, l2): return z3.BoolVal(True)
    t = l1.ty; e = g.container_elem(t)
    if e is not None:
        return and_(g.clen(s1, l1) == g.clen(s2, l2), forall(0, g.clen(s1, l1), lambda i: deq(g, s1, g.elem(l1, i), s2, g.elem(l2, i), d + 1), 'e%d' % d))
    if g.is_class(t) and not g.is_iter(t):
        r = []
        for sfx, srt in g.leaves(t):
            if '[]' in sfx or '.len' in sfx: r = None; break
        if r is not None: return and_(*[g.rdleaf(s1, l1, sfx, srt) == g.rdleaf(s2, l2, sfx, srt) for sfx, srt in g.leaves(t)])
        return and_(*[deq(g, s1, g.fld(s1, l1, n), s2, g.fld(s2, l2, n), d + 1) for n, ft, off, f in g.fields(t)])
    return g.load(s1, l1) == g.load(s2, l2)
def getter(f):
    def ens(c):
        g = c.g; fl = g.fld(c.st0, c.o.this.loc, f)
        if hasattr(c, 'retloc') and isinstance(c.retloc, Loc) and not (g.is_class(c.retloc.ty) is False):
            return [('returns the field ' + f, deq(g, c.st1, c.retloc, c.st0, fl))]
        v = g.load(c.st0, fl)
        if isF(c.ret) or z3.is_bool(c.ret): return [('returns the field ' + f, c.ret == v)]
        return [('returns the field ' + f, c.ret == fitv(v, c.ret))]
    return ens
def fitv(v, r):
    if v.sort() == r.sort(): return v
    w = r.size(); return ext(w - 1, 0, v) if v.size() > w else zext(v, w)
def setter(f, k=0):
    def ens(c):
        g = c.g; fl = g.fld(c.st1, c.n.this.loc, f); l = c.locs[k]
        if g.is_class(fl.ty): return [('stores the field ' + f, deq(g, c.st1, fl, c.st0, l))]
        a = c.a(k); v = g.load(c.st1, fl); return [('stores the field ' + f, v == fitv(a, v))]
    return ens
def smods(f): return lambda c: [c.g.fld(c.st0, c.o.this.loc, f)]
# class -> (property, exceptions name -> field, names that are something else)
T = {
 'tls_info': ('G01', {'get_raw_data_start_rva': 'start_rva_', 'get_raw_data_end_rva': 'end_rva_', 'set_raw_data_start_rva': 'start_rva_', 'set_raw_data_end_rva': 'end_rva_', 'get_tls_callbacks': 'callbacks_'}),
 'bound_import': ('I01', {'get_module_ref_list': 'refs_'}), 'bound_import_ref': ('I01', {}),
 'relocation_table': ('C01', {'get_relocations': 'relocations_'}), 'relocation_entry': ('C01', {}),
 'exception_entry': ('J01', {'get_size_of_prolog': 'size_of_prolog_', 'get_number_of_unwind_slots': 'count_of_codes_', 'get_frame_pointer_register_number': 'frame_register_', 'get_scaled_rsp_offset': 'scaled_rsp_offset_'}),
 'rich_data': ('L01', {}),
 'image_config_info': ('H01', {'get_se_handler_rvas': 'se_handlers_', 'get_lock_prefix_rvas': 'lock_prefixes_', 'get_service_pack_version': 'csd_version_', 'set_service_pack_version': 'csd_version_'}),
 'import_library': ('E01', {'get_imported_functions': 'imports_'}), 'imported_function': ('E01', {}),
 'import_rebuilder_settings': ('E01', {}),
 'exported_function': ('F01', {}), 'export_info': ('F01', {}),
 'pdb_2_0_info': ('K01', {}), 'pdb_7_0_info': ('K01', {}), 'misc_debug_info': ('K01', {'get_data_ansi': 'debug_data_ansi_', 'get_data_unicode': 'debug_data_unicode_'}), 'coff_debug_info': ('K01', {}), 'coff_debug_info::coff_symbol': ('K01', {}),
 'debug_info': ('K01', {'get_type_raw': 'type_'}),
 'message_table_item': ('N04', {'get_ansi_string': 'ansi_str_', 'get_unicode_string': 'unicode_str_'}), 'message_table': ('N04', {}),
 'file_version_info': ('N03', {}), 'resource_data_entry': ('M01', {}), 'resource_directory': ('M01', {'get_entry_list': 'entries_'}), 'resource_directory_entry': ('M01', {}),
 'resource_data_info': ('M02', {}), 'image_directory': ('A06', {}), 'section': ('', {}), 'basic_dotnet_info': ('L01', {}),
}
import re
SKIP = {'get_type', 'get_file_os', 'get_file_type', 'set_file_os', 'set_file_type'} | {'set_advanced_info_type', 'set_advanced_debug_info', 'get_advanced_debug_info'}   # not plain field accessors
UNMAPPED = []
def expand(p):
    """contracts for the accessors of the loaded program"""
    for cls, (prop_, ex) in T.items():
        if not prop_: continue
        r = p.records.get(NS + cls)
        if r is None: continue
        fields = {f['n'] for f in r['fields']}
        for f in list(p.funcs.values()):
            if f.get('lambda') or not f['qn'].startswith(NS + cls + '::') or 'params' not in f: continue
            n = f['qn'][len(NS + cls) + 2:]; m = re.match(r'(get|set|is|has)_(\w+)$', n)
            if not m or '::' in n: continue
            fl = ex.get(n) or (m.group(2) + '_' if m.group(1) in ('get', 'set') else n + '_')
            np = len(f['params']); st = m.group(1) == 'set'
            if n in SKIP or (cls, n) in SKIPM or fl not in fields or np != (1 if st else 0): UNMAPPED.append((cls, n, [x['t'] for x in f['params']])); continue
            key = f['key']
            C(prop_, f['qn'], sel=lambda x, k=key: x['key'] == k, cfgs=(32,), ensures=setter(fl) if st else getter(fl), modifies=smods(fl) if st else (), opts={'nocall': True})
EXPANDERS.append(expand)

# ---- accessors that are not a single plain field
def A(prop_, cls, n, ens, mods=(), sel=None, **kw): C(prop_, NS + cls + '::' + n, sel=sel, cfgs=(32,), ensures=ens, modifies=mods if not isinstance(mods, str) else (lambda c, m=mods: [c.g.fld(c.st0, c.o.this.loc, f) for f in m.split()]), opts={'nocall': True}, **kw)
def flagget(prop_, cls, n, field, mask, sub=None):
    def ens(c):
        v = c.o.this
        for f in field.split('.'): v = getattr(v, f)
        return [('true exactly when the flag is set', c.ret == ((v & mask) != 0))]
    A(prop_, cls, n, ens)
SETNAME = lambda fs: [('stores the name', None)]
def nameset(prop_, cls, n, name, *more):
    """stores a string and the stated companions"""
    def ens(c):
        g = c.g; r = [('stores the name', deq(g, c.st1, g.fld(c.st1, c.n.this.loc, name), c.st0, c.locs[0]))]
        for f, fn in more: r.append(('updates ' + f, getattr(c.n.this, f) == fn(c)))
        return r
    A(prop_, cls, n, ens, ' '.join([name] + [f for f, _ in more]))
nonempty = lambda c: c.a(0).len != 0
SKIPM = {('exported_function', 'set_name'), ('resource_directory_entry', 'set_name'), ('resource_directory_entry', 'set_id')}
nameset('F01', 'exported_function', 'set_name', 'name_', ('has_name_', nonempty))
nameset('F01', 'exported_function', 'set_forwarded_name', 'forward_name_', ('forward_', nonempty))
A('F01', 'exported_function', 'is_forwarded', getter('forward_')); A('F01', 'exported_function', 'get_forwarded_name', getter('forward_name_'))
for a, b in (('names', 'address_of_names_'), ('functions', 'address_of_functions_'), ('name_ordinals', 'address_of_name_ordinals_')):
    A('F01', 'export_info', 'get_rva_of_' + a, getter(b)); A('F01', 'export_info', 'set_rva_of_' + a, setter(b), b)
nameset('M01', 'resource_directory_entry', 'set_name', 'name_', ('named_', lambda c: z3.BoolVal(True)), ('id_', lambda c: bv(0, 32)))
A('M01', 'resource_directory_entry', 'set_id', lambda c: [('stores the id', c.n.this.id_ == c.a(0)), ('no longer named', z3.Not(c.n.this.named_)), ('name is empty', c.n.this.name_.len == 0)], 'id_ named_ name_')
A('M01', 'resource_directory_entry', 'is_named', getter('named_'))
A('E01', 'imported_function', 'has_name', lambda c: [('true exactly for a nonempty name', c.ret == (c.o.this.name_.len != 0))])
A('I01', 'bound_import', 'get_module_ref_count', lambda c: [('number of references', c.ret == c.o.this.refs_.len)])
A('H01', 'image_config_info', 'get_se_handler_count', getter('se_handler_count_'))
A('C01', 'relocation_entry', 'get_item', lambda c: [('type in the top four bits, offset below', c.ret == ((c.o.this.type_ << 12) | c.o.this.rva_))])
A('C01', 'relocation_entry', 'set_item', lambda c: [('type', c.n.this.type_ == z3.LShR(c.a(0), bv(12, 16))), ('offset', c.n.this.rva_ == (c.a(0) & 0xfff))], 'type_ rva_')
flagget('J01', 'exception_entry', 'has_exception_handler', 'flags_', 1); flagget('J01', 'exception_entry', 'has_termination_handler', 'flags_', 2); flagget('J01', 'exception_entry', 'is_chaininfo', 'flags_', 4)
A('J01', 'exception_entry', 'uses_frame_pointer', lambda c: [('true exactly for a nonzero register', c.ret == (c.o.this.frame_register_ != 0))])
for n, f in {'get_major_runtime_version': 'MajorRuntimeVersion', 'get_minor_runtime_version': 'MinorRuntimeVersion', 'get_rva_of_metadata': 'MetaData.VirtualAddress', 'get_size_of_metadata': 'MetaData.Size', 'get_flags': 'Flags', 'get_entry_point_rva_or_token': '#f5.EntryPointToken',
             'get_rva_of_resources': 'Resources.VirtualAddress', 'get_size_of_resources': 'Resources.Size', 'get_rva_of_strong_name_signature': 'StrongNameSignature.VirtualAddress', 'get_size_of_strong_name_signature': 'StrongNameSignature.Size',
             'get_rva_of_code_manager_table': 'CodeManagerTable.VirtualAddress', 'get_size_of_code_manager_table': 'CodeManagerTable.Size', 'get_rva_of_vtable_fixups': 'VTableFixups.VirtualAddress', 'get_size_of_vtable_fixups': 'VTableFixups.Size',
             'get_rva_of_export_address_table_jumps': 'ExportAddressTableJumps.VirtualAddress', 'get_size_of_export_address_table_jumps': 'ExportAddressTableJumps.Size', 'get_rva_of_managed_native_header': 'ManagedNativeHeader.VirtualAddress', 'get_size_of_managed_native_header': 'ManagedNativeHeader.Size'}.items():
    def ens(c, f=f):
        v = c.o.this.header_
        for x in f.split('.'): v = getattr(v, x)
        return [('returns the header field ' + f, c.ret == v)]
    A('L01', 'basic_dotnet_info', n, ens)
for n, m in {'is_native_entry_point': 0x10, 'is_32bit_required': 2, 'is_il_library': 4, 'is_il_only': 1}.items(): flagget('L01', 'basic_dotnet_info', n, 'header_.Flags', m)
VF = {'debug': 1, 'prerelease': 2, 'patched': 4, 'info_inferred': 0x10, 'private_build': 8, 'special_build': 0x20}
for n, m in VF.items():
    flagget('N03', 'file_version_info', 'is_' + n, 'file_flags_', m)
    A('N03', 'file_version_info', 'set_' + n, lambda c, m=m: [('changes exactly the flag', c.n.this.file_flags_ == z3.If(c.a(0), c.o.this.file_flags_ | m, c.o.this.file_flags_ & ~bv(m, 32)))], 'file_flags_')
A('N03', 'file_version_info', 'set_file_flag', lambda c: [('sets the bits', c.n.this.file_flags_ == c.o.this.file_flags_ | c.a(0))], 'file_flags_', sel=dl(1))
A('N03', 'file_version_info', 'clear_file_flag', lambda c: [('clears the bits', c.n.this.file_flags_ == c.o.this.file_flags_ & ~c.a(0))], 'file_flags_')
A('N03', 'file_version_info', 'set_file_flag', lambda c: [('sets or clears the bits', c.n.this.file_flags_ == z3.If(c.a(1), c.o.this.file_flags_ | c.a(0), c.o.this.file_flags_ & ~c.a(0)))], 'file_flags_', sel=dl(2))
for n, f in (('file_os_raw', 'file_os_'), ('file_type_raw', 'file_type_')):
    A('N03', 'file_version_info', 'get_' + n, getter(f)); A('N03', 'file_version_info', 'set_' + n, setter(f), f)
A('K01', 'debug_info', 'get_rva_of_raw_data', getter('address_of_raw_data_'))
A('K01', 'misc_debug_info', 'is_unicode', getter('unicode_'))
A('K01', 'misc_debug_info', 'is_exe_name', lambda c: [('data type one is an executable name', c.ret == (c.o.this.data_type_ == 1))])
A('K01', 'coff_debug_info::coff_symbol', 'get_symbol', getter('name_')); A('K01', 'coff_debug_info::coff_symbol', 'is_file', getter('is_filename_'))
nameset('K01', 'coff_debug_info::coff_symbol', 'set_file_name', 'name_', ('is_filename_', lambda c: z3.BoolVal(True)))
nameset('K01', 'coff_debug_info::coff_symbol', 'set_symbol_name', 'name_', ('is_filename_', lambda c: z3.BoolVal(False)))
A('N04', 'message_table_item', 'is_unicode', getter('unicode_'))
# ---- version numbers: recognised system and type codes map to their own names; unknown ones neither map nor store
OS = [0x10000, 0x20000, 0x30000, 0x40000, 0x50000, 1, 2, 3, 4, 0x10001, 0x10004, 0x20002, 0x30003, 0x40004]; FT = [1, 2, 3, 4, 5, 7]
def codes(tab, f, n):
    def lk(v, w, pairs, dflt):
        r = dflt
        for a, b in pairs: r = z3.If(v == a, b, r)
        return r
    A('N03', 'file_version_info', 'get_' + n, lambda c: [('the name of the code', c.ret == lk(getattr(c.o.this, f), 32, [(k, bv(i + 1, 32)) for i, k in enumerate(tab)], bv(0, 32)))])
    A('N03', 'file_version_info', 'set_' + n, lambda c: [('stores the code of the name', getattr(c.n.this, f) == lk(c.a(0), 32, [(i + 1, bv(k, 32)) for i, k in enumerate(tab)], getattr(c.o.this, f)))], f)
codes(OS, 'file_os_', 'file_os'); codes(FT, 'file_type_', 'file_type')
# ---- construction: a default-constructed description is all zero and empty; construction from a header structure copies every field
def scalars(g, st, loc, pre=''):
    for n, ft, off, f in g.fields(loc.ty):
        l = g.fld(st, loc, n)
        if g.container_elem(l.ty) is not None: yield pre + n, l, True
        elif g.is_class(l.ty):
            if g.is_iter(l.ty): continue
            lv = g.leaves(l.ty)
            if any('[]' in s or '.len' in s for s, _ in lv): yield from scalars(g, st, l, pre + n + '.')
            else:
                for s, srt in lv: yield pre + n + str(s), (l, s, srt), None
        else: yield pre + n, l, False
def is0(v): return z3.Not(v) if z3.is_bool(v) else v == 0
def allzero(c, but=()):
    g = c.g; out = []
    for n, l, k in scalars(g, c.st1, c.n.this.loc):
        if n in but: continue
        if k is True and g.T(l.ty)['k'] == 'arr': out.append((n + ' is all zero', forall(0, g.clen(c.st1, l), lambda i: g.load(c.st1, g.elem(l, i)) == 0)))
        elif k is True: out.append((n + ' is empty', g.clen(c.st1, l) == 0))
        elif k is False:
            try: v = g.load(c.st1, l)
            except Exception: continue
            if isF(v) or z3.is_bool(v) or z3.is_bv(v): out.append((n + ' is zero', is0(v)))
        else: out.append((n + ' is zero', is0(g.rdleaf(c.st1, *l))))
    return out
def this_all(c): return [c.o.this.loc]
def ctor(prop_, cls, sel0, ens):
    sel = lambda f: not f.get('defaulted') and sel0(f) and not (f['params'] and f['params'][0]['t'].replace('const ', '').rstrip('& ') == NS + cls)
    C(prop_, NS + cls + '::#ctor', sel=sel, cfgs=(32,), ensures=ens, modifies=this_all, opts={'nocall': True})
NOARG = dl(0)
for cls_, pr in (('tls_info', 'G01'), ('bound_import', 'I01'), ('bound_import_ref', 'I01'), ('relocation_table', 'C01'), ('relocation_entry', 'C01'), ('exception_entry', 'J01'), ('rich_data', 'L01'), ('basic_dotnet_info', 'L01'),
                 ('image_config_info', 'H01'), ('import_library', 'E01'), ('imported_function', 'E01'), ('exported_function', 'F01'), ('export_info', 'F01'), ('pdb_2_0_info', 'K01'), ('pdb_7_0_info', 'K01'), ('misc_debug_info', 'K01'),
                 ('coff_debug_info', 'K01'), ('coff_debug_info::coff_symbol', 'K01'), ('debug_info', 'K01'), ('message_table_item', 'N04'), ('file_version_info', 'N03'), ('resource_data_entry', 'M01'), ('resource_directory', 'M01'),
                 ('resource_directory_entry', 'M01'), ('image_directory', 'A06')):
    ctor(pr, cls_, NOARG, lambda c: allzero(c, ('ptr_', 'advanced_debug_info_')))
def copies(pr, cls_, par, m, **kw):
    """constructor from structure par: field <- member"""
    def ens(c):
        r = []
        for f, s in m.items():
            v = c.a(0) if kw.get('two') is None or not s.startswith('1:') else c.a(1)
            for x in s.replace('1:', '').split('.'): v = getattr(v, x)
            d = getattr(c.n.this, f); r.append((f + ' is taken from ' + s, d == fitv(v, d)))
        for f in kw.get('zero', ()):
            d = getattr(c.n.this, f); r.append((f + ' starts at zero or empty', (is0(d) if isF(d) or z3.is_bv(d) or z3.is_bool(d) else d.len == 0)))
        return r
    ctor(pr, cls_, lambda f: bool(f['params']) and par in f['params'][0]['t'], ens)
copies('N03', 'file_version_info', 'vs_fixedfileinfo', dict(file_version_ms_='dwFileVersionMS', file_version_ls_='dwFileVersionLS', product_version_ms_='dwProductVersionMS', product_version_ls_='dwProductVersionLS', file_flags_='dwFileFlags', file_os_='dwFileOS', file_type_='dwFileType', file_subtype_='dwFileSubtype', file_date_ms_='dwFileDateMS', file_date_ls_='dwFileDateLS'))
copies('K01', 'debug_info', 'image_debug_directory', dict(characteristics_='Characteristics', time_stamp_='TimeDateStamp', major_version_='MajorVersion', minor_version_='MinorVersion', type_='Type', size_of_data_='SizeOfData', address_of_raw_data_='AddressOfRawData', pointer_to_raw_data_='PointerToRawData'), zero=['advanced_info_type_'])
copies('M01', 'resource_directory', 'image_resource_directory', dict(characteristics_='Characteristics', timestamp_='TimeDateStamp', major_version_='MajorVersion', minor_version_='MinorVersion'), zero=['number_of_named_entries_', 'number_of_id_entries_', 'entries_'])
IC = dict(time_stamp_='TimeDateStamp', major_version_='MajorVersion', minor_version_='MinorVersion', global_flags_clear_='GlobalFlagsClear', global_flags_set_='GlobalFlagsSet', critical_section_default_timeout_='CriticalSectionDefaultTimeout', decommit_free_block_threshold_='DeCommitFreeBlockThreshold', decommit_total_free_threshold_='DeCommitTotalFreeThreshold', lock_prefix_table_va_='LockPrefixTable', max_allocation_size_='MaximumAllocationSize', virtual_memory_threshold_='VirtualMemoryThreshold', process_affinity_mask_='ProcessAffinityMask', process_heap_flags_='ProcessHeapFlags', service_pack_version_='CSDVersion', edit_list_va_='EditList', security_cookie_va_='SecurityCookie', se_handler_table_va_='SEHandlerTable', se_handler_count_='SEHandlerCount')
for w in ('32', '64'): copies('H01', 'image_config_info', 'image_load_config_directory' + w, IC, zero=['se_handlers_', 'lock_prefixes_'])
copies('J01', 'exception_entry', 'image_runtime_function_entry', dict(begin_address_='BeginAddress', end_address_='EndAddress', unwind_info_address_='UnwindInfoAddress'))
ctor('A06', 'image_directory', dl(2), lambda c: [('address', c.n.this.rva_ == c.a(0)), ('size', c.n.this.size_ == c.a(1))])
ctor('C01', 'relocation_entry', dl(1), lambda c: [('type is the top four bits', c.n.this.type_ == z3.LShR(c.a(0), bv(12, 16))), ('offset is the rest', c.n.this.rva_ == (c.a(0) & 0xfff))])
ctor('C01', 'relocation_entry', dl(2), lambda c: [('offset', c.n.this.rva_ == c.a(0)), ('type', c.n.this.type_ == c.a(1))])
ctor('C01', 'relocation_table', dl(1), lambda c: [('address', c.n.this.rva_ == c.a(0)), ('no entries', c.n.this.relocations_.len == 0)])
for cls_ in ('bound_import', 'bound_import_ref'):
    ctor('I01', cls_, dl(2), lambda c, k=cls_: [('name', deq(c.g, c.st1, c.g.fld(c.st1, c.n.this.loc, 'module_name_'), c.st0, c.locs[0])), ('timestamp', c.n.this.timestamp_ == c.a(1))] + ([('no references', c.n.this.refs_.len == 0)] if k == 'bound_import' else []))
ctor('M01', 'resource_data_entry', dl(2), lambda c: [('data', deq(c.g, c.st1, c.g.fld(c.st1, c.n.this.loc, 'data_'), c.st0, c.locs[0])), ('codepage', c.n.this.codepage_ == c.a(1))])
ctor('M02', 'resource_data_info', dl(2), lambda c: [('data', deq(c.g, c.st1, c.g.fld(c.st1, c.n.this.loc, 'data_'), c.st0, c.locs[0])), ('codepage', c.n.this.codepage_ == c.a(1))])
ctor('M02', 'resource_data_info', dl(1), lambda c: [('data', deq(c.g, c.st1, c.g.fld(c.st1, c.n.this.loc, 'data_'), c.st0, c.g.fld(c.st0, c.locs[0], 'data_'))), ('codepage', c.n.this.codepage_ == c.a(0).codepage_)])
ctor('E01', 'import_rebuilder_settings', dl(2), lambda c: [('defaults', z3.And(c.n.this.offset_from_section_start_ == 0, c.n.this.build_original_iat_, c.n.this.save_iat_and_original_iat_rvas_, z3.Not(c.n.this.fill_missing_original_iats_), z3.Not(c.n.this.rewrite_iat_and_original_iat_contents_), c.n.this.auto_strip_last_section_)), ('header update as asked', c.n.this.set_to_pe_headers_ == c.a(0)), ('table reset as asked', c.n.this.zero_directory_entry_iat_ == c.a(1))])
# ---- element lists: adding appends one equal element and keeps the others; clearing empties the list
def adder(pr, cls_, n, f, more=()):
    def ens(c):
        g = c.g; l0 = g.fld(c.st0, c.o.this.loc, f); l1 = g.fld(c.st1, c.n.this.loc, f); n0 = g.clen(c.st0, l0); a = c.locs[0]
        new = g.elem(l1, n0)
        eq = deq(g, c.st1, new, c.st0, a, 1) if g.is_class(new.ty) else g.load(c.st1, new) == c.a(0)
        r = [('one more element', g.clen(c.st1, l1) == n0 + 1), ('the last element is the argument', eq), ('the others are kept', forall(0, n0, lambda i: deq(g, c.st1, g.elem(l1, i), c.st0, g.elem(l0, i), 1), 'i'))]
        return r + [(x, fn(c)) for x, fn in more]
    A(pr, cls_, n, ens, None if False else (lambda c: [c.g.fld(c.st0, c.o.this.loc, x) for x in [f] + [m[0] for m in more]]))
def clearer(pr, cls_, n, f, *more):
    A(pr, cls_, n, lambda c: [('the list is empty', c.g.clen(c.st1, c.g.fld(c.st1, c.n.this.loc, f)) == 0)] + [(m + ' is zero', getattr(c.n.this, m) == 0) for m in more], ' '.join((f,) + more))
adder('G01', 'tls_info', 'add_tls_callback', 'callbacks_'); clearer('G01', 'tls_info', 'clear_tls_callbacks', 'callbacks_')
adder('I01', 'bound_import', 'add_module_ref', 'refs_'); clearer('I01', 'bound_import', 'clear_module_refs', 'refs_')
adder('C01', 'relocation_table', 'add_relocation', 'relocations_')
adder('H01', 'image_config_info', 'add_se_handler_rva', 'se_handlers_'); clearer('H01', 'image_config_info', 'clear_se_handler_list', 'se_handlers_')
adder('H01', 'image_config_info', 'add_lock_prefix_rva', 'lock_prefixes_'); clearer('H01', 'image_config_info', 'clear_lock_prefix_list', 'lock_prefixes_')
adder('E01', 'import_library', 'add_import', 'imports_'); clearer('E01', 'import_library', 'clear_imports', 'imports_')
adder('K01', 'coff_debug_info', 'add_symbol', 'symbols_')
clearer('M01', 'resource_directory', 'clear_resource_directory_entry_list', 'entries_', 'number_of_named_entries_', 'number_of_id_entries_')

"""Writes properties.jsonl and MANIFEST.json (kept in step with the contracts that exist)."""
import json, os, sys
V = os.path.dirname(os.path.abspath(__file__)); sys.path[:0] = [os.path.join(V, 'engine'), os.path.join(V, 'contracts')]
P = []
L = 'src/pe_lib/'
def p(id, title, statement, over, text, why, files, mech, observe, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=[L + f for f in files.split()], mech=[dict(name=a, where=L + b) for a, b in mech], observe=observe, na=na))
I = ['inputs']; IC = ['inputs', 'configurations']; IH = ['inputs', 'histories']; IP = ['inputs', 'programs']
p('A01', 'Virtual addresses and RVAs convert exactly and never wrap', 'Converting a virtual address to a relative one and back returns the starting address, for every image base of both image kinds. With bounds checking, an address below the image base or more than 32 bits above it is refused instead of wrapping; the 32-bit form, for 32-bit images, refuses results that do not fit.', I, 'every address, image base and image kind', 'tests convert a handful of addresses of one sample image per kind; wrap-around needs particular base/address pairs', 'pe_base.cpp pe_properties_generic.cpp', [('va/rva conversion', 'pe_properties_generic.cpp'), ('dispatch', 'pe_base.cpp')], ['return value or exception of the conversion functions'])
p('A02', 'Address lookup finds the right section and file offset', 'Looking up an RVA, virtual address or file offset yields the first section whose mapped (or raw) range contains it, and the offset inside it; otherwise the documented exception is raised. Mapping an RVA to a file offset and back is consistent with the section headers and their rounding.', I, 'every section table (count, addresses, sizes, alignments) and every address', 'tests use a few addresses in a two to five section sample; boundaries, zero virtual sizes and overlapping or unsorted tables are not reached', 'pe_base.cpp pe_section.cpp', [('section lookup', 'pe_base.cpp'), ('section predicates and offset conversion', 'pe_section.cpp')], ['returned section, offset or exception'])
p('A03', 'Bounded access to section data', 'Reading a value at an address returns exactly the bytes of the headers or section there, with zeros beyond the raw data in the virtual view, and is refused unless all bytes lie inside the requested view. Lengths reported from an address are exactly the bytes that remain, and pointers handed out never lie beyond the end of the data.', I, 'every image, address, value size and view (raw, virtual, headers)', 'tests read at valid addresses of sample images; the last bytes of a section, wrap-around and truncated raw data are not reached', 'pe_base.h pe_base.cpp pe_section.cpp', [('typed reads', 'pe_base.h'), ('lengths and pointers', 'pe_base.cpp')], ['returned value, length, pointer or exception'])
p('A04', 'Section objects keep their data, name and flags intact', 'Switching a section between its raw and virtual view never changes the raw data: the virtual view is the raw data followed by zeros up to the aligned virtual size. Setting the name keeps its first eight bytes zero padded, and setting one attribute flag changes no other bit.', IH, 'every raw content, size, alignment, name and order of view switches', 'tests check one section with short data', 'pe_section.cpp', [('mapping and unmapping', 'pe_section.cpp'), ('name and flags', 'pe_section.cpp')], ['raw and virtual data, name, flags of a section'])
p('A05', 'Header accessors read and write their own field only', 'Every header getter returns the value of its field, for 32-bit and 64-bit images alike, widened without change; every setter stores the value given (truncated to the field width) and changes nothing else. File alignment is accepted only if it is a power of two, at least 512 and not above the section alignment.', IC, 'every header content and value, PE32 and PE32+', 'tests set and read each field once with one value; a swapped or widened field needs particular other content to show', 'pe_properties_generic.cpp pe_base.cpp', [('accessors', 'pe_properties_generic.cpp'), ('dispatch', 'pe_base.cpp')], ['header bytes after a set; value of a get'])
p('A06', 'Data directory table operations', 'A directory exists exactly if its index is below the directory count and its address is nonzero; access beyond the count is refused. Removing one clears only its entry (and only the image flags that go with it), and stripping trailing directories never drops a present directory or goes below the minimum asked for.', I, 'every directory table, index and count up to sixteen', 'tests use the directory tables of sample images', 'pe_properties_generic.cpp pe_base.cpp', [('directory table', 'pe_properties_generic.cpp')], ['directory table and flags after the call'])
p('A07', 'Section table and image size stay consistent when edited', 'Adding, resizing, expanding, recalculating or realigning sections keeps addresses aligned and non-overlapping, raw sizes aligned to the data, the header section count equal to the number of sections and the image size equal to the end of the last section. Data already in a section is never altered: only zero bytes at its end are added or dropped. Sections other than the last cannot be grown.', IH, 'every section table, alignment pair, data size and order of edits', 'tests add a few sections of fixed sizes', 'pe_base.cpp pe_section.cpp', [('add and prepare', 'pe_base.cpp'), ('resize, expand, realign', 'pe_base.cpp')], ['section headers, data and image size after the call'])
p('B01', 'The loader refuses every malformed image', 'Loading a byte stream either yields an image whose headers satisfy the documented consistency rules (signatures, magic, sizes, alignments, section ranges inside the file) or raises the exception documented for the rule broken. It never crashes, never reads outside the stream or hangs, whatever the bytes.', I, 'every byte stream', 'tests feed a dozen broken files; each rule has boundary values and combinations they miss', 'pe_base.cpp pe_factory.cpp pe_properties_generic.cpp', [('header and section validation', 'pe_base.cpp'), ('kind detection', 'pe_factory.cpp')], ['exception or image from loading'])
p('B02', 'A loaded image holds exactly the bytes of the file', 'After a successful load, headers, stub overlay, every section\'s raw data and debug data equal the file bytes at the offsets the headers name, for images loaded from a file layout; the overlay flag is set exactly if some section has raw data and bytes follow the last section\'s data.', I, 'every loadable byte stream', 'tests compare a few fields of sample images', 'pe_base.cpp', [('section reading', 'pe_base.cpp')], ['contents of the loaded image'])
p('B03', 'Image kind detection leaves the stream as it found it', 'Asking for the kind of an image in a stream answers 32-bit or 64-bit from the optional header magic alone or raises the documented exception; for a stream in good state, read position, error state and exception mask are afterwards as before. The loader built on it always constructs the matching image kind.', I, 'every stream content, position, state and exception mask', 'tests check two sample images', 'pe_base.cpp pe_factory.cpp', [('kind detection', 'pe_base.cpp'), ('factory', 'pe_factory.cpp')], ['returned kind and stream state'])
p('B04', 'A rebuilt file is exactly what its headers describe', 'Writing an image produces headers and section data at the offsets the written headers name, each section\'s bytes exactly, padding zero, sections in order without overlap and aligned; an image written and loaded again has the same sections and headers, and writing changes no section data, name or address of the image (its headers are updated to those written).', IP, 'every image built or loaded, every rebuild option', 'tests rebuild sample images and reload them', 'pe_rebuilder.cpp', [('header recalculation', 'pe_rebuilder.cpp'), ('emission', 'pe_rebuilder.cpp')], ['bytes written; image loaded again'])
p('C01', 'Relocation tables decode and encode exactly', 'Reading relocations returns exactly the entries of the relocation blocks in order and refuses malformed blocks (those starting inside the directory whose size is odd, below the header or runs outside the section); rebuilding relocations emits, for every table given with offsets of 12 and types of 4 bits, blocks with correct sizes, page addresses and padding so that reading them back returns the same entries.', I, 'every relocation directory content and every table list', 'tests use one or two tables', 'pe_relocations.cpp', [('reader', 'pe_relocations.cpp'), ('rebuilder', 'pe_relocations.cpp')], ['table list; emitted directory bytes'])
p('C02', 'Rebasing adds the base difference exactly at the relocated places', 'Rebasing an image to a new base adds the difference of the bases to every relocated value according to its entry type (high half, low half, 32-bit and 64-bit; padding entries change nothing), changes no other byte, and stores the new base; entries outside section data or of other types are refused. Rebasing back restores the original bytes when the entries do not overlap (and, for lone high halves, the difference is a multiple of 64 KiB).', I, 'every image, table list, entry type and pair of bases', 'tests rebase one image by one difference', 'pe_relocations.cpp pe_properties_generic.cpp', [('rebase', 'pe_relocations.cpp')], ['section bytes and image base after rebase'])
p('D01', 'File checksum is the standard PE checksum', 'The checksum of a stream equals the documented PE checksum: the folded sum of its 16/32-bit words with the stored checksum field skipped, odd tail included, plus the length; the stream position, state and exception mask are restored and malformed headers are refused.', I, 'every byte stream and length', 'tests compare three sample files; carries, odd lengths and the field straddling are not reached', 'pe_checksum.cpp', [('checksum', 'pe_checksum.cpp')], ['returned checksum; stream state'])
p('D02', 'Utility functions match their definitions', 'Rounding helpers return the nearest multiple in the documented direction, power-of-two tests are exact (zero counts as one), bounded string tests find a terminator only inside the bound, and string format conversions keep every code unit.', I, 'every value, alignment and buffer', 'tests try a few values', 'utils.h utils.cpp', [('utilities', 'utils.h'), ('strings', 'utils.cpp')], ['return values'])
p('D03', 'Entropy of data is its Shannon entropy', 'The entropy reported for a buffer, stream or section equals the Shannon entropy of its byte distribution and lies between zero and eight bits.', I, 'every buffer', 'tests compare three samples', 'entropy.cpp', [('entropy', 'entropy.cpp')], ['returned value'], na='floating-point logarithms are outside the deductive verifier (the family is silent on floating point); the byte counting it rests on is covered by no integer postcondition visible to a caller')
p('E01', 'Import directory is read and rebuilt faithfully', 'Reading imports returns every library and function of the import directory (names, hints, ordinals, addresses, bound flags) for both image kinds and refuses tables running outside their section; rebuilding imports writes tables that read back as the same libraries and functions, with both thunk arrays terminated and inside the chosen section. (An address table built next to an original one holds the nonzero addresses given; names of a bound library are only kept together with its original table.)', IC, 'every import directory and every import list, PE32 and PE32+', 'tests read and rebuild one import table', 'pe_imports.cpp pe_imports.h', [('reader', 'pe_imports.cpp'), ('rebuilder', 'pe_imports.cpp')], ['import list; emitted bytes'])
p('F01', 'Export directory is read and rebuilt faithfully', 'Reading exports returns every exported function once with its ordinal, name, forwarding (named or not) or address and refuses malformed tables; rebuilding exports writes sorted name tables and address tables that read back as the same functions. Ordinal limits and duplicate checks answer exactly.', IC, 'every export directory and function list', 'tests read and rebuild one export table', 'pe_exports.cpp', [('reader', 'pe_exports.cpp'), ('rebuilder', 'pe_exports.cpp')], ['export list; emitted bytes'])
p('G01', 'TLS directory is read and rebuilt faithfully', 'Reading the TLS directory returns its addresses as RVAs, the raw template bytes of exactly the stated length and the callbacks up to the terminator; rebuilding writes a directory that reads back the same (template data beyond the raw data of its section is not stored) and never reads beyond the data given.', IC, 'every TLS directory and TLS description, PE32 and PE32+', 'tests use one TLS directory per kind', 'pe_tls.cpp', [('reader', 'pe_tls.cpp'), ('rebuilder', 'pe_tls.cpp')], ['TLS description; emitted bytes'])
p('H01', 'Load configuration is read and rebuilt faithfully', 'Reading the load configuration returns every field, handler and lock-prefix entry and refuses tables that cannot be read; rebuilding writes a directory that reads back the same.', IC, 'every load configuration, PE32 and PE32+', 'tests use one directory per kind', 'pe_load_config.cpp', [('reader', 'pe_load_config.cpp'), ('rebuilder', 'pe_load_config.cpp')], ['configuration; emitted bytes'])
p('I01', 'Bound import directory is read and rebuilt faithfully', 'Reading bound imports returns every module with its timestamp and forwarder references and refuses name offsets outside the data holding the directory; rebuilding writes a directory that reads back as the same list.', I, 'every bound import directory and list', 'tests use one list', 'pe_bound_import.cpp', [('reader', 'pe_bound_import.cpp'), ('rebuilder', 'pe_bound_import.cpp')], ['module list; emitted bytes'])
p('J01', 'Exception directory entries are read exactly', 'Reading the exception directory returns one entry per runtime function record, with begin, end, unwind address, flags, registers, scaled frame offset, prolog size and unwind code count as encoded, and nothing past the terminating record or the directory.', I, 'every exception directory', 'tests read one image', 'pe_exception_directory.cpp', [('reader', 'pe_exception_directory.cpp')], ['entry list'])
p('K01', 'Debug directory is read exactly', 'Reading the debug directory returns one description per entry starting inside the directory with its header fields; recognised payloads (program database 2.0 and 7.0, miscellaneous, symbols) are decoded from exactly their bytes and malformed ones refused.', I, 'every debug directory', 'tests read two images', 'pe_debug.cpp', [('reader', 'pe_debug.cpp')], ['debug description list'])
p('L01', '.NET header and Rich data are read exactly', 'The .NET header is returned exactly as stored. Rich data of the DOS stub is decoded into its number, version and times records in order, an absent or malformed marker yields an empty list, and nothing outside the stub is read.', I, 'every directory content and every DOS stub', 'tests read sample images', 'pe_dotnet.cpp pe_rich_data.cpp', [('.NET header', 'pe_dotnet.cpp'), ('rich data', 'pe_rich_data.cpp')], ['header; record list'])
p('M01', 'Resource directory is read and rebuilt faithfully', 'Reading resources returns the whole tree of directories, names, ids and data entries of a resource section (nested up to 256 deep) and refuses malformed, cyclic or deeper trees; rebuilding writes a tree that reads back identical (ids have 16 bits), with names before ids in each directory.', I, 'every resource tree', 'tests read and rebuild one tree', 'pe_resources.cpp', [('reader', 'pe_resources.cpp'), ('rebuilder', 'pe_resources.cpp')], ['resource tree; emitted bytes'])
p('M02', 'Resource lookups and edits act on exactly the resource named', 'Listing, counting and fetching resources by type, name or id, language or index agree with the tree; adding, replacing or removing a resource changes that resource only.', IH, 'every tree and sequence of operations', 'tests edit a small tree once', 'pe_resource_viewer.cpp pe_resource_manager.cpp', [('viewer', 'pe_resource_viewer.cpp'), ('manager', 'pe_resource_manager.cpp')], ['lookup results; tree after an edit'])
p('N01', 'Bitmaps convert between resource and file form', 'Reading a bitmap resource yields a bitmap file whose file header gives the total size and a pixel offset behind the 40-byte bitmap header and its colour table, and whose remaining bytes are the resource; storing a bitmap file keeps everything behind its file header, and files or resources shorter than their headers are refused.', I, 'every bitmap header and data', 'tests use one bitmap', 'resource_bitmap_reader.cpp resource_bitmap_writer.cpp', [('reader', 'resource_bitmap_reader.cpp'), ('writer', 'resource_bitmap_writer.cpp')], ['file bytes; stored resource'])
p('N02', 'Icons and cursors convert between resource and file form', 'Reading an icon or cursor group yields a file whose directory and images are exactly those of the resources it names (of the group\'s language, or by index), with consistent offsets; storing such a file under free 16-bit ids and reading it back returns the same file, and removing a group removes exactly its images of that language. Malformed groups and files are refused without reading outside them.', I, 'every icon/cursor file and group, placement option and language', 'tests use one icon and one cursor', 'resource_cursor_icon_reader.cpp resource_cursor_icon_writer.cpp', [('reader', 'resource_cursor_icon_reader.cpp'), ('writer', 'resource_cursor_icon_writer.cpp')], ['file bytes; resource tree'])
p('N03', 'Version information is read and written faithfully', 'Reading version information returns the fixed numbers, string tables and translations stored; writing and reading it back returns the same values (strings without NUL characters; blocks longer than 64 KiB are refused), malformed blocks are refused without reading outside them, and viewing or editing properties and translations acts on exactly the ones named.', I, 'every version block and value', 'tests use one block', 'resource_version_info_reader.cpp resource_version_info_writer.cpp version_info_editor.cpp version_info_viewer.cpp file_version_info.cpp', [('reader', 'resource_version_info_reader.cpp'), ('writer', 'resource_version_info_writer.cpp')], ['version values; stored block'])
p('N04', 'String and message tables are read exactly', 'A string of a string table is returned exactly with the id it has by block and position; a message of a message table is returned exactly with its id and encoding. Lookups of absent ids and malformed tables are refused without reading outside the resource.', I, 'every string table and message table resource', 'tests read one of each', 'resource_string_table_reader.cpp resource_message_list_reader.cpp message_table.cpp', [('string table', 'resource_string_table_reader.cpp'), ('message table', 'resource_message_list_reader.cpp')], ['strings and messages; exceptions'])

TECH = 'contracts on the real functions, discharged by a deductive verifier (VCs from clang AST; z3/cvc5)'
def main():
    import check
    common = check.load_contracts()
    claimed = {x['id']: common.PROPS[x['id']] for x in P if x['id'] in common.PROPS}
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for x in P:
            f.write(json.dumps({'id': x['id'], 'title': x['title'], 'statement': x['statement'], 'quantifier': {'over': x['over'], 'text': x['text']}, 'why_tests_cant': x['why'],
                                'anchors': {'files': x['files'], 'mechanism': x['mech'], 'observe_at': x['observe']}}) + '\n')
    checks = []; na = []
    for x in P:
        i = x['id']
        if i in claimed:
            m = claimed[i]; b = m.get('bounded', []); lvl = m.get('level', 'proof')
            note = m.get('note', '') or ('all contracts of the functions listed in the evidence are discharged for all inputs' if lvl == 'proof' and not b else 'functions listed as proved in the evidence are discharged for all inputs; the others are covered by bounded stand-ins (labelled bounded, not proved)')
            checks.append({'property': i, 'quick_cmd': 'python3-vt engine/check.py %s quick' % i, 'thorough_cmd': 'python3-vt engine/check.py %s thorough' % i, 'technique': TECH + ('; bounded stand-in where out of reach' if b else ''), 'level': lvl, 'level_note': note})
        else: na.append({'property': i, 'reason': x['na'] or 'contracts for these functions are not built yet'})
    json.dump({'version': 1, 'setup_cmd': 'python3-vt engine/prog.py', 'checks': checks, 'not_applicable': na,
               'notes': 'No hooks are used. See DESIGN.md.'}, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
    try:
        import jsonschema
        jsonschema.validate(json.load(open(os.path.join(V, 'MANIFEST.json'))), json.load(open('/root/.vp/MANIFEST.schema.json')))
        for l in open(os.path.join(V, 'properties.jsonl')): jsonschema.validate(json.loads(l), json.load(open('/root/.vp/PROPERTIES.schema.json')))
    except FileNotFoundError: pass
    print('%d properties, %d claimed: %s; n/a: %s' % (len(P), len(checks), ' '.join(c['property'] for c in checks), ' '.join(n['property'] for n in na)))
if __name__ == '__main__': main()

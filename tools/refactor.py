#!/usr/bin/env python3
"""refactor.py [NAME..]: behaviour-preserving edits of /repo, each in a scratch copy; the checks named must stay quiet (and mostly still proved)."""
import sys, os, subprocess, shutil, concurrent.futures as cf
PB, SE, PG, RB, UT, CK = 'pe_base.cpp', 'pe_section.cpp', 'pe_properties_generic.cpp', 'pe_rebuilder.cpp', 'utils.h', 'pe_checksum.cpp'
R = [
('lookup-index', 'A02 A03', [(PB, '''    for(section_list::const_iterator i = sections_.begin(); i != sections_.end(); ++i)
    {
        const section& s = *i;
        //Return section if found
        if(rva >= s''', '''    for(std::size_t k = 0; k < sections_.size(); ++k)
    {
        const section& s = sections_[k];
        //Return section if found
        if(rva >= s''')]),
('lookup-while', 'A02 A07', [(PB, '''    for(section_list::iterator i = sections_.begin(); i != sections_.end(); ++i)
    {
        section& s = *i;
        //Return section if found
        if(rva >= s.get_virtual_address() && rva < s.get_virtual_address() + s.get_aligned_virtual_size(get_section_alignment()))
            return s;
    }
''', '''    section_list::iterator i = sections_.begin();
    const uint32_t alignment = get_section_alignment();
    while(i != sections_.end())
    {
        const uint32_t first = i->get_virtual_address(), size = i->get_aligned_virtual_size(alignment);
        if(rva >= first && rva < first + size)
            return *i;
        ++i;
    }
''')]),
('lookup-helper', 'A02 A03', [(PB, '''//Returns section from RVA
const section& pe_base::section_from_rva(uint32_t rva) const
{''', '''static bool covers(const section& s, uint32_t rva, uint32_t alignment)
{
    uint32_t start = s.get_virtual_address();
    return !(rva < start) && rva < start + s.get_aligned_virtual_size(alignment);
}

//Returns section from RVA
const section& pe_base::section_from_rva(uint32_t rva) const
{'''), (PB, '''        const section& s = *i;
        //Return section if found
        if(rva >= s.get_virtual_address() && rva < s.get_virtual_address() + s.get_aligned_virtual_size(get_section_alignment()))
            return s;''', '''        if(covers(*i, rva, get_section_alignment()))
            return *i;''')]),
('findif-loop', 'A02', [(PB, '''    section_list::const_iterator it = std::find_if(sections_.begin(), sections_.end(), section_by_raw_offset(offset));
    if(it == sections_.end())
        throw''', '''    section_list::const_iterator it = sections_.begin();
    section_by_raw_offset finder(offset);
    while(it != sections_.end() && !finder(*it))
        ++it;
    if(it == sections_.end())
        throw''')]),
('strip-while', 'A06', [(PG, '''    int i = nt_headers_.OptionalHeader.NumberOfRvaAndSizes - 1;

    //Enumerate all data directories from the end
    for(; i >= 0; i--)
    {
        //If directory exists, break
        if(nt_headers_.OptionalHeader.DataDirectory[i].VirtualAddress && (static_cast<uint32_t>(i) != image_directory_entry_iat || !strip_iat_directory))
            break;

        if(i <= static_cast<int>(min_count) - 1)
            break;
    }
''', '''    int i = static_cast<int>(nt_headers_.OptionalHeader.NumberOfRvaAndSizes) - 1;
    while(i >= 0 && !(i <= static_cast<int>(min_count) - 1))
    {
        const bool present = nt_headers_.OptionalHeader.DataDirectory[i].VirtualAddress != 0;
        if(present && !(strip_iat_directory && static_cast<uint32_t>(i) == image_directory_entry_iat))
            break;
        --i;
    }
''')]),
('dir-helper', 'A06', [(PG, '''    //Check if directory exists
    if(nt_headers_.OptionalHeader.NumberOfRvaAndSizes <= id)
        throw pe_exception("Specified directory does not exist", pe_exception::directory_does_not_exist);

    return nt_headers_.OptionalHeader.DataDirectory[id].VirtualAddress;''', '''    const image_data_directory& d = checked_directory(nt_headers_.OptionalHeader.DataDirectory, nt_headers_.OptionalHeader.NumberOfRvaAndSizes, id);
    return d.VirtualAddress;'''), (PG, '''//Returns directory RVA
template<typename PEClassType>
uint32_t pe_properties''', '''static const image_data_directory& checked_directory(const image_data_directory* table, uint32_t count, uint32_t id)
{
    if(id >= count)
        throw pe_exception("Specified directory does not exist", pe_exception::directory_does_not_exist);
    return table[id];
}

//Returns directory RVA
template<typename PEClassType>
uint32_t pe_properties''')]),
('recalc-end', 'A07', [(PB, '''            std::string::size_type i = raw_data.length();
            for(; i != 1; --i)
            {
                if(raw_data[i - 1] != 0)
                    break;
            }
''', '''            std::string::size_type i = raw_data.length();
            while(i > 1 && raw_data[i - 1] == 0)
                i--;
''')]),
('realign-count', 'A07', [(PB, '''    for(std::size_t i = (*it).get_raw_data().length(); i >= 1; --i)
    {
        if(s.get_raw_data()[i - 1] == 0)
            strip++;
        else
            break;
    }
''', '''    const std::string& data = s.get_raw_data();
    while(strip < data.length() && data[data.length() - 1 - strip] == 0)
        ++strip;
''')]),
('rebuild-index', 'B04', [(RB, '''    for(section_list::iterator it = sections.begin(); it != sections.end(); ++it)
    {
        //Save section headers PointerToRawData
        if((*it).get_size_of_raw_data())
        {
            (*it).set_pointer_to_raw_data(static_cast<uint32_t>(ptr_to_section_data));
            ptr_to_section_data += (*it).get_aligned_raw_size(pe.get_file_alignment());
        }
    }''', '''    const uint32_t alignment = pe.get_file_alignment();
    for(std::size_t n = 0; n < sections.size(); n++)
    {
        section& s = sections[n];
        if(s.get_size_of_raw_data() == 0)
            continue;
        s.set_pointer_to_raw_data(static_cast<uint32_t>(ptr_to_section_data));
        ptr_to_section_data += s.get_aligned_raw_size(alignment);
    }''')]),
('aligned-size', 'A04 A02', [(SE, '''    if(get_size_of_raw_data())
    {
        if(!get_virtual_size())
        {
            //If section virtual size is zero
            //Set aligned virtual size of section as aligned raw size
            return pe_utils::align_up(get_size_of_raw_data(), section_alignment);
        }
    }

    return pe_utils::align_up(get_virtual_size(), section_alignment);''', '''    uint32_t size = get_virtual_size();
    if(size == 0)
        size = get_size_of_raw_data();
    return pe_utils::align_up(size, section_alignment);''')]),
('align-math', 'D02 A07 A04', [(UT, '''return (x & static_cast<T>(align - 1)) ? align_down(x, align) + static_cast<T>(align) : x;''', '''if(align_down(x, align) == x) return x; return align_down(x, align) + static_cast<T>(align);'''), (UT, '''return a <= static_cast<uint32_t>(-1) - b;''', '''return static_cast<uint32_t>(a + b) >= a;''')]),
('nullterm-ptr', 'D02', [(UT, '''        for(size_t l = 0; l < raw_length; l++)
        {
            if(data[l] == static_cast<T>(L'\\0'))
                return true;
        }

        return false;''', '''        const T* end = data + raw_length;
        while(data != end)
        {
            if(!*data++)
                return true;
        }
        return false;''')]),
('checksum-while', 'D01', [(CK, '''        for(int64_t i = 0; i < filesize; i += 4)
        {
            uint32_t dw = 0;
''', '''        for(int64_t words = (filesize + 3) / 4, w = 0; w < words; ++w)
        {
            const int64_t i = w * 4;
            uint32_t dw = 0;
''')]),
('map-order', 'A04', [(SE, '''    uint32_t aligned_virtual_size = get_aligned_virtual_size(section_alignment);
    if(old_size_ == static_cast<size_t>(-1) && aligned_virtual_size && aligned_virtual_size > raw_data_.length())
    {
        old_size_ = raw_data_.length();
        raw_data_.resize(aligned_virtual_size, 0);
    }''', '''    if(old_size_ != static_cast<size_t>(-1))
        return;
    const size_t wanted = get_aligned_virtual_size(section_alignment), have = raw_data_.length();
    if(wanted <= have)
        return;
    raw_data_.append(wanted - have, '\\0');
    old_size_ = have;''')]),
('debug-index', 'A05 B01', [(PG, '''    nt_headers_.Signature = 0x4550; //"PE"
    nt_headers_.FileHeader.Machine = 0x14C; //i386''', '''    nt_headers_.FileHeader.Machine = 0x14C; //i386
    nt_headers_.Signature = 0x4550; //"PE"''')]),
('reloc-index', 'C02', [('pe_relocations.cpp', '''    for(relocation_table_list::const_iterator it = tables.begin(); it != tables.end(); ++it)
    {
        const relocation_table::relocation_list& relocs = (*it).get_relocations();

        uint32_t base_rva = (*it).get_rva();

        //Enumerate relocations
        for(relocation_table::relocation_list::const_iterator rel = relocs.begin(); rel != relocs.end(); ++rel)
        {
            //Skip ABSOLUTE''', '''    for(size_t t = 0; t < tables.size(); ++t)
    {
        const relocation_table& table = tables[t];
        const relocation_table::relocation_list& relocs = table.get_relocations();

        const uint32_t base_rva = table.get_rva();

        //Enumerate relocations
        relocation_table::relocation_list::const_iterator rel = relocs.begin();
        for(size_t j = 0; j < relocs.size(); ++j, ++rel)
        {
            //Skip ABSOLUTE''')]),
('reloc-helper', 'C02', [('pe_relocations.cpp', '''            if(!pe_utils::is_sum_safe(base_rva, (*rel).get_rva()))
                throw pe_exception("Incorrect relocation directory", pe_exception::incorrect_relocation_directory);

            //Recalculate value by RVA and rewrite it
            uint32_t current_rva = base_rva + (*rel).get_rva();
''', '''            uint32_t current_rva = place_of(base_rva, *rel);
'''), ('pe_relocations.cpp', '''//RELOCATIONS
//Recalculates image base with''', '''static uint32_t place_of(uint32_t base_rva, const relocation_entry& entry)
{
    if(!pe_utils::is_sum_safe(base_rva, entry.get_rva()))
        throw pe_exception("Incorrect relocation directory", pe_exception::incorrect_relocation_directory);
    return base_rva + entry.get_rva();
}

//RELOCATIONS
//Recalculates image base with''')]),
('reloc-value', 'C02', [('pe_relocations.cpp', '''    value = static_cast<T>(value + base_rel);
    memcpy(pe.section_data_from_rva(rva, true), &value, sizeof(value));''', '''    char* place = pe.section_data_from_rva(rva, true);
    const T moved = static_cast<T>(base_rel + value);
    *reinterpret_cast<T*>(place) = moved;''')]),
]
def one(x):
    name, checks, edits = x; d = '/tmp/rf/' + name; shutil.rmtree(d, ignore_errors=True); shutil.copytree('/repo', d, ignore=shutil.ignore_patterns('.git', 'tests', '*.a'))
    for f, old, new in edits:
        p = d + '/src/pe_lib/' + f; t = open(p, newline='').read(); crlf = '\r\n' in t; t = t.replace('\r\n', '\n')
        if t.count(old) < 1: return name, 'EDIT DOES NOT MATCH ' + old[:60]
        t = t.replace(old, new); open(p, 'w', newline='').write(t.replace('\n', '\r\n') if crlf else t)
    out = []
    for c in checks.split():
        r = subprocess.run(['python3-vt', '/verif/engine/check.py', c, 'quick'], env=dict(os.environ, VP_REPO=d, VP_BUILD=d + '/.b', VP_EVID=d + '/ev'), capture_output=True, text=True)
        ls = r.stdout.strip().split('\n'); out.append('  %s rc=%d %s' % (c, r.returncode, '\n     '.join(l[:260] for l in ls if l.startswith(('VIOL', '#', c + ' ', 'note'))) + r.stderr[-300:]))
    shutil.rmtree(d, ignore_errors=True)
    return name, '\n'.join(out)
if __name__ == '__main__':
    with cf.ThreadPoolExecutor(int(os.environ.get('J', '2'))) as ex:
        for n, o in ex.map(one, [x for x in R if not sys.argv[1:] or x[0] in sys.argv[1:]]): print(n + '\n' + o, flush=True)

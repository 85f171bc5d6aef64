// Writing images: the bytes written are compared with what the written headers describe, read by an independent parser.
#define FOCUS 0
#define main loader_main
#include "loader.inc"
#undef main
static bytes secdata(const section& s) { bytes r = s.get_raw_data(); r.resize(s.get_size_of_raw_data()); return r; }
static void rebuild_case(pe_base& pe, const bytes& bound, uint32_t brva)
{
	bool strip = chance(25), chg = chance(80), save = chance(75); bool bi = !bound.empty() && pe.has_bound_import();
	case_ += " options " + num(strip) + num(chg) + num(save) + " sections " + num(pe.get_number_of_sections());
	section_list before = pe.get_image_sections(); uint32_t n = (uint32_t)before.size(), salign = pe.get_section_alignment(), falign = pe.get_file_alignment(), nd = pe.get_number_of_rvas_and_sizes(); bytes stub = strip ? bytes() : pe.get_stub_overlay(); bytes dos0((const char*)&pe.get_dos_header(), 64);
	uint32_t soh0 = pe.get_size_of_headers(); std::vector<uint64_t> dirs; for(uint32_t i = 0; i < nd; ++i) { dirs.push_back(pe.get_directory_rva(i)); dirs.push_back(pe.get_directory_size(i)); }
	pe_base pe0 = pe;
	std::ostringstream o(std::ios::out | std::ios::binary); std::string what; int id = -1;
	int k = run([&] { try { rebuild_pe(pe, o, strip, chg, save); } catch(const pe_exception& e) { id = e.get_id(); throw; } }, &what);
	CHECK(k != 2, "only documented exceptions", what);
	uint64_t lf = strip ? 16 : 64 + up(stub.size(), 4), ntsz = (pe.get_pe_type() == pe_type_64 ? 136 : 120) + 8 * nd, sh = lf + ntsz, hend = sh + 40 * n;
	bool keep = bi && save && brva <= soh0; uint64_t bat = hend; if(keep) hend += bound.size();
	uint64_t data = up(hend, falign);
	bool toolong = chg && n && data > before[0].get_virtual_address();
	if(k == 1) { CHECK(toolong && id == X::cannot_rebuild_image, "images whose headers fit are written", what); return; }
	if(k != 0) return;
	CHECK(!toolong, "headers running into the first section are refused", num(data));
	++nontrivial_; 
	bytes f = o.str(); const section_list& l = pe.get_image_sections();
	// headers
	CHECK(f.substr(0, strip ? 16 : 60) == dos0.substr(0, strip ? 16 : 60), "DOS header written", hex(f.substr(0, 64)));
	CHECK(get(f, 60, 4) == lf, "the header offset names where the PE headers are", num(get(f, 60, 4)) + " expected " + num(lf));
	if(!strip) CHECK(f.substr(64, lf - 64) == stub + bytes(lf - 64 - stub.size(), 0), "stub written and padded with zeros", hex(f.substr(64, lf - 64)));
	CHECK(f.substr(lf, ntsz) == bytes(pe.get_nt_headers_ptr(), ntsz), "PE headers written", hex(f.substr(lf, ntsz)));
	CHECK(get(f, lf + 6, 2) == n, "section count", num(get(f, lf + 6, 2))); CHECK(get(f, lf + 20, 2) == ntsz - 24, "size of optional header", num(get(f, lf + 20, 2)));
	if(n) { const section& z = l[n - 1]; uint64_t e = z.get_virtual_address() + up(z.get_virtual_size() ? z.get_virtual_size() : z.get_size_of_raw_data(), salign); CHECK(get(f, lf + 24 + 56, 4) == e, "size of image is the end of the last section", num(get(f, lf + 24 + 56, 4)) + " expected " + num(e)); }
	CHECK(get(f, lf + 24 + 60, 4) == (chg ? data : soh0), "size of headers", num(get(f, lf + 24 + 60, 4)) + " expected " + num(chg ? data : soh0));
	for(uint32_t i = 0; i < nd; ++i) if(!(i == 11 && keep)) CHECK(get(f, lf + ntsz - 8 * nd + 8 * i, 4) == dirs[2 * i] && get(f, lf + ntsz - 8 * nd + 8 * i + 4, 4) == dirs[2 * i + 1], "data directories written", "directory " + num(i));
	if(keep) { CHECK(get(f, lf + ntsz - 8 * nd + 88, 4) == bat, "bound import directory names its place", num(get(f, lf + ntsz - 8 * nd + 88, 4)) + " expected " + num(bat)); CHECK(f.substr(bat, bound.size()) == bound, "bound import data kept", hex(f.substr(bat, bound.size())) + " expected " + hex(bound)); stat_["bound import"]++; }
	// section table and data
	uint64_t pos = hend, next = data; 
	CHECK(l.size() == n, "sections kept", num(l.size()));
	for(uint32_t i = 0; i < n && i < l.size(); ++i)
	{
		bytes h = f.substr(sh + 40 * i, 40); CHECK(h == bytes((const char*)&l[i].get_raw_header(), 40), "section header written", "section " + num(i) + " " + hex(h));
		bytes h0((const char*)&before[i].get_raw_header(), 40); bytes h1 = h; put(h1, 20, get(h0, 20, 4), 4); CHECK(h1 == h0, "only the data pointer of a section header changes", "section " + num(i) + " " + hex(h) + " was " + hex(h0));
		CHECK(l[i].get_raw_data() == before[i].get_raw_data(), "section data in memory unchanged", "section " + num(i));
		uint32_t rs = get(h, 16, 4), rp = get(h, 20, 4); if(!rs) continue;
		CHECK(rp % falign == 0 && rp == next, "data pointers are aligned and in order", "section " + num(i) + " " + num(rp) + " expected " + num(next));
		CHECK(rp >= pos && rp <= f.size() && f.substr(pos, rp - pos) == bytes(rp - pos, 0), "padding is zero", "before section " + num(i) + " " + num(pos) + ".." + num(rp));
		if((uint64_t)rp + rs <= f.size()) CHECK(f.substr(rp, rs) == secdata(before[i]), "section data written at its pointer", "section " + num(i) + " at " + num(rp)); else fail("section data lies inside the file", "section " + num(i));
		pos = (uint64_t)rp + rs; next = up(pos, falign);
	}
	CHECK(f.size() == pos, "nothing follows the last section", num(f.size()) + " expected " + num(pos));
	// written and loaded again
	parsed p = parse(f, false); bool must = n > 0 || 1;
	bool sane = must && get(f, lf + 24 + 60, 4) <= (n ? l[0].get_virtual_address() : ~0u);
	for(uint32_t i = 0; i < n; ++i) if(before[i].get_virtual_size() == 0) sane = false;
	if(sane)
	{
		CHECK(p.e.empty(), "the written file is well formed", "rules broken " + idlist(p.e));
		pe_base q = pe; int k2 = run([&] { q = load(f); }, &what); CHECK(k2 == 0, "the written file loads again", what);
		if(k2 == 0)
		{
			const section_list& m = q.get_image_sections(); CHECK(m.size() == n, "same sections after loading again", num(m.size()));
			for(uint32_t i = 0; i < n && i < m.size(); ++i) { CHECK(m[i].get_name() == before[i].get_name() && m[i].get_virtual_address() == before[i].get_virtual_address() && m[i].get_virtual_size() == before[i].get_virtual_size() && m[i].get_characteristics() == before[i].get_characteristics(), "same section header after loading again", "section " + num(i)); bytes w = secdata(before[i]); CHECK(m[i].get_raw_data() == (w.size() > m[i].get_raw_data().size() && up(w.size(), falign) > up(before[i].get_virtual_size(), salign) ? w.substr(0, before[i].get_virtual_size()) : w), "same section data after loading again", "section " + num(i)); }
			CHECK(bytes(q.get_nt_headers_ptr(), ntsz) == bytes(pe.get_nt_headers_ptr(), ntsz), "same headers after loading again", "");
			if(next != data) CHECK(!q.has_overlay(), "no overlay after loading again", "");
		}
	}
	if(!keep && chance(30)) { std::ostringstream o2(std::ios::out | std::ios::binary); run([&] { rebuild_pe(pe, o2, strip, chg, save); }); CHECK(o2.str() == f, "writing twice gives the same file", num(o2.str().size())); }
}
int main(int c, char** v)
{
	init(c, v);
	do
	{
		if(chance(55))
		{
			image im = random_image(false); bytes bound; uint32_t brva = 0;
			if(chance(35) && im.ndirs > 11 && !im.s.empty()) { bound = rbytes(4 * (1 + below(12))); brva = im.headers_end() + (uint32_t)below(8); if(brva + bound.size() < im.soh && brva + bound.size() < im.s[0].va) { im.dir[11][0] = brva; im.dir[11][1] = (uint32_t)bound.size(); } else bound.clear(); }
			bytes f = im.build(); if(!bound.empty()) puts_(f, brva, bound);
			start("loaded image salign " + num(im.salign) + " falign " + num(im.falign) + " lfanew " + num(im.lfanew) + " dirs " + num(im.ndirs) + (bound.empty() ? "" : " bound import at " + num(brva)));
			pe_base* pe = 0; if(run([&] { pe = new pe_base(load(f)); }) != 0) continue;
			if(!bound.empty()) { bool in = true; for(size_t i = 0; i < im.s.size(); ++i) if(im.s[i].rsz) { in = brva + bound.size() < std::min(im.soh, im.s[i].rptr); break; } if(!in) bound.clear(), pe->remove_directory(11); }
			if(chance(40)) pe->set_stub_overlay(rbytes(below(100)));
			if(chance(20) && pe->get_number_of_sections()) { section& s = pe->get_image_sections()[pe->get_number_of_sections() - 1]; s.set_raw_data(rbytes(1 + below(3000))); pe->recalculate_section_sizes(s, chance(50)); }
			if(bound.empty() && chance(15)) pe->strip_data_directories((uint32_t)below(17));
			rebuild_case(*pe, bound, brva); delete pe;
		}
		else
		{
			uint32_t sa = 1u << range(9, 15); start("created image salign " + num(sa));
			pe_base* pe = chance(50) ? new pe_base(pe_properties_32(), sa, chance(30)) : new pe_base(pe_properties_64(), sa, chance(30));
			if(chance(50)) run([&] { pe->set_file_alignment(1u << range(9, (uint64_t)__builtin_ctz(sa))); });
			size_t n = below(6);
			for(size_t i = 0; i < n; ++i)
			{
				section s; s.set_name(rname(0, 9)); s.readable(true).executable(chance(50)); bytes d = rbytes(chance(20) ? 0 : 1 + below(5000)); if(chance(20)) d += bytes(below(3000), 0); s.set_raw_data(d); if(d.empty()) s.set_virtual_size(1 + (uint32_t)below(10000));
				run([&] { section& a = pe->add_section(s); if(chance(30)) pe->set_section_virtual_size(a, (uint32_t)(a.get_raw_data().size() + 1 + below(20000))); });
			}
			if(chance(30)) run([&] { pe->realign_file(1u << range(9, (uint64_t)__builtin_ctz(sa))); });
			if(chance(20)) run([&] { pe->realign_all_sections(); });
			if(chance(30)) pe->set_stub_overlay(rbytes(below(200)));
			if(chance(20)) pe->strip_data_directories((uint32_t)below(17));
			sample(case_); rebuild_case(*pe, bytes(), 0); delete pe;
		}
	} while(more());
	return finish();
}

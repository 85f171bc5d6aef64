// .NET header and Rich data against an independent decoder.
#include "vm.h"
static void dotnet()
{
	image im = plain_image(range(1, 3), 80, 300); uint32_t d = place(im, 72); if(!d) return;
	if(chance(20)) d = (uint32_t)(im.s.back().va + up(im.s.back().vs, im.salign) - 72 + below(5) - 2);
	im.dir[14][0] = chance(95) ? d : 0; im.dir[14][1] = 72; if(chance(3)) im.ndirs = 14;
	start(".NET header at " + num(d)); vmem m(im); pe_base pe = load(im); std::string what; basic_dotnet_info* i = 0; int r = run([&] { i = new basic_dotnet_info(get_basic_dotnet_info(pe)); }, &what);
	CHECK(r != 2, "only documented exceptions", what);
	bool have = im.dir[14][0] && im.ndirs > 14; bytes h = have ? m.rd(d, 72) : bytes();
	CHECK((r == 0) == !h.empty(), "header read exactly when it lies inside the image", what);
	if(r == 0 && !h.empty())
	{
		++nontrivial_; stat_["dotnet"]++;
		uint32_t w[18]; for(int k = 0; k < 18; ++k) w[k] = (uint32_t)get(h, 4 * k, 4);
		uint32_t a[] = { (uint32_t)(i->get_major_runtime_version() | i->get_minor_runtime_version() << 16), i->get_rva_of_metadata(), i->get_size_of_metadata(), i->get_flags(), i->get_entry_point_rva_or_token(), i->get_rva_of_resources(), i->get_size_of_resources(), i->get_rva_of_strong_name_signature(), i->get_size_of_strong_name_signature(), i->get_rva_of_code_manager_table(), i->get_size_of_code_manager_table(), i->get_rva_of_vtable_fixups(), i->get_size_of_vtable_fixups(), i->get_rva_of_export_address_table_jumps(), i->get_size_of_export_address_table_jumps(), i->get_rva_of_managed_native_header(), i->get_size_of_managed_native_header() };
		for(int k = 0; k < 17; ++k) CHECK(a[k] == w[k + 1], "field as stored", "word " + num(k + 1) + " " + num(a[k]) + " expected " + num(w[k + 1]));
		uint32_t f = w[4]; CHECK(i->is_il_only() == ((f & 1) != 0) && i->is_32bit_required() == ((f & 2) != 0) && i->is_il_library() == ((f & 4) != 0) && i->is_native_entry_point() == ((f & 16) != 0), "flags as stored", num(f));
	}
	delete i;
}
static void rich()
{
	pe_base pe(pe_properties_32(), 0x1000, true); uint32_t key = chance(10) ? 0 : (uint32_t)rnd(); size_t n = below(6);
	bytes s = rbytes(chance(50) ? 64 : below(70)); p32(s, 0x536e6144 ^ key); for(int k = 0; k < 3; ++k) p32(s, key); for(size_t k = 0; k < n; ++k) { p32(s, rnd()); p32(s, rnd()); } s += "Rich"; p32(s, key); s += rbytes(below(12));
	switch(below(9)) { case 0: s.resize(below(s.size() + 1)); break; case 1: mutate(s, 0, s.size(), 1 + below(3)); break; case 2: s = rbytes(below(9)); break; case 3: s = rbytes(below(20)) + "Rich" + rbytes(below(6)); break; case 4: { size_t e = s.find("Rich"); if(e != bytes::npos) s.resize(e + below(9)); break; } case 5: { bytes q; p32(q, rnd()); s = q; q = "Rich"; p32(q, key); s += q; p32(s, 0x536e6144 ^ key); s += rbytes(below(30)); break; } default:; }
	start("stub " + hex(s)); pe.set_stub_overlay(s); 
	std::vector<uint32_t> w; size_t e = s.find("Rich");
	if(e != bytes::npos && e + 8 <= s.size())
	{
		uint32_t k = (uint32_t)get(s, e + 4, 4); size_t d = bytes::npos; for(size_t i = 0; i + 4 <= s.size(); ++i) if(((uint32_t)get(s, i, 4) ^ k) == 0x536e6144) { d = i; break; }
		if(d != bytes::npos) for(size_t i = d + 16; i + 8 <= s.size() && get(s, i, 4) != 0x68636952; i += 8) { w.push_back((uint32_t)get(s, i, 4) ^ k); w.push_back((uint32_t)get(s, i + 4, 4) ^ k); }
	}
	rich_data_list l; std::string what; int r = run([&] { l = get_rich_data(pe); }, &what); CHECK(r == 0, "rich data is read or empty", what); if(r) return;
	CHECK(l.size() * 2 == w.size(), "one record per pair of words", num(l.size()) + " expected " + num(w.size() / 2));
	for(size_t i = 0; i < l.size() && 2 * i + 1 < w.size(); ++i) CHECK(l[i].get_number() == w[2 * i] >> 16 && l[i].get_version() == (w[2 * i] & 0xffff) && l[i].get_times() == w[2 * i + 1], "record as encoded", "record " + num(i));
	if(!w.empty()) { ++nontrivial_; stat_["rich"]++; sample(case_); }
}
int main(int c, char** v) { init(c, v); do { if(chance(40)) dotnet(); else rich(); } while(more()); return finish(); }

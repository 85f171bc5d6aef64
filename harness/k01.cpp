// Debug directories: an independent reading of the directory and of the payloads in the file decides what must come back.
#include "vm.h"
struct sym { uint32_t cls, idx, sec, rva; uint16_t type; bool file; bytes name; };
struct want { int adv; bytes a; uint32_t age, sig; bytes guid; bool uni; uint32_t dtype; std::vector<sym> syms; bool maybe; want() : adv(0), age(0), sig(0), uni(false), dtype(0), maybe(false) {} };
static bytes cut(bytes b) { while(!b.empty() && !b[b.size() - 1]) b.resize(b.size() - 1); return b; }
static bytes zstr(const bytes& d, size_t o, bool& ok) { if(o > d.size()) { ok = false; return bytes(); } size_t z = d.find('\0', o); if(z == bytes::npos) { ok = false; return bytes(); } return d.substr(o, z - o); }
// what the payload says; false: malformed
static bool decode(uint32_t type, const bytes& d, want& w)
{
	bool ok = true;
	if(type == 2)
	{
		if(d.size() < 8) return false;
		bytes s = d.substr(0, 4);
		if(s == "RSDS") { if(d.size() < 25) return false; w.adv = debug_info::advanced_info_pdb_7_0; w.guid = d.substr(4, 16); w.age = (uint32_t)get(d, 20, 4); w.a = zstr(d, 24, ok); }
		else if(s == "NB10") { if(d.size() < 17) return false; w.adv = debug_info::advanced_info_pdb_2_0; w.sig = (uint32_t)get(d, 8, 4); w.age = (uint32_t)get(d, 12, 4); w.a = zstr(d, 16, ok); }
		else if(s == "NB09") w.adv = debug_info::advanced_info_codeview_4_0; else if(s == "NB11") w.adv = debug_info::advanced_info_codeview_5_0; else if(s == "NB05") w.adv = debug_info::advanced_info_codeview;
		return ok;
	}
	if(type == 4)
	{
		if(d.size() < 13) return false;
		uint32_t n = (uint32_t)get(d, 4, 4); if(n < 13 || n > d.size()) return false;
		w.adv = debug_info::advanced_info_misc; w.dtype = (uint32_t)get(d, 0, 4); w.uni = d[8] != 0; w.a = d.substr(12, n - 12);
		if(w.uni) { w.a.resize(w.a.size() / 2 * 2); for(size_t i = 0; i + 1 < w.a.size(); i += 2) if((get(w.a, i, 2) & 0xf800) == 0xd800) w.maybe = true; while(w.a.size() && !get(w.a, w.a.size() - 2, 2)) w.a.resize(w.a.size() - 2); } else w.a = cut(w.a);
		return true;
	}
	if(type == 1)
	{
		if(d.size() < 32) return false;
		uint64_t n = get(d, 0, 4), o = get(d, 4, 4); if(o + n * 18 > d.size()) return false;
		w.adv = debug_info::advanced_info_coff;
		for(uint64_t i = 0; i < n; ++i)
		{
			uint64_t p = o + 18 * i; uint8_t cls = d[p + 16], aux = d[p + 17]; if(i + aux > n || p + 18 + 18 * aux > d.size()) return false;
			int16_t sec = (int16_t)get(d, p + 12, 2); uint16_t t = (uint16_t)get(d, p + 14, 2); sym s; s.cls = cls; s.idx = (uint32_t)i; s.sec = 0; s.rva = 0; s.type = t; s.file = false;
			if(cls == 0x67) { s.file = true; s.name = cut(d.substr(p + 18, 18 * aux)); w.syms.push_back(s); }
			else if((cls == 3 && aux == 0 && sec == 1) || (cls == 2 && (t & 0x30) == 0x20 && sec > 0))
			{
				s.sec = (uint16_t)sec; s.rva = (uint32_t)get(d, p + 8, 4);
				if(get(d, p, 4)) { s.name = d.substr(p, 8); s.name = s.name.substr(0, s.name.find('\0')); } else { uint64_t q = o + n * 18 + get(d, p + 4, 4); if(q > 0xffffffff) return false; s.name = zstr(d, q, ok); if(!ok) return false; }
				w.syms.push_back(s);
			}
			i += aux;
		}
	}
	return true;
}
static bytes payload(uint32_t type)
{
	bytes b;
	if(type == 2) { b = pick<const char*>({"RSDS", "RSDS", "NB10", "NB10", "NB09", "NB11", "NB05", "RSDX"}); if(b == "RSDS") { b += rbytes(16); p32(b, rnd()); } else { p32(b, rnd()); if(b.substr(0, 4) == "NB10") { p32(b, rnd()); p32(b, rnd()); } } b += rname(0, 20); if(chance(90)) b += '\0'; if(chance(20)) b += rbytes(below(6)); }
	else if(type == 4) { bytes s = chance(50) ? rname(0, 20) : bytes(); bool u = chance(50); if(u && s.empty()) for(size_t i = below(10); i-- > 0;) p16(s, below(0xd800)); s += bytes(below(4), 0); if(s.empty()) s += 'x'; p32(b, chance(50) ? 1 : rnd()); p32(b, chance(85) ? 12 + s.size() : below(40)); p8(b, u ? 1 + below(3) : 0); b += rbytes(3); b += s; if(chance(20)) b += rbytes(below(6)); }
	else if(type == 1)
	{
		uint32_t n = (uint32_t)below(8), gap = 2 * (uint32_t)below(6); bytes str; p32(str, 0); std::vector<uint32_t> so; for(size_t i = below(4); i-- > 0;) { so.push_back((uint32_t)str.size()); str += rname(1, 12); str += '\0'; } if(chance(5)) str += 'x';
		p32(b, n); p32(b, 32 + gap); for(int i = 0; i < 6; ++i) p32(b, rnd()); b += rbytes(gap);
		for(uint32_t i = 0; i < n;)
		{
			uint32_t aux = chance(60) ? 0 : (uint32_t)below(chance(90) ? n - i : 4); uint32_t k = (uint32_t)below(5); if(chance(3)) aux = 255;
			bytes x; if(k == 0) x = rbytes(8); else if(so.size() && chance(60)) { p32(x, 0); p32(x, so[below(so.size())]); } else if(chance(5)) { p32(x, 0); p32(x, edge32()); } else { x = rname(1, 8); x.resize(8); }
			p32(x, rnd()); p16(x, k == 1 ? 1 : k == 2 ? range(1, 5) : rnd() & 0x8003); p16(x, k == 2 ? 0x20 : rnd()); p8(x, k == 0 ? 0x67 : k == 1 ? 3 : k == 2 ? 2 : rnd()); p8(x, k == 1 && chance(80) ? (aux = 0) : aux); b += x; ++i;
			for(uint32_t j = 0; j < aux && i < n; ++j, ++i) { bytes y = chance(50) ? rname(1, 18) : rbytes(18); y.resize(18); if(chance(40)) { y[16] = 3; y[17] = 0; y[12] = 1; y[13] = 0; } b += y; }
		}
		b += str;
	}
	else b = rbytes(below(30));
	return b;
}
int main(int c, char** v)
{
	init(c, v);
	do
	{
		image im = plain_image(range(1, 3), 100, 700, chance(40)); size_t n = below(5); uint32_t d = place(im, 28 * (n + 1)); if(!d) continue; d &= ~3u; if(d < im.s[0].va) continue;
		if(chance(30)) { sect& q = im.s[below(im.s.size())]; q.raw.resize(im.salign); q.vs = im.salign; for(size_t i = 1; i < im.s.size(); ++i) im.s[i].va = im.s[i - 1].va + (uint32_t)up(im.s[i - 1].vs, im.salign); n = 1 + below(4); d = q.va + im.salign - 28 * (uint32_t)n; }
		// payloads lie in the overlay
		image t = im; bytes f = t.build(); size_t base = f.size(); bytes ov; std::vector<uint32_t> ptr, len, ty; bytes tab;
		for(size_t i = 0; i < n; ++i)
		{
			uint32_t type = pick<uint32_t>({1, 2, 4, 2, 1, 4, 3, 9, 0, (uint32_t)rnd()}); bytes p = payload(type); if(chance(8)) p.resize(below(p.size() + 1)); if(chance(8)) mutate(p, 0, p.size(), 1 + below(3)); ov += bytes(2 * below(4), 'x'); if(ov.size() & 1) ov += 'x';
			uint32_t o = (uint32_t)(base + ov.size()); ov += p; uint32_t size = (uint32_t)p.size(); if(chance(2)) size = edge32() & 0xffffff; if(chance(2)) o = edge32();
			p32(tab, rnd()); p32(tab, rnd()); p16(tab, rnd()); p16(tab, rnd()); p32(tab, type); p32(tab, size); p32(tab, rnd()); p32(tab, chance(97) ? o : 0); ptr.push_back(o); len.push_back(size); ty.push_back(type);
		}
		uint32_t size = 28 * (uint32_t)n; if(chance(20)) { size += 28 * (1 + (uint32_t)below(2)); tab += bytes(28, 0); } if(chance(8)) size = (uint32_t)below(size + 4); if(chance(2)) size = edge32(); poke(im, d, tab);
		if(chance(3)) d = (uint32_t)(im.s.back().va + up(im.s.back().vs, im.salign) - below(8) * 4);
		im.dir[6][0] = chance(97) ? d : 0; im.dir[6][1] = size; im.overlay = ov; if(chance(2)) im.ndirs = 6;
		start("debug directory at " + num(d) + " size " + num(size) + " " + hex(tab) + " payloads at " + num(base) + " " + hex(ov)); vmem m(im); f = im.build(); if(f.size() != base + ov.size()) continue;
		bool rd = chance(90); std::istringstream is(f, std::ios::in | std::ios::binary); pe_base pe = pe_factory::create_pe(is, false, rd); std::string what; debug_info_list l; int r = run([&] { l = get_debug_information(pe); }, &what);
		CHECK(r != 2, "only documented exceptions", what);
		if(!im.dir[6][0] || im.ndirs <= 6) { CHECK(r == 0 && l.empty(), "no directory, no entries", what); continue; }
		// independent reading: the first entry naming a place in the file tells how much is stored for it
		bool ok = m.len(d) >= 28 && (uint64_t)d + size <= 0xffffffff, maybe = false; std::vector<want> w; std::vector<bytes> e; std::map<uint32_t, bytes> data; bool stop = !rd;
		for(uint64_t o = 0; ok && o < size; o += 28)
		{
			bytes q = m.rd(d + o, 28); if(q.empty()) { ok = false; break; }
			if(!get(q, 24, 4)) break;
			e.push_back(q);
		}
		// payloads are loaded while the image is read, up to the first that cannot be read
		if((m.len(d) >= 28) && !stop) for(uint64_t o = 0; o < size && !stop; o += 28)
		{
			bytes q = m.rd(d + o, 28); if(q.empty() || !get(q, 24, 4)) break;
			uint32_t k = (uint32_t)get(q, 12, 4), s = (uint32_t)get(q, 16, 4), p = (uint32_t)get(q, 24, 4);
			if((k == 1 || k == 2 || k == 4) && s) { if((uint64_t)p + s > f.size()) stop = true; else data.insert(std::make_pair(p, f.substr(p, s))); }
		}
		for(size_t i = 0; ok && i < e.size(); ++i) { want x; uint32_t p = (uint32_t)get(e[i], 24, 4); if(data.count(p) && !decode((uint32_t)get(e[i], 12, 4), data[p], x)) ok = false; maybe |= x.maybe; w.push_back(x); }
		CHECK(ok || r == 1, "malformed directory is refused", ""); CHECK(!ok || maybe || r == 0, "well-formed directory is read", what);
		if(r || !ok) { stat_["refused"]++; continue; }
		++nontrivial_; stat_["entries"] += w.size(); sample(case_); CHECK(l.size() == e.size(), "one description per entry", num(l.size()) + " expected " + num(e.size()));
		for(size_t i = 0; i < l.size() && i < e.size(); ++i)
		{
			debug_info a = l[i]; { debug_info z; z = a; z = *&z; a = z; } const want& x = w[i];
			CHECK(a.get_characteristics() == get(e[i], 0, 4) && a.get_time_stamp() == get(e[i], 4, 4) && a.get_major_version() == get(e[i], 8, 2) && a.get_minor_version() == get(e[i], 10, 2) && a.get_type_raw() == get(e[i], 12, 4) && a.get_size_of_data() == get(e[i], 16, 4) && a.get_rva_of_raw_data() == get(e[i], 20, 4) && a.get_pointer_to_raw_data() == get(e[i], 24, 4), "header fields as stored", "entry " + num(i));
			CHECK(a.get_advanced_info_type() == x.adv, "payload kind", num(a.get_advanced_info_type()) + " expected " + num(x.adv)); if(a.get_advanced_info_type() != x.adv) continue;
			stat_["payload " + std::string(1, (char)('0' + x.adv))]++;
			if(x.adv == debug_info::advanced_info_pdb_7_0) { pdb_7_0_info p = a.get_advanced_debug_info<pdb_7_0_info>(); pe_win::guid g = p.get_guid(); CHECK(p.get_age() == x.age && p.get_pdb_file_name() == x.a && !memcmp(&g, x.guid.data(), 16), "PDB 7.0 data as stored", p.get_pdb_file_name()); }
			if(x.adv == debug_info::advanced_info_pdb_2_0) { pdb_2_0_info p = a.get_advanced_debug_info<pdb_2_0_info>(); CHECK(p.get_age() == x.age && p.get_signature() == x.sig && p.get_pdb_file_name() == x.a, "PDB 2.0 data as stored", p.get_pdb_file_name()); }
			if(x.adv == debug_info::advanced_info_misc) { misc_debug_info p = a.get_advanced_debug_info<misc_debug_info>(); CHECK(p.get_data_type() == x.dtype && p.is_unicode() == x.uni && p.is_exe_name() == (x.dtype == 1), "miscellaneous header as stored", num(p.get_data_type()));
				if(!x.uni) CHECK(p.get_data_ansi() == x.a, "miscellaneous text as stored", hex(p.get_data_ansi())); else { std::wstring u; for(size_t k = 0; k + 1 < x.a.size(); k += 2) u += (wchar_t)get(x.a, k, 2); CHECK(p.get_data_unicode() == u, "miscellaneous text as stored", num(p.get_data_unicode().size()) + " characters, expected " + num(u.size())); } }
			if(x.adv == debug_info::advanced_info_coff)
			{
				coff_debug_info p = a.get_advanced_debug_info<coff_debug_info>(); const bytes& b = data[(uint32_t)get(e[i], 24, 4)];
				CHECK(p.get_number_of_symbols() == get(b, 0, 4) && p.get_lva_to_first_symbol() == get(b, 4, 4) && p.get_number_of_line_numbers() == get(b, 8, 4) && p.get_lva_to_first_line_number() == get(b, 12, 4) && p.get_rva_to_first_byte_of_code() == get(b, 16, 4) && p.get_rva_to_last_byte_of_code() == get(b, 20, 4) && p.get_rva_to_first_byte_of_data() == get(b, 24, 4) && p.get_rva_to_last_byte_of_data() == get(b, 28, 4), "symbol header as stored", "");
				const coff_debug_info::coff_symbols_list& s = p.get_symbols(); CHECK(s.size() == x.syms.size(), "one description per listed symbol", num(s.size()) + " expected " + num(x.syms.size())); stat_["symbols"] += x.syms.size();
				for(size_t k = 0; k < s.size() && k < x.syms.size(); ++k) { const sym& y = x.syms[k]; CHECK(s[k].get_index() == y.idx && s[k].get_storage_class() == y.cls && s[k].get_type() == y.type && s[k].is_file() == y.file && s[k].get_symbol() == y.name && (y.file || (s[k].get_section_number() == y.sec && s[k].get_rva() == y.rva)), "symbol as stored", "symbol " + num(k) + " " + s[k].get_symbol() + " expected " + y.name); }
			}
		}
	} while(more());
	return finish();
}

// Loading: an independent reading of the file decides which documented rules it breaks; the loader must refuse exactly then, with one of the
// exceptions of the rules broken, and otherwise hold exactly the bytes of the file.  FOCUS: 1 refusal, 2 contents, 3 kind and stream state.
#include "h.h"
typedef std::set<int> ids;
struct psec { uint64_t off; uint32_t va, vs, rsz, ptr, orsz; uint64_t avs; };
struct parsed { ids e; bool is64; uint64_t nt, ntsize; uint32_t nd, hdr; uint64_t rawend; bool overlay_known; std::vector<psec> s; parsed() : is64(false), nt(0), ntsize(0), nd(0), hdr(0), rawend(0), overlay_known(false) {} };
typedef pe_exception X;
static bool p2(uint32_t x) { return x && !(x & (x - 1)); }
static uint64_t up(uint64_t x, uint64_t a) { return (x + a - 1) / a * a; }
static parsed parse(const bytes& f, bool mem)
{
	parsed r; uint64_t n = f.size();
	if(n < 64 || get(f, 0, 2) != 0x5a4d) { r.e.insert(X::bad_dos_header); r.e.insert(X::bad_pe_file); return r; }
	int64_t lf = (int32_t)get(f, 60, 4);
	if(lf % 4) r.e.insert(X::bad_dos_header);
	if(lf < 0 || (uint64_t)lf > n) { r.e.insert(X::image_nt_headers_not_found); r.e.insert(X::error_reading_image_nt_headers); return r; }
	r.nt = lf;
	if(lf + 120u > n) { r.e.insert(X::error_reading_image_nt_headers); return r; }
	if(get(f, lf, 4) != 0x4550) r.e.insert(X::pe_signature_incorrect);
	uint32_t magic = get(f, lf + 24, 2);
	if(get(f, lf + 6, 2) > 0x60) r.e.insert(X::section_number_incorrect);
	if(magic != 0x10b && magic != 0x20b) { r.e.insert(X::pe_signature_incorrect); r.e.insert(X::error_reading_data_directories); r.e.insert(X::error_reading_image_nt_headers); return r; }
	r.is64 = magic == 0x20b; r.ntsize = r.is64 ? 136 : 120;
	if(lf + r.ntsize > n) { r.e.insert(X::error_reading_image_nt_headers); return r; }
	uint64_t o = lf + 24; uint32_t salign = get(f, o + 32, 4), falign = get(f, o + 36, 4), soi = get(f, o + 56, 4), soh = get(f, o + 60, 4); r.nd = get(f, lf + r.ntsize - 4, 4);
	if(r.nd > 16) r.nd = 16;
	if(lf + r.ntsize + 8 * r.nd > n) { r.e.insert(X::error_reading_data_directories); }
	uint32_t ns = get(f, lf + 6, 2); if(ns > 0x60) r.e.insert(X::section_number_incorrect);
	if(!p2(salign)) { r.e.insert(X::incorrect_section_alignment); r.e.insert(X::incorrect_size_of_image); }
	if(!p2(falign) || (falign != salign && (falign < 512 || falign > salign))) r.e.insert(X::incorrect_file_alignment);
	if(!r.e.empty()) return r;
	uint64_t asoi = up(soi, salign); if(asoi == 0 || asoi >> 32) { r.e.insert(X::incorrect_size_of_image); }
	uint64_t first = lf + 24 + get(f, lf + 20, 2);
	if(ns && first > n) { r.e.insert(X::image_section_headers_not_found); r.e.insert(X::error_reading_section_header); return r; }
	for(uint32_t i = 0; i < ns; ++i)
	{
		psec s; s.off = first + 40 * i; if(s.off + 40 > n) { r.e.insert(X::error_reading_section_header); return r; }
		s.vs = get(f, s.off + 8, 4); s.va = get(f, s.off + 12, 4); s.rsz = s.orsz = get(f, s.off + 16, 4); s.ptr = get(f, s.off + 20, 4);
		if(!s.vs && !s.rsz) { r.e.insert(X::zero_section_sizes); }
		if(((uint64_t)s.va + s.vs) >> 32 || s.vs > 0x80000000u || ((uint64_t)s.ptr + s.rsz) >> 32 || s.rsz > 0x80000000u) r.e.insert(X::section_incorrect_addr_or_size);
		s.avs = up(s.vs, salign);
		if(s.rsz)
		{
			if(up(s.rsz, falign) > s.avs) s.rsz = s.vs;
			uint64_t at = s.ptr / falign * falign, from = mem ? s.va / salign * salign : at;
			if(at + s.rsz > n) r.e.insert(X::section_incorrect_addr_or_size);
			if(from > n || from + s.rsz > n) r.e.insert(X::image_section_data_not_found);
			r.rawend = std::max<uint64_t>(r.rawend, (uint64_t)s.ptr + s.orsz); r.overlay_known = true;
		}
		if(s.va + s.avs > asoi) r.e.insert(X::section_incorrect_addr_or_size);
		r.s.push_back(s);
	}
	if(ns && soh > r.s[0].va) r.e.insert(X::incorrect_size_of_headers);
	for(uint32_t i = 1; i < ns; ++i) if(r.s[i].va != r.s[i - 1].va + r.s[i - 1].avs) r.e.insert(X::image_section_table_incorrect);
	r.hdr = std::min<uint64_t>(soh, n);
	for(uint32_t i = 0; i < ns; ++i) if(r.s[i].rsz) { r.hdr = std::min(soh, r.s[i].ptr); break; }
	if(r.hdr > n) r.e.insert(X::error_reading_file);
	return r;
}
static std::string idlist(const ids& s) { std::string r; for(ids::const_iterator i = s.begin(); i != s.end(); ++i) r += (r.empty() ? "" : ",") + std::to_string(*i); return "{" + r + "}"; }
static void contents(const bytes& f, const parsed& p, bool mem, const pe_base& pe, bool dbg)
{
	bytes dos((const char*)&pe.get_dos_header(), 64); CHECK(dos == f.substr(0, 64), "DOS header holds the bytes of the file", hex(dos));
	bytes nt(pe.get_nt_headers_ptr(), pe.get_sizeof_nt_header()); bytes want = f.substr(p.nt, p.ntsize + 8 * p.nd); put(want, p.ntsize - 4, p.nd, 4); want.resize(p.ntsize + 128);
	CHECK(nt == want, "PE headers hold the bytes of the file", hex(nt) + " expected " + hex(want));
	CHECK(pe.get_stub_overlay() == (p.nt > 64 ? f.substr(64, p.nt - 64) : bytes()), "stub holds the bytes between the headers", num(pe.get_stub_overlay().size()));
	const section_list& l = pe.get_image_sections();
	CHECK(l.size() == p.s.size(), "every section is loaded", num(l.size()));
	for(size_t i = 0; i < l.size() && i < p.s.size(); ++i)
	{
		const psec& s = p.s[i]; bytes h = f.substr(s.off, 40); put(h, 16, s.rsz, 4);
		CHECK(bytes((const char*)&l[i].get_raw_header(), 40) == h, "section header holds the bytes of the file", hex(bytes((const char*)&l[i].get_raw_header(), 40)) + " expected " + hex(h));
		uint32_t a = get(f, p.nt + 24 + (mem ? 32 : 36), 4); uint64_t at = (mem ? s.va : s.ptr) / a * a;
		CHECK(l[i].get_raw_data() == (s.rsz ? f.substr(at, s.rsz) : bytes()), "section data is the bytes of the file", "section " + num(i) + " length " + num(l[i].get_raw_data().size()) + " expected " + num(s.rsz) + " at " + num(at));
	}
	CHECK(pe.get_full_headers_data() == f.substr(0, p.hdr), "header data is the beginning of the file", num(pe.get_full_headers_data().size()) + " expected " + num(p.hdr));
	if(p.overlay_known) CHECK(pe.has_overlay() == (f.size() > p.rawend), "overlay exactly when bytes follow the last section data", std::string(pe.has_overlay() ? "reported" : "not reported") + " length " + num(f.size()) + " data end " + num(p.rawend));
	if(p.s.empty()) CHECK(!pe.has_overlay(), "no overlay without sections", "");
	if(dbg)
	{
		std::multimap<uint32_t, bytes> want;
		if(pe.get_number_of_rvas_and_sizes() > 6 && get(f, p.nt + p.ntsize + 48, 4))
		{
			uint32_t va = get(f, p.nt + p.ntsize + 48, 4), size = get(f, p.nt + p.ntsize + 52, 4);
			for(uint32_t o = 0; ; o += 28)
			{
				bytes e; bool in = false;
				if((uint64_t)va + o + 28 < p.hdr) { e = f.substr(va + o, 28); in = true; }
				else for(size_t i = 0; i < p.s.size() && !in; ++i) if(va + o >= p.s[i].va && (uint64_t)va + o + 28 <= p.s[i].va + p.s[i].avs) { bytes v = l[i].get_raw_data(); v.resize(p.s[i].avs); e = v.substr(va + o - p.s[i].va, 28); in = true; }
				if(!in || o >= size || !get(e, 24, 4)) break;
				uint32_t t = get(e, 12, 4), n = get(e, 16, 4), at = get(e, 24, 4);
				if((t == 1 || t == 2 || t == 4) && n) { if((uint64_t)at + n > f.size()) break; want.insert(std::make_pair(at, f.substr(at, n))); }
			}
		}
		CHECK(pe.get_raw_debug_data_list() == want, "debug data is the bytes of the file", num(pe.get_raw_debug_data_list().size()) + " expected " + num(want.size()) + " directory " + num(get(f, p.nt + p.ntsize + 48, 4)) + " " + num(get(f, p.nt + p.ntsize + 52, 4)) + " headers " + num(p.hdr) + " first " + num(p.s[0].va) + " " + num(p.s[0].vs) + " " + num(p.s[0].rsz) + " data " + hex(l[0].get_raw_data()));
		if(!want.empty()) stat_["debug"]++;
	}
	CHECK(pe.get_pe_type() == (p.is64 ? pe_type_64 : pe_type_32), "image kind follows the magic", "");
}
static std::istringstream stream(const bytes& f, size_t at, std::ios_base::iostate m) { std::istringstream s(f, std::ios::in | std::ios::binary); s.seekg(at); s.exceptions(m); return s; }
static void restored(std::istream& s, size_t at, std::ios_base::iostate m, const char* who)
{
	CHECK(s.exceptions() == m, std::string(who) + ": exception mask as before", num(s.exceptions()) + " expected " + num(m));
	CHECK(s.good(), std::string(who) + ": stream state as before", num(s.rdstate()));
	s.exceptions(std::ios::goodbit); s.clear();
	CHECK((size_t)s.tellg() == at, std::string(who) + ": read position as before", num((uint64_t)s.tellg()) + " expected " + num(at));
}
static void kind(const bytes& f)
{
	std::ios_base::iostate m = pick<std::ios_base::iostate>({std::ios::goodbit, std::ios::badbit, std::ios::failbit, std::ios::eofbit, std::ios::badbit | std::ios::failbit | std::ios::eofbit});
	size_t at = chance(60) ? 0 : below(f.size() + 1); bytes g = f; if(at) g = rbytes(at) + f;      // headers are read where the stream stands; offsets in them count from its beginning
	std::istringstream s = stream(g, at, m); pe_type t = pe_type_32; int id = -1; std::string what; 
	int k = run([&] { try { t = pe_base::get_pe_type(s); } catch(const pe_exception& e) { id = e.get_id(); throw; } }, &what);
	CHECK(k != 2, "kind: only documented exceptions", what);
	ids e; bool is64 = false; uint64_t n = g.size(); 
	if(f.size() < 64 || get(f, 0, 2) != 0x5a4d) { e.insert(X::bad_dos_header); e.insert(X::bad_pe_file); }
	else
	{
		int64_t lf = (int32_t)get(f, 60, 4);
		if(lf < 0 || (uint64_t)lf > n) { e.insert(X::image_nt_headers_not_found); e.insert(X::error_reading_image_nt_headers); }
		else if(lf + 120u > n) e.insert(X::error_reading_image_nt_headers);
		else { uint32_t mg = get(g, lf + 24, 2); is64 = mg == 0x20b; if(get(g, lf, 4) != 0x4550 || (mg != 0x10b && mg != 0x20b)) e.insert(X::pe_signature_incorrect); }
	}
	if(k == 1) CHECK(e.count(id), "kind: exception documented for the rule broken", what + " id " + num(id) + " broken rules " + idlist(e));
	if(k == 0) { CHECK(e.empty(), "kind: malformed headers are refused", idlist(e)); CHECK((t == pe_type_64) == is64, "kind: 64-bit exactly for the 64-bit magic", ""); ++nontrivial_; }
	restored(s, at, m, "kind");
}
static void loadone(const bytes& f, bool mem)
{
	parsed p = parse(f, mem);
	std::ios_base::iostate m = FOCUS == 3 ? pick<std::ios_base::iostate>({std::ios::goodbit, std::ios::badbit, std::ios::failbit, std::ios::eofbit, std::ios::badbit | std::ios::failbit | std::ios::eofbit}) : std::ios::goodbit;
	std::istringstream s = stream(f, 0, m); int id = -1; std::string what; bool loaded = false;
	bool direct = chance(25), dbg = chance(70); pe_type dk = chance(85) ? (p.is64 ? pe_type_64 : pe_type_32) : (p.is64 ? pe_type_32 : pe_type_64);
	int k = run([&] { try {
		if(!direct) { pe_base pe = pe_factory::create_pe(s, mem, dbg); loaded = true; if(p.e.empty()) { if(FOCUS != 1) contents(f, p, mem, pe, dbg); CHECK(pe.get_pe_type() == (p.is64 ? pe_type_64 : pe_type_32), "the loader constructs the matching kind", ""); } }
		else if(dk == pe_type_32) { pe_base pe(s, pe_properties_32(), mem, dbg); loaded = true; if(!p.is64 && p.e.empty() && FOCUS != 1) contents(f, p, mem, pe, dbg); }
		else { pe_base pe(s, pe_properties_64(), mem, dbg); loaded = true; if(p.is64 && p.e.empty() && FOCUS != 1) contents(f, p, mem, pe, dbg); }
		} catch(const pe_exception& e) { id = e.get_id(); throw; } }, &what);
	if(k == 2) fail("only documented exceptions", what);
	bool wrong = direct && p.nt && dk != (p.is64 ? pe_type_64 : pe_type_32);
	if(k == 0 && FOCUS != 3)
	{
		CHECK(p.e.empty(), "malformed images are refused", "accepted although rules " + idlist(p.e) + " are broken");
		if(wrong) fail("images of the other kind are refused", "");
	}
	if(k == 1 && FOCUS == 1)
	{
		if(!wrong) { CHECK(!p.e.empty(), "well-formed images are loaded", what + " id " + num(id)); CHECK(p.e.empty() || p.e.count(id), "the exception is the one documented for the rule broken", what + " id " + std::to_string(id) + " broken rules " + idlist(p.e)); }
	}
	if(FOCUS == 3) restored(s, 0, m, direct ? "constructor" : "loader");
	if(loaded) { ++nontrivial_; stat_["loaded"]++; sample(case_ + " loaded"); } else stat_["refused"]++;
}
static image random_image(bool hostile)
{
	image im; im.is64 = chance(50); im.base = im.is64 ? 0x140000000ull : 0x400000;
	if(chance(40)) { im.salign = 1u << range(9, 16); im.falign = chance(30) ? im.salign : 1u << range(9, (uint64_t)(__builtin_ctz(im.salign))); }
	if(chance(10)) im.falign = im.salign = 1u << range(0, 12);
	im.lfanew = chance(50) ? 0x80 : chance(50) ? 64 : 64 + 4 * below(64); im.stub = rbytes(im.lfanew - 64);
	im.ndirs = chance(60) ? 16 : below(18); if(chance(30)) im.opt_extra = 8 * below(6);
	if(chance(20)) im.chars = (uint16_t)rnd();
	size_t n = chance(8) ? 0 : range(1, 4);
	uint32_t head = (uint32_t)up(im.lfanew + 24 + (im.is64 ? 112 : 96) + im.ndirs * 8 + im.opt_extra + 40 * n, im.falign);
	for(size_t i = 0; i < n; ++i)
	{
		uint32_t a = im.salign; bytes raw = chance(20) ? bytes() : rbytes(chance(30) ? below(40) + 1 : chance(50) ? im.falign * range(1, 3) : below(3 * im.falign) + 1);
		sect& s = im.add(raw, raw.empty() ? 1 + below(3 * a) : chance(60) ? 0 : 1 + below(3 * a), rname(0, 8));
		if(i == 0) { s.va = std::max<uint32_t>((uint32_t)up(head, a), a); if(chance(20)) s.va += a * below(4); } else { sect& q = im.s[i - 1]; s.va = q.va + (uint32_t)up(q.vs, a); }
		s.ch = chance(70) ? 0xE0000020 : (uint32_t)rnd();
		im.falign = im.falign;
	}
	if(n == 0) im.soi = im.salign * (uint32_t)range(1, 4);
	im.layout();
	if(chance(30)) for(size_t i = 0; i < n; ++i) if(im.s[i].rsz && chance(50)) im.s[i].rsz = std::min<uint32_t>(im.s[i].rsz, (uint32_t)im.s[i].raw.size() + (uint32_t)below(8));
	if(chance(40)) im.overlay = rbytes(1 + below(50));
	if(FOCUS == 2 && chance(40) && n && im.ndirs > 6)
	{
		size_t i = below(n); sect& q = im.s[i]; uint32_t sz = q.vs; bytes& r = q.raw;
		if(r.size() > 60)
		{
			uint32_t at = below(r.size() - 56) & ~3u, k = 1 + below(4); im.dir[6][0] = q.va + at; im.dir[6][1] = chance(80) ? 28 * k : below(100); (void)sz;
			for(uint32_t j = 0; j < k + 1 && at + 28 * j + 28 <= r.size(); ++j) { put(r, at + 28 * j + 12, chance(80) ? pick<int>({1, 2, 4, 3, 9}) : edge32(), 4); put(r, at + 28 * j + 16, chance(80) ? below(60) : edge32() % 0x1000000, 4); put(r, at + 28 * j + 24, chance(85) ? below(im.soh + 600) : edge32(), 4); }
		}
	}
	(void)hostile; return im;
}
// a value next to the boundaries of the rules
static uint32_t nearv(const bytes& f, const image& im, uint32_t old)
{
	uint32_t n = (uint32_t)f.size(); int64_t d = (int64_t)below(5) - 2;
	switch(below(12))
	{
	case 0: return old + (uint32_t)d; case 1: return n + (uint32_t)d; case 2: return im.soi + (uint32_t)d; case 3: return im.s.empty() ? 0 : im.s[below(im.s.size())].va + (uint32_t)d;
	case 4: return 0x80000000u + (uint32_t)d; case 5: return (uint32_t)d; case 6: return 1u << below(32); case 7: return old + im.salign * (uint32_t)d; case 8: return old + im.falign * (uint32_t)d; case 9: return (uint32_t)0 - im.salign + (uint32_t)d; case 10: return im.soh + (uint32_t)d; default: return edge32();
	}
}
static void corrupt(bytes& f, const image& im)
{
	size_t o = im.lfanew, q = o + 24, sh = q + im.optsize();
	int times = chance(70) ? 1 : 2 + below(3);
	while(times--)
	{
		switch(below(13))
		{
		case 0: put(f, 60, nearv(f, im, im.lfanew), 4); break;
		case 1: put(f, o + 6, pick<int>({0, 1, 2, 3, 0x5f, 0x60, 0x61, 0x7fff, 0x8000, 0xffff, (int)im.s.size() + 1}), 2); break;
		case 2: put(f, o + 20, (uint16_t)(im.optsize() + below(9) * 8 - 32), 2); break;
		case 3: put(f, q, pick<int>({0x10b, 0x20b, 0x107, 0, 0x10c, 0x1010b}), 2); break;
		case 4: put(f, q + 32, nearv(f, im, im.salign), 4); break;
		case 5: put(f, q + 36, chance(50) ? pick<uint32_t>({1, 2, 16, 256, 511, 512, 513, 1024, 4096, 8192, im.salign, im.salign * 2, im.salign / 2}) : nearv(f, im, im.falign), 4); break;
		case 6: put(f, q + 56, nearv(f, im, im.soi), 4); break;
		case 7: put(f, q + 60, nearv(f, im, im.soh), 4); break;
		case 8: put(f, q + (im.is64 ? 108 : 92), pick<uint32_t>({0, 1, 15, 16, 17, 0x100, 0x80000000u, 0xffffffffu}), 4); break;
		case 9: case 10: if(!im.s.empty()) { size_t s = sh + 40 * below(im.s.size()) + 8 + 4 * below(4); put(f, s, nearv(f, im, (uint32_t)get(f, s, 4)), 4); } break;
		case 11: { size_t n = f.size(); f.resize(chance(50) ? below(n + 1) : pick<size_t>({n - 1, sh + 40 * im.s.size() - 1, sh, sh - 1, q, q + 95, o + 120, o + 119, o + 135, 63, 64, o})); break; }
		default: mutate(f, 0, sh + 40 * im.s.size(), 1 + below(3));
		}
	}
	if(f.size() > 200000) f.resize(200000);
}
int main(int c, char** v)
{
	init(c, v);
	do
	{
		image im = random_image(true); bytes f = im.build();
		bool mem = chance(10), bad = chance(FOCUS == 2 ? 50 : 75); if(mem) { bytes g = f.substr(0, im.soh); for(size_t i = 0; i < im.s.size(); ++i) if(im.s[i].rsz) puts_(g, im.s[i].va / im.salign * im.salign, im.s[i].raw); if(im.soi < 1u << 20 && g.size() < im.soi) g.resize(im.soi); f = g; }
		bytes g = f; if(bad) corrupt(g, im);
		start((bad ? "corrupted image " : "image ") + num(g.size()) + (mem ? " memory layout" : "") + " headers " + hex(g, 700));
		if(FOCUS == 3 && chance(60)) kind(g); else loadone(g, mem);
	} while(more());
	return finish();
}

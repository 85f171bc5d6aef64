// Relocation tables: an independent reading of the directory decides what must come back; rebuilt directories are compared byte by byte.
#include "vm.h"
struct blk { uint32_t rva; std::vector<uint16_t> e; };
static bool decode(const vmem& m, uint32_t d, uint32_t size, std::vector<blk>& l)
{
	if(m.len(d) < 8) return false;
	for(uint64_t p = d, n = 0; ;)
	{
		bytes h = m.rd(p, 8); if(h.empty() || (m.inhdr(p) && !m.inhdr(p, 9))) return false;
		if(n >= size) return true;
		uint64_t k = get(h, 4, 4); if(!k) return true;
		if(k < 8 || k % 2 || p + k > 0xffffffffu) return false;
		blk b; b.rva = (uint32_t)get(h, 0, 4); 
		for(uint64_t i = 8; i < k; i += 2) { bytes x = m.rd(p + i, 2); if(x.empty() || (m.inhdr(p + i) && !m.inhdr(p + i, 3))) return false; b.e.push_back((uint16_t)get(x, 0, 2)); }
		l.push_back(b); p += k; n += k; if(n >= size) return true;
	}
}
static bytes enc(const std::vector<blk>& l) { bytes b; for(size_t i = 0; i < l.size(); ++i) { size_t n = l[i].e.size(); p32(b, l[i].rva); p32(b, 8 + 2 * (n + n % 2)); for(size_t j = 0; j < n; ++j) p16(b, l[i].e[j]); if(n % 2) p16(b, 0); } return b; }
static void same(const relocation_table_list& a, std::vector<blk> w, bool abs, const char* who)
{
	std::string s = who; CHECK(a.size() == w.size(), s + ": one table per block", num(a.size()) + " expected " + num(w.size()));
	for(size_t i = 0; i < a.size() && i < w.size(); ++i)
	{
		std::vector<uint16_t> e; for(size_t j = 0; j < w[i].e.size(); ++j) if(abs || w[i].e[j] >> 12) e.push_back(w[i].e[j]);
		const relocation_table::relocation_list& r = a[i].get_relocations(); CHECK(a[i].get_rva() == w[i].rva, s + ": page address as stored", num(a[i].get_rva())); CHECK(r.size() == e.size(), s + ": one entry per relocation", num(r.size()) + " expected " + num(e.size()));
		for(size_t j = 0; j < r.size() && j < e.size(); ++j) CHECK(r[j].get_item() == e[j] && r[j].get_rva() == (e[j] & 0xfff) && r[j].get_type() == e[j] >> 12, s + ": entry as stored", "table " + num(i) + " entry " + num(j) + " " + num(r[j].get_item()) + " expected " + num(e[j]));
	}
}
static std::vector<blk> rlist(size_t nb, size_t ne) { std::vector<blk> l(below(nb)); for(size_t i = 0; i < l.size(); ++i) { l[i].rva = chance(90) ? (uint32_t)(below(0x100) << 12) : (uint32_t)rnd(); l[i].e.resize(below(ne)); for(size_t j = 0; j < l[i].e.size(); ++j) l[i].e[j] = (uint16_t)(chance(15) ? below(0x1000) : rnd()); } return l; }
static void reader()
{
	image im = plain_image(range(1, 3), 150, 500, chance(40)); bytes t = enc(rlist(5, 20)); if(chance(10)) t.resize(below(t.size() + 1)); if(chance(25)) mutate(t, 0, t.size(), 1 + below(3)); if(chance(20) && t.size() >= 8) { size_t o = 0; for(size_t k = below(3); k-- > 0;) { size_t n = (size_t)get(t, o + 4, 4); if(n < 8 || o + n + 8 > t.size()) break; o += n; } put(t, o + 4, chance(60) ? get(t, o + 4, 4) + below(7) - 3 : below(40), 4); }
	size_t si; uint32_t d = place(im, t.size(), &si); if(!d) return; if(chance(80)) d &= ~3u; if(d < im.s[0].va) return; if(chance(15)) { sect& q = im.s[si]; q.raw.resize(im.salign); q.vs = im.salign; for(size_t i = 1; i < im.s.size(); ++i) im.s[i].va = im.s[i - 1].va + (uint32_t)up(im.s[i - 1].vs, im.salign); d = (uint32_t)(q.va + im.salign - t.size()); } poke(im, d, t);
	uint32_t size = (uint32_t)t.size(); if(chance(15)) size = (uint32_t)below(size + 20); if(chance(2)) size = edge32(); im.dir[5][0] = chance(97) ? d : 0; im.dir[5][1] = size; if(chance(2)) im.ndirs = 5; bool abs = chance(50);
	start("relocations at " + num(d) + " size " + num(size) + " " + hex(t)); vmem m(im); pe_base pe = load(im); std::string what; relocation_table_list a; int r = run([&] { a = get_relocations(pe, abs); }, &what);
	CHECK(r != 2, "read: only documented exceptions", what); if(!im.dir[5][0] || im.ndirs <= 5) { CHECK(r == 0 && a.empty(), "read: no directory, no tables", what); return; }
	std::vector<blk> w; bool ok = decode(m, d, size, w); CHECK(ok || r == 1, "read: malformed block is refused", ""); CHECK(!ok || r == 0, "read: well-formed directory is read", what); if(!ok || r) { stat_["refused"]++; return; }
	++nontrivial_; stat_["tables read"] += w.size(); sample(case_); same(a, w, abs, "read");
}
static void writer()
{
	image im = plain_image(range(1, 3), 100, 1200); pe_base pe = load(im); size_t ns = im.s.size(), ts = chance(60) ? ns - 1 : below(ns); uint32_t off = chance(70) ? (uint32_t)below(im.s[ts].raw.size()) : (uint32_t)(im.s[ts].raw.size() + below(600)), pos = (uint32_t)up(off, 4);
	std::vector<blk> l = rlist(6, chance(90) ? 30 : chance(90) ? 200 : 2500); bytes t = enc(l); bool save = chance(80), strip = chance(30); relocation_table_list a; for(size_t i = 0; i < l.size(); ++i) { relocation_table x(l[i].rva); for(size_t j = 0; j < l[i].e.size(); ++j) { uint16_t v = l[i].e[j]; if(chance(50)) x.add_relocation(relocation_entry(v)); else x.add_relocation(relocation_entry(v & 0xfff, v >> 12)); } a.push_back(x); }
	off = just(im, ts, t.size(), off, 4); pos = (uint32_t)up(off, 4);
	start("rebuild in section " + num(ts) + " of " + num(ns) + " at " + num(off) + " flags " + num(save) + num(strip) + " " + hex(t)); foreign(pe, ts, [&](section& x) { rebuild_relocations(pe, a, x, off, save, strip); }); snap b(pe); uint16_t ch = pe.get_characteristics(), dc = pe.get_dll_characteristics(); std::string what; image_directory dd; int r = run([&] { dd = rebuild_relocations(pe, a, sect_of(pe, ts), off, save, strip); }, &what);
	CHECK(r != 2, "rebuild: only documented exceptions", what);
	if(r == 1) { stat_["rebuild refused"]++; CHECK(!(ts == ns - 1 || pos + (pos - off) + t.size() <= up(im.s[ts].rsz, im.falign)), "rebuild: tables that fit are written", what); return; }
	CHECK(ts == ns - 1 || pos + t.size() <= up(im.s[ts].rsz, im.falign), "rebuild: tables that do not fit are refused", "");
	++nontrivial_; stat_["rebuilt"]++; consistent(pe, im); sample(case_); CHECK(dd.get_rva() == im.s[ts].va + pos && dd.get_size() == t.size(), "rebuild: returned directory names its place", num(dd.get_rva()) + " " + num(dd.get_size()));
	if(save) CHECK(pe.get_directory_rva(5) == dd.get_rva() && pe.get_directory_size(5) == dd.get_size() && pe.get_characteristics() == (ch & ~1) && pe.get_dll_characteristics() == (dc | 0x40), "rebuild: directory and flags stored in the headers", ""); else CHECK(bytes(pe.get_nt_headers_ptr(), pe.get_sizeof_nt_header()).substr(24 + im.optsize() - 128, 128) == b.nt.substr(24 + im.optsize() - 128, 128) && pe.get_characteristics() == ch && pe.get_dll_characteristics() == dc, "rebuild: headers untouched unless asked", "");
	const section_list& s = pe.get_image_sections(); for(size_t x = 0; x < ns; ++x) { std::vector<std::pair<uint64_t, bytes> > ws; if(x == ts) ws.push_back(std::make_pair(pos, t)); std::string why; bytes now = s[x].get_raw_data(); CHECK(expect_raw(now, b.raw[x], ws, why), "rebuild: section holds the tables and is otherwise unchanged", "section " + num(x) + " " + why); if(!(strip && x == ts)) CHECK(now.size() >= b.raw[x].size(), "rebuild: no data lost", ""); }
	if(!save || t.empty()) return;
	relocation_table_list c; bool abs = chance(50); r = run([&] { c = get_relocations(pe, abs); }, &what); CHECK(r == 0, "read back", what); for(size_t i = 0; i < l.size(); ++i) if(l[i].e.size() % 2) l[i].e.push_back(0); if(!r) same(c, l, abs, "read back");
}
int main(int c, char** v) { init(c, v); do { if(chance(50)) reader(); else writer(); } while(more()); return finish(); }

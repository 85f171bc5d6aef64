// Imports: an independent reading of the tables decides what must come back; rebuilt tables are read by the independent reader.
#include "vm.h"
struct fn { bytes name; uint16_t hint, ord; bool named; uint64_t va; fn() : hint(0), ord(0), named(false), va(0) {} };
struct lib { bytes name; uint32_t iat, oiat, stamp; std::vector<fn> f; lib() : iat(0), oiat(0), stamp(0) {} };
static bool decode(const vmem& m, uint64_t d, std::vector<lib>& l)
{
	bool b = m.im.is64; int w = b ? 8 : 4; uint64_t snap = b ? 1ull << 63 : 1u << 31;
	for(;; d += 20)
	{
		uint64_t v[5]; bytes x; if(m.inhdr(d, 21)) x = m.hdr.substr(d, 20); else if(m.sec(d) < 0 || m.inhdr(d, 20)) return false; else x = m.rd(d, 20); if(x.empty()) return false; for(int i = 0; i < 5; ++i) v[i] = get(x, 4 * i, 4);
		if(!v[3]) return true;
		lib k; if(!rstr(m, v[3], k.name)) return false; k.iat = (uint32_t)v[4]; k.oiat = (uint32_t)v[0]; k.stamp = (uint32_t)v[1]; uint64_t a = v[4], o = v[0] ? v[0] : v[4], ta, to; if(!rdn(m, a, w, ta) || !rdn(m, o, w, to)) return false;
		if(ta && to) for(;; a += w, o += w)
		{
			fn f; if(!rdn(m, a, w, f.va)) return false; if(!f.va) break; if(!rdn(m, o, w, to)) return false; if(!to) break;
			if(to & snap) f.ord = (uint16_t)to; else { uint64_t h; if(to > 0xffffffffu - 2 || !rstr(m, to + 2, f.name) || !rdn(m, to, 2, h)) return false; f.hint = (uint16_t)h; f.named = !f.name.empty(); }
			k.f.push_back(f);
		}
		l.push_back(k);
	}
}
static void same(const imported_functions_list& a, const std::vector<lib>& w, const char* who)
{
	std::string s = who; CHECK(a.size() == w.size(), s + ": one description per library", num(a.size()) + " expected " + num(w.size()));
	for(size_t i = 0; i < a.size() && i < w.size(); ++i)
	{
		CHECK(a[i].get_name() == w[i].name && a[i].get_timestamp() == w[i].stamp && a[i].get_rva_to_iat() == w[i].iat && a[i].get_rva_to_original_iat() == w[i].oiat, s + ": library as stored", a[i].get_name() + " expected " + w[i].name); const import_library::imported_list& f = a[i].get_imported_functions();
		CHECK(f.size() == w[i].f.size(), s + ": one description per function", a[i].get_name() + " " + num(f.size()) + " expected " + num(w[i].f.size()));
		for(size_t j = 0; j < f.size() && j < w[i].f.size(); ++j) { const fn& x = w[i].f[j]; CHECK(f[j].has_name() == x.named && f[j].get_name() == x.name && f[j].get_iat_va() == x.va && (x.named ? f[j].get_hint() == x.hint : f[j].get_ordinal() == x.ord), s + ": function as stored", a[i].get_name() + " function " + num(j) + " " + f[j].get_name() + " expected " + x.name + " " + num(x.ord)); }
	}
}
// lay out an import directory: strings anywhere in the section holding it
static bytes lay(bool b, uint32_t rva, std::vector<lib>& l, uint32_t& dir, bool bound, bool noorig)
{
	int w = b ? 8 : 4; uint64_t snap = b ? 1ull << 63 : 1u << 31; bytes t; std::vector<uint32_t> nm;
	for(size_t i = 0; i < l.size(); ++i) { nm.push_back(rva + (uint32_t)t.size()); t += l[i].name; t += '\0'; std::vector<uint64_t> th; for(size_t j = 0; j < l[i].f.size(); ++j) { fn& f = l[i].f[j]; if(f.named) { th.push_back(rva + t.size()); p16(t, f.hint); t += f.name; t += '\0'; } else th.push_back(snap | f.ord); }
		while(t.size() % w) t += '\0'; l[i].oiat = noorig ? 0 : rva + (uint32_t)t.size(); if(!noorig) { for(size_t j = 0; j < th.size(); ++j) pn(t, th[j], w); pn(t, 0, w); } l[i].iat = rva + (uint32_t)t.size(); for(size_t j = 0; j < th.size(); ++j) { l[i].f[j].va = bound && !noorig ? (b ? 0x7ff000000000ull : 0x77000000u) + below(0x100000) : th[j]; pn(t, l[i].f[j].va, w); } pn(t, 0, w); }
	while(t.size() % 4) t += '\0'; dir = rva + (uint32_t)t.size(); for(size_t i = 0; i < l.size(); ++i) { p32(t, l[i].oiat); p32(t, l[i].stamp); p32(t, bound ? 0xffffffffu : 0); p32(t, nm[i]); p32(t, l[i].iat); } t += bytes(20, 0); return t;
}
static std::vector<lib> rlist(size_t nl, size_t nf) { std::vector<lib> l(below(nl)); for(size_t i = 0; i < l.size(); ++i) { l[i].name = rname(1, chance(1) ? 400 : 14); l[i].stamp = (uint32_t)rnd(); l[i].f.resize(below(nf)); for(size_t j = 0; j < l[i].f.size(); ++j) { fn& f = l[i].f[j]; if((f.named = chance(65))) { f.name = rname(1, chance(1) ? 400 : 16); f.hint = (uint16_t)rnd(); } else f.ord = (uint16_t)rnd(); } } return l; }
static void reader()
{
	image im = plain_image(range(1, 3), 500, 1400, chance(50)); size_t si = below(im.s.size()); uint32_t at = im.s[si].va + 8 * (uint32_t)below(20), d; std::vector<lib> l = rlist(4, 7); bytes t = lay(im.is64, at, l, d, chance(50), chance(25)); if(t.size() + at - im.s[si].va > im.s[si].raw.size()) return;
	if(chance(10) && t.size() < im.s[si].raw.size()) { sect& q = im.s[si]; q.raw.resize(im.salign); q.vs = im.salign; for(size_t i = 1; i < im.s.size(); ++i) im.s[i].va = im.s[i - 1].va + (uint32_t)up(im.s[i - 1].vs, im.salign); uint32_t na = (uint32_t)(q.va + im.salign - t.size()) & ~7u; std::vector<lib> k = l; t = lay(im.is64, na, k, d, false, chance(25)); if(chance(50)) t.resize(t.size() - below(21)); at = na; }
	if(chance(35)) mutate(t, chance(50) ? d - at : 0, t.size(), 1 + below(3)); poke(im, at, t); im.dir[1][0] = chance(97) ? d : 0; im.dir[1][1] = chance(80) ? (uint32_t)(t.size()) : edge32(); if(chance(2)) im.ndirs = 1;
	start(std::string("read ") + (im.is64 ? "64" : "32") + " imports at " + num(d) + " from " + num(at) + " " + hex(t, 1000)); vmem m(im); pe_base pe = load(im); std::string what; imported_functions_list a; int r = run([&] { a = get_imported_functions(pe); }, &what);
	CHECK(r != 2, "read: only documented exceptions", what); if(!im.dir[1][0] || im.ndirs <= 1) { CHECK(r == 0 && a.empty(), "read: no directory, no libraries", what); return; }
	std::vector<lib> w; bool ok = decode(m, d, w); CHECK(ok || r == 1, "read: malformed directory is refused", ""); CHECK(!ok || r == 0, "read: well-formed directory is read", what); if(!ok || r) { stat_["refused"]++; return; }
	++nontrivial_; stat_["libraries read"] += w.size(); sample(case_); same(a, w, "read");
}
static void writer()
{
	image im = plain_image(range(1, 3), 600, 2000); bool b = im.is64; int w = b ? 8 : 4; uint64_t snap_ = b ? 1ull << 63 : 1u << 31; std::vector<lib> l; bool bound = chance(50), noorig = chance(25), existing = chance(50); uint32_t d = 0; size_t si = below(im.s.size());
	if(existing) { l = rlist(4, 5); uint32_t at = im.s[si].va + 8 * (uint32_t)below(4); bytes t = lay(b, at, l, d, bound, noorig); if(at - im.s[si].va + t.size() > im.s[si].raw.size()) return; poke(im, at, t); im.dir[1][0] = d; im.dir[1][1] = (uint32_t)t.size(); }
	im.dir[12][0] = 0x1000; im.dir[12][1] = 8; pe_base pe = load(im); size_t ns = im.s.size(), ts = chance(60) ? ns - 1 : below(ns); std::string what; imported_functions_list a; if(existing) a = get_imported_functions(pe); size_t old = a.size();
	std::vector<lib> nw = rlist(chance(2) ? 80 : 4, chance(2) ? 400 : 6); for(size_t i = 0; i < nw.size(); ++i) { import_library x; x.set_name(nw[i].name); x.set_timestamp(nw[i].stamp); for(size_t j = 0; j < nw[i].f.size(); ++j) { fn& f = nw[i].f[j]; f.va = 1 + below(b ? ~0ull : 0xfffffffeull); imported_function y; if(f.named) { y.set_name(f.name); y.set_hint(f.hint); } else y.set_ordinal(f.ord); y.set_iat_va(f.va); x.add_import(y); } a.push_back(x); l.push_back(nw[i]); }
	bool orig = chance(70), save = chance(60), rw = save && chance(40), fill = chance(25), hdrs = chance(85), zero = chance(50), strip = chance(30); uint32_t off = chance(70) ? (uint32_t)below(im.s[ts].raw.size()) : (uint32_t)(im.s[ts].raw.size() + below(600)); if(existing && ts == si) off = (uint32_t)std::max<uint64_t>(off, d + im.dir[1][1] - im.s[si].va);
	uint64_t need = 20 * (l.size() + 1) + w, iats = 0; for(size_t i = 0; i < l.size(); ++i) { need += l[i].name.size() + 1; iats += w * (1 + l[i].f.size()); for(size_t j = 0; j < l[i].f.size(); ++j) if(l[i].f[j].named) need += l[i].f[j].name.size() + 3; } need += iats * (orig || fill ? 2 : 1); if(!existing || ts != si) off = just(im, ts, need, off, 8);
	import_rebuilder_settings s(hdrs, zero); s.set_offset_from_section_start(off); s.build_original_iat(orig); s.save_iat_and_original_iat_rvas(save, rw); s.fill_missing_original_iats(fill); s.enable_auto_strip_last_section(strip);
	start(std::string("rebuild ") + (b ? "64" : "32") + " in section " + num(ts) + " of " + num(ns) + " at " + num(off) + " libraries " + num(old) + "+" + num(nw.size()) + " orig/save/rewrite/fill " + num(orig) + num(save) + num(rw) + num(fill) + " headers/zero/strip " + num(hdrs) + num(zero) + num(strip) + " bound/noorig " + num(bound) + num(noorig)); foreign(pe, ts, [&](section& x) { rebuild_imports(pe, a, x, s); }); snap bf(pe);
	image_directory dd; int r = run([&] { dd = rebuild_imports(pe, a, sect_of(pe, ts), s); }, &what); CHECK(r != 2, "rebuild: only documented exceptions", what);
	// tables kept in place and rewritten must have room behind them
	if(r == 1) { stat_["rebuild refused"]++; CHECK(!((ts == ns - 1 || off + need <= up(im.s[ts].rsz, im.falign))), "rebuild: imports that fit are written", what); return; }
	++nontrivial_; stat_["rebuilt"]++; consistent(pe, im); sample(case_);
	if(hdrs) CHECK(pe.get_directory_rva(1) == dd.get_rva() && pe.get_directory_size(1) == dd.get_size() && pe.get_directory_rva(12) == (zero ? 0 : 0x1000u) && pe.get_directory_size(12) == (zero ? 0 : 8u), "rebuild: directory stored in the headers", ""); else CHECK(bytes(pe.get_nt_headers_ptr(), pe.get_sizeof_nt_header()).substr(24 + im.optsize() - 128, 128) == bf.nt.substr(24 + im.optsize() - 128, 128), "rebuild: directory table untouched unless asked", "");
	CHECK(dd.get_rva() >= im.s[ts].va + off && dd.get_rva() - im.s[ts].va + dd.get_size() <= off + need, "rebuild: returned directory lies in the area asked for", num(dd.get_rva()) + " " + num(dd.get_size()));
	// nothing but the area (and rewritten tables) changes
	const section_list& sl = pe.get_image_sections();
	for(size_t x = 0; x < ns; ++x)
	{
		bytes now = sl[x].get_raw_data(), was = bf.raw[x]; std::vector<std::pair<uint64_t, bytes> > ws; bytes n2 = now; n2.resize(std::max<size_t>(n2.size(), off + need)); was.resize(std::max(was.size(), now.size())); if(x == ts) ws.push_back(std::make_pair(off, n2.substr(off, need)));
		if(rw) for(size_t i = 0; i < old; ++i) for(int q = 0; q < 2; ++q) { uint32_t at = q ? l[i].oiat : l[i].iat; if(at && x == si) ws.push_back(std::make_pair(at - im.s[si].va, n2.substr(at - im.s[si].va, w * (l[i].f.size() + 1)))); }
		std::string why; CHECK(expect_raw(now, was, ws, why), "rebuild: bytes outside the import area are unchanged", "section " + num(x) + " " + why); if(!(strip && x == ts)) CHECK(now.size() >= bf.raw[x].size(), "rebuild: no data lost", "section " + num(x) + " " + num(now.size()) + " was " + num(bf.raw[x].size()));
	}
	// independent reading of the result
	image i2 = im; i2.soi = i2.soh = 0; for(size_t x = 0; x < ns; ++x) { i2.s[x].raw = sl[x].get_raw_data(); i2.s[x].vs = sl[x].get_virtual_size(); } vmem m2(i2); std::vector<lib> g, e = l; bool ok = decode(m2, dd.get_rva(), g), lost = existing && save && bound && !noorig && !orig && !rw && old; if(!ok && lost) { stat_["names lost"]++; return; } CHECK(ok, "rebuild: the tables are well formed", ""); if(!ok) return;
	CHECK(g.size() == e.size(), "rebuild: one descriptor per library", num(g.size()) + " expected " + num(e.size()));
	for(size_t i = 0; i < g.size() && i < e.size(); ++i)
	{
		bool kept = i < old && save; CHECK(g[i].name == e[i].name && g[i].stamp == e[i].stamp, "rebuild: library written", g[i].name + " expected " + e[i].name);
		uint32_t lo = im.s[ts].va + off, hi = lo + (uint32_t)need; if(kept) CHECK(g[i].iat == l[i].iat && (fill && !l[i].oiat ? true : g[i].oiat == (orig ? l[i].oiat : 0)), "rebuild: saved table addresses are kept", num(g[i].iat)); else CHECK(g[i].iat >= lo && g[i].iat < hi && (orig ? g[i].oiat >= lo && g[i].oiat < hi : g[i].oiat == 0), "rebuild: new tables lie in the area asked for", num(g[i].iat));
		// names are lost when only a bound table is kept
		if(kept && bound && !noorig && !orig && !(rw && !fill)) continue; if(!kept && !orig && fill) continue; if(kept && !orig && fill && rw) continue;
		CHECK(g[i].f.size() == e[i].f.size(), "rebuild: one entry per function", e[i].name + " " + num(g[i].f.size()) + " expected " + num(e[i].f.size()));
		for(size_t j = 0; j < g[i].f.size() && j < e[i].f.size(); ++j) { const fn& x = g[i].f[j]; const fn& y = e[i].f[j]; CHECK(x.named == y.named && x.name == y.name && x.hint == y.hint && x.ord == y.ord, "rebuild: function written", e[i].name + " function " + num(j) + " " + x.name + "/" + num(x.ord) + " expected " + y.name + "/" + num(y.ord)); if(!kept && orig) CHECK(x.va == y.va, "rebuild: address table holds the address given", num(x.va) + " expected " + num(y.va)); if(!kept && !orig && !y.named) CHECK(x.va == (snap_ | y.ord), "rebuild: ordinal in the only table", num(x.va)); }
	}
	if(!hdrs) return; imported_functions_list c; r = run([&] { c = get_imported_functions(pe); }, &what); CHECK(r == 0, "read back", what); if(!r) same(c, g, "read back");
}
int main(int c, char** v) { init(c, v); do { if(chance(50)) reader(); else writer(); } while(more()); return finish(); }

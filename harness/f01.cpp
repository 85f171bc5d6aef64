// Exports: an independent reading of the tables decides what must come back; rebuilt tables are read by the independent reader.
#include "vm.h"
struct fn { bytes name, fwd; uint32_t rva; uint16_t ord, nord; bool named, fw; fn() : rva(0), ord(0), nord(0), named(false), fw(false) {} };
struct exps { uint32_t f[10]; uint16_t ma, mi; bytes dll; std::vector<fn> l; bool sorted; };
// true when the directory is well formed; the tables lie in one view each
static bool decode(const vmem& m, uint32_t d, uint32_t dsz, bool info, exps& e)
{
	bytes x; if(m.inhdr(d, 41)) x = m.hdr.substr(d, 40); else if(m.sec(d) < 0 || m.inhdr(d, 40)) return false; else x = m.rd(d, 40);
	if(x.empty()) return false; uint32_t v[10]; for(int i = 0; i < 10; ++i) v[i] = (uint32_t)get(x, 4 * i, 4); memcpy(e.f, v, sizeof v); e.ma = (uint16_t)v[2]; e.mi = (uint16_t)(v[2] >> 16); e.sorted = true; // flags stamp version name base nf nn funcs names ords
	if(info && !rstr(m, v[3], e.dll)) return false; if(!v[5]) return true; if(v[6] > v[5] || !v[9] != !v[8] || !v[7] || (v[6] && !v[8])) return false;
	if(v[5] >= 0x3fffffff || (uint64_t)v[7] + 4ull * v[5] > 0xffffffffu || (uint64_t)v[8] + 4ull * v[6] > 0xffffffffu || (uint64_t)v[9] + 4ull * v[5] > 0xffffffffu || (uint64_t)d + dsz > 0xffffffffu) return false;
	if(m.len(v[7]) < 4ull * v[5] || (v[8] && (!m.len(v[9]) || !m.len(v[8]))) || (v[8] && (m.len(v[9]) < 2ull * v[6] || m.len(v[8]) < 4ull * v[6]))) return false;
	std::map<uint32_t, uint32_t> first; std::vector<uint64_t> no(v[6]); bool bad = false; uint32_t upto = v[6]; for(uint32_t i = 0; i < v[6]; ++i) { if(!rdn(m, v[9] + 2ull * i, 2, no[i])) { bad = true; upto = i; break; } if(!first.count((uint32_t)no[i])) first[(uint32_t)no[i]] = i; }
	for(uint32_t o = 0; o < v[5]; ++o)
	{
		uint64_t r; if(!rdn(m, v[7] + 4ull * o, 4, r)) return false; if(!r) continue; if((uint64_t)v[4] + o > 0xffff) return false;
		fn f; f.rva = (uint32_t)r; f.ord = (uint16_t)(v[4] + o); if(first.count(o)) { uint64_t n; if(!rdn(m, v[8] + 4ull * first[o], 4, n) || !rstr(m, n, f.name)) return false; f.named = !f.name.empty(); f.nord = (uint16_t)o; } else if(bad) return false;
		if(r >= d + 4ull && r < (uint64_t)d + dsz) { if(!rstr(m, r, f.fwd)) return false; f.fw = !f.fwd.empty(); } e.l.push_back(f);
	}
	for(uint32_t i = 0; i + 1 < v[6] && e.sorted; ++i) { uint64_t a, b; bytes p, q; if(!rdn(m, v[8] + 4ull * i, 4, a) || !rdn(m, v[8] + 4ull * i + 4, 4, b) || !rstr(m, a, p) || !rstr(m, b, q) || !(p < q)) e.sorted = false; }
	return true;
}
static void same(const exported_functions_list& a, const exps& e, const char* who)
{
	std::string s = who; CHECK(a.size() == e.l.size(), s + ": every function once", num(a.size()) + " expected " + num(e.l.size()));
	for(size_t i = 0; i < a.size() && i < e.l.size(); ++i) { const fn& x = e.l[i]; CHECK(a[i].get_ordinal() == x.ord && a[i].get_rva() == x.rva && a[i].has_name() == x.named && a[i].get_name() == x.name && (!x.named || a[i].get_name_ordinal() == x.nord) && a[i].is_forwarded() == x.fw && a[i].get_forwarded_name() == x.fwd, s + ": function as stored", num(a[i].get_ordinal()) + " " + num(a[i].get_rva()) + " " + a[i].get_name() + " " + a[i].get_forwarded_name() + " expected " + num(x.ord) + " " + num(x.rva) + " " + x.name + " " + x.fwd); }
	std::pair<uint16_t, uint16_t> q = get_export_ordinal_limits(a), w(0, 0); if(!e.l.empty()) { w.first = 0xffff; for(size_t i = 0; i < e.l.size(); ++i) { w.first = std::min(w.first, e.l[i].ord); w.second = std::max(w.second, e.l[i].ord); } } CHECK(q == w, "ordinal limits", num(q.first) + " " + num(q.second));
	for(int k = 0; k < 3; ++k) { uint16_t o = e.l.empty() || chance(40) ? (uint16_t)rnd() : (uint16_t)(e.l[below(e.l.size())].ord + below(3) - 1); bytes n = e.l.empty() || chance(30) ? rname(1, 2) : e.l[below(e.l.size())].name; if(chance(20) && !n.empty()) n.resize(n.size() - 1); bool ho = false, hn = false; for(size_t i = 0; i < e.l.size(); ++i) { ho |= e.l[i].ord == o; hn |= e.l[i].named && e.l[i].name == n; } CHECK(exported_ordinal_exists(o, a) == ho, "ordinal exists", num(o)); CHECK(exported_name_exists(n, a) == hn, "name exists", n); }
}
static void same_info(const export_info& k, const exps& e, const char* who) { CHECK(k.get_characteristics() == e.f[0] && k.get_timestamp() == e.f[1] && k.get_major_version() == e.ma && k.get_minor_version() == e.mi && k.get_name() == e.dll && k.get_ordinal_base() == e.f[4] && k.get_number_of_functions() == e.f[5] && k.get_number_of_names() == e.f[6] && k.get_rva_of_functions() == e.f[7] && k.get_rva_of_names() == e.f[8] && k.get_rva_of_name_ordinals() == e.f[9], std::string(who) + ": information as stored", k.get_name()); }
static std::vector<fn> rlist(size_t n) { std::vector<fn> l(below(n)); std::set<uint16_t> u; std::set<bytes> un; uint16_t b = chance(10) ? (uint16_t)(0xffff - 2 * n + 1) : (uint16_t)below(chance(50) ? 3 : 1000); for(size_t i = 0; i < l.size(); ++i) { fn& f = l[i]; do f.ord = (uint16_t)(b + (chance(85) || b > 0xff00 ? below(2 * n) : below(40))); while(!u.insert(f.ord).second); f.rva = 0x40000000u + (uint32_t)below(0x100000); if((f.named = chance(65))) { do { f.name = rname(1, chance(20) ? 2 : chance(1) ? 400 : 12); if(chance(5)) f.name[0] = (char)(128 + below(100)); } while(!un.insert(f.name).second); } if((f.fw = chance(30))) f.fwd = rname(1, chance(1) ? 400 : 14); } return l; }
static void reader()
{
	image im = plain_image(range(1, 3), 500, 1200, chance(50)); size_t si = below(im.s.size()); uint32_t at = im.s[si].va + (uint32_t)below(100); std::vector<fn> l = rlist(9); uint32_t base = 0xffff, mx = 0; for(size_t i = 0; i < l.size(); ++i) { base = std::min<uint32_t>(base, l[i].ord); mx = std::max<uint32_t>(mx, l[i].ord); } if(l.empty()) { base = 1; mx = 0; } else if(base && chance(40)) base -= (uint32_t)below(std::min(base, 3u) + 1);
	bytes t(40, 0); uint32_t nf = mx - base + 1; std::vector<uint32_t> fr(nf, 0); std::vector<std::pair<uint32_t, uint16_t> > nm; uint32_t dll = at + (uint32_t)t.size(); t += rname(1, 10); t += '\0';
	for(size_t i = 0; i < l.size(); ++i) { fr[l[i].ord - base] = l[i].rva; if(l[i].fw) { fr[l[i].ord - base] = at + (uint32_t)t.size(); t += l[i].fwd; t += '\0'; } } uint32_t dsz = (uint32_t)t.size(); bool inside = chance(60);
	for(size_t i = 0; i < l.size(); ++i) if(l[i].named) { nm.push_back(std::make_pair(at + (uint32_t)t.size(), (uint16_t)(l[i].ord - base))); t += l[i].name; t += '\0'; } for(size_t i = 0; i + 1 < nm.size(); ++i) std::swap(nm[i], nm[i + below(nm.size() - i)]); if(chance(15) && !nm.empty() && nm.size() < nf) nm.push_back(std::make_pair(nm[0].first, nm[0].second));
	uint32_t af = at + (uint32_t)t.size(); for(size_t i = 0; i < nf; ++i) p32(t, fr[i]); uint32_t an = at + (uint32_t)t.size(); for(size_t i = 0; i < nm.size(); ++i) p32(t, nm[i].first); uint32_t ao = at + (uint32_t)t.size(); for(size_t i = 0; i < nm.size(); ++i) p16(t, nm[i].second); if(inside) dsz = (uint32_t)t.size();
	bytes h; p32(h, (uint32_t)rnd()); p32(h, (uint32_t)rnd()); p16(h, (uint16_t)rnd()); p16(h, (uint16_t)rnd()); p32(h, dll); p32(h, base); p32(h, nf); p32(h, (uint32_t)nm.size()); p32(h, af); p32(h, nm.empty() && chance(70) ? 0 : an); p32(h, get(h, 32, 4) ? ao : 0); memcpy(&t[0], h.data(), 40); if(t.size() + at - im.s[si].va > im.s[si].raw.size()) return;
	if(chance(40)) { if(chance(60)) { static const int fo[] = {12, 16, 20, 24, 28, 32, 36}; int o = fo[below(7)]; put(t, o, chance(40) ? edge32() : get(t, o, 4) + below(5) - 2, 4); } else mutate(t, 0, t.size(), 1 + below(3)); } poke(im, at, t); im.dir[0][0] = chance(97) ? at : 0; im.dir[0][1] = chance(90) ? dsz : edge32(); if(chance(2)) im.ndirs = 0;
	start(std::string("read exports at ") + num(at) + " size " + num(im.dir[0][1]) + " " + hex(t, 600)); vmem m(im); pe_base pe = load(im); std::string what; exported_functions_list a; export_info k; bool info = chance(60); int r = run([&] { a = info ? get_exported_functions(pe, k) : get_exported_functions(pe); }, &what);
	CHECK(r != 2, "read: only documented exceptions", what); if(!im.dir[0][0] || !im.ndirs) { CHECK(r == 0 && a.empty(), "read: no directory, no functions", what); return; }
	exps e; bool ok = decode(m, at, im.dir[0][1], info, e); CHECK(ok || r == 1, "read: malformed directory is refused", num(a.size())); CHECK(!ok || r == 0, "read: well-formed directory is read", what); if(!ok || r) { stat_["refused"]++; return; } ++nontrivial_; stat_["functions read"] += e.l.size(); sample(case_); same(a, e, "read"); if(info) same_info(k, e, "read");
}
static void writer()
{
	image im = plain_image(range(1, 3), 600, 1800); size_t ns = im.s.size(), ts = chance(60) ? ns - 1 : below(ns); pe_base pe = load(im); std::vector<fn> l = rlist(chance(2) ? 400 : 10); bool dup = false; if(l.size() > 1 && chance(8)) { dup = true; size_t i = below(l.size()), j = (i + 1) % l.size(); if(chance(50) && l[i].named) { l[j].named = true; l[j].name = l[i].name; } else l[j].ord = l[i].ord; }
	exported_functions_list fl; for(size_t i = 0; i < l.size(); ++i) { exported_function f; f.set_ordinal(l[i].ord); f.set_rva(l[i].rva); f.set_name(l[i].name); f.set_forwarded_name(l[i].fwd); f.set_name_ordinal((uint16_t)rnd()); fl.push_back(f); }
	export_info k; bytes dll = rname(1, chance(1) ? 400 : 12); k.set_name(dll); k.set_characteristics((uint32_t)rnd()); k.set_timestamp((uint32_t)rnd()); k.set_major_version((uint16_t)rnd()); k.set_minor_version((uint16_t)rnd()); k.set_ordinal_base((uint32_t)below(chance(50) ? 2 : 9)); k.set_number_of_functions((uint32_t)rnd()); k.set_number_of_names((uint32_t)rnd());
	bool hdrs = chance(85), strip = chance(30); uint32_t off = chance(70) ? (uint32_t)below(im.s[ts].raw.size()) : (uint32_t)(im.s[ts].raw.size() + below(600)); uint64_t dp, need = 40 + dll.size() + 1; uint32_t base = k.get_ordinal_base(), nf = 0; if(!l.empty()) { uint32_t mx = 0; base = 0xffff; for(size_t i = 0; i < l.size(); ++i) { base = std::min<uint32_t>(base, l[i].ord); mx = std::max<uint32_t>(mx, l[i].ord); if(l[i].named) need += l[i].name.size() + 7; if(l[i].fw) need += l[i].fwd.size() + 1; } nf = mx - base + 1; } need += 4 * nf; off = just(im, ts, need, off, 4); dp = up(off, 4);
	start("rebuild in section " + num(ts) + " of " + num(ns) + " at " + num(off) + " functions " + num(l.size()) + " slots " + num(nf) + " base " + num(base) + " headers/strip " + num(hdrs) + num(strip)); foreign(pe, ts, [&](section& x) { rebuild_exports(pe, k, fl, x, off, hdrs, strip); }); snap bf(pe); std::string what; image_directory dd; int r = run([&] { dd = rebuild_exports(pe, k, fl, sect_of(pe, ts), off, hdrs, strip); }, &what); CHECK(r != 2, "rebuild: only documented exceptions", what);
	CHECK(!dup || r == 1, "rebuild: duplicate names or ordinals are refused", ""); if(dup) { CHECK(sect_of(pe, ts).get_raw_data() == bf.raw[ts], "rebuild: refused before anything is written", ""); return; }
	bool fits = ts == ns - 1 || (im.s[ts].rsz && dp + need <= up(im.s[ts].rsz, im.falign)); CHECK(!fits || r == 0, "rebuild: exports that fit are written", what); CHECK(fits || r == 1, "rebuild: exports that do not fit are refused", ""); if(r) { stat_["rebuild refused"]++; return; }
	++nontrivial_; stat_["rebuilt"]++; consistent(pe, im); sample(case_); CHECK(dd.get_rva() == im.s[ts].va + dp && dd.get_size() == need, "rebuild: returned directory", num(dd.get_rva()) + " " + num(dd.get_size()) + " expected size " + num(need));
	if(hdrs) CHECK(pe.get_directory_rva(0) == dd.get_rva() && pe.get_directory_size(0) == dd.get_size(), "rebuild: directory stored in the headers", ""); else CHECK(!pe.get_directory_rva(0) && !pe.get_directory_size(0), "rebuild: headers untouched unless asked", "");
	const section_list& sl = pe.get_image_sections(); for(size_t x = 0; x < ns; ++x) { bytes now = sl[x].get_raw_data(), n2 = now; std::vector<std::pair<uint64_t, bytes> > ws; n2.resize(std::max<size_t>(n2.size(), dp + need)); if(x == ts) ws.push_back(std::make_pair(dp, n2.substr(dp, need))); std::string why; CHECK(expect_raw(now, bf.raw[x], ws, why), "rebuild: bytes outside the export area are unchanged", why); if(!(strip && x == ts)) CHECK(now.size() >= bf.raw[x].size(), "rebuild: no data lost", num(now.size())); }
	image i2 = im; i2.soi = i2.soh = 0; for(size_t x = 0; x < ns; ++x) { i2.s[x].raw = sl[x].get_raw_data(); i2.s[x].vs = sl[x].get_virtual_size(); } vmem m2(i2); exps g; bool ok = decode(m2, dd.get_rva(), dd.get_size(), true, g); CHECK(ok, "rebuild: the tables are well formed", ""); if(!ok) return;
	CHECK(g.f[0] == k.get_characteristics() && g.f[1] == k.get_timestamp() && g.ma == k.get_major_version() && g.mi == k.get_minor_version() && g.dll == dll, "rebuild: information written", g.dll); CHECK(g.f[4] == base && g.f[5] == nf, "rebuild: ordinal base and number of slots", num(g.f[4]) + " " + num(g.f[5])); CHECK(g.sorted, "rebuild: names are sorted", "");
	std::sort(l.begin(), l.end(), [](const fn& a, const fn& b) { return a.ord < b.ord; }); size_t nn = 0; for(size_t i = 0; i < l.size(); ++i) nn += l[i].named; CHECK(g.f[6] == nn, "rebuild: number of names", num(g.f[6])); CHECK(g.l.size() == l.size(), "rebuild: every function once", num(g.l.size()) + " expected " + num(l.size()));
	for(size_t i = 0; i < l.size() && i < g.l.size(); ++i) { const fn& x = g.l[i]; const fn& y = l[i]; CHECK(x.ord == y.ord && x.named == y.named && x.name == y.name && x.fw == y.fw && x.fwd == y.fwd && (y.fw || x.rva == y.rva), "rebuild: function written", num(x.ord) + " " + x.name + " " + x.fwd + " expected " + num(y.ord) + " " + y.name + " " + y.fwd); }
	if(!hdrs) return; exported_functions_list c; export_info k2; r = run([&] { c = get_exported_functions(pe, k2); }, &what); CHECK(r == 0, "read back", what); if(!r) { same(c, g, "read back"); same_info(k2, g, "read back"); }
}
int main(int c, char** v) { init(c, v); do { if(chance(50)) reader(); else writer(); } while(more()); return finish(); }

// Resource trees: an independent reading of the section decides what must come back; rebuilt trees are read by the independent reader.
#include "res.h"
static uint64_t used_; static int deep_;
static void touch(uint64_t e) { used_ = std::max(used_, e); }
// true when the tree is well formed
static bool decode(const vmem& m, uint64_t base, uint32_t off, std::set<uint32_t>& seen, rdir& d, bool& sorted, int lv)
{
	deep_ = std::max(deep_, lv); if(lv > 60 || !seen.insert(off).second || base + off > 0xffffffffu) return false; bytes x; if(!rdt(m, base + off, 16, x)) return false; d.ch = (uint32_t)get(x, 0, 4); d.stamp = (uint32_t)get(x, 4, 4); d.ma = (uint16_t)get(x, 8, 2); d.mi = (uint16_t)get(x, 10, 2); uint32_t nn = (uint32_t)get(x, 12, 2), n = nn + (uint32_t)get(x, 14, 2); if(base + off + 16 + 8ull * n > 0xffffffffu) return false; touch(base + off + 16 + 8ull * n);
	for(uint32_t i = 0; i < n; ++i)
	{
		if(!rdt(m, base + off + 16 + 8ull * i, 8, x)) return false; uint32_t a = (uint32_t)get(x, 0, 4), b = (uint32_t)get(x, 4, 4); rent e;
		if((e.named = a >> 31)) { uint64_t p = base + (a & 0x7fffffff), len; if(p + 2 > 0xffffffffu || !rdn(m, p, 2, len) || !m.len(p + 2) || m.len(p + 2) < 2 * len) return false; bytes s = m.rd(p + 2, 2 * len); for(size_t k = 0; k < len; ++k) { uint16_t c = (uint16_t)get(s, 2 * k, 2); if(c >= 0xd800 && c < 0xe000) return false; e.name.push_back(c); } touch(p + 2 + 2 * len); } else e.id = a & 0xffff;
		if(!(e.data = !(b >> 31))) { e.sub.resize(1); if(!decode(m, base, b & 0x7fffffff, seen, e.sub[0], sorted, lv + 1)) return false; }
		else { bytes y; if(base + b > 0xffffffffu || !rdt(m, base + b, 16, y)) return false; touch(base + b + 16); uint64_t p = get(y, 0, 4), sz = get(y, 4, 4); e.cp = (uint32_t)get(y, 8, 4); if(!m.len(p) || m.len(p) < sz) return false; e.d = m.rd(p, sz); touch(p + sz); }
		if(e.named != (i < nn)) sorted = false; if(!d.e.empty()) { const rent& q = d.e.back(); if(q.named && e.named ? !(wide(q.name) < wide(e.name)) : !q.named && !e.named ? !(q.id < e.id) : e.named) sorted = false; } d.e.push_back(e);
	}
	return true;
}
// lay out a tree with its parts in random order of areas
struct layer { bytes t; uint32_t rva, base; bool share; std::vector<std::pair<uint32_t, ustr> > names;
	uint32_t dir(const rdir& d) { uint32_t at = (uint32_t)t.size(); t.resize(at + 16 + 8 * d.e.size() + (chance(20) ? below(9) : 0)); size_t nn = 0; for(size_t i = 0; i < d.e.size(); ++i) nn += d.e[i].named; bytes h; p32(h, d.ch); p32(h, d.stamp); p16(h, d.ma); p16(h, d.mi); p16(h, nn); p16(h, d.e.size() - nn); puts_(t, at, h);
		for(size_t i = 0; i < d.e.size(); ++i) { const rent& e = d.e[i]; uint32_t a = e.id, b; if(e.named) { a = 0; for(size_t k = 0; k < names.size() && share; ++k) if(names[k].second == e.name) a = names[k].first; if(!a) { a = 0x80000000u | (uint32_t)t.size(); p16(t, e.name.size()); for(size_t k = 0; k < e.name.size(); ++k) p16(t, e.name[k]); names.push_back(std::make_pair(a, e.name)); } } if(e.data) { uint32_t dp = (uint32_t)t.size(); if(chance(50)) { t += e.d; b = (uint32_t)t.size(); } else { b = dp; dp += 16; } p32(t, rva + dp); p32(t, e.d.size()); p32(t, e.cp); p32(t, 0); if(dp > b) t += e.d; } else b = 0x80000000u | dir(e.sub[0]); put(t, at + 16 + 8 * i, a, 4); put(t, at + 20 + 8 * i, b, 4); } return at; } };
static void reader()
{
	image im = plain_image(range(1, 3), 500, 1500, chance(50)); size_t si = below(im.s.size()); if(chance(5)) { image q = im; q.s.resize(1); q.s[0].va = (0x90000000u / q.salign) * q.salign; im = q; si = 0; } uint32_t at = im.s[si].va + 4 * (uint32_t)below(20); layer y; y.rva = at; y.share = chance(30); rdir want = rtree(chance(80) ? 3 : 4, 3, chance(70), 40); y.dir(want); bytes t = y.t; if(t.size() + at - im.s[si].va > im.s[si].raw.size()) return;
	bool mut = chance(40); if(mut) { if(chance(30)) { size_t o = 16 + 8 * below(3); if(o + 8 <= t.size()) put(t, o + 4 * below(2), (chance(60) ? 0x80000000u : 0) | (uint32_t)(chance(50) ? 0 : below(t.size())), 4); } else mutate(t, 0, chance(50) ? std::min<size_t>(t.size(), 64) : t.size(), 1 + below(3)); } poke(im, at, t); im.dir[2][0] = chance(97) ? at : 0; im.dir[2][1] = (uint32_t)t.size();
	if(!mut && chance(8)) { im.s[si].raw.resize(std::max<size_t>(im.s[si].raw.size(), 8)); uint32_t e = im.s[si].va + (uint32_t)up(im.s[si].vs, im.salign) - im.dir[2][0]; if(!want.e.empty() && want.e[0].named) { size_t o = at - im.s[si].va + 16; uint32_t n = (uint32_t)below(14), p = e - 2 - 2 * n; put(im.s[si].raw, o, 0x80000000u | p, 4); if(im.s[si].vs < 0x4000) { im.s[si].raw.resize(up(im.s[si].vs, im.salign)); im.s[si].vs = (uint32_t)im.s[si].raw.size(); put(im.s[si].raw, im.dir[2][0] + p - im.s[si].va, chance(60) ? n : n + 1, 2); } } }
	start("read resources at " + num(at) + " " + show(want) + " " + hex(t, 500)); vmem m(im); pe_base pe = load(im); std::string what; resource_directory a; int r = run([&] { a = get_resources(pe); }, &what); CHECK(r != 2, "read: only documented exceptions", what); if(!im.dir[2][0]) { CHECK(r == 0 && a.get_entry_list().empty(), "read: no directory, no resources", what); return; }
	rdir w; std::set<uint32_t> seen; bool so = true; deep_ = 0; bool ok = decode(m, at, 0, seen, w, so, 0); if(deep_ > 60) { stat_["deep"]++; return; } CHECK(ok || r == 1, "read: malformed tree is refused", ""); CHECK(!ok || r == 0, "read: well-formed tree is read", what); if(!ok || r) { stat_["refused"]++; return; } ++nontrivial_; stat_["read"]++; sample(case_); std::string why; CHECK(same(a, w, why), "read: tree as stored", why);
}
static void chain() { image im; size_t n = chance(50) ? range(3000, 12000) : range(252, 258); bytes t; for(size_t i = 0; i < n; ++i) { bytes h(16, 0); h[14] = 1; t += h; p32(t, 1); p32(t, 0x80000000u | (uint32_t)(24 * (i + 1))); } t.resize(t.size() + 16); im.add(t); im.dir[2][0] = 0x1000; im.dir[2][1] = (uint32_t)t.size(); start("read resources nested " + num(n) + " deep"); pe_base pe = load(im); std::string what; int r = run([&] { get_resources(pe); }, &what); CHECK(r != 2, "read: only documented exceptions", what); CHECK(r == (n > 255), "read: trees nested up to 256 deep are read, deeper ones refused", num(n)); stat_["deep"]++; }
static void sort_tree(rdir& d) { std::stable_sort(d.e.begin(), d.e.end(), [](const rent& a, const rent& b) { return a.named != b.named ? a.named : a.named ? wide(a.name) < wide(b.name) : a.id < b.id; }); for(size_t i = 0; i < d.e.size(); ++i) if(!d.e[i].data) sort_tree(d.e[i].sub[0]); }
static uint64_t space(const rdir& d) { uint64_t n = 16; for(size_t i = 0; i < d.e.size(); ++i) { const rent& e = d.e[i]; n += 8 + (e.named ? 2 * e.name.size() + 4 : 0) + (e.data ? 19 + e.d.size() : space(e.sub[0])); } return n; }
static void writer()
{
	image im = plain_image(range(1, 3), 600, 2500); size_t ns = im.s.size(), ts = chance(60) ? ns - 1 : below(ns); pe_base pe = load(im); rdir d = rtree(chance(80) ? 3 : 4, 4, true, 40); if(chance(97) && d.e.empty()) return; resource_directory rd = make(d); bool hdrs = chance(85), strip = chance(30); uint32_t off = chance(70) ? (uint32_t)below(im.s[ts].raw.size()) : (uint32_t)(im.s[ts].raw.size() + below(600)); uint64_t dp = up(off, 4), need = space(d) + 3; off = just(im, ts, need, off, 4); dp = up(off, 4);
	start("rebuild in section " + num(ts) + " of " + num(ns) + " at " + num(off) + " " + show(d) + " headers/strip " + num(hdrs) + num(strip)); foreign(pe, ts, [&](section& x) { rebuild_resources(pe, rd, x, off, hdrs, strip); }); snap bf(pe); std::string what; image_directory dd; int r = run([&] { dd = rebuild_resources(pe, rd, sect_of(pe, ts), off, hdrs, strip); }, &what); CHECK(r != 2, "rebuild: only documented exceptions", what);
	if(d.e.empty()) { CHECK(r == 1, "rebuild: an empty tree is refused", ""); return; } bool fits = ts == ns - 1 || (im.s[ts].rsz && dp + need <= up(im.s[ts].rsz, im.falign)); CHECK(!fits || r == 0, "rebuild: resources that fit are written", what); if(r) { stat_["rebuild refused"]++; CHECK(sect_of(pe, ts).get_raw_data() == bf.raw[ts], "rebuild: refused before anything is written", ""); return; }
	++nontrivial_; stat_["rebuilt"]++; consistent(pe, im); sample(case_); CHECK(dd.get_rva() == im.s[ts].va + dp && dd.get_size() <= need && (ts == ns - 1 || dp + dd.get_size() <= up(im.s[ts].rsz, im.falign)), "rebuild: returned directory", num(dd.get_rva()) + " " + num(dd.get_size()) + " at most " + num(need)); need = dd.get_size();
	if(hdrs) CHECK(pe.get_directory_rva(2) == dd.get_rva() && pe.get_directory_size(2) == dd.get_size(), "rebuild: directory stored in the headers", ""); else CHECK(!pe.get_directory_rva(2) && !pe.get_directory_size(2), "rebuild: headers untouched unless asked", "");
	const section_list& sl = pe.get_image_sections(); for(size_t x = 0; x < ns; ++x) { bytes now = sl[x].get_raw_data(), n2 = now; std::vector<std::pair<uint64_t, bytes> > ws; n2.resize(std::max<size_t>(n2.size(), dp + need)); if(x == ts) ws.push_back(std::make_pair(dp, n2.substr(dp, need))); std::string why; CHECK(expect_raw(now, bf.raw[x], ws, why), "rebuild: bytes outside the resource area are unchanged", why); if(!(strip && x == ts)) CHECK(now.size() >= bf.raw[x].size(), "rebuild: no data lost", num(now.size())); }
	image i2 = im; i2.soi = i2.soh = 0; for(size_t x = 0; x < ns; ++x) { i2.s[x].raw = sl[x].get_raw_data(); i2.s[x].vs = sl[x].get_virtual_size(); } vmem m2(i2); rdir g; std::set<uint32_t> seen; bool so = true; used_ = 0; sort_tree(d);
	bool ok = decode(m2, dd.get_rva(), 0, seen, g, so, 0); CHECK(ok, "rebuild: the tree is well formed", ""); if(!ok) return; CHECK(so, "rebuild: names before ids, sorted", ""); CHECK(used_ <= (uint64_t)dd.get_rva() + dd.get_size(), "rebuild: everything lies inside the returned directory", num(used_)); std::string why; CHECK(same(make(g), d, why), "rebuild: tree written", why); CHECK(same(rd, d, why), "rebuild: the tree given is only sorted", why);
	if(!hdrs) return; resource_directory c; r = run([&] { c = get_resources(pe); }, &what); CHECK(r == 0, "read back", what); if(!r) CHECK(same(c, d, why), "read back: same tree", why);
}
int main(int c, char** v) { init(c, v); for(int i = 0; i < 5; ++i) chain(); do { if(chance(1)) chain(); if(chance(50)) reader(); else writer(); } while(more()); return finish(); }

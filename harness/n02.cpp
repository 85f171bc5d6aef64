// Icon and cursor groups: files and resource trees are described and converted independently of the library.
#include "res.h"
typedef resource_cursor_icon_writer cw;
static key kid(uint32_t id) { key k; k.id = id; return k; }
static key rgroup() { key k; if((k.named = chance(40))) k.name = ustr(1, (uint16_t)range('A', 'C')); else k.id = (uint32_t)range(1, 3); return k; }
struct kind { bool cur; uint32_t one, group; kind(bool c) : cur(c), one(c ? 1 : 3), group(c ? 12 : 14) {} };
// a file: canonical (images in order, nothing else) unless broken
static bytes rfile(const kind& t, size_t n, bool canon)
{
	bytes f, im; p16(f, chance(80) ? 0 : rnd() & 0xffff); p16(f, chance(90) ? (t.cur ? 2 : 1) : rnd() & 0xffff); p16(f, n); std::vector<bytes> d(n); uint32_t pad = canon ? 0 : (uint32_t)below(3); im.assign(pad, '#');
	for(size_t i = 0; i < n; ++i) { d[i] = rbytes(n > 100 ? 1 : 1 + below(20)); f += (char)rnd(); f += (char)(chance(40) ? range(120, 255) : below(256)); if(t.cur && canon) { p16(f, 0); } else p16(f, rnd() & 0xffff); p16(f, rnd() & 0xffff); p16(f, rnd() & 0xffff); p32(f, d[i].size()); p32(f, 6 + 16 * n + im.size()); if(!canon && i && chance(20)) { put(f, f.size() - 4, 6 + 16 * n + pad, 4); put(f, f.size() - 8, d[0].size(), 4); } else im += d[i]; }
	f += im; return f;
}
static bool good(const bytes& f) { if(f.size() < 6) return false; uint64_t n = get(f, 4, 2), h = 6 + 16 * n; if(!n || f.size() < h) return false; for(uint64_t i = 0; i < n; ++i) { uint64_t s = get(f, 14 + 16 * i, 4), o = get(f, 18 + 16 * i, 4); if(!s || o < h || o + s > f.size()) return false; } return true; }
static rdir* dirat(rdir& d, const key& a) { rent* e = find(d, a); return e && !e->data ? &e->sub[0] : 0; }
// the data of a resource by language or by index; null if there is none
static const rent* fetch(rdir& d, uint32_t type, const key& k, uint32_t lang, int ix) { rdir* t = dirat(d, kid(type)); rdir* l = t ? dirat(*t, k) : 0; if(!l) return 0; rent* e = ix < 0 ? findid(*l, lang) : (size_t)ix < l->e.size() ? &l->e[ix] : 0; return e && e->data ? e : 0; }
static bool haslang(rdir& d, uint32_t type, const key& k, uint32_t lang) { rdir* t = dirat(d, kid(type)); rdir* l = t ? dirat(*t, k) : 0; return l && findid(*l, lang); }
static bool groupok(const bytes& g) { return g.size() >= 6 && g.size() >= 6 + 14 * (size_t)get(g, 4, 2); }
static bytes entry(const kind& t, const bytes& g, size_t i, const bytes& im, size_t off) { bytes e; size_t o = 6 + 14 * i; if(t.cur) { e += g[o]; e += (char)(get(g, o + 2, 2) / 2); e += '\0'; e += '\0'; e += im.substr(0, 4); p32(e, im.size() - 4); } else { e = g.substr(o, 8); p32(e, im.size()); } p32(e, off); return e; }
// the file of a group; false: refused
static bool tofile(const kind& t, rdir& d, const key& k, uint32_t lang, int ix, bytes& f)
{
	const rent* g = fetch(d, t.group, k, lang, ix); if(!g || !groupok(g->d)) return false; if(ix >= 0) lang = g->id; size_t n = get(g->d, 4, 2); f = g->d.substr(0, 6); bytes im; size_t skip = t.cur ? 4 : 0;
	for(size_t i = 0; i < n; ++i) { uint32_t id = (uint32_t)get(g->d, 18 + 14 * i, 2); const rent* e = fetch(d, t.one, kid(id), lang, ix < 0 || haslang(d, t.one, kid(id), lang) ? -1 : ix); if(!e || e->d.size() < skip) return false; f += entry(t, g->d, i, e->d, 6 + 16 * n + im.size()); im += e->d.substr(skip); }
	f += im; return true;
}
static bool onefile(const kind& t, rdir& d, uint32_t id, uint32_t lang, int ix, bytes& f)
{
	rdir* a = dirat(d, kid(t.one)); rdir* l = a ? dirat(*a, kid(id)) : 0; if(ix >= 0) { if(!l || (size_t)ix >= l->e.size()) return false; lang = l->e[ix].id; } const rent* e = fetch(d, t.one, kid(id), lang, ix); rdir* gs = dirat(d, kid(t.group)); if(!e || !gs) return false;
	for(int named = 0; named < 2; ++named) for(size_t i = 0; i < gs->e.size(); ++i) { rent& x = gs->e[i]; if(x.named != (named == 1)) continue; if(x.data) return false; rent* y = findid(x.sub[0], lang); if(!y) continue; if(!y->data || !groupok(y->d)) return false; size_t n = get(y->d, 4, 2); for(size_t k = 0; k < n; ++k) if(get(y->d, 18 + 14 * k, 2) == id) { if(t.cur && e->d.size() < 4) return false; f = y->d.substr(0, 4); p16(f, 1); f += entry(t, y->d, k, e->d, 22); f += e->d.substr(t.cur ? 4 : 0); return true; } }
	return false;
}
// unused ids: lowest first, or behind the highest
static bool freeids(const kind& t, rdir& d, bool gaps, size_t n, std::vector<uint32_t>& ids) { std::set<uint32_t> u; rdir* a = dirat(d, kid(t.one)); if(a) for(size_t i = 0; i < a->e.size(); ++i) if(!a->e[i].named) u.insert(a->e[i].id); uint32_t mx = u.empty() ? 0 : *u.rbegin(); ids.clear(); if(gaps) for(uint32_t i = 1; i < mx && i <= 65535 && ids.size() < n; ++i) if(!u.count(i)) ids.push_back(i); while(ids.size() < n) { if(mx >= 65535) return false; ids.push_back(++mx); } return true; }
static int add(const kind& t, rdir& d, const bytes& f, const key& k, uint32_t lang, bool gaps, uint32_t cp, uint32_t st)
{
	if(!good(f)) return 1; size_t n = get(f, 4, 2), old = 0; bytes g = f.substr(0, 6); const rent* have = fetch(d, t.group, k, lang, -1);
	if(have) { if(!groupok(have->d)) return 1; cp = have->cp; old = get(have->d, 4, 2); if(old + n > 65535) return 1; g = have->d.substr(0, 6 + 14 * old); put(g, 4, old + n, 2); }
	std::vector<uint32_t> ids; if(!freeids(t, d, gaps, n, ids)) return 1;
	for(size_t i = 0; i < n; ++i) { size_t o = 6 + 16 * i; bytes im = f.substr(get(f, o + 12, 4), get(f, o + 8, 4)); if(t.cur) { p16(g, (unsigned char)f[o]); p16(g, 2 * (unsigned char)f[o + 1]); p32(g, 0); p32(g, im.size() + 4); im = f.substr(o + 4, 4) + im; } else { g += f.substr(o, 12); } p16(g, ids[i]); if(madd(d, kid(t.one), kid(ids[i]), lang, im, cp, st)) return 1; }
	return madd(d, kid(t.group), k, lang, g, cp, st);
}
static int drop(const kind& t, rdir& d, const key& k, uint32_t lang, bool& hit)
{
	const rent* g = fetch(d, t.group, k, lang, -1); if(!g || !groupok(g->d)) return 1; bytes b = g->d; size_t n = get(b, 4, 2); for(size_t i = 0; i < n; ++i) if(mrem(d, 3, kid(t.one), kid((uint32_t)get(b, 18 + 14 * i, 2)), lang, hit)) return 1; return mrem(d, 3, kid(t.group), k, lang, hit);
}
static void reads(const kind& t, const pe_resource_viewer& v, rdir& d)
{
	resource_cursor_icon_reader r(v); std::string what; bytes w, g; for(int c = 0; c < 3; ++c)
	{
		key k = rgroup(); uint32_t lang = (uint32_t)below(3); int ix = chance(50) ? (int)below(3) : -1; bool ok = tofile(t, d, k, lang, ix, w); int e = run([&] { g = t.cur ? (ix < 0 ? (k.named ? r.get_cursor_by_name(lang, wide(k.name)) : r.get_cursor_by_id_lang(lang, k.id)) : k.named ? r.get_cursor_by_name(wide(k.name), ix) : r.get_cursor_by_id(k.id, ix)) : ix < 0 ? (k.named ? r.get_icon_by_name(lang, wide(k.name)) : r.get_icon_by_id_lang(lang, k.id)) : k.named ? r.get_icon_by_name(wide(k.name), ix) : r.get_icon_by_id(k.id, ix); }, &what);
		CHECK(e == (ok ? 0 : 1), "group: read or refused", what + " " + sk(k) + " " + num(lang) + "/" + num(ix)); if(ok && !e) { ++nontrivial_; stat_["groups read"]++; CHECK(g == w, "group: file of its images", hex(g, 200) + " expected " + hex(w, 200)); }
		uint32_t id = (uint32_t)below(6); ok = onefile(t, d, id, lang, ix, w); e = run([&] { g = t.cur ? (ix < 0 ? r.get_single_cursor_by_id_lang(lang, id) : r.get_single_cursor_by_id(id, ix)) : ix < 0 ? r.get_single_icon_by_id_lang(lang, id) : r.get_single_icon_by_id(id, ix); }, &what); CHECK(e == (ok ? 0 : 1), "single image: read or refused", what + " " + num(id) + " " + num(lang) + "/" + num(ix)); if(ok && !e) { stat_["images read"]++; CHECK(g == w, "single image: file", hex(g, 200) + " expected " + hex(w, 200)); }
	}
}
static rent leaf(uint32_t lang, const bytes& b) { rent e; e.id = lang; e.d = b; e.cp = (uint32_t)below(5); return e; }
static rent node(const key& k) { rent e; e.named = k.named; e.name = k.name; e.id = k.named ? 0 : k.id; e.data = false; e.sub.resize(1); return e; }
// a tree built by hand: groups of any bytes, images of any length
static rdir rtree2(const kind& t)
{
	rdir d; if(chance(15)) return d; rent o = node(kid(t.one)), g = node(kid(t.group)); uint32_t big = chance(15) ? pick<uint32_t>({65535, 65534, 65533, 65530, 70000, 0x10002}) : 0; std::set<uint32_t> used; size_t n = below(6);
	for(size_t i = 0; i < n; ++i) { uint32_t id = big && chance(40) ? big - (uint32_t)below(3) : (uint32_t)below(7); if(!used.insert(id).second) continue; rent e = node(kid(id)); std::set<uint32_t> ul; for(size_t k = 1 + below(3); k--;) { uint32_t lang = (uint32_t)below(3); if(ul.insert(lang).second) e.sub[0].e.push_back(leaf(lang, rbytes(chance(10) ? below(5) : 4 + below(16)))); } if(chance(3)) { rent x = node(kid(id)); x.sub[0].e.push_back(node(kid(0))); e = x; } o.sub[0].e.push_back(e); }
	if(chance(20)) { rent e = node(kid(0)); e.named = true; e.name = ustr(1, 'Z'); e.sub[0].e.push_back(leaf(0, "named")); o.sub[0].e.push_back(e); }
	for(int i = 0; i < 6; ++i) if(chance(40)) { key k; if(i < 3) k.id = i + 1; else { k.named = true; k.name = ustr(1, (uint16_t)('A' + i - 3)); } rent e = node(k); for(uint32_t lang = 0; lang < 3; ++lang) if(chance(50)) { size_t c = below(4); bytes b; p16(b, chance(80) ? 0 : 7); p16(b, t.cur ? 2 : 1); p16(b, c); for(size_t m = 0; m < c; ++m) { b += rbytes(12); if(chance(70)) put(b, b.size() - 4, below(24), 4); p16(b, below(7)); } if(chance(12)) b.resize(b.size() - std::min<size_t>(b.size(), chance(50) ? 1 : 1 + below(14))); if(chance(8)) b += rbytes(below(20)); if(chance(4)) put(b, 4, rnd() & 0xffff, 2); e.sub[0].e.insert(e.sub[0].e.begin() + below(e.sub[0].e.size() + 1), leaf(lang, b)); } if(!e.sub[0].e.empty()) g.sub[0].e.push_back(e); }
	if(chance(92)) d.e.push_back(o); if(chance(92)) d.e.insert(d.e.begin() + below(d.e.size() + 1), g); return d;
}
static void session()
{
	kind t(chance(50)); rdir d = rtree2(t); resource_directory root = make(d); pe_resource_manager m(root); cw w(m); std::string what, why; start(std::string(t.cur ? "cursors " : "icons ") + show(d)); reads(t, m, d); int steps = (int)range(1, 4); bool live = true;
	for(int s = 0; s < steps && live; ++s)
	{
		key k = rgroup(); uint32_t lang = (uint32_t)below(3); if(chance(75))
		{
			bool canon = chance(70), gaps = chance(50); bytes f = rfile(t, 1 + below(chance(10) ? 8 : 3), canon); if(chance(15)) { canon = false; if(chance(50)) f.resize(below(f.size())); else mutate(f, 0, f.size(), 1); } uint32_t cp = (uint32_t)rnd(), st = (uint32_t)rnd(); bool fresh = !fetch(d, t.group, k, lang, -1);
			start(std::string(t.cur ? "cursors " : "icons ") + show(d) + " add to " + sk(k) + " " + num(lang) + (gaps ? " free ids " : " after ") + hex(f, 200)); rdir before = d; int want = add(t, d, f, k, lang, gaps, cp, st), r = run([&] { cw::icon_place_mode pm = gaps ? cw::icon_place_free_ids : cw::icon_place_after_max_icon_id; if(t.cur) { if(k.named) w.add_cursor(f, wide(k.name), lang, pm, cp, st); else w.add_cursor(f, k.id, lang, pm, cp, st); } else if(k.named) w.add_icon(f, wide(k.name), lang, pm, cp, st); else w.add_icon(f, k.id, lang, pm, cp, st); }, &what);
			CHECK(r == want, "file: stored or refused", what); if(r || want) live = false; else { stat_["files stored"]++; CHECK(same(root, d, why, false), "file: stored as images and group", why); if(canon && fresh) { bytes g; r = run([&] { resource_cursor_icon_reader rd(m); g = t.cur ? (k.named ? rd.get_cursor_by_name(lang, wide(k.name)) : rd.get_cursor_by_id_lang(lang, k.id)) : k.named ? rd.get_icon_by_name(lang, wide(k.name)) : rd.get_icon_by_id_lang(lang, k.id); }, &what); CHECK(!r && g == f, "file: read back as stored", hex(g, 200)); } }
			if(want && same(root, before, why, false)) { d = before; live = true; }
		}
		else { start(std::string(t.cur ? "cursors " : "icons ") + show(d) + " remove " + sk(k) + " " + num(lang)); bool hit = false, got = false; int want = drop(t, d, k, lang, hit), r = run([&] { got = t.cur ? (k.named ? w.remove_cursor_group(wide(k.name), lang) : w.remove_cursor_group(k.id, lang)) : k.named ? w.remove_icon_group(wide(k.name), lang) : w.remove_icon_group(k.id, lang); }, &what); CHECK(r == want, "group: removed or refused", what); if(!r && !want) { CHECK(got == hit, "remove tells whether it removed", num(got)); stat_["removed"]++; CHECK(same(root, d, why, false), "remove: group and its images only", why); } else live = false; }
		if(live) reads(t, m, d); if(s == 0) sample(case_);
	}
}
// a group that cannot count the images added
static void full()
{
	kind t(chance(50)); rdir d; rent g = node(kid(t.group)), e = node(kid(1)); size_t old = 65535 - below(3); bytes b; p16(b, 0); p16(b, 1); p16(b, old); b.resize(6 + 14 * old); e.sub[0].e.push_back(leaf(0, b)); g.sub[0].e.push_back(e); d.e.push_back(g); resource_directory root = make(d); pe_resource_manager m(root); cw w(m); bytes f = rfile(t, 1 + below(3), true); start("group of " + num(old) + " add " + hex(f, 100)); std::string what, why; int want = add(t, d, f, kid(1), 0, false, 0, 0), r = run([&] { if(t.cur) w.add_cursor(f, 1, 0); else w.add_icon(f, 1, 0); }, &what); CHECK(r == want, "full group: added or refused", what); if(!r && !want) CHECK(same(root, d, why, false), "full group", why);
}
int main(int c, char** v) { init(c, v); do { if(chance(99.9)) session(); else full(); } while(more()); return finish(); }

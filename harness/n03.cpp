// Version information: blocks are built, damaged and read independently of the library.
#include "res.h"
typedef std::map<std::wstring, std::wstring> smap; typedef std::map<std::wstring, smap> lmap; typedef std::multimap<uint16_t, uint16_t> tmap;
struct ver { bool fixed; uint32_t f[13]; lmap s; tmap t; ver() : fixed(false) { std::memset(f, 0, sizeof f); } };
static bool bad(uint16_t c) { return c >= 0xd800 && c < 0xe000; }
static bool wtext(const bytes& b, size_t p, size_t n, std::wstring& w) { w.clear(); for(size_t i = 0; i < n; ++i) { uint16_t c = (uint16_t)get(b, p + 2 * i, 2); if(bad(c)) return false; w += (wchar_t)c; } return true; }
static bool keyat(const bytes& b, size_t p, size_t& n) { for(n = 0; p + 2 * n + 2 <= b.size(); ++n) if(!get(b, p + 2 * n, 2)) return true; return false; }
static size_t a4(size_t x) { return (x + 3) / 4 * 4; }
static bool keyis(const bytes& b, size_t p, size_t n, const char* s) { if(n != std::strlen(s)) return false; for(size_t i = 0; i < n; ++i) if(get(b, p + 2 * i, 2) != (unsigned char)s[i]) return false; return true; }
struct head { size_t len, vlen, key, kn, val, child; };
static bool block(const bytes& b, size_t p, head& h) { if(p + 8 > b.size()) return false; h.len = get(b, p, 2); h.vlen = get(b, p + 2, 2); h.key = p + 6; if(!keyat(b, h.key, h.kn)) return false; h.val = a4(h.key + 2 * (h.kn + 1)); h.child = h.val + a4(h.vlen); return h.len != 0; }
static bool parse(const bytes& b, ver& v)
{
	head r; if(!block(b, 0, r) && (b.size() < 8 || r.len)) return false; if(!keyis(b, r.key, r.kn, "VS_VERSION_INFO")) return false;
	if(r.vlen) { if(r.val + 52 > b.size() || get(b, r.val, 4) != 0xfeef04bd || get(b, r.val + 4, 4) != 0x10000) return false; v.fixed = true; for(int i = 0; i < 13; ++i) v.f[i] = (uint32_t)get(b, r.val + 4 * i, 4); }
	for(size_t c = r.child; c < r.len;)
	{
		head x; if(!block(b, c, x)) return false; bool str = keyis(b, x.key, x.kn, "StringFileInfo"); if(!str && !keyis(b, x.key, x.kn, "VarFileInfo")) return false;
		for(size_t t = x.child; t - c < x.len;)
		{
			head y; if(!block(b, t, y)) return false;
			if(str) { smap m; for(size_t s = y.child; s - t < y.len;) { head z; if(!block(b, s, z)) return false; std::wstring k, w; if(z.vlen) { if(z.val + 2 * z.vlen > b.size()) return false; size_t n = z.vlen; while(n && !get(b, z.val + 2 * (n - 1), 2)) --n; if(!wtext(b, z.val, n, w)) return false; } if(!wtext(b, z.key, z.kn, k)) return false; m.insert(std::make_pair(k, w)); s += a4(z.len); } std::wstring k; if(!wtext(b, y.key, y.kn, k)) return false; v.s.insert(std::make_pair(k, m)); }
			else if(keyis(b, y.key, y.kn, "Translation") && y.vlen) { if(y.val + y.vlen > b.size()) return false; for(size_t i = 0; i + 4 <= y.vlen; i += 4) v.t.insert(std::make_pair((uint16_t)get(b, y.val + i, 2), (uint16_t)get(b, y.val + i + 2, 2))); }
			t += a4(y.len);
		}
		c += a4(x.len);
	}
	return true;
}
// every block ends where its value or last child ends (padded or not) and says whether its value is text
static bool strict(const bytes& b, size_t p, int lv) { head h; if(!block(b, p, h) || p + h.len > b.size()) return false; bool tr = lv == 2 && keyis(b, h.key, h.kn, "Translation"); size_t end = lv == 3 ? h.val + 2 * h.vlen : tr ? h.val + h.vlen : h.child; if(lv != 3 && !tr) { if(h.vlen && lv) return false; for(size_t c = h.child; c < p + h.len;) { if(!strict(b, c, lv + 1)) return false; end = c + get(b, c, 2); c = a4(end); } } size_t t = get(b, p + 4, 2); return (p + h.len == end || p + h.len == a4(end)) && (lv == 3 ? t == 1 : !lv || tr ? !t : true); }
// independent builder
static void putkey(bytes& b, const std::wstring& k) { for(size_t i = 0; i < k.size(); ++i) p16(b, (uint16_t)k[i]); p16(b, 0); while(b.size() % 4) b += '\0'; }
static size_t open(bytes& b, uint32_t vlen, uint32_t type, const std::wstring& k) { while(b.size() % 4) b += '\0'; size_t o = b.size(); p16(b, 0); p16(b, vlen); p16(b, type); putkey(b, k); return o; }
static void shut(bytes& b, size_t o) { put(b, o, b.size() - o, 2); }
static std::wstring wname(size_t lo, size_t hi) { return wide(uname(lo, hi)); }
static std::wstring lang() { return chance(50) ? L"041904b0" : chance(60) ? pick<std::wstring>({L"040904b0", L"040904B0", L"041904B0", L"00000000", L"ffffFFFF", L"0Aa00aA0"}) : wname(1, 8); }
static smap rsmap() { smap m; for(size_t n = below(4); n--;) m[chance(50) ? pick<std::wstring>({L"CompanyName", L"FileVersion", L"ProductName"}) : wname(chance(5) ? 0 : 1, 9)] = wname(0, chance(1) ? 700 : 9); return m; }
static void rver(ver& v) { for(int i = 0; i < 13; ++i) v.f[i] = (uint32_t)rnd(); v.f[0] = 0xfeef04bd; v.f[1] = 0x10000; for(size_t n = below(4); n--;) v.s[lang()] = rsmap(); for(size_t n = below(4); n--;) v.t.insert(std::make_pair(chance(50) ? 0x419 : (uint16_t)rnd(), chance(50) ? 0x4b0 : (uint16_t)rnd())); }
static bytes build(const ver& v, bool pad)
{
	bytes b; size_t r = open(b, v.fixed ? 52 : 0, 0, L"VS_VERSION_INFO"); if(v.fixed) for(int i = 0; i < 13; ++i) p32(b, v.f[i]);
	for(int half = 0; half < 2; ++half) { if(half == 0 && !v.s.empty()) { size_t o = open(b, 0, 1, L"StringFileInfo"); for(lmap::const_iterator t = v.s.begin(); t != v.s.end(); ++t) { size_t p = open(b, 0, 1, t->first); for(smap::const_iterator s = t->second.begin(); s != t->second.end(); ++s) { size_t nul = pad ? below(3) : 1, n = s->second.size() + nul; size_t q = open(b, n, 1, s->first); for(size_t i = 0; i < n; ++i) p16(b, i < s->second.size() ? s->second[i] : 0); shut(b, q); } shut(b, p); } shut(b, o); }
		if(half == 1 && !v.t.empty()) { size_t o = open(b, 0, 1, L"VarFileInfo"); if(pad && chance(20)) { size_t p = open(b, 4, 0, L"Other"); p32(b, 1); shut(b, p); } size_t p = open(b, 4 * v.t.size(), 0, L"Translation"); for(tmap::const_iterator t = v.t.begin(); t != v.t.end(); ++t) { p16(b, t->first); p16(b, t->second); } if(pad && chance(8)) { shut(b, p); p = open(b, 0, 0, L""); } else if(pad && chance(10)) { put(b, p + 2, 4 * v.t.size() + 1 + below(3), 2); b += "abc"; } shut(b, p); shut(b, o); } }
	if(pad && chance(8)) shut(b, open(b, 0, 1, chance(50) ? L"StringFileInfo" : L"VarFileInfo")); shut(b, r); if(pad && chance(10)) while(b.size() > 2 && chance(90) && !get(b, b.size() - 2, 2)) b.resize(b.size() - 2); return b;
}
static bool eqf(const file_version_info& i, const uint32_t* f) { uint32_t g[] = {i.get_file_version_ms(), i.get_file_version_ls(), i.get_product_version_ms(), i.get_product_version_ls(), i.get_file_flags(), i.get_file_os_raw(), i.get_file_type_raw(), i.get_file_subtype(), i.get_file_date_ms(), i.get_file_date_ls()}; const int at[] = {2, 3, 4, 5, 7, 8, 9, 10, 11, 12}; for(int k = 0; k < 10; ++k) if(g[k] != f[at[k]]) return false; return true; }
static std::string shows(const lmap& m) { std::string s; for(lmap::const_iterator t = m.begin(); t != m.end(); ++t) { s += "["; for(size_t i = 0; i < t->first.size(); ++i) s += (char)t->first[i]; s += ":" + num(t->second.size()) + "]"; } return s; }
static rdir holder(uint32_t l, const bytes& b, uint32_t& ix) { rdir d, n, g; rent x; x.id = l; x.d = b; if(chance(30)) { rent y; y.id = l + 1; y.d = rbytes(below(60)); g.e.push_back(y); } ix = (uint32_t)below(g.e.size() + 1); g.e.insert(g.e.begin() + ix, x); rent e; e.id = 1; e.data = false; e.sub.push_back(g); n.e.push_back(e); rent t; t.id = 16; t.data = false; t.sub.push_back(n); d.e.push_back(t); return d; }
static void read(const resource_directory& root, uint32_t l, int ix, const bytes& b, const char* what0)
{
	ver w; bool ok = parse(b, w); pe_resource_viewer v(root); resource_version_info_reader r(v); lang_string_values_map s; translation_values_map t; file_version_info i; std::string what; int e = run([&] { i = ix < 0 ? r.get_version_info_by_lang(s, t, l) : r.get_version_info(s, t, ix); }, &what); CHECK(e == (ok ? 0 : 1), std::string(what0) + ": read or refused", what);
	if(ok && !e) { ++nontrivial_; stat_["blocks read"]++; stat_["strings"] += s.size(); CHECK(eqf(i, w.f), std::string(what0) + ": fixed numbers", ""); CHECK(s == w.s, std::string(what0) + ": string tables", shows(s) + " expected " + shows(w.s)); CHECK(t == w.t, std::string(what0) + ": translations", num(t.size())); }
}
static void reads()
{
	ver v; rver(v); v.fixed = chance(85); bytes b = build(v, true); if(chance(25)) b.resize(chance(50) ? b.size() - std::min<size_t>(b.size(), 1 + below(9)) : below(b.size())); if(chance(35)) { if(chance(50) && b.size() > 4) { size_t o = 2 * below(b.size() / 2); put(b, o, chance(25) ? 65535 - below(8) : get(b, o, 2) + below(9) - 4, 2); } else mutate(b, 0, b.size(), 1 + below(2)); } if(chance(10)) b += rbytes(below(6)); uint32_t l = (uint32_t)below(3), ix; rdir d = holder(l, b, ix); resource_directory root = make(d); start("version block " + hex(b, 900)); read(root, l, chance(50) ? (int)ix : -1, b, "read"); sample(case_);
}
static void writes()
{
	ver v; rver(v); bool surr = false; if(chance(2)) { std::wstring x; x += (wchar_t)0xd800; if(chance(50)) x[0] = 0x12345; v.s[lang()][L"k"] = x; surr = true; } size_t big = 0; if(chance(3)) { size_t have = build(([&] { ver w = v; w.fixed = true; if(w.s.empty()) w.s[L"a"]; return w; })(), false).size(); if(v.s.empty()) v.s[L"a"]; smap& m = v.s.begin()->second; size_t room = have < 65500 ? (65500 - have) / 2 + below(30) - 6 : 1; m[L"zz"] = std::wstring(room, L'x'); if(surr) { v.s.clear(); surr = false; } big = 1; }
	file_version_info i; i.set_file_version_ms(v.f[2]); i.set_file_version_ls(v.f[3]); i.set_product_version_ms(v.f[4]); i.set_product_version_ls(v.f[5]); i.set_file_flags(v.f[7]); i.set_file_os_raw(v.f[8]); i.set_file_type_raw(v.f[9]); i.set_file_subtype(v.f[10]); i.set_file_date_ms(v.f[11]); i.set_file_date_ls(v.f[12]); if(chance(20)) { i.set_file_os(file_version_info::file_os_nt_win32); i.set_file_type(file_version_info::file_type_dll); v.f[8] = 0x40004; v.f[9] = 2; }
	uint32_t l = (uint32_t)below(3), ix, cp = (uint32_t)rnd(), st = (uint32_t)rnd(); rdir d = chance(50) ? rdir() : holder((uint32_t)below(3), "old", ix); resource_directory root = make(d); pe_resource_manager m(root); v.fixed = true; size_t size = surr ? 0 : a4(build(v, false).size()); start("write version strings " + shows(v.s) + " translations " + num(v.t.size()) + " size " + num(size)); std::string what, why; resource_version_info_writer w(m); bool ok = !surr && size <= 65535; rdir before = d;
	int r = run([&] { w.set_version_info(i, v.s, v.t, l, cp, st); }, &what); CHECK(r == (ok ? 0 : 1), "write: stored or refused", what); if(!ok) { CHECK(same(root, before, why, false), "write: refused without change", why); stat_["refused"]++; return; } if(r) return; stat_["blocks written"]++; if(big) stat_["large blocks"]++;
	bytes b; run([&] { b = m.get_resource_data_by_id(l, pe_resource_viewer::resource_version, 1).get_data(); }); rdir want = d; madd(want, ([] { H::key k; k.id = 16; return k; })(), ([] { H::key k; k.id = 1; return k; })(), l, b, cp, st); CHECK(same(root, want, why, false), "write: this resource only", why); ver g; bool p = parse(b, g); CHECK(p && g.fixed && g.s == v.s && g.t == v.t && g.f[6] == 0x3f, "write: block holds the values", shows(g.s) + " expected " + shows(v.s)); v.f[6] = 0x3f; CHECK(!std::memcmp(g.f, v.f, sizeof v.f), "write: block holds the fixed numbers", ""); CHECK(get(b, 0, 2) == b.size() && strict(b, 0, 0), "write: lengths and types of the blocks", hex(b, 900)); read(root, l, -1, b, "written block");
	if(chance(30)) { bool got = false, hit; madd(want, ([] { H::key k; k.id = 16; return k; })(), ([] { H::key k; k.id = 1; return k; })(), l, b, cp, st); r = run([&] { got = w.remove_version_info(l); }, &what); H::key a, c; a.id = 16; c.id = 1; mrem(want, 3, a, c, l, hit); CHECK(!r && got && same(root, want, why, false), "remove: this resource only", why); }
}
static std::wstring hex8(uint32_t x) { const wchar_t* h = L"0123456789abcdef"; std::wstring s; for(int i = 28; i >= 0; i -= 4) s += h[x >> i & 15]; return s; }
static bool samehex(const std::wstring& a, const std::wstring& low) { if(a.size() != low.size()) return false; for(size_t i = 0; i < a.size(); ++i) if((a[i] >= 'A' && a[i] <= 'F' ? a[i] + 32 : a[i]) != low[i]) return false; return true; }
static void edits()
{
	ver v; rver(v); if(chance(15)) v.s.clear(); std::unique_ptr<lang_string_values_map> sp(new lang_string_values_map(v.s)); std::unique_ptr<translation_values_map> tp(new translation_values_map(v.t)); lang_string_values_map& s = *sp; translation_values_map& t = *tp; start("edit version strings " + shows(s)); version_info_editor e(s, t); std::string what; const std::wstring def = L"041904b0"; const wchar_t* nm[] = {L"CompanyName", L"FileDescription", L"FileVersion", L"InternalName", L"LegalCopyright", L"OriginalFilename", L"ProductName", L"ProductVersion"};
	for(int k = (int)range(1, 6); k--;)
	{
		int op = (int)below(5); std::wstring tr = chance(40) ? std::wstring() : chance(70) ? hex8(chance(50) ? 0x041904b0 : chance(40) ? 0x040904b0 : (uint32_t)rnd()) : pick<std::wstring>({L"040904B0", L"041904B0", L"ffffFFFF", L"0aA00aA0"}); uint32_t id = 0; for(size_t i = 0; i < tr.size(); ++i) id = id * 16 + (uint32_t)(tr[i] <= '9' ? tr[i] - '0' : (tr[i] | 32) - 'a' + 10); std::pair<uint16_t, uint16_t> pr((uint16_t)(id >> 16), (uint16_t)id); bool known = false; for(tmap::iterator i = v.t.begin(); i != v.t.end(); ++i) known |= i->first == pr.first && i->second == pr.second; int r = 0;
		if(op < 2) { int which = (int)below(9); std::wstring name = which < 8 ? nm[which] : wname(1, 6), val = wname(0, 6), key = tr; if(tr.empty()) key = v.s.count(def) ? def : v.s.empty() ? def : v.s.begin()->first; if(!v.s.count(key)) { std::pair<uint16_t, uint16_t> q = tr.empty() ? std::make_pair((uint16_t)0x419, (uint16_t)0x4b0) : pr; bool kn = false; for(tmap::iterator i = v.t.begin(); i != v.t.end(); ++i) kn |= i->first == q.first && i->second == q.second; if(!kn) v.t.insert(q); } v.s[key][name] = val;
			r = run([&] { switch(which) { case 0: e.set_company_name(val, tr); break; case 1: e.set_file_description(val, tr); break; case 2: e.set_file_version(val, tr); break; case 3: e.set_internal_name(val, tr); break; case 4: e.set_legal_copyright(val, tr); break; case 5: e.set_original_filename(val, tr); break; case 6: e.set_product_name(val, tr); break; case 7: e.set_product_version(val, tr); break; default: e.set_property(name, val, tr); } }, &what); }
		else if(op == 4) ; else if(tr.empty()) continue;
		else if(op == 2) { if(!known) v.t.insert(pr); r = run([&] { if(chance(50)) e.add_translation(tr); else e.add_translation(pr.first, pr.second); }, &what); }
		else { std::wstring low = hex8(id); for(lmap::iterator i = v.s.begin(); i != v.s.end();) if(samehex(i->first, low)) v.s.erase(i++); else ++i; for(tmap::iterator i = v.t.begin(); i != v.t.end(); ++i) if(i->first == pr.first && i->second == pr.second) { v.t.erase(i); break; } r = run([&] { if(chance(50)) e.remove_translation(tr); else e.remove_translation(pr.first, pr.second); }, &what); }
		CHECK(!r, "edit succeeds", what); CHECK(s == v.s, "edit: strings", shows(s) + " expected " + shows(v.s)); CHECK(t == v.t, "edit: translations", num(t.size())); stat_["edits"]++;
		int which = (int)below(9); std::wstring name = which < 8 ? nm[which] : chance(50) || v.s.empty() || v.s.begin()->second.empty() ? wname(1, 4) : v.s.begin()->second.begin()->first, key = tr, g; bool thr = chance(50); if(tr.empty() && !v.s.empty()) key = v.s.count(def) ? def : v.s.begin()->first; bool has = v.s.count(key) && v.s[key].count(name);
		r = run([&] { switch(which) { case 0: g = e.get_company_name(tr); break; case 1: g = e.get_file_description(tr); break; case 2: g = e.get_file_version(tr); break; case 3: g = e.get_internal_name(tr); break; case 4: g = e.get_legal_copyright(tr); break; case 5: g = e.get_original_filename(tr); break; case 6: g = e.get_product_name(tr); break; case 7: g = e.get_product_version(tr); break; default: g = e.get_property(name, tr, thr); } }, &what); CHECK(r == (has || which < 8 || !thr ? 0 : 1), "property: returned or refused", what); if(!r) CHECK(g == (has ? v.s[key][name] : std::wstring()), "property: its value", "");
		std::vector<std::wstring> l = e.get_translation_list(), wl; for(tmap::iterator i = v.t.begin(); i != v.t.end(); ++i) wl.push_back(hex8((uint32_t)i->first << 16 | i->second)); CHECK(l == wl, "list of translations", ""); CHECK(version_info_viewer::translation_from_string(hex8(id)) == pr, "translation from text", num(id));
	}
}
int main(int c, char** v) { init(c, v); do { if(chance(50)) reads(); else if(chance(60)) writes(); else edits(); } while(more()); return finish(); }

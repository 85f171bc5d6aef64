// String and message tables: an independent reading of the resource bytes decides what must come back.
#include "res.h"
static rdir holder(uint32_t type, uint32_t id, uint32_t lang, const bytes& data) { rdir d, n, l; rent x; x.id = lang; x.d = data; if(chance(30)) { rent y; y.id = lang + 1; y.d = rbytes(below(80)); l.e.push_back(y); } l.e.insert(l.e.begin() + below(l.e.size() + 1), x); rent e; e.id = id; e.data = false; e.sub.push_back(l); n.e.push_back(e); rent t; t.id = type; t.data = false; t.sub.push_back(n); d.e.push_back(t); return d; }
static bool units(const bytes& b, size_t o, size_t n, std::wstring& w) { w.clear(); for(size_t i = 0; i < n; ++i) { uint16_t c = (uint16_t)get(b, o + 2 * i, 2); if(c >= 0xd800 && c < 0xe000) return false; w += (wchar_t)c; } return true; }
static void strings()
{
	bytes t; for(int i = 0; i < 16; ++i) { ustr u = chance(40) ? ustr() : uname(0, 6); p16(t, u.size()); for(size_t k = 0; k < u.size(); ++k) p16(t, u[k]); } if(chance(25)) t.resize(chance(50) ? t.size() - std::min<size_t>(t.size(), 1 + below(6)) : below(t.size())); if(chance(25)) mutate(t, 0, t.size(), 1 + below(2)); if(chance(20)) t += rbytes(below(5)); if(chance(8)) { size_t o = 0; t.clear(); int n = (int)below(15); for(int i = 0; i < n; ++i) p16(t, 0); o = t.size(); uint32_t len = 2 + (uint32_t)below(40); p16(t, len); for(uint32_t i = 0; i < len - below(3); ++i) p16(t, 'a'); t.resize(std::min<size_t>(t.size(), o + 2 + len + below(len + 1))); }
	std::map<uint16_t, std::wstring> w; bool ok = true; size_t p = 0; uint32_t id = chance(90) ? 1 + (uint32_t)below(4096) : chance(50) ? 1 : 4096; for(uint32_t i = 0; i < 16 && ok; ++i) { if(p + 2 > t.size()) { ok = false; break; } size_t n = get(t, p, 2); p += 2; std::wstring s; if(p + 2 * n > t.size() || !units(t, p, n, s)) { ok = false; break; } if(n) w[(uint16_t)(16 * (id - 1) + i)] = s; p += 2 * n; }
	uint32_t lang = (uint32_t)below(3); rdir d = holder(6, id, lang, t); resource_directory root = make(d); pe_resource_viewer v(root); resource_string_table_reader rd(v); uint32_t ix = 0; while(d.e[0].sub[0].e[0].sub[0].e[ix].id != lang) ++ix; start("string table " + num(id) + " " + hex(t, 300)); std::string what;
	for(int k = 0; k < 2; ++k) { resource_string_list l; int r = run([&] { l = k ? rd.get_string_table_by_id_lang(lang, id) : rd.get_string_table_by_id(id, ix); }, &what); CHECK(r == (ok ? 0 : 1), "string table: read or refused", what); if(!r && ok) { ++nontrivial_; stat_["string tables"]++; CHECK(l == w, "string table: strings as stored", num(l.size()) + " expected " + num(w.size())); } }
	for(int k = 0; k < 4; ++k) { uint16_t s = (uint16_t)(16 * (id - 1) + below(16)); if(k == 3) s = (uint16_t)(s + pick<int>({16, -16})); bool has = ok && w.count(s); std::wstring g; int r = run([&] { g = k % 2 ? rd.get_string_by_id_lang(lang, s) : rd.get_string_by_id(s, ix); }, &what); CHECK(r == (has ? 0 : 1), "string: found or refused", num(s)); if(!r && has) CHECK(g == w[s], "string: as stored", num(s)); }
	std::wstring g; CHECK(run([&] { g = rd.get_string_by_id_lang(lang + 5, (uint16_t)(16 * (id - 1))); }, &what) == 1, "string: absent language is refused", ""); sample(case_);
}
static void messages()
{
	size_t nb = below(4); bytes t, es; p32(t, nb); uint32_t eo = 4 + 12 * (uint32_t)nb + (chance(20) ? 4 * (uint32_t)below(3) : 0), id = chance(90) ? (uint32_t)below(1000) : 0xffffffe0u + (uint32_t)below(32);
	for(size_t i = 0; i < nb; ++i) { uint32_t lo = id, n = 1 + (uint32_t)below(3), hi = lo + n - 1; if(hi < lo) hi = 0xffffffffu; id = hi + 1 + (uint32_t)below(5); p32(t, lo); p32(t, hi); p32(t, eo + (uint32_t)es.size()); for(uint64_t c = lo; c <= hi; ++c) { bool u = chance(50); bytes b; if(u) { ustr s = uname(0, 5); for(size_t k = 0; k < s.size(); ++k) p16(b, s[k]); if(chance(70)) p16(b, 0); } else { b = rname(0, 7); if(chance(70)) b += '\0'; } if(chance(80)) while(b.size() % 4) b += '\0'; p16(es, 4 + b.size()); p16(es, u ? 1 : chance(90) ? 0 : 2); es += b; } }
	t.resize(eo); t += es; if(chance(20)) t.resize(t.size() - std::min<size_t>(t.size(), 1 + below(8))); if(chance(30)) { if(chance(50) && nb) put(t, 4 + 4 * below(3 * nb), chance(50) ? edge32() : get(t, 4 + 4 * below(3 * nb), 4) + below(5) - 2, 4); else mutate(t, 0, t.size(), 1 + below(2)); }
	struct msg { bool u; bytes a; std::wstring w; }; std::map<uint32_t, msg> w; bool ok = t.size() >= 4; uint64_t n = ok ? get(t, 0, 4) : 0; if(ok && 4 + 12 * n > t.size()) ok = false; bool either = ok && t.size() < 16;
	for(uint64_t i = 0; i < n && ok; ++i) { uint64_t lo = get(t, 4 + 12 * i, 4), hi = get(t, 8 + 12 * i, 4), p = get(t, 12 + 12 * i, 4); if(lo > hi) ok = false; for(uint64_t c = lo; c <= hi && ok; ++c) { if(p + 4 > t.size()) { ok = false; break; } size_t len = get(t, p, 2); msg m; m.u = get(t, p + 2, 2) & 1; if(len < 4 || p + len > t.size() || (m.u && len % 2)) { ok = false; break; } if(m.u) { if(!units(t, p + 4, (len - 4) / 2, m.w)) { ok = false; break; } while(!m.w.empty() && !m.w[m.w.size() - 1]) m.w.resize(m.w.size() - 1); } else { m.a = t.substr(p + 4, len - 4); while(!m.a.empty() && !m.a[m.a.size() - 1]) m.a.resize(m.a.size() - 1); } w.insert(std::make_pair((uint32_t)c, m)); p += len; } }
	uint32_t rid = (uint32_t)below(9), lang = (uint32_t)below(3); rdir d = holder(11, rid, lang, t); resource_directory root = make(d); pe_resource_viewer v(root); resource_message_list_reader rd(v); uint32_t ix = 0; while(d.e[0].sub[0].e[0].sub[0].e[ix].id != lang) ++ix; start("message table " + hex(t, 300)); std::string what;
	for(int k = 0; k < 2; ++k) { resource_message_list l; int r = run([&] { l = k ? rd.get_message_table_by_id_lang(lang, rid) : rd.get_message_table_by_id(rid, ix); }, &what); if(r == 1 && either) continue; CHECK(r == (ok ? 0 : 1), "message table: read or refused", what); if(r || !ok) continue; ++nontrivial_; stat_["message tables"]++; CHECK(l.size() == w.size(), "message table: one message per id", num(l.size()) + " expected " + num(w.size())); resource_message_list::const_iterator a = l.begin(); for(std::map<uint32_t, msg>::iterator b = w.begin(); b != w.end() && a != l.end(); ++b, ++a) CHECK(a->first == b->first && a->second.is_unicode() == b->second.u && a->second.get_ansi_string() == b->second.a && a->second.get_unicode_string() == b->second.w, "message: as stored", num(a->first) + " expected " + num(b->first)); }
	CHECK(run([&] { rd.get_message_table_by_id_lang(lang + 5, rid); }, &what) == 1 && run([&] { rd.get_message_table_by_id(rid + 1); }, &what) == 1, "message table: absent ones are refused", ""); sample(case_);
}
static void items() { bytes a = rbytes(below(6)), b = a; std::wstring w, x; for(size_t i = below(5); i; --i) w += (wchar_t)below(2000); if(chance(50)) { a += bytes(below(3), '\0'); w += std::wstring(below(3), L'\0'); b = a; } x = w; while(!b.empty() && !b[b.size() - 1]) b.resize(b.size() - 1); while(!x.empty() && !x[x.size() - 1]) x.resize(x.size() - 1); start("message " + hex(a)); message_table_item i(a), j(w), k; CHECK(!i.is_unicode() && i.get_ansi_string() == b && i.get_unicode_string().empty() && j.is_unicode() && j.get_unicode_string() == x && j.get_ansi_string().empty() && !k.is_unicode() && k.get_ansi_string().empty() && k.get_unicode_string().empty(), "message item", ""); i.set_string(w); j.set_string(a); CHECK(i.is_unicode() && i.get_unicode_string() == x && i.get_ansi_string().empty() && !j.is_unicode() && j.get_ansi_string() == b && j.get_unicode_string().empty(), "message item set", ""); }
int main(int c, char** v) { init(c, v); do { if(chance(48)) strings(); else if(chance(95)) messages(); else items(); } while(more()); return finish(); }

// Bitmaps: the file built from a resource and the resource built from a file, compared with the bitmap header's own arithmetic.
#include "res.h"
typedef pe_resource_viewer::resource_type rt;
static bytes bitmap() { bytes h; p32(h, 40); p32(h, (uint32_t)below(100)); p32(h, (uint32_t)below(100)); p16(h, 1); p16(h, chance(70) ? pick<uint32_t>({1, 4, 8, 16, 24, 32}) : (uint32_t)below(33)); p32(h, chance(80) ? 0 : (uint32_t)below(3)); p32(h, (uint32_t)rnd()); p32(h, 0); p32(h, 0); p32(h, chance(50) ? 0 : chance(70) ? (uint32_t)below(300) : (uint32_t)rnd() & 0xfffffff); p32(h, 0); h += rbytes(below(60)); if(chance(8)) h = rbytes(below(44)); if(chance(4)) h.resize(40); return h; }
static void one()
{
	rdir d; if(chance(30)) { rent t; t.id = 2; t.data = false; t.sub.push_back(rdir()); d.e.push_back(t); } if(chance(20)) { rent t; t.id = 3; t.d = "x"; d.e.push_back(t); } resource_directory root = make(d); pe_resource_manager m(root); resource_bitmap_writer w(m); resource_bitmap_reader rd(m); bool named = chance(50); std::wstring nm = wide(uname(1, 4)); uint32_t id = (uint32_t)below(5), lang = (uint32_t)below(3); bytes dib = bitmap(), file = rbytes(14) + dib; if(chance(5)) file = rbytes(below(14)); bytes body = file.size() >= 14 ? file.substr(14) : bytes();
	start("bitmap " + hex(file, 80)); std::string what, why; uint32_t cp = (uint32_t)rnd(), st = (uint32_t)rnd(); int r = run([&] { if(named) w.add_bitmap(file, nm, lang, cp, st); else w.add_bitmap(file, id, lang, cp, st); }, &what); CHECK(r == (file.size() < 14 ? 1 : 0), "write: a file shorter than its header is refused, others are stored", what);
	if(r) { CHECK(same(root, d, why), "write: refused before anything is changed", why); return; }
	rdir e = d; size_t ti = 0; while(ti < e.e.size() && e.e[ti].id != 2) ++ti; if(ti == e.e.size()) { rent t; t.id = 2; t.data = false; t.sub.resize(1); t.sub[0].stamp = st; e.e.push_back(t); } rent n; n.named = named; n.id = named ? 0 : id; n.data = false; n.sub.resize(1); n.sub[0].stamp = st; if(named) for(size_t i = 0; i < nm.size(); ++i) n.name.push_back((uint16_t)nm[i]); rent x; x.id = lang; x.d = body; x.cp = cp; n.sub[0].e.push_back(x); e.e[ti].sub[0].e.push_back(n); CHECK(same(root, e, why, false), "write: exactly the bytes behind the file header are stored", why);
	bool ok = body.size() >= 40; bytes want; if(ok) { uint32_t clr = (uint32_t)get(body, 32, 4), bits = (uint32_t)get(body, 14, 2), off = 54; if(clr) off += 4 * clr; else if(bits <= 8) off += 4u << bits; want = "BM"; p32(want, 14 + body.size()); p32(want, 0); p32(want, off); want += body; }
	for(int k = 0; k < 2; ++k) { bytes got; r = run([&] { got = k ? (named ? rd.get_bitmap_by_name(lang, nm) : rd.get_bitmap_by_id_lang(lang, id)) : (named ? rd.get_bitmap_by_name(nm) : rd.get_bitmap_by_id(id)); }, &what); CHECK(r == (ok ? 0 : 1), "read: a bitmap shorter than its header is refused, others are read", what); if(!r && ok) { ++nontrivial_; CHECK(got == want, "read: file header and bytes", hex(got, 60) + " expected " + hex(want, 60)); } }
	sample(case_); std::wstring no = nm + L"x"; bytes g; r = run([&] { g = named ? rd.get_bitmap_by_name(lang, no) : rd.get_bitmap_by_id_lang(lang + 7, id); }, &what); CHECK(r == 1, "read: an absent bitmap is refused", ""); r = run([&] { g = named ? rd.get_bitmap_by_name(nm, 1) : rd.get_bitmap_by_id(id, 1); }, &what); CHECK(r == 1, "read: an absent index is refused", ""); r = run([&] { g = named ? rd.get_bitmap_by_name(lang + 1, nm) : rd.get_bitmap_by_id_lang(lang, id + 1); }, &what); CHECK(r == 1, "read: an absent language or id is refused", "");
	CHECK(!(named ? w.remove_bitmap(no, lang) : w.remove_bitmap(id + 1, lang)), "remove: absent", ""); CHECK(named ? w.remove_bitmap(nm, lang) : w.remove_bitmap(id, lang), "remove: present", ""); e = d; if(ti < e.e.size()) e.e.erase(e.e.begin() + ti); CHECK(same(root, e, why, false), "remove: only that bitmap", why);
}
int main(int c, char** v) { init(c, v); do one(); while(more()); return finish(); }

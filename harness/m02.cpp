// Resource lookups and edits compared with a plain description of the tree after every step.
#include "res.h"
typedef pe_resource_viewer::resource_type rt;
// a name or id that is often present, sometimes present as the other kind only
static key rkey(const rdir* d) { key k; k.named = chance(40); k.id = (uint32_t)below(5); k.name = uname(0, 2); if(d && !d->e.empty() && chance(75)) { const rent& e = d->e[below(d->e.size())]; k.named = e.named; k.name = e.name; k.id = e.id; } return k; }
static rdir small(int depth) { rdir d; d.stamp = (uint32_t)rnd(); size_t n = below(4); for(size_t i = 0; i < n; ++i) { rent e; e.named = chance(35); if(e.named) e.name = uname(chance(5) ? 0 : 1, 2); else e.id = (uint32_t)below(5); if(depth > 1 && chance(93)) { e.data = false; e.sub.push_back(small(depth - 1)); } else if(depth == 1 && chance(4)) { e.data = false; e.sub.push_back(small(1)); } else { e.d = rbytes(below(12)); e.cp = (uint32_t)rnd(); } d.e.push_back(e); } return d; }
static std::vector<uint32_t> ids(const rdir& d) { std::vector<uint32_t> r; for(size_t i = 0; i < d.e.size(); ++i) if(!d.e[i].named) r.push_back(d.e[i].id); return r; }
static std::vector<std::wstring> names(const rdir& d) { std::vector<std::wstring> r; for(size_t i = 0; i < d.e.size(); ++i) if(d.e[i].named) r.push_back(wide(d.e[i].name)); return r; }
#define FORM(k, l, N, I) (k.named ? (l.named ? N(wide(k.name), wide(l.name)) : I(wide(k.name), l.id)) : (l.named ? N((rt)k.id, wide(l.name)) : I((rt)k.id, l.id)))
static void lookup(const pe_resource_viewer& v, rdir& d)
{
	std::string what; CHECK(v.list_resource_types() == ids(d), "list of types", ""); key k = rkey(&d); rent* t = find(d, k); CHECK((k.named ? v.resource_exists(wide(k.name)) : v.resource_exists((rt)k.id)) == (t != 0), "type or root name exists", sk(k)); bool td = t && !t->data;
	uint32_t n = 0; int r = run([&] { n = k.named ? v.get_resource_count(wide(k.name)) : v.get_resource_count((rt)k.id); }, &what); CHECK(r == (td ? 0 : 1), "resource count answers or refuses", what); if(td && !r) CHECK(n == t->sub[0].e.size(), "resource count", num(n));
	std::vector<uint32_t> li; std::vector<std::wstring> ln; r = run([&] { li = k.named ? v.list_resource_ids(wide(k.name)) : v.list_resource_ids((rt)k.id); ln = k.named ? v.list_resource_names(wide(k.name)) : v.list_resource_names((rt)k.id); }, &what); CHECK(r == (td ? 0 : 1), "resource lists answer or refuse", what); if(td && !r) CHECK(li == ids(t->sub[0]) && ln == names(t->sub[0]), "lists of ids and names", sk(k));
	key l = rkey(td ? &t->sub[0] : 0); rent* e = td ? find(t->sub[0], l) : 0; bool ed = e && !e->data; r = run([&] { n = FORM(k, l, v.get_language_count, v.get_language_count); li = FORM(k, l, v.list_resource_languages, v.list_resource_languages); }, &what); CHECK(r == (ed ? 0 : 1), "languages answer or refuse", what); if(ed && !r) CHECK(n == ids(e->sub[0]).size() && li == ids(e->sub[0]), "language count and list", sk(k) + " " + sk(l));
	key g = rkey(ed ? &e->sub[0] : 0); uint32_t lang = g.id; rent* x = ed ? findid(e->sub[0], lang) : 0; bool xd = x && x->data; bytes b; uint32_t cp = 0; r = run([&] { resource_data_info i = k.named ? (l.named ? v.get_resource_data_by_name(lang, wide(k.name), wide(l.name)) : v.get_resource_data_by_id(lang, wide(k.name), l.id)) : (l.named ? v.get_resource_data_by_name(lang, (rt)k.id, wide(l.name)) : v.get_resource_data_by_id(lang, (rt)k.id, l.id)); b = i.get_data(); cp = i.get_codepage(); }, &what); CHECK(r == (xd ? 0 : 1), "data by language answers or refuses", what); if(xd && !r) { ++nontrivial_; CHECK(b == x->d && cp == x->cp, "data by language", hex(b)); }
	uint32_t ix = (uint32_t)below(4); x = ed && ix < e->sub[0].e.size() ? &e->sub[0].e[ix] : 0; xd = x && x->data; r = run([&] { resource_data_info i = k.named ? (l.named ? v.get_resource_data_by_name(wide(k.name), wide(l.name), ix) : v.get_resource_data_by_id(wide(k.name), l.id, ix)) : (l.named ? v.get_resource_data_by_name((rt)k.id, wide(l.name), ix) : v.get_resource_data_by_id((rt)k.id, l.id, ix)); b = i.get_data(); cp = i.get_codepage(); }, &what); CHECK(r == (xd ? 0 : 1), "data by index answers or refuses", what); if(xd && !r) CHECK(b == x->d && cp == x->cp, "data by index", hex(b));
}
static const resource_directory* sub(const resource_directory& r, const key& k) { try { return &(k.named ? r.entry_by_name(wide(k.name)) : r.entry_by_id(k.id)).get_resource_directory(); } catch(...) { return 0; } }
static void session()
{
	rdir d = small(3); resource_directory root = make(d); start("tree " + show(d)); std::string why, log; CHECK(same(root, d, why), "tree built by adding entries", why); { resource_directory copy(root), other; other = copy; copy.clear_resource_directory_entry_list(); CHECK(same(other, d, why), "copy of a tree", why); CHECK(copy.get_entry_list().empty() && !copy.get_number_of_id_entries() && !copy.get_number_of_named_entries(), "cleared directory", ""); }
	pe_resource_manager m(root); CHECK(&m.get_root_directory() == &root, "root directory", ""); int steps = (int)range(1, 8);
	for(int s = 0; s < steps; ++s)
	{
		lookup(m, d); key k = rkey(&d); rent* t = find(d, k); key l = rkey(t && !t->data ? &t->sub[0] : 0); rent* e = t && !t->data ? find(t->sub[0], l) : 0; key g = rkey(e && !e->data ? &e->sub[0] : 0); uint32_t lang = g.id; std::string what; int r, w; rdir before = d;
		if(chance(55))
		{
			bytes b = rbytes(below(60)); uint32_t cp = (uint32_t)rnd(), st = (uint32_t)rnd(); const bytes* src = &b; const resource_directory* q = sub(root, k); if(q && chance(25)) { q = sub(*q, l); if(q && !q->get_entry_list().empty() && q->get_entry_list()[0].includes_data()) { src = &q->get_entry_list()[0].get_data_entry().get_data(); b = *src; } } bytes val = *src;
			log = "add " + sk(k) + "/" + sk(l) + "/" + num(lang); start(case_ = "tree " + show(d) + " " + log); w = madd(d, k, l, lang, val, cp, st); bool def = chance(10) && !w; if(def) { d = before; w = madd(d, k, l, lang, val, 0, 0); }
			r = run([&] { if(def) { if(k.named) { if(l.named) m.add_resource(*src, wide(k.name), wide(l.name), lang); else m.add_resource(*src, wide(k.name), l.id, lang); } else { if(l.named) m.add_resource(*src, (rt)k.id, wide(l.name), lang); else m.add_resource(*src, (rt)k.id, l.id, lang); } } else if(k.named) { if(l.named) m.add_resource(*src, wide(k.name), wide(l.name), lang, cp, st); else m.add_resource(*src, wide(k.name), l.id, lang, cp, st); } else { if(l.named) m.add_resource(*src, (rt)k.id, wide(l.name), lang, cp, st); else m.add_resource(*src, (rt)k.id, l.id, lang, cp, st); } }, &what); stat_["added"]++;
		}
		else
		{
			int depth = (int)range(1, 3); if(depth == 1 && chance(50)) depth = 3; bool hit = false, got = false; log = "remove " + sk(k) + (depth > 1 ? "/" + sk(l) : "") + (depth > 2 ? "/" + num(lang) : ""); start("tree " + show(d) + " " + log); w = mrem(d, depth, k, l, lang, hit);
			r = run([&] { if(depth == 1) got = k.named ? m.remove_resource(wide(k.name)) : m.remove_resource_type((rt)k.id); else if(depth == 2) got = k.named ? (l.named ? m.remove_resource(wide(k.name), wide(l.name)) : m.remove_resource(wide(k.name), l.id)) : (l.named ? m.remove_resource((rt)k.id, wide(l.name)) : m.remove_resource((rt)k.id, l.id)); else got = k.named ? (l.named ? m.remove_resource(wide(k.name), wide(l.name), lang) : m.remove_resource(wide(k.name), l.id, lang)) : (l.named ? m.remove_resource((rt)k.id, wide(l.name), lang) : m.remove_resource((rt)k.id, l.id, lang)); }, &what); if(!w && !r) CHECK(got == hit, "remove tells whether it removed", num(got)); if(hit) stat_["removed"]++;
		}
		CHECK(r == w, "edit succeeds or is refused", what); if(w) d = before; CHECK(same(root, d, why, false), "edit changes that resource only", why); if(s == 0) sample(case_);
	}
	lookup(m, d);
}
// entries assigned from themselves and from their own tree
static void alias()
{
	rent e; e.data = false; e.id = 7; e.sub.push_back(small(2)); rdir d; d.e.push_back(e); resource_directory r = make(d); start("assign entry " + show(d)); std::string why; resource_directory_entry& x = r.get_entry_list()[0]; resource_directory_entry& y = x; x = y; CHECK(same(r, d, why), "entry assigned to itself", why);
	if(!e.sub[0].e.empty()) { size_t i = below(e.sub[0].e.size()); rdir c; c.e.push_back(e.sub[0].e[i]); if(chance(50)) { resource_directory_entry& s = x.get_resource_directory().get_entry_list()[i]; x = s; CHECK(same(r, c, why, false), "entry assigned from its own directory", why); } else if(!e.sub[0].e[i].data) { x.add_resource_directory(x.get_resource_directory().get_entry_list()[i].get_resource_directory()); d.e[0].sub[0] = rdir(e.sub[0].e[i].sub[0]); CHECK(same(r, d, why, false), "directory replaced by its own part", why); } }
}
int main(int c, char** v) { init(c, v); do { if(chance(95)) session(); else alias(); } while(more()); return finish(); }

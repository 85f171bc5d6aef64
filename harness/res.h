// Resource trees described independently of the library.
#pragma once
#include "vm.h"
namespace H
{
typedef std::vector<uint16_t> ustr;
struct rdir;
struct rent { bool named, data; ustr name; uint32_t id, cp; bytes d; std::vector<rdir> sub; rent() : named(false), data(true), id(0), cp(0) {} };
struct rdir { uint32_t ch, stamp; uint16_t ma, mi; std::vector<rent> e; rdir() : ch(0), stamp(0), ma(0), mi(0) {} };
static std::wstring wide(const ustr& u) { std::wstring r; for(size_t i = 0; i < u.size(); ++i) r += (wchar_t)u[i]; return r; }
static ustr uname(size_t lo, size_t hi) { ustr u(range(lo, hi)); for(size_t i = 0; i < u.size(); ++i) u[i] = chance(70) ? (uint16_t)range('A', 'F') : chance(50) ? (uint16_t)range(0x400, 0x4ff) : (uint16_t)range(0xe000, 0xfffd); return u; }
static std::string show(const rdir& d, int lv = 0) { std::string s = "["; for(size_t i = 0; i < d.e.size() && s.size() < 200; ++i) { const rent& e = d.e[i]; if(i) s += ' '; if(e.named) { s += "'"; for(size_t k = 0; k < e.name.size(); ++k) s += e.name[k] < 128 ? (char)e.name[k] : '?'; s += "'"; } else s += num(e.id); s += e.data ? ":" + num(e.d.size()) : show(e.sub[0], lv + 1); } return s + "]"; }
static resource_directory make(const rdir& d) { resource_directory r; r.set_characteristics(d.ch); r.set_timestamp(d.stamp); r.set_major_version(d.ma); r.get_minor_version(d.mi); for(size_t i = 0; i < d.e.size(); ++i) { const rent& e = d.e[i]; resource_directory_entry x; if(e.named) x.set_name(wide(e.name)); else x.set_id(e.id); if(e.data) x.add_data_entry(resource_data_entry(e.d, e.cp)); else x.add_resource_directory(make(e.sub[0])); r.add_resource_directory_entry(x); } return r; }
static bool same(const resource_directory& a, const rdir& d, std::string& why, bool counts = true)
{
	if(a.get_characteristics() != d.ch || a.get_timestamp() != d.stamp || a.get_major_version() != d.ma || a.get_minor_version() != d.mi) { why = "directory fields " + num(a.get_characteristics()) + " " + num(a.get_timestamp()) + " expected " + num(d.ch) + " " + num(d.stamp); return false; }
	const resource_directory::entry_list& l = a.get_entry_list(); if(l.size() != d.e.size()) { why = "entries " + num(l.size()) + " expected " + num(d.e.size()); return false; } size_t nn = 0;
	for(size_t i = 0; i < l.size(); ++i) { const rent& e = d.e[i]; nn += e.named; if(l[i].is_named() != e.named || (e.named ? l[i].get_name() != wide(e.name) : l[i].get_id() != e.id) || l[i].includes_data() != e.data) { why = "entry " + num(i) + " name or id " + num(l[i].get_id()) + " expected " + num(e.id); return false; } if(e.data) { if(l[i].get_data_entry().get_data() != e.d || l[i].get_data_entry().get_codepage() != e.cp) { why = "data of entry " + num(i) + " " + hex(l[i].get_data_entry().get_data(), 40) + " expected " + hex(e.d, 40); return false; } } else if(!same(l[i].get_resource_directory(), e.sub[0], why, counts)) { why = num(i) + "/" + why; return false; } }
	if(counts && (a.get_number_of_named_entries() != nn || a.get_number_of_id_entries() != d.e.size() - nn)) { why = "entry counts"; return false; } return true;
}
static rdir rtree(int depth, size_t fan, bool uniq, size_t dmax)
{
	rdir d; if(chance(50)) { d.ch = (uint32_t)rnd(); d.stamp = (uint32_t)rnd(); d.ma = (uint16_t)rnd(); d.mi = (uint16_t)rnd(); } size_t n = below(fan + 1); std::set<ustr> un; std::set<uint32_t> ui;
	for(size_t i = 0; i < n; ++i) { rent e; if((e.named = chance(35))) { int t = 0; do e.name = uname(uniq && chance(95) ? 1 : 0, chance(2) ? 600 : 5); while(uniq && !un.insert(e.name).second && ++t < 50); if(t == 50) continue; } else { do e.id = chance(70) ? (uint32_t)below(30) : (uint32_t)below(0x10000); while(uniq && !ui.insert(e.id).second); } if(depth > 1 && chance(75)) { e.data = false; e.sub.push_back(rtree(depth - 1, fan, uniq, dmax)); } else { e.d = rbytes(below(dmax)); e.cp = (uint32_t)rnd(); } d.e.push_back(e); }
	return d;
}
// names and ids, and the edits of the resource manager on the description
struct key { key() : named(false), id(0) {}  bool named; ustr name; uint32_t id; bool is(const rent& e) const { return e.named == named && (named ? e.name == name : e.id == id); } };
static rent* find(rdir& d, const key& k) { for(size_t i = 0; i < d.e.size(); ++i) if(k.is(d.e[i])) return &d.e[i]; return 0; }
static rent* findid(rdir& d, uint32_t id) { key k; k.named = false; k.id = id; return find(d, k); }
static std::string sk(const key& k) { return k.named ? "'" + hex(bytes((const char*)k.name.data(), 2 * k.name.size())) + "'" : num(k.id); }
// returns the expected outcome: 1 an exception
static int madd(rdir& d, const key& k, const key& l, uint32_t lang, const bytes& b, uint32_t cp, uint32_t st)
{
	rent* t = find(d, k); if(t && t->data) return 1; if(t) { rent* e = find(t->sub[0], l); if(e && e->data) return 1; }
	if(!t) { rent n; n.named = k.named; n.name = k.named ? k.name : ustr(); n.id = k.named ? 0 : k.id; n.data = false; n.sub.resize(1); n.sub[0].stamp = st; d.e.push_back(n); t = &d.e.back(); }
	rent* e = find(t->sub[0], l); if(!e) { rent n; n.named = l.named; n.name = l.named ? l.name : ustr(); n.id = l.named ? 0 : l.id; n.data = false; n.sub.resize(1); n.sub[0].stamp = st; t->sub[0].e.push_back(n); e = &t->sub[0].e.back(); }
	rent* x = findid(e->sub[0], lang); if(x) e->sub[0].e.erase(e->sub[0].e.begin() + (x - &e->sub[0].e[0])); rent n; n.id = lang; n.d = b; n.cp = cp; e->sub[0].e.push_back(n); return 0;
}
static void er(rdir& d, rent* e) { d.e.erase(d.e.begin() + (e - &d.e[0])); }
static int mrem(rdir& d, int depth, const key& k, const key& l, uint32_t lang, bool& hit)
{
	hit = false; rent* t = find(d, k); if(!t) return 0; if(depth == 1) { er(d, t); hit = true; return 0; } if(t->data) return 1; rent* e = find(t->sub[0], l); if(!e) return 0;
	if(depth == 2) { er(t->sub[0], e); if(t->sub[0].e.empty()) er(d, t); hit = true; return 0; } if(e->data) return 1; rent* x = findid(e->sub[0], lang); if(!x) return 0; er(e->sub[0], x); if(e->sub[0].e.empty()) { er(t->sub[0], e); if(t->sub[0].e.empty()) er(d, t); } hit = true; return 0;
}
}

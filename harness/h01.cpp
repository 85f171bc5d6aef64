// Load configuration: an independent reading decides what must come back; rebuilt directories are compared byte by byte.
#include "vm.h"
// field widths in directory order (0: address sized)
static const int W32[] = {4,4,2,2,4,4,4,0,0,0,0,0,4,0,2,2,0,0,0,0}, W64[] = {4,4,2,2,4,4,4,0,0,0,0,0,0,4,2,2,0,0,0,0};
enum { SIZE, STAMP, MAJ, MIN, GCLR, GSET, CST, DFB, DTF, LPT, MAX, VMT, HF, AFF, CSD, RES, EDIT, COOKIE, SEHT, SEHC, NF };
struct cfg { uint64_t f[NF]; std::vector<uint32_t> se, lp; };
static int fw(bool b64, int i) { int w = (b64 ? W64 : W32)[i]; return w ? w : b64 ? 8 : 4; }
static int slot(bool b64, int i) { return !b64 ? i : i == HF ? AFF : i == AFF ? HF : i; }      // the two are swapped in the wide form
static size_t dsz(bool b64) { size_t n = 0; for(int i = 0; i < NF; ++i) n += fw(b64, i); return n; }
static bytes enc(bool b64, const cfg& c) { bytes b; for(int i = 0; i < NF; ++i) pn(b, c.f[slot(b64, i)], fw(b64, i)); return b; }
static bool decode(const vmem& m, uint32_t d, cfg& c)
{
	bool b = m.im.is64; int w = b ? 8 : 4; uint64_t mask = b ? ~0ull : 0xffffffffull; int s = m.sec(d); if(s < 0) return false; bytes x = m.rd(d, dsz(b)); if(x.empty() || m.sec(d) < 0) return false;
	size_t o = 0; for(int i = 0; i < NF; ++i) { c.f[slot(b, i)] = get(x, o, fw(b, i)); o += fw(b, i); }
	if(c.f[SIZE] < dsz(b)) return false;
	if(c.f[SEHC] >= 0xffffffffu / 4 || c.f[SEHT] >= mask - c.f[SEHC] * 4) return false;
	for(uint64_t i = 0; i < c.f[SEHC]; ++i) { uint32_t r; uint64_t v; if(!m.va2rva(c.f[SEHT] + 4 * i, r) || m.sec(r) < 0 || !m.num(r, 4, v)) return false; c.se.push_back((uint32_t)v); }
	if(c.f[LPT]) for(uint64_t i = 0;; ++i) { uint32_t r; uint64_t v; if(!m.va2rva((c.f[LPT] + w * i) & mask, r) || m.sec(r) < 0 || !m.num(r, w, v)) return false; if(!v) break; if(!m.va2rva(v, r)) return false; c.lp.push_back(r); }
	return true;
}
static void same(const image_config_info& i, const cfg& c, const char* who)
{
	std::string w = who; uint64_t a[NF] = { c.f[SIZE], i.get_time_stamp(), i.get_major_version(), i.get_minor_version(), i.get_global_flags_clear(), i.get_global_flags_set(), i.get_critical_section_default_timeout(), i.get_decommit_free_block_threshold(), i.get_decommit_total_free_threshold(), i.get_lock_prefix_table_va(), i.get_max_allocation_size(), i.get_virtual_memory_threshold(), i.get_process_heap_flags(), i.get_process_affinity_mask(), i.get_service_pack_version(), c.f[RES], i.get_edit_list_va(), i.get_security_cookie_va(), i.get_se_handler_table_va(), i.get_se_handler_count() };
	for(int k = 0; k < NF; ++k) CHECK(a[k] == c.f[k], w + ": field as stored", "field " + num(k) + " is " + num(a[k]) + " expected " + num(c.f[k]));
	CHECK(std::vector<uint32_t>(i.get_se_handler_rvas().begin(), i.get_se_handler_rvas().end()) == c.se, w + ": handler list", num(i.get_se_handler_rvas().size()) + " expected " + num(c.se.size()));
	CHECK(std::vector<uint32_t>(i.get_lock_prefix_rvas().begin(), i.get_lock_prefix_rvas().end()) == c.lp, w + ": lock prefix list", num(i.get_lock_prefix_rvas().size()) + " expected " + num(c.lp.size()));
}
static void reader()
{
	image im = plain_image(range(1, 3), 150, 500, chance(30)); bool b = im.is64; int w = b ? 8 : 4; uint32_t d = place(im, dsz(b)); if(!d) return; cfg c; for(int i = 0; i < NF; ++i) c.f[i] = chance(50) ? rnd() : edge32();
	size_t n = below(6), k = below(5); uint32_t st = place(im, 4 * n + 4), lt = place(im, w * (k + 1)); if(!st || !lt) return;
	c.f[SIZE] = dsz(b) + (chance(10) ? below(40) : 0); if(chance(4)) c.f[SIZE] = below(dsz(b)); c.f[SEHC] = n; c.f[SEHT] = im.base + st; c.f[LPT] = chance(70) ? im.base + lt : 0;
	if(chance(5)) c.f[SEHT] = chance(50) ? edge32() : im.base + im.s.back().va + up(im.s.back().vs, im.salign) - 4 * n + below(3) - 1; if(chance(4)) c.f[SEHC] = chance(50) ? edge32() : below(2000); if(chance(3)) c.f[SEHC] = (0x40000000u - 3 + below(6)); if(chance(5)) c.f[LPT] = chance(50) ? edge32() : im.base + im.s.back().va + up(im.s.back().vs, im.salign) - below(20);
	bytes q; for(size_t i = 0; i < n; ++i) p32(q, rnd()); poke(im, st, q); q.clear(); for(size_t i = 0; i < k; ++i) pn(q, im.base + (chance(95) ? below(0x100000) : edge32()), w); if(chance(80)) pn(q, 0, w); poke(im, lt, q); poke(im, d, enc(b, c));
	if(chance(4)) d = (uint32_t)(im.s.back().va + up(im.s.back().vs, im.salign) - dsz(b) + below(3) - 1); im.dir[10][0] = chance(97) ? d : 0; im.dir[10][1] = chance(90) ? (uint32_t)dsz(b) : edge32(); if(chance(2)) im.ndirs = 10;
	start("load configuration at " + num(d) + " " + hex(enc(b, c)) + " base " + num(im.base)); vmem m(im); pe_base pe = load(im); std::string what; image_config_info i; int r = run([&] { i = get_image_config(pe); }, &what);
	CHECK(r != 2, "read: only documented exceptions", what); if(!im.dir[10][0] || im.ndirs <= 10) { CHECK(r == 1, "read: absent directory is refused", ""); return; }
	cfg x; bool ok = decode(m, d, x); CHECK(ok || r == 1, "read: malformed directory is refused", ""); CHECK(!ok || r == 0, "read: well-formed directory is read", what); if(!ok || r) { stat_["refused"]++; return; }
	++nontrivial_; stat_["handlers read"] += x.se.size(); stat_["lock prefixes read"] += x.lp.size(); sample(case_); same(i, x, "read");
}
static void writer()
{
	image im = plain_image(range(1, 3), 250, 1200); bool b = im.is64; int w = b ? 8 : 4; pe_base pe = load(im); size_t ns = im.s.size(), ts = chance(60) ? ns - 1 : below(ns); uint32_t off = chance(70) ? (uint32_t)below(im.s[ts].raw.size()) : (uint32_t)(im.s[ts].raw.size() + below(600)), pos = (uint32_t)up(off, w);
	cfg c; image_config_info i; for(int k = 0; k < NF; ++k) c.f[k] = rnd() & (fw(b, slot(b, k)) == 8 ? ~0ull : fw(b, slot(b, k)) == 4 ? 0xffffffffull : 0xffffull);
	i.set_time_stamp(c.f[STAMP]); i.set_major_version(c.f[MAJ]); i.set_minor_version(c.f[MIN]); i.set_global_flags_clear(c.f[GCLR]); i.set_global_flags_set(c.f[GSET]); i.set_critical_section_default_timeout(c.f[CST]); i.set_decommit_free_block_threshold(c.f[DFB]); i.set_decommit_total_free_threshold(c.f[DTF]); i.set_lock_prefix_table_va(c.f[LPT]); i.set_max_allocation_size(c.f[MAX]); i.set_virtual_memory_threshold(c.f[VMT]); i.set_process_affinity_mask(c.f[AFF]); i.set_process_heap_flags(c.f[HF]); i.set_service_pack_version(c.f[CSD]); i.set_edit_list_va(c.f[EDIT]); i.set_security_cookie_va(c.f[COOKIE]); i.set_se_handler_table_va(c.f[SEHT]);
	bool ws = chance(75), wl = chance(75), save = chance(80), strip = chance(30); for(size_t k = below(chance(2) ? 400 : 6); k-- > 0;) { c.se.push_back((uint32_t)rnd()); i.add_se_handler_rva(c.se.back()); } for(size_t k = below(chance(2) ? 400 : 6); k-- > 0;) { c.lp.push_back(1 + (uint32_t)below(chance(95) ? 0x100000 : 0xfffffffe)); i.add_lock_prefix_rva(c.lp.back()); }
	off = just(im, ts, dsz(b) + (wl ? w * (c.lp.size() + 1) : 0) + (ws ? 4 * c.se.size() : 0), off, w); pos = (uint32_t)up(off, w);
	// expected
	c.f[SIZE] = dsz(b); c.f[RES] = 0; c.f[SEHC] = c.se.size(); uint64_t at = im.s[ts].va + pos + dsz(b), need = dsz(b); bool addr = true; bytes tail; cfg e = c; std::sort(e.se.begin(), e.se.end());
	if(ws) { e.f[SEHT] = c.se.empty() ? 0 : im.base + at + tail.size(); for(size_t k = 0; k < e.se.size(); ++k) p32(tail, e.se[k]); }
	if(wl) { e.f[LPT] = c.lp.empty() ? 0 : im.base + at + tail.size(); for(size_t k = 0; k < e.lp.size(); ++k) { uint64_t v = im.base + e.lp[k]; if(!b && v > 0xffffffffu) addr = false; pn(tail, v, w); } if(c.lp.size()) pn(tail, 0, w); need += w * (c.lp.size() + 1); }
	if(ws) need += 4 * c.se.size(); if(!b && im.base + at + tail.size() > 0xffffffffu) addr = false;
	start(std::string("rebuild ") + (b ? "64" : "32") + " in section " + num(ts) + " of " + num(ns) + " at " + num(pos) + " handlers " + num(c.se.size()) + " prefixes " + num(c.lp.size()) + " flags " + num(ws) + num(wl) + num(save) + num(strip)); foreign(pe, ts, [&](section& x) { rebuild_image_config(pe, i, x, off, ws, wl, save, strip); }); snap s(pe); std::string what; image_directory dd; int r = run([&] { dd = rebuild_image_config(pe, i, sect_of(pe, ts), off, ws, wl, save, strip); }, &what);
	CHECK(r != 2, "rebuild: only documented exceptions", what);
	if(r == 1) { stat_["rebuild refused"]++; CHECK(!addr || (ts != ns - 1 && pos + need > up(im.s[ts].rsz, im.falign)), "rebuild: a configuration that fits is written", what); return; }
	++nontrivial_; stat_["rebuilt"]++; consistent(pe, im); sample(case_); CHECK(dd.get_rva() == im.s[ts].va + pos && dd.get_size() == dsz(b), "rebuild: returned directory names its place", num(dd.get_rva()));
	if(save) CHECK(pe.get_directory_rva(10) == dd.get_rva() && pe.get_directory_size(10) == dd.get_size(), "rebuild: directory stored in the headers", ""); else CHECK(bytes(pe.get_nt_headers_ptr(), pe.get_sizeof_nt_header()).substr(24 + im.optsize() - 128, 128) == s.nt.substr(24 + im.optsize() - 128, 128), "rebuild: directory table untouched unless asked", "");
	const section_list& l = pe.get_image_sections(); for(size_t x = 0; x < ns; ++x) { std::vector<std::pair<uint64_t, bytes> > wr; if(x == ts) wr.push_back(std::make_pair(pos, enc(b, e) + tail)); std::string why; bytes now = l[x].get_raw_data(); CHECK(expect_raw(now, s.raw[x], wr, why), "rebuild: section holds the directory and is otherwise unchanged", "section " + num(x) + " " + why); if(!(strip && x == ts)) CHECK(now.size() >= s.raw[x].size(), "rebuild: no data lost", ""); }
	if(!save || !(ws || c.se.empty()) || !wl) return;
	image_config_info j; r = run([&] { j = get_image_config(pe); }, &what); CHECK(r == 0, "rebuild: the configuration reads back", what); if(r == 0) same(j, e, "read back");
}
int main(int c, char** v) { init(c, v); do { if(chance(50)) reader(); else writer(); } while(more()); return finish(); }

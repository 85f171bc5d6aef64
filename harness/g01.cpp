// TLS directories: an independent reading of the directory decides what must come back; rebuilt directories are compared byte by byte.
#include "vm.h"
struct tls { bool ok; uint64_t s, e, i, c; uint32_t z, ch, rs, re, ri, rc; bytes raw; std::vector<uint32_t> cb; };
static tls decode(const vmem& m, uint32_t d)
{
	tls t; t.ok = false; t.rs = t.re = t.ri = t.rc = 0; int w = m.im.is64 ? 8 : 4; uint64_t mask = m.im.is64 ? ~0ull : 0xffffffffull; bytes b = m.rd(d, 4 * w + 8); if(b.empty()) return t;
	t.s = get(b, 0, w); t.e = get(b, w, w); t.i = get(b, 2 * w, w); t.c = get(b, 3 * w, w); t.z = get(b, 4 * w, 4); t.ch = get(b, 4 * w + 4, 4); uint32_t x;
	if(t.s == t.e && !m.va2rva(t.e, x)) t.s = t.e = 0;
	uint64_t n = (t.e - t.s) & mask;
	if(t.s && (!m.va2rva(t.s, t.rs) || m.len(t.rs) == 0 || m.len(t.rs) < n)) return t;
	if(t.e && !m.va2rva(t.e, t.re)) return t;
	if(t.i && !m.va2rva(t.i, t.ri)) return t;
	if(t.c && !m.va2rva(t.c, t.rc)) return t;
	if(t.s && n) { t.raw = m.rd(t.rs, n); }
	if(t.rc) for(uint64_t k = 0; ; k += w) { uint64_t v, a = (t.c + k) & mask; uint32_t r; if(!m.va2rva(a, r) || !m.num(r, w, v)) return t; if(!v) break; t.cb.push_back((uint32_t)(v - m.im.base)); }
	t.ok = true; return t;
}
static void same(const tls_info& i, const tls& t, const char* who)
{
	std::string w = who; w += ": ";
	CHECK(i.get_raw_data_start_rva() == t.rs, w + "template start", num(i.get_raw_data_start_rva()) + " expected " + num(t.rs)); CHECK(i.get_raw_data_end_rva() == t.re, w + "template end", num(i.get_raw_data_end_rva()) + " expected " + num(t.re));
	CHECK(i.get_index_rva() == t.ri, w + "index address", num(i.get_index_rva()) + " expected " + num(t.ri)); CHECK(i.get_callbacks_rva() == t.rc, w + "callbacks address", num(i.get_callbacks_rva()) + " expected " + num(t.rc));
	CHECK(i.get_size_of_zero_fill() == t.z, w + "size of zero fill", num(i.get_size_of_zero_fill())); CHECK(i.get_characteristics() == t.ch, w + "characteristics", num(i.get_characteristics()));
	CHECK(i.get_raw_data() == t.raw, w + "template bytes", num(i.get_raw_data().size()) + " bytes expected " + num(t.raw.size()));
	CHECK(std::vector<uint32_t>(i.get_tls_callbacks().begin(), i.get_tls_callbacks().end()) == t.cb, w + "callbacks", num(i.get_tls_callbacks().size()) + " expected " + num(t.cb.size()));
}
static void reader()
{
	image im = plain_image(range(1, 3), 40, 400); int w = im.is64 ? 8 : 4; uint32_t d = place(im, 4 * w + 8); if(!d) return;
	uint32_t at = place(im, 8), n = (uint32_t)below(120), cb = place(im, w * 4); uint64_t b = im.base;
	bytes l; size_t k = below(4); for(size_t i = 0; i < k; ++i) pn(l, b + (chance(80) ? rnd() % 0x10000 : edge32()), w); if(chance(80)) pn(l, 0, w); if(cb) poke(im, cb, l);
	bytes t; uint64_t s = b + at, e = s + n; if(chance(10)) e = s; if(chance(10)) s = 0; if(chance(5)) e = 0; if(chance(5)) s = e = edge32(); if(chance(8)) s -= below(3); if(chance(8)) { e = b + im.s.back().va + up(im.s.back().vs, im.salign) + below(3) - 1; }
	pn(t, s, w); pn(t, e, w); pn(t, chance(90) ? b + below(0x4000) : edge32(), w); pn(t, chance(75) ? b + cb : chance(50) ? 0 : b + place(im, 1), w); p32(t, rnd()); p32(t, rnd()); poke(im, d, t);
	if(chance(25)) { size_t q; uint32_t r = place(im, 4 * w + 8, &q); (void)r; mutate(im.s[q].raw, d - im.s[q].va < im.s[q].raw.size() ? d - im.s[q].va : 0, im.s[q].raw.size(), 2); }
	im.dir[9][0] = chance(95) ? d : im.s.back().va + (uint32_t)up(im.s.back().vs, im.salign) - (uint32_t)below(50); im.dir[9][1] = 4 * w + 8;
	if(chance(3)) im.dir[9][0] = 0; if(chance(3)) im.ndirs = 9;
	start(std::string("read ") + (im.is64 ? "64" : "32") + " directory " + hex(t) + " at " + num(d) + " base " + num(b));
	vmem m(im); pe_base pe = load(im); std::string what; tls_info i; int r = run([&] { i = get_tls_info(pe); }, &what);
	CHECK(r != 2, "read: only documented exceptions", what);
	if(!im.dir[9][0] || im.ndirs <= 9) { CHECK(r == 1, "read: absent directory is refused", ""); return; }
	tls x = decode(m, im.dir[9][0]);
	CHECK(r == 1 || x.ok, "read: malformed directory is refused", ""); CHECK(r == 0 || !x.ok, "read: well-formed directory is read", what);
	if(r == 0 && x.ok) { same(i, x, "read"); ++nontrivial_; sample(case_); stat_["read"]++; } else stat_["refused"]++;
}
static void writer()
{
	image im = plain_image(range(1, 3), 200, 900); pe_base pe = load(im); int w = im.is64 ? 8 : 4; size_t ns = im.s.size(), ts = chance(60) ? ns - 1 : below(ns);
	if(chance(30)) { im.s[0].vs += 0; }
	tls_info i; uint32_t off = chance(60) ? (uint32_t)below(im.s[ts].raw.size()) : (uint32_t)(im.s[ts].raw.size() + below(600)), pos = (uint32_t)up(off, w), need = 4 * w + 8; off = just(im, ts, need, off, w); pos = (uint32_t)up(off, w);
	size_t ds = below(ns), cs = below(ns); uint32_t doff = (uint32_t)below(im.s[ds].raw.size() + (chance(30) ? 300 : 0)), n = (uint32_t)below(chance(80) ? 100 : 700), coff = (uint32_t)below(im.s[cs].raw.size() + (chance(30) ? 300 : 0)), k = (uint32_t)below(chance(2) ? 300 : 5);
	if(chance(30) && k < 9) { uint32_t z = (uint32_t)up(im.s[cs].raw.size(), 0x200); coff = z - (chance(50) ? k : k + 1) * w + (uint32_t)below(3) - 1; }
	uint32_t drva = im.s[ds].va + doff, crva = im.s[cs].va + coff; bytes data = rbytes(chance(75) ? n : below(n + 20)); std::vector<uint32_t> cb; for(uint32_t j = 0; j < k; ++j) cb.push_back((uint32_t)(1 + below(0x7fffffff)));
	bool nod = chance(15), noc = chance(15), wc = chance(80), wd = chance(80), save = chance(80), strip = chance(30), ex = chance(50);
	i.set_raw_data_start_rva(nod ? 0 : drva); i.set_raw_data_end_rva(nod ? 0 : chance(97) ? drva + n : drva - 1); i.set_raw_data(data); i.set_index_rva(chance(96) ? 1 + (uint32_t)below(0x10000) : 0); i.set_callbacks_rva(noc ? 0 : crva); i.set_size_of_zero_fill((uint32_t)rnd()); i.set_characteristics((uint32_t)rnd());
	for(uint32_t j = 0; j < k; ++j) i.add_tls_callback(cb[j]);
	case_ = ""; start(std::string("rebuild ") + (im.is64 ? "64" : "32") + " sections " + num(ns) + " directory in " + num(ts) + " at " + num(pos) + " data " + num(n) + "/" + num(data.size()) + " in " + num(ds) + " at " + num(doff) + " callbacks " + num(k) + " in " + num(cs) + " at " + num(coff) + " flags " + num(wc) + num(wd) + num(save) + num(strip) + num(ex) + num(nod) + num(noc));
	foreign(pe, ts, [&](section& x) { rebuild_tls(pe, i, x, off, wc, wd, ex ? tls_data_expand_raw : tls_data_expand_virtual, save, strip); }); snap b(pe); std::string what; image_directory dd; int r = run([&] { dd = rebuild_tls(pe, i, sect_of(pe, ts), off, wc, wd, ex ? tls_data_expand_raw : tls_data_expand_virtual, save, strip); }, &what);
	CHECK(r != 2, "rebuild: only documented exceptions", what);
	if(i.get_raw_data_end_rva() < i.get_raw_data_start_rva() || !i.get_index_rva()) { CHECK(r == 1, "rebuild: inconsistent description is refused", ""); return; }
	if(r == 1) { stat_["rebuild refused"]++;
		bool addr = true; if(!im.is64) { addr = im.base + i.get_index_rva() <= 0xffffffffu && (nod || im.base + drva + n <= 0xffffffffu) && (noc || im.base + crva <= 0xffffffffu); if(!noc && wc) for(uint32_t j = 0; j < k; ++j) addr = addr && im.base + cb[j] <= 0xffffffffu; }
		// room: raw data as it is, the section grown when it is the last one, zeros up to the virtual end
		uint64_t dv = up(im.s[ds].vs, im.salign), cv = up(im.s[cs].vs, im.salign); bool dfits = doff + n <= dv || (ds == ns - 1 && doff < dv && doff <= im.s[ds].raw.size()), cfits = (cs == ns - 1 && coff < cv && coff <= im.s[cs].raw.size()) || (coff + k * w <= im.s[cs].raw.size() && coff + (k + 1) * w <= cv);
		bool fits = addr && (ts == ns - 1 || pos + need <= up(im.s[ts].rsz, im.falign)) && (nod || !wd || n == 0 || dfits) && (noc || !wc || cfits);
		CHECK(!fits, "rebuild: a directory that fits is written", what); return; }
	stat_["rebuilt"]++; consistent(pe, im); ++nontrivial_; sample(case_);
	CHECK(dd.get_rva() == im.s[ts].va + pos && dd.get_size() == need, "rebuild: returned directory names its place", num(dd.get_rva()));
	if(save) CHECK(pe.get_directory_rva(9) == dd.get_rva() && pe.get_directory_size(9) == need, "rebuild: directory stored in the headers", "");
	else CHECK(bytes(pe.get_nt_headers_ptr(), pe.get_sizeof_nt_header()).substr(24 + im.optsize() - 128, 128) == b.nt.substr(24 + im.optsize() - 128, 128), "rebuild: directory table untouched unless asked", "");
	// expected bytes
	uint64_t base = im.base; bytes t; pn(t, nod ? 0 : base + drva, w); pn(t, nod ? 0 : base + drva + n, w); pn(t, base + i.get_index_rva(), w); pn(t, noc ? 0 : base + crva, w); p32(t, nod ? 0 : i.get_size_of_zero_fill()); p32(t, i.get_characteristics());
	bytes cl; for(uint32_t j = 0; j < k; ++j) pn(cl, base + cb[j], w); pn(cl, 0, w);
	bool overlap = false; struct rg { uint64_t a, e; }; std::vector<rg> rgs; rgs.push_back({im.s[ts].va + pos, im.s[ts].va + pos + need}); if(!nod && wd) rgs.push_back({drva, drva + n}); if(!noc && wc) rgs.push_back({crva, crva + cl.size()});
	for(size_t x = 0; x < rgs.size(); ++x) for(size_t y = x + 1; y < rgs.size(); ++y) if(rgs[x].a < rgs[y].e && rgs[y].a < rgs[x].e) overlap = true;
	if(overlap) return;
	const section_list& l = pe.get_image_sections(); size_t roomd = std::max<size_t>(b.raw[ds].size(), ts == ds ? pos + need : 0); if(ex && ds == ns - 1) roomd = std::max<size_t>(roomd, doff + n);
	for(size_t x = 0; x < ns; ++x)
	{
		std::vector<std::pair<uint64_t, bytes> > ws; if(x == ts) ws.push_back(std::make_pair(pos, t)); bytes now = l[x].get_raw_data();
		if(x == ds && !nod && wd) { size_t room = roomd; bytes q = data.substr(0, n); if(doff < room) ws.push_back(std::make_pair(doff, q.substr(0, room - doff))); }      // data beyond the raw data is not stored
		if(x == cs && !noc && wc) ws.push_back(std::make_pair(coff, cl));
		std::string why; CHECK(expect_raw(now, b.raw[x], ws, why), "rebuild: section holds the directory and is otherwise unchanged", "section " + num(x) + " " + why);
		if(!(strip && x == ts)) CHECK(now.size() >= b.raw[x].size(), "rebuild: no data lost", "");
	}
	if(!save || (nod ? 0 : !wd) || (!noc && !wc)) return;
	// read back, also after writing and loading
	tls x; x.ok = true; x.rs = nod ? 0 : drva; x.re = nod ? 0 : drva + n; x.ri = i.get_index_rva(); x.rc = noc ? 0 : crva; x.z = nod ? 0 : i.get_size_of_zero_fill(); x.ch = i.get_characteristics(); x.cb = noc ? std::vector<uint32_t>() : cb; x.raw = nod ? bytes() : data.substr(0, n);
	bool exact = data.size() >= n;
	if(!nod && exact && doff + n > roomd) exact = false;
	tls_info j; r = run([&] { j = get_tls_info(pe); }, &what); CHECK(r == 0, "rebuild: the directory reads back", what);
	if(r == 0) { if(!exact) x.raw = j.get_raw_data(); same(j, x, "read back"); CHECK(j.get_raw_data().size() == (nod ? 0 : n), "read back: template length", num(j.get_raw_data().size())); }
}
int main(int c, char** v) { init(c, v); do { if(chance(50)) reader(); else writer(); } while(more()); return finish(); }

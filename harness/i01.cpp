// Bound import directories: an independent reading of the directory decides what must come back; rebuilt directories are compared byte by byte.
#include "vm.h"
struct ref { uint32_t t; bytes n; }; struct mod { uint32_t t; bytes n; std::vector<ref> r; };
static bool zat(const bytes& d, uint64_t o, bytes& r) { if(o >= d.size()) return false; size_t z = d.find('\0', o); if(z == bytes::npos) return false; r = d.substr(o, z - o); return true; }
static bool decode(const bytes& d, uint32_t size, std::vector<mod>& l)
{
	if(d.size() < size) return false;
	for(uint64_t p = 0;;)
	{
		if(p + 8 > d.size()) return false;
		uint32_t o = (uint32_t)get(d, p + 4, 2), n = (uint32_t)get(d, p + 6, 2); if(!o) return true;
		mod m; m.t = (uint32_t)get(d, p, 4); if(!zat(d, o, m.n)) return false; p += 8;
		for(uint32_t i = 0; i < n; ++i, p += 8) { ref r; if(p + 8 > d.size()) return false; r.t = (uint32_t)get(d, p, 4); if(!zat(d, get(d, p + 4, 2), r.n)) return false; m.r.push_back(r); }
		l.push_back(m);
	}
}
static bytes encode(const std::vector<mod>& l, uint32_t& structs)
{
	uint32_t n = 8; for(size_t i = 0; i < l.size(); ++i) n += 8 + 8 * (uint32_t)l[i].r.size(); structs = n;
	bytes a, s; for(size_t i = 0; i < l.size(); ++i) { p32(a, l[i].t); p16(a, n + s.size()); p16(a, l[i].r.size()); s += l[i].n; s += '\0'; for(size_t j = 0; j < l[i].r.size(); ++j) { p32(a, l[i].r[j].t); p16(a, n + s.size()); p16(a, 0); s += l[i].r[j].n; s += '\0'; } }
	a += bytes(8, 0); return a + s;
}
static std::vector<mod> rlist(size_t lim, size_t len) { std::vector<mod> l(below(lim)); for(size_t i = 0; i < l.size(); ++i) { l[i].t = (uint32_t)rnd(); l[i].n = rname(0, len); l[i].r.resize(chance(60) ? 0 : below(4)); for(size_t j = 0; j < l[i].r.size(); ++j) { l[i].r[j].t = (uint32_t)rnd(); l[i].r[j].n = rname(0, len); } } return l; }
static void same(const bound_import_module_list& a, const std::vector<mod>& b, const char* who)
{
	std::string w = who; CHECK(a.size() == b.size(), w + ": one description per module", num(a.size()) + " expected " + num(b.size()));
	for(size_t i = 0; i < a.size() && i < b.size(); ++i)
	{
		CHECK(a[i].get_module_name() == b[i].n && a[i].get_timestamp() == b[i].t, w + ": module as stored", "module " + num(i) + " " + a[i].get_module_name() + " expected " + b[i].n); const bound_import::ref_list& r = a[i].get_module_ref_list(); CHECK(a[i].get_module_ref_count() == b[i].r.size() && r.size() == b[i].r.size(), w + ": forwarder count", num(r.size()));
		for(size_t j = 0; j < r.size() && j < b[i].r.size(); ++j) CHECK(r[j].get_module_name() == b[i].r[j].n && r[j].get_timestamp() == b[i].r[j].t, w + ": forwarder as stored", "module " + num(i) + " forwarder " + num(j) + " " + r[j].get_module_name());
	}
}
static void reader()
{
	image im = plain_image(range(1, 3), 150, 500, chance(30)); std::vector<mod> l = rlist(5, 12); uint32_t st; bytes t = encode(l, st); if(chance(10)) t.resize(below(t.size() + 1)); if(chance(30)) mutate(t, 0, chance(70) ? st : t.size(), 1 + below(3)); if(chance(5)) { bytes z; z = bytes(8, 0); for(size_t i = 0; i < 4; ++i) p16(z, rnd()); t = z; }
	size_t si = 0; uint32_t d = 0;
	if(chance(8)) { im.lfanew = 0x400; im.stub = t; d = 0x40; } else { d = place(im, t.size(), &si); if(!d) return; if(chance(20)) { sect& q = im.s[si]; q.raw.resize((q.raw.size() + 0x1ff) & ~0x1ffull); d = (uint32_t)(q.va + q.raw.size() - t.size()); } poke(im, d, t); }
	uint32_t size = (uint32_t)t.size(); if(chance(10)) size = (uint32_t)below(900); if(chance(2)) size = edge32();
	im.dir[11][0] = chance(97) ? d : 0; im.dir[11][1] = size; if(chance(2)) im.ndirs = 11;
	start("bound imports at " + num(d) + " size " + num(size) + " " + hex(t)); vmem m(im); pe_base pe = load(im); std::string what; bound_import_module_list a; int r = run([&] { a = get_bound_import_module_list(pe); }, &what);
	CHECK(r != 2, "read: only documented exceptions", what); if(!im.dir[11][0] || im.ndirs <= 11) { CHECK(r == 0 && a.empty(), "read: no directory, no modules", what); return; }
	bytes v; if(m.inhdr(d)) v = m.hdr.substr(d); else { int s = m.sec(d); if(s >= 0) { bytes w = m.im.s[s].raw; w.resize(m.im.s[s].rsz); uint64_t o = d - m.im.s[s].va; if(o < w.size()) v = w.substr(o); } }
	std::vector<mod> w; bool ok = v.size() >= 8 && decode(v, size, w);
	CHECK(ok || r == 1, "read: malformed directory is refused", ""); CHECK(!ok || r == 0, "read: well-formed directory is read", what); if(!ok || r) { stat_["refused"]++; return; }
	++nontrivial_; stat_["modules read"] += w.size(); sample(case_); same(a, w, "read");
}
static void writer()
{
	image im = plain_image(range(1, 3), 100, 1200); pe_base pe = load(im); size_t ns = im.s.size(), ts = chance(60) ? ns - 1 : below(ns); uint32_t off = chance(70) ? (uint32_t)below(im.s[ts].raw.size()) : (uint32_t)(im.s[ts].raw.size() + below(600)), pos = (uint32_t)up(off, 4), st;
	std::vector<mod> l = rlist(6, 20); if(chance(2)) { l.resize(1); l[0].n = rname(3, 9); l[0].t = 1; l[0].r.assign(chance(50) ? 7000 : 2000, ref()); for(size_t j = 0; j < l[0].r.size(); ++j) { l[0].r[j].t = (uint32_t)j; l[0].r[j].n = chance(30) ? bytes(rname(20, 30)) : bytes("a.dll"); } }
	bytes t = encode(l, st); off = just(im, ts, t.size(), off, 4); pos = (uint32_t)up(off, 4); bool save = chance(80), strip = chance(30), big = t.size() > 0xffff;
	bound_import_module_list a; for(size_t i = 0; i < l.size(); ++i) { bound_import x(l[i].n, l[i].t); for(size_t j = 0; j < l[i].r.size(); ++j) x.add_module_ref(bound_import_ref(l[i].r[j].n, l[i].r[j].t)); a.push_back(x); }
	start("rebuild in section " + num(ts) + " of " + num(ns) + " at " + num(pos) + " flags " + num(save) + num(strip) + " modules " + num(l.size()) + " " + hex(t)); foreign(pe, ts, [&](section& x) { rebuild_bound_imports(pe, a, x, off, save, strip); }); snap b(pe); std::string what; image_directory dd; int r = run([&] { dd = rebuild_bound_imports(pe, a, sect_of(pe, ts), off, save, strip); }, &what);
	CHECK(r != 2, "rebuild: only documented exceptions", what);
	if(r == 1) { stat_["rebuild refused"]++; bool fits = !big && (ts == ns - 1 || pos + t.size() <= up(im.s[ts].rsz, im.falign)); CHECK(!fits, "rebuild: a list that fits is written", what); return; }
	++nontrivial_; stat_["rebuilt"]++; consistent(pe, im); sample(case_);
	CHECK(dd.get_rva() == im.s[ts].va + pos && dd.get_size() == t.size(), "rebuild: returned directory names its place", num(dd.get_rva()));
	if(save) CHECK(pe.get_directory_rva(11) == dd.get_rva() && pe.get_directory_size(11) == dd.get_size(), "rebuild: directory stored in the headers", ""); else CHECK(bytes(pe.get_nt_headers_ptr(), pe.get_sizeof_nt_header()).substr(24 + im.optsize() - 128, 128) == b.nt.substr(24 + im.optsize() - 128, 128), "rebuild: directory table untouched unless asked", "");
	const section_list& s = pe.get_image_sections();
	for(size_t x = 0; x < ns; ++x) { std::vector<std::pair<uint64_t, bytes> > ws; if(x == ts) { ws.push_back(std::make_pair(pos, t)); } bytes now = s[x].get_raw_data(); std::string why;
		if(x == ts) { bytes got = now.substr(pos < now.size() ? pos : now.size(), t.size()); std::vector<mod> w; got.resize(t.size()); CHECK(decode(got, (uint32_t)t.size(), w), "rebuild: the directory is well formed", hex(got)); same(a, w, "rebuild"); ws[0].second = got; }
		CHECK(expect_raw(now, b.raw[x], ws, why), "rebuild: section holds the directory and is otherwise unchanged", "section " + num(x) + " " + why); if(!(strip && x == ts)) CHECK(now.size() >= b.raw[x].size(), "rebuild: no data lost", ""); }
	if(!save) return;
	bound_import_module_list c; r = run([&] { c = get_bound_import_module_list(pe); }, &what); CHECK(r == 0 || strip, "read back", what); if(!r) same(c, l, "read back");
}
int main(int c, char** v) { init(c, v); do { if(chance(50)) reader(); else writer(); } while(more()); return finish(); }

// The memory an image describes, computed from the description alone; helpers to place structures and compare images.
#pragma once
#include "h.h"
namespace H
{
static inline uint64_t up(uint64_t x, uint64_t a) { return (x + a - 1) / a * a; }
struct vmem
{
	image im; bytes hdr;
	explicit vmem(image& i) : im(i) { bytes f = i.build(); im = i; uint64_t h = im.soh; for(size_t k = 0; k < im.s.size(); ++k) if(im.s[k].rsz) { h = std::min<uint64_t>(h, im.s[k].rptr); break; } hdr = f.substr(0, h); }
	uint64_t avs(size_t i) const { const sect& x = im.s[i]; return up(x.vs ? x.vs : x.rsz, im.salign); }
	int sec(uint64_t rva) const { for(size_t i = 0; i < im.s.size(); ++i) if(rva >= im.s[i].va && rva < im.s[i].va + avs(i)) return (int)i; return -1; }
	bool inhdr(uint64_t rva, uint64_t n = 1) const { return rva + n <= hdr.size(); }
	// bytes remaining in the view that holds rva
	uint64_t len(uint64_t rva) const { if(inhdr(rva)) return hdr.size() - rva; int i = sec(rva); return i < 0 ? 0 : im.s[i].va + avs(i) - rva; }
	bytes rd(uint64_t rva, uint64_t n) const
	{
		if(inhdr(rva, n)) return hdr.substr(rva, n);
		int i = sec(rva); bytes r; if(i < 0) return r; const bytes& v = im.s[i].raw; uint64_t o = rva - im.s[i].va;
		if(o + n > avs(i)) return r;
		r = o < v.size() ? v.substr(o, n) : bytes(); r.resize(n); return r;
	}
	bool num(uint64_t rva, int n, uint64_t& v) const { bytes b = rd(rva, n); if(b.size() != (size_t)n) return false; v = get(b, 0, n); return true; }
	bool va2rva(uint64_t va, uint32_t& r) const { if(va < im.base || va - im.base > 0xffffffffull) return false; r = (uint32_t)(va - im.base); return true; }
	// zero terminated string inside the view
	bool str(uint64_t rva, bytes& r) const { uint64_t n = len(rva); if(!n) return false; bytes b = rd(rva, n); size_t z = b.find('\0'); if(z == bytes::npos) return false; r = b.substr(0, z); return true; }
};
// an image with n sections filled with random bytes, room at least sz in each
static image plain_image(size_t n, size_t lo, size_t hi, bool zero = false)
{
	image im; im.is64 = chance(50); im.base = im.is64 ? pick<uint64_t>({0x140000000ull, 0x400000ull, 0xffffffff00000000ull, 0x7ffffff0000ull}) : pick<uint64_t>({0x400000, 0x10000000, 0x10000, 0xfff00000u});
	if(chance(30)) { im.salign = 1u << range(12, 14); }
	for(size_t i = 0; i < n; ++i)
	{
		size_t k = range(lo, hi); bytes raw = zero ? bytes(k, 0) : rbytes(k);
		sect& s = im.add(raw, chance(50) ? 0 : (uint32_t)(k + below(2 * im.salign)), ".s" + std::to_string(i));
		if(i == 0 && im.salign > s.va) s.va = im.salign;
		if(i) { sect& q = im.s[i - 1]; s.va = q.va + (uint32_t)up(q.vs, im.salign); }
	}
	return im;
}
// place of a structure of n bytes inside the raw data of a section: rva, or 0
static uint32_t place(const image& im, size_t n, size_t* si = 0) { for(int t = 0; t < 20; ++t) { size_t i = below(im.s.size()); const sect& s = im.s[i]; if(s.raw.size() < n) continue; uint32_t o = (uint32_t)below(s.raw.size() - n + 1); if(chance(70)) o &= ~3u; if(chance(10)) o = (uint32_t)(s.raw.size() - n); if(si) *si = i; return s.va + o; } return 0; }
static void poke(image& im, uint32_t rva, const bytes& b) { for(size_t i = 0; i < im.s.size(); ++i) { sect& s = im.s[i]; if(rva >= s.va && rva + b.size() <= s.va + s.raw.size()) memcpy(&s.raw[rva - s.va], b.data(), b.size()); } }
// snapshot of a loaded image for "nothing else changed" checks
struct snap { std::vector<bytes> raw; std::vector<bytes> hd; bytes nt, full; snap(const pe_base& pe) { const section_list& l = pe.get_image_sections(); for(size_t i = 0; i < l.size(); ++i) { raw.push_back(l[i].get_raw_data()); hd.push_back(bytes((const char*)&l[i].get_raw_header(), 40)); } nt = bytes(pe.get_nt_headers_ptr(), pe.get_sizeof_nt_header()); full = pe.get_full_headers_data(); } };
// raw data of section i equals what it was before except for the listed ranges (offset, new bytes); anything beyond the old end is zero
static bool expect_raw(const bytes& now, bytes want, const std::vector<std::pair<uint64_t, bytes> >& w, std::string& why)
{
	for(size_t i = 0; i < w.size(); ++i) if(!w[i].second.empty()) puts_(want, w[i].first, w[i].second);
	bytes a = now, b = want; size_t n = std::max(a.size(), b.size()); a.resize(n); b.resize(n);
	for(size_t i = 0; i < n; ++i) if(a[i] != b[i]) { why = "first difference at " + num(i) + " now " + hex(a.substr(i, 16)) + " expected " + hex(b.substr(i, 16)); return false; }
	return true;
}
static section& sect_of(pe_base& pe, size_t i) { return pe.get_image_sections()[i]; }
// typed reads must end before the headers end
static bool rdn(const vmem& m, uint64_t rva, int n, uint64_t& v) { rva &= 0xffffffffu; if(m.inhdr(rva, n + 1)) { v = get(m.hdr, rva, n); return true; } if(m.sec(rva) < 0 || m.inhdr(rva, n)) return false; return m.num(rva, n, v); }
static bool rstr(const vmem& m, uint64_t rva, bytes& s) { if(m.len(rva) < 2) return false; return m.str(rva, s); }
// typed read of a structure
static bool rdt(const vmem& m, uint64_t rva, size_t n, bytes& x) { if(m.inhdr(rva, n + 1)) { x = m.hdr.substr(rva, n); return true; } if(m.sec(rva) < 0 || m.inhdr(rva, n)) return false; x = m.rd(rva, n); return !x.empty(); }
// after a rebuild into a section: every section still holds what its header says, sections before the last have not grown, the image size is the end of the last section
static void consistent(const pe_base& pe, const image& im)
{
	const section_list& l = pe.get_image_sections(); CHECK(l.size() == im.s.size(), "rebuild: number of sections unchanged", num(l.size()));
	for(size_t i = 0; i < l.size() && i < im.s.size(); ++i)
	{
		const section& s = l[i]; uint64_t n = s.get_raw_data().size(); std::string at = "section " + num(i) + " raw " + num(n) + " size " + num(s.get_size_of_raw_data()) + " virtual " + num(s.get_virtual_size());
		CHECK(s.get_virtual_address() == im.s[i].va, "rebuild: sections stay where they are", at);
		CHECK(s.get_size_of_raw_data() >= n, "rebuild: the header covers the data of the section", at); CHECK(up(s.get_virtual_size(), im.salign) >= n, "rebuild: the virtual size covers the data of the section", at);
		if(i + 1 < l.size()) CHECK(n <= up(im.s[i].rsz, im.falign) && up(s.get_virtual_size(), im.salign) <= im.s[i + 1].va - im.s[i].va, "rebuild: only the last section grows", at);
		else CHECK(pe.get_size_of_image() == s.get_virtual_address() + up(s.get_virtual_size() ? s.get_virtual_size() : s.get_size_of_raw_data(), im.salign), "rebuild: image size is the end of the last section", at + " image " + num(pe.get_size_of_image()));
	}
}
// now and then the place where need bytes just fit into the raw data of a section that cannot grow (or just do not)
static uint32_t just(const image& im, size_t ts, uint64_t need, uint32_t off, uint32_t al)
{
	uint64_t room = up(im.s[ts].rsz, im.falign); if(ts + 1 == im.s.size() || need > room || !chance(12)) return off;
	++stat_["just fits"]; uint32_t o = (uint32_t)(room - need); return chance(60) ? o : chance(50) ? o + (uint32_t)range(1, al) : o - std::min(o, (uint32_t)range(1, al));
}
// a section that is not part of the image is refused and nothing changes
template<class F> static void foreign(pe_base& pe, size_t ts, F f)
{
	if(!chance(6)) return;
	section x(sect_of(pe, ts)); bytes raw = x.get_raw_data(); snap b(pe); std::string what; int r = run([&] { f(x); }, &what); snap a(pe);
	CHECK(r == 1, "rebuild: a section outside the image is refused", what); CHECK(a.raw == b.raw && a.hd == b.hd && a.nt == b.nt && x.get_raw_data() == raw, "rebuild: a refused section changes nothing", ""); ++stat_["foreign section"];
}
}

// Exception directories: an independent reading of the directory decides what must come back.
#include "vm.h"
int main(int c, char** v)
{
	init(c, v);
	do
	{
		image im = plain_image(range(1, 3), 60, 500, chance(40)); size_t n = below(7); bytes t; std::vector<uint32_t> ui;
		uint32_t d = place(im, 12 * (n + 1)); if(!d) continue; d &= ~3u;
		if(chance(30)) { sect& q = im.s[below(im.s.size())]; q.raw.resize(im.salign); q.vs = im.salign; for(size_t i = 1; i < im.s.size(); ++i) im.s[i].va = im.s[i - 1].va + (uint32_t)up(im.s[i - 1].vs, im.salign); n = 1 + below(8); d = q.va + im.salign - 12 * (uint32_t)n; }
		if(d < im.s[0].va) continue;
		for(size_t i = 0; i < n; ++i) { uint32_t b = 1 + (uint32_t)below(chance(90) ? 0x10000 : 0xffffffff), u = place(im, 6); if(chance(3)) u = edge32(); p32(t, b); p32(t, chance(97) ? b + below(0x1000) : b - 1); p32(t, u); ui.push_back(u); if(chance(40)) { bytes x; p8(x, rnd()); p8(x, rnd()); p8(x, rnd()); p8(x, rnd()); poke(im, u, x); } }
		uint32_t size = 12 * (uint32_t)n; if(chance(20)) { size += 12 * (1 + (uint32_t)below(3)); if(chance(80)) { pn(t, 0, 8); p32(t, rnd()); } } if(chance(10)) size -= (uint32_t)below(size + 1); if(chance(3)) size = edge32(); if(chance(5)) d += 1 + (uint32_t)below(3);
		poke(im, d, t); if(chance(5)) d = (uint32_t)(im.s.back().va + up(im.s.back().vs, im.salign) - below(4) * 4);
		im.dir[3][0] = chance(96) ? d : 0; im.dir[3][1] = size; if(chance(3)) im.ndirs = 3;
		start("exception directory at " + num(d) + " size " + num(size) + " " + hex(t));
		vmem m(im); pe_base pe = load(im); std::string what; exception_entry_list l; int r = run([&] { l = get_exception_directory_data(pe); }, &what);
		CHECK(r != 2, "only documented exceptions", what);
		if(!im.dir[3][0] || im.ndirs <= 3) { CHECK(r == 0 && l.empty(), "no directory, no entries", what); continue; }
		struct e { uint32_t b, e, u; bytes x; }; std::vector<e> w; bool ok = m.len(d) >= 12 && d % 4 == 0;
		for(uint64_t o = 0; ok && o + 12 <= size; o += 12)
		{
			bytes q = m.rd(d + o, 12); if(q.empty()) { ok = false; break; }
			e x; x.b = (uint32_t)get(q, 0, 4); x.e = (uint32_t)get(q, 4, 4); x.u = (uint32_t)get(q, 8, 4); if(!x.b) break;
			x.x = m.rd(x.u, 6); if(x.b > x.e || x.x.empty()) { ok = false; break; }
			w.push_back(x);
		}
		CHECK(ok || r == 1, "malformed directory is refused", ""); CHECK(!ok || r == 0, "well-formed directory is read", what);
		if(r || !ok) { stat_["refused"]++; continue; }
		++nontrivial_; stat_["entries"] += w.size(); sample(case_);
		CHECK(l.size() == w.size(), "one entry per record", num(l.size()) + " expected " + num(w.size()));
		for(size_t i = 0; i < l.size() && i < w.size(); ++i)
		{
			const exception_entry& a = l[i]; const bytes& x = w[i].x;
			CHECK(a.get_begin_address() == w[i].b && a.get_end_address() == w[i].e && a.get_unwind_info_address() == w[i].u, "addresses as encoded", num(a.get_begin_address()));
			uint8_t f = (uint8_t)x[0] >> 3; CHECK(a.get_unwind_info_version() == ((uint8_t)x[0] & 7) && a.get_flags() == f, "version and flags as encoded", num(a.get_flags()) + " from " + hex(x));
			CHECK(a.has_exception_handler() == ((f & 1) != 0) && a.has_termination_handler() == ((f & 2) != 0) && a.is_chaininfo() == ((f & 4) != 0), "flag queries", num(f));
			CHECK(a.get_size_of_prolog() == (uint8_t)x[1] && a.get_number_of_unwind_slots() == (uint8_t)x[2], "prolog size and slot count as encoded", hex(x));
			CHECK(a.get_frame_pointer_register_number() == ((uint8_t)x[3] & 15) && a.uses_frame_pointer() == (((uint8_t)x[3] & 15) != 0) && a.get_scaled_rsp_offset() == (uint8_t)x[3] >> 4, "frame register and offset as encoded", hex(x));
		}
	} while(more());
	return finish();
}

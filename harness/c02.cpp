// Rebasing: every byte of the image after rebasing is predicted from the entries alone.
#include "vm.h"
int main(int c, char** v)
{
	init(c, v);
	do
	{
		image im = plain_image(range(1, 3), 40, 600); im.s[0].va = std::max(im.s[0].va, im.salign); bool b = im.is64; vmem m(im); pe_base pe = load(im); snap s(pe); size_t ns = im.s.size();
		uint64_t nb = b ? (chance(50) ? im.base + (below(0x200000) << 12) - 0x100000000ull : rnd() & ~0xffffull) : (uint32_t)(edge32() & (chance(80) ? ~0xffffu : ~0u)), diff = nb - im.base; bool odd = diff & 0xffff;
		relocation_table_list l; std::string d; std::vector<bytes> w = s.raw; bytes hd = s.full; bool bad = false, wrap = false; std::set<std::pair<size_t, uint64_t> > used; bool high = false, over = false;
		for(size_t i = below(5); i-- > 0;)
		{
			size_t k = below(ns); uint32_t page = chance(80) ? (im.s[k].va & ~0xfffu) : chance(50) ? 0 : im.s[k].va + (uint32_t)below(im.s[k].raw.size() + 1); if(chance(2)) page = 0xfffff800u; relocation_table t(page);
			for(size_t j = below(6); j-- > 0;)
			{
				uint16_t ty = chance(40) ? (b ? 10 : 3) : chance(70) ? pick<uint16_t>({0, 1, 2, 3, 10}) : (uint16_t)below(16); uint16_t o = (uint16_t)(chance(85) && im.s[k].raw.size() ? below(std::min<size_t>(im.s[k].raw.size(), 0x1000)) : below(0x1000)); if(chance(5)) o = (uint16_t)((im.s[k].raw.size() - below(9)) & 0xfff);
				t.add_relocation(relocation_entry(o, ty)); d += " " + num(page) + "+" + num(o) + ":" + num(ty); if(ty == 0 || bad) continue;
				int n = ty == 1 || ty == 2 ? 2 : ty == 3 ? 4 : ty == 10 ? 8 : 0; if(!n || (uint64_t)page + o > 0xffffffffu) { bad = true; continue; }
				uint64_t a = (uint64_t)page + o, add = ty == 1 ? diff >> 16 : diff; high |= ty == 1; bytes* x = 0; uint64_t off = a;
				if(a + n < hd.size()) x = &hd; else { int q = m.sec(a); if(q >= 0 && a - im.s[q].va + n <= w[q].size()) { x = &w[q]; off = a - im.s[q].va; } }
				if(!x) { bad = true; continue; }
				for(int z = 0; z < n; ++z) over |= !used.insert(std::make_pair((size_t)(x - &hd), off + z)).second;
				put(*x, off, get(*x, off, n) + add, n); stat_["values"]++;
			}
			l.push_back(t);
		}
		start(std::string(b ? "64" : "32") + " from " + num(im.base) + " to " + num(nb) + " entries" + d); std::string what; int r = run([&] { rebase_image(pe, l, nb); }, &what);
		CHECK(r != 2, "only documented exceptions", what); CHECK(!bad || r == 1, "unusable entry is refused", ""); CHECK(bad || r == 0, "usable entries are rebased", what); if(bad || r) { stat_["refused"]++; continue; }
		++nontrivial_; sample(case_); snap a(pe); CHECK(a.raw == w, "every relocated value moves by the difference and nothing else changes", ""); CHECK(a.full == hd, "headers: relocated values move and nothing else changes", "");
		bytes nt = s.nt; put(nt, 24 + (b ? 24 : 28), nb, b ? 8 : 4); CHECK(a.nt == nt && a.hd == s.hd && pe.get_image_base_64() == nb, "new base stored and headers otherwise unchanged", num(pe.get_image_base_64()));
		r = run([&] { rebase_image(pe, l, im.base); }, &what); CHECK(r == 0, "rebasing back", what); if(r || (high && odd) || over) continue; snap z(pe); CHECK(z.raw == s.raw && z.full == s.full && z.nt == s.nt, "rebasing back restores the image", "");
	} while(more());
	return finish();
}

// Conversions between wide strings and UCS-2 (iconv is outside the deductive part).
#include "h.h"
int main(int c, char** v)
{
	init(c, v);
	do
	{
		u16string u; size_t n = pick<size_t>({0, 1, 2, 3, 10, 100, 1000}) + below(4);
		for(size_t i = 0; i < n; ++i) { unicode16_t x; do x = (unicode16_t)(chance(50) ? 32 + below(90) : chance(20) ? pick<int>({1, 0x7f, 0x80, 0xff, 0x100, 0xd7ff, 0xe000, 0xfffd, 0xfffe}) : rnd()); while((x >= 0xd800 && x < 0xe000)); u += x; }
		start("convert " + num(n) + " units");
		if(n) { ++nontrivial_; sample(case_); }
		std::wstring w; std::string what;
		int k = run([&] { w = pe_utils::from_ucs2(u); }, &what);
		CHECK(k == 0, "conversion of valid text succeeds", what);
		if(k) continue;
		bool same = w.size() == u.size(); for(size_t i = 0; same && i < u.size(); ++i) same = (uint32_t)w[i] == u[i];
		CHECK(same, "every code unit kept from UCS-2", num(n));
		u16string b; k = run([&] { b = pe_utils::to_ucs2(w); }, &what);
		CHECK(k == 0, "conversion back succeeds", what);
		CHECK(k != 0 || b == u, "every code unit kept to UCS-2", num(n));
		// a character outside the range is refused, never cut off
		std::wstring big = w + (wchar_t)(0x10000 + below(0x1000)) + w; u16string r;
		k = run([&] { r = pe_utils::to_ucs2(big); }, &what);
		CHECK(k != 2, "only documented exceptions", what);
		CHECK(k == 1, "characters that do not fit are refused", num(big.size()));
		// null termination test inside the bound only
		bytes d = rbytes(below(40)); for(size_t i = 0; i < d.size(); ++i) if(!d[i] && chance(80)) d[i] = 1;
		size_t lim = below(d.size() + 1); std::vector<char> ex(d.begin(), d.begin() + lim);
		bool exp = std::find(ex.begin(), ex.end(), 0) != ex.end();
		CHECK(pe_utils::is_null_terminated(ex.data(), lim) == exp, "terminator found inside the bound only", hex(d) + " limit " + num(lim));
	} while(more());
	return finish();
}

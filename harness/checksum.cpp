// File checksum: an independent 16-bit one's complement sum (carry added at the end) plus length; stream left as found.
#include "h.h"
static uint32_t oracle(const bytes& f, uint32_t lfanew)
{
	// the documented algorithm on 16-bit words with end-around carry, the checksum field taken as zero
	bytes b = f; int64_t pos = (int64_t)(int32_t)lfanew + 4 + 20 + 64;
	bool aligned = pos >= 0 && pos % 4 == 0;
	if(aligned) for(int64_t i = pos; i < pos + 4 && i < (int64_t)b.size(); ++i) b[i] = 0;
	uint64_t s = 0;
	for(size_t i = 0; i < b.size(); i += 2) { s += get(b, i, 2); s = (s & 0xffff) + (s >> 16); }
	s = (s & 0xffff) + (s >> 16);
	return (uint32_t)(s + b.size());
}
static void one(const bytes& f, uint32_t lfanew, std::ios_base::iostate mask, size_t at, bool ok_header)
{
	std::istringstream s(f, std::ios::in | std::ios::binary);
	s.seekg(at); 
	// the header is read at the current position; the sum covers the whole stream
	std::ios_base::iostate m0 = mask; s.exceptions(m0);
	uint32_t r = 0; std::string what; int k = run([&] { r = calculate_checksum(s); }, &what);
	CHECK(k != 2, "only documented exceptions", what + " mask " + num(mask) + " length " + num(f.size()) + " position " + num(at));
	CHECK((k == 0) == ok_header, "malformed headers are refused and others accepted", what + " length " + num(f.size()));
	if(k == 0) CHECK(r == oracle(f, lfanew), "the checksum is the documented one", num(r) + " expected " + num(oracle(f, lfanew)) + " file " + hex(f));
	CHECK(s.exceptions() == m0, "exception mask restored", num(mask));
	CHECK(s.good(), "stream state good afterwards", num(s.rdstate()) + " length " + num(f.size()));
	s.exceptions(std::ios::goodbit); s.clear();
	CHECK((size_t)s.tellg() == at, "position restored", num((uint64_t)s.tellg()) + " expected " + num(at) + " length " + num(f.size()) + " mask " + num(mask));
}
int main(int c, char** v)
{
	init(c, v);
	do
	{
		size_t n = pick<size_t>({0, 2, 63, 64, 65, 100, 128, 152, 215, 216, 217, 218, 219, 220, 221, 512, 1000, 1001, 1002, 1003}) + (chance(40) ? below(300) : 0);
		if(chance(4)) n = 65536 + below(70000);
		bytes f = chance(30) ? bytes(n, (char)0xff) : chance(30) ? bytes(n, (char)0) : rbytes(n);
		if(chance(30) && n) for(int i = 0; i < 20; ++i) f[below(n)] = (char)rnd();
		uint32_t lf = chance(70) ? (uint32_t)below(200) * 4 : edge32();
		if(chance(85)) puts_(f, 0, f.size() < 2 ? bytes() : bytes("MZ"));
		if(f.size() >= 64) put(f, 60, lf, 4);
		std::ios_base::iostate mask = pick<std::ios_base::iostate>({std::ios::goodbit, std::ios::goodbit, std::ios::badbit, std::ios::failbit, std::ios::eofbit, std::ios::failbit | std::ios::badbit | std::ios::eofbit});
		bool ok = f.size() >= 64 && get(f, 0, 2) == 0x5a4d;
		lf = f.size() >= 64 ? (uint32_t)get(f, 60, 4) : 0;
		start("checksum length " + num(f.size()) + " lfanew " + num(lf) + " mask " + num(mask));
		if(ok) { ++nontrivial_; sample(case_); }
		one(f, lf, mask, 0, ok);
	} while(more());
	return finish();
}

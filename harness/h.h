// Shared part of the bounded stand-ins: case generation, reporting and an image builder that is independent of the library.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <ctime>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <sstream>
#include <iostream>
#include <algorithm>
#include <functional>
#include <exception>
#include <unistd.h>
#include <signal.h>
extern "C" void __sanitizer_set_death_callback(void (*)(void));
#include "pe_bliss.h"
#include "pe_bliss_resources.h"
#include "pe_checksum.h"
#include "entropy.h"
#include "file_version_info.h"
using namespace pe_bliss;
typedef std::string bytes;
namespace H
{
static uint64_t rs_ = 1;
static inline uint64_t rnd() { uint64_t z = (rs_ += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
static inline uint64_t below(uint64_t n) { return n ? rnd() % n : 0; }
static inline bool chance(unsigned pct) { return below(100) < pct; }
static inline uint64_t range(uint64_t a, uint64_t b) { return a + below(b - a + 1); }
template<class T> static inline T pick(std::initializer_list<T> l) { return *(l.begin() + below(l.size())); }
static inline uint32_t edge32() { switch(below(7)) { case 0: return (uint32_t)below(16); case 1: return (uint32_t)-1 - (uint32_t)below(16); case 2: return 0x80000000u + (uint32_t)below(8) - 4; case 3: return 0x7fff0000u + (uint32_t)below(0x20000); case 4: return (uint32_t)below(0x10000); default: return (uint32_t)rnd(); } }
static bytes rbytes(size_t n) { bytes r(n, 0); for(size_t i = 0; i < n; ++i) r[i] = (char)rnd(); return r; }
static bytes rname(size_t lo, size_t hi) { bytes r(range(lo, hi), 'a'); for(size_t i = 0; i < r.size(); ++i) r[i] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_.?@$"[below(67)]; return r; }

static long long cases_ = 0, nontrivial_ = 0, fails_ = 0, samples_ = 0;
static std::map<std::string, long long> stat_;
static double t0_; static double secs_ = 15; static bool thorough_ = false;
static std::string case_;
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static std::string hex(const bytes& b, size_t lim = 400) { std::string r; char x[3]; for(size_t i = 0; i < b.size() && i < lim; ++i) { snprintf(x, 3, "%02x", (unsigned char)b[i]); r += x; } if(b.size() > lim) r += "..."; return r; }
static std::string num(uint64_t v) { char x[32]; snprintf(x, 32, "0x%llx", (unsigned long long)v); return x; }
static void fail(const std::string& clause, const std::string& what)
{
	static std::map<std::string, int> seen;
	++fails_;
	if(++seen[clause] > 2) return;
	std::string w = what; for(size_t i = 0; i < w.size(); ++i) if(w[i] == '\n') w[i] = ' ';
	printf("FAIL %s | %s | case %s\n", clause.c_str(), w.substr(0, 1500).c_str(), case_.substr(0, 400).c_str()); fflush(stdout);
	if(seen.size() > 8) { printf("STAT cases %lld\nSTAT nontrivial %lld\n", cases_, nontrivial_); fflush(stdout); _exit(0); }
}
// the running case is reported when the sanitizer stops the program or when one case takes longer than 20 s
static void died() { fprintf(stderr, "CASE %s\n", case_.substr(0, 600).c_str()); }
static void stuck(int) { printf("FAIL termination: one case takes longer than 20 s | | case %s\n", case_.substr(0, 600).c_str()); fflush(stdout); _exit(0); }
static void start(const std::string& c) { case_ = c; ++cases_; alarm(20); }
static void sample(const std::string& s) { if(samples_ < 4) { ++samples_; printf("SAMPLE %s\n", s.substr(0, 300).c_str()); } }
static bool more(double share = 1.0) { return now() - t0_ < secs_ * share; }
static void init(int c, char** v) { thorough_ = c > 1 && !strcmp(v[1], "thorough"); rs_ = c > 2 ? strtoull(v[2], 0, 10) * 0x1234567 + 99 : 1; secs_ = c > 3 ? atof(v[3]) : 10; t0_ = now(); signal(SIGALRM, stuck); __sanitizer_set_death_callback(died); }
static int finish() { printf("STAT cases %lld\nSTAT nontrivial %lld\n", cases_, nontrivial_); for(std::map<std::string, long long>::iterator i = stat_.begin(); i != stat_.end(); ++i) printf("STAT %s %lld\n", i->first.c_str(), i->second); return 0; }
#define CHECK(cond, clause, what) do { if(!(cond)) H::fail(clause, what); } while(0)

// ---- little-endian writing
static inline void p8(bytes& b, uint64_t v) { b += (char)v; }
static inline void p16(bytes& b, uint64_t v) { p8(b, v); p8(b, v >> 8); }
static inline void p32(bytes& b, uint64_t v) { p16(b, v); p16(b, v >> 16); }
static inline void p64(bytes& b, uint64_t v) { p32(b, v); p32(b, v >> 32); }
static inline void pn(bytes& b, uint64_t v, int n) { for(int i = 0; i < n; ++i) p8(b, v >> (8 * i)); }
static inline void put(bytes& b, size_t off, uint64_t v, int n) { if(b.size() < off + n) b.resize(off + n); for(int i = 0; i < n; ++i) b[off + i] = (char)(v >> (8 * i)); }
static inline void puts_(bytes& b, size_t off, const bytes& s) { if(b.size() < off + s.size()) b.resize(off + s.size()); memcpy(&b[0] + off, s.data(), s.size()); }
static inline uint64_t get(const bytes& b, size_t off, int n) { uint64_t v = 0; for(int i = n; i-- > 0;) v = v << 8 | (off + i < b.size() ? (unsigned char)b[off + i] : 0); return v; }

// ---- an image described independently of the library
struct sect { bytes name, raw; uint32_t va, vs, ch, rsz, rptr; bool autoraw; sect() : va(0), vs(0), ch(0xE0000020), rsz(0), rptr(0), autoraw(true) {} };
struct image
{
	bool is64; uint64_t base; uint32_t salign, falign, lfanew, ndirs, entry, soi, soh; uint16_t chars, dllchars, subsystem, machine, opt_extra; bytes stub; std::vector<sect> s; uint32_t dir[16][2]; uint32_t checksum, stamp; bytes overlay;
	image() : is64(false), base(0x400000), salign(0x1000), falign(0x200), lfanew(0x80), ndirs(16), entry(0), soi(0), soh(0), chars(0x102), dllchars(0), subsystem(3), machine(0x14c), opt_extra(0), checksum(0), stamp(0x12345678) { memset(dir, 0, sizeof dir); }
	uint32_t optsize() const { return (is64 ? 112 : 96) + ndirs * 8 + opt_extra; }
	sect& add(const bytes& raw, uint32_t vs = 0, const bytes& name = ".sec")
	{
		sect x; x.name = name; x.raw = raw; x.va = 0x1000;
		if(!s.empty()) { const sect& l = s.back(); uint32_t sz = l.vs ? l.vs : (uint32_t)l.raw.size(); x.va = l.va + (sz + salign - 1) / salign * salign; }
		x.vs = vs ? vs : (uint32_t)raw.size(); s.push_back(x); return s.back();
	}
	uint32_t headers_end() const { return lfanew + 24 + optsize() + 40 * (uint32_t)s.size(); }
	void layout()
	{
		uint32_t p = (headers_end() + falign - 1) / falign * falign; if(!soh) soh = p;
		uint32_t end = salign;
		for(size_t i = 0; i < s.size(); ++i)
		{
			sect& x = s[i];
			if(x.autoraw) { x.rsz = ((uint32_t)x.raw.size() + falign - 1) / falign * falign; x.rptr = x.rsz ? p : 0; }
			p += x.rsz; uint32_t sz = x.vs ? x.vs : x.rsz; end = x.va + (sz + salign - 1) / salign * salign;
		}
		if(!soi) soi = end;
	}
	bytes build()
	{
		layout();
		bytes f;
		f += "MZ"; f.resize(60); p32(f, lfanew); f += stub; f.resize(std::max<size_t>(lfanew, 64));
		if(lfanew < f.size() && lfanew >= 64) f.resize(lfanew);
		f += bytes("PE\0\0", 4); p16(f, is64 ? 0x8664 : machine); p16(f, s.size()); p32(f, stamp); p32(f, 0); p32(f, 0); p16(f, optsize()); p16(f, chars);
		size_t o = f.size();
		p16(f, is64 ? 0x20b : 0x10b); p8(f, 8); p8(f, 0); p32(f, 0); p32(f, 0); p32(f, 0); p32(f, entry); p32(f, 0x1000); if(!is64) p32(f, 0);
		pn(f, base, is64 ? 8 : 4); p32(f, salign); p32(f, falign); p16(f, 4); p16(f, 0); p16(f, 0); p16(f, 0); p16(f, 5); p16(f, 1); p32(f, 0); p32(f, soi); p32(f, soh); p32(f, checksum); p16(f, subsystem); p16(f, dllchars);
		int w = is64 ? 8 : 4; pn(f, 0x100000, w); pn(f, 0x1000, w); pn(f, 0x100000, w); pn(f, 0x1000, w); p32(f, 0); p32(f, ndirs);
		for(uint32_t i = 0; i < ndirs && i < 16; ++i) { p32(f, dir[i][0]); p32(f, dir[i][1]); }
		f.resize(o + optsize());
		for(size_t i = 0; i < s.size(); ++i)
		{
			bytes n = s[i].name; n.resize(8); f += n; p32(f, s[i].vs); p32(f, s[i].va); p32(f, s[i].rsz); p32(f, s[i].rptr); p32(f, 0); p32(f, 0); p16(f, 0); p16(f, 0); p32(f, s[i].ch);
		}
		for(size_t i = 0; i < s.size(); ++i) if(s[i].rsz) { if(f.size() < s[i].rptr) f.resize(s[i].rptr); f.resize(s[i].rptr); f += s[i].raw; f.resize(s[i].rptr + s[i].rsz); }
		if(f.size() < soh) f.resize(soh);
		return f + overlay;
	}
};
static pe_base load(const bytes& f) { std::istringstream s(f, std::ios::in | std::ios::binary); return pe_factory::create_pe(s); }
static pe_base load(image& i) { return load(i.build()); }
// the outcome of running f: 0 returned, 1 documented exception, 2 anything else
template<class F> static int run(F f, std::string* what = 0)
{
	try { f(); return 0; }
	catch(const pe_exception& e) { if(what) *what = e.what(); return 1; }
	catch(const std::exception& e) { if(what) *what = std::string("foreign exception ") + e.what(); return 2; }
	catch(...) { if(what) *what = "unknown exception"; return 2; }
}
static void mutate(bytes& b, size_t lo, size_t hi, int n)
{
	if(hi > b.size()) hi = b.size();
	if(lo >= hi) return;
	for(int i = 0; i < n; ++i)
	{
		size_t o = lo + below(hi - lo); int w = pick<int>({1, 2, 4});
		switch(below(4))
		{
		case 0: b[o] = (char)rnd(); break;
		case 1: b[o] ^= (char)(1 << below(8)); break;
		case 2: { o = o / w * w; uint64_t v = edge32(); for(int k = 0; k < w && o + k < b.size(); ++k) b[o + k] = (char)(v >> (8 * k)); break; }
		default: { o = o / w * w; uint64_t v = get(b, o, w) + below(9) - 4; for(int k = 0; k < w && o + k < b.size(); ++k) b[o + k] = (char)(v >> (8 * k)); }
		}
	}
}
}
using namespace H;

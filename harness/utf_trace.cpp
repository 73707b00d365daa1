// Records executions of nytl/utf.hpp for spec/UtfTrace.tla
#include "trace.hpp"
#include <nytl/utf.hpp>
#include <memory>
using namespace tr;
typedef std::vector<int> Cps;

static void enc8(std::string& o, unsigned c) {
	if(c < 0x80) o += (char) c; else if(c < 0x800) { o += (char)(0xC0 | c >> 6); o += (char)(0x80 | (c & 63)); }
	else if(c < 0x10000) { o += (char)(0xE0 | c >> 12); o += (char)(0x80 | ((c >> 6) & 63)); o += (char)(0x80 | (c & 63)); }
	else { o += (char)(0xF0 | c >> 18); o += (char)(0x80 | ((c >> 12) & 63)); o += (char)(0x80 | ((c >> 6) & 63)); o += (char)(0x80 | (c & 63)); }
}
static void enc16(std::u16string& o, unsigned c) {
	if(c < 0x10000) o += (char16_t) c; else { c -= 0x10000; o += (char16_t)(0xD800 + (c >> 10)); o += (char16_t)(0xDC00 + (c & 1023)); }
}
template<typename S> Cps dump(const S& s) { Cps r; r.reserve(s.size()); for(auto c : s) r.push_back((int)(typename std::make_unsigned<std::conditional_t<sizeof(c) == 4, int, std::conditional_t<sizeof(c) == 2, short, char>>>::type) c); return r; }

// a view into memory of exactly that size: reading behind it is detected
template<typename C> struct View {
	std::unique_ptr<C[]> p; size_t n;
	View(const std::basic_string<C>& s) : p(new C[s.size()]), n(s.size()) { std::copy(s.begin(), s.end(), p.get()); }
	operator std::basic_string_view<C>() const { return {p.get(), n}; }
};
static void conv(const Cps& s) {
	std::string u8; std::u16string u16; std::u32string u32;
	for(auto c : s) { enc8(u8, c); enc16(u16, c); u32 += (char32_t) c; }
	View<char> v8(u8); View<char16_t> v16(u16); View<char32_t> v32(u32);
	Rec r("conv");
	r("cps", s)("from32to8", dump(nytl::toUtf8((std::u32string_view) v32)))("from16to8", dump(nytl::toUtf8((std::u16string_view) v16)))
		("from32to16", dump(nytl::toUtf16((std::u32string_view) v32)))("from8to16", dump(nytl::toUtf16((std::string_view) v8)))
		("from8to32", dump(nytl::toUtf32((std::string_view) v8)))("from16to32", dump(nytl::toUtf32((std::u16string_view) v16)))
		("count", (long) nytl::charCount(v8));
	out.next(); out.write(r);
}
static void nth(Rec& r, std::string& s, std::string_view v, std::size_t n) {
	bool thrown = false; int throws = 0, others = 0;
	std::array<char, 5> a {}; long pos = -1, mpos = -1; int size = -1, msize = -1;
	try { a = nytl::nth(v, n); } catch(const std::out_of_range&) { ++throws; } catch(...) { ++others; }
	try { std::uint8_t z = 77; auto& c = nytl::nth(v, n, z); pos = &c - v.data(); size = z; } catch(const std::out_of_range&) { ++throws; } catch(...) { ++others; }
	try { std::uint8_t z = 77; char& c = nytl::nth(s, n, z); mpos = &c - s.data(); msize = z; } catch(const std::out_of_range&) { ++throws; } catch(...) { ++others; }
	thrown = throws == 3 && !others;
	if(throws && !thrown) pos = -2;
	r("chars", dump(a))("pos", pos)("size", size)("mpos", mpos)("msize", msize)("thrown", thrown);
}
static void chars(const Cps& s, bool every) {
	std::string u8; for(auto c : s) enc8(u8, c);
	View<char> v(u8);
	std::vector<std::size_t> idx;
	for(size_t i = 0; i <= s.size() + 1; ++i) if(every || rnd(0, 4) == 0 || i + 2 > s.size()) idx.push_back(i);
	idx.push_back((std::size_t) -1); idx.push_back(u8.size()); idx.push_back((1ul << 32)); idx.push_back((1ul << 32) + 1); idx.push_back(256); idx.push_back(65536);
	for(auto n : idx) { Rec r("nth"); r("cps", s)("n", n > 1000000 ? -1 : (int) n); nth(r, u8, v, n); out.next(); out.write(r); }
}
static void longStr(const std::vector<std::vector<int>>& runs) {
	std::string u8; long total = 0;
	for(auto& r : runs) { total += r[1]; for(int i = 0; i < r[1]; ++i) enc8(u8, r[0]); }
	View<char> v(u8);
	std::vector<long> idx = {0, 1, 127, 128, 255, 256, 257, 65535, 65536, 65537, total - 1, total, total + 1, total + 255, total + 256};
	long acc = 0; for(auto& r : runs) { acc += r[1]; idx.push_back(acc - 1); idx.push_back(acc); }
	std::string js = "["; for(size_t i = 0; i < runs.size(); ++i) js += (i ? "," : "") + val(runs[i]); js += "]";
	for(auto n : idx) { Rec r("long"); r.raw("runs", js)("n", n)("count", (long) nytl::charCount(v)); nth(r, u8, v, n); out.next(); out.write(r); }
}
static int scalar() {
	static const int special[] = {0, 1, 0x41, 0x7E, 0x7F, 0x80, 0x81, 0xFF, 0x100, 0x7FE, 0x7FF, 0x800, 0x801, 0xFFF, 0x1000, 0xCFFF, 0xD7FF, 0xE000, 0xFEFF, 0xFFFE, 0xFFFD, 0xFFFF, 0x10000, 0x10001,
		0x1F600, 0x3FFFF, 0x40000, 0xFFFFF, 0x100000, 0x10FFFE, 0x10FFFF, 0xBF, 0xC0, 0x3FF, 0x400, 0x10FC00};
	for(;;) { int c; switch(rnd(0, 5)) { case 0: c = special[rnd(0, sizeof(special) / sizeof(int) - 1)]; break; case 1: c = rnd(0, 127); break; case 2: c = rnd(128, 2047); break;
		case 3: c = rnd(2048, 65535); break; case 4: c = rnd(65536, 0x10FFFF); break; default: c = special[rnd(0, sizeof(special) / sizeof(int) - 1)]; }
		if(c < 0xD800 || c > 0xDFFF) return c; }
}
int main(int argc, char** argv) {
	init(argc, argv);
	conv({}); chars({}, true);
	// all scalar values in order (quick: around all boundaries and every step-th block)
	int step = (int) optn("--blocks", 1), from = (int) optn("--offset", 0);
	const int L = 64;
	auto near = [](int b) { for(int x : {0, 0x80, 0x800, 0xD7FF, 0xE000, 0xFEFF, 0xFFFF, 0x10000, 0x20000, 0x40000, 0x80000, 0xC0000, 0xF0000, 0x100000, 0x10FFFF}) if(std::abs(x - b) < 150) return true; return false; };
	for(int b = 0, k = 0; b < 0x110000; b += L, ++k) {
		if(k % step != from % step && !near(b)) continue;
		Cps s; for(int c = b; c < b + L; ++c) if(c < 0xD800 || c > 0xDFFF) s.push_back(c);
		if(!s.empty()) { conv(s); if(near(b) || k % (step * 8) == 0) chars(s, false); }
	}
	// every single special value and pairs
	for(int i = 0; i < (thorough ? 20000 : 1500); ++i) { Cps s; int n = i % 12; for(int k = 0; k < n; ++k) s.push_back(scalar()); conv(s); chars(s, true); }
	for(int i = 0; i < (thorough ? 300 : 20); ++i) { Cps s; int n = rnd(100, 700); for(int k = 0; k < n; ++k) s.push_back(scalar()); conv(s); chars(s, false); }
	longStr({{0x41, 70000}}); longStr({{0xE9, 300}, {0x20AC, 65300}, {0x1F600, 70000}, {0, 5}, {0x7FF, 200000}}); longStr({{0x10FFFF, 66000}}); longStr({{0x800, 260}, {0x7F, 1}});
	out.close(opt["--name"]);
}

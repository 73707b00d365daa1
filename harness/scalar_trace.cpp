// Records results of nytl/math.hpp for spec/ScalarTrace.tla
#include <cmath>
#include <limits>
#include "trace.hpp"
#include <nytl/math.hpp>
using namespace tr;
typedef std::vector<long long> Ints;
constexpr int B = 4096;
Ints big(unsigned long long v) { Ints r; while(v) { r.push_back(v % B); v /= B; } return r; }
int sign(long v) { return v < 0 ? -1 : v > 0; }
void maps(int x, unsigned u) { Rec c("map"); c("s", sign(x))("m", big(std::abs((long long) x)))("x", big(u)); out.write(c); }
void unmaps(unsigned u, int x) { Rec c("unmap"); c("s", sign(x))("m", big(std::abs((long long) x)))("x", big(u)); out.write(c); }
void map(int x) { maps(x, nytl::mapUnsigned(x)); unsigned u = (unsigned) x; unmaps(u, nytl::unmapUnsigned(u)); out.next(); }
void pairs(unsigned x, unsigned y, unsigned p) { Rec c("pair"); c("a", big(x))("b", big(y))("x", big(p)); out.write(c); }
bool representable(unsigned x, unsigned y) { __int128 s = (__int128) x + y; return s * (s + 1) / 2 + y <= 4294967295u; }
void pair(unsigned x, unsigned y) { if(representable(x, y)) pairs(x, y, nytl::pair(x, y)); }
void clamp(int v, int lo, int hi) { int s = 7; float f = nytl::clampStore((float) v / 4, (float) lo / 4, (float) hi / 4, s); Rec c("clamp"); c("v", v)("lo", lo)("hi", hi)("side", s)("x", exact(f, 4)); out.write(c); }
template<typename P, typename T> void mix(int x, int y, int a) { Rec c("mix"); c("a", x)("b", y)("t", a)("u", 16)("x", exact((long double) nytl::mix((P) x / (P) 4, (P) y / (P) 4, (T) a / (T) 16), 64)); out.write(c); }
// the numbers need not have the type of the factor
template<typename P, typename T> void mixi(int x, int y, int a) { Rec c("mix"); c("a", 4 * x)("b", 4 * y)("t", a)("u", 16)("x", exact((long double) nytl::mix((P) x, (P) y, (T) a / (T) 16), 64)); out.write(c); }
template<typename P> void smooth(int lo, int hi, int v) { Rec c("smooth"); c("lo", lo)("hi", hi)("v", v)("k", 4096)("x", fix((long double) nytl::smoothstep((P) lo / (P) 8, (P) hi / (P) 8, (P) v / (P) 8), 4096)); out.write(c); }
template<typename P> void angles(int n, int d) {
	{ Rec c("radians"); c("n", n)("k", 1000)("tol", 1)("x", fix(nytl::radians((P) n), 1000)); out.write(c); }
	{ int m = n % 40; if(std::is_integral_v<P>) d = 1; Rec c("degrees"); c("n", m)("d", d)("k", 1024)("tol", 1)("x", fix(nytl::degrees((P) m / (P) d), 1024)); out.write(c); }
	{ Rec c("there and back"); c("n", n)("k", 100000)("tol", 1)("x", fix(nytl::degrees(nytl::radians((P) n)), 100000)); out.write(c); }
	{ Rec c("there and back"); c("n", n)("k", 100000)("tol", 1)("x", fix(nytl::radians(nytl::degrees((P) n)), 100000)); out.write(c); }
}
// more digits than float has: numbers near a large one (what is left without it is recorded), factors with 16 bits
template<typename P, typename T> void mixc(int x, int y, int a, long double base) { Rec c("mix"); c("a", x)("b", y)("t", a)("u", 16)("x", exact((long double) nytl::mix((P) ((P) base + (P) x / 4), (P) ((P) base + (P) y / 4), (T) a / (T) 16) - base, 64)); out.write(c); }
template<typename P, typename T, int Q = 4> void mixu(int x, int y, int a) { Rec c("mix"); c("a", x)("b", y)("t", a)("u", 65536)("x", exact((long double) nytl::mix((P) x / (P) Q, (P) y / (P) Q, (T) a / (T) 65536), Q * 65536)); out.write(c); }
template<typename P> void smoothc(int lo, int hi, int v, long double base) { auto f = [&](int i) { return (P) ((P) base + (P) i / 8); }; Rec c("smooth"); c("lo", lo)("hi", hi)("v", v)("k", 4096)("x", fix((long double) nytl::smoothstep(f(lo), f(hi), f(v)), 4096)); out.write(c); }
template<typename P> void smoothx(int n, long double lo, long double width) { Rec c("smooth exactly"); c("n", n)("d", 1024)("x", exact((long double) nytl::smoothstep((P) lo, (P) (lo + width), (P) (lo + width * n / 1024)), 1 << 30)); out.write(c); }
Ints big48(long double v) { return big((unsigned long long) std::llround(std::ldexp(std::fabs(v), 48))); }
int sgn(long double v) { return v < 0 ? -1 : v > 0; }
template<typename P> void anglesx(int n) {
	{ long double r = nytl::radians((P) n); Rec c("radians exactly"); c("sn", sgn(n))("n", std::abs(n))("s", sgn(r))("x", big48(r)); out.write(c); }
	n %= 400; { long double r = nytl::degrees((P) n); Rec c("degrees exactly"); c("sn", sgn(n))("n", std::abs(n))("s", sgn(r))("x", big48(r)); out.write(c); }
}
// at compile time
template<int... I> void constants(std::integer_sequence<int, I...>) {
	(..., [] { constexpr int x = I % 2 ? std::numeric_limits<int>::max() - I * 3 : I - 8; constexpr auto u = nytl::mapUnsigned(x); maps(x, u); constexpr auto b = nytl::unmapUnsigned(u); unmaps(u, b);
		constexpr int y = std::numeric_limits<int>::min() + I; constexpr auto v = nytl::mapUnsigned(y); maps(y, v); constexpr auto c = nytl::unmapUnsigned(v); unmaps(v, c);
		constexpr unsigned px = 65000 + I * 17, py = 26000 - I; constexpr auto p = nytl::pair(px, py); pairs(px, py, p); 
		constexpr auto f = nytl::factorial(I); { Rec c("factorial"); c("n", I)("x", big(f)); out.write(c); }
		constexpr auto m = nytl::mix(I / 4.0, 2.0, 0.25); { Rec c("mix"); c("a", I)("b", 8)("t", 4)("u", 16)("x", exact(m, 64)); out.write(c); }
		constexpr auto s = nytl::smoothstep(0.0, 2.0, I / 8.0); { Rec c("smooth"); c("lo", 0)("hi", 16)("v", I)("k", 4096)("x", fix(s, 4096)); out.write(c); } }());
}
int main(int argc, char** argv) {
	init(argc, argv);
	int f = thorough ? 40 : 1; constexpr int mx = std::numeric_limits<int>::max(), mn = std::numeric_limits<int>::min();
	constants(std::make_integer_sequence<int, 21> {}); out.next();
	for(int from = -4096; from < 4096; from += 256) { Ints v; for(int i = 0; i < 256; ++i) v.push_back(nytl::mapUnsigned(from + i)); Rec c("mapall"); c("from", from)("x", v); out.write(c); out.next(); }
	for(int from = 0; from < 8192; from += 256) { Ints v; for(int i = 0; i < 256; ++i) v.push_back(nytl::unmapUnsigned(from + i)); Rec c("unmapall"); c("from", from)("x", v); out.write(c); out.next(); }
	for(int i = -40; i <= 40; ++i) { map(i); for(int b = 8; b < 31; ++b) if(std::abs(i) < 4) { map((1 << b) + i); map(-(1 << b) + i); } }
	for(int i = 0; i < 40; ++i) { map(mx - i); map(mn + i); }
	for(int i = 0; i < 1500 * f; ++i) { map((int) rng()); map((int) rng() >> rnd(1, 30)); }
	for(int x = 0; x < (thorough ? 300 : 120); ++x) { Ints v; for(int y = 0; y < 120; ++y) v.push_back(nytl::pair(x, y)); Rec c("pairall"); c("a", x)("x", v); out.write(c); out.next(); }
	// along the largest representable results: sums about 92681
	for(int i = 0; i < 600 * f; ++i) { unsigned s = rnd(0, 3) ? rnd(92000, 92682) : rnd(0, 92682), y = rnd(0, 4) ? rnd(0, s) : rnd(0, 1) ? s : 0; pair(s - y, y); pair(rng() % 65536, rng() % 30000); out.next(); }
	for(unsigned s : {65535u, 65536u, 46340u, 46341u, 92680u, 92681u, 65534u, 92679u, 0u, 1u}) for(unsigned y : {0u, 1u, 2u, s / 2, s}) if(y <= s) { pair(s - y, y); out.next(); }
	for(unsigned n = 0; n <= 20; ++n) { Rec c("factorial"); c("n", n)("x", big(nytl::factorial(n))); out.write(c); }
	for(int lo = -4; lo <= 4; ++lo) for(int hi = lo; hi <= 4; ++hi) for(int v = -6; v <= 6; ++v) { clamp(v, lo, hi); out.next(); }
	for(int i = 0; i < 300 * f; ++i) { int a = rnd(-100000, 100000), b = rnd(-100000, 100000); if(a > b) std::swap(a, b); clamp(rnd(-100000, 100000), a, b); clamp(rnd(0, 1) ? a + rnd(-1, 1) : b + rnd(-1, 1), a, b); out.next(); }
	for(int i = 0; i < 300 * f; ++i) { int x = rnd(-999, 999), y = rnd(-999, 999), a = rnd(0, 4) ? rnd(0, 16) : rnd(-40, 60); if(rnd(0, 5) == 0) a = rnd(0, 1) * 16;
		mix<double, double>(x, y, a); mix<float, float>(x, y, a); mix<float, double>(x, y, a); mix<double, float>(x, y, a); mix<double, int>(x, y, a / 16 * 16); mixi<int, double>(x, y, a); mixi<short, float>(x, y, a); mixi<long, double>(x, y, a); out.next(); }
	for(int i = 0; i < 500 * f; ++i) { int lo = rnd(-40, 40), hi = lo + rnd(1, 60), v = rnd(0, 5) ? rnd(lo - 2, hi + 2) : rnd(-1000, 1000); smooth<double>(lo, hi, v); smooth<float>(lo, hi, v); out.next(); }
	for(int n = -720; n <= 720; n += thorough ? 1 : 5) { angles<double>(n, rnd(1, 9)); angles<float>(n, rnd(1, 9)); angles<int>(n, 1); out.next(); }
	for(int i = 0; i < 200 * f; ++i) { int x = rnd(-9999, 9999), y = rnd(-9999, 9999), a = rnd(0, 16); long double b = rnd(0, 1) ? 1ll << 30 : -(3ll << 33);
		mixc<double, double>(x, y, a, b); mixc<double, float>(x, y, a, b); mixc<long double, double>(x, y, a, std::ldexp(b, 12));
		a = rnd(0, 65536); mixu<double, double>(x, y, a); mixu<float, double>(x, y, a); mixu<double, float>(x, y, a); mixu<long double, float>(x, y, a); mixu<int, double, 1>(x, y, a); mixu<long, double, 1>(x, y, a); mixu<short, double, 1>(x, y, a);
		int lo = rnd(-40, 40), hi = lo + rnd(1, 60), v = rnd(lo - 2, hi + 2); smoothc<double>(lo, hi, v, b); smoothc<long double>(lo, hi, v, std::ldexp(b, 12));
		int n = rnd(0, 1024); smoothx<double>(n, 0, 1); smoothx<double>(n, 1ll << 25, 1ll << 20); smoothx<double>(n, -3, 0.25); smoothx<long double>(n, -5, 4096); out.next(); }
	for(int i = 0; i < 200 * f; ++i) { int n = rnd(-720, 720); anglesx<double>(n); anglesx<long double>(n); anglesx<int>(n); if(i < 100) anglesx<long>(i); out.next(); }
	auto cst = [](const char* n, double v) { Rec c("constant"); c("n", n)("x", fix(v, 100000000)); out.write(c); };
	cst("pi", nytl::constants::pi); cst("e", nytl::constants::e); cst("degree", nytl::constants::degree);
	auto cstx = [](const char* n, double v) { Rec c("constant exactly"); c("n", n)("x", big48(v)); out.write(c); };
	cstx("pi", nytl::constants::pi); cstx("e", nytl::constants::e); cstx("degree", nytl::constants::degree);
	out.close(opt["--name"]);
}

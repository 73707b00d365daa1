// Records operations of vectors (WHAT 0) and matrices (WHAT 1) with numbers of all
// magnitudes their types hold exactly, for spec/RingTrace.tla
#include "trace.hpp"
#include <limits>
#include <nytl/vec.hpp>
#include <nytl/vecOps.hpp>
#include <nytl/mat.hpp>
#include <nytl/matOps.hpp>
using namespace tr;
using nytl::Vec;
using nytl::Mat;
typedef __int128 Big;
template<typename T> std::string num1(T v) {
	static const int M[] = {32768, 32767, 32765, 32763};
	Big x;
	if constexpr(std::is_floating_point_v<T>) { if(!(v > -9.2e18 && v < 9.2e18) || (T) (long long) v != v) return "[-1,-1,-1,-1]"; x = (long long) v; } else x = v;
	std::string s = "["; for(int k = 0; k < 4; ++k) { int r = (int) (x % M[k]); if(r < 0) r += M[k]; s += (k ? "," : "") + val(r); } return s + "]";
}
template<typename T> std::enable_if_t<std::is_arithmetic_v<T>, std::string> js(T v) { return "[[" + num1(v) + "]]"; }
template<size_t D, typename T> std::string js(const Vec<D, T>& v) { std::string s = "["; const T* p = &v[0]; for(auto i = 0u; i < D; ++i) s += (i ? ",[" : "[") + num1(p[i]) + "]"; return s + "]"; }
template<size_t R, size_t C, typename T> std::string js(const Mat<R, C, T>& m) { std::string s = "["; for(auto i = 0u; i < R; ++i) { const T* p = &m.rows_[i][0]; s += i ? ",[" : "["; for(auto j = 0u; j < C; ++j) s += (j ? "," : "") + num1(p[j]); s += "]"; } return s + "]"; }
template<typename T> constexpr bool fl = std::is_floating_point_v<T>;
template<typename T> constexpr bool un = std::is_unsigned_v<T>;
// bits of the integers a type holds exactly
template<typename T> constexpr int cap = std::numeric_limits<T>::digits > 62 ? 62 : std::numeric_limits<T>::digits;
inline int lg(int n) { int r = 0; while((1 << r) < n) ++r; return r; }
template<typename T> T value(int bits) {
	if(bits < 1) bits = 1; if(bits > cap<T>) bits = cap<T>;
	int b = rnd(0, 2) ? bits : rnd(1, bits);
	long long v = (long long) ((((unsigned long long) rng() << 32) | rng()) & ((1ull << b) - 1));
	if(rnd(0, 1)) v |= 1ll << (b - 1); if(rnd(0, 3)) v |= 1;
	if(rnd(0, 30) == 0) v = (1ll << b) - 1; if(rnd(0, 30) == 0) v = 0;
	if(!un<T> && rnd(0, 1)) v = -v;
	return (T) v;
}
template<size_t D, typename T> void fill(Vec<D, T>& v, int bits) { for(auto i = 0u; i < D; ++i) v[i] = value<T>(bits); }
template<size_t R, size_t C, typename T> void fill(Mat<R, C, T>& v, int bits) { for(auto i = 0u; i < R; ++i) for(auto j = 0u; j < C; ++j) v[i][j] = value<T>(bits); }
const char* types = "";
inline Rec rec(const char* op) { Rec r(op); r("t", types); return r; }
template<typename X> void res(Rec& r, const X& x) { r.raw("res", js(x)); out.write(r); }
template<typename TA, typename TB> struct Pair {
	typedef decltype(TA {} + TB {}) R;
	static constexpr int ca = std::min(cap<TA>, cap<R>), cb = std::min(cap<TB>, cap<R>);
	// bits of the operands of a sum of n products (k factors)
	static void split(int n, int& x, int& y) { int total = cap<R> - lg(n) - (n > 1 ? 1 : 0); x = rnd(std::max(1, total - cb), std::min(ca, total - 1)); y = std::min(cb, total - x); }
	static int sumbits(int n) { return cap<R> - lg(n) - 1; }
};
template<typename A, typename B> void operands(Rec& r, const A& a, const B& b) { r.raw("a", js(a)).raw("b", js(b)); }
#define BIN(name, expr) { auto r_ = rec(name); operands(r_, a, b); auto v_ = expr; r_.raw("b2", js(b)); res(r_, v_); }
#define UNA(name, obj, expr) { auto r_ = rec(name); r_.raw("a", js(obj)); res(r_, expr); }
// in place: a is changed
#define INP(name, stmt) { auto r_ = rec(name); operands(r_, a, b); r_("ip", 1); stmt; r_.raw("b2", js(b)); res(r_, a); }
template<size_t D, typename TA, typename TB> void vecs(int n) {
	typedef Pair<TA, TB> P; typedef typename P::R R; Vec<D, TA> a {}; Vec<D, TB> b {};
	namespace cw = nytl::vec::cw;
	for(int k = 0; k < n; ++k) {
		int s = P::sumbits(2), x, y;
		fill(a, std::min(P::ca, s)); fill(b, std::min(P::cb, s));
		BIN("+", a + b)
		{ auto o = a; if(un<R>) for(auto i = 0u; i < D; ++i) { if(b[i] < 0) b[i] = -b[i]; if(a[i] < 0) a[i] = -a[i]; if((R) a[i] < (R) b[i]) b[i] = (TB) std::min<R>((R) a[i], (R) 1); } BIN("-", a - b) a = o; }
		if constexpr(!un<TA>) UNA("neg", a, -a)
		UNA("same", a, +a)
		// in place, the result has to fit into a
		{ int m = std::min(cap<TA>, cap<R>) - 1; if(std::min(P::ca, m) > 0) { fill(a, std::min(P::ca, m)); fill(b, std::min(P::cb, m)); if(un<R> || un<TA>) for(auto i = 0u; i < D; ++i) { if(b[i] < 0) b[i] = -b[i]; if(a[i] < 0) a[i] = -a[i]; }
			INP("+", a += b)
			fill(a, std::min(P::ca, m)); fill(b, std::min(P::cb, m)); bool ok = true; if(un<R> || un<TA>) for(auto i = 0u; i < D; ++i) { if(a[i] < 0) a[i] = -a[i]; if(b[i] < 0) b[i] = -b[i]; ok = ok && (R) a[i] >= (R) b[i]; }
			if(ok) INP("-", a -= b)
		} }
		// products
		P::split(1, x, y); fill(a, x); fill(b, y); if(un<R>) { for(auto i = 0u; i < D; ++i) { if(b[i] < 0) b[i] = -b[i]; if(a[i] < 0) a[i] = -a[i]; } }
		BIN("entries", cw::multiply(a, b)) { using namespace cw::operators; BIN("entries", a * b) }
		{ TB f = b[0]; { auto r = rec("scale"); r.raw("a", js(a)).raw("x", num1(f)); res(r, f * a); } { using namespace nytl::vec::operators; auto r = rec("scale"); r.raw("a", js(a)).raw("x", num1(f)); res(r, a * f); } }
		{ auto q = cw::multiply(a, b); bool nz = true; for(auto i = 0u; i < D; ++i) nz = nz && b[i] != 0; if(nz) { auto r = rec("quot"); operands(r, q, b); res(r, cw::divide(q, b)); using namespace cw::operators; auto r2 = rec("quot"); operands(r2, q, b); res(r2, q / b); } }
		P::split(D, x, y); fill(a, x); fill(b, y); if(un<R>) for(auto i = 0u; i < D; ++i) { if(b[i] < 0) b[i] = -b[i]; if(a[i] < 0) a[i] = -a[i]; }
		BIN("dot", nytl::dot(a, b))
		if constexpr(!un<R>) { P::split(2, x, y); fill(a, x); fill(b, y); if constexpr(D == 3) BIN("cross3", nytl::cross(a, b)) if constexpr(D == 2) BIN("cross2", nytl::cross(a, b)) }
		// in place products fit into a
		{ int m = std::min(cap<TA>, cap<R>) - 1; int xb = rnd(1, m - 1); if(xb <= P::ca && m - xb <= P::cb) { fill(a, xb); fill(b, m - xb); if(un<R> || un<TA>) for(auto i = 0u; i < D; ++i) { if(b[i] < 0) b[i] = -b[i]; if(a[i] < 0) a[i] = -a[i]; }
			{ auto c = a; { auto r = rec("scale"); r.raw("a", js(a)).raw("x", num1(b[D - 1])); a *= b[D - 1]; res(r, a); } a = c; }
			{ auto c = a; using namespace cw::operators; INP("entries", a *= b) auto q = a; a = q; bool nz = true; for(auto i = 0u; i < D; ++i) nz = nz && b[i] != 0; if(nz) INP("quot", a /= b) (void) c; } } }
		// scalars
		fill(a, std::min(P::ca, s)); { TB f = value<TB>(std::min(P::cb, s)); if(un<R>) { if(f < 0) f = -f; for(auto i = 0u; i < D; ++i) if(a[i] < 0) a[i] = -a[i]; }
			using namespace cw::operators; auto put = [&](const char* o, auto v) { auto r = rec(o); r.raw("a", js(a)).raw("x", num1(f)); res(r, v); };
			put("plus", a + f); put("plus", f + a); if constexpr(!un<R>) { put("minus", a - f); put("from", f - a); } }
		// one vector
		typedef decltype(a[0] + a[0]) S;
		fill(a, std::min(cap<TA>, cap<S> - lg(D) - 1)); UNA("sum", a, nytl::sum(a))
		fill(a, std::min(cap<TA>, std::max(1, (cap<S> - 1) / (int) D))); UNA("prod", a, nytl::multiply(a))
		{ fill(a, cap<TA>); bool small = cap<TA> <= 53 || fl<TA>; if constexpr(!un<TA>) { std::vector<bool> ng; std::string g = "["; for(auto i = 0u; i < D; ++i) g += (i ? "," : "") + val((bool) (a[i] < 0)); g += "]";
				{ auto r = rec("abs"); r.raw("a", js(a)).raw("neg", g); res(r, cw::abs(a)); } { auto r = rec("abs"); r.raw("a", js(a)).raw("neg", g); auto c = a; cw::ip::abs(c); res(r, c); } }
			if(small) { UNA("same", a, cw::floor(a)) UNA("same", a, cw::ceil(a)) } }
		// selections
		{ Vec<D, TA> c {}, e {}; fill(a, cap<TA>); for(auto i = 0u; i < D; ++i) { c[i] = value<TA>(cap<TA> - 2); switch(rnd(0, 3)) { case 0: c[i] = a[i] > 0 ? a[i] - 1 : a[i] + 1; break; case 1: c[i] = a[i]; break; } e[i] = c[i] < std::numeric_limits<TA>::max() / 4 ? c[i] + (TA) (rnd(0, 2) ? rnd(0, 2) : rnd(0, 200)) : c[i]; if(e[i] < c[i]) std::swap(c[i], e[i]); }
			auto pick = [&](auto f) { std::string g = "["; for(auto i = 0u; i < D; ++i) g += (i ? "," : "") + val((int) f(i)); return g + "]"; };
			{ auto r = rec("pick"); operands(r, a, c); r.raw("pick", pick([&](int i) { return a[i] < c[i]; })); res(r, cw::max(a, c)); }
			{ auto r = rec("pick"); operands(r, a, c); r.raw("pick", pick([&](int i) { return c[i] < a[i]; })); res(r, cw::min(a, c)); }
			{ auto r = rec("pick"); operands(r, a, c); r.raw("c", js(e)).raw("pick", pick([&](int i) { return a[i] < c[i] ? 1 : e[i] < a[i] ? 2 : 0; })); res(r, cw::clamp(a, c, e)); }
			{ auto r = rec("pick"); operands(r, a, c); r.raw("c", js(e)).raw("pick", pick([&](int i) { return a[i] < c[i] ? 1 : e[i] < a[i] ? 2 : 0; })); auto h = a; cw::ip::clamp(h, c, e); res(r, h); }
			{ auto h = a; for(auto i = 0u; i < D; ++i) if(rnd(0, (int) D) == 0) h[i] = c[i]; auto r = rec("eq"); operands(r, a, h); r("eq", (bool) (a == h))("ne", (bool) (a != h)); out.write(r); } }
		// conversions
		fill(a, P::ca); if(un<TB>) for(auto i = 0u; i < D; ++i) if(a[i] < 0) a[i] = -a[i]; if(cap<TB> < cap<TA>) { fill(a, cap<TB>); if(un<TB>) for(auto i = 0u; i < D; ++i) if(a[i] < 0) a[i] = -a[i]; }
		auto conv = [&](auto o) { typedef decltype(o) V; auto r = rec("conv"); r.raw("a", js(a))("r", (int) V::size())("c", 1); res(r, static_cast<V>(a)); };
		conv(Vec<D, TB> {}); conv(Vec<2, TB> {}); conv(Vec<3, TB> {}); conv(Vec<4, TB> {}); conv(Vec<1, TB> {}); conv(Vec<6, TB> {});
		if constexpr(!un<TA> && sizeof(TA) >= 4) { Vec<D, TA> c {}; fill(a, cap<TA> - 2); fill(c, cap<TA> - 2); auto r = rec("mirror"); operands(r, a, c); res(r, nytl::mirror(a, c)); }
		out.next();
	}
}
template<size_t R, size_t C, size_t K, typename TA, typename TB> void mats(int n) {
	typedef Pair<TA, TB> P; typedef typename P::R RT; Mat<R, C, TA> a {}; Mat<R, C, TB> b {}; Mat<C, K, TB> e {}; Vec<C, TB> v {};
	static_assert(!un<TA> && !un<TB>);
	for(int k = 0; k < n; ++k) {
		int s = P::sumbits(2), x, y;
		fill(a, std::min(P::ca, s)); fill(b, std::min(P::cb, s));
		BIN("+", a + b) BIN("-", a - b) UNA("neg", a, -a)
		fill(a, cap<TA>); UNA("transpose", a, nytl::transpose(a)) { auto i = rnd(0, R - 1), j = rnd(0, C - 1); { auto r = rec("row"); r.raw("a", js(a))("r", i + 1); res(r, a[i]); } { auto r = rec("col"); r.raw("a", js(a))("r", j + 1); res(r, nytl::col(a, j)); } }
		if constexpr(R == C) { UNA("transpose", a, nytl::transpose(a)) fill(a, cap<decltype(TA {} + TA {})> - lg(R) - 1 < cap<TA> ? cap<decltype(TA {} + TA {})> - lg(R) - 1 : cap<TA>); UNA("trace", a, nytl::trace(a)) fill(a, std::min(cap<TA>, std::max(1, (cap<decltype(TA {} * TA {})> - 1) / (int) R))); UNA("diag", a, nytl::multiplyDiagonal(a)) }
		{ int m = std::min(cap<TA>, cap<RT>) - 1; fill(a, std::min(P::ca, m)); fill(b, std::min(P::cb, m)); INP("+", a += b) fill(a, std::min(P::ca, m)); INP("-", a -= b) }
		P::split(1, x, y); fill(a, x); { TB f = value<TB>(y); auto r = rec("scale"); r.raw("a", js(a)).raw("x", num1(f)); res(r, f * a); }
		P::split(C, x, y); fill(a, x); fill(e, y); fill(v, y); { auto r = rec("times"); operands(r, a, e); res(r, a * e); } { auto r = rec("times"); operands(r, a, v); res(r, a * v); }
		{ int m = std::min(cap<TA>, cap<RT>) - 1; int xb = rnd(1, m - 1); if(xb <= P::ca && m - xb <= P::cb) { fill(a, xb); TB f = value<TB>(m - xb); auto r = rec("scale"); r.raw("a", js(a)).raw("x", num1(f)); a *= f; res(r, a); }
			m -= lg(C) + 1; if constexpr(R == C) if(m > 3) { xb = rnd(1, m - 1); if(xb <= P::ca && m - xb <= P::cb) { fill(a, xb); fill(b, m - xb); INP("times", a *= b) } xb = m / 2; fill(a, xb); { auto r = rec("times"); r.raw("a", js(a)).raw("b", js(a)); a *= a; res(r, a); } } }
		fill(a, std::min(cap<TA>, cap<TB>)); auto conv = [&](auto o) { typedef decltype(o) M; auto r = rec("conv"); r.raw("a", js(a))("r", (int) M::rows())("c", (int) M::cols()); res(r, static_cast<M>(a)); };
		conv(Mat<R, C, TB> {}); conv(Mat<2, 2, TB> {}); conv(Mat<3, 3, TB> {}); conv(Mat<4, 1, TB> {}); conv(Mat<1, 4, TB> {}); conv(Mat<C, R, TB> {});
		{ fill(a, cap<TA>); auto h = a; if(rnd(0, 2)) { auto& q = h[rnd(0, R - 1)][rnd(0, C - 1)]; q = q > 0 ? q - 1 : q + 1; } auto r = rec("eq"); operands(r, a, h); r("eq", (bool) (a == h))("ne", (bool) (a != h)); out.write(r);
			if constexpr(R == C) { for(auto i = 0u; i < R; ++i) for(auto j = 0u; j < i; ++j) a[i][j] = a[j][i]; if(R > 1 && rnd(0, 1)) { auto i = rnd(1, R - 1), j = rnd(0, i - 1); auto& q = a[i][j]; q = q > 0 ? q - 1 : q + 1; } auto q = rec("eq"); Mat<R, C, TA> t {}; for(auto i = 0u; i < R; ++i) for(auto j = 0u; j < R; ++j) t.rows_[j][i] = a.rows_[i][j]; operands(q, a, t); bool sy = nytl::symmetric(a); q("eq", sy)("ne", !sy); out.write(q); } }
		out.next();
	}
}
template<typename TA, typename TB> void both(const char* t) {
	types = t; int n = thorough ? 60 : 8;
#if WHAT == 0
	vecs<1, TA, TB>(n); vecs<2, TA, TB>(n); vecs<3, TA, TB>(n); vecs<4, TA, TB>(n); vecs<5, TA, TB>(n);
#else
	if constexpr(!un<TA> && !un<TB>) { mats<1, 1, 2, TA, TB>(n); mats<2, 2, 3, TA, TB>(n); mats<3, 2, 4, TA, TB>(n); mats<2, 3, 1, TA, TB>(n); mats<3, 3, 2, TA, TB>(n); mats<4, 4, 4, TA, TB>(n); mats<1, 5, 1, TA, TB>(n); mats<3, 4, 2, TA, TB>(n); }
#endif
}
int main(int argc, char** argv) {
	init(argc, argv);
	typedef long L; typedef unsigned U; typedef unsigned long UL;
#define T(A, B) both<A, B>(#A " " #B);
#if GROUP == 0
	T(L, L) T(double, double) T(float, float) T(int, int) T(double, float)
#else
	T(L, int) T(int, L) T(float, double) T(L, double) T(double, L) T(float, int) T(int, float)
#if WHAT == 0
	T(U, U) T(UL, UL) T(UL, U) T(U, L)
#endif
#endif
	out.close(opt["--name"]);
}

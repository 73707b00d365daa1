// Records results of nytl/approx.hpp and approxVec.hpp for spec/ApproxTrace.tla
#include <cmath>
#include <limits>
#include "trace.hpp"
#include <nytl/approx.hpp>
#include <nytl/approxVec.hpp>
#include <nytl/vec.hpp>
#include <nytl/mat.hpp>
using namespace tr;
using nytl::Vec; using nytl::Mat; using nytl::approx; using nytl::Approx;
typedef std::vector<long long> Ints;
constexpr double U = 16, T = 1024;
// numbers far beyond (or below) one: in units of 2^shift; scaled: 1 (beyond), -1 (below)
static int scaled = 0, shift = 0;
struct Num { int kind, n; template<typename P> P get() const { return kind == 0 ? std::ldexp((P) (n / U), shift) : kind == 1 ? (P) n * std::numeric_limits<P>::infinity() : std::numeric_limits<P>::quiet_NaN(); } std::string s() const { return "[" + num(kind) + "," + num(n) + "]"; } };
typedef std::vector<Num> Nums;
std::string js(const Nums& v) { std::string s = "["; for(auto& n : v) s += (s.size() > 1 ? "," : "") + n.s(); return s + "]"; }
Num any(int hi) { int k = rnd(0, 30); return k == 0 ? Num {2, 0} : k == 1 ? Num {1, rnd(0, 1) * 2 - 1} : Num {0, rnd(-hi, hi)}; }
template<typename V, typename A> std::string results(const V& v, const A& a) { return std::string("[") + val(bool(v == a)) + "," + val(bool(a == v)) + "," + val(bool(v != a)) + "," + val(bool(a != v)) + "]"; }
template<typename V, typename A> void compare(const Nums& nv, const Nums& nw, int e, const V& v, const A& a) { Rec c(scaled ? "scaled" : "compare"); c.raw("v", js(nv)).raw("w", js(nw))("e", e).raw("r", results(v, a)); if(scaled) c("s", scaled); out.write(c); }
double tol(int e) { return scaled < 0 ? std::ldexp(e / T, shift) : e / T; }
static const int eps[] = {0, 1, 2, 5, 16, 64, 100, 512, 1024, 3000, -4};
int anyeps() { return eps[rnd(0, 10)]; }
// w is mostly close to v, up to the limit of the tolerance
int limit(int e, int n) { int a = std::abs(n); return std::max(0, (int) (e * (scaled > 0 ? a : scaled < 0 ? U : U + a) / T)); }
Nums around(const Nums& v, int e) { Nums w = v; for(auto& n : w) { if(n.kind == 0) { int t = limit(e, n.n); if(rnd(0, 2)) n.n += rnd(-t, t); } else if(rnd(0, 1)) n = any(40); } if(rnd(0, 2)) { auto& n = w[rnd(0, w.size() - 1)]; if(n.kind == 0) { int t = limit(e, n.n); n.n += (rnd(0, 1) ? 1 : -1) * (t + rnd(-1, 1)); } else n = any(40); } return w; }
template<typename T1, typename T2> void scalars(int n) { for(int i = 0; i < n; ++i) { int e = anyeps(); Nums v {any(400)}, w = around(v, e); compare(v, w, e, v[0].get<T1>(), approx(w[0].get<T2>(), tol(e))); out.next(); } }
template<typename T1, typename T2> void complexes(int n) { for(int i = 0; i < n; ++i) { int e = anyeps(); Nums v {any(200), any(200)}, w = around(v, e); compare(v, w, e, std::complex<T1>(v[0].get<T1>(), v[1].get<T1>()), approx(std::complex<T2>(w[0].get<T2>(), w[1].get<T2>()), tol(e))); out.next(); } }
template<size_t D, typename P> Vec<D, P> vec(const Nums& n) { Vec<D, P> r {}; for(auto i = 0u; i < D; ++i) r[i] = n[i].get<P>(); return r; }
template<size_t R, size_t C, typename P> Mat<R, C, P> mat(const Nums& n) { Mat<R, C, P> r {}; for(auto i = 0u; i < R; ++i) for(auto j = 0u; j < C; ++j) r[i][j] = n[i * C + j].get<P>(); return r; }
template<size_t D, typename T1, typename T2> void vecs(int n) {
	for(int i = 0; i < n; ++i) { int e = anyeps(); Nums v; for(auto k = 0u; k < D; ++k) v.push_back(any(200)); auto w = around(v, e);
		compare(v, w, e, vec<D, T1>(v), approx(vec<D, T2>(w), tol(e)));
		// other dimensions are never equal
		if(i % 4 == 0) { auto m = w; m.push_back(rnd(0, 1) ? Num {0, 0} : m.back()); compare(v, m, e, vec<D, T1>(v), approx(vec<D + 1, T2>(m), tol(e))); if(D > 1) { auto s = w; s.pop_back(); if constexpr(D > 1) compare(v, s, e, vec<D, T1>(v), approx(vec<D - 1, T2>(s), tol(e))); } }
		out.next(); } }
template<size_t R, size_t C, typename T1, typename T2> void mats(int n) { for(int i = 0; i < n; ++i) { int e = anyeps(); Nums v; for(auto k = 0u; k < R * C; ++k) v.push_back(any(200)); auto w = around(v, e); compare(v, w, e, mat<R, C, T1>(v), approx(mat<R, C, T2>(w), tol(e))); out.next(); } }
template<typename P> void scan() {
	for(int e : eps) for(int w = -24; w <= 24; w += e == 16 ? 1 : 5) { Ints r; auto a = approx((P) (w / U), e / T);
		for(int v = -40; v <= 40; ++v) { P x = (P) (v / U); bool q = x == a; r.push_back((a == x) == q && (x != a) == !q && (a != x) == !q ? q : 2); }
		Rec c("scan"); c("from", -40)("w", w)("e", e)("r", r); out.write(c); out.next(); } }
// default and tiny tolerances: b + d * 1e-10; every component position
template<typename V, typename F> void tiny(size_t n, const F& make) {
	for(int k = 0; k < (thorough ? 60 : 12); ++k) for(size_t pos = 0; pos < n; ++pos) {
		Ints b, d; int c = rnd(0, 1) ? 100 : rnd(1, 4) * 1000; std::vector<double> w, v;
		for(size_t i = 0; i < n; ++i) { b.push_back(rnd(-9, 9)); long lim = c * (1 + std::abs(b.back())); d.push_back(rnd(-lim / 2, lim / 2)); if(i == pos && k % 2) d.back() = (rnd(0, 1) ? 1 : -1) * (lim + lim / 50 + rnd(1, lim * 3)); else if(i == pos) d.back() = (rnd(0, 1) ? 1 : -1) * (lim - lim / 50 - 1); w.push_back(b.back()); v.push_back(b.back() + d.back() * 1e-10); }
		Rec r("tiny"); r("b", b)("d", d)("c", c).raw("r", c == 100 ? results(make(v), approx(make(w))) : results(make(v), approx(make(w), c * 1e-10))); out.write(r); out.next(); } }
// differences only long double represents
void fine() { for(int e : {0, 1, 63}) for(int d = -3; d <= 3; ++d) for(int b : {1, -2, 4}) { long double w = b, v = b + std::ldexp((long double) d, -60); auto a = approx(w, std::ldexp(e / 64.0, -60)); Rec r("fine"); r("b", b)("d", d)("e", e).raw("r", results(v, a)); out.write(r);
	Rec q("fine"); q("b", b)("d", d)("e", e).raw("r", results(Vec<2, long double> {w, v}, approx(Vec<2, long double> {w, w}, std::ldexp(e / 64.0, -60)))); out.write(q); out.next(); } }
template<size_t D> auto mv() { return [](const std::vector<double>& v) { Vec<D, double> r {}; for(auto i = 0u; i < D; ++i) r[i] = v[i]; return r; }; }
template<size_t R, size_t C> auto mm() { return [](const std::vector<double>& v) { Mat<R, C, double> r {}; for(auto i = 0u; i < R; ++i) for(auto j = 0u; j < C; ++j) r[i][j] = v[i * C + j]; return r; }; }
int main(int argc, char** argv) {
	init(argc, argv);
	int n = thorough ? 4000 : 150;
	scan<double>(); scan<float>(); scan<long double>();
	scalars<double, double>(n); scalars<float, float>(n); scalars<float, double>(n); scalars<double, float>(n);
	complexes<double, double>(n); complexes<float, float>(n); complexes<float, double>(n);
	vecs<1, double, double>(n); vecs<2, double, double>(n); vecs<2, float, double>(n); vecs<3, double, double>(n); vecs<3, float, float>(n); vecs<4, double, double>(n); vecs<5, float, double>(n); vecs<3, double, float>(n);
	mats<1, 3, double, double>(n); mats<2, 2, double, double>(n); mats<3, 2, float, float>(n); mats<2, 3, float, double>(n); mats<3, 3, double, double>(n); mats<4, 4, double, double>(n); mats<4, 1, float, float>(n);
	{ Approx<double> a {}; Nums z {{0, 0}}; for(int v = -2; v <= 2; ++v) compare({{0, v}}, z, 0 + (v == 0), v / U, a); }
	{ Approx<Vec<2, double>> a {}; for(int v = -2; v <= 2; ++v) compare({{0, 0}, {0, v}}, {{0, 0}, {0, 0}}, v == 0, Vec<2, double> {0., v / U}, a); }
	tiny<double>(1, [](auto& v) { return v[0]; }); tiny<double>(2, [](auto& v) { return std::complex<double>(v[0], v[1]); });
	tiny<double>(1, mv<1>()); tiny<double>(2, mv<2>()); tiny<double>(3, mv<3>()); tiny<double>(4, mv<4>()); tiny<double>(7, mv<7>());
	tiny<double>(4, mm<2, 2>()); tiny<double>(6, mm<2, 3>()); tiny<double>(6, mm<3, 2>()); tiny<double>(9, mm<3, 3>()); tiny<double>(16, mm<4, 4>()); tiny<double>(5, mm<5, 1>());
	for(int k = 0; k < (thorough ? 60 : 8); ++k) {
		scaled = k % 4 == 3 ? -1 : 1; int m = thorough ? 60 : 30;
		shift = scaled * rnd(60, 110); scalars<float, float>(m); scalars<float, double>(m); complexes<float, float>(m); vecs<3, float, float>(m); vecs<2, float, double>(m); mats<2, 2, float, float>(m); scalars<double, long double>(m);
		shift = scaled * rnd(100, 900); scalars<double, double>(m); complexes<double, double>(m); vecs<1, double, double>(m); vecs<4, double, double>(m); mats<3, 2, double, double>(m); scalars<double, long double>(m);
		if(scaled > 0) { shift = rnd(100, 950); scalars<long double, long double>(2 * m); complexes<long double, long double>(m); vecs<3, long double, long double>(m); mats<2, 2, long double, long double>(m); }
		scaled = shift = 0; }
	fine();
	scalars<long double, long double>(n); vecs<2, long double, long double>(n); complexes<long double, long double>(n);
	// integers compared with approximations
	for(int v = -3; v <= 3; ++v) for(int w = -40; w <= 40; ++w) { compare({{0, v * 16}}, {{0, w}}, 16, v, approx(w / U, 16 / T)); compare({{0, v * 16}, {0, 16}}, {{0, w}, {0, 16}}, 64, Vec<2, int> {v, 1}, approx(Vec<2, double> {w / U, 1.}, 64 / T)); out.next(); }
	out.close(opt["--name"]);
}

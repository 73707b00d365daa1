// Records results of nytl/matOps.hpp (decompositions, echelon forms) for spec/LinearTrace.tla
#include "trace.hpp"
#include <nytl/mat.hpp>
#include <nytl/matOps.hpp>
using namespace tr;
using nytl::Vec; using nytl::Mat;
typedef std::vector<long long> Ints;
template<size_t R, size_t C, typename T> std::string js(const Mat<R, C, T>& m, double k, bool ex) { std::string s = "["; for(auto i = 0u; i < R; ++i) { Ints v; for(auto j = 0u; j < C; ++j) v.push_back(ex ? exact((long double) m[i][j], k) : fix((long double) m[i][j], k)); s += (i ? "," : "") + val(v); } return s + "]"; }
template<size_t D, typename T> Ints iv(const Vec<D, T>& v, double k) { Ints r; for(auto i = 0u; i < D; ++i) r.push_back(fix((long double) v[i], k)); return r; }
template<size_t R, size_t C> using IM = Mat<R, C, int>;

template<size_t D> long det(const IM<D, D>& m) { // only to choose records
	if constexpr(D == 1) return m[0][0]; else { long r = 0; for(auto c = 0u; c < D; ++c) { IM<D - 1, D - 1> n {}; for(auto i = 1u; i < D; ++i) for(auto j = 0u; j < D - 1; ++j) n[i - 1][j] = m[i][j < c ? j : j + 1]; r += (c % 2 ? -1 : 1) * (long) m[0][c] * det<D - 1>(n); } return r; } }

template<size_t D, typename T> void lu(const IM<D, D>& m, double unit) {
	Mat<D, D, T> a {}; for(auto i = 0u; i < D; ++i) for(auto j = 0u; j < D; ++j) a[i][j] = (T) (m[i][j] / unit);
	auto r = nytl::luDecomp(a);
	double mx = 1; for(auto i = 0u; i < D; ++i) for(auto j = 0u; j < D; ++j) { mx = std::max(mx, std::abs((double) r.lower[i][j])); mx = std::max(mx, std::abs((double) r.upper[i][j])); }
	long k = 4096; while(k > unit * 4 && k * mx > 14000) k /= 2;
	auto tri = [&](auto& x, bool lower) { std::string s = "["; for(auto i = 0u; i < D; ++i) { Ints v; for(auto j = 0u; j < D; ++j) { bool z = lower ? j >= i : j < i; v.push_back(z ? exact(x[i][j], k) : fix(x[i][j], k)); } s += (i ? "," : "") + val(v); } return s + "]"; };
	Rec c("lu"); c.raw("a", js(m, 1, true))("unit", (long) unit)("k", k).raw("l", tri(r.lower, true)).raw("u", tri(r.upper, false)).raw("p", js(r.perm, 1, true))("sign", (long) r.sign); out.write(c);
}
template<size_t D, typename T> void square(const IM<D, D>& m) {
	Mat<D, D, T> a = static_cast<Mat<D, D, T>>(m); const auto a0 = a; constexpr bool ex = std::is_integral_v<T>; auto A = js(m, 1, true);
	long d = det<D>(m);
	{ auto x = nytl::determinant(a); Rec c("det"); c.raw("a", A)("exact", ex)("k", 256)("x", ex ? exact((long double) x) : fix((long double) x, 256)); out.write(c); }
	auto l = nytl::luDecomp(a);
	{ Rec c("det"); c.raw("a", A)("exact", false)("k", 256)("x", fix((long double) nytl::determinant(l), 256)); out.write(c); }
	{ Rec c("invertible"); c.raw("a", A)("exact", ex)("x", nytl::invertible(a)); out.write(c); }
	if(d) {
		{ Rec c("inverse"); c.raw("a", A)("k", 256).raw("x", js(nytl::inverse(a), 256, false)); out.write(c); }
		{ Rec c("inverse"); c.raw("a", A)("k", 256).raw("x", js(nytl::inverse(l), 256, false)); out.write(c); }
		Vec<D, int> b; Vec<D, double> bd; Ints bi; for(auto i = 0u; i < D; ++i) { bd[i] = b[i] = rnd(-5, 5); bi.push_back(b[i]); }
		{ Rec c("solve"); c.raw("a", A)("b", bi)("k", 128)("x", rnd(0, 1) ? iv(nytl::luEvaluate(l, b), 128) : iv(nytl::luEvaluate(l, bd), 128)); out.write(c); }
		if(rnd(0, 2) == 0) { // without the permutation
			Mat<D, D, double> p = static_cast<Mat<D, D, double>>(l.perm); Rec c("solve"); c.raw("a", A)("b", bi)("k", 128)("x", iv(nytl::luEvaluate(l.lower, l.upper, p * b), 128)); out.write(c); }
	}
	if(!(a == a0)) { Rec c("changed"); out.write(c); }
}
// is elimination with the largest pivots exact (all pivots powers of two)?
template<size_t R, size_t C> bool simulate(const IM<R, C>& m) {
	auto a = static_cast<Mat<R, C, double>>(m); size_t r = 0;
	for(size_t c = 0; r < R && c < C; ++c) { size_t p = r; for(auto i = r; i < R; ++i) if(std::abs(a[i][c]) > std::abs(a[p][c])) p = i; std::swap(a[p], a[r]); double d = a[r][c]; if(d == 0) continue;
		int e; if(std::abs(std::frexp(d, &e)) != 0.5) return false; for(auto j = 0u; j < C; ++j) a[r][j] /= d; for(auto i = r + 1; i < R; ++i) { double f = a[i][c]; for(auto j = 0u; j < C; ++j) a[i][j] -= f * a[r][j]; } ++r; }
	return true;
}
// the same with rows that are scaled by powers of two: the results are scaled as well (exactly, as far as they are exact)
template<size_t D, typename T> void scaled(const IM<D, D>& m, bool rows) {
	int s = std::is_same_v<T, float> ? rnd(-15, 15) : rnd(-60, 60), sum = (int) D * s; int e[D]; for(auto i = 0u; i < D; ++i) { int r = rows ? rnd(-6, 6) : 0; e[i] = s + r; sum += r; }
	Mat<D, D, T> a {}; for(auto i = 0u; i < D; ++i) for(auto j = 0u; j < D; ++j) a[i][j] = (T) std::ldexp((T) m[i][j], e[i]);
	auto A = js(m, 1, true); auto l = nytl::luDecomp(a); const int k = 1024;
	{ Rec c("det"); c.raw("a", A)("exact", false)("k", 256)("x", fix(std::ldexp((long double) nytl::determinant(a), -sum), 256)); out.write(c); }
	{ Rec c("det"); c.raw("a", A)("exact", false)("k", 256)("x", fix(std::ldexp((long double) nytl::determinant(l), -sum), 256)); out.write(c); }
	{ Rec c("invertible"); c.raw("a", A)("exact", false)("x", nytl::invertible(a)); out.write(c); }
	if(!rows) {
		if(simulate(m)) { auto x = a; nytl::rowEcholon(x); Rec c("ref"); c.raw("a", A)("ex", true)("k", k).raw("x", js(x, k, false)); out.write(c); }
		if(simulate(m)) { Rec c("rref"); c.raw("a", A)("ex", true)("k", k).raw("x", js(nytl::reducedRowEcholonCopy(a), k, false)); out.write(c); }
	}
	if(!det<D>(m)) return;
	for(int t = 0; t < 2; ++t) { auto x = t ? nytl::inverse(l) : nytl::inverse(a); Mat<D, D, double> y {}; for(auto i = 0u; i < D; ++i) for(auto j = 0u; j < D; ++j) y[i][j] = std::ldexp((double) x[i][j], e[j]); Rec c("inverse"); c.raw("a", A)("k", 256).raw("x", js(y, 256, false)); out.write(c); }
	Vec<D, T> b; Ints bi; for(auto i = 0u; i < D; ++i) { int v = rnd(-5, 5); b[i] = (T) std::ldexp((T) v, e[i]); bi.push_back(v); }
	{ Rec c("solve"); c.raw("a", A)("b", bi)("k", 128)("x", iv(nytl::luEvaluate(l, b), 128)); out.write(c); }
}
// factors and right-hand sides of any type: the result has the precision of double
template<typename T1, typename T2> void precise() {
	IM<2, 2> l {}, u {}; Vec<2, int> b; Ints bi; bool first = rnd(0, 1); auto sg = []{ return rnd(0, 1) ? 1 : -1; };
	l[0][0] = sg() * (first ? 3 : 1); l[1][1] = sg() * (first ? 1 : 3); l[1][0] = rnd(-1, 1); u[0][0] = sg(); u[1][1] = sg(); u[0][1] = rnd(-1, 1);
	for(auto i = 0u; i < 2; ++i) { b[i] = rnd(-6, 6); bi.push_back(b[i]); }
	const int k = 1 << 26; auto x = nytl::luEvaluate(static_cast<Mat<2, 2, T1>>(l), static_cast<Mat<2, 2, T1>>(u), static_cast<Vec<2, T2>>(b));
	Rec c("evaluate"); c.raw("a", js(l, 1, true)).raw("bm", js(u, 1, true))("b", bi)("k", k)("x", iv(x, k)); out.write(c);
	nytl::LUDecomposition<2, T1> dec {}; dec.lower = static_cast<Mat<2, 2, T1>>(l); dec.upper = static_cast<Mat<2, 2, T1>>(u); nytl::identity(dec.perm); auto y = nytl::luEvaluate(dec, static_cast<Vec<2, T2>>(b));
	Rec d("evaluate"); d.raw("a", js(l, 1, true)).raw("bm", js(u, 1, true))("b", bi)("k", k)("x", iv(y, k)); out.write(d);
}
template<size_t D> void evaluate() {
	IM<D, D> l {}, u {}; Vec<D, int> b; Ints bi; for(auto i = 0u; i < D; ++i) { b[i] = rnd(-4, 4); bi.push_back(b[i]); for(auto j = 0u; j < D; ++j) { int v = rnd(-2, 2); if(i == j) { do l[i][i] = rnd(-2, 2); while(!l[i][i]); do u[i][i] = rnd(-3, 3); while(!u[i][i]); } else if(j < i) l[i][j] = v; else u[i][j] = v; } }
	auto ld = static_cast<Mat<D, D, double>>(l), ud = static_cast<Mat<D, D, double>>(u);
	Rec c("evaluate"); c.raw("a", js(l, 1, true)).raw("bm", js(u, 1, true))("b", bi)("k", 64)("x", rnd(0, 1) ? iv(nytl::luEvaluate(ld, ud, b), 64) : iv(nytl::luEvaluate(ld, ud, static_cast<Vec<D, double>>(b)), 64)); out.write(c);
}
template<size_t R, size_t C> void echelon(const IM<R, C>& m) {
	bool ex = simulate(m); auto A = js(m, 1, true); const int k = 1024;
	auto ok = [&](auto& x) { for(auto i = 0u; i < R; ++i) for(auto j = 0u; j < C; ++j) if(!(std::abs((double) x[i][j]) < 200)) return false; return true; };
	auto put = [&](const char* op, const auto& x) { Rec c(op); c.raw("a", A)("ex", ex)("k", k).raw("x", js(x, k, false)); out.write(c); };
	switch(rnd(0, 3)) {
	case 0: { auto x = static_cast<Mat<R, C, double>>(m); nytl::rowEcholon(x); put("ref", x); } { auto x = static_cast<Mat<R, C, double>>(m); nytl::reducedRowEcholon(x); put("rref", x); } break;
	case 1: put("ref", nytl::rowEcholonCopy(m)); put("rref", nytl::reducedRowEcholonCopy(m)); break;
	case 2: { auto x = static_cast<Mat<R, C, float>>(m); nytl::rowEcholon(x); put("ref", x); } { auto x = static_cast<Mat<R, C, float>>(m); nytl::reducedRowEcholon(x); put("rref", x); } break;
	default: { auto x = static_cast<Mat<R, C, float>>(m); put("ref", nytl::rowEcholonCopy(x)); put("rref", nytl::reducedRowEcholonCopy(x)); } break;
	}
}
template<typename T, size_t R, size_t C> void pivot(const IM<R, C>& m) {
	auto x = static_cast<Mat<R, C, T>>(m); int r = rnd(0, R - 1), c = rnd(0, C - 1), how = rnd(0, 2);
	auto ret = how == 2 ? nytl::pivot(x, r, c) : nytl::pivot(x, r, c, how == 1);
	Rec k("pivot"); k.raw("a", js(m, 1, true)).raw("x", js(x, 1, true))("ret", exact((long double) ret))("row", r + 1)("col", c + 1)("after", how == 1); out.write(k);
}
template<size_t R, size_t C> IM<R, C> any(int hi, int mode) {
	IM<R, C> m {};
	for(auto i = 0u; i < R; ++i) for(auto j = 0u; j < C; ++j) m[i][j] = rnd(-hi, hi);
	switch(mode) {
	case 1: for(auto i = 0u; i < R; ++i) for(auto j = 0u; j < C; ++j) if(rnd(0, 1)) m[i][j] = 0; break; // sparse
	case 2: if(R > 1) { int a = rnd(0, R - 1), b = rnd(0, R - 1); int f = rnd(-1, 1); for(auto j = 0u; j < C; ++j) m[a][j] = f * m[b][j]; } break; // dependent rows
	case 3: if(C > 1) { int a = rnd(0, C - 1), b = rnd(0, C - 1); int f = rnd(-1, 1); for(auto i = 0u; i < R; ++i) m[i][a] = f * m[i][b]; } break; // dependent columns
	case 4: { m = {}; std::vector<int> p; for(auto i = 0u; i < std::max(R, C); ++i) p.push_back(i); std::shuffle(p.begin(), p.end(), rng); for(auto i = 0u; i < R; ++i) if((size_t) p[i] < C) m[i][p[i]] = rnd(1, hi) * (rnd(0, 1) ? 1 : -1); } break; // monomial
	case 5: { int z = rnd(0, R - 1); for(auto j = 0u; j < C; ++j) m[z][j] = 0; if(rnd(0, 1)) { z = rnd(0, C - 1); for(auto i = 0u; i < R; ++i) m[i][z] = 0; } } break; // zero row
	case 6: for(auto i = 0u; i < R; ++i) for(auto j = 0u; j < std::min<size_t>(i, C); ++j) m[i][j] = 0; break; // triangular
	case 7: if(R > 2) { int a = rnd(0, R - 3); for(auto j = 0u; j < C; ++j) m[R - 1][j] = m[a][j] - m[a + 1][j] ; for(auto j = 0u; j < C; ++j) if(std::abs(m[R - 1][j]) > hi) m[R - 1][j] = hi; } break;
	}
	return m;
}
// does elimination without choosing the pivots meet one that is only a rounding error?
template<size_t D> bool noise(const IM<D, D>& m) {
	auto a = static_cast<Mat<D, D, double>>(m);
	for(auto n = 0u; n < D; ++n) { if(a[n][n] == 0) return false; if(std::abs(a[n][n]) < 1e-9) return true; for(auto i = n + 1; i < D; ++i) { double f = a[i][n] / a[n][n]; for(auto j = n; j < D; ++j) a[i][j] -= f * a[n][j]; } }
	return false;
}
template<size_t D> void rounding(int n, int hi) {
	for(int k = 0, t = 0; k < n && t < 20000; ++t) {
		auto m = any<D, D>(hi, 0); int p = rnd(1, 3), q = rnd(1, 3), a = rnd(0, D - 2); 
		for(auto j = 0u; j < D; ++j) if(j < a + 2u || rnd(0, 1)) { int v = rnd(-hi / 3, hi / 3); m[a][j] = p * v; m[a + 1][j] = q * v; }
		if(!noise(m) || !det<D>(m)) continue;
		++k; lu<D, double>(m, 1); if(hi < 20) { if(rnd(0, 1)) square<D, int>(m); else square<D, double>(m); } out.next();
	}
}
template<size_t D> void squares(int n, int hi, int big) {
	for(int k = 0; k < n; ++k) {
		auto m = any<D, D>(hi, rnd(0, 8)); auto b = any<D, D>(big, rnd(0, 8));
		switch(rnd(0, 3)) { case 0: lu<D, int>(b, 1); break; case 1: lu<D, double>(b, 16); break; case 2: lu<D, float>(b, 8); break; default: lu<D, double>(m, 1); }
		switch(rnd(0, 2)) { case 0: square<D, int>(m); break; case 1: square<D, double>(m); break; default: square<D, float>(m); }
		evaluate<std::min<size_t>(D, 4)>();
		if(rnd(0, 1)) scaled<D, double>(m, rnd(0, 1)); else if(rnd(0, 1)) scaled<D, float>(m, rnd(0, 1));
		switch(rnd(0, 9)) { case 0: precise<float, float>(); break; case 1: precise<float, int>(); break; case 2: precise<int, int>(); break; case 3: precise<double, float>(); break; case 4: precise<float, double>(); break; case 5: precise<double, short>(); break; case 6: precise<int, double>(); break; }
		out.next();
	}
}
template<size_t R, size_t C> void forms(int n, int hi) {
	for(int k = 0; k < n; ++k) {
		auto m = any<R, C>(rnd(0, 1) ? hi : 2, rnd(0, 8)); for(int t = 0; t < 12 && !simulate(m); ++t) if(rnd(0, 4)) m = any<R, C>(rnd(1, 2), rnd(1, 8));
		echelon(m); pivot<double>(m); if(rnd(0, 1)) pivot<int>(m); else pivot<float>(m); out.next();
	}
}
// all matrices with entries -1, 0, 1
template<size_t R, size_t C> void all(int every, bool sq) {
	long n = 1; for(auto i = 0u; i < R * C; ++i) n *= 3;
	for(long k = rnd(0, every - 1); k < n; k += rnd(1, 2 * every - 1)) { long x = k; IM<R, C> m {}; for(auto i = 0u; i < R; ++i) for(auto j = 0u; j < C; ++j) { m[i][j] = x % 3 - 1; x /= 3; }
		echelon(m); pivot<double>(m); if constexpr(R == C) { lu<R, double>(m, 1); if(rnd(0, 1)) square<R, int>(m); else square<R, double>(m); } out.next(); }
}
// all permutation matrices
template<size_t D> void perms() { std::vector<int> p; for(auto i = 0u; i < D; ++i) p.push_back(i); do { IM<D, D> m {}; for(auto i = 0u; i < D; ++i) m[i][p[i]] = rnd(1, 2); lu<D, int>(m, 1); square<D, int>(m); square<D, double>(m); echelon(m); out.next(); } while(std::next_permutation(p.begin(), p.end())); }
int main(int argc, char** argv) {
	init(argc, argv);
	int f = thorough ? 25 : 1;
	all<1, 1>(1, true); all<2, 2>(1, true); all<1, 3>(1, false); all<3, 1>(1, false); all<2, 3>(thorough ? 1 : 4, false); all<3, 2>(thorough ? 1 : 4, false); all<3, 3>(thorough ? 4 : 90, true);
	perms<2>(); perms<3>(); perms<4>(); 
	squares<1>(20 * f, 9, 60); squares<2>(90 * f, 9, 60); squares<3>(160 * f, 9, 40); squares<4>(110 * f, 6, 30); squares<5>(35 * f, 4, 20);
	rounding<3>(60 * f, 15); rounding<3>(30 * f, 60); rounding<4>(30 * f, 9); rounding<4>(30 * f, 40); rounding<5>(30 * f, 30);
	forms<2, 2>(60 * f, 4); forms<2, 3>(80 * f, 4); forms<3, 2>(80 * f, 4); forms<3, 3>(120 * f, 4); forms<3, 4>(100 * f, 4); forms<4, 3>(100 * f, 4); forms<4, 4>(100 * f, 3); forms<2, 5>(50 * f, 4); forms<5, 2>(40 * f, 4); forms<4, 5>(60 * f, 3); forms<5, 4>(40 * f, 2); forms<1, 4>(20 * f, 4); forms<4, 1>(20 * f, 4);
	out.close(opt["--name"]);
}

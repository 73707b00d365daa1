// Records executions of nytl/mat.hpp and matOps.hpp for spec/MatTrace.tla
#include "trace.hpp"
#include <nytl/mat.hpp>
#include <nytl/matOps.hpp>
#include <sstream>
using namespace tr;
using nytl::Vec; using nytl::Mat;
typedef std::vector<long long> Ints;
constexpr double U = 16;
template<typename T> long long x16(const T& v) { return exact((long double) v, U); }
template<typename T> const char* ty() { return std::is_floating_point_v<T> ? "f" : (sizeof(T) == 1 && !std::is_signed_v<T>) ? "b" : sizeof(T) == 2 ? "s" : "i"; }
template<typename T> constexpr bool fl = std::is_floating_point_v<T>;
template<size_t R, size_t C, typename T> std::string js(const Mat<R, C, T>& m) { std::string s = "["; for(auto i = 0u; i < R; ++i) { const T* p = &m.rows_[i][0]; Ints v; for(auto j = 0u; j < C; ++j) v.push_back(x16(p[j])); s += (i ? "," : "") + val(v); } return s + "]"; }
template<size_t D, typename T> std::string js(const Vec<D, T>& v) { std::string s = "["; const T* p = &v[0]; for(auto i = 0u; i < D; ++i) s += (i ? "," : "") + val(Ints{x16(p[i])}); return s + "]"; }
template<typename T> std::string js(const T& v) { return val(std::vector<Ints>{Ints{x16(v)}}); }
template<size_t R, size_t C, typename T> T one_(const Mat<R, C, T>&); template<size_t C, typename T> T one_(const Vec<C, T>&); template<typename T> std::enable_if_t<std::is_arithmetic_v<T>, T> one_(const T&);

// registers: 1 2: R x C of TA, 3 4: R x C of TB, 5: C x K of TA, 6: C x 1 (vector) of TB, 7: R x 1 of TA
template<size_t R, size_t C, size_t K, typename TA, typename TB> struct Session {
	Mat<R, C, TA> a[2]; Mat<R, C, TB> b[2]; Mat<C, K, TA> e; Vec<C, TB> v; Vec<R, TA> w; Vec<C, TA> z; Mat<C, K, TB> e2;
	template<typename F> void with(int r, F&& f) { if(r < 2) f(a[r]); else f(b[r - 2]); }
	std::string m() { return "[" + js(a[0]) + "," + js(a[1]) + "," + js(b[0]) + "," + js(b[1]) + "," + js(e) + "," + js(v) + "," + js(w) + "," + js(z) + "," + js(e2) + "]"; }
	void done(Rec& r) { r.raw("m", m()); out.write(r); }
	template<typename T> static T value(bool small = false) {
		int hi = std::is_same_v<T, uint8_t> ? 255 : small ? 2 : (rnd(0, 3) ? 6 : 120);
		int v = rnd(std::is_signed_v<T> ? -hi : 0, hi);
		if(fl<T> && !small && rnd(0, 1)) return (T) (v / 4.0);
		return (T) v;
	}
	template<size_t X, size_t Y, typename T> static void fill(Mat<X, Y, T>& m, bool small) { for(auto i = 0u; i < X; ++i) for(auto j = 0u; j < Y; ++j) m[i][j] = value<T>(small); 
		if(X == Y && rnd(0, 2) == 0) for(auto i = 0u; i < X; ++i) for(auto j = 0u; j < i; ++j) m[i][j] = m[j % X][i % Y]; }
	template<size_t X, typename T> static void fill(Vec<X, T>& m, bool small) { for(auto i = 0u; i < X; ++i) m[i] = value<T>(small); }
	template<typename M> void load(M& m, int r, bool small) { fill(m, small); Rec c("load"); c("d", r + 1).raw("v", js(m)); done(c); }
	template<size_t X, size_t Y, typename T> static bool fine(const Mat<X, Y, T>& m) { for(auto i = 0u; i < X; ++i) if(!fine(m[i])) return false; return true; }
	template<size_t D, typename T> static bool fine(const Vec<D, T>& v) { for(auto i = 0u; i < D; ++i) { double x = (double) v[i]; if(x > 300 || x < -300 || x * 4 != std::floor(x * 4)) return false; } return true; }
	void tidy() { auto t = [&](auto& x, int r) { if(!fine(x) || rnd(0, 15) == 0) load(x, r, rnd(0, 2) == 0); }; t(a[0], 0); t(a[1], 1); t(b[0], 2); t(b[1], 3); t(e, 4); t(v, 5); t(w, 6); t(z, 7); t(e2, 8); }
	void reset() {
		fill(a[0], false); fill(a[1], false); fill(b[0], false); fill(b[1], false); fill(e, false); fill(v, false); fill(w, false); fill(z, false); fill(e2, false);
		auto q = [](const char* s) { return std::string("\"") + s + "\""; }; auto A = q(ty<TA>()), B = q(ty<TB>());
		Rec c("reset"); c.raw("typ", "[" + A + "," + A + "," + B + "," + B + "," + A + "," + B + "," + A + "," + A + "," + B + "]"); done(c);
	}
	template<typename X> void res(Rec& c, const X& r) { c.raw("res", js(r)); c("t", ty<decltype(one_(r))>()); done(c); }
	void inplace(int op) {
		int d = rnd(0, 3), o = rnd(0, 2) ? rnd(0, 3) : d; int i = rnd(0, R - 1), j = rnd(0, C - 1), i2 = rnd(0, R - 1), j2 = rnd(0, C - 1);
		with(d, [&](auto& x) { with(o, [&](auto& y) {
			typedef std::decay_t<decltype(x[0][0])> T; typedef std::decay_t<decltype(y[0][0])> T2;
			constexpr bool wrapf = std::is_same_v<T, uint8_t> && fl<T2>;
			if constexpr(!wrapf) switch(op) {
			case 0: { auto& r = (x += y); Rec c("+="); c("d", d + 1)("b", o + 1); done(c); if(&r != &x) std::abort(); } break;
			case 1: { auto& r = (x -= y); Rec c("-="); c("d", d + 1)("b", o + 1); done(c); if(&r != &x) std::abort(); } break;
			case 2: if constexpr(R == C) { if(fl<T> != fl<T2> && !fl<T>) { for(auto p = 0u; p < R; ++p) for(auto q = 0u; q < R; ++q) y[p][q] = (T2) std::floor((double) y[p][q]); Rec c("load"); c("d", o + 1).raw("v", js(y)); done(c); } // every summand is truncated otherwise
				auto& r = (x *= y); Rec c("*="); c("d", d + 1)("b", o + 1); done(c); if(&r != &x) std::abort(); } break;
			case 3: { auto& r = (x *= y[i][j]); Rec c("f*="); c("d", d + 1)("b", o + 1)("i", i + 1)("j", j + 1); done(c); if(&r != &x) std::abort(); } break;
			case 4: if constexpr(std::is_same_v<T, uint8_t>) { int f = rnd(0, 20); x *= f; Rec c("f*="); c("d", d + 1)("f", f * 16); done(c); }
				else if(rnd(0, 1)) { double f = rnd(-8, 8) / 4.0; x *= f; Rec c("f*="); c("d", d + 1)("f", x16(f)); done(c); }
				else { int f = rnd(-5, 5); x *= f; Rec c("f*="); c("d", d + 1)("f", f * 16); done(c); } break;
			case 5: if constexpr(std::is_same_v<T, T2>) { x = y; Rec c("="); c("d", d + 1)("b", o + 1); done(c); } break;
			case 6: { T s = value<T>(); int how = rnd(0, 4); switch(how) { case 0: x[i][j] = s; break; case 1: x.at(i, j) = s; break; case 2: x.at(i)[j] = s; break; case 3: x.rows_[i][j] = s; break; default: *(x[i].begin() + j) = s; }
				Rec c("write"); c("d", d + 1)("i", i + 1)("j", j + 1)("x", x16(s))("how", how); done(c); } break;
			case 7: if constexpr(std::is_same_v<T, TA>) { nytl::col(x, j, w); Rec c("setcol"); c("d", d + 1)("j", j + 1)("b", 7); done(c); } break;
			case 8: if constexpr(std::is_same_v<T, TB>) { if(rnd(0, 1)) x[i] = v; else x.at(i) = v; Rec c("setrow"); c("d", d + 1)("i", i + 1)("b", 6); done(c); } break;
			case 9: { x[i] += y[i2]; Rec c("rowadd"); c("d", d + 1)("b", o + 1)("i", i + 1)("k", i2 + 1); done(c); } break;
			case 10: { nytl::swapRow(x, i, i2); Rec c("swaprow"); c("d", d + 1)("i", i + 1)("k", i2 + 1); done(c); } break;
			case 11: { nytl::swapCol(x, j, j2); Rec c("swapcol"); c("d", d + 1)("j", j + 1)("k", j2 + 1); done(c); } break;
			case 12: if constexpr(std::is_same_v<T, T2>) if(d != o) { std::swap(x, y); Rec c("swap"); c("d", d + 1)("b", o + 1); done(c); } break;
			case 13: { nytl::one(x); Rec c("one"); c("d", d + 1); done(c); } break;
			case 14: if constexpr(R == C) { nytl::identity(x); Rec c("identity"); c("d", d + 1); done(c); } break;
			}
		}); });
		tidy();
	}
	void pure(int op) {
		int p = rnd(0, 3), q = rnd(0, 2) ? rnd(0, 3) : p; int i = rnd(0, R - 1), j = rnd(0, C - 1);
		with(p, [&](auto& xm) { with(q, [&](auto& ym) {
			const auto& x = xm; const auto& y = ym;
			typedef std::decay_t<decltype(x[0][0])> T;
			auto rec = [&](const char* n) { Rec c(n); c("a", p + 1)("b", q + 1); return c; };
			switch(op) {
			case 0: { auto c = rec("+"); res(c, x + y); } break;
			case 1: { auto c = rec("-"); res(c, x - y); } break;
			case 2: { auto c = rec("neg"); res(c, -x); } break;
			case 3: { Rec c("*"); c("a", p + 1)("b", 5); res(c, x * (const Mat<C, K, TA>&) e); } { Rec c("*"); c("a", p + 1)("b", 9); res(c, x * (const Mat<C, K, TB>&) e2); } break;
			case 4: { Rec c("*"); c("a", p + 1)("b", 6); res(c, x * (const Vec<C, TB>&) v); } { Rec c("*"); c("a", p + 1)("b", 8); res(c, x * (const Vec<C, TA>&) z); } break;
			case 5: if constexpr(R == C) { auto c = rec("*"); res(c, x * y); } break;
			case 6: { auto go = [&](auto f) { Rec c("f*"); c("a", p + 1)("f", x16(f)); res(c, f * x); }; switch(rnd(0, 3)) { case 0: go(rnd(-7, 7)); break; case 1: go(rnd(-10, 10) / 4.0); break; case 2: go((T) rnd(0, 6)); break; default: go(rnd(-9, 9) / 2.f); } } break;
			case 7: { auto c = rec("transpose"); res(c, nytl::transpose(x)); } break;
			case 8: { auto c = rec("col"); c("j", j + 1); res(c, nytl::col(x, j)); } { auto c = rec("row"); c("i", i + 1); if(rnd(0, 1)) res(c, x[i]); else res(c, x.at(i)); } break;
			case 9: { auto go = [&](auto o) { typedef decltype(o) M; Rec c("conv"); c("a", p + 1)("r", (int) M::rows())("c", (int) M::cols()); res(c, static_cast<M>(x)); };
				switch(rnd(0, 8)) { case 0: go(Mat<2, 2, int>{}); break; case 1: go(Mat<3, 3, double>{}); break; case 2: go(Mat<4, 4, float>{}); break; case 3: go(Mat<1, 5, int>{}); break; case 4: go(Mat<5, 1, double>{}); break;
					case 5: go(Mat<R, C, int>{}); break; case 6: go(Mat<R, C, double>{}); break; case 7: go(Mat<C, R, double>{}); break; default: go(Mat<R + 1, C, int>{}); } } break;
			case 10: { auto c = rec("eq"); c("eq", (bool) (x == y))("ne", (bool) (x != y)); done(c);
				if(p != q && sizeof(x) == sizeof(y) && std::is_same_v<std::decay_t<decltype(x)>, std::decay_t<decltype(y)>>) { for(auto n = 0u; n < R; ++n) for(auto k = 0u; k < C; ++k) ym[n][k] = x[n][k]; if(rnd(0, 2)) ym[i][j] = ym[i][j] == 3 ? 4 : 3; { Rec r("load"); r("d", q + 1).raw("v", js(y)); done(r); } auto r = rec("eq"); r("eq", (bool) (x == y))("ne", (bool) (x != y)); done(r); } } break;
			case 11: if constexpr(R == C) { auto c = rec("sym"); c("x", nytl::symmetric(x)); done(c); for(auto n = 0u; n < R; ++n) for(auto k = 0u; k < n; ++k) xm[n][k] = x[k % R][n % C]; if(rnd(0, 2) == 0) xm[i][j] = xm[i][j] == 3 ? 4 : 3; { Rec r("load"); r("d", p + 1).raw("v", js(x)); done(r); } auto r = rec("sym"); r("x", nytl::symmetric(x)); done(r); } break;
			case 12: show(xm, x, p); break;
			case 13: if constexpr(R == C) { if(sizeof(T) > 1) { auto c = rec("trace"); res(c, nytl::trace(x)); } double pr = 1; for(auto n = 0u; n < R; ++n) { pr *= std::max(1., std::abs((double) x[n][n])); if(x[n][n] != std::floor((double) x[n][n])) return; } if(pr > 90000 || (sizeof(T) == 1 && pr > 255) || (sizeof(T) == 2 && pr > 32767)) return; { auto c = rec("diag"); res(c, nytl::multiplyDiagonal(x)); } } break;
			case 14: if constexpr(R == C) { auto c = rec("id"); c("n", (int) R); res(c, nytl::identity<R, T>()); } break;
			case 15: if constexpr(sizeof(T) > 1) { for(auto n = 0u; n < R; ++n) for(auto k = 0u; k < C; ++k) if(x[n][k] != std::floor((double) x[n][k]) || (x[n][k] == 0 && std::signbit((double) x[n][k]))) return;
				std::ostringstream o; bool br = rnd(0, 1), def = false; const char* sp = rnd(0, 1) ? "    " : "_"; int w = 0; double big = 0; for(auto n = 0u; n < R; ++n) for(auto k = 0u; k < C; ++k) big = std::max(big, std::abs((double) x[n][k]));
				// values with room for all of their digits
				if(big < 10 && rnd(0, 1)) { w = rnd(5, 12); def = rnd(0, 2) == 0; }
				if(def) { w = 8; sp = "    "; br = true; }
				auto prec = rnd(3, 20); if(w == 0) prec = 6;
				o.precision(prec); if(def) o << x; else nytl::print(o, x, w, sp, br);
				auto s = o.str(); for(auto& ch : s) if(ch == '\n') ch = '_'; auto c = rec("print"); c("s", s)("sp", sp)("br", br)("w", w)("prec", o.precision() == prec); done(c); } break;
			}
		}); });
		tidy();
	}
	template<typename M> void show(M& x, const M& y, int p) {
		M in = {}, cin = {}, at = {}, cat = {}, atr = {}, it = {};
		for(size_t i = 0; i < R; ++i) { size_t n = 0; for(auto& s : y[i]) it.rows_[i][n++] = s; for(size_t j = 0; j < C; ++j) { in.rows_[i][j] = x[i][j]; cin.rows_[i][j] = y[i][j]; at.rows_[i][j] = x.at(i, j); cat.rows_[i][j] = y.at(i, j); atr.rows_[i][j] = rnd(0, 1) ? x.at(i)[j] : y.at(i)[j]; } }
		std::string t = "["; int k = 0;
		auto thr = [&](size_t r, size_t c, auto f) { bool th = false; try { f(); } catch(const std::out_of_range&) { th = true; } t += (k++ ? "," : "") + val(Ints{r > 1000 ? 1000 : (long long) r, c > 1000 ? 1000 : (long long) c, th}); };
		for(size_t r : {(size_t) 0, (size_t) R - 1, R, R + 1, (size_t) 1 << 32, ~(size_t) 0}) {
			thr(r, 0, [&]{ (void) x.at(r); }); thr(r, 0, [&]{ (void) y.at(r); });
			for(size_t c : {(size_t) 0, (size_t) C - 1, C, C + 1, (size_t) 1 << 32, ~(size_t) 0}) { thr(r, c == ~(size_t) 0 ? c : c + 1, [&]{ (void) x.at(r, c); }); thr(r, c == ~(size_t) 0 ? c : c + 1, [&]{ (void) y.at(r, c); }); } }
		Rec c("show"); c("a", p + 1).raw("index", js(in)).raw("cindex", js(cin)).raw("at", js(at)).raw("cat", js(cat)).raw("atrow", js(atr)).raw("iter", js(it))("rows", (int) M::rows())("cols", (int) M::cols()).raw("thr", t + "]"); done(c);
	}
	void run(int n) { reset(); for(int k = 0; k < n; ++k) { if(rnd(0, 1)) inplace(rnd(0, 14)); else pure(rnd(0, 15)); } }
};
template<size_t R, size_t C, size_t K> void shape(int n) {
#if TYPES & 1
	Session<R, C, K, int, int>().run(n); Session<R, C, K, double, float>().run(n); out.balance();
#endif
#if TYPES & 2
	Session<R, C, K, float, int>().run(n); Session<R, C, K, uint8_t, int>().run(n); out.balance();
#endif
#if TYPES & 4
	Session<R, C, K, int, double>().run(n); Session<R, C, K, long, short>().run(n); out.balance();
#endif
}
int main(int argc, char** argv) {
	init(argc, argv);
	int n = thorough ? 1500 : 130;
#if SHAPES == 0
	shape<2, 2, 3>(n); shape<3, 3, 2>(n);
#elif SHAPES == 1
	shape<2, 3, 4>(n); shape<3, 2, 2>(n);
#elif SHAPES == 2
	shape<4, 4, 1>(n); shape<1, 3, 2>(n);
#elif SHAPES == 3
	shape<4, 2, 3>(n); shape<3, 4, 3>(n);
#elif SHAPES == 4
	shape<1, 1, 1>(n); shape<3, 1, 3>(n); shape<5, 5, 2>(n);
#endif
	out.close(opt["--name"]);
}

// Records executions of nytl/vec.hpp, vec2.hpp, vec3.hpp and vecOps.hpp for spec/VecTrace.tla
#include "trace.hpp"
#include <nytl/vec.hpp>
#include <nytl/vecOps.hpp>
#include <sstream>
#include <iterator>
using namespace tr;
using nytl::Vec;
typedef std::vector<long long> Ints;
constexpr double U = 16;

template<typename T> long long x16(const T& v) { return exact((long double) v, U); }
template<size_t D, typename T> Ints iv(const Vec<D, T>& v) { Ints r; const T* p = &v[0]; for(auto i = 0u; i < D; ++i) r.push_back(x16(p[i])); return r; }
template<typename T> const char* ty() { return std::is_floating_point_v<T> ? "f" : (sizeof(T) == 1 && !std::is_signed_v<T>) ? "b" : sizeof(T) == 2 ? "s" : "i"; }
template<typename T> constexpr bool fl = std::is_floating_point_v<T>;
template<typename T> constexpr bool un = std::is_unsigned_v<T> && sizeof(T) > 1; // no negative numbers
template<typename R> struct Out_ { static std::string s(const R& r) { return val(x16(r)); } static const char* t() { return ty<R>(); } };
template<size_t D, typename T> struct Out_<Vec<D, T>> { static std::string s(const Vec<D, T>& r) { return val(iv(r)); } static const char* t() { return ty<T>(); } };

template<size_t D, typename TA, typename TB> struct Session {
	Vec<D, TA> a[2]; Vec<D, TB> b[2];
	template<typename F> void with(int r, F&& f) { if(r < 2) f(a[r]); else f(b[r - 2]); }
	std::string m() { return "[" + val(iv(a[0])) + "," + val(iv(a[1])) + "," + val(iv(b[0])) + "," + val(iv(b[1])) + "]"; }
	void done(Rec& r) { r.raw("m", m()); out.write(r); }
	template<typename T> T value(bool small = false) {
		int hi = std::is_same_v<T, uint8_t> ? 255 : small ? 3 : (rnd(0, 3) ? 6 : 150);
		int v = rnd(std::is_signed_v<T> ? -hi : 0, hi);
		if(fl<T> && !small && rnd(0, 1)) return (T) (v / 4.0);
		return (T) v;
	}
	template<typename T> void load(Vec<D, T>& v, int r, bool small) {
		Ints x; for(auto i = 0u; i < D; ++i) { v[i] = value<T>(small); if(rnd(0, 5) == 0 && i) v[i] = v[i - 1]; x.push_back(x16(v[i])); }
		Rec c("load"); c("d", r + 1)("v", x); done(c);
	}
	template<typename T> static bool fine(const Vec<D, T>& v) { for(auto i = 0u; i < D; ++i) { double x = (double) v[i]; if(x > 400 || x < -400 || x * 4 != std::floor(x * 4)) return false; } return true; }
	void tidy() { for(int r = 0; r < 4; ++r) with(r, [&](auto& v) { if(!fine(v) || rnd(0, 11) == 0) load(v, r, rnd(0, 4) == 0); }); }
	void loadall(bool small) { for(int r = 0; r < 4; ++r) with(r, [&](auto& v) { load(v, r, small); }); }
	void reset() {
		for(int r = 0; r < 4; ++r) with(r, [&](auto& v) { for(auto i = 0u; i < D; ++i) v[i] = value<std::decay_t<decltype(v[0])>>(); });
		Rec c("reset"); c.raw("typ", std::string("[\"") + ty<TA>() + "\",\"" + ty<TA>() + "\",\"" + ty<TB>() + "\",\"" + ty<TB>() + "\"]"); done(c);
	}
	template<typename R> void res(Rec& c, const R& r) { c.raw("res", Out_<R>::s(r)); c("t", Out_<R>::t()); done(c); }

	// ---- in place
	void inplace(int op, int d = rnd(0, 3), int e = -1) {
		if(e < 0) e = rnd(0, 2) ? rnd(0, 3) : d;
		with(d, [&](auto& x) { with(e, [&](auto& y) {
			typedef std::decay_t<decltype(x[0])> T; typedef std::decay_t<decltype(y[0])> T2;
			constexpr bool wrapf = std::is_same_v<T, uint8_t> && fl<T2>; // not defined by C++
			bool neg = false, zero = false, le = true;
			for(auto i = 0u; i < D; ++i) { neg = neg || (double) y[i] < 0; zero = zero || y[i] == T2(0); le = le && (double) y[i] <= (double) x[i]; }
			switch(op) {
			case 0: if((un<T> && neg) || wrapf) return; { auto& r = (x += y); Rec c("+="); c("d", d + 1)("b", e + 1); done(c); if(&r != &x) std::abort(); } break;
			case 1: if((un<T> && !le) || wrapf) return; { auto& r = (x -= y); Rec c("-="); c("d", d + 1)("b", e + 1); done(c); if(&r != &x) std::abort(); } break;
			case 2: { // scaled by a component (of itself)
				int i = rnd(0, D - 1); if((un<T> && neg) || wrapf) return; auto& r = (x *= y[i]); Rec c("*="); c("d", d + 1)("b", e + 1)("i", i + 1); done(c); if(&r != &x) std::abort(); } break;
			case 3: { if constexpr(!wrapf) { using namespace nytl::vec::cw::operators; if(un<T> && neg) return; auto& r = (x *= y); Rec c("cw*="); c("d", d + 1)("b", e + 1); done(c); if(&r != &x) std::abort(); } } break;
			case 4: if constexpr(!wrapf) { using namespace nytl::vec::cw::operators; if(zero || (un<T> && neg)) return;
				if(fl<T> || fl<T2>) for(auto i = 0u; i < D; ++i) { double q = (double) x[i] / (double) y[i] * U; if(q != std::floor(q) || q * (double) y[i] != (double) x[i] * U) return; }
				auto& r = (x /= y); Rec c("cw/="); c("d", d + 1)("b", e + 1); done(c); if(&r != &x) std::abort(); } break;
			case 5: if constexpr(std::is_same_v<T, T2>) { if(rnd(0, 1)) x = y; else { Vec<D, T> z(y); x = std::move(z); } Rec c("="); c("d", d + 1)("b", e + 1); done(c); } break;
			case 6: if constexpr(std::is_same_v<T, T2>) { if(d == e) return; std::swap(x, y); Rec c("swap"); c("d", d + 1)("b", e + 1); done(c); } break;
			case 7: { int i = rnd(0, D - 1); T v = value<T>(); int how = rnd(0, 5); if(how == 3) i = 0; if(how == 4) i = D - 1;
				switch(how) { case 0: x[i] = v; break; case 1: x.at(i) = v; break; case 2: *(x.begin() + i) = v; break; case 3: x.front() = v; break; case 4: x.back() = v; break; default: x.data()[i] = v; }
				Rec c("write"); c("d", d + 1)("i", i + 1)("x", x16(v))("how", how); done(c); } break;
			case 8: { // scaled by a value
				if constexpr(std::is_same_v<T, uint8_t>) { int f = rnd(0, 20); x *= f; Rec c("*="); c("d", d + 1)("f", f * 16); done(c); }
				else if constexpr(un<T>) { unsigned f = rnd(0, 5); x *= f; Rec c("*="); c("d", d + 1)("f", f * 16); done(c); }
				else if(rnd(0, 1)) { double f = rnd(-8, 8) / 4.0; x *= f; Rec c("*="); c("d", d + 1)("f", x16(f)); done(c); }
				else { int f = rnd(-5, 5); x *= f; Rec c("*="); c("d", d + 1)("f", f * 16); done(c); } } break;
			case 9: if constexpr(std::is_signed_v<T>) { nytl::vec::cw::ip::abs(x); Rec c("abs"); c("d", d + 1); done(c); } break;
			case 10: { nytl::vec::cw::ip::floor(x); Rec c("floor"); c("d", d + 1); done(c); } break;
			case 11: { nytl::vec::cw::ip::ceil(x); Rec c("ceil"); c("d", d + 1); done(c); } break;
			case 12: if constexpr(!std::is_same_v<T, uint8_t>) {
				if(rnd(0, 1)) { // its own component or itself as exponent
					for(auto i = 0u; i < D; ++i) x[i] = (T) rnd(0, 3);
					{ Rec c("load"); c("d", d + 1)("v", iv(x)); done(c); }
					if(rnd(0, 3)) { int i = rnd(0, 2) ? rnd(0, D - 1) : 0; nytl::vec::cw::ip::pow(x, x[i]); Rec c("powi"); c("d", d + 1)("i", i + 1); done(c); }
					else { Ints l; for(auto i = 0u; i < D; ++i) l.push_back((int) x[i]); nytl::vec::cw::ip::pow(x, x); Rec c("powv"); c("d", d + 1)("e", l); done(c); }
					return; }
				for(auto i = 0u; i < D; ++i) if(std::abs((double) x[i]) > 5 || x[i] != std::floor((double) x[i])) return;
				int ex = rnd(0, 3); if(rnd(0, 1)) nytl::vec::cw::ip::pow(x, ex); else nytl::vec::cw::ip::pow(x, (double) ex); Rec c("powi"); c("d", d + 1)("e", ex); done(c); } break;
			case 13: if constexpr(!std::is_same_v<T, uint8_t>) { for(auto i = 0u; i < D; ++i) if(std::abs((double) x[i]) > 5 || x[i] != std::floor((double) x[i])) return;
				Vec<D, int> ex; Ints l; for(auto i = 0u; i < D; ++i) { ex[i] = rnd(0, 3); l.push_back(ex[i]); } nytl::vec::cw::ip::pow(x, ex); Rec c("powv"); c("d", d + 1)("e", l); done(c); } break;
			case 14: { int lo = rnd(std::is_signed_v<T> ? -8 : 0, 8), hi = lo + rnd(0, 8); T l = (T) lo, h = (T) hi; if(rnd(0, 2) == 0) { int i = rnd(0, D - 1); bool q = (double) x[i] * U == std::floor((double) x[i] * U); if(q) { x[i] = rnd(0, 1) ? l : h; { Rec c("load"); c("d", d + 1)("v", iv(x)); done(c); } if(x[i] == l) nytl::vec::cw::ip::clamp(x, x[i], h); else nytl::vec::cw::ip::clamp(x, l, x[i]); Rec c("clamps"); c("d", d + 1)("lo", lo * 16)("hi", hi * 16); done(c); return; } } nytl::vec::cw::ip::clamp(x, l, h); Rec c("clamps"); c("d", d + 1)("lo", lo * 16)("hi", hi * 16); done(c); } break;
			case 15: if constexpr(std::is_same_v<T, T2>) { int g = d < 2 ? rnd(0, 1) : rnd(2, 3); bool ok = true; auto& z = (d < 2) ? (Vec<D, T>&) a[g & 1] : (Vec<D, T>&) b[g & 1];
				if(rnd(0, 1)) { for(auto i = 0u; i < D; ++i) z[i] = std::max(z[i], y[i]); Rec c("load"); c("d", g + 1)("v", iv(z)); done(c); }
				for(auto i = 0u; i < D; ++i) ok = ok && y[i] <= z[i]; if(!ok) return; nytl::vec::cw::ip::clamp(x, y, z); Rec c("clampv"); c("d", d + 1)("b", e + 1)("c", g + 1); done(c); } break;
			}
		}); });
		tidy();
	}
	// ---- functions
	void pure(int op, int p = rnd(0, 3), int q = -1) {
		if(q < 0) q = rnd(0, 2) ? rnd(0, 3) : p;
		with(p, [&](auto& xm) { with(q, [&](auto& ym) {
			const auto& x = xm; const auto& y = ym;
			typedef std::decay_t<decltype(x[0])> T; typedef std::decay_t<decltype(y[0])> T2; typedef decltype(x[0] * y[0]) R;
			bool negx = false, negy = false, zero = false, zerox = false, le = true, ints = true;
			for(auto i = 0u; i < D; ++i) { negx = negx || (double) x[i] < 0; negy = negy || (double) y[i] < 0; zero = zero || y[i] == T2(0); zerox = zerox || x[i] == T(0); le = le && (double) y[i] <= (double) x[i]; ints = ints && x[i] == std::floor((double) x[i]) && y[i] == std::floor((double) y[i]); }
			if(un<R> && (negx || negy)) return;
			auto rec = [&](const char* n) { Rec c(n); c("a", p + 1)("b", q + 1); return c; };
			switch(op) {
			case 0: { auto c = rec("+"); res(c, x + y); } break;
			case 1: if(un<R> && !le) return; { auto c = rec("-"); res(c, x - y); } break;
			case 2: if constexpr(!un<T>) { auto c = rec("neg"); res(c, -x); } break;
			case 3: { auto c = rec("pos"); res(c, +x); } break;
			case 4: case 5: case 6: case 7: case 8: case 9: { // with a scalar
				auto go = [&](auto f) { typedef decltype(f * x[0]) F; if constexpr(un<F>) if(f < 0 || negx) return;
					auto c = rec("f*"); c("f", x16(f));
					{ auto k = c; res(k, f * x); }
					{ Rec k("*f"); k("a", p + 1)("f", x16(f)); using namespace nytl::vec::operators; res(k, x * f); }
					using namespace nytl::vec::cw::operators;
					{ Rec k("+f"); k("a", p + 1)("f", x16(f)); res(k, x + f); }
					{ Rec k("f+"); k("a", p + 1)("f", x16(f)); res(k, f + x); }
					bool lo = true, hi = true; for(auto i = 0u; i < D; ++i) { lo = lo && (double) x[i] >= (double) f; hi = hi && (double) x[i] <= (double) f; }
					if(!un<F> || lo) { Rec k("-f"); k("a", p + 1)("f", x16(f)); res(k, x - f); }
					if(!un<F> || hi) { Rec k("f-"); k("a", p + 1)("f", x16(f)); res(k, f - x); }
					using namespace nytl::vec::operators;
					bool ex = f != 0; if(fl<F>) for(auto i = 0u; i < D; ++i) { double v = (double) x[i] * U / (double) f; ex = ex && v == std::floor(v) && v * (double) f == (double) x[i] * U; }
					if(ex) { Rec k("/f"); k("a", p + 1)("f", x16(f)); res(k, x / f); }
					ex = !zerox; if(ex && fl<F>) for(auto i = 0u; i < D; ++i) { double v = (double) f * U / (double) x[i]; ex = ex && v == std::floor(v) && v * (double) x[i] == (double) f * U; }
					if(ex) { Rec k("f/"); k("a", p + 1)("f", x16(f)); res(k, f / x); }
				};
				switch(rnd(0, 4)) { case 0: go(rnd(-7, 7)); break; case 1: go(rnd(-10, 10) / 4.0); break; case 2: go((unsigned) rnd(0, 6)); break; case 3: go((T) rnd(0, 6)); break; default: go(rnd(-9, 9) / 2.f); }
			} break;
			case 10: { auto c = rec("cwmul"); if(rnd(0, 1)) res(c, nytl::vec::cw::multiply(x, y)); else { using namespace nytl::vec::cw::operators; res(c, x * y); } } break;
			case 11: { if(zero) return; if(fl<R>) for(auto i = 0u; i < D; ++i) { double v = (double) x[i] * U / (double) y[i]; if(v != std::floor(v) || v * (double) y[i] != (double) x[i] * U) return; }
				auto c = rec("cwdiv"); if(rnd(0, 1)) res(c, nytl::vec::cw::divide(x, y)); else { using namespace nytl::vec::cw::operators; res(c, x / y); } } break;
			case 12: if constexpr(std::is_same_v<T, T2>) { { auto c = rec("max"); res(c, nytl::vec::cw::max(x, y)); } { auto c = rec("min"); res(c, nytl::vec::cw::min(x, y)); }
				int i = rnd(0, D - 1); { auto c = rec("maxs"); c("i", i + 1); res(c, nytl::vec::cw::max(x, y[i])); } { auto c = rec("mins"); c("i", i + 1); res(c, nytl::vec::cw::min(x, y[i])); } } break;
			case 13: { auto c = rec("sum"); res(c, nytl::sum(x)); } break;
			case 14: { double pr = 1; for(auto i = 0u; i < D; ++i) { pr *= std::max(1., std::abs((double) x[i])); if(x[i] != std::floor((double) x[i])) return; } if(pr > 90000) return;
				auto c = rec("prod"); res(c, nytl::multiply(x)); } break;
			case 15: { auto c = rec("dot"); res(c, nytl::dot(x, y)); } break;
			case 16: if constexpr(D == 3 && !un<R>) { auto c = rec("cross3"); res(c, nytl::cross(x, y)); }
				if constexpr(D == 2 && !un<R>) { auto c = rec("cross2"); res(c, nytl::cross(x, y)); } break;
			case 17: if constexpr(std::is_same_v<T, T2> && !un<T> && sizeof(T) > 2) { auto c = rec("mirror"); res(c, nytl::mirror(x, y)); } break;
			case 18: if constexpr(D == 2 && std::is_signed_v<T>) { { auto c = rec("llnormal"); res(c, nytl::lho::lnormal(x)); } { auto c = rec("lrnormal"); res(c, nytl::lho::rnormal(x)); }
				{ auto c = rec("rlnormal"); res(c, nytl::rho::lnormal(x)); } { auto c = rec("rrnormal"); res(c, nytl::rho::rnormal(x)); } } break;
			case 19: { // conversions
				auto go = [&](auto z) { typedef decltype(z) V; typedef std::decay_t<decltype(z[0])> OT; if constexpr(std::is_unsigned_v<OT> && !(std::is_integral_v<T> && sizeof(OT) == 1)) for(auto i = 0u; i < D; ++i) if(x[i] < 0 || (sizeof(OT) == 1 && x[i] > 255)) return;
					auto c = rec("conv"); c("dim", (int) V::size()); res(c, static_cast<V>(x)); };
				switch(rnd(0, 9)) { case 0: go(Vec<1, int>{}); break; case 1: go(Vec<2, double>{}); break; case 2: go(Vec<3, float>{}); break; case 3: go(Vec<4, int>{}); break; case 4: go(Vec<5, double>{}); break;
					case 5: go(Vec<3, unsigned>{}); break; case 6: go(Vec<2, uint8_t>{}); break; case 7: go(Vec<6, long>{}); break; case 8: go(Vec<D, int>{}); break; default: go(Vec<D, double>{}); } } break;
			case 20: if constexpr(std::is_signed_v<T>) { auto c = rec("vabs"); res(c, nytl::vec::cw::abs(x)); } break;
			case 21: { auto c = rec("vfloor"); res(c, nytl::vec::cw::floor(x)); } { auto c = rec("vceil"); res(c, nytl::vec::cw::ceil(x)); } break;
			case 22: if constexpr(!std::is_same_v<T, uint8_t>) { for(auto i = 0u; i < D; ++i) if(std::abs((double) x[i]) > 5 || x[i] != std::floor((double) x[i])) return;
				{ int ex = rnd(0, 3); auto c = rec("vpowi"); c("e", ex); res(c, nytl::vec::cw::pow(x, ex)); }
				Vec<D, int> ex; Ints l; for(auto i = 0u; i < D; ++i) { ex[i] = rnd(0, 3); l.push_back(ex[i]); } auto c = rec("vpowv"); c("e", l); res(c, nytl::vec::cw::pow(x, ex)); } break;
			case 23: { int lo = rnd(std::is_signed_v<T> ? -8 : 0, 8), hi = lo + rnd(0, 8); { auto c = rec("vclamps"); c("lo", lo * 16)("hi", hi * 16); res(c, nytl::vec::cw::clamp(x, (T) lo, (T) hi)); }
				if constexpr(std::is_same_v<T, T2>) if(p != q) { for(auto i = 0u; i < D; ++i) ym[i] = std::max(x[i], y[i]); { Rec c("load"); c("d", q + 1)("v", iv(y)); done(c); }
					int g = p < 2 ? rnd(0, 1) : rnd(2, 3); const auto& z = (p < 2) ? (Vec<D, T>&) a[g & 1] : (Vec<D, T>&) b[g & 1]; Rec c("vclampv"); c("a", g + 1)("b", p + 1)("c", q + 1); res(c, nytl::vec::cw::clamp(z, x, y)); } } break;
			case 24: { auto c = rec("eq"); c("eq", (bool) (x == y))("ne", (bool) (x != y)); done(c); } break;
			case 25: show(xm, x, p); break;
			case 26: for(auto i = 0u; i < D; ++i) ints = ints && !(x[i] == T(0) && std::signbit((double) x[i])); if(ints && sizeof(T) > 1) { const char* s[] = {"(", ")", ", "}; std::ostringstream o; if(rnd(0, 1)) o << x; else { s[0] = "<"; s[1] = "]]"; s[2] = rnd(0, 1) ? ";" : ""; nytl::print(o, x, s[0], s[1], s[2]); }
				auto c = rec("print"); c("s", o.str())("start", s[0])("end", s[1])("sep", s[2]); done(c); } break;
			}
		}); });
		tidy();
	}
	template<typename V> void show(V& x, const V& y, int p) {
		Ints it, cit, in, cin, at, cat, da, cda, th; typedef std::decay_t<decltype(x[0])> T;
		for(auto& v : x) it.push_back(x16(v)); for(auto& v : y) cit.push_back(x16(v));
		for(size_t i = 0; i < D; ++i) { in.push_back(x16(x[i])); cin.push_back(x16(y[i])); at.push_back(x16(x.at(i))); cat.push_back(x16(y.at(i))); da.push_back(x16(x.data()[i])); cda.push_back(x16(y.data()[i])); }
		std::string t = "["; int k = 0;
		auto thr = [&](auto f) { bool r = false; try { f(); } catch(const std::out_of_range&) { r = true; } t += (k++ ? "," : "") + val(r); };
		for(size_t i : {D, D + 1, (size_t) 7, ~(size_t) 0, (size_t) 1 << 32, ((size_t) 1 << 32) + 1}) if(i >= D) {
			thr([&]{ (void) x.at(i); }); thr([&]{ (void) y.at(i); });
			if constexpr(D == 2 || D == 3) { thr([&]{ (void) x[i]; }); thr([&]{ (void) y[i]; }); } }
		Rec v; v("iter", it)("citer", cit)("index", in)("cindex", cin)("at", at)("cat", cat)("data", da)("cdata", cda)("fb", Ints{x16(x.front()), x16(x.back())})("cfb", Ints{x16(y.front()), x16(y.back())})("size", (int) V::size()).raw("throws", t + "]");
		Rec c("show"); c("a", p + 1).raw("v", val(v)); done(c);
	}
	// ---- metric and functions
	template<typename T> static T intv(int hi) { return (T) rnd(std::is_signed_v<T> ? -hi : 0, hi); }
	void metric() {
		int hi = rnd(0, 1) ? 3 : 9, k = 1024; if(rnd(0, 4) == 0) { hi = 90; k = 64; } if(std::is_same_v<TA, uint8_t>) {}
		for(int r = 0; r < 4; ++r) with(r, [&](auto& v) { typedef std::decay_t<decltype(v[0])> T; for(auto i = 0u; i < D; ++i) v[i] = intv<T>(hi); if(rnd(0, 3) == 0) for(auto i = 1u; i < D; ++i) v[i] = 0; Rec c("load"); c("d", r + 1)("v", iv(v)); done(c); });
		if(rnd(0, 3) == 0) { auto f = rnd(1, 3); for(auto i = 0u; i < D; ++i) a[1][i] = (TA) ((std::is_signed_v<TA> && f == 2 ? -1 : 1) * a[0][i]); Rec c("load"); c("d", 2)("v", iv(a[1])); done(c); }
		int p = rnd(0, 3), q = rnd(0, 3);
		with(p, [&](auto& x) { with(q, [&](auto& y) {
			typedef std::decay_t<decltype(x[0])> T; typedef std::decay_t<decltype(y[0])> T2; typedef decltype(x[0] - y[0]) R;
			{ Rec c("length"); c("a", p + 1)("k", k)("x", fix((long double) nytl::length(x), k)); done(c); }
			bool le = true, zx = true, zy = true; for(auto i = 0u; i < D; ++i) { le = le && x[i] >= y[i]; zx = zx && x[i] == 0; zy = zy && y[i] == 0; }
			if(!un<R> || le) { int kk = hi == 90 ? 32 : 512; Rec c("distance"); c("a", p + 1)("b", q + 1)("k", kk)("x", fix((long double) nytl::distance(x, y), kk)); done(c); }
			if(hi == 90) return;
			if constexpr(fl<T>) if(!zx) { auto z = nytl::normalized(x); Ints l; for(auto i = 0u; i < D; ++i) l.push_back(fix((long double) z[i], 1024)); { Rec c("normal"); c("a", p + 1)("k", 1024)("x", l); done(c); }
				auto w = x; nytl::normalize(w); l.clear(); for(auto i = 0u; i < D; ++i) l.push_back(fix((long double) w[i], 1024)); { Rec c("normal"); c("a", p + 1)("k", 1024)("x", l); done(c); } }
			if(!zx && !zy) { Rec c("angle"); c("a", p + 1)("b", q + 1)("x", fix((long double) nytl::angle(x, y), 8192)); done(c);
				if constexpr(fl<T>) if constexpr(fl<T2>) { Rec c("angle"); c("a", p + 1)("b", q + 1)("x", fix((long double) nytl::angleNormed(nytl::normalized(x), nytl::normalized(y)), 8192))("n", 1); done(c); } }
		}); });
	}
	// large and small vectors, points far from the origin
	template<typename T> void far() { if constexpr(sizeof(T) >= 4) {
		Ints v(D, 0); long sq = 0;
		for(int tries = 0; tries < 200; ++tries) { sq = 0; for(auto& x : v) { x = rnd(std::is_signed_v<T> ? -14 : 0, 14); if(rnd(0, 3) == 0) x = 0; sq += x * x; } long r = std::lround(std::sqrt((double) sq)); if(r * r == sq) break; if(tries == 199) return; }
		constexpr bool f32 = std::is_same_v<T, float>; int tol = f32 ? 1500 : 2;
		Vec<D, T> p, q; for(auto i = 0u; i < D; ++i) { long long lim = f32 ? 4000000 : fl<T> ? 1000000000000ll : sizeof(T) == 8 ? 1000000000000ll : 1000000000ll; long long b = rnd(0, 2) ? (long long) (rng() % lim) : rnd(0, 9); if(std::is_signed_v<T> && rnd(0, 1)) b = -b; q[i] = (T) b; p[i] = (T) (b + v[i]); }
		{ Rec c("wlength"); c("far", 1)("v", v)("tol", tol)("x", wide((long double) nytl::distance(p, q))); done(c); }
		if(!un<T>) { Rec c("wlength"); c("far", 2)("v", v)("tol", tol)("x", wide((long double) nytl::distance(q, p))); done(c); }
		int e = fl<T> ? rnd(f32 ? -40 : -400, f32 ? 40 : 400) : 0; Vec<D, T> x; for(auto i = 0u; i < D; ++i) x[i] = fl<T> ? (T) std::ldexp((double) v[i], e) : (T) v[i];
		{ Rec c("wlength"); c("e", e)("v", v)("tol", tol)("x", wide(std::ldexp((long double) nytl::length(x), -e))); done(c); }
		if constexpr(fl<T>) { Ints u; bool zero = true; for(auto i = 0u; i < D; ++i) { u.push_back(rnd(-99, 99)); zero = zero && !u[i]; x[i] = (T) std::ldexp((double) u[i], e); } if(zero) return;
			auto put = [&](const Vec<D, T>& y) { std::vector<Ints> w; for(auto i = 0u; i < D; ++i) w.push_back(wide(y[i])); Rec c("wnormal"); c("e", e)("v", u)("tol", f32 ? 150 : 4)("x", w); done(c); };
			put(nytl::normalized(x)); auto y = x; nytl::normalize(y); put(y); }
	} }
	void functions() {
		if constexpr(fl<TA>) {
			static const char* names[] = {"sin", "cos", "tan", "asin", "acos", "atan", "sqrt", "exp", "log", "exp2"};
			for(int f = 0; f < 10; ++f) {
				auto& x = a[0];
				for(auto i = 0u; i < D; ++i) { int v = 0; switch(f) { case 0: case 1: v = rnd(-100, 100); break; case 2: v = rnd(-20, 20); break; case 3: case 4: v = rnd(-16, 16); break; case 5: v = rnd(-40, 40); break; case 6: v = rnd(0, 80); break; case 7: case 9: v = rnd(-30, 30); break; case 8: v = rnd(3, 100); break; } x[i] = (TA) (v / 16.0); }
				{ Rec c("load"); c("d", 1)("v", iv(x)); done(c); }
				auto app = [&](const Vec<D, TA>& y, bool ip) { using namespace nytl::vec; Vec<D, TA> r = y;
					switch(f) { 
#define F(n, name) case n: if(ip) cw::ip::name(r); else r = cw::name(y); break;
					F(0, sin) F(1, cos) F(2, tan) F(3, asin) F(4, acos) F(5, atan) F(6, sqrt) F(7, exp) F(8, log) F(9, exp2)
#undef F
					} return r; };
				for(int ip = 0; ip < 2; ++ip) {
					auto y = app(x, ip); Ints l, l2, l3; auto h = x, t = x; for(auto i = 0u; i < D; ++i) { l.push_back(fix((long double) y[i], 8192)); h[i] = x[i] + 1; t[i] = x[i] * 2; }
					if(f == 9) { auto z = app(h, ip), w = app(t, ip); for(auto i = 0u; i < D; ++i) { l2.push_back(fix((long double) z[i], 8192)); l3.push_back(fix((long double) w[i], 8192)); } } else l2 = l3 = l;
					Rec c("fun"); c("f", names[f])("a", 1)("x", l)("z", l2)("w", l3)("ip", ip); done(c);
				}
			}
			tidy();
		}
	}
	// brace/deduced construction
	template<size_t... I> void make(std::index_sequence<I...>) {
		TA v[] = {value<TA>(I >= 0)...}; Ints l; for(auto& x : v) l.push_back(x16(x));
		Vec<D, TA> p {v[I]...}; { Rec c("make"); c("v", l); res(c, p); }
		{ nytl::Vec q{v[I]...}; static_assert(std::is_same_v<decltype(q), Vec<D, TA>>); Rec c("make"); c("v", l); res(c, q); }
		Vec<D, TA> z {}; { Rec c("make"); c("v", Ints(D, 0)); res(c, z); }
	}
	void run(int n) {
		reset();
		// every operation with every combination of types
		for(auto [p, q] : {std::pair{0, 1}, {1, 2}, {3, 0}, {2, 3}, {0, 0}}) {
			for(int op = 0; op < 16; ++op) { if(rnd(0, 1)) load(a[0], 0, rnd(0, 1)); if(rnd(0, 1)) load(b[0], 2, rnd(0, 1)); inplace(op, p, q); }
			loadall(false); for(int op = 0; op < 27; ++op) if(op < 5 || op > 9) pure(op, p, q);
		}
		for(int k = 0; k < n; ++k) {
			if(rnd(0, 1)) inplace(rnd(0, 15)); else pure(rnd(0, 26));
			if(k % 16 == 3) loadall(true);
			if(k % 12 == 0) { metric(); tidy(); }
			if(k % 12 == 5) { far<TA>(); if(!std::is_same_v<TA, TB>) far<TB>(); }
			if(k % 40 == 0) functions();
			if(k % 50 == 0) make(std::make_index_sequence<D>{});
		}
	}
};
#ifndef DIM
#define DIM 3
#define GROUPS 7
#endif
int main(int argc, char** argv) {
	init(argc, argv);
	int n = thorough ? 2500 : 250;
	// every group has its own file (and random numbers)
	auto group = [&](int g, auto... s) { out.cur = g % out.f.size(); rng.seed((unsigned) (optn("--seed", 1) * 1000 + DIM * 10 + g)); (s.run(n), ...); };
	if constexpr((GROUPS & 1) != 0) group(0, Session<DIM, int, int>(), Session<DIM, double, float>(), Session<DIM, uint8_t, int>());
	if constexpr((GROUPS & 2) != 0) group(1, Session<DIM, double, double>(), Session<DIM, float, int>(), Session<DIM, unsigned, unsigned>());
	if constexpr((GROUPS & 4) != 0) group(2, Session<DIM, int, double>(), Session<DIM, double, unsigned>(), Session<DIM, long, short>());
	out.close(opt["--name"]);
}

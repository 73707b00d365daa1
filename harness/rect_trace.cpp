// Records executions of nytl/rect.hpp, rectOps.hpp and simplex.hpp for spec/RectTrace.tla
#include "trace.hpp"
#include <nytl/rectOps.hpp>
#include <nytl/rect.hpp>
#include <nytl/simplex.hpp>
#include <sstream>
using namespace tr;
using nytl::Rect; using nytl::Vec;
typedef std::vector<long long> Ints;

// a box in integer units
struct IBox { std::vector<int> p, s; };
template<size_t D, typename T> Ints iv(const Vec<D, T>& v, double unit) { Ints r; for(auto i = 0u; i < D; ++i) r.push_back(exact((long double) v[i], 1 / unit)); return r; }
template<size_t D, typename T> std::string js(const Rect<D, T>& r, double unit) { return "{\"p\":" + val(iv(r.position, unit)) + ",\"s\":" + val(iv(r.size, unit)) + "}"; }
template<size_t D, typename T> std::string js(const std::vector<Rect<D, T>>& v, double unit) { std::string s = "["; for(size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + js(v[i], unit); return s + "]"; }
template<size_t D, typename T> Rect<D, T> mk(const IBox& b, double unit) { Rect<D, T> r; for(auto i = 0u; i < D; ++i) { r.position[i] = (T) (b.p[i] * unit); r.size[i] = (T) (b.s[i] * unit); } return r; }

template<size_t D, typename T, typename T2 = T> void pair(const IBox& x, const IBox& y, double unit, bool small) {
	auto a = mk<D, T>(x, unit); auto b = mk<D, T2>(y, unit);
	const auto a0 = a; const auto b0 = b;
	Rec r("pair"); r.raw("a", js(a, unit)).raw("b", js(b, unit));
	r("int", nytl::intersects(a, b))("tni", nytl::intersects(b, a))("intr", nytl::intersectsReal(a, b))("rtni", nytl::intersectsReal(b, a));
	std::string pts = "["; std::vector<bool> c, cr; std::string cs = "[", crs = "[";
	int np = 4;
	for(int k = 0; k < np; ++k) {
		Vec<D, T2> q; unsigned far = rng() % D;
		for(auto i = 0u; i < D; ++i) { int v = 0; switch(rnd(0, 6)) { case 0: v = x.p[i]; break; case 1: v = x.p[i] + x.s[i]; break; case 2: v = x.p[i] + (x.s[i] ? rnd(0, x.s[i]) : 0); break;
			case 3: v = x.p[i] + x.s[i] / 2; break; case 4: v = x.p[i] + x.s[i] + 1; break; case 5: v = x.p[i] - 1; break; case 6: v = x.p[i] + (x.s[i] > 0); break; }
			if(k == 0) v = x.s[i] > 1 ? x.p[i] + rnd(1, x.s[i] - 1) : x.p[i];
			if(k == 1 && i != (unsigned) (rng() % D)) v = x.s[i] > 1 ? x.p[i] + 1 : x.p[i];
			// far away in one dimension, further than the value type of the box may represent
			if(!small && k == 2) v = i == far ? (x.p[i] < 0 ? rnd(1000000000, 1800000000) : rnd(-1800000000, -1000000000)) : x.s[i] > 1 ? x.p[i] + rnd(0, x.s[i]) : x.p[i];
			if(!std::is_signed_v<T2> && v < 0) v = 0;
			if(!small && (v > 1800000000 || v < -1800000000)) v = 0;
			q[i] = (T2) (v * unit); }
		pts += (k ? "," : "") + val(iv(q, unit)); cs += (k ? "," : "") + val(nytl::contains(a, q)); crs += (k ? "," : "") + val(nytl::containsReal(a, q));
	}
	r.raw("pts", pts + "]").raw("cont", cs + "]").raw("contr", crs + "]");
	if constexpr(std::is_same_v<T, T2>) {
		r.raw("isect", js(nytl::intersection(a, b), unit)).raw("tcesi", js(nytl::intersection(b, a), unit));
		bool pos = true; for(auto i = 0u; i < D; ++i) pos = pos && x.s[i] > 0 && y.s[i] > 0;
		if(pos && (small || D == 1)) r.raw("diff", js(nytl::difference(a, b), unit)).raw("ffid", js(nytl::difference(b, a), unit));
		r("eq", a == b)("ne", a != b);
	}
	if(small) { double u = 1; for(auto i = 0u; i < D; ++i) u *= unit; r("vol", exact((long double) nytl::size(a), 1 / u)); }
	if(small) r("center", iv(nytl::center(a), unit / 2));
	// center relative to the position
	else if(std::is_same_v<T, int> || std::is_same_v<T, double>) { auto c = nytl::center(a); Ints h; for(auto i = 0u; i < D; ++i) h.push_back(exact((long double) c[i] - a.position[i], 2)); r("halves", h); }
	if(small && unit == 1 && rnd(0, 7) == 0) { std::ostringstream o; o << a; r("print", o.str()); }
	if(!(a == a0) || !(b == b0)) r("eq", -1);
	out.next(); out.write(r);
}
template<size_t D> void types(const IBox& x, const IBox& y, bool neg, bool all) {
	pair<D, int>(x, y, 1, true);
	if(!neg && (all || rnd(0, 1))) pair<D, unsigned>(x, y, 1, true);
	if(all || rnd(0, 1)) pair<D, double>(x, y, 0.5, true);
	if(all || rnd(0, 1)) pair<D, float>(x, y, 0.25, true);
	if(rnd(0, 1)) pair<D, int, double>(x, y, 1, true); else pair<D, double, float>(x, y, 0.5, true);
	{ // integral coordinates with fractional ones
		auto twice = [](IBox b) { for(auto& v : b.p) v *= 2; for(auto& v : b.s) v *= 2; return b; };
		auto halves = [](IBox b) { for(auto& v : b.p) v = 2 * v + rnd(-1, 1); for(auto& v : b.s) v = v ? 2 * v + rnd(-1, 1) : 0; return b; };
		switch(rnd(0, 5)) { case 0: case 1: pair<D, int, double>(twice(x), halves(y), 0.5, true); break; case 2: pair<D, long, float>(twice(x), halves(y), 0.5, true); break;
			case 3: pair<D, double, int>(halves(x), twice(y), 0.5, true); break; case 4: pair<D, float, short>(halves(x), twice(y), 0.5, true); break;
			default: if(neg) pair<D, short, double>(twice(x), halves(y), 0.5, true); else pair<D, unsigned, double>(twice(x), halves(y), 0.5, true); } }
	if(rnd(0, 3) == 0) pair<D, float>(x, y, 1.0 / (1 << 20), true); // nearby coordinates
	if(rnd(0, 3) == 0) pair<D, long>(x, y, 4, true);
}
// pairs of intervals in all relative positions
struct IP { int p, s, q, t; };
static std::vector<IP> relations(int n, bool zero) {
	std::vector<IP> r;
	for(int p = 0; p <= n; ++p) for(int s = zero ? 0 : 1; p + s <= n; ++s) for(int q = 0; q <= n; ++q) for(int t = zero ? 0 : 1; q + t <= n; ++t) r.push_back({p, s, q, t});
	return r;
}
static const IP allen[] = {{0, 1, 2, 1}, {2, 1, 0, 1}, {0, 2, 2, 2}, {2, 2, 0, 2}, {0, 2, 1, 3}, {1, 3, 0, 2}, {0, 2, 0, 3}, {0, 3, 0, 2}, {1, 2, 0, 3}, {0, 3, 1, 2}, {1, 1, 0, 4}, {0, 4, 1, 2}, {1, 2, 1, 2}};
template<size_t D> IBox box(const IP* ip, bool second, int shift) { IBox b; for(auto i = 0u; i < D; ++i) { b.p.push_back((second ? ip[i].q : ip[i].p) + shift); b.s.push_back(second ? ip[i].t : ip[i].s); } return b; }
template<size_t D> void grid(const std::vector<IP>& rel, long samples) {
	std::vector<size_t> k(D, 0); double total = std::pow((double) rel.size(), (double) D);
	auto one = [&]{ IP ip[D]; for(auto i = 0u; i < D; ++i) ip[i] = rel[k[i]]; int shift = rnd(0, 2) ? 0 : -2; types<D>(box<D>(ip, false, shift), box<D>(ip, true, shift), shift < 0, false); };
	if(samples && samples < total) { for(long n = 0; n < samples; ++n) { for(auto& x : k) x = rng() % rel.size(); one(); } return; }
	for(;;) { one(); size_t i = 0; while(i < D && ++k[i] == rel.size()) k[i++] = 0; if(i == D) return; }
}
template<size_t D, size_t OD, typename T, typename OT> void conv() {
	Rect<D, T> a; for(auto i = 0u; i < D; ++i) { a.position[i] = (T) rnd(std::is_signed_v<T> && std::is_signed_v<OT> ? -9 : 0, 9); a.size[i] = (T) rnd(0, 9); }
	Rec r("conv"); r.raw("a", js(a, 1)).raw("res", js(static_cast<Rect<OD, OT>>(a), 1))("dim", (int) OD); out.next(); out.write(r);
}
template<size_t D, size_t A, size_t OD, typename T, typename OT> void simplex() {
	nytl::Simplex<D, T, A> s {}; std::string p = "[", q = "[";
	for(auto i = 0u; i <= A; ++i) for(auto k = 0u; k < D; ++k) s.points()[i][k] = (T) rnd(-9, 9);
	const auto& cs = s;
	auto t = static_cast<nytl::Simplex<OD, OT, A>>(cs);
	for(auto i = 0u; i <= A; ++i) { p += (i ? "," : "") + val(iv(cs.points()[i], 1)); q += (i ? "," : "") + val(iv(t.points()[i], 1)); }
	Rec r("simplex"); r.raw("points", p + "]").raw("res", q + "]")("dim", (int) OD); out.next(); out.write(r);
}
int main(int argc, char** argv) {
	init(argc, argv);
	std::vector<IP> al(allen, allen + 13);
	grid<1>(relations(thorough ? 6 : 4, true), 0);
	grid<2>(al, 0); grid<2>(relations(4, true), thorough ? 20000 : 1500); grid<2>(relations(4, false), thorough ? 20000 : 700);
	grid<3>(al, thorough ? 0 : 1200); grid<3>(relations(3, true), thorough ? 20000 : 600); grid<3>(relations(4, false), thorough ? 20000 : 300);
	grid<4>(al, thorough ? 20000 : 500); grid<4>(relations(3, true), thorough ? 10000 : 200);
	grid<5>(al, thorough ? 5000 : 150);
	// equal boxes, boxes that differ in one number only
	for(int k = 0; k < (thorough ? 3000 : 200); ++k) { IBox a; for(int i = 0; i < 5; ++i) { a.p.push_back(rnd(-3, 3)); a.s.push_back(rnd(1, 4)); } IBox b = a; int j = rnd(0, 4);
		if(k % 3 == 1) b.p[j] += rnd(0, 1) ? 1 : -1; if(k % 3 == 2) b.s[j] += 1;
		switch(j) { case 0: types<1>(a, b, true, false); [[fallthrough]]; case 1: types<2>(a, b, true, false); [[fallthrough]]; case 2: types<3>(a, b, true, false); [[fallthrough]]; case 3: types<4>(a, b, true, false); [[fallthrough]]; default: types<5>(a, b, true, false); } }
	// large coordinates (boxes within the range of int)
	auto big = [](int d) { IBox b; for(int i = 0; i < d; ++i) { long p = rnd(-1800000000, 1800000000), q = rnd(-1800000000, 1800000000); if(rnd(0, 2) == 0) p = rnd(-4, 4) * 450000000l; if(rnd(0, 2) == 0) q = rnd(-4, 4) * 450000000l;
		if(p > q) std::swap(p, q); if(q - p > 1800000000) q = p + 1800000000; b.p.push_back((int) p); b.s.push_back((int) (q - p)); } return b; };
	for(int k = 0; k < (thorough ? 10000 : 600); ++k) { IBox a = big(3), b = big(3);
		if(rnd(0, 2) == 0) { int j = rnd(0, 2); b.p[j] = a.p[j] + a.s[j]; if((long) b.p[j] + b.s[j] > 1800000000) b.s[j] = 0; } // touching
		pair<1, int>(a, b, 1, false); pair<2, int>(a, b, 1, false); pair<3, int>(a, b, 1, false); pair<2, double>(a, b, 1, false); pair<3, long>(a, b, 1, false); pair<2, int, long>(a, b, 1, false); }
	for(int k = 0; k < (thorough ? 500 : 60); ++k) {
		conv<1, 1, int, int>(); conv<1, 3, int, double>(); conv<2, 2, float, int>(); conv<2, 3, int, float>(); conv<3, 2, double, int>(); conv<3, 4, int, long>(); conv<4, 2, double, float>(); conv<2, 1, int, unsigned>(); conv<4, 5, unsigned, int>(); conv<3, 3, int, short>(); conv<5, 3, int, double>(); conv<3, 1, float, double>();
		simplex<2, 2, 2, float, int>(); simplex<2, 1, 3, int, double>(); simplex<3, 2, 2, double, float>(); simplex<3, 3, 3, float, double>(); simplex<3, 2, 4, int, int>(); simplex<4, 1, 2, int, float>(); simplex<1, 1, 2, int, double>(); simplex<4, 3, 5, double, int>();
	}
	out.close(opt["--name"]);
}

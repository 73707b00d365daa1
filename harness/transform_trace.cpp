// Records results of nytl/transform.hpp for spec/TransformTrace.tla
#include "trace.hpp"
#include <nytl/transform.hpp>
using namespace tr;
using nytl::Vec; using nytl::Mat; using nytl::SquareMat; using nytl::Vec2; using nytl::Vec3; using nytl::Vec4; using nytl::Quaternion;
typedef std::vector<long long> Ints;
constexpr double S = 8192;
template<size_t N, typename T> std::string js(const Mat<N, N, T>& m, double k, bool ex = false) { std::string s = "["; for(auto i = 0u; i < N; ++i) { Ints v; for(auto j = 0u; j < N; ++j) v.push_back(ex ? exact((long double) m[i][j], k) : fix((long double) m[i][j], k)); s += (i ? "," : "") + val(v); } return s + "]"; }
template<typename T> Ints jv(const Vec<3, T>& v, double k) { return {fix(v[0], k), fix(v[1], k), fix(v[2], k)}; }
template<size_t N> struct IV { int v[N]; Ints js() const { return Ints(v, v + N); } template<typename T> Vec<N, T> vec(double d = 1) const { Vec<N, T> r {}; for(auto i = 0u; i < N; ++i) r[i] = (T) (v[i] / d); return r; } };
template<size_t N> IV<N> iv(int hi) { IV<N> r; for(auto& x : r.v) x = rnd(-hi, hi); return r; }
template<size_t N, typename T> struct IM { int v[N][N]; Mat<N, N, T> m; IM(int hi) { for(auto i = 0u; i < N; ++i) for(auto j = 0u; j < N; ++j) m[i][j] = v[i][j] = rnd(-hi, hi); } std::string s() const { std::string r = "["; for(auto i = 0u; i < N; ++i) r += (i ? "," : "") + val(Ints(v[i], v[i] + N)); return r + "]"; } };
template<typename T> constexpr bool fl = std::is_same_v<T, float>;

typedef std::vector<Ints> Wides;
template<size_t N> Wides wides(const Vec<N, double>& v) { Wides r; for(auto i = 0u; i < N; ++i) r.push_back(wide(v[i])); return r; }
template<size_t N> std::vector<Wides> wides(const Mat<N, N, double>& m) { std::vector<Wides> r; for(auto i = 0u; i < N; ++i) r.push_back(wides(m[i])); return r; }
// h + l/W
Ints coarse(double x) { if(!(x > -1e8 && x < 1e8)) return {bad, bad}; long long h = std::llround(x); return {h, std::llround((x - h) * 16384)}; }
template<size_t D, size_t R, typename P> void affine() {
	{ auto s = iv<R>(1 << 24); auto v = s.template vec<P>(); { Rec c("scale"); c("s", s.js()).raw("x", js(nytl::scaleMat<D, P>(v), 1, true)); out.write(c); }
	  if constexpr(R < D) { Rec c("translate"); c("t", s.js()).raw("x", js(nytl::translateMat<D, P>(v), 1, true)); out.write(c); } }
	auto s = iv<R>(9); auto v = s.template vec<P>(); IM<D, P> m(9); const auto m0 = m.m;
	{ Rec c("scale"); c("s", s.js()).raw("x", js(nytl::scaleMat<D, P>(v), 1, true)); out.write(c); }
	{ auto x = m.m; nytl::scale(x, v); Rec c("scaled"); c("s", s.js()).raw("a", m.s()).raw("x", js(x, 1, true)); out.write(c); }
	if constexpr(R < D) {
		{ Rec c("translate"); c("t", s.js()).raw("x", js(nytl::translateMat<D, P>(v), 1, true)); out.write(c); }
		{ auto x = m.m; nytl::translate(x, v); Rec c("translated"); c("t", s.js()).raw("a", m.s()).raw("x", js(x, 1, true)); out.write(c); }
	}
	{ IM<R, P> a(9); Rec c("expand"); c.raw("a", a.s()).raw("x", js(nytl::expandIdentity<D, P>(a.m), 1, true)); out.write(c); Rec e("expand"); e.raw("a", a.s()).raw("x", js(nytl::expandIdentity<D, double>(a.m), 1, true)); out.write(e); }
	auto flipped = [&](int axis, const auto& x) { Rec c("flipped"); c("axis", axis + 1).raw("a", m.s()).raw("x", js(x, 1, true)); out.write(c); };
	auto axis = [&](auto n) { constexpr size_t N = decltype(n)::value; if constexpr(N < D) { auto x = m.m; nytl::flipAxis<N>(x); flipped(N, x); flipped(N, nytl::flippedAxis<N>(m.m)); } };
	axis(std::integral_constant<size_t, 0> {}); axis(std::integral_constant<size_t, 1> {}); axis(std::integral_constant<size_t, 2> {}); axis(std::integral_constant<size_t, D - 1> {});
	if constexpr(D > 1) { auto x = m.m; nytl::flipY(x); flipped(1, x); flipped(1, nytl::flippedY(m.m)); }
	if constexpr(D > 2) { auto x = m.m; nytl::flipZ(x); flipped(2, x); flipped(2, nytl::flippedZ(m.m)); }
	{ Rec c("same"); c.raw("a", m.s()).raw("x", js(m0 == m.m ? m.m : Mat<D, D, P> {}, 1, true)); out.write(c); }
	if constexpr(D == 4) { auto p = iv<3>(9); int w = 0; for(int j = 0; j < 3; ++j) w += m.v[3][j] * p.v[j]; w += m.v[3][3]; if(std::abs(w) > 0) { Rec c("multpos"); c.raw("m", m.s())("v", p.js())("k", 1024)("x", jv(nytl::multPos(m.m, p.vec<P>()), 1024)); out.write(c); } }
	out.next();
}
struct IQ { int v[4]; int n() const { return v[0] * v[0] + v[1] * v[1] + v[2] * v[2] + v[3] * v[3]; } Ints js() const { return {v[0], v[1], v[2], v[3]}; } };
IQ any(int m, bool axis = true) { IQ a; do { for(auto& v : a.v) v = rnd(0, 3) ? rnd(-m, m) : 0; } while(!(a.n() - (axis ? a.v[3] * a.v[3] : 0))); return a; }
struct Axis { int x, y, z, n; Ints js() const { return {x, y, z, n}; } template<typename P> Vec3<P> vec() const { return {(P) ((double) x / n), (P) ((double) y / n), (P) ((double) z / n)}; } };
// all unit vectors with rational components
std::vector<Axis> units;
void quads() { for(int n = 1; n <= 11; ++n) for(int x = -n; x <= n; ++x) for(int y = -n; y <= n; ++y) for(int z = -n; z <= n; ++z) if(x * x + y * y + z * z == n * n) { if(n > 1 && (x % n == 0 || y % n == 0 || z % n == 0) && std::abs(x) + std::abs(y) + std::abs(z) == n) continue; units.push_back({x, y, z, n}); } }
const Axis& unit() { return units[rnd(0, 2) ? rnd(0, units.size() - 1) : rnd(0, 5)]; }
int angle(int turns = 1) {
	static const int pi = 25736;
	if(rnd(0, 1)) return 2 * rnd(-turns * pi, turns * pi);
	int k = rnd(-8 * turns, 8 * turns); return k * (pi / 4) + (rnd(0, 2) == 0 ? 2 * rnd(-3, 3) : 0);
}
template<size_t D, typename P> void planar() {
	int a = angle(2); IM<D, P> m(5);
	{ Rec c("rotate2"); c("angle", a).raw("x", js(nytl::rotateMat<D, P>((P) (a / S)), S)); out.write(c); }
	{ auto x = m.m; nytl::rotate(x, (P) (a / S)); Rec c("rotated2"); c("angle", a)("tol", 30).raw("a", m.s()).raw("x", js(x, S)); out.write(c); }
	IV<2> f = iv<2>(9), t = iv<2>(9); while(!(f.v[0] | f.v[1])) f = iv<2>(9);
	if constexpr(!fl<P>) { int s = rnd(-12, 12), w = rnd(0, 12); if(!s && !w) w = 1;
		{ Rec c("wrotate2"); c("s", s)("w", w)("x", wides(nytl::rotateMat<D, P>(2 * std::atan2((double) s, (double) w)))); out.write(c); }
		{ Rec c("worient2"); c("from", f.js())("to", t.js())("x", wides(nytl::orientMat<D, P>(f.vec<P>(), t.vec<P>()))); out.write(c); } }
	{ Rec c("orient2"); c("from", f.js())("to", t.js())("k", 4096).raw("x", js(nytl::orientMat<D, P>(f.vec<P>(), t.vec<P>()), 4096)); out.write(c); }
	out.next();
}
template<size_t D, typename P> void spatial() {
	int k = 8192, tol = fl<P> ? 3 : 1;
	IQ q = any(rnd(1, 4)); double l = std::sqrt((double) q.n() - q.v[3] * q.v[3]); Vec3<P> ax {(P) (q.v[0] / l), (P) (q.v[1] / l), (P) (q.v[2] / l)}; P t = (P) (2 * std::atan2(l, (double) q.v[3])); if(rnd(0, 1)) { ax = {-ax[0], -ax[1], -ax[2]}; t = -t; }
	{ Rec c("rotate3"); c("q", q.js())("k", k)("tol", tol).raw("x", js(nytl::rotateMat<D, P>(ax, t), k)); out.write(c); }
	{ IM<D, P> m(5); auto x = m.m; nytl::rotate(x, ax, t); Rec c("rotated3"); c("q", q.js())("k", 2048)("tol", 3).raw("a", m.s()).raw("x", js(x, 2048)); out.write(c); }
	auto v = iv<3>(9); { Rec c("rotatev"); c("q", q.js())("k", 2048)("tol", 3)("v", v.js())("x", jv(nytl::rotate(v.vec<P>(), ax, t), 2048)); out.write(c); }
	if constexpr(!fl<P>) {
		{ Rec c("wrotate3"); c("q", q.js())("x", wides(nytl::rotateMat<D, P>(ax, t))); out.write(c); }
		{ Rec c("wrotatev"); c("q", q.js())("v", v.js())("x", wides(nytl::rotate(v.vec<P>(), ax, t))); out.write(c); }
		Axis f = unit(), o = unit(); if(rnd(0, 5) == 0) o = f; double cs = (double) (f.x * o.x + f.y * o.y + f.z * o.z) / (f.n * o.n);
		if(cs > -0.98) { Rec c("worient3"); c("from", f.js())("to", o.js())("tol", 200).raw("x", val(wides(nytl::orientMat<D, P>(f.vec<P>(), o.vec<P>())))); out.write(c); }
		auto& d = unit(); auto b = nytl::base(d.vec<P>()); { Rec c("wbase"); c("dir", d.js())("tol", 40).raw("x", val(std::vector<Wides> {wides(b[0]), wides(b[1])})); out.write(c); }
		// from a rotation: the view whose axes are the rotated ones
		IQ r = any(2, false); int n = r.n(); double s = std::sqrt((double) n); Quaternion rq {r.v[0] / s, r.v[1] / s, r.v[2] / s, r.v[3] / s};
		IV<3> pos = iv<3>(rnd(0, 1) ? 1000000 : rnd(0, 1) ? 1000 : 9);
		int m[3][3]; { int x = r.v[0], y = r.v[1], z = r.v[2], w = r.v[3]; int a[3][3] = {{w*w+x*x-y*y-z*z, 2*(x*y-w*z), 2*(x*z+w*y)}, {2*(x*y+w*z), w*w-x*x+y*y-z*z, 2*(y*z-w*x)}, {2*(x*z-w*y), 2*(y*z+w*x), w*w-x*x-y*y+z*z}}; std::memcpy(m, a, sizeof m); }
		auto rot = [&](int axis) { return Vec3<P> {(P) m[0][axis] / n, (P) m[1][axis] / n, (P) m[2][axis] / n}; };
		auto put = [&](Mat<4, 4, double> x) { Wides t {coarse(x[0][3]), coarse(x[1][3]), coarse(x[2][3])}; for(int i = 0; i < 3; ++i) x[i][3] = 0; Rec c("wlook"); c("q", r.js())("pos", pos.js())("t", t).raw("x", val(wides(x))); out.write(c); };
		put(nytl::lookAt(rq, pos.vec<P>()));
		double f1 = std::ldexp((double) rnd(1, 4), rnd(-20, 20)), f2 = rnd(-3, 3) / 2.0 * f1; auto up = f1 * rot(1) + f2 * rot(2);
		put(nytl::lookAt(pos.vec<P>(), rot(2), up));
		{ Mat<4, 4, double> x = nytl::lookAt<4, P>(rot(2), up); auto p0 = pos; pos = IV<3> {}; put(x); pos = p0; }
	}
	auto& u = unit(); int a = angle(2);
	{ Rec c("rotate3a"); c("axis", u.js())("angle", a).raw("x", js(nytl::rotateMat<D, P>(u.vec<P>(), (P) (a / S)), S)); out.write(c); }
	{ Rec c("rotateva"); c("axis", u.js())("angle", a)("v", v.js())("x", jv(nytl::rotate(v.vec<P>(), u.vec<P>(), (P) (a / S)), S)); out.write(c); }
	// orientation
	Axis f = unit(), o = unit(); if(rnd(0, 5) == 0) o = f;
	double cs = (double) (f.x * o.x + f.y * o.y + f.z * o.z) / (f.n * o.n);
	if(cs > (fl<P> ? -0.98 : -0.9999)) { Rec c("orient3"); c("from", f.js())("to", o.js())("k", k)("tol", fl<P> ? 8 : 3).raw("x", js(nytl::orientMat<D, P>(f.vec<P>(), o.vec<P>()), k)); out.write(c); }
	auto& d = unit(); auto b = nytl::base(d.vec<P>());
	{ Rec c("base"); c("dir", d.js())("k", k)("tol", fl<P> ? 6 : 3).raw("x", "[" + val(jv(b[0], k)) + "," + val(jv(b[1], k)) + "]"); out.write(c); }
	{ // close to -z
		int n = rnd(3, 30); Axis e {2 * n, 0, -(n * n - 1), n * n + 1}; if(rnd(0, 1)) std::swap(e.x, e.y); if(rnd(0, 1)) e.x = -e.x; if(rnd(0, 1)) e.z = -e.z; if(n > 10 && fl<P>) e = units[rnd(0, 5)];
		auto b = nytl::base(e.vec<P>()); Rec c("base"); c("dir", e.js())("k", k)("tol", fl<P> ? 12 : 3).raw("x", "[" + val(jv(b[0], k)) + "," + val(jv(b[1], k)) + "]"); out.write(c); }
	{ // any direction, also very close to the axes
		double e = std::pow(10.0, -rnd(0, 13)), p[3] {rnd(-1000, 1000) * e, rnd(-1000, 1000) * e, rnd(0, 1) ? 1000.0 : -1000.0}; int h = rnd(0, 5); if(h < 2) std::swap(p[2], p[h]); if(rnd(0, 7) == 0) p[rnd(0, 1)] = 0;
		double len = std::sqrt(p[0] * p[0] + p[1] * p[1] + p[2] * p[2]); if(len > 0) { Vec3<P> v {(P) (p[0] / len), (P) (p[1] / len), (P) (p[2] / len)};
		auto b = nytl::base(v); Rec c("wbasev"); c("tol", fl<P> ? 250 : 40)("dir", wides(Vec3<double>(v))).raw("x", val(std::vector<Wides> {wides(Vec3<double>(b[0])), wides(Vec3<double>(b[1]))})); out.write(c); } }
	// look at
	auto pos = iv<3>(9); auto& z = unit(); IV<3> up;
	for(;;) { up = iv<3>(rnd(0, 1) ? 1 : 6); int cx = up.v[1] * z.z - up.v[2] * z.y, cy = up.v[2] * z.x - up.v[0] * z.z, cz = up.v[0] * z.y - up.v[1] * z.x; double lu = std::sqrt((double) up.v[0] * up.v[0] + up.v[1] * up.v[1] + up.v[2] * up.v[2]); if(lu > 0 && std::sqrt((double) cx * cx + cy * cy + cz * cz) > 0.1 * lu * z.n) break; }
	{ Rec c("look"); c("pos", pos.js())("z", z.js())("up", up.js())("moved", true)("k", k)("tol", fl<P> ? 5 : 3).raw("x", js(nytl::lookAt(pos.vec<P>(), z.vec<P>(), up.vec<P>()), k)); out.write(c); }
	{ Rec c("look"); c("z", z.js())("up", up.js())("moved", false)("k", k)("tol", fl<P> ? 5 : 3).raw("x", js(nytl::lookAt<D, P>(z.vec<P>(), up.vec<P>()), k)); out.write(c); }
	IQ r = any(4, false); double n = std::sqrt((double) r.n()); Quaternion rq {r.v[0] / n, r.v[1] / n, r.v[2] / n, r.v[3] / n};
	{ Rec c("lookq"); c("q", r.js())("pos", pos.js())("k", k)("tol", fl<P> ? 3 : 1).raw("x", js(nytl::lookAt(rq, pos.vec<P>()), k)); out.write(c); }
	out.next();
}
struct Box { int l, r, b, t, n, f, w; Rec js() const { Rec c; c("l", l)("r", r)("b", b)("t", t)("n", n)("f", f)("w", w); return c; } };
template<typename P> void projections() {
	const int k = 8192;
	// any box
	Box b; b.w = rnd(1, 4); auto edge = [&](int& lo, int& hi) { do { lo = rnd(-9, 9); hi = rnd(-9, 9); } while(lo == hi); if(rnd(0, 2) && lo > hi) std::swap(lo, hi); }; edge(b.l, b.r); edge(b.b, b.t);
	if(rnd(0, 3) == 0) b.l = -b.r; if(rnd(0, 3) == 0) b.b = -b.t; if(b.l == b.r) b.r = b.l + 2; if(b.b == b.t) b.t = b.b + 3;
	P w = b.w, l = b.l / w, r = b.r / w, bo = b.b / w, t = b.t / w;
	edge(b.n, b.f);
	// in any units
	P z = (P) std::ldexp(1.0, rnd(-12, 12)); l *= z; r *= z; bo *= z; t *= z;
	{ Rec c("ortho"); auto x = nytl::ortho(l, r, bo, t, z * b.n / w, z * b.f / w); for(int i = 0; i < 3; ++i) for(int j = 0; j < 3; ++j) x[i][j] *= z; c("box", b.js())("k", k)("fl", fl<P>).raw("x", js(x, k)); out.write(c);
		if constexpr(!fl<P>) { Rec c("wortho"); c("box", b.js())("tol", 1).raw("x", val(wides(x))); out.write(c); } }
	b.n = rnd(1, 6); b.f = b.n + rnd(1, 6); if(rnd(0, 1)) { b.n = -b.n; b.f = -b.f; } P n = z * b.n / w, f = z * b.f / w;
	auto put = [&](const char* mode, const Box& box, auto m) { m[2][3] /= z; Rec c("project"); c("mode", mode)("box", box.js())("k", k)("fl", fl<P>).raw("x", js(m, k)); out.write(c);
		if constexpr(!fl<P>) { Rec c("wproject"); c("mode", mode)("box", box.js())("tol", 1).raw("x", val(wides(m))); out.write(c); } };
	put("normal", b, nytl::frustum(l, r, bo, t, n, f)); put("rev", b, nytl::frustumRev(l, r, bo, t, n, f)); put("inf", b, nytl::frustumRevInf(l, r, bo, t, n));
	// field of view: tan(fov/2) = p/q, aspect = a/d
	int p = rnd(1, 4), q = rnd(1, 4), a = rnd(1, 3), d = rnd(1, 3), s = b.n < 0 ? -1 : 1; P fov = (P) (2 * std::atan2((double) p, (double) q)), as = (P) ((double) a / d);
	Box v; v.w = q * d; v.n = b.n * v.w; v.f = b.f * v.w; v.r = a * p * b.n * s; v.l = -v.r; v.t = p * d * b.n * s; v.b = -v.t;
	P pn = z * b.n, pf = z * b.f; // planes in units of one
	put("normal", v, nytl::perspective(fov, as, pn, pf)); put("rev", v, nytl::perspectiveRev(fov, as, pn, pf)); put("inf", v, nytl::perspectiveRevInf(fov, as, pn));
	{ Box x = v; int g = b.f * s; x.r = a * p * g; x.l = -x.r; x.t = p * d * g; x.b = -x.t; std::swap(x.n, x.f); put("normal", x, nytl::perspective(fov, as, pf, pn)); put("rev", x, nytl::perspectiveRev(fov, as, pf, pn)); }
	out.next();
}
template<typename P> void all(int n) {
	for(int i = 0; i < n; ++i) {
		affine<2, 1, P>(); affine<2, 2, P>(); affine<3, 2, P>(); affine<3, 3, P>(); affine<4, 2, P>(); affine<4, 3, P>(); affine<4, 4, P>(); affine<5, 3, P>();
		planar<2, P>(); planar<3, P>(); planar<4, P>(); spatial<3, P>(); spatial<4, P>(); spatial<4, P>(); if(i % 3 == 0) spatial<5, P>();
		for(int k = 0; k < 4; ++k) projections<P>();
	}
}
int main(int argc, char** argv) {
	init(argc, argv); quads();
	int f = thorough ? 20 : 1;
	all<float>(60 * f); all<double>(60 * f);
	// all the axes with each other
	for(auto& a : units) if(a.n <= 3) for(auto& b : units) if(b.n <= 3 && (a.n == 1 || b.n == 1)) { double cs = (double) (a.x * b.x + a.y * b.y + a.z * b.z) / (a.n * b.n); if(cs < -0.99) continue;
		Rec c("orient3"); c("from", a.js())("to", b.js())("k", 8192)("tol", 3).raw("x", js(nytl::orientMat<3>(a.vec<double>(), b.vec<double>()), 8192)); out.write(c);
		if(cs > 0.99) continue; IV<3> up {{b.x, b.y, b.z}}; Rec e("look"); e("z", a.js())("up", up.js())("moved", false)("k", 8192)("tol", 3).raw("x", js(nytl::lookAt<3>(a.vec<double>(), up.vec<double>()), 8192)); out.write(e); out.next(); }
	for(auto& d : units) { auto b = nytl::base(d.vec<double>()); Rec c("base"); c("dir", d.js())("k", 8192)("tol", 3).raw("x", "[" + val(jv(b[0], 8192)) + "," + val(jv(b[1], 8192)) + "]"); out.write(c); out.next(); }
	out.close(opt["--name"]);
}

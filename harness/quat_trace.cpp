// Records results of nytl/quaternion.hpp for spec/QuaternionTrace.tla
#include "trace.hpp"
#include <nytl/vec.hpp>
#include <nytl/mat.hpp>
#include <nytl/quaternion.hpp>
using namespace tr;
using nytl::Vec; using nytl::Mat; using nytl::Quaternion; using nytl::RotationSequence;
typedef std::vector<long long> Ints;
struct IQ { int v[4]; long n() const { long r = 0; for(long x : v) r += x * x; return r; } Ints js() const { return {v[0], v[1], v[2], v[3]}; }
	Quaternion q(double f = 1) const { Quaternion r; r.x = v[0] * f; r.y = v[1] * f; r.z = v[2] * f; r.w = v[3] * f; return r; }
	// normalized without the code under test; exact if the norm is a power of four
	Quaternion u() const { return q(1 / std::sqrt((double) n())); } };
IQ mul(const IQ& p, const IQ& q) { auto& a = p.v; auto& b = q.v; return {{a[3] * b[0] + a[0] * b[3] + a[1] * b[2] - a[2] * b[1], a[3] * b[1] + a[1] * b[3] + a[2] * b[0] - a[0] * b[2], a[3] * b[2] + a[2] * b[3] + a[0] * b[1] - a[1] * b[0], a[3] * b[3] - a[0] * b[0] - a[1] * b[1] - a[2] * b[2]}}; }
Ints ex(const Quaternion& q) { return {exact(q.x), exact(q.y), exact(q.z), exact(q.w)}; }
Ints fx(const Quaternion& q, double k) { return {fix(q.x, k), fix(q.y, k), fix(q.z, k), fix(q.w, k)}; }
constexpr double S = 8192;
template<size_t N, typename T> std::string js(const Mat<N, N, T>& m, double k) { std::string s = "["; for(auto i = 0u; i < N; ++i) { Ints v; for(auto j = 0u; j < N; ++j) v.push_back(fix((long double) m[i][j], k)); s += (i ? "," : "") + val(v); } return s + "]"; }
template<typename T> Ints jv(const Vec<3, T>& v, double k) { return {fix(v[0], k), fix(v[1], k), fix(v[2], k)}; }

typedef std::vector<Ints> Wides;
Wides wq(const Quaternion& q) { return {wide(q.x), wide(q.y), wide(q.z), wide(q.w)}; }
Wides wv(const Vec<3, double>& v) { return {wide(v[0]), wide(v[1]), wide(v[2])}; }
void algebra(const IQ& a, const IQ& b) {
	const auto p = a.q(), q = b.q(); int f = rnd(-5, 5);
	{ Rec c("mul"); c("a", a.js())("b", b.js())("x", ex(p * q)); out.write(c); }
	{ auto t = p; auto& r = (t *= q); Rec c("mul"); c("a", a.js())("b", b.js())("x", &r == &t ? ex(t) : Ints {}); out.write(c); }
	{ auto t = p; t *= t; Rec c("mul"); c("a", a.js())("b", a.js())("x", ex(t)); out.write(c); }
	{ Rec c("mul"); c("a", a.js())("b", a.js())("x", ex(p * p)); out.write(c); }
	{ Rec c("add"); c("a", a.js())("b", b.js())("x", ex(p + q)); out.write(c); }
	{ Rec c("sub"); c("a", a.js())("b", b.js())("x", ex(p - q)); out.write(c); }
	{ Rec c("scale"); c("a", a.js())("f", f)("x", ex((double) f * p)); out.write(c); }
	{ Rec c("conj"); c("a", a.js())("x", ex(nytl::conjugated(p))); out.write(c); }
	{ Rec c("dot"); c("a", a.js())("b", b.js())("x", exact(nytl::dot(p, q))); out.write(c); }
	{ Rec c("norm"); c("a", a.js())("k", 1024)("x", fix(nytl::norm(p), 1024)); out.write(c); }
	{ Rec c("normalized"); c("a", a.js())("k", 16384)("x", fx(nytl::normalized(p), 16384)); out.write(c); }
	{ auto b2 = a; if(rnd(0, 1)) b2.v[rnd(0, 3)] += rnd(-1, 1); switch(rnd(0, 5)) { case 0: { auto& n = b2.v[rnd(0, 3)]; n = -n; break; } case 1: for(auto& n : b2.v) n = -n; break; default: break; } auto q2 = b2.q(); Rec c("eq"); c("a", a.js())("b", b2.js())("eq", p == q2)("ne", p != q2); out.write(c); }
	{ Rec c("eq"); c("a", a.js())("b", b.js())("eq", p == q)("ne", p != q); out.write(c); }
}
template<typename T> void rotate(const IQ& a, const IQ& b) {
	auto p = a.u(), q = b.u(); Vec<3, int> iv {rnd(-9, 9), rnd(-9, 9), rnd(-9, 9)}; Ints vi {iv[0], iv[1], iv[2]}; auto v = static_cast<Vec<3, T>>(iv);
	int k = std::is_integral_v<T> ? 1 : 1024;
	auto put = [&](const char* op, auto x) { Rec c(op); c("a", a.js())("b", b.js())("v", vi)("k", k).raw("x", val(jv(x, k))); out.write(c); };
	put("apply", nytl::apply(p, v));
	put("apply2", nytl::apply(p * q, v)); put("apply2", nytl::apply(p, nytl::apply(q, v)));
}
void matrices(const IQ& a) {
	auto p = a.u();
	auto put = [&](auto m, unsigned d, int k) { Rec c("tomat"); c("a", a.js())("k", k)("d", d).raw("x", js(m, k)); out.write(c); };
	switch(rnd(0, 5)) {
	case 0: put(nytl::toMat<3>(p), 3, 4096); break; case 1: put(nytl::toMat<4>(p), 4, 4096); break; case 2: put(nytl::toMat<5>(p), 5, 4096); break;
	case 3: put(nytl::toMat<3, double>(p), 3, 8192); break; case 4: put(nytl::toMat<4, double>(p), 4, 8192); break; default: put(nytl::toMat<6, double>(p), 6, 8192); break;
	}
	// matrices computed without the code under test
	int n = a.n(); Mat<3, 3, double> m {};
	for(int j = 0; j < 3; ++j) { IQ e {}; e.v[j] = 1; IQ cj {{-a.v[0], -a.v[1], -a.v[2], a.v[3]}}; auto r = mul(mul(a, e), cj); for(int i = 0; i < 3; ++i) m[i][j] = (double) r.v[i] / n; }
	auto from = [&](const Quaternion& q) { Rec c("frommat"); c("a", a.js())("k", 16384)("x", fx(q, 16384)); out.write(c); };
	from(Quaternion::fromMat(m)); from(Quaternion::fromMat(static_cast<Mat<3, 3, float>>(m))); if(rnd(0, 3) == 0) from(Quaternion::fromMat(nytl::toMat<3>(p)));
}
struct Axis { int x, y, z, n; Ints js() const { return {x, y, z, n}; } };
const Axis axes[] = {{1, 0, 0, 1}, {0, 1, 0, 1}, {0, 0, 1, 1}, {-1, 0, 0, 1}, {0, -1, 0, 1}, {0, 0, -1, 1}, {2, 1, 2, 3}, {-1, 2, 2, 3}, {2, -2, 1, 3}, {3, 0, 4, 5}, {0, -3, 4, 5}, {-4, 3, 0, 5}, {2, 3, 6, 7}, {-6, 2, -3, 7}, {1, 4, 8, 9}, {4, -7, 4, 9}, {6, 6, -7, 11}};
const Axis& axis() { return axes[rnd(0, sizeof(axes) / sizeof(axes[0]) - 1)]; }
// even multiples of 1/S; many special ones
int angle(int turns = 1) {
	static const int pi = 25736;
	if(rnd(0, 1)) return 2 * rnd(-turns * pi, turns * pi);
	int k = rnd(-8 * turns, 8 * turns); return k * (pi / 4) + (rnd(0, 2) == 0 ? 2 * rnd(-3, 3) : 0);
}
Quaternion about(const Axis& a, double t) { Quaternion q; double s = std::sin(t / 2) / a.n; q.x = s * a.x; q.y = s * a.y; q.z = s * a.z; q.w = std::cos(t / 2); return q; }
void angles() {
	auto& x = axis(); int t = angle(2); double ax = (double) x.x / x.n, ay = (double) x.y / x.n, az = (double) x.z / x.n;
	auto q = rnd(0, 1) ? Quaternion::axisAngle(ax, ay, az, t / S) : Quaternion::axisAngle(nytl::Vec3f {(float) ax, (float) ay, (float) az}, t / S);
	Mat<3, 3, double> m {}; for(int j = 0; j < 3; ++j) { Vec<3, double> e {}; e[j] = 1; auto r = nytl::apply(q, e); for(int i = 0; i < 3; ++i) m[i][j] = r[i]; }
	if(rnd(0, 1)) m = nytl::toMat<3, double>(q);
	{ Rec c("axisangle"); c("axis", x.js())("angle", t)("x", fx(q, S)).raw("m", js(m, S)); out.write(c); }
	int y = angle(), p = angle(), r = angle();
	{ Rec c("yxz"); c("angles", Ints {y, p, r})("x", fx(Quaternion::yxz(y / S, p / S, r / S), S)); out.write(c); }
}
struct Seq { RotationSequence s; int a[3]; };
const Seq seqs[] = {
	{RotationSequence::xyx, {1, 2, 1}}, {RotationSequence::xzx, {1, 3, 1}}, {RotationSequence::yzy, {2, 3, 2}}, {RotationSequence::yxy, {2, 1, 2}}, {RotationSequence::zxz, {3, 1, 3}}, {RotationSequence::zyz, {3, 2, 3}},
	{RotationSequence::xyz, {1, 2, 3}}, {RotationSequence::xzy, {1, 3, 2}}, {RotationSequence::yxz, {2, 1, 3}}, {RotationSequence::yzx, {2, 3, 1}}, {RotationSequence::zxy, {3, 1, 2}}, {RotationSequence::zyx, {3, 2, 1}}};
Ints res(const std::array<double, 3>& r) { return {2 * fix(r[0], S / 2), 2 * fix(r[1], S / 2), 2 * fix(r[2], S / 2)}; }
void euler(const IQ& a, const Seq& s) { Rec c("euler"); c("given", false)("a", a.js())("seq", Ints {s.a[0], s.a[1], s.a[2]})("x", res(nytl::eulerAngles(rnd(0, 1) ? a.u() : a.q(-1 / std::sqrt((double) a.n())), s.s))); out.write(c); }
void eulergiven(const Seq& s) {
	static const Axis unit[] = {{1, 0, 0, 1}, {0, 1, 0, 1}, {0, 0, 1, 1}};
	auto& g = rnd(0, 2) ? s : seqs[rnd(0, 11)]; int a[3] = {angle(), angle(), angle()};
	// often (nearly) degenerate
	if(rnd(0, 2)) a[1] = (g.a[0] == g.a[2] ? 25736 * rnd(-1, 1) : 12868 * (rnd(0, 1) ? 1 : -1)) + (rnd(0, 2) ? 0 : 2 * rnd(-30, 30));
	static const double tiny[] = {0, 0, 0, 1e-12, 1e-9, 1e-8, 1e-7, 5e-7, 2e-6, 1e-5, -1e-9, -1e-7, -3e-6}; double d = tiny[rnd(0, 12)];
	// 25736/8192 is not quite pi
	double m = a[1] / S; if(rnd(0, 1)) m *= M_PI / (25736 / S);
	auto mulq = [](const Quaternion& a, const Quaternion& b) { return Quaternion {a.w * b.x + a.x * b.w + a.y * b.z - a.z * b.y, a.w * b.y + a.y * b.w + a.z * b.x - a.x * b.z, a.w * b.z + a.z * b.w + a.x * b.y - a.y * b.x, a.w * b.w - a.x * b.x - a.y * b.y - a.z * b.z}; };
	auto q = mulq(about(unit[g.a[0] - 1], a[0] / S), mulq(about(unit[g.a[1] - 1], m + d), about(unit[g.a[2] - 1], a[2] / S)));
	Rec c("euler"); c("given", true)("gseq", Ints {g.a[0], g.a[1], g.a[2]})("angles", Ints {a[0], a[1], a[2]})("seq", Ints {s.a[0], s.a[1], s.a[2]})("x", res(nytl::eulerAngles(q, s.s))); out.write(c);
}
IQ any(int m) { IQ a; do { for(auto& v : a.v) v = rnd(0, 3) ? rnd(-m, m) : 0; } while(!a.n()); return a; }
int tangent() { return rnd(0, 3) ? rnd(-12, 12) : rnd(-1, 1); }
void precise() {
	auto put = [&](const char* op, const IQ& a, auto&&... kv) { Rec c(op); c("a", a.js()); auto add = [&](auto& p) { c(p.first, p.second); }; (add(kv), ...); out.write(c); };
	auto x = [](const auto& v) { return std::make_pair("x", v); };
	auto a = any(rnd(1, 9)), b = any(rnd(1, 9)); auto p = a.u(), q = b.u();
	put("wnormalized", a, x(wq(nytl::normalized(a.q(rnd(0, 1) ? 1 : std::ldexp(1.0, rnd(-60, 60)))))));
	put("wmul", a, std::make_pair("b", b.js()), x(wq(p * q)));
	auto m = nytl::toMat<3, double>(p); put("wtomat", a, x(std::vector<Wides> {wv(m[0]), wv(m[1]), wv(m[2])}));
	Vec<3, double> v {(double) rnd(-9, 9), (double) rnd(-9, 9), (double) rnd(-9, 9)};
	{ auto c = any(4); put("wapply", c, std::make_pair("v", Ints {(int) v[0], (int) v[1], (int) v[2]}), x(wv(nytl::apply(c.u(), v)))); }
	int n = a.n(); Mat<3, 3, double> r {};
	for(int j = 0; j < 3; ++j) { IQ e {}; e.v[j] = 1; IQ cj {{-a.v[0], -a.v[1], -a.v[2], a.v[3]}}; auto t = mul(mul(a, e), cj); for(int i = 0; i < 3; ++i) r[i][j] = (double) t.v[i] / n; }
	put("wfrommat", a, x(wq(Quaternion::fromMat(r))));
	auto& ax = axes[rnd(0, sizeof(axes) / sizeof(axes[0]) - 1)]; int s = tangent(), w = rnd(0, 12); if(!w && !s) s = 1;
	{ Rec c("waxisangle"); c("axis", ax.js())("s", s)("w", w)("x", wq(Quaternion::axisAngle((double) ax.x / ax.n, (double) ax.y / ax.n, (double) ax.z / ax.n, 2 * std::atan2((double) s, (double) w)))); out.write(c); }
	// three angles
	Ints ts, tw; double an[3]; for(int i = 0; i < 3; ++i) { int s = tangent(), w = rnd(0, 12); if(!w && !s) w = 1; ts.push_back(s); tw.push_back(w); an[i] = 2 * std::atan2((double) s, (double) w); }
	{ Rec c("wyxz"); c("s", ts)("w", tw)("x", wq(Quaternion::yxz(an[0], an[1], an[2]))); out.write(c); }
	for(auto& sq : seqs) {
		bool classic = sq.a[0] == sq.a[2]; double mid = an[1]; if(classic) { mid = std::abs(mid); if(mid < 0.05 || mid > M_PI - 0.05) mid = 1 + rnd(-900, 900) / 1000.0; } else { if(std::abs(mid) > M_PI / 2) mid /= 2; if(std::abs(mid) > M_PI / 2 - 0.05) mid = 0.7; }
		double e[3] = {an[0], mid, an[2]}; if(std::abs(e[0]) > 3.1) e[0] /= 2; if(std::abs(e[2]) > 3.1) e[2] /= 2;
		Quaternion h[3]; for(int i = 0; i < 3; ++i) { double v[3] = {0, 0, 0}; v[sq.a[i] - 1] = std::sin(e[i] / 2); h[i].x = v[0]; h[i].y = v[1]; h[i].z = v[2]; h[i].w = std::cos(e[i] / 2); }
		auto mq = [](const Quaternion& a, const Quaternion& b) { return Quaternion {a.w * b.x + a.x * b.w + a.y * b.z - a.z * b.y, a.w * b.y + a.y * b.w + a.z * b.x - a.x * b.z, a.w * b.z + a.z * b.w + a.x * b.y - a.y * b.x, a.w * b.w - a.x * b.x - a.y * b.y - a.z * b.z}; };
		auto r = nytl::eulerAngles(mq(h[0], mq(h[1], h[2])), sq.s);
		Rec c("weuler"); c("seq", Ints {sq.a[0], sq.a[1], sq.a[2]})("angles", Wides {wide(e[0]), wide(e[1]), wide(e[2])})("x", Wides {wide(r[0]), wide(r[1]), wide(r[2])}); out.write(c);
	}
	// p turns by a small angle
	for(int k = 0; k < 6; ++k) {
		int n = rnd(1, 4), m = rnd(0, n); IQ d; int tries = 0;
		for(;; ++tries) { d = any(rnd(1, 2)); d.v[3] = rnd(1, 12); if(n * std::acos(d.v[3] / std::sqrt((double) d.n())) < M_PI / 2 - 0.01) break; }
		IQ s = any(2), e = s, u = s; for(int i = 0; i < n; ++i) e = mul(e, d); for(int i = 0; i < m; ++i) u = mul(u, d);
		bool big = false; for(int i = 0; i < 4; ++i) big = big || std::abs(u.v[i]) > 25000; if(big) continue;
		auto z = nytl::slerp(s.u(), rnd(0, 1) ? e.u() : e.q(-1 / std::sqrt((double) e.n())), (double) m / n);
		Rec c("wslerp"); c("a", s.js())("b", d.js())("m", m)("n", n)("x", wq(z)); out.write(c);
	}
}
void slerps() {
	// p turns by less than pi/n
	int n = rnd(1, 4), m = rnd(0, n); IQ a = any(2), p; 
	for(;;) { p = any(rnd(1, 3)); p.v[3] = rnd(1, 4); double h = std::acos(p.v[3] / std::sqrt((double) p.n())); if(p.n() < 22 && n * h < M_PI / 2 - 0.01) break; }
	IQ b = a; for(int i = 0; i < n; ++i) b = mul(b, p);
	auto x = nytl::slerp(a.u(), rnd(0, 1) ? b.u() : b.q(-1 / std::sqrt((double) b.n())), (double) m / n);
	IQ u = a; for(int i = 0; i < m; ++i) u = mul(u, p); if(u.n() > 1000000) return;
	{ Rec c("slerp"); c("a", a.js())("b", p.js())("m", m)("k", 16384)("x", fx(x, 16384)); out.write(c); }
}
void slerpangles() {
	auto &x0 = axis(), &x = axis(); int t0 = angle(), t = angle(2), parts = rnd(1, 8), i = rnd(0, parts);
	if(rnd(0, 3) == 0) t = 2 * rnd(-300, 300); // close to each other
	auto q0 = about(x0, t0 / S), d = about(x, t / S);
	Quaternion q1 {q0.w * d.x + q0.x * d.w + q0.y * d.z - q0.z * d.y, q0.w * d.y + q0.y * d.w + q0.z * d.x - q0.x * d.z, q0.w * d.z + q0.z * d.w + q0.x * d.y - q0.y * d.x, q0.w * d.w - q0.x * d.x - q0.y * d.y - q0.z * d.z};
	Rec c("slerpangle"); c("axis0", x0.js())("angle0", t0)("axis", x.js())("angle", t)("parts", parts)("t", i)("x", fx(nytl::slerp(q0, q1, (double) i / parts), S)); out.write(c);
}
int main(int argc, char** argv) {
	init(argc, argv);
	int f = thorough ? 20 : 1;
	{ Quaternion q; Rec c("init"); c("x", ex(q)); out.write(c); } { Quaternion q {}; Rec c("init"); c("x", ex(q)); out.write(c); }
	// components -1, 0, 1: all, the 48 elements of the cube group twice
	for(int c = 0; c < 81; ++c) {
		IQ a {{c % 3 - 1, c / 3 % 3 - 1, c / 9 % 3 - 1, c / 27 - 1}};
		algebra(a, any(1)); out.next();
		if(!a.n()) continue;
		matrices(a); for(auto& s : seqs) euler(a, s); out.next();
		bool exactly = a.n() == 1 || a.n() == 4;
		for(int k = 0; k < 3; ++k) { IQ b; do b = any(1); while(exactly && b.n() != 1 && b.n() != 4); rotate<double>(a, b); rotate<float>(a, b); if(exactly) rotate<int>(a, b); }
		out.next();
	}
	for(int i = 0; i < 200 * f; ++i) {
		algebra(any(9), any(9)); out.next(); auto a = any(4); rotate<double>(a, any(3)); rotate<float>(any(3), a); matrices(a); matrices(any(9)); out.next();
		for(int k = 0; k < 4; ++k) { euler(any(4), seqs[rnd(0, 11)]); slerps(); slerpangles(); }
		for(int k = 0; k < 2; ++k) { angles(); }
		for(auto& s : seqs) eulergiven(s);
		precise(); out.next(); precise();
		out.next();
	}
	out.close(opt["--name"]);
}

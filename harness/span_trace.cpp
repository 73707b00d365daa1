// Records executions of nytl::span and nytl::StringParam for spec/SpanTrace.tla
#include "trace.hpp"
#include <nytl/span.hpp>
#include <nytl/stringParam.hpp>
#include <variant>
#include <limits>
#include <memory>
using namespace tr;
using nytl::span;

constexpr std::size_t dyn = nytl::dynamic_extent;
constexpr int N = 5;
inline int ext(std::size_t e) { return e == dyn ? -1 : (int) e; }

struct Big { int v; short pad; double x;
	bool operator==(const Big& o) const { return v == o.v; } bool operator<(const Big& o) const { return v < o.v; } };
inline int num_(int v) { return v; } inline int num_(unsigned char v) { return v; } inline int num_(double v) { return (int) v; }
inline int num_(const Big& v) { return v.v; }
template<typename T> T mk(int v) { return T(v); }
template<> Big mk<Big>(int v) { return {v, (short) 7, 0.5}; }

template<typename E> struct Driver {
	using T = std::remove_const_t<E>;
	using Var = std::variant<std::monostate, span<E>, span<E, 0>, span<E, 1>, span<E, 2>, span<E, 3>, span<E, 4>, span<E, 5>>;
	static constexpr int nreg = 3;
	T arr[N]; std::array<T, N> sarr; std::vector<T> vec;
	T* base = nullptr; // the sequence in use
	std::size_t n = 0;
	Var reg[nreg + 1];

	std::vector<int> mem() const { std::vector<int> r; for(size_t i = 0; i < n; ++i) r.push_back(num_(base[i])); return r; }

	template<typename S> Rec view(S s) {
		Rec v;
		auto off = [&](const void* p) { return s.data() == nullptr && p == nullptr ? -2 * (long) sizeof(E) : (long)((const char*) p - (const char*) base); };
		v("size", (long) s.size())("ext", ext(S::extent))("empty", s.empty())("bytes", (long) s.size_bytes())("elsize", (int) sizeof(E))("off", off(s.data()));
		std::vector<int> a, b, c, d, e, f, g, h;
		size_t z = s.size() > 20 ? 20 : s.size();
		for(size_t i = 0; i < z; ++i) { a.push_back(num_(s[i])); b.push_back(num_(s(i))); }
		size_t k = 0;
		for(auto& x : s) { if(++k > 20) break; c.push_back(num_(x)); }
		k = 0; for(auto it = s.cbegin(); it != s.cend() && ++k < 20; ++it) d.push_back(num_(*it));
		k = 0; for(auto it = s.rbegin(); it != s.rend() && ++k < 20; ++it) e.push_back(num_(*it));
		k = 0; for(auto it = s.crbegin(); it != s.crend() && ++k < 20; ++it) f.push_back(num_(*it));
		if(!s.empty()) { g = {num_(s.front()), num_(s.back())}; }
		v("index", a)("call", b)("iter", c)("citer", d)("riter", e)("criter", f)("fb", g);
		auto by = nytl::as_bytes(s);
		v("asbytes", std::vector<int>{(int) off(by.data()), (int) by.size(), ext(decltype(by)::extent)});
		// the elements out of the bytes
		for(size_t i = 0; (i + 1) * sizeof(E) <= by.size() && i < 20; ++i) { T t = mk<T>(0); std::memcpy((void*) &t, by.data() + i * sizeof(E), sizeof(E)); h.push_back(num_(t)); }
		v("content", h);
		return v;
	}
	Rec viewReg(int r) { return std::visit([&](auto& s) -> Rec { if constexpr(std::is_same_v<std::decay_t<decltype(s)>, std::monostate>) return Rec(); else return view(s); }, reg[r]); }
	void emit(Rec& r, int d) { r("mem", mem()); r.raw("view", val(viewReg(d))); out.write(r); }

	void reset(int which) {
		for(auto& r : reg) r = std::monostate{};
		vec.clear(); vec.resize(N, mk<T>(0));
		base = which == 0 ? arr : which == 1 ? sarr.data() : vec.data(); n = N;
		src = which;
		for(size_t i = 0; i < n; ++i) base[i] = mk<T>(rnd(1, 3));
		out.balance();
		Rec r("reset"); r("mem", mem()); out.write(r);
	}
	int src = 0;
	template<typename S> void set(int r, S s, Rec& rec) { rec("r", r)("e", ext(S::extent)); reg[r].template emplace<S>(s); emit(rec, r); }
	template<std::size_t X> span<E, X> ptr(int o, int c, int how) {
		if(how % 2) return span<E, X>(base + o, base + o + c);
		return span<E, X>(base + o, (size_t) c);
	}
	template<typename F> static void withN(int c, F f) {
		switch(c) { case 0: f(std::integral_constant<size_t, 0>{}); break; case 1: f(std::integral_constant<size_t, 1>{}); break;
			case 2: f(std::integral_constant<size_t, 2>{}); break; case 3: f(std::integral_constant<size_t, 3>{}); break;
			case 4: f(std::integral_constant<size_t, 4>{}); break; case 5: f(std::integral_constant<size_t, 5>{}); break; }
	}
	template<typename F> void with(int r, F f) {
		std::visit([&](auto& s) { if constexpr(!std::is_same_v<std::decay_t<decltype(s)>, std::monostate>) f(s); }, reg[r]);
	}
	int size(int r) { int z = -1; with(r, [&](auto& s){ z = (int) s.size(); if(z > N) z = N; }); return z; }

	// how: kind of source
	static constexpr int kinds = 13;
	void make(int r, int o, int c, int how) {
		Rec rec("make"); 
		auto rc = [&](int o, int c) { rec("how", how)("o", o)("n", c); };
		switch(how) {
			case 0: case 1: rc(o, c); set(r, ptr<dyn>(o, c, how), rec); break;
			case 2: case 3: rc(o, c); withN(c, [&](auto k) { set(r, ptr<k.value>(o, c, how), rec); }); break;
			case 4: rc(0, N); if(src == 0) set(r, span<E>(arr), rec); else if(src == 1) set(r, span<E>(sarr), rec); else set(r, span<E>(vec), rec); break;
			case 5: rc(0, N); if(src == 0) set(r, span<E, N>(arr), rec); else if(src == 1) set(r, span<E, N>(sarr), rec); else set(r, span<E, N>(vec), rec); break;
			case 6: rc(0, N); if(src == 0) set(r, nytl::make_span<E>(arr), rec); 
				else if constexpr(std::is_const_v<E>) { if(src == 1) set(r, nytl::make_span(std::as_const(sarr)), rec); else set(r, nytl::make_span(std::as_const(vec)), rec); }
				else { if(src == 1) set(r, nytl::make_span(sarr), rec); else set(r, nytl::make_span(vec), rec); } break;
			case 7: rc(0, N); if constexpr(std::is_const_v<E>) { // const sources
					if(src == 0) set(r, span(std::as_const(arr)), rec); else if(src == 1) set(r, span<E>(std::as_const(sarr)), rec); else set(r, span<E>(std::as_const(vec)), rec);
				} else { if(src == 0) set(r, span(arr), rec); else if(src == 1) set(r, span(sarr), rec); else set(r, span(vec), rec); } break;
			case 8: rc(o, c); set(r, nytl::make_span<E>(base + o, (size_t) c), rec); break;
			case 9: rc(o, c); set(r, nytl::make_span<E>(base + o, base + o + c), rec); break;
			case 10: { // out of a non-const span
				rc(o, c); span<T> s(base + o, (size_t) c); set(r, span<E>(s), rec); break; }
			case 11: { rc(o, c); withN(c, [&](auto k) { span<T, k.value> s(base + o, (size_t) c); set(r, span<E, k.value>(s), rec); }); break; }
			case 12: { rc(0, N); if(src == 2) { struct C { T* d; size_t s; T* data() const { return d; } size_t size() const { return s; } } cc{base, N}; set(r, span<E>(cc), rec); }
				else { auto impl = [](span<E> s) { return s; }; set(r, src == 0 ? impl(arr) : impl(sarr), rec); } break; }
		}
	}
	void makeNull(int r) { Rec rec("null"); set(r, span<E>(), rec); }
	void first(int r, int s, int c, bool st) { with(s, [&](auto sp) { Rec rec("first"); rec("s", s)("n", c); 
		if(st) withN(c, [&](auto k) { set(r, sp.template first<k.value>(), rec); }); else set(r, sp.first(c), rec); }); }
	void last(int r, int s, int c, bool st) { with(s, [&](auto sp) { Rec rec("last"); rec("s", s)("n", c); 
		if(st) withN(c, [&](auto k) { set(r, sp.template last<k.value>(), rec); }); else set(r, sp.last(c), rec); }); }
	void sub(int r, int s, int o, int c, bool st) { with(s, [&](auto sp) { Rec rec("sub"); rec("s", s)("o", o)("n", c); 
		if(st) withN(o, [&](auto j) { withN(c, [&](auto k) { set(r, sp.template subspan<j.value, k.value>(), rec); }); }); else set(r, sp.subspan(o, c), rec); }); }
	void rest(int r, int s, int o, bool st) { with(s, [&](auto sp) { using S = decltype(sp); Rec rec("rest"); rec("s", s)("o", o); 
		if(st) withN(o, [&](auto j) { if constexpr(S::extent == dyn || j.value <= S::extent) set(r, sp.template subspan<j.value>(), rec); }); else set(r, sp.subspan(o), rec); }); }
	void conv(int r, int s, bool st, bool assign) { with(s, [&](auto sp) { using S = decltype(sp); Rec rec("conv"); rec("s", s);
		if(!st) { if(assign) { span<E> x; x = sp; set(r, x, rec); } else set(r, span<E>(sp), rec); }
		else withN((int) sp.size(), [&](auto k) { if constexpr(S::extent == dyn || S::extent == k.value) set(r, span<E, k.value>(sp), rec); }); }); }
	void write(int r, int i, int v, int how) {
		if constexpr(!std::is_const_v<E>) with(r, [&](auto sp) {
			Rec rec("write"); rec("r", r)("i", i)("v", v)("how", how); T t = mk<T>(v);
			switch(how) { case 0: sp[i] = t; break; case 1: sp(i) = t; break; case 2: *(sp.begin() + i) = t; break;
				case 3: *(sp.rbegin() + (sp.size() - 1 - i)) = t; break;
				case 4: if(i == 0) sp.front() = t; else if(i == (int) sp.size() - 1) sp.back() = t; else sp.data()[i] = t; break;
				case 5: { auto b = nytl::as_writeable_bytes(sp); std::memcpy((void*) (b.data() + i * sizeof(T)), &t, sizeof(T)); break; }
				case 6: { int k = 0; for(auto& x : sp) if(k++ == i) x = t; break; } }
			emit(rec, r);
		});
	}
	void poke(int i, int v) { base[i] = mk<T>(v); Rec rec("poke"); rec("i", i)("v", v)("mem", mem()); out.write(rec); }
	void cmp(int r, int s) {
		with(r, [&](auto a) { with(s, [&](auto b) {
			Rec rec("cmp"); rec("r", r)("s", s)("eq", a == b);
			if constexpr(std::is_same_v<std::decay_t<decltype(a)>, std::decay_t<decltype(b)>>) rec("ne", a != b)("lt", a < b)("le", a <= b)("gt", a > b)("ge", a >= b);
			out.write(rec);
		}); });
	}
	// every window, static or dynamic, and every operation on it
	void all() {
		for(int o = 0; o <= N; ++o) for(int c = 0; o + c <= N; ++c) for(int how = 0; how < kinds; ++how) {
			if((how >= 4 && how <= 7) || how == 12) if(o || c) continue;
			reset(rnd(0, 2)); make(1, o, c, how);
			int z = size(1);
			for(int st = 0; st < 2; ++st) {
				for(int k = 0; k <= z; ++k) { first(2, 1, k, st); last(2, 1, k, st); rest(2, 1, k, st);
					for(int m = 0; k + m <= z; ++m) sub(2, 1, k, m, st); }
				conv(2, 1, st, 0); conv(2, 1, st, 1);
			}
			for(int i = 0; i < z; ++i) for(int h = 0; h < 7; ++h) write(1, i, 1 + (i + h) % 7, h);
		}
		// comparison of all windows
		reset(0);
		for(int w = 0; w < 4; ++w) {
			for(int i = 0; i < N; ++i) poke(i, rnd(1, 2));
			for(int o = 0; o <= N; ++o) for(int c = 0; o + c <= N; ++c) for(int st = 0; st < 2; ++st) {
				make(1, o, c, st * 2);
				for(int p = 0; p <= N; ++p) for(int d = 0; p + d <= N; ++d) { make(2, p, d, st ? 2 : 0); cmp(1, 2); if(rnd(0, 7) == 0) cmp(2, 1); }
			}
			if(!thorough) break;
		}
		reset(1); makeNull(1); makeNull(2); cmp(1, 2); make(2, 0, 1, 0); cmp(1, 2); cmp(2, 1); first(3, 1, 0, 0); conv(3, 1, 1, 0); rest(3, 1, 0, 0); last(3, 1, 0, 1);
	}
	void walk(int len) {
		reset(rnd(0, 2));
		for(int k = 0; k < len; ++k) {
			int r = rnd(1, nreg), s = rnd(1, nreg), z = size(s);
			if(z < 0) { s = r; int o = rnd(0, N); make(r, o, rnd(0, N - o), rnd(0, kinds - 1)); continue; }
			bool st = rnd(0, 1);
			switch(rnd(0, 11)) {
				case 0: { int o = rnd(0, N); make(r, o, rnd(0, N - o), rnd(0, kinds - 1)); break; }
				case 1: first(r, s, rnd(0, z), st); break;
				case 2: last(r, s, rnd(0, z), st); break;
				case 3: rest(r, s, rnd(0, z), st); break;
				case 4: { int o = rnd(0, z); sub(r, s, o, rnd(0, z - o), st); break; }
				case 5: conv(r, s, st, rnd(0, 1)); break;
				case 6: case 7: case 8: if(z) { write(s, rnd(0, z - 1), rnd(1, 4), rnd(0, 6)); } break;
				case 9: poke(rnd(0, N - 1), rnd(1, 4)); break;
				case 10: if(size(r) >= 0) cmp(r, s); break;
				case 11: if(rnd(0, 9) == 0) makeNull(r); break;
			}
		}
	}
};

template<typename C> void strings() {
	using SP = nytl::BasicStringParam<C>; using S = std::basic_string<C>;
	auto rec = [&](const SP& p, const std::vector<int>& src, const void* from) {
		Rec r("str"); std::vector<int> a, b;
		for(auto c : p) a.push_back((int) c);
		const C* q = p.c_str();
		bool same = from == nullptr || from == (const void*) q;
		if(q) { for(int i = 0; i < 40 && q[i]; ++i) b.push_back((int) q[i]); }
		r("src", src)("chars", a)("size", (int) p.size())("empty", p.empty())("cstr", b)("term", q ? (long long) q[p.size()] : -1)("same", same);
		out.next(); out.write(r);
	};
	rec(SP(), {}, nullptr); { SP d; rec(d, {}, nullptr); SP e = d; rec(e, {}, nullptr); }
	static constexpr C lit[] = {'a', 'b', 0, 'c', 0}; rec(SP(lit), {97, 98, 0, 99}, lit);
	{ constexpr SP cp(lit); rec(cp, {97, 98}, lit); }
	for(int i = 0; i < (thorough ? 3000 : 300); ++i) {
		int n = i % 40; std::vector<int> v; S s;
		for(int k = 0; k < n; ++k) { int c = rnd(0, 12) ? rnd(1, sizeof(C) == 1 ? 127 : 60000) : (rnd(0, 2) ? 1 : 0); v.push_back(c); s += (C) c; }
		const S& cs = s;
		rec(SP(cs), v, s.c_str()); rec(SP(s.c_str()), v, s.c_str());
		SP p = s; rec(p, v, s.c_str()); SP q; q = p; rec(q, v, s.c_str());
		std::basic_string_view<C> w = p; rec(SP(w.data()), v, s.c_str());
		auto fn = [](SP x) { return x; }; rec(fn(s.c_str()), v, s.c_str()); rec(fn(s), v, s.c_str());
	}
}

// digits base 2^20
std::vector<int> pair(unsigned long long v) { return {(int) (v >> 20), (int) (v & 0xFFFFF)}; }
// long spans: the memory is never accessed
template<typename S> void hugeRec(const char* op, S s, int* base, unsigned long long o, unsigned long long n, unsigned long long size) {
	Rec r("huge"); r("fn", op)("o", pair(o))("n", pair(n))("size", pair(size));
	r("got", std::vector<std::vector<int>>{pair(s.size()), pair((unsigned long long) (s.data() - base)), pair(s.size_bytes() / sizeof(int)), pair(s.end() - s.begin()), pair((unsigned long long) (&s[s.size() - 1] - base) + 1), pair((unsigned long long) (&s.back() - base) + 1),
		pair(nytl::as_bytes(s).size() / sizeof(int)), pair((unsigned long long) (s.rend().base() - base))})("empty", s.empty());
	out.next(); out.write(r);
}
template<std::size_t X, std::size_t O, std::size_t C> void hugeStatic(int* base) {
	span<int, X> s(base, X); span<int> d(s);
	hugeRec("sub", s.template subspan<O, C>(), base, O, C, X); hugeRec("sub", d.template subspan<O, C>(), base, O, C, X); hugeRec("rest", s.template subspan<O>(), base, O, 0, X); hugeRec("rest", d.template subspan<O>(), base, O, 0, X);
	hugeRec("first", s.template first<C>(), base, 0, C, X); hugeRec("last", s.template last<C>(), base, 0, C, X); hugeRec("first", d.template first<C>(), base, 0, C, X); hugeRec("last", d.template last<C>(), base, 0, C, X);
	hugeRec("first", s.first(C), base, 0, C, X); hugeRec("last", s.last(C), base, 0, C, X); hugeRec("sub", s.subspan(O, C), base, O, C, X); hugeRec("rest", s.subspan(O), base, O, 0, X);
	hugeRec("first", d.first(C), base, 0, C, X); hugeRec("last", d.last(C), base, 0, C, X); hugeRec("sub", d.subspan(O, C), base, O, C, X); hugeRec("rest", d.subspan(O), base, O, 0, X);
	hugeRec("whole", span<int, X>(d), base, 0, 0, X); hugeRec("whole", span<const int>(s), base, 0, 0, X); hugeRec("whole", nytl::make_span(base, X), base, 0, 0, X); hugeRec("whole", nytl::make_span(base, base + X), base, 0, 0, X);
	hugeRec("whole", span<int>(base, base + X), base, 0, 0, X); hugeRec("whole", span<int, X>(base, base + X), base, 0, 0, X);
	struct C1 { int* d; size_t s; int* data() const { return d; } size_t size() const { return s; } using value_type = int; } c{base, X};
	hugeRec("whole", span<int>(c), base, 0, 0, X); hugeRec("whole", nytl::make_span(c), base, 0, 0, X);
}
void huge() {
	auto b = (int*) 0x100000000000ull;
	hugeStatic<300, 260, 30>(b); hugeStatic<300, 10, 257>(b); hugeStatic<70000, 65536, 4000>(b); hugeStatic<70000, 100, 65537>(b); hugeStatic<1000, 256, 256>(b); hugeStatic<128, 127, 1>(b); hugeStatic<256, 0, 256>(b); hugeStatic<65536, 1, 65535>(b);
	hugeStatic<5000000000, 4294967296, 7>(b); hugeStatic<5000000000, 3, 4294967297>(b); hugeStatic<4294967296, 4294967295, 1>(b); hugeStatic<3000000000, 2147483648, 5>(b); hugeStatic<3000000000, 5, 2147483648>(b); hugeStatic<17179869184, 4294967296, 8589934592>(b);
}

// which conversions are allowed
struct Base { int a; }; struct Derived : Base { };
template<typename D, typename Src> void can(const char* kind, const char* elem, bool cst, long ext, const char* to) {
	// whether making elements of a constant container mutable is rejected by the constraints or later on is not specified
	if(std::string(kind) == "vector" && cst && !std::is_const_v<typename D::element_type> && !std::string(elem).compare(to)) return;
	Rec r("can"); r("kind", kind)("elem", elem)("const", cst)("ext", ext)("to", to)("toconst", std::is_const_v<typename D::element_type>)("toext", (long) (D::extent == nytl::dynamic_extent ? -1 : (long) D::extent))
		("res", std::is_constructible_v<D, Src>)("assign", std::is_assignable_v<D&, Src>)("implicit", std::is_convertible_v<Src, D>);
	out.next(); out.write(r);
}
template<typename D> void canTo(const char* to) {
	can<D, const span<int>&>("span", "int", false, -1, to); can<D, const span<const int>&>("span", "int", true, -1, to); can<D, const span<int, 3>&>("span", "int", false, 3, to); can<D, const span<const int, 3>&>("span", "int", true, 3, to);
	can<D, const span<int, 0>&>("span", "int", false, 0, to); can<D, const span<long>&>("span", "long", false, -1, to); can<D, const span<Derived>&>("span", "Derived", false, -1, to); can<D, const span<const long, 4>&>("span", "long", true, 4, to);
	can<D, const span<Base>&>("span", "Base", false, -1, to); can<D, const span<Derived, 3>&>("span", "Derived", false, 3, to); can<D, const span<int, 4>&>("span", "int", false, 4, to);
	can<D, span<int, 4>&>("span", "int", false, 4, to); can<D, span<const int>>("span", "int", true, -1, to);
	can<D, std::vector<int>&>("vector", "int", false, -1, to); can<D, const std::vector<int>&>("vector", "int", true, -1, to); can<D, std::vector<long>&>("vector", "long", false, -1, to); can<D, std::vector<Derived>&>("vector", "Derived", false, -1, to);
	can<D, const std::vector<Base>&>("vector", "Base", true, -1, to); can<D, std::vector<Base>&>("vector", "Base", false, -1, to); can<D, const std::vector<long>&>("vector", "long", true, -1, to);
	can<D, const std::initializer_list<int>&>("vector", "int", true, -1, to); can<D, const std::string&>("vector", "char", true, -1, to); can<D, std::string&>("vector", "char", false, -1, to); can<D, std::array<long, 3>&>("array", "long", false, 3, to); can<D, std::array<Derived, 3>&>("array", "Derived", false, 3, to); can<D, const std::array<Derived, 3>&>("array", "Derived", true, 3, to);
	can<D, int>("none", "int", false, -1, to); can<D, std::map<int, int>&>("none", "int", false, -1, to); can<D, std::string_view>("vector", "char", true, -1, to);
}
void conversions() {
	canTo<span<int>>("int"); canTo<span<const int>>("int"); canTo<span<int, 3>>("int"); canTo<span<const int, 3>>("int"); canTo<span<int, 0>>("int"); canTo<span<const long>>("long"); canTo<span<long, 4>>("long"); canTo<span<Base>>("Base"); canTo<span<const Base>>("Base"); canTo<span<const char>>("char"); canTo<span<char, 3>>("char");
}

// spans of empty memory
template<typename S> void voidRec(const char* what, S s, bool stat) {
	int n = 0; for(auto& x : s) { (void) x; ++n; } for(auto it = s.rbegin(); it != s.rend(); ++it) ++n;
	Rec r("void"); r("what", what)("static", stat)("ext", ext(S::extent))("size", (long) s.size())("empty", s.empty())("n", n)("bytes", (long) nytl::as_bytes(s).size())("byteext", ext(decltype(nytl::as_bytes(s))::extent))
		("subs", std::vector<int>{(int) s.first(0).size(), (int) s.last(0).size(), (int) s.subspan(0).size(), (int) s.subspan(0, 0).size(), (int) s.template first<0>().size(), (int) s.template last<0>().size(), (int) s.template subspan<0>().size(), (int) s.template subspan<0, 0>().size()});
	out.next(); out.write(r);
}
template<typename E> void voids() {
	using T = std::remove_const_t<E>;
	std::array<T, 0> a; const std::array<T, 0> ca {}; std::vector<T> v; v.reserve(3); const std::vector<T> cv; std::basic_string<char> str;
	voidRec("array", span<E>(a), false); voidRec("array", span<E, 0>(a), true); voidRec("array", nytl::make_span(a), false);
	voidRec("const array", span<const T>(a), false); voidRec("const array", span<const T>(ca), false); voidRec("const array", span<const T, 0>(ca), true); voidRec("const array", nytl::make_span(ca), false);
	voidRec("vector", span<E>(v), false); voidRec("vector", span<E, 0>(v), true); voidRec("vector", span<const T>(cv), false); voidRec("vector", nytl::make_span(v), false); voidRec("vector", nytl::make_span(cv), false);
	voidRec("pointer", span<E>((E*) nullptr, (std::size_t) 0), false); voidRec("pointer", span<E, 0>((E*) nullptr, (std::size_t) 0), true); voidRec("pointer", span<E>((E*) nullptr, (E*) nullptr), false);
	voidRec("default", span<E>(), false); voidRec("default", span<const T>(span<E>()), false); voidRec("default", span<const T, 0>(span<E>()), true);
	voidRec("string", span<const char>(str), false); voidRec("list", span<const T>(std::initializer_list<T>{}), false);
}

// numbers that aren't one (-1) are neither equal to themselves nor ordered
template<typename T, std::size_t X> void nanRec(T* p, int n, T* q, int m) {
	std::vector<int> a, b; for(int i = 0; i < n; ++i) a.push_back(p[i] == p[i] ? (int) p[i] : -1); for(int i = 0; i < m; ++i) b.push_back(q[i] == q[i] ? (int) q[i] : -1);
	auto put = [&](auto s, auto t) { Rec r("nan"); r("a", a)("b", b)("eq", s == t)("ne", s != t)("lt", s < t)("gt", s > t); out.next(); out.write(r); };
	put(span<T>(p, n), span<T>(q, m)); put(span<const T>(p, n), span<const T>(q, m));
	if constexpr(X != dyn) if(n == m && n == X) put(span<T, X>(p, n), span<T, X>(q, m));
}
template<typename T> void nans() {
	T x[6], y[6]; T none = std::numeric_limits<T>::quiet_NaN();
	for(int k = 0; k < (thorough ? 4000 : 300); ++k) {
		int many = rnd(0, 3); for(int i = 0; i < 6; ++i) { x[i] = rnd(0, 6) < many ? none : (T) rnd(1, 2); y[i] = rnd(0, 2) ? x[i] : rnd(0, 6) < many ? none : (T) rnd(1, 2); }
		int o = rnd(0, 3), n = rnd(0, 6 - o), u = rnd(0, 1) ? o : rnd(0, 3), m = u == o && rnd(0, 1) ? n : rnd(0, 6 - u);
		nanRec<T, dyn>(x + o, n, x + u, m); nanRec<T, dyn>(x + o, n, y + u, m); nanRec<T, 3>(x + o, 3, x + o, 3); nanRec<T, 3>(x + o, 3, y + o, 3);
	}
}

template<typename E> void run() {
	Driver<E> d; d.all();
	for(int i = 0; i < (thorough ? 1500 : 120); ++i) d.walk(40);
}
int main(int argc, char** argv) {
	init(argc, argv);
	std::string part = opt["--part"];
	if(part == "1") { run<int>(); strings<char>(); strings<wchar_t>(); }
	else if(part == "2") run<const int>();
	else if(part == "3") { run<unsigned char>(); strings<char16_t>(); }
	else { huge(); conversions(); nans<float>(); nans<double>(); voids<int>(); voids<const int>(); voids<Big>(); run<Big>(); strings<char32_t>(); }
	out.close(opt["--name"]);
}

// Records executions of nytl/flags.hpp for spec/FlagsTrace.tla
#include "trace.hpp"
#include <nytl/flags.hpp>
#include <type_traits>
using namespace tr;
using nytl::Flags;
typedef std::vector<int> Bs;

enum class E8 : std::uint8_t { none = 0, a = 1, b = 2, c = 4, h = 128 }; NYTL_FLAG_OPS(E8)
enum class E16 : std::uint16_t { none = 0, a = 1, b = 2, h = 32768 }; NYTL_FLAG_OPS(E16)
enum class E32 : std::uint32_t { none = 0, a = 1, h = 1u << 31 }; NYTL_FLAG_OPS(E32)
enum class E64 : std::uint64_t { none = 0, a = 1, m = 1ull << 32, h = 1ull << 63 }; NYTL_FLAG_OPS(E64)
enum class S8 : std::int8_t { none = 0, a = 1 }; NYTL_FLAG_OPS(S8)
enum class S32 : int { none = 0, a = 1 }; NYTL_FLAG_OPS(S32)
enum class S64 : long long { none = 0, a = 1 }; NYTL_FLAG_OPS(S64)
enum class EC : char { none = 0, a = 1 }; NYTL_FLAG_OPS(EC)
namespace foo { enum class Nested : std::uint32_t { x = 1, y = 2 }; NYTL_FLAG_OPS(Nested) }
enum Unscoped : unsigned { ua = 1, ub = 2 }; // scoped ops only, without the macro

template<typename U> Bs bitsOf(U v, int width) { Bs r; for(int i = 0; i < width; ++i) if((((std::uint64_t) v) >> i) & 1) r.push_back(i); 
	// bits above the width: sign extension only
	return r; }

template<typename T, typename U> struct Driver {
	using F = Flags<T, U>;
	static constexpr int width = 8 * sizeof(U);
	static constexpr int twidth = 8 * sizeof(std::underlying_type_t<T>);
	static constexpr bool def = std::is_same_v<F, Flags<T>>;
	F f[4];
	Bs b(const F& x) const { return bitsOf(x.value(), width); }
	static T bit(int i) { return (T) (std::underlying_type_t<T>) (1ull << i); }
	// a value of the enumeration (mostly single bits) within both types
	static T any() { int w = width < twidth ? width : twidth; int k = rnd(0, 9);
		// the values of negative numbers aren't the same in wider types
		bool sg = std::is_signed_v<std::underlying_type_t<T>> && width > twidth;
		if(k < 7) return bit(rnd(0, w - 1 - sg));
		if(k == 7) return (T) 0;
		std::uint64_t x = ((std::uint64_t) rng() << 32) | rng(); if(w < 64) x &= (1ull << w) - 1; if(sg) x &= ~(1ull << (w - 1));
		return (T) (std::underlying_type_t<T>) x; }
	static Bs tb(T t) { return bitsOf((U) (std::underlying_type_t<T>) t, width); }
	void emit(Rec& r) {
		std::string a = "[", c = "[";
		for(int i = 1; i < 4; ++i) { U u = f[i]; if(i > 1) { a += ","; c += ","; } a += val(bitsOf(u, width)); c += val(b(f[i])); if(f[i].value_ != f[i].value()) c += ",[-1]"; }
		r.raw("regs", a + "]").raw("raw", c + "]"); out.write(r);
	}
	void reset() { for(auto& x : f) x = F(); out.balance(); Rec r("reset"); r("width", width); emit(r); }
	void inplace(int op, int r, int s) { Rec rec("inplace"); rec("fn", op == 0 ? "or" : op == 1 ? "and" : "xor")("r", r);
		F* res; if(s) { rec("s", s); res = op == 0 ? &(f[r] |= f[s]) : op == 1 ? &(f[r] &= f[s]) : &(f[r] ^= f[s]); }
		else { T t = any(); rec("v", tb(t)); res = op == 0 ? &(f[r] |= t) : op == 1 ? &(f[r] &= t) : &(f[r] ^= t); }
		if(res != &f[r]) rec("r", -1);
		emit(rec); }
	void bin(int op, int kind, int r, int s) {
		Rec rec("bin"); rec("fn", op == 0 ? "or" : op == 1 ? "and" : "xor"); T x = any(), y = any();
		Bs res;
		const F &a = f[r], &c = f[s];
		#define OPS(A, B) (op == 0 ? b((A) | (B)) : op == 1 ? b((A) & (B)) : b((A) ^ (B)))
		if(kind == 0) { rec("rx", r)("ry", s); res = OPS(a, c); }
		else if(kind == 1) { rec("rx", r)("y", tb(y)); res = OPS(a, y); }
		else if constexpr(def) {
			if(kind == 2) { rec("x", tb(x))("ry", s); res = OPS(x, c); }
			else { rec("x", tb(x))("y", tb(y)); res = OPS(x, y); }
		} else { rec("rx", r)("ry", s); res = OPS(a, c); }
		rec("kind", kind)("res", res); emit(rec);
	}
	void cmp(int kind, int r, int s) {
		Rec rec("cmp"); 
		if(kind == 0) { rec("rx", r)("ry", s)("eq", f[r] == f[s])("ne", f[r] != f[s]); }
		else { T y = any(); if(kind == 2) { f[r] = y; Rec q("set"); q("r", r)("v", tb(y)); emit(q); } rec("rx", r)("y", tb(y))("eq", f[r] == F(y))("ne", f[r] != F(y)); }
		emit(rec);
	}
	void step() {
		int r = rnd(1, 3), s = rnd(1, 3), k = rnd(0, 13);
		if(k == 0) { Rec q("default"); q("r", r); f[r] = F {}; emit(q); }
		else if(k == 1) { T t = any(); Rec q("set"); q("r", r)("v", tb(t)); if(rnd(0, 1)) f[r] = t; else f[r] = F(t); emit(q); }
		else if(k == 2) { T t = any(); Rec q("inv"); q("r", r)("v", tb(t)); f[r] = F(nytl::invertFlags, t); emit(q); }
		else if(k == 3) { Rec q("copy"); q("r", r)("s", s); if(rnd(0, 1)) f[r] = f[s]; else { F c(f[s]); f[r] = c; } emit(q); }
		else if(k < 7) inplace(rnd(0, 2), r, rnd(0, 3));
		else if(k < 10) bin(rnd(0, 2), rnd(0, 3), r, s);
		else if(k == 10) cmp(rnd(0, 2), r, s);
		else if(k == 11) { T t = any(); if constexpr(def) { Rec q("not"); q("x", tb(t))("res", b(~t)); emit(q); } }
		else if(k == 12) { Rec q("test"); q("rx", r)("res", f[r] ? true : false); emit(q); }
		else { T t = any(); if(rnd(0, 3) == 0) t = bit(width > twidth ? 0 : width - 1 < twidth - 1 ? width - 1 : twidth - 1);
			F tmp = f[r]; tmp &= t; Rec q("bin"); q("fn", "and")("rx", r)("y", tb(t))("res", b(tmp)); emit(q); }
	}
	void all() { // all operations on few bits
		int w = width < twidth ? width : twidth; int hi = w - 1 - (std::is_signed_v<std::underlying_type_t<T>> && width > twidth);
		const int pos[3] = {0, 1, hi};
		auto mk = [&](int m) { F x; for(int i = 0; i < 3; ++i) if(m >> i & 1) x |= bit(pos[i]); return x; };
		reset();
		for(int m = 0; m < 8; ++m) for(int n = 0; n < 8; ++n) {
			for(int i = 1; i < 3; ++i) { // build with the recorded operations
				Rec q("default"); q("r", i); f[i] = F {}; emit(q);
				for(int k = 0; k < 3; ++k) if((i == 1 ? m : n) >> k & 1) { Rec o("inplace"); o("fn", "or")("r", i)("v", tb(bit(pos[k]))); f[i] |= bit(pos[k]); emit(o); }
			}
			for(int op = 0; op < 3; ++op) { bin(op, 0, 1, 2); bin(op, 0, 1, 1); bin(op, 1, 1, 2); bin(op, 2, 1, 2); }
			cmp(0, 1, 2); cmp(0, 1, 1);
			for(int op = 0; op < 3; ++op) { Rec q("copy"); q("r", 3)("s", 1); f[3] = f[1]; emit(q); inplace(op, 3, 2); inplace(op, 3, 3); }
		}
		for(int i = 0; i <= hi; ++i) { T t = bit(i); Rec q("inv"); q("r", 1)("v", tb(t)); f[1] = F(nytl::invertFlags, t); emit(q);
			if constexpr(def) { Rec q("not"); q("x", tb(t))("res", b(~t)); emit(q); }
			Rec o("set"); o("r", 2)("v", tb(t)); f[2] = t; emit(o); cmp(0, 1, 2); cmp(1, 2, 1); }
	}
	void run() {
		all();
		for(int i = 0; i < (thorough ? 400 : 25); ++i) { reset(); for(int k = 0; k < 40; ++k) step(); }
	}
};
// usable in constant expressions
static_assert((E8::a | E8::b).value() == 3 && ((E8::a | E8::b) & E8::b) == E8::b && (E8::a | (E8::b | E8::c)).value() == 7 && (~E8::h).value() == 127, "");
int main(int argc, char** argv) {
	init(argc, argv);
	Driver<E8, std::uint8_t>().run(); Driver<E16, std::uint16_t>().run(); Driver<E32, std::uint32_t>().run(); Driver<E64, std::uint64_t>().run();
	Driver<S8, std::int8_t>().run(); Driver<S32, int>().run(); Driver<S64, long long>().run(); Driver<EC, char>().run(); Driver<foo::Nested, std::uint32_t>().run();
	Driver<E8, std::uint64_t>().run(); Driver<E64, std::uint8_t>().run(); Driver<E32, std::uint64_t>().run(); Driver<S8, int>().run(); Driver<E64, unsigned>().run();
	out.close(opt["--name"]);
}

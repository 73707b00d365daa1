// Records executions of nytl/bytes.hpp for spec/BytesTrace.tla
struct AssertFailed {};
#define NYTL_BYTES_ASSERT(x) if(!(x)) { throw AssertFailed {}; }
#include "trace.hpp"
#include <nytl/bytes.hpp>
#include <nytl/vec.hpp>
#include <array>
#include <memory>
#include <string>
using namespace tr;
using nytl::ReadBuf; using nytl::WriteBuf; using nytl::DynWriteBuf;
typedef std::vector<int> Bs;
namespace {

constexpr int guard = 8, N = 40;
static std::byte small_[N + 2 * guard], large_[3000];
static std::byte* mem = small_; static size_t memSize = sizeof(small_);
static WriteBuf w(mem, (size_t) 0);
static ReadBuf r(mem, (size_t) 0);
static bool rdyn = false;
static DynWriteBuf dyn;

template<typename P> Bs dump(const P* p, size_t n) { Bs r; auto b = (const unsigned char*) p; for(size_t i = 0; i < n; ++i) r.push_back(b[i]); return r; }
static void fill(void* p, size_t n) { auto b = (unsigned char*) p; for(size_t i = 0; i < n; ++i) b[i] = (unsigned char) rnd(0, 255); }

static void emit(Rec& rec) {
	auto rb = rdyn ? (const std::byte*) dyn.data() : mem;
	auto lim = [](long v) { return (int) (v > 1000000 || v < -1000000 ? -1000000 : v); };
	rec("mem", dump(mem, memSize))("dyn", dump(dyn.data(), dyn.size()))
		("w", Bs{lim(w.data() - mem), lim(w.data() + w.size() - mem)})
		("r", Bs{rdyn, lim(r.data() - rb), lim(r.data() + r.size() - rb)});
	out.write(rec);
}
static void reset(bool large = false) {
	mem = large ? large_ : small_; memSize = large ? sizeof(large_) : sizeof(small_);
	fill(mem, memSize); dyn.clear(); w = WriteBuf(mem, (size_t) 0); r = ReadBuf(mem, (size_t) 0); rdyn = false;
	out.balance(); Rec rec("reset"); rec("mem", dump(mem, memSize)); out.write(rec);
}
static void newWrite(int b, int n) { w = WriteBuf(mem + b, (size_t) n); Rec rec("newwrite"); rec("b", b)("e", b + n); emit(rec); }
static void newRead(bool d, int b, int n, int how = 0) {
	rdyn = d;
	if(how && d && b == 0) { n = (int) dyn.size(); r = dyn; }
	else if(how && !d) { WriteBuf x(mem + b, (size_t) n); r = x; }
	else r = ReadBuf((d ? dyn.data() : mem) + b, (size_t) n);
	Rec rec("newread"); rec("src", d ? "dyn" : "mem")("b", b)("e", b + n); emit(rec);
}
template<typename F> bool attempt(F f) { try { f(); return true; } catch(const AssertFailed&) { return false; } }

// where: 0 fixed, 1 dynamic buffer
template<typename F> void doWrite(const char* kind, bool d, const Bs& bs, F f) {
	bool ok = attempt([&]{ f(); });
	if(d && rdyn) { rdyn = false; r = ReadBuf(mem, (size_t) 0); }
	Rec rec(d ? "dynwrite" : "write"); rec("kind", kind)("bs", bs)("ok", ok); emit(rec);
}
template<typename T> void writeObj(const char* kind, bool d, const T& o, const void* p, size_t n) {
	if(d) doWrite(kind, d, dump(p, n), [&]{ nytl::write(dyn, o); });
	else doWrite(kind, d, dump(p, n), [&]{ nytl::write(w, o); });
}
template<typename F> void doRead(const char* kind, const void* target, size_t n, F f, const char* op = "read", bool exact = false) {
	Bs old = dump(target, n);
	bool ok = attempt([&]{ f(); });
	Rec rec(op); rec("kind", kind)("n", (int) n)("old", old)("new", dump(target, n))("ok", ok)("exact", exact); emit(rec);
}
static void skipW(long n) { bool ok = attempt([&]{ nytl::skip(w, (size_t) n); }); Rec rec("skipw"); rec("n", (int) n)("ok", ok); emit(rec); }
static void skipR(long n) { bool ok = attempt([&]{ nytl::skip(r, (size_t) n); }); Rec rec("skipr"); rec("n", (int) n)("ok", ok); emit(rec); }

struct Pod { int a; float b; short c, d; };
struct Small { char c; char d; char e; };
struct Empty {};
struct Other { int x; }; // prohibited, see below
struct Large { unsigned char c[300]; };
struct Owner { std::string s; }; struct Virtual { virtual ~Virtual() = default; int x; };
struct Mixed { int a; private: int b; }; // no standard layout
struct Copied { int a; Copied() = default; Copied(const Copied& o) : a(o.a) {} };
} namespace nytl { template<> struct ProhibitByteConversion<Other> : public std::true_type {}; }
namespace {
enum class En : short { a = 3, b = 700 };

template<typename V> void view(const char* kind, V v, const void* p, size_t n) {
	Rec rec("view");
	auto off = (const char*) v.data() - (const char*) p; if(v.data() == nullptr && n == 0) off = 0; if(n == 0) off = 0;
	Bs before = dump(p, n), content = dump(v.data(), v.size() < 2000 ? v.size() : 2000), wrote, modified;
	if constexpr(!std::is_const_v<typename V::element_type>) {
		for(size_t i = 0; i < v.size() && i < 2000; ++i) { int x = rnd(0, 1); v[i] = (std::byte) x; wrote.push_back(x); }
		modified = dump(p, n);
	}
	rec("kind", kind)("size", (int) v.size())("expected", (int) n)("off", (int) off)("content", content)("bs", before)("wrote", wrote)("modified", modified); out.write(rec);
}

template<typename T> void objOps(const char* kind, int what, bool d) {
	T o; fill(&o, sizeof(o));
	switch(what) {
		case 0: writeObj(kind, d, o, &o, sizeof(o)); break;
		case 1: doRead(kind, &o, sizeof(o), [&]{ o = nytl::read<T>(r); }); break;
		case 2: doRead(kind, &o, sizeof(o), [&]{ nytl::read(r, o); }); break;
		case 3: doRead(kind, &o, sizeof(o), [&]{ o = nytl::copy<T>(r); }, "copy"); break;
		case 4: doRead(kind, &o, sizeof(o), [&]{ o = nytl::copyExact<T>(r); }, "copy", true); break;
		case 5: doRead(kind, &o, sizeof(o), [&]{ nytl::read(r, nytl::bytes(o)); }); break;
		case 6: doRead(kind, &o, sizeof(o), [&]{ nytl::copy(r, nytl::bytes(o)); }, "copy", true); break;
		case 7: { const T& c = o; view(kind, nytl::bytes(o), &o, sizeof(o)); view(kind, nytl::bytes(c), &o, sizeof(o)); break; }
		case 8: if(d) doWrite(kind, d, dump(&o, sizeof(o)), [&]{ nytl::write(dyn, nytl::bytes(std::as_const(o))); });
			else doWrite(kind, d, dump(&o, sizeof(o)), [&]{ nytl::write(w, nytl::bytes(std::as_const(o))); }); break;
		case 9: if(d) doWrite(kind, d, dump(&o, sizeof(o)), [&]{ nytl::write(dyn, nytl::bytes(o)); });
			else doWrite(kind, d, dump(&o, sizeof(o)), [&]{ nytl::write(w, nytl::bytes(o)); }); break;
		case 10: if constexpr(std::is_scalar_v<T>) { if(d) doWrite(kind, d, dump(&o, sizeof(o)), [&]{ nytl::write<T>(dyn, o); }); else doWrite(kind, d, dump(&o, sizeof(o)), [&]{ nytl::write<T>(w, o); }); } break;
	}
}
template<typename T> void arrOps(const char* kind, int what, bool d) { // C array
	T o[3]; fill(o, sizeof(o));
	switch(what) {
		case 0: writeObj(kind, d, o, o, sizeof(o)); break;
		case 2: doRead(kind, o, sizeof(o), [&]{ nytl::read(r, o); }); break;
		case 5: doRead(kind, o, sizeof(o), [&]{ nytl::read(r, nytl::bytes(o)); }); break;
		case 6: doRead(kind, o, sizeof(o), [&]{ nytl::copy(r, nytl::bytes(o)); }, "copy", true); break;
		case 7: { auto& c = std::as_const(o); view(kind, nytl::bytes(o), o, sizeof(o)); view(kind, nytl::bytes(c), o, sizeof(o)); break; }
		default: break;
	}
}
// vectors, spans, initializer lists
template<typename T> void seqOps(const char* kind, int what, bool d, int n, int cont) {
	std::vector<T> o((size_t) n); fill(o.data(), n * sizeof(T)); const std::vector<T>& c = o; size_t z = n * sizeof(T); void* p = o.data();
	auto wr = [&](const auto& x) { writeObj(kind, d, x, p, z); };
	auto rd = [&](auto& x) { doRead(kind, p, z, [&]{ nytl::read(r, x); }); };
	if(what == 0 || what == 8) switch(cont) {
		case 0: wr(c); break;
		case 1: { nytl::span<T> s(o); wr(s); break; }
		case 2: { nytl::span<const T> s(c); wr(s); break; }
		case 3: if(n == 3) { nytl::span<T, 3> s(o.data(), (size_t) 3); wr(s); } break;
		case 4: if(n == 3) { std::initializer_list<T> l {o[0], o[1], o[2]}; wr(l); } break;
		case 5: if(n == 3) { nytl::span<const T, 3> s(o.data(), (size_t) 3); wr(s); } break;
		case 6: { if(d) doWrite(kind, d, dump(p, z), [&]{ nytl::write(dyn, ReadBuf((const std::byte*) p, z)); }); else doWrite(kind, d, dump(p, z), [&]{ nytl::write(w, ReadBuf((const std::byte*) p, z)); }); break; }
		case 7: { WriteBuf b((std::byte*) p, z); wr(b); break; }
		case 8: { ReadBuf b((const std::byte*) p, z); wr(b); break; }
	}
	if(what == 2 || what == 1) switch(cont) {
		case 0: rd(o); break;
		case 1: { nytl::span<T> s(o); rd(s); break; }
		case 3: if(n == 3) { nytl::span<T, 3> s(o.data(), (size_t) 3); rd(s); } break;
		case 7: doRead(kind, p, z, [&]{ nytl::read(r, WriteBuf((std::byte*) p, z)); }); break;
		case 8: { WriteBuf b((std::byte*) p, z); doRead(kind, p, z, [&]{ nytl::read(r, b); }); break; }
	}
	if(what == 6 || what == 3) switch(cont) {
		case 0: doRead(kind, p, z, [&]{ nytl::copy(r, nytl::bytes(o)); }, "copy", true); break;
		case 1: doRead(kind, p, z, [&]{ nytl::copy(r, nytl::bytes(nytl::span<T>(o))); }, "copy", true); break;
		case 7: doRead(kind, p, z, [&]{ nytl::copy(r, WriteBuf((std::byte*) p, z)); }, "copy", true); break;
	}
	if(what == 7) switch(cont) {
		case 0: view(kind, nytl::bytes(o), p, z); view(kind, nytl::bytes(c), p, z); break;
		case 1: view(kind, nytl::bytes(nytl::span<T>(o)), p, z); break;
		case 2: view(kind, nytl::bytes(nytl::span<const T>(o)), p, z); break;
		case 3: if(n == 3) { view(kind, nytl::bytes(nytl::span<T, 3>(o.data(), (size_t) 3)), p, z); } break;
		case 5: if(n == 3) { view(kind, nytl::bytes(nytl::span<const T, 3>(o.data(), (size_t) 3)), p, z); } break;
	}
}
constexpr int kinds = 18, whats = 11;
static void op(int kind, int what, bool d, int n, int cont) {
	switch(kind) {
		case 0: objOps<unsigned char>("u8", what, d); break;
		case 1: objOps<short>("i16", what, d); break;
		case 2: objOps<int>("i32", what, d); break;
		case 3: objOps<unsigned long long>("u64", what, d); break;
		case 4: objOps<Pod>("pod", what, d); break;
		case 5: objOps<Small>("small", what, d); break;
		case 6: objOps<std::array<short, 3>>("stdarray", what, d); break;
		case 7: objOps<En>("enum", what, d); break;
		case 8: objOps<nytl::Vec<3, int>>("vec3", what, d); break;
		case 9: objOps<nytl::Vec<2, unsigned char>>("vec2", what, d); break;
		case 10: arrOps<int>("carray", what, d); break;
		case 11: arrOps<char>("carray", what, d); break;
		case 12: objOps<std::byte>("byte", what, d); break;
		case 13: seqOps<int>("seq", what, d, n, cont); break;
		case 14: seqOps<unsigned char>("seq", what, d, n, cont); break;
		case 15: seqOps<Small>("seq", what, d, n, cont); break;
		case 16: seqOps<std::array<short, 2>>("seq", what, d, n, cont); break;
		case 17: seqOps<double>("seq", what, d, n, cont); break;
	}
}
// digits base 2^20
static std::vector<int> pair(unsigned long long v) { return {(int) (v >> 20), (int) (v & 0xFFFFF)}; }
// sizes above 32 bits: the memory is never accessed
static void huge() {
	auto base = (std::byte*) 0x100000000000ull;
	auto sizes = std::vector<unsigned long long> {0, 1, 300, 0x10000, 0x7FFFFFFF, 0x80000000ull, 0xFFFFFFFFull, 0x100000000ull, 0x100000001ull, 5000000000ull, 0x1FFFFFFFFull, 0x20000000005ull};
	for(int d = 0; d < 2; ++d) for(auto n : sizes) for(auto k : sizes) {
		WriteBuf wb(base, (size_t) n); ReadBuf rb(base, (size_t) n); bool ok;
		if(d) ok = attempt([&]{ nytl::skip(wb, (size_t) k); }); else ok = attempt([&]{ nytl::skip(rb, (size_t) k); });
		const std::byte* p = d ? wb.data() : rb.data();
		Rec rec("huge"); rec("size", pair(n))("n", pair(k))("ok", ok)("left", pair(d ? wb.size() : rb.size()))("at", pair((unsigned long long) (p - base))); out.write(rec);
	}
	for(auto n : sizes) { // more than the buffer has, far more
		std::byte b[4] {};
		for(auto k : {~0ull, ~0ull - 3, 1ull << 63, 0x100000000ull + n % 5, 0x100000004ull}) {
			WriteBuf wb(b, (size_t) (n % 5)); ReadBuf rb = wb;
			bool okw = attempt([&]{ nytl::skip(wb, (size_t) k); }), okr = attempt([&]{ nytl::skip(rb, (size_t) k); }), okx = attempt([&]{ WriteBuf src(b, (size_t) k); nytl::copy(rb, src); }),
				oky = attempt([&]{ WriteBuf dst(b, (size_t) k); nytl::read(rb, dst); }), okz = attempt([&]{ ReadBuf src(b, (size_t) k); nytl::write(wb, src); });
			Rec rec("toomuch"); rec("left", std::vector<int>{(int) wb.size(), (int) rb.size()})("size", (int) (n % 5))("ok", std::vector<bool>{okw, okr, okx, oky, okz}); out.write(rec);
		}
	}
}
// long buffers: n objects of the same size with contents that follow from their number; some bytes of the result
template<size_t S> struct Block { unsigned char c[S]; };
constexpr int longByte(long i, long j) { return (int) ((i * 7 + (i >> 8) * 31 + j * 13 + 5) & 255); }
template<size_t S> Block<S> block(long i) { Block<S> r; for(size_t j = 0; j < S; ++j) r.c[j] = (unsigned char) longByte(i, (long) j); return r; }
static void longSamples(Rec& rec, const char* name, const std::byte* p, size_t size) {
	std::vector<Bs> at; size_t last = ~size_t(0);
	auto add = [&](size_t i) { if(i < size && i != last) { at.push_back({(int) i, (int) p[i]}); last = i; } };
	for(size_t i = 0; i < size; i += 1 + (size_t) rnd(0, 1500)) add(i);
	for(size_t c : {size_t(256), size_t(32768), size_t(65536), size_t(131072), size}) for(size_t i = c < 6 ? 0 : c - 6; i < c + 6; ++i) add(i);
	rec(name, at);
}
// how: 0 single objects, 1 all as one sequence, 2 pieces of different length
template<size_t S> void longOps(bool d, int n, int how, int off) {
	std::vector<Block<S>> o; for(int i = 0; i < n; ++i) o.push_back(block<S>(i));
	nytl::DynWriteBuf db; std::vector<std::byte> area(n * S + (size_t) off + 16, std::byte(77)); WriteBuf wb(area.data() + off, n * S + 8);
	auto put = [&](const auto& x) { if(d) nytl::write(db, x); else nytl::write(wb, x); };
	Rec rec("long"); rec("s", (int) S)("n", n)("dyn", d);
	bool ok = attempt([&]{
		if(how == 0) for(auto& x : o) put(x);
		else if(how == 1) put(o);
		else for(int i = 0; i < n;) { int k = std::min(n - i, rnd(1, n / 3 + 1)); nytl::span<const Block<S>> sp(o.data() + i, (size_t) k); put(sp); i += k; }
	});
	auto base = d ? db.data() : area.data() + off; auto size = d ? db.size() : (size_t) (wb.data() - base);
	rec("ok", ok)("size", (int) size)("left", d ? 8 : (int) wb.size()); longSamples(rec, "wrote", base, size);
	// nothing around the written bytes changes
	bool around = true; if(!d) { for(int i = 0; i < off; ++i) around &= area[(size_t) i] == std::byte(77); for(size_t i = (size_t) off + n * S; i < area.size(); ++i) around &= area[i] == std::byte(77); }
	rec("around", around);
	// read: from another place, independent of what was written
	std::vector<std::byte> src(n * S + (size_t) off); for(int i = 0; i < n; ++i) std::memcpy(src.data() + off + (size_t) i * S, &o[(size_t) i], S);
	ReadBuf rb((const std::byte*) src.data() + off, (size_t) n * S); std::vector<Block<S>> got((size_t) n);
	int skipped = how == 0 ? n / 2 : 0; // in between, an object at a time is skipped
	ok = attempt([&]{
		if(how == 0) for(int i = 0; i < n; ++i) { if(i == skipped) { nytl::skip(rb, S); got[(size_t) i] = o[(size_t) i]; } else if(i % 2) nytl::read(rb, got[(size_t) i]); else got[(size_t) i] = nytl::read<Block<S>>(rb); }
		else if(how == 1) nytl::read(rb, got);
		else for(int i = 0; i < n;) { int k = std::min(n - i, rnd(1, n / 3 + 1)); nytl::span<Block<S>> sp(got.data() + i, (size_t) k); nytl::read(rb, sp); i += k; }
	});
	rec("rok", ok)("rleft", (int) rb.size())("rat", (int) (rb.data() - (src.data() + off))); longSamples(rec, "got", (const std::byte*) got.data(), got.size() * S);
	std::vector<Block<S>> cp((size_t) n); ReadBuf all((const std::byte*) src.data() + off, (size_t) n * S); nytl::copy(all, nytl::bytes(cp)); longSamples(rec, "copied", (const std::byte*) cp.data(), cp.size() * S);
	out.write(rec);
}
static void longs() {
	for(int d = 0; d < 2; ++d) for(int how = 0; how < 3; ++how) {
		longOps<1>(d, 140000 + rnd(0, 9), how, rnd(0, 3)); longOps<4>(d, 20000 + rnd(0, 9), how, rnd(0, 3));
		longOps<7>(d, 10000 + rnd(0, 9), how, rnd(0, 3)); longOps<300>(d, 500 + rnd(0, 9), how, rnd(0, 3)); longOps<70000>(d, 3, how, rnd(0, 3));
		longOps<2>(d, rnd(100, 300), how, 1); longOps<256>(d, rnd(1, 3), how, 1);
		if(thorough) { longOps<1>(d, 20000000, how ? how : 1, 1); longOps<64>(d, 300000, how, 0); }
	}
}
// which types can be converted
template<typename T, typename = void> struct CanBytes : std::false_type {}; template<typename T> struct CanBytes<T, std::void_t<decltype(nytl::bytes(std::declval<const T&>()))>> : std::true_type {};
template<typename T, typename = void> struct CanRead : std::false_type {}; template<typename T> struct CanRead<T, std::void_t<decltype(nytl::read<T>(std::declval<ReadBuf&>()))>> : std::true_type {};
template<typename T, typename = void> struct CanReadTo : std::false_type {}; template<typename T> struct CanReadTo<T, std::void_t<decltype(nytl::read(std::declval<ReadBuf&>(), std::declval<T&>()))>> : std::true_type {};
template<typename T, typename = void> struct CanCopy : std::false_type {}; template<typename T> struct CanCopy<T, std::void_t<decltype(nytl::copy<T>(std::declval<ReadBuf>()))>> : std::true_type {};
template<typename T, typename = void> struct CanExact : std::false_type {}; template<typename T> struct CanExact<T, std::void_t<decltype(nytl::copyExact<T>(std::declval<ReadBuf>()))>> : std::true_type {};
// seq: sequence of values of T; prohibited: by ProhibitByteConversion
template<typename T> void can(const char* name, bool seq, bool trivial, bool layout, bool prohibited) {
	Rec rec("can"); rec("type", name)("seq", seq)("trivial", trivial)("layout", layout)("prohibited", prohibited);
	rec("bytes", CanBytes<T>::value)("into", CanReadTo<T>::value);
	rec("read", CanRead<T>::value)("copy", CanCopy<T>::value)("exact", CanExact<T>::value);
	out.write(rec);
}
} // namespace
int main(int argc, char** argv) {
	init(argc, argv);
	// every operation with every remaining size from 0 to a bit too much
	for(int kind = 0; kind < kinds; ++kind) for(int what = 0; what < whats; ++what) {
		int conts = kind >= 13 ? 9 : 1;
		for(int cont = 0; cont < conts; ++cont) for(int left = 0; left <= (kind == 17 ? 26 : 18); ++left) {
			if(!thorough && left > 10 && left % 3 == 1 && kind < 10 && kind != 4) continue;
			reset(); int b = rnd(guard, guard + N - left); if(left > N) continue;
			newWrite(b, left); newRead(false, b, left, left % 2);
			op(kind, what, false, 3, cont);
			if(conts > 1) op(kind, what, false, left % 5, cont);
			if(what == 0) op(kind, what, true, 3, cont);
		}
	}
	for(int left = 0; left < 6; ++left) for(int n = 0; n < 8; ++n) { reset(); newWrite(guard, left); newRead(false, guard, left); skipW(n); skipR(n); skipW(n); skipR(n); }
	// histories: what was written is read again
	for(int k = 0; k < (thorough ? 6000 : 300); ++k) {
		reset(); int b = rnd(0, 3) ? guard : rnd(guard, guard + N), sz = rnd(0, guard + N - b); bool d = rnd(0, 2) == 0;
		newWrite(b, sz);
		int ops = rnd(1, 10);
		for(int i = 0; i < ops; ++i) { if(rnd(0, 9) == 0) skipW(rnd(0, 5)); else op(rnd(0, kinds - 1), (const int[]){0, 0, 8, 9, 10}[rnd(0, 4)], d, rnd(0, 4), rnd(0, 8)); }
		if(rnd(0, 4) == 0) newRead(d, 0, d ? (int) dyn.size() : (int) memSize, 1); else newRead(d, d ? 0 : b, d ? (int) dyn.size() : (int)(w.data() - (mem + b)), rnd(0, 1));
		ops = rnd(1, 12);
		for(int i = 0; i < ops; ++i) {
			if(rnd(0, 9) == 0) skipR(rnd(0, 6));
			else op(rnd(0, kinds - 1), rnd(1, 7), d, rnd(0, 4), rnd(0, 8));
			if(rnd(0, 9) == 0 && d) { op(rnd(0, kinds - 1), 0, true, rnd(0, 4), rnd(0, 8)); newRead(d, 0, (int) dyn.size(), 1); }
		}
	}
	can<int>("int", false, true, true, false); can<double>("double", false, true, true, false); can<En>("enum", false, true, true, false); can<Pod>("Pod", false, true, true, false);
	can<int*>("pointer", false, true, true, false); can<std::array<int, 3>>("array", false, true, true, false); can<Large>("Large", false, true, true, false); can<nytl::Vec<3, float>>("Vec", false, true, true, false);
	can<Owner>("Owner", false, false, true, false); can<Virtual>("Virtual", false, false, false, false); can<Mixed>("Mixed", false, true, false, false); can<Copied>("Copied", false, false, true, false);
	can<std::string>("string", false, false, true, false); can<Other>("Other", false, true, true, true); can<std::array<Other, 2>>("array<Other>", false, true, true, false);
	can<std::unique_ptr<int>>("unique_ptr", false, false, true, false); can<std::vector<Pod>>("vector<Pod>", true, true, true, false); can<nytl::span<Pod>>("span<Pod>", true, true, true, false); can<nytl::span<Pod, 4>>("span<Pod, 4>", true, true, true, false);
	can<std::vector<Owner>>("vector<Owner>", true, false, true, false); can<nytl::span<Owner>>("span<Owner>", true, false, true, false); can<std::vector<Mixed>>("vector<Mixed>", true, true, false, false); can<nytl::span<Other>>("span<Other>", true, true, true, true);
	can<std::vector<Other>>("vector<Other>", true, true, true, true);
	can<nytl::span<Owner, 4>>("span<Owner, 4>", true, false, true, false); can<nytl::span<Mixed, 1>>("span<Mixed, 1>", true, true, false, false); can<nytl::span<Other, 2>>("span<Other, 2>", true, true, true, true);
	can<nytl::span<const Owner, 4>>("span<const Owner, 4>", true, false, true, false); can<nytl::span<std::string, 0>>("span<string, 0>", true, false, true, false);
	// sequences themselves are no values that could be stored in a sequence
	can<std::vector<nytl::span<int>>>("vector<span<int>>", true, true, true, true); can<std::vector<nytl::span<int, 2>>>("vector<span<int, 2>>", true, true, true, true);
	can<nytl::span<nytl::span<int, 2>>>("span<span<int, 2>>", true, true, true, true); can<nytl::span<nytl::span<int, 2>, 3>>("span<span<int, 2>, 3>", true, true, true, true);
	can<std::initializer_list<Owner>>("list<Owner>", true, false, true, false); can<std::initializer_list<Other>>("list<Other>", true, true, true, true); can<std::initializer_list<nytl::span<int, 2>>>("list<span>", true, true, true, true);
	can<std::vector<std::initializer_list<int>>>("vector<list<int>>", true, true, true, true);
	huge(); longs();
	// large objects and sequences
	for(int k = 0; k < (thorough ? 200 : 24); ++k) {
		reset(true);
		int b = rnd(0, 3000), n = rnd(0, 3) ? 3000 - b : rnd(0, 3000 - b);
		newWrite(b, n);
		for(int i = 0; i < 5; ++i) switch(rnd(0, 3)) {
			case 0: objOps<Large>("large", 0, rnd(0, 1)); break;
			case 1: objOps<std::array<short, 200>>("large", (const int[]){0, 8, 9}[rnd(0, 2)], rnd(0, 1)); break;
			case 2: seqOps<short>("seq", 0, rnd(0, 1), rnd(100, 900), (const int[]){0, 1, 2, 6, 7, 8}[rnd(0, 5)]); break;
			case 3: seqOps<Pod>("seq", 0, rnd(0, 1), rnd(10, 60), (const int[]){0, 1, 2, 6, 7, 8}[rnd(0, 5)]); break;
		}
		bool d = rnd(0, 1); if(d && dyn.size() > 6000) d = false;
		newRead(d, 0, d ? (int) dyn.size() : 3000, 1);
		for(int i = 0; i < 5; ++i) switch(rnd(0, 3)) {
			case 0: objOps<Large>("large", rnd(1, 7), d); break;
			case 1: objOps<std::array<short, 200>>("large", rnd(1, 7), d); break;
			case 2: seqOps<short>("seq", (const int[]){2, 6, 7}[rnd(0, 2)], d, rnd(100, 900), (const int[]){0, 1, 7, 8}[rnd(0, 3)]); break;
			case 3: skipR(rnd(0, 400)); break;
		}
	}
	if(thorough) { reset(); seqOps<short>("seq", 0, true, 40000, 0); newRead(true, 0, (int) dyn.size(), 1); seqOps<short>("seq", 2, true, 35000, 0); }
	// large sizes, far too large skips
	reset(); for(int i = 0; i < 60; ++i) op(rnd(0, kinds - 1), 0, true, rnd(0, 4), rnd(0, 8)); newRead(true, 0, (int) dyn.size(), 1); for(int i = 0; i < 60; ++i) op(rnd(0, 12), 2, true, 3, 0);
	newWrite(guard, 20); newRead(false, guard, 20); skipW(2000000000); skipR(2000000000);
	out.close(opt["--name"]);
}

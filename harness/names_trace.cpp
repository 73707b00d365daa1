// Records what the compiler says about the named types, for spec/NamesTrace.tla
#include <complex>
#include "trace.hpp"
#include <nytl/fwd.hpp>
#include <nytl/fwd/rect.hpp>
#include <nytl/approx.hpp>
#include <nytl/approxVec.hpp>
#include <nytl/callback.hpp>
#include <nytl/clone.hpp>
#include <nytl/connection.hpp>
#include <nytl/flags.hpp>
#include <nytl/mat.hpp>
#include <nytl/matOps.hpp>
#include <nytl/quaternion.hpp>
#include <nytl/rect.hpp>
#include <nytl/recursiveCallback.hpp>
#include <nytl/scope.hpp>
#include <nytl/simplex.hpp>
#include <nytl/span.hpp>
#include <nytl/stringParam.hpp>
#include <nytl/vec.hpp>
#include <nytl/vecOps.hpp>
using namespace tr;
typedef std::vector<int> Dims;
template<typename T> std::string scalar() {
	std::string kind = std::is_same_v<T, bool> ? "bool" : std::is_floating_point_v<T> ? "float" : std::is_signed_v<T> ? "signed" : "unsigned";
	return "[\"" + kind + "\"," + num(sizeof(T)) + "]";
}
// what a type is, by matching templates
template<typename T> struct Is { static constexpr const char* family = "?"; static Dims dims() { return {}; } using Value = char; };
template<size_t D, typename T> struct Is<nytl::Vec<D, T>> { static constexpr const char* family = "Vec"; static Dims dims() { return {D}; } using Value = T; };
template<size_t R, size_t C, typename T> struct Is<nytl::Mat<R, C, T>> { static constexpr const char* family = "Mat"; static Dims dims() { return {R, C}; } using Value = T; };
template<size_t D, typename T> struct Is<nytl::Rect<D, T>> { static constexpr const char* family = "Rect"; static Dims dims() { return {D}; } using Value = T; };
template<size_t D, typename T, size_t A> struct Is<nytl::Simplex<D, T, A>> { static constexpr const char* family = "Simplex"; static Dims dims() { return {D, A}; } using Value = T; };
template<> struct Is<nytl::Quaternion> { static constexpr const char* family = "Quaternion"; static Dims dims() { return {}; } using Value = double; };
template<typename T> Rec& is(Rec& r) {
	using V = typename Is<T>::Value;
	r("family", Is<T>::family)("dims", Is<T>::dims()).raw("value", scalar<V>());
	r("size", sizeof(T))("align", alignof(T))("plain", std::is_trivially_copyable_v<T> && std::is_standard_layout_v<T> && std::is_trivially_destructible_v<T>);
	return r;
}
template<typename T> void alias(const char* name, Dims want, const char* suffix) { Rec r("alias"); r("name", name)("want", want)("suffix", suffix); out.write(is<T>(r)); }
template<typename T> void vecType(int d, const char* s) {
	alias<T>("Vec", {d}, s);
	Rec r("statics"); r("want", Dims {d})("suffix", s)("dims", Dims {(int) T::size()}).raw("value", scalar<std::decay_t<decltype(std::declval<T&>()[0])>>()); out.write(r);
}
template<typename T> void matType(int rows, int cols, const char* s) {
	alias<T>("Mat", {rows, cols}, s);
	Rec r("statics"); r("want", Dims {rows, cols})("suffix", s)("dims", Dims {(int) T::rows(), (int) T::cols()}).raw("value", scalar<std::decay_t<decltype(std::declval<T&>()[0][0])>>()); out.write(r);
}
template<typename T> void rectType(int d, const char* s) {
	alias<T>("Rect", {d}, s);
	Rec r("statics"); r("want", Dims {d})("suffix", s)("dims", Dims {(int) T::dim}).raw("value", scalar<typename T::Value>()); out.write(r);
}
template<typename T> void simplexType(const char* name, int space, const char* suffix) {
	Rec r("simplex"); r("name", name)("space", space)("suffix", suffix); is<T>(r); T t {};
	r("spaceDim", T::spaceDim)("simplexDim", T::simplexDim)("pointCount", T::pointCount)("points", t.points_.size())("same", (const void*) t.points() == (const void*) &t && std::is_same_v<typename T::Precision, typename Is<T>::Value>);
	out.write(r);
}
template<size_t D, typename T> void simplexes(const char* s) {
	simplexType<nytl::Simplex<D, T>>("Simplex", D, s); simplexType<nytl::Line<D, T>>("Line", D, s);
	if constexpr(D >= 2) simplexType<nytl::Triangle<D, T>>("Triangle", D, s);
	if constexpr(D >= 3) simplexType<nytl::Tetrahedron<D, T>>("Tetrahedron", D, s);
	if constexpr(std::is_same_v<T, double>) {
		simplexType<nytl::Simplex<D>>("Simplex", D, s); simplexType<nytl::Line<D>>("Line", D, s);
		if constexpr(D >= 2) simplexType<nytl::Triangle<D>>("Triangle", D, s);
		if constexpr(D >= 3) simplexType<nytl::Tetrahedron<D>>("Tetrahedron", D, s);
	}
}
// scalars and their suffixes
template<int I> struct Sc;
#define SC(i, t, s) template<> struct Sc<i> { using T = t; static constexpr const char* name = s; };
SC(0, float, "f") SC(1, double, "d") SC(2, int, "i") SC(3, unsigned int, "ui") SC(4, bool, "b") SC(5, std::uint8_t, "u8") SC(6, std::uint16_t, "u16") SC(7, std::uint32_t, "u32") SC(8, std::uint64_t, "u64")
SC(9, std::int8_t, "i8") SC(10, std::int16_t, "i16") SC(11, std::int32_t, "i32") SC(12, std::int64_t, "i64")
template<int I> using ST = typename Sc<I>::T;
template<typename T> void deduced(const char* name, std::vector<std::string> types, Dims want) {
	Rec r("deduced"); r("name", name)("types", types)("want", want); out.write(is<T>(r));
}
template<int... I> void deduce() {
	deduced<decltype(nytl::Vec {ST<I> {}...})>("Vec", {Sc<I>::name...}, {sizeof...(I)});
}
template<int A, int... I> void deduce2(std::integer_sequence<int, I...>) {
	(deduced<decltype(nytl::Vec {ST<A> {}, ST<I> {}})>("Vec", {Sc<A>::name, Sc<I>::name}, {2}), ...);
	(deduced<decltype(nytl::Vec {ST<I> {}, ST<A> {}, ST<A> {}})>("Vec", {Sc<I>::name, Sc<A>::name, Sc<A>::name}, {3}), ...);
	ST<A> v {}; const ST<A> c {}; // lvalues
	deduced<decltype(nytl::Vec {v, c})>("Vec", {Sc<A>::name, Sc<A>::name}, {2}); deduced<decltype(nytl::Vec {c, v, v, c})>("Vec", {Sc<A>::name, Sc<A>::name, Sc<A>::name, Sc<A>::name}, {4});
	// vectors of different types are not converted implicitly
	nytl::Vec<3, ST<A>> w {};
	deduced<decltype(nytl::Rect {nytl::Vec<2, ST<A>> {}, nytl::Vec<2, ST<A>> {}})>("Rect", {Sc<A>::name, Sc<A>::name}, {2}); deduced<decltype(nytl::Rect {w, w})>("Rect", {Sc<A>::name, Sc<A>::name}, {3});
}
template<typename T> void use(const char* type) {
	Rec r("use"); r("type", type)("copy", std::is_copy_constructible_v<T>)("copyassign", std::is_copy_assignable_v<T>)("copyvar", std::is_constructible_v<T, T&> && std::is_constructible_v<T, const T&&>)("copyanyvar", std::is_constructible_v<T, T&> || std::is_constructible_v<T, const T&&>)("move", std::is_move_constructible_v<T>)("moveassign", std::is_move_assignable_v<T>);
	r("nothrow", std::is_nothrow_move_constructible_v<T> && std::is_nothrow_move_assignable_v<T>)("bytewise", std::is_trivially_copyable_v<T>)("destroy", std::is_nothrow_destructible_v<T>); out.write(r);
}
// explicit conversions
template<typename T> Rec described(const char* s) { Rec r; r("family", Is<T>::family)("dims", Is<T>::dims())("suffix", s); return r; }
template<typename F, typename T> void cast(const char* fs, const char* ts) {
	Rec r("cast"); r("from", described<F>(fs))("to", described<T>(ts))("implicit", std::is_convertible_v<F, T> || std::is_convertible_v<F&, T> || std::is_convertible_v<const F&, T>)("explicit", std::is_constructible_v<T, const F&>); out.write(r);
}
template<int I, int J> void casts() {
	using A = ST<I>; using B = ST<J>; auto s = Sc<I>::name; auto t = Sc<J>::name; using namespace nytl;
#define CASTS(X, Y) cast<X, Y>(s, t);
#define P(...) __VA_ARGS__
	CASTS(P(Vec<2, A>), P(Vec<2, B>)) CASTS(P(Vec<2, A>), P(Vec<3, B>)) CASTS(P(Vec<3, A>), P(Vec<2, B>)) CASTS(P(Vec<3, A>), P(Vec<3, B>)) CASTS(P(Vec<4, A>), P(Vec<2, B>)) CASTS(P(Vec<4, A>), P(Vec<4, B>)) CASTS(P(Vec<4, A>), P(Vec<3, B>)) CASTS(P(Vec<5, A>), P(Vec<1, B>)) CASTS(P(Vec<1, A>), P(Vec<4, B>)) CASTS(P(Vec<2, A>), P(Vec<5, B>)) CASTS(P(Vec<3, A>), P(Vec<4, B>))
	CASTS(P(Rect<2, A>), P(Rect<2, B>)) CASTS(P(Rect<2, A>), P(Rect<3, B>)) CASTS(P(Rect<3, A>), P(Rect<2, B>)) CASTS(P(Rect<4, A>), P(Rect<4, B>)) CASTS(P(Rect<1, A>), P(Rect<4, B>))
	CASTS(P(Mat<2, 2, A>), P(Mat<2, 2, B>)) CASTS(P(Mat<2, 2, A>), P(Mat<3, 3, B>)) CASTS(P(Mat<3, 2, A>), P(Mat<2, 3, B>)) CASTS(P(Mat<4, 4, A>), P(Mat<3, 3, B>)) CASTS(P(Mat<4, 4, A>), P(Mat<4, 4, B>)) CASTS(P(Mat<1, 4, A>), P(Mat<4, 1, B>))
	CASTS(P(Simplex<2, A, 1>), P(Simplex<2, B, 1>)) CASTS(P(Simplex<2, A, 1>), P(Simplex<3, B, 1>)) CASTS(P(Simplex<3, A, 2>), P(Simplex<2, B, 2>)) CASTS(P(Simplex<3, A, 2>), P(Simplex<3, B, 1>)) CASTS(P(Simplex<3, A, 1>), P(Simplex<3, B, 2>)) CASTS(P(Simplex<3, A, 3>), P(Simplex<4, B, 3>)) CASTS(P(Simplex<2, A, 2>), P(Simplex<3, B, 3>))
}
template<int I, int... J> void castsFrom(std::integer_sequence<int, J...>) { (casts<I, J>(), ...); }
// connections
template<typename T> struct Con;
template<typename C, typename I> struct Con<nytl::ConnectionT<C, I>> { using Connectable = C; using ID = I; static constexpr const char* owner = "ConnectionT"; };
template<typename C, typename I> struct Con<nytl::UniqueConnectionT<C, I>> { using Connectable = C; using ID = I; static constexpr const char* owner = "UniqueConnectionT"; };
template<typename T> struct Source { static constexpr const char* name = "?"; };
template<> struct Source<nytl::ConnectionID> { static constexpr const char* name = "ConnectionID"; };
template<> struct Source<nytl::TrackedConnectionID> { static constexpr const char* name = "TrackedConnectionID"; };
template<typename I> struct Source<nytl::ConnectableT<I>> : Source<I> {};
template<typename T> struct IsConnectable : std::false_type {};
template<typename I> struct IsConnectable<nytl::ConnectableT<I>> : std::true_type {};
template<typename T> void connectable(bool tracked) { Rec r("connectable"); r("tracked", tracked)("source", Source<T>::name)("owner", IsConnectable<T>::value); out.write(r); }
template<typename T> void connection(const char* name, bool tracked, bool unique) {
	using C = Con<T>; T t {};
	Rec r("connection"); r("name", name)("tracked", tracked)("unique", unique)("source", Source<typename C::Connectable>::name)("id", Source<typename C::ID>::name)("owner", C::owner)
		("types", std::is_same_v<decltype(t.connectable()), typename C::Connectable*> && std::is_same_v<std::decay_t<decltype(t.id())>, typename C::ID>); out.write(r);
}
template<typename T> using Added = decltype(std::declval<T&>().add(std::declval<std::function<void()>>()));
struct Kind { bool tracked, unique; };
inline Rec rec(Kind k) { Rec r; r("tracked", k.tracked)("unique", k.unique); return r; }
template<typename F, typename T> void convert(Kind f, Kind t) {
	Rec r("convert"); r("from", rec(f))("to", rec(t))("implicit", std::is_convertible_v<const F&, T>)("moved", std::is_convertible_v<F, T>); out.write(r);
}
template<typename F> void convertFrom(Kind f) {
	convert<F, nytl::Connection>(f, {false, false}); convert<F, nytl::TrackedConnection>(f, {true, false});
	convert<F, nytl::UniqueConnection>(f, {false, true}); convert<F, nytl::TrackedUniqueConnection>(f, {true, true});
}
template<typename T> struct Ext;
template<typename T, std::size_t N> struct Ext<nytl::span<T, N>> { static constexpr std::size_t n = N; };
template<typename T> void extent(bool fixed, int n) {
	Rec r("extent"); r("fixed", fixed)("n", n)("extent", Ext<T>::n < 1000 ? (int) Ext<T>::n : -1)("dynamic", Ext<T>::n == (std::size_t) -1)("same", std::is_same_v<typename T::element_type, int>); out.write(r);
}
enum class E { a = 1, b = 2 };
NYTL_FLAG_OPS(E)
struct F { void operator()() noexcept {} };
struct Cl : nytl::Cloneable<Cl> { int v {}; };
int main(int argc, char** argv) {
	init(argc, argv); using namespace nytl;
#define V(d, s, i) vecType<Vec##d##s>(d, #s); out.next();
#define VD(d, i) alias<Vec##d<ST<i>>>("Vec", {d}, Sc<i>::name); alias<Vec<d, ST<i>>>("Vec", {d}, Sc<i>::name);
#define VALL(s, i) V(2, s, i) V(3, s, i) V(4, s, i) VD(2, i) VD(3, i) VD(4, i)
	VALL(f, 0) VALL(d, 1) VALL(i, 2) VALL(ui, 3) VALL(u8, 5) VALL(u16, 6) VALL(u32, 7) VALL(u64, 8) VALL(i8, 9) VALL(i16, 10) VALL(i32, 11) VALL(i64, 12)
	V(2, b, 4) V(4, b, 4) VD(2, 4) VD(3, 4) VD(4, 4)
#define M(s, i) matType<Mat2##s>(2, 2, #s); matType<Mat3##s>(3, 3, #s); matType<Mat4##s>(4, 4, #s); matType<Mat2<ST<i>>>(2, 2, #s); matType<Mat3<ST<i>>>(3, 3, #s); matType<Mat4<ST<i>>>(4, 4, #s); matType<SquareMat<5, ST<i>>>(5, 5, #s); \
	matType<Mat23<ST<i>>>(2, 3, #s); matType<Mat24<ST<i>>>(2, 4, #s); matType<Mat32<ST<i>>>(3, 2, #s); matType<Mat34<ST<i>>>(3, 4, #s); matType<Mat42<ST<i>>>(4, 2, #s); matType<Mat43<ST<i>>>(4, 3, #s); matType<Mat<1, 5, ST<i>>>(1, 5, #s);
	M(f, 0) M(d, 1) M(i, 2) M(ui, 3)
#define R(s, i) rectType<Rect2##s>(2, #s); rectType<Rect3##s>(3, #s); rectType<Rect4##s>(4, #s); rectType<Rect2<ST<i>>>(2, #s); rectType<Rect3<ST<i>>>(3, #s); rectType<Rect4<ST<i>>>(4, #s); rectType<Rect<5, ST<i>>>(5, #s);
	R(f, 0) R(d, 1) R(i, 2) R(ui, 3)
	simplexes<1, double>("d"); simplexes<2, double>("d"); simplexes<3, double>("d"); simplexes<4, double>("d"); simplexes<2, float>("f"); simplexes<3, float>("f"); simplexes<3, int>("i"); simplexes<5, unsigned>("ui");
	alias<Quaternion>("Quaternion", {}, "d");
	out.next();
	std::make_integer_sequence<int, 13> all {};
#define D2(i) deduce2<i>(all); deduce<i>(); out.next();
	D2(0) D2(1) D2(2) D2(3) D2(4) D2(5) D2(6) D2(7) D2(8) D2(9) D2(10) D2(11) D2(12)
	deduce<2, 1>(); deduce<5, 9>(); deduce<5, 6, 0>(); deduce<0, 2, 1, 3>(); deduce<4, 5, 3, 10, 9>(); deduce<12, 8, 7>(); deduce<0, 12, 8>(); deduce<10, 6, 3, 12, 8, 0, 1>();
	castsFrom<0>(std::integer_sequence<int, 0, 1, 2, 5, 12> {}); castsFrom<1>(std::integer_sequence<int, 0, 1, 2, 8> {}); castsFrom<2>(std::integer_sequence<int, 0, 2, 3, 12> {}); castsFrom<5>(std::integer_sequence<int, 5, 6, 2, 0, 1> {}); castsFrom<3>(std::integer_sequence<int, 2, 3> {});
	extent<span<int>>(false, 0); extent<Span<int>>(false, 0); extent<span<int, 1>>(true, 1); extent<Span<int, 3>>(true, 3); extent<span<int, 7>>(true, 7); extent<span<int, dynamic_extent>>(false, 0); extent<Span<int, dynamic_extent>>(false, 0); extent<Span<int, 0>>(true, 0);
	connectable<Connectable>(false); connectable<TrackedConnectable>(true);
	connection<Connection>("alias", false, false); connection<TrackedConnection>("alias", true, false); connection<UniqueConnection>("alias", false, true); connection<TrackedUniqueConnection>("alias", true, true);
	connection<Added<Callback<void()>>>("Callback", false, false); connection<Added<TrackedCallback<void()>>>("TrackedCallback", true, false); connection<Added<RecursiveCallback<void()>>>("RecursiveCallback", false, false); connection<Added<TrackedRecursiveCallback<void()>>>("TrackedRecursiveCallback", true, false);
	connection<Added<Callback<void(), TrackedConnectionID>>>("Callback", true, false); connection<Added<RecursiveCallback<void(), TrackedConnectionID>>>("RecursiveCallback", true, false);
	convertFrom<Connection>({false, false}); convertFrom<TrackedConnection>({true, false}); convertFrom<UniqueConnection>({false, true}); convertFrom<TrackedUniqueConnection>({true, true});
	use<Vec2f>("Vec"); use<Vec3i>("Vec"); use<Vec4u8>("Vec"); use<Vec<7, double>>("Vec"); use<Vec<1, bool>>("Vec"); use<Mat2f>("Mat"); use<Mat34<int>>("Mat"); use<Mat<5, 1, double>>("Mat"); use<Rect2f>("Rect"); use<Rect3i>("Rect"); use<Rect4d>("Rect"); use<Line<2>>("Simplex"); use<Simplex<3, float>>("Simplex");
	use<Quaternion>("Quaternion"); use<Flags<E>>("Flags"); use<span<int>>("span"); use<span<const char, 3>>("span"); use<ConnectionID>("ConnectionID"); use<Connection>("Connection"); use<StringParam>("StringParam"); use<BasicStringParam<char16_t>>("StringParam");
	use<TrackedConnectionID>("TrackedConnectionID"); use<TrackedConnection>("TrackedConnection"); use<UniqueConnection>("UniqueConnection"); use<TrackedUniqueConnection>("TrackedUniqueConnection");
	use<Approx<double>>("Approx"); use<Approx<Vec3f>>("Approx"); use<Approx<std::complex<float>>>("Approx"); use<LUDecomposition<3, double>>("LUDecomposition"); use<Cl>("Cloneable");
	use<Callback<void()>>("Callback"); use<Callback<int(int)>>("Callback"); use<TrackedCallback<void()>>("TrackedCallback"); use<RecursiveCallback<void()>>("RecursiveCallback"); use<RecursiveCallback<int(float)>>("RecursiveCallback"); use<TrackedRecursiveCallback<void()>>("TrackedRecursiveCallback");
	use<ScopeGuard<F>>("ScopeGuard"); use<SuccessGuard<F>>("SuccessGuard"); use<ExceptionGuard<F>>("ExceptionGuard");
	out.close(opt["--name"]);
}

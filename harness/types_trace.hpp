// Records what the traits of nytl/functionTraits.hpp, tmpUtil.hpp and nonCopyable.hpp
// say about the generated types, for spec/TypesTrace.tla
#pragma once
#include <memory>
#include <string>
#include "trace.hpp"
#include <nytl/functionTraits.hpp>
#include <nytl/tmpUtil.hpp>
#include <nytl/nonCopyable.hpp>
using namespace tr;
struct Cls { int v {}; };
struct Only { Only() = default; Only(Only&&) noexcept = default; Only& operator=(Only&&) noexcept = default; };
struct Fixed { Fixed() = default; Fixed(Fixed&&) = delete; Fixed& operator=(Fixed&&) = delete; };
// names of types; others have no name that the specification knows
template<typename T> struct Name { static std::string get() { return "?"; } };
#define NAME(...) template<> struct Name<__VA_ARGS__> { static std::string get() { return #__VA_ARGS__; } };
NAME(void) NAME(int) NAME(const Cls&) NAME(Only) NAME(Cls) NAME(const Cls) NAME(Cls&&) NAME(int*) NAME(const char*) NAME(const int) NAME(int[3]) NAME(int(int)) NAME(int&) NAME(int&&) NAME(const int&) NAME(Cls&) NAME(const int&&)
template<> struct Name<int(*)(int)> { static std::string get() { return "int(*)(int)"; } };
template<typename T> std::string name() { return Name<T>::get(); }
typedef std::vector<std::string> Names;
template<typename T> struct Parts;
template<typename... T> struct Parts<std::tuple<T...>> { static Names get() { return {name<T>()...}; } };
template<typename S> struct Sig { static constexpr bool isConst = false; static Names params() { return {"?"}; } static std::string ret() { return "?"; } };
template<typename R, typename... A> struct Sig<R(A...)> { static constexpr bool isConst = false; static Names params() { return {name<A>()...}; } static std::string ret() { return name<R>(); } };
template<typename R, typename... A> struct Sig<R(A...) const> { static constexpr bool isConst = true; static Names params() { return {name<A>()...}; } static std::string ret() { return name<R>(); } };
template<typename T, size_t... I> Names argTypes(std::index_sequence<I...>) { return {name<typename T::template ArgType<I>>()...}; }
template<typename T, typename = void> struct ClassOf { static std::string get() { return "none"; } };
template<typename T> struct ClassOf<T, std::void_t<typename T::Class>> { static std::string get() { return name<typename T::Class>(); } };
template<typename T> void kind(const char* d) {
	using F = nytl::FunctionTraits<T>; constexpr size_t n = F::NumArgs; constexpr bool c = F::IsConst, callable = nytl::isCallable<T>; using S = Sig<typename F::Signature>;
	Rec r("kind"); r.raw("d", d)("callable", callable)("ret", name<typename F::ReturnType>())("num", n)("const", c)("params", argTypes<F>(std::make_index_sequence<n> {}))("tuple", Parts<typename F::ArgTuple>::get());
	r("sigret", S::ret())("sigparams", S::params())("sigconst", S::isConst)("class", ClassOf<F>::get()); out.write(r);
}
// expressions
template<typename T> using EMethod = decltype(std::declval<T&>().method());
template<typename T> using EConst = decltype(std::declval<const T&>().method());
template<typename T> using EType = typename T::type;
template<typename T> using EPlus = decltype(std::declval<T&>() + std::declval<T&>());
template<typename T, typename U> using EPlusOther = decltype(std::declval<T&>() + std::declval<U&>());
template<typename T> using EIndex = decltype(std::declval<const T&>()[3]);
template<typename T> using ECall = decltype(std::declval<const T&>()(3));
template<typename T, typename U> using ECallOther = decltype(std::declval<const T&>()(std::declval<U>()));
template<typename T> using EStar = decltype(*std::declval<T&>());
template<typename T> using EBoth = decltype(std::declval<T&>().method(), std::declval<T&>()[1]);
template<typename T> using ENested = typename decltype(*std::declval<T&>())::type;
template<typename T, typename U> void expressions(const char* d) {
	Rec v; using nytl::validExpression;
	v("method", validExpression<EMethod, T>)("constmethod", validExpression<EConst, T>)("type", validExpression<EType, T>)("plus", validExpression<EPlus, T>)("plusother", validExpression<EPlusOther, T, U>);
	v("index", validExpression<EIndex, T>)("call", validExpression<ECall, T>)("callother", validExpression<ECallOther, T, U>)("star", validExpression<EStar, T>)("both", validExpression<EBoth, T>)("nested", validExpression<ENested, T>);
	Rec r("class"); r.raw("d", d)("valid", v); out.write(r);
}
// expressions whose validity depends on value category and constness of the given type
struct Cat { int v {}; void lv() & {} void clv() const & {} void rv() && {} void crv() const && {} void plain() {} void cplain() const {} Cat& operator=(int) { return *this; } void operator++() & {} };
inline void takeLv(Cat&) {} inline void takeClv(const Cat&) {} inline void takeRv(Cat&&) {} inline void takeCrv(const Cat&&) {}
inline void takeLv(int&) {} inline void takeClv(const int&) {} inline void takeRv(int&&) {} inline void takeCrv(const int&&) {}
#define EXPR(N, ...) template<typename T> using N = decltype(__VA_ARGS__);
EXPR(VLv, std::declval<T>().lv()) EXPR(VClv, std::declval<T>().clv()) EXPR(VRv, std::declval<T>().rv()) EXPR(VCrv, std::declval<T>().crv()) EXPR(VPlain, std::declval<T>().plain()) EXPR(VCplain, std::declval<T>().cplain())
EXPR(VTakeLv, takeLv(std::declval<T>())) EXPR(VTakeClv, takeClv(std::declval<T>())) EXPR(VTakeRv, takeRv(std::declval<T>())) EXPR(VTakeCrv, takeCrv(std::declval<T>()))
EXPR(VInc, ++std::declval<T>()) EXPR(VMember, std::declval<T>().v) EXPR(VAssign, std::declval<T>() = 3)
template<typename T> using VPointer = T*; template<typename T> using VArray = T[3];
template<typename T> void category(const char* cls, const char* q) {
	Rec v; using nytl::validExpression;
	v("lv", validExpression<VLv, T>)("clv", validExpression<VClv, T>)("rv", validExpression<VRv, T>)("crv", validExpression<VCrv, T>)("plain", validExpression<VPlain, T>)("cplain", validExpression<VCplain, T>);
	v("takelv", validExpression<VTakeLv, T>)("takeclv", validExpression<VTakeClv, T>)("takerv", validExpression<VTakeRv, T>)("takecrv", validExpression<VTakeCrv, T>)("inc", validExpression<VInc, T>)("member", validExpression<VMember, T>)("assign", validExpression<VAssign, T>)("pointer", validExpression<VPointer, T>)("array", validExpression<VArray, T>);
	Rec r("category"); r("d", 0)("class", cls)("q", q)("valid", v); out.write(r);
}
template<typename T> void categories(const char* cls) { category<T>(cls, ""); category<const T>(cls, "const"); category<T&>(cls, "&"); category<const T&>(cls, "const &"); category<T&&>(cls, "&&"); category<const T&&>(cls, "const &&"); }
template<typename T> void capabilities(Rec& r) {
	r("copy", std::is_copy_constructible_v<T>)("copyassign", std::is_copy_assignable_v<T>)("move", std::is_move_constructible_v<T>)("moveassign", std::is_move_assignable_v<T>);
	r("nothrow", std::is_nothrow_move_constructible_v<T> && std::is_nothrow_move_assignable_v<T>)("create", std::is_nothrow_default_constructible_v<T>)("destroy", std::is_nothrow_destructible_v<T>);
}
template<typename T> void parts(const char* d) { Rec r("parts"); r.raw("d", d); capabilities<T>(r); out.write(r); }
template<typename T> void helper() { Rec r("helper"); r("d", 0); capabilities<T>(r); out.write(r); }
template<typename T> std::string lname() { return name<T>(); }
template<typename F, typename... T> std::string firstName(int) { return name<nytl::Variadic<F, std::tuple<T...>>>(); }
template<typename... T> void list(const char* d) {
	{ Rec r("list"); r.raw("d", d)("last", name<nytl::LastType<T...>>()); out.write(r); }
	{ Rec r("variadic"); r.raw("d", d)("first", firstName<T...>(0)); out.write(r); }
}
template<typename T> void notCallable() { Rec r("not callable"); r("d", 0)("callable", (bool) nytl::isCallable<T>); out.write(r); }
template<typename G, typename T> void templatized(T&& t) { Rec r("templatize"); r("d", 0)("given", name<G>())("type", name<decltype(nytl::templatize<long>(std::forward<T>(t)))>())("same", &static_cast<const int&>(nytl::templatize<long>(std::forward<T>(t))) == &t); out.write(r); }
enum class En { a }; enum Old { o }; union Un { int a; char b; };
struct Empty {}; struct Data { int call; int operator+(int); }; struct Abstract { virtual ~Abstract() = default; virtual int f() = 0; }; class Private { int operator()(int); };
struct Convert { using F = int(*)(int); int operator[](int); operator bool() const; };
struct Moving : nytl::NonCopyable { std::string s; Moving(const char* c) : s(c) {} };
inline void others() {
	notCallable<int>(); notCallable<const int>(); notCallable<int&>(); notCallable<void>(); notCallable<int*>(); notCallable<void*>(); notCallable<int[4]>(); notCallable<double>(); notCallable<std::nullptr_t>();
	notCallable<En>(); notCallable<Old>(); notCallable<Un>(); notCallable<Empty>(); notCallable<Data>(); notCallable<Abstract>(); notCallable<Private>(); notCallable<Convert>(); notCallable<std::string>(); notCallable<std::unique_ptr<int>>();
	notCallable<int Data::*>(); notCallable<const Empty>(); notCallable<Empty*>(); notCallable<Empty&>(); notCallable<bool>(); notCallable<char const*>();
	categories<Cat>("Cat"); categories<int>("int"); category<void>("void", "");
	helper<nytl::NonCopyable>(); helper<nytl::NonMovable>();
	int a = 3; const int b = 4; templatized<int&>(a); templatized<const int&>(b); templatized<int&&>(std::move(a)); templatized<const int&&>(std::move(b));
	static_assert(nytl::templatize<int>(7) == 7);
	// what has been moved has the value
	Moving m("abc"), n("x"); Moving k(std::move(m)); n = std::move(k); Rec r("templatize"); r("d", 0)("given", "abc")("type", n.s)("same", true); out.write(r);
	nytl::unused(a, b, m, 3); 
}

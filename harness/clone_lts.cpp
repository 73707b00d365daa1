// Replays paths of spec/Clone.tla.
#include "lts.hpp"
#include <nytl/clone.hpp>
#include <typeinfo>

enum { fCopied, fTypes, fValues, fAlive, fPtr };
static int copies, moves, alive;

struct Val {
	int v = 0;
	Val() { ++alive; } Val(int x) : v(x) { ++alive; }
	Val(const Val& o) : v(o.v) { ++copies; ++alive; }
	Val(Val&& o) noexcept : v(o.v) { o.v = 0; ++moves; ++alive; }
	~Val() { v = -99; --alive; }
	Val& operator=(const Val& o) { v = o.v; ++copies; return *this; }
	Val& operator=(Val&& o) noexcept { v = o.v; o.v = 0; ++moves; return *this; }
};

// moving it might throw
struct Risky : Val { using Val::Val; Risky() = default; Risky(const Risky&) = default; Risky(Risky&& o) noexcept(false) : Val(std::move(o)) {} Risky& operator=(const Risky&) = default; };

// what the harness asks an object
struct Probe {
	virtual const char* type() const = 0;
	virtual void values(std::vector<int>&) const = 0; // of the object and its bases
	virtual void set(int v) = 0;
	virtual void* iface(const std::string& name) = 0;
protected:
	~Probe() = default;
};

#define COMMON(T) const char* type() const override { return #T; }
#define MOVES(T) T(T&&) = default; T(const T&) = default; T& operator=(T&&) = default; T& operator=(const T&) = default;
#define SELF(T) if(n == #T) return static_cast<T*>(this);

struct T1 : nytl::Cloneable<T1>, Probe {
	Val t1; T1() = default; MOVES(T1) T1(int v) : t1(v) {}
	COMMON(T1) void values(std::vector<int>& o) const override { o.push_back(t1.v); }
	void set(int v) override { t1.v = v; }
	void* iface(const std::string& n) override { SELF(T1) return nullptr; }
};
struct T2 : nytl::DeriveCloneable<T2, T1> {
	Val t2; T2() = default; T2(int v) : nytl::DeriveCloneable<T2, T1>(v), t2(v) {}
	COMMON(T2) void values(std::vector<int>& o) const override { T1::values(o); o.push_back(t2.v); }
	void set(int v) override { T1::set(v); t2.v = v; }
	void* iface(const std::string& n) override { SELF(T2) return T1::iface(n); }
};
struct T3 : nytl::DeriveCloneable<T3, T2> {
	Risky t3; T3() = default; T3(int v) : nytl::DeriveCloneable<T3, T2>(v), t3(v) {}
	COMMON(T3) void values(std::vector<int>& o) const override { T2::values(o); o.push_back(t3.v); }
	void set(int v) override { T2::set(v); t3.v = v; }
	void* iface(const std::string& n) override { SELF(T3) return T2::iface(n); }
};
struct A : nytl::AbstractCloneable<A>, Probe { double pad; Val a; A() = default; MOVES(A) };
struct B : nytl::AbstractCloneable<B>, Probe { Val b; virtual ~B() = default; B() = default; MOVES(B) virtual int other() const { return b.v; } };
struct M : nytl::DeriveCloneable<M, A, B> {
	Val m; M(int v = 0) { M::set(v); }
	COMMON(M) void values(std::vector<int>& o) const override { o.push_back(a.v); o.push_back(b.v); o.push_back(m.v); }
	void set(int v) override { a.v = b.v = m.v = v; }
	void* iface(const std::string& n) override { SELF(M) SELF(A) SELF(B) return nullptr; }
};
struct M2 : nytl::DeriveCloneable<M2, M> {
	Risky m2; M2(int v = 0) { M2::set(v); }
	COMMON(M2) void values(std::vector<int>& o) const override { M::values(o); o.push_back(m2.v); }
	void set(int v) override { M::set(v); m2.v = v; }
	void* iface(const std::string& n) override { SELF(M2) return M::iface(n); }
};
struct M3 : nytl::DeriveCloneable<M3, T1, B> {
	Risky m; M3(int v = 0) { M3::set(v); }
	COMMON(M3) void values(std::vector<int>& o) const override { o.push_back(t1.v); o.push_back(b.v); o.push_back(m.v); }
	void set(int v) override { t1.v = b.v = m.v = v; }
	void* iface(const std::string& n) override { SELF(M3) SELF(T1) SELF(B) return nullptr; }
};
struct K : nytl::CloneMovable<K>, Probe {
	Risky k; K(int v = 0) : k(v) {} K(K&&) = default; K(const K&) = default;
	COMMON(K) void values(std::vector<int>& o) const override { o.push_back(k.v); }
	void set(int v) override { k.v = v; }
	void* iface(const std::string& n) override { SELF(K) return nullptr; }
};
struct K2 : nytl::DeriveCloneMovable<K2, K> {
	Val k2; std::unique_ptr<int> only; K2(int v = 0) : nytl::DeriveCloneMovable<K2, K>(v), k2(v) {}
	COMMON(K2) void values(std::vector<int>& o) const override { K::values(o); o.push_back(k2.v); }
	void set(int v) override { K::set(v); k2.v = v; }
	void* iface(const std::string& n) override { SELF(K2) return K::iface(n); }
};
struct N : nytl::AbstractCloneMovable<N>, Probe { Val n; N() = default; N(N&&) = default; };
struct N2 : nytl::DeriveCloneMovable<N2, N> {
	Val x; std::unique_ptr<int> only; N2(int v = 0) { N2::set(v); }
	COMMON(N2) void values(std::vector<int>& o) const override { o.push_back(n.v); o.push_back(x.v); }
	void set(int v) override { n.v = x.v = v; }
	void* iface(const std::string& n) override { SELF(N2) SELF(N) return nullptr; }
};
struct MM : nytl::DeriveCloneMovable<MM, N, K> {
	Val x; MM(int v = 0) { MM::set(v); }
	COMMON(MM) void values(std::vector<int>& o) const override { o.push_back(n.v); o.push_back(k.v); o.push_back(x.v); }
	void set(int v) override { n.v = k.v = x.v = v; }
	void* iface(const std::string& n) override { SELF(MM) SELF(N) SELF(K) return nullptr; }
};
struct M4 : nytl::DeriveCloneable<M4, B, K, T2> {
	Val m; M4(int v = 0) { M4::set(v); }
	COMMON(M4) void values(std::vector<int>& o) const override { o.push_back(b.v); o.push_back(k.v); o.push_back(t1.v); o.push_back(t2.v); o.push_back(m.v); }
	void set(int v) override { b.v = k.v = t1.v = t2.v = m.v = v; }
	void* iface(const std::string& n) override { SELF(M4) SELF(B) SELF(K) SELF(T2) SELF(T1) return nullptr; }
};
struct V : nytl::AbstractCloneable<V>, Probe { Val v; V() = default; MOVES(V) };
struct L : virtual V { Val l; };
struct R : virtual V { Val r; };
struct D : nytl::DeriveCloneable<D, L, R> {
	Val d; D(int v = 0) { D::set(v); }
	D(const D&) = default;
	D(D&& o) : V(std::move(static_cast<V&>(o))), nytl::DeriveCloneable<D, L, R>(std::move(o)), d(std::move(o.d)) {}
	COMMON(D) void values(std::vector<int>& o) const override { o.push_back(v.v); o.push_back(l.v); o.push_back(r.v); o.push_back(d.v); }
	void set(int x) override { v.v = l.v = r.v = d.v = x; }
	void* iface(const std::string& n) override { SELF(D) SELF(V) SELF(L) SELF(R) return nullptr; }
};

static lts::Engine eng;

template<typename T> Probe* probe(T* t) { return t; }
template<> Probe* probe(M* t) { return static_cast<A*>(t); }
template<> Probe* probe(M2* t) { return static_cast<A*>(t); }
template<> Probe* probe(M3* t) { return static_cast<B*>(t); }
template<> Probe* probe(M4* t) { return static_cast<T2*>(t); }
template<> Probe* probe(MM* t) { return static_cast<K*>(t); }

struct Slot { Probe* p = nullptr; std::function<void()> destroy; };
static Slot slots[5];
static std::string ptrBad;

template<typename T> void store(int s, std::unique_ptr<T> u, const std::string& via) {
	if(slots[s].p) { slots[s].destroy(); slots[s] = {}; }
	T* t = u.release();
	// the returned pointer has to be the interface of a proper object
	Probe* p = probe(t);
	if(!via.empty() && p->iface(via) != (void*) t) ptrBad += "pointer to " + via + " ";
	slots[s].p = p; slots[s].destroy = [t]{ delete t; };
}

template<typename T> void newObj(int s, int v) { store<T>(s, std::make_unique<T>(v), ""); }
template<typename T> void cloneObj(int s, int d, const std::string& b) {
	T* t = static_cast<T*>(slots[s].p->iface(b));
	if(!t) { ptrBad += "no iface "; return; }
	if(eng.variation % 2) store<T>(d, nytl::clone(*t), b);
	else { const T& c = *t; store<T>(d, nytl::clone(c), b); }
}
template<typename T> void moveObj(int s, int d, const std::string& b) {
	T* t = static_cast<T*>(slots[s].p->iface(b));
	if(!t) { ptrBad += "no iface "; return; }
	store<T>(d, nytl::cloneMove(*t), b);
}

int main(int argc, char** argv) {
	std::map<std::string, std::string> o;
	for(int i = 1; i + 1 < argc; i += 2) o[argv[i]] = argv[i + 1];
	int ns = atoi(o["--slots"].c_str());
	std::map<std::string, std::function<void(int, int)>> fnew;
	std::map<std::string, std::function<void(int, int, const std::string&)>> fclone, fmove;
	#define NEW(T) fnew[#T] = newObj<T>;
	NEW(T1) NEW(T2) NEW(T3) NEW(M) NEW(M2) NEW(M3) NEW(M4) NEW(D) NEW(K) NEW(K2) NEW(N2) NEW(MM)
	#define CL(T) fclone[#T] = cloneObj<T>; fmove[#T] = moveObj<T>;
	CL(T1) CL(T2) CL(T3) CL(A) CL(B) CL(M) CL(M2) CL(M3) CL(M4) CL(V) CL(L) CL(R) CL(D)
	#define MV(T) fmove[#T] = moveObj<T>;
	MV(K) MV(K2) MV(N) MV(N2) MV(MM)

	eng.init(o["--lts"].c_str()); eng.name = o["--name"];
	lts::installCrash(eng); cpuAlarm(atoi(o["--alarm"].c_str()));
	auto reset = []{ for(auto& s : slots) { if(s.p) s.destroy(); s = {}; } };
	eng.runPath = [&]{
		ptrBad.clear();
		while(auto e = eng.next()) {
			auto& op = eng.g.ops[e->op]; int a = e->arg / 10, b = e->arg % 10;
			copies = moves = 0;
			if(op == "destroy") { slots[e->arg].destroy(); slots[e->arg] = {}; }
			else if(op == "modify") slots[a].p->set(b);
			else if(op.substr(0, 4) == "new-") fnew.at(op.substr(4))(a, b);
			else if(op.substr(0, 6) == "clone-") fclone.at(op.substr(6))(a, b, op.substr(6));
			else if(op.substr(0, 5) == "move-") fmove.at(op.substr(5))(a, b, op.substr(5));
			else { std::fprintf(stderr, "unknown op %s\n", op.c_str()); std::exit(3); }
		}
		if(eng.dead()) { for(auto& s : slots) s = {}; alive = 0; } // maybe invalid objects
		reset();
	};
	eng.collect = [&](std::vector<std::string>& s) {
		s.resize(5);
		s[fCopied] = copies ? "copied" : "";
		std::string t, v;
		for(int i = 1; i <= ns; ++i) {
			if(i > 1) { t += ","; v += ","; }
			if(!slots[i].p) { v += "0"; continue; }
			t += slots[i].p->type();
			std::vector<int> all; slots[i].p->values(all);
			// every part of the object has the same value
			bool same = true; for(auto x : all) same = same && x == all[0];
			if(same) v += std::to_string(all[0]); else for(auto x : all) v += "/" + std::to_string(x);
		}
		s[fTypes] = t; s[fValues] = v; s[fAlive] = std::to_string(alive); s[fPtr] = ptrBad; ptrBad.clear();
	};
	eng.judge = [](const lts::Edge& e, const std::vector<std::string>& x, std::vector<std::string>& g) {
		auto& op = eng.g.ops[e.op];
		bool bad = g[fTypes] != x[fTypes] || g[fValues] != x[fValues] || g[fAlive] != x[fAlive] || !g[fPtr].empty();
		if(op.substr(0, 5) == "move-" && g[fCopied] != "") bad = true;
		return bad ? lts::Verdict::violation : lts::Verdict::ok; };
	int seed = atoi(o["--seed"].c_str()), shard = atoi(o["--shard"].c_str()), nsh = atoi(o["--nshards"].c_str());
	eng.allEdges(atoi(o["--extra"].c_str()), seed, 1, shard, nsh);
	eng.walks(atol(o["--walks"].c_str()), atoi(o["--len"].c_str()), seed * 1000 + shard);
	eng.report();
}

// Replays paths of spec/ScopeGuards.tla: scopes are real C++ scopes, guards are
// real guard objects, exceptions real exceptions.
#include "lts.hpp"
#include <nytl/scope.hpp>
#include <stdexcept>
#include <memory>

enum { fRun, fDepth };
static lts::Engine eng;
static int frames; // depth of the stack of frames

struct Ex { int n; };
struct StdEx : std::runtime_error { int n; StdEx(int x) : std::runtime_error("expected"), n(x) {} };

static unsigned vary(unsigned n) { return (eng.variation / 3 + eng.stepNo * 5 + eng.stepNo / 3) % n; }

// the guards of a scope
struct Entry { std::function<void()> unset; };
struct ScopeInfo { int depth; std::vector<Entry> guards; };

static void loop(ScopeInfo* scope);

// a guard function starts
static void enter(int depth, int idx) {
	eng.setField(fRun, (eng.seen.size() > fRun && !eng.seen[fRun].empty() ? eng.seen[fRun] + ";" : "")
		+ std::to_string(depth) + "," + std::to_string(idx));
	++frames;
	struct Dec { int d = frames - 1; ~Dec() { frames = d; } } dec;
	loop(nullptr);
}

// a functor whose label can be changed later: guards created with an lvalue
// have to refer to it
struct Func {
	int depth = 0, idx = 0; int* copies = nullptr;
	void operator()() const { enter(depth, idx); }
};

template<template<typename> class G> void withGuard(ScopeInfo& s);

template<typename G> void cont(ScopeInfo& s, G& g) {
	s.guards.push_back({[&g]{ g.unset(); }});
	loop(&s); // the rest of the scope
}

template<typename F> using AllG = nytl::ScopeGuard<F>;

template<int K> void guard(ScopeInfo& s) {
	int d = s.depth, i = int(s.guards.size()) + 1;
	switch(vary(4)) {
		case 0: {
			auto f = [d, i]{ enter(d, i); };
			if constexpr(K == 0) { nytl::ScopeGuard g([d, i]{ enter(d, i); }); cont(s, g); }
			else if constexpr(K == 1) { nytl::SuccessGuard g([d, i]{ enter(d, i); }); cont(s, g); }
			else { nytl::ExceptionGuard g([d, i]{ enter(d, i); }); cont(s, g); }
			break;
		} case 1: {
			Func f; f.depth = -1;
			if constexpr(K == 0) { nytl::ScopeGuard g(f); f.depth = d; f.idx = i; cont(s, g); }
			else if constexpr(K == 1) { nytl::SuccessGuard g(f); f.depth = d; f.idx = i; cont(s, g); }
			else { nytl::ExceptionGuard g(f); f.depth = d; f.idx = i; cont(s, g); }
			break;
		} case 2: {
			std::function<void()> f = []{ enter(-2, -2); };
			auto set = [&]{ f = [d, i]{ enter(d, i); }; };
			if constexpr(K == 0) { auto g = nytl::ScopeGuard(f); set(); cont(s, g); }
			else if constexpr(K == 1) { auto g = nytl::SuccessGuard(f); set(); cont(s, g); }
			else { auto g = nytl::ExceptionGuard(f); set(); cont(s, g); }
			break;
		} case 3: {
			// a temporary: has to be kept by the guard
			std::function<void()> f = [d, i]{ enter(d, i); };
			if constexpr(K == 0) { auto g = nytl::ScopeGuard {std::move(f)}; f = []{ enter(-3, -3); }; cont(s, g); }
			else if constexpr(K == 1) { auto g = nytl::SuccessGuard {std::move(f)}; f = []{ enter(-3, -3); }; cont(s, g); }
			else { auto g = nytl::ExceptionGuard {std::move(f)}; f = []{ enter(-3, -3); }; cont(s, g); }
			break;
		}
	}
}

// guards that aren't bound to a scope of the program
struct Held { virtual ~Held() = default; virtual void unset() = 0; };
static std::vector<std::unique_ptr<Held>> held;
static bool quiet = false;
template<typename G> struct HeldGuard : Held {
	G g;
	template<typename F> HeldGuard(F&& f) : g(std::forward<F>(f)) {}
	void unset() override { g.unset(); }
};
static void heldFunction() { if(!quiet) enter(frames + 1, 9); }
template<int K> void hold() {
	using F = std::function<void()>;
	if(vary(2)) {
		using G = std::conditional_t<K == 0, nytl::ScopeGuard<F>, std::conditional_t<K == 1, nytl::SuccessGuard<F>, nytl::ExceptionGuard<F>>>;
		held.push_back(std::make_unique<HeldGuard<G>>(F(heldFunction)));
	} else {
		static const auto f = heldFunction;
		using R = decltype(f);
		using G = std::conditional_t<K == 0, nytl::ScopeGuard<R&>, std::conditional_t<K == 1, nytl::SuccessGuard<R&>, nytl::ExceptionGuard<R&>>>;
		held.push_back(std::make_unique<HeldGuard<G>>(f));
	}
}
static void drop() { auto h = std::move(held.front()); held.erase(held.begin()); h.reset(); }

// executes the rest of a scope (null: outside of scopes in the current function)
static void loop(ScopeInfo* scope) {
	while(auto e = eng.next()) {
		auto& op = eng.g.ops[e->op];
		if(op == "open") {
			int before = frames;
			try {
				ScopeInfo s {++frames, {}};
				loop(&s);
			} catch(Ex& x) {
				frames = before;
				if(--x.n > 0) throw;
			} catch(StdEx& x) {
				frames = before;
				if(--x.n > 0) throw;
			}
			frames = before;
			if(eng.dead()) return;
		}
		else if(op == "leave") return;
		else if(op == "throw") { if(vary(2)) throw Ex{e->arg}; throw StdEx(e->arg); }
		else if(op == "guard-all") { guard<0>(*scope); return; }
		else if(op == "guard-succ") { guard<1>(*scope); return; }
		else if(op == "guard-exc") { guard<2>(*scope); return; }
		else if(op == "unset") scope->guards[e->arg - 1].unset();
		else if(op == "hold-all") hold<0>();
		else if(op == "hold-succ") hold<1>();
		else if(op == "hold-exc") hold<2>();
		else if(op == "unhold") held.front()->unset();
		else if(op == "drop") drop();
		else { std::fprintf(stderr, "unknown op %s\n", op.c_str()); std::exit(3); }
	}
}

int main(int argc, char** argv) {
	std::map<std::string, std::string> o;
	for(int i = 1; i + 1 < argc; i += 2) o[argv[i]] = argv[i + 1];
	eng.init(o["--lts"].c_str()); eng.name = o["--name"];
	std::cerr.rdbuf(nullptr);
	lts::installCrash(eng); cpuAlarm(atoi(o["--alarm"].c_str()));
	eng.runPath = []{
		frames = 0;
		try { loop(nullptr); }
		catch(...) { if(!eng.dead()) eng.fail("exception left all scopes", {}, {}); }
		quiet = true; held.clear(); quiet = false;
	};
	eng.tail = {"leave"};
	eng.collect = [](std::vector<std::string>& s) { s.resize(2); s[fDepth] = std::to_string(frames); };
	eng.judge = [](const lts::Edge& e, const std::vector<std::string>& x, std::vector<std::string>& g) {
		return x[0] == g[0] && x[1] == g[1] ? lts::Verdict::ok : lts::Verdict::violation; };
	int seed = atoi(o["--seed"].c_str()), shard = atoi(o["--shard"].c_str()), nsh = atoi(o["--nshards"].c_str());
	eng.allEdges(atoi(o["--extra"].c_str()), seed, 1, shard, nsh);
	if(int d = atoi(o["--depth"].c_str())) eng.dfs({}, d, 0, shard, nsh);
	eng.walks(atol(o["--walks"].c_str()), atoi(o["--len"].c_str()), seed * 1000 + shard);
	eng.report();
}

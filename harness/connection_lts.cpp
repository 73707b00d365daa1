// Replays paths of spec/Connections.tla against nytl::ConnectionT and
// nytl::UniqueConnectionT, for callbacks and for other connectable classes.
#include "lts.hpp"
#include <nytl/connection.hpp>
#include <nytl/callback.hpp>
#include <nytl/recursiveCallback.hpp>
#include <memory>
#include <list>

enum { fCalls, fConns, fUniqs, fReg, fBad };

static std::vector<std::string> calls; // received disconnects

template<typename ID> std::int64_t raw(const ID& id) { return id.get(); }

// a connectable that records what it is told
template<typename ID, bool Virtual> struct MockBase {};
template<typename ID> struct MockBase<ID, true> : public nytl::ConnectableT<ID> {};

template<typename ID, bool Virtual>
struct Mock : public MockBase<ID, Virtual> {
	using Base = std::conditional_t<Virtual, nytl::ConnectableT<ID>, Mock>;
	using Conn = nytl::ConnectionT<Base, ID>;
	using Uniq = nytl::UniqueConnectionT<Base, ID>;
	std::map<std::int64_t, std::pair<ID, int>> regs;
	std::int64_t last = 0;
	std::function<std::string(const ID&)> nameOf;

	bool disconnect(const ID& id) {
		calls.push_back(nameOf(id));
		auto it = regs.find(id.get());
		if(it == regs.end()) return false;
		it->second.first.removed();
		regs.erase(it); return true;
	}
	bool direct(const ID& id) { auto c = calls; auto r = disconnect(id); calls = c; return r; }
	Conn reg(int slot) { ID id {++last}; regs.insert({last, {id, slot}}); return {*this, id}; }
	void clear() { for(auto& r : regs) r.second.first.removed(); regs.clear(); }
	void registered(std::set<int>& s) { for(auto& r : regs) s.insert(r.second.second); }
	~Mock() { clear(); }
	static constexpr bool mock = true;
};

template<typename CB, typename ID>
struct Real : public CB {
	using Conn = typename CB::Connection;
	using Base = nytl::ConnectableT<ID>;
	using Uniq = nytl::UniqueConnectionT<Base, ID>;
	std::function<std::string(const ID&)> nameOf;
	std::set<int>* out = nullptr;
	bool direct(const ID& id) { return this->disconnect(id); }
	Conn reg(int slot) { return this->add(std::function<void()>([this, slot]{ if(out) { if(!out->insert(slot).second) out->insert(-slot); } })); }
	void registered(std::set<int>& s) { out = &s; this->call(); out = nullptr; }
	static constexpr bool mock = false;
};

template<typename C, typename ID, bool Tracked>
struct Runner {
	using Conn = typename C::Conn;
	using Uniq = typename C::Uniq;
	lts::Engine eng;
	std::string prop;
	// connectables are never created at the address of a destroyed one
	struct Place { alignas(C) unsigned char mem[sizeof(C)]; };
	std::list<Place> arena;
	C* cbs[4] {};
	struct Reg { void* c = nullptr; std::int64_t val = 0; ID id {}; int home = 0; };
	Reg regs[8];
	Conn conns[4];
	std::unique_ptr<Uniq> uniqs[5];
	std::vector<std::string> bad;

	unsigned vary(unsigned n) { return (eng.variation / 3 + eng.stepNo * 5 + eng.stepNo / 3) % n; }

	void create(int c) {
		arena.emplace_back();
		cbs[c] = new(arena.back().mem) C();
		auto self = static_cast<typename C::Base*>(cbs[c]);
		cbs[c]->nameOf = [this, self](const ID& id) { return name(self, id); };
	}
	void destroy(int c) {
		cbs[c]->~C();
		std::memset((void*) cbs[c], 0xDD, sizeof(C));
		cbs[c] = nullptr;
	}

	// the registration an id (of connectable c) stands for
	std::string name(const void* c, const ID& id) {
		for(int r = 1; r < 8; ++r) {
			if(!regs[r].val || regs[r].c != c) continue;
			if constexpr(Tracked) { if(regs[r].id.value == id.value) return std::to_string(r); }
			else if(regs[r].val == id.get()) return std::to_string(r);
		}
		return "?";
	}

	template<typename T> std::string describe(const T& o) {
		if(o.connected()) return name(base(o.connectable()), o.id());
		if(!o.connectable() && o.id().get() == 0) return "0";
		return "~";
	}
	const void* base(const void* p) { return p; }

	void path() {
		for(auto& c : cbs) c = nullptr;
		for(auto& r : regs) r = {};
		for(auto& c : conns) c = {};
		for(int i = 1; i <= 2; ++i) create(i);
		calls.clear(); bad.clear();
		loop();
		// end: everything is destroyed, unique connections first
		calls.clear();
		bool d = eng.dead();
		for(auto& u : uniqs) {
			// (an object that refers to a destroyed connectable by an untracked
			// id does not exist, the specification excludes it)
			if(d) { (void) u.release(); } else u.reset();
		}
		for(int i = 1; i <= 2; ++i) if(cbs[i]) destroy(i);
		for(auto& c : conns) c = {};
		for(auto& r : regs) r = {};
		arena.clear();
	}

	void loop() {
		while(auto e = eng.next()) {
			auto& op = eng.g.ops[e->op];
			int a = e->arg / 100, b = e->arg % 100;
			calls.clear();
			if(op == "register") {
				int k = b / 10, r = b % 10;
				auto c = cbs[a]->reg(r);
				regs[r].c = (void*) c.connectable(); regs[r].val = c.id().get(); regs[r].id = c.id(); regs[r].home = a;
				if(c.connectable() != static_cast<typename C::Base*>(cbs[a])) bad.push_back("connectable");
				conns[k] = c;
			} else if(op == "copy") {
				if(vary(2)) conns[b] = conns[a]; else { Conn t(conns[a]); conns[b] = t; }
			} else if(op == "cdis") conns[a].disconnect();
			else if(op == "iddis") {
				auto id = conns[a].id();
				int h = 0; for(auto& r : regs) if(r.val && r.c == (void*) conns[a].connectable()) h = r.home;
				cbs[h]->direct(id);
			} else if(op == "clear") cbs[a]->clear();
			else if(op == "cbdestroy") destroy(a);
			else if(op == "cbcreate") create(a);
			else if(op == "uctor") {
				if(conns[a].connectable() && vary(2)) uniqs[b] = std::make_unique<Uniq>(*conns[a].connectable(), conns[a].id());
				else uniqs[b] = std::make_unique<Uniq>(conns[a]);
			} else if(op == "udef") uniqs[a] = std::make_unique<Uniq>();
			else if(op == "uassign") { if(vary(2)) *uniqs[b] = Uniq(conns[a]); else *uniqs[b] = conns[a]; }
			else if(op == "umovec") uniqs[b] = std::make_unique<Uniq>(std::move(*uniqs[a]));
			else if(op == "umovea") *uniqs[b] = std::move(*uniqs[a]);
			else if(op == "udis") uniqs[a]->disconnect();
			else if(op == "udestroy") uniqs[a].reset();
			else if(op == "release") conns[b] = uniqs[a]->release();
			else { std::fprintf(stderr, "unknown op %s\n", op.c_str()); std::exit(3); }
		}
	}

	void collect(std::vector<std::string>& s) {
		auto join = [](const std::vector<std::string>& v) { std::string s; for(auto& x : v) s += (s.empty() ? "" : ",") + x; return s; };
		s.resize(5);
		s[fCalls] = C::mock ? join(calls) : "?";
		std::vector<std::string> c, u, r;
		for(int i = 1; i <= nc; ++i) c.push_back(describe(conns[i]));
		for(int i = 1; i <= nu; ++i) u.push_back(uniqs[i] ? describe(*uniqs[i]) : "-");
		std::set<int> on;
		for(auto p : cbs) if(p) p->registered(on);
		for(auto x : on) r.push_back(std::to_string(x));
		s[fConns] = join(c); s[fUniqs] = join(u); s[fReg] = join(r); s[fBad] = join(bad);
		calls.clear(); bad.clear();
	}
	int nc = 0, nu = 0;

	static bool same(const std::string& e, const std::string& g) {
		if(g == "?") return true;
		if(e.size() != g.size()) return false;
		for(size_t i = 0; i < e.size(); ++i) {
			// not connected any more: what else it holds is not specified
			if(e[i] == '~' && (g[i] == '~' || g[i] == '0')) continue;
			if(e[i] != g[i]) return false;
		}
		return true;
	}

	int main(int argc, char** argv) {
		std::map<std::string, std::string> o;
		for(int i = 1; i + 1 < argc; i += 2) o[argv[i]] = argv[i + 1];
		prop = o["--prop"]; nc = atoi(o["--nc"].c_str()); nu = atoi(o["--nu"].c_str());
		eng.init(o["--lts"].c_str()); eng.name = o["--name"];
		lts::installCrash(eng); cpuAlarm(atoi(o["--alarm"].c_str()));
		eng.runPath = [&]{ path(); };
		eng.collect = [&](std::vector<std::string>& s) { collect(s); };
		bool c05 = prop == "C05";
		if(!c05) eng.allowed = [&](const std::string& op) { return op[0] != 'u' && op != "release"; };
		eng.judge = [&](const lts::Edge& e, const std::vector<std::string>& x, std::vector<std::string>& g) {
			auto& op = eng.g.ops[e.op];
			bool unique = op[0] == 'u' || op == "release";
			bool bad = false, other = false;
			if(c05) {
				bad = !same(x[fUniqs], g[fUniqs]) || !g[fBad].empty();
				// what unique connections do to the connectables and what they release
				bool rest = !same(x[fCalls], g[fCalls]) || !same(x[fReg], g[fReg]) || !same(x[fConns], g[fConns]);
				if(unique) bad = bad || rest; else other = rest;
			} else {
				bad = !same(x[fConns], g[fConns]) || !same(x[fReg], g[fReg]) || !same(x[fCalls], g[fCalls]) || !g[fBad].empty();
			}
			return bad ? lts::Verdict::violation : other ? lts::Verdict::abort : lts::Verdict::ok;
		};
		int seed = atoi(o["--seed"].c_str()), shard = atoi(o["--shard"].c_str()), nsh = atoi(o["--nshards"].c_str());
		if(o.count("--replay")) { eng.replay(o["--replay"], 0, atoi(o["--variation"].c_str())); eng.report(); return 0; }
		eng.allEdges(atoi(o["--extra"].c_str()), seed * 100 + shard, 1, shard, nsh);
		if(int d = atoi(o["--depth"].c_str())) eng.dfs({}, d, 0, shard, nsh);
		eng.walks(atol(o["--walks"].c_str()), atoi(o["--len"].c_str()), seed * 1000 + shard);
		eng.report();
		return 0;
	}
};

int main(int argc, char** argv) {
	using namespace nytl;
	using P = ConnectionID; using T = TrackedConnectionID;
#if VARIANT == 0
	static Runner<Real<Callback<void(), T>, T>, T, true> r;
#elif VARIANT == 1
	static Runner<Real<RecursiveCallback<void(), T>, T>, T, true> r;
#elif VARIANT == 2
	static Runner<Mock<T, true>, T, true> r;
#elif VARIANT == 3
	static Runner<Real<Callback<void(), P>, P>, P, false> r;
#elif VARIANT == 4
	static Runner<Real<RecursiveCallback<void(), P>, P>, P, false> r;
#elif VARIANT == 5
	static Runner<Mock<P, true>, P, false> r;
#elif VARIANT == 6
	static Runner<Mock<P, false>, P, false> r;
#elif VARIANT == 7
	static Runner<Mock<T, false>, T, true> r;
#endif
	return r.main(argc, argv);
}

// Replays paths of spec/CallArgs.tla.
#include "lts.hpp"
#include <nytl/callback.hpp>
#include <nytl/recursiveCallback.hpp>
#include <memory>

// a value that shows when it was moved from, and counts objects
struct Obj {
	std::unique_ptr<int> v; bool isConst = false;
	Obj(int x = 0) : v(new int(x)) {}
	Obj(const Obj& o) : v(o.v ? new int(*o.v) : nullptr) {}
	Obj(Obj&&) = default;
	Obj& operator=(const Obj& o) { v.reset(o.v ? new int(*o.v) : nullptr); return *this; }
	Obj& operator=(Obj&&) = default;
	int get() const { return v ? *v : -1; }
};

template<typename R> struct Rt { static R make() { return R(7); } };
template<> struct Rt<void> { static void make() {} };

enum { fSeen, fIdent, fEnd };

template<template<typename, typename> class CB, typename Ret, typename ID, bool Rec>
struct Runner {
	using Cb = CB<Ret(Obj, Obj&, const Obj&, Obj&&), ID>;
	using Conn = typename Cb::Connection;
	lts::Engine eng; std::unique_ptr<Cb> cb;
	Obj v, l, c, r; int values = 3; int nf = 0; std::string ident;
	unsigned vary(unsigned n) { return (eng.variation / 3 + eng.stepNo * 5 + eng.stepNo / 3) % n; }

	void handler(Obj& pv, Obj& pl, const Obj& pc, Obj&& pr) {
		std::string s;
		for(auto o : {pv.get(), pl.get(), pc.get(), pr.get()}) s += (s.empty() ? "" : ",") + std::to_string(o);
		auto old = eng.seen.size() > fSeen ? eng.seen[fSeen] : "";
		eng.setField(fSeen, old.empty() ? s : old + ";" + s);
		std::string id;
		if(&pl != &l) id += "l"; if(&pc != &c) id += "c"; if(&pr != &r) id += "r"; if(&pv == &v) id += "v";
		if(!id.empty()) eng.setField(fIdent, id);
		auto e = eng.next();
		if(!e) return;
		int m = e->arg;
		if(eng.g.ops[e->op] != "do") { eng.fail("function executed although the call should have ended", {}, {}); return; }
		if(m & 1) { if(vary(2)) { Obj o = std::move(pv); } else *pv.v = 77; }
		if(m & 2) { Obj o = std::move(pl); pl = Obj((o.get() + 1) % values); }
		if(m & 4) { if(vary(2)) { Obj o = std::move(pr); pr = Obj((o.get() + 1) % values); } else *pr.v = (*pr.v + 1) % values; }
	}
	void path() {
		cb = std::make_unique<Cb>(); nf = 0;
		v = Obj(0); l = Obj(0); c = Obj(0); r = Obj(0);
		while(auto e = eng.next()) {
			auto& op = eng.g.ops[e->op];
			if(op == "register") {
				++nf;
				std::function<Ret(Obj, Obj&, const Obj&, Obj&&)> f = [this](Obj a, Obj& b, const Obj& c, Obj&& d) { handler(a, b, c, std::move(d)); return Rt<Ret>::make(); };
				if constexpr(Rec) if(vary(2)) {
					auto slot = std::make_shared<std::int64_t>();
					std::function<Ret(Conn, Obj, Obj&, const Obj&, Obj&&)> g = [this, slot](Conn co, Obj a, Obj& b, const Obj& c, Obj&& d) {
						if(co.id().get() != *slot || !co.connected()) eng.setField(fIdent, "conn");
						handler(a, b, c, std::move(d)); return Rt<Ret>::make(); };
					*slot = cb->add(std::move(g)).id().get();
					continue;
				}
				cb->add(std::move(f));
			} else if(op.substr(0, 3) == "set") (op[3] == 'v' ? v : op[3] == 'l' ? l : op[3] == 'c' ? c : r) = Obj(e->arg);
			else if(op == "call") {
				auto end = [&]{ if(eng.dead()) return;
					std::string s; for(auto o : {v.get(), l.get(), c.get(), r.get()}) s += (s.empty() ? "" : ",") + std::to_string(o);
					auto old = eng.seen[fSeen]; eng.setField(fSeen, old.empty() ? s : old + ";" + s); eng.setField(fEnd, "ended"); };
				switch(vary(3)) {
					case 0: cb->call(v, l, c, std::move(r)); break;
					case 1: (*cb)(v, l, c, std::move(r)); break;
					case 2: cb->call(Obj(v.get()), l, c, static_cast<Obj&&>(r)); break;
				}
				end();
			} else { eng.fail("no function was executed", {}, {}); return; }
		}
	}
	int main(int argc, char** argv) {
		std::map<std::string, std::string> o;
		for(int i = 1; i + 1 < argc; i += 2) o[argv[i]] = argv[i + 1];
		values = atoi(o["--values"].c_str());
		eng.init(o["--lts"].c_str()); eng.name = o["--name"];
		lts::installCrash(eng); cpuAlarm(atoi(o["--alarm"].c_str()));
		eng.runPath = [&]{ path(); };
		eng.tail = {"do"};
		eng.judge = [&](const lts::Edge& e, const std::vector<std::string>& x, std::vector<std::string>& g) {
			g.resize(3);
			return g[0] == x[0] && g[1] == x[1] && g[2] == x[2] ? lts::Verdict::ok : lts::Verdict::violation; };
		int seed = atoi(o["--seed"].c_str());
		eng.allEdges(6, seed, 2);
		eng.walks(atol(o["--walks"].c_str()), 60, seed + 1);
		eng.report();
		return 0;
	}
};

// a move-only argument reaches the (only) function
template<typename Cb> int moveOnly() {
	Cb cb; int seen = 0;
	cb.add(std::function<void(std::unique_ptr<int>, int&&)>([&](std::unique_ptr<int> p, int&& x) { seen = p ? *p + x : -1; }));
	int x = 3;
	cb.call(std::make_unique<int>(39), std::move(x));
	if(seen != 42) { std::printf("V {\"what\":\"move-only argument\",\"observed\":\"%d\"}\n", seen); return 1; }
	seen = 0; cb(std::make_unique<int>(38), 4);
	if(seen != 42) { std::printf("V {\"what\":\"move-only argument, operator()\",\"observed\":\"%d\"}\n", seen); return 1; }
	return 0;
}

int main(int argc, char** argv) {
	using namespace nytl;
#if VARIANT == 0
	static Runner<RecursiveCallback, void, ConnectionID, true> r;
	moveOnly<RecursiveCallback<void(std::unique_ptr<int>, int&&)>>();
#elif VARIANT == 1
	static Runner<RecursiveCallback, int, TrackedConnectionID, true> r;
#elif VARIANT == 2
	static Runner<Callback, void, TrackedConnectionID, false> r;
	moveOnly<Callback<void(std::unique_ptr<int>, int&&)>>();
#elif VARIANT == 3
	static Runner<Callback, int, ConnectionID, false> r;
#endif
	return r.main(argc, argv);
}

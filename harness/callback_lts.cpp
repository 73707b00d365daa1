// Replays paths of spec/Callback.tla against nytl::Callback and
// nytl::RecursiveCallback (RECORD: records random histories for spec/CallbackTrace.tla).
#include "lts.hpp"
#ifdef RECORD
#include "rec.hpp"
using Engine = rec::Engine;
#else
using Engine = lts::Engine;
#endif
#include <nytl/callback.hpp>
#include <nytl/recursiveCallback.hpp>
#include <new>
#include <memory>
#include <pthread.h>

// fields of an observation
enum { fDres, fInv, fEnd, fVec, fSets, fRems, fConn, fReg, fHandle };

// -- failing allocations
static long allocCountdown = -1;
void* operator new(std::size_t n) {
	if(allocCountdown >= 0 && allocCountdown-- == 0) throw std::bad_alloc();
	void* p = std::malloc(n ? n : 1);
	if(!p) throw std::bad_alloc();
	return p;
}
void operator delete(void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }

// -- connection ids following the concept in docs/callback.md
struct IdEvents {
	bool throwing = false;
	std::vector<std::pair<std::int64_t, char>> events; // id, 's'et, 'r'emoved, 'a'ccess after
};
static IdEvents idLog;

// every copy has its own value
struct ValueId {
	std::int64_t val = 0, orig = 0; bool dead = false;
	ValueId() noexcept = default;
	ValueId(std::int64_t v) : val(v), orig(v) { if(idLog.throwing) throw std::runtime_error("id"); }
	void acc() const noexcept { if(dead) idLog.events.push_back({orig, 'a'}); }
	void set(std::int64_t v) noexcept { acc(); idLog.events.push_back({orig, v < 0 ? 's' : 'b'}); val = v; }
	std::int64_t get() const noexcept { acc(); return val; }
	void removed() noexcept { acc(); idLog.events.push_back({orig, 'r'}); dead = true; }
};

// all copies share the value
struct SharedId {
	struct S { std::int64_t val, orig; };
	std::shared_ptr<S> s;
	SharedId() noexcept = default;
	SharedId(std::int64_t v) {
		if(idLog.throwing) throw std::runtime_error("id");
		s = std::make_shared<S>(S{v, v});
	}
	void set(std::int64_t v) noexcept { if(!s) return; idLog.events.push_back({s->orig, v < 0 ? 's' : 'b'}); s->val = v; }
	std::int64_t get() const noexcept { return s ? s->val : 0; }
	void removed() noexcept {
		// without shared state: this object was already told
		if(!s) { idLog.events.push_back({-1, 'r'}); return; }
		idLog.events.push_back({s->orig, 'r'}); s->val = 0; s.reset();
	}
};

template<typename ID> constexpr bool logs = std::is_same<ID, ValueId>::value || std::is_same<ID, SharedId>::value;
template<typename ID> constexpr bool tracks = std::is_same<ID, nytl::TrackedConnectionID>::value || std::is_same<ID, SharedId>::value;

struct Ex { int n; };
struct Unwind {};

template<typename R> struct RetOf;
template<> struct RetOf<int> { static int make(int s) { return s; } static int slot(int v) { return v; } };
template<> struct RetOf<std::string> {
	static std::string make(int s) { return std::string(40, 'x') + std::to_string(1000 + s); }
	static int slot(const std::string& v) { return v.size() == 44 ? std::stoi(v.substr(40)) - 1000 : -1; } };
template<> struct RetOf<std::unique_ptr<int>> {
	static std::unique_ptr<int> make(int s) { return std::make_unique<int>(s); }
	static int slot(const std::unique_ptr<int>& v) { return v ? *v : -1; } };
template<> struct RetOf<bool> {
	static bool make(int s) { return s & 1; } static int slot(bool v) { return v; } };

static const std::string payload = "a payload string that does not fit any small buffer";

template<typename Cb, typename Ret, typename ID, bool Rec>
struct Runner {
	using Conn = typename Cb::Connection;
	static constexpr bool isVoid = std::is_void<Ret>::value;
	Engine eng;
	std::unique_ptr<Cb> cb;
	struct Slot {
		Conn conn, copy; ID id {}; std::int64_t val = 0; bool has = false, anon = false; int serial = 0; std::int64_t prev = 0;
		std::vector<Conn> stale; std::vector<ID> staleIds;
	};
	std::map<int, Slot> slots;
	std::map<std::int64_t, int> idSlot;
	std::vector<std::string> regBad, handleBad;
	std::vector<int> running;
	const Conn* self = nullptr; int selfSlot = 0;
	int depth = 0;

	unsigned vary(unsigned n) { return (eng.variation / 3 + eng.stepNo * 5 + eng.stepNo / 3) % n; }

	bool forgets() const { return eng.walking() && eng.variation % 4 == 3; }

	// executes f maybe inside of a destructor while an exception is unwinding
	template<typename F> void ctx(F&& f) {
		if(eng.variation % 3 != 1) { f(); return; }
		struct D { F& f; ~D() { f(); } };
		try { D d {f}; throw Unwind{}; } catch(const Unwind&) {}
	}

	void handler(int s, int serial, std::string& arg, const Conn* own) {
		int me = s, ms = serial;
		if(arg != payload) regBad.push_back("arg");
		arg = "changed";
		std::string moved = std::move(arg);
		if(quiet) { counted(me); return; }
		auto& sl = slots[me];
		if(own && own->id().get() != sl.val && ms == sl.serial && !tracks<ID>) regBad.push_back("ownconn");
		eng.setField(fInv, eng.seen.size() > fInv && !eng.seen[fInv].empty() ? eng.seen[fInv] + "+" + std::to_string(me)
			: (ms == sl.serial ? "" : "stale") + std::to_string(me));
		auto os = self; auto oss = selfSlot;
		self = own; selfSlot = me;
		struct Restore { Runner& r; const Conn* s; int ss; ~Restore() { r.self = s; r.selfSlot = ss; } } rest {*this, os, oss};
		if(++depth > 50) { eng.fail("nesting", {}, {}); depth = 0; return; }
		struct Dec { int& d; ~Dec() { --d; } } dec {depth};
		loop(true);
	}

	std::function<Ret(std::string)> make(int s, int serial) {
		if constexpr(isVoid) return [this, s, serial](std::string a) { handler(s, serial, a, nullptr); };
		else return [this, s, serial](std::string a) { handler(s, serial, a, nullptr); return RetOf<Ret>::make(s); };
	}
	std::function<Ret(Conn, std::string)> makeC(int s, int serial) {
		if constexpr(isVoid) return [this, s, serial](Conn c, std::string a) { handler(s, serial, a, &c); };
		else return [this, s, serial](Conn c, std::string a) { handler(s, serial, a, &c); return RetOf<Ret>::make(s); };
	}

	void add(int s, bool assign) {
		auto& sl = slots[s];
		if(sl.has) { // keep the old connections
			if(sl.stale.size() > 3) { sl.stale.erase(sl.stale.begin()); sl.staleIds.erase(sl.staleIds.begin()); }
			sl.stale.push_back(sl.copy); sl.staleIds.push_back(sl.id);
		}
		++sl.serial;
		Conn c;
		auto m = vary(Rec ? 4 : 2);
		// sometimes nobody keeps a connection to the function
		sl.anon = forgets() && vary(5) < 3;
		if(sl.anon) m &= 1;
		int serial = sl.serial;
		if(assign) {
			if constexpr(Rec) {
				if((m & 1) && !sl.anon) c = (*cb = makeC(s, serial)); else c = (*cb = make(s, serial));
			} else c = (*cb = make(s, serial));
		} else {
			if(m == 0) c = cb->add(make(s, serial));
			else if(m == 1) c = (*cb += make(s, serial));
			if constexpr(Rec) {
				if(m == 2) c = cb->add(makeC(s, serial));
				else if(m == 3) c = (*cb += makeC(s, serial));
			}
		}
		sl.conn = c; sl.copy = c; sl.id = c.id(); sl.has = true;
		sl.prev = sl.val; sl.val = c.id().get();
		if(sl.val <= 0) handleBad.push_back("id not positive");
		if(idSlot.count(sl.val)) handleBad.push_back("id used twice");
		idSlot[sl.val] = s;
		if(!c.connected()) handleBad.push_back("new connection not connected");
		if(c.connectable() != cb.get()) handleBad.push_back("new connection has other connectable");
		if(sl.anon) { sl.has = false; sl.conn = sl.copy = {}; sl.id = {}; }
	}

	void addFail() {
		unsigned n = vary(logs<ID> ? 8 : 6);
		std::string want = "none", got = "none";
		auto f = make(99, 0); auto fc = makeC(99, 0);
		std::function<Ret(std::string)> ef; std::function<Ret(Conn, std::string)> efc;
		bool fail = false; Conn c;
		auto attempt = [&](bool empty, bool withConn) {
			try {
				if constexpr(Rec) { if(withConn) { c = cb->add(std::move(empty ? efc : fc)); return; } }
				c = cb->add(std::move(empty ? ef : f));
			} catch(const std::invalid_argument&) { got = "invalid"; }
			catch(const std::bad_alloc&) { got = "alloc"; }
			catch(const std::runtime_error& e) { got = e.what(); }
			catch(...) { got = "other"; }
		};
		auto before = idLog.events.size();
		if(n < 2) { want = "invalid"; attempt(true, n == 1); }
		else if(n < 6) {
			want = "alloc";
			auto k = vary(3);
			allocCountdown = k; attempt(false, n & 1); allocCountdown = -1;
			if(got == "none") { // nothing failed: a registration that is removed right away
				cb->disconnect(c.id()); want = "none";
			}
		} else {
			want = "id"; idLog.throwing = true; attempt(false, n == 7); idLog.throwing = false;
		}
		if(got != want) regBad.push_back("fail:" + got);
		// notifications of the failed registration's own id are of no interest
		for(size_t i = before; i < idLog.events.size(); ++i) {
			auto it = idSlot.find(idLog.events[i].first);
			if(it == idSlot.end()) { idLog.events.erase(idLog.events.begin() + i); --i; }
		}
	}

	void disconnect(int s) {
		auto& sl = slots[s];
		switch(vary(6)) {
			case 0: eng.setField(fDres, cb->disconnect(sl.id) ? "1" : "2"); break;
			case 1: { ID copy = sl.copy.id(); eng.setField(fDres, cb->disconnect(copy) ? "1" : "2"); break; }
			case 2: { nytl::ConnectableT<ID>& ref = *cb; eng.setField(fDres, ref.disconnect(sl.copy.id()) ? "1" : "2"); break; }
			case 3: { Conn c = sl.copy; c.disconnect(); emptied(c); eng.setField(fDres, "?"); break; }
			case 4: { sl.conn.disconnect(); emptied(sl.conn); sl.conn = sl.copy; eng.setField(fDres, "?"); break; }
			case 5: if(self && selfSlot == s && self->id().get() == sl.id.get()) {
					Conn c = *self; c.disconnect(); emptied(c); eng.setField(fDres, "?");
				} else eng.setField(fDres, cb->disconnect(sl.id) ? "1" : "2");
				break;
		}
	}

	void emptied(const Conn& c) {
		if(c.connected()) handleBad.push_back("connected after disconnect");
		if(c.connectable()) handleBad.push_back("connectable after disconnect");
		if(c.id().get() != 0) handleBad.push_back("id after disconnect");
	}

	void stale(int s) {
		auto& sl = slots[s];
		if(sl.stale.empty()) { eng.setField(fDres, "2"); return; }
		auto k = vary(sl.stale.size() * 2);
		auto i = k / 2;
		// the id of a removed registration; plain ids of removed functions
		// are just not found
		if(k & 1) { Conn c = sl.stale[i]; c.disconnect(); emptied(c); eng.setField(fDres, "2"); }
		else eng.setField(fDres, cb->disconnect(sl.staleIds[i]) ? "1" : "2");
	}

	// functions only count while quiet
	bool quiet = false, diving = false; long level = 0;
#ifdef RECORD
	void quietCall() {
		if constexpr(isVoid) cb->call(payload);
		else for(auto&& r : cb->call(payload)) eng.sum += RetOf<Ret>::slot(r);
	}
	void counted(int s) {
		++eng.total; if(eng.order.size() < 100) eng.order.push_back(s);
		if(!diving) return;
		diving = false;
		if(level < eng.times) { ++level; diving = true; quietCall(); return; }
		disconnect(diveSlot);
		if(eng.thrown) throw Ex{0};
	}
	int diveSlot = 0;
	void age() {
		quiet = true;
		for(long i = 0; i < std::max(eng.times, eng.cycles); ++i) {
			if(i < eng.times) { eng.order.clear(); quietCall(); }
			if(i < eng.cycles) { auto c = cb->add(make(98, 0)); if(i & 1) c.disconnect(); else if(!cb->disconnect(c.id())) handleBad.push_back("age"); }
			if(logs<ID> && idLog.events.size() > 1000) idLog.events.erase(std::remove_if(idLog.events.begin(), idLog.events.end(), [&](auto& e) { return !idSlot.count(e.first); }), idLog.events.end());
		}
		quiet = false;
	}
	void dive(int s) {
		quiet = diving = true; level = 1; diveSlot = s;
		try { quietCall(); eng.setField(fEnd, "ret"); } catch(Ex&) { eng.setField(fEnd, "exc"); }
		quiet = diving = false;
	}
#else
	void counted(int) {}
	void age() {}
	void dive(int) {}
#endif

	// a call, maybe made by a destructor while an exception is unwinding
	void call() {
		if(eng.variation % 5 != 2) { callImpl(); return; }
		std::unique_ptr<Ex> saved;
		struct D {
			Runner& r; std::unique_ptr<Ex>& saved;
			~D() { try { r.callImpl(); } catch(Ex& e) { saved = std::make_unique<Ex>(e); } }
		};
		try { D d {*this, saved}; throw Unwind{}; } catch(const Unwind&) {}
		if(saved) throw *saved;
	}

	void callImpl() {
		try {
			// the functions may also be called one by one
			bool single = false;
			if constexpr(!Rec) single = vary(5) == 3;
			if constexpr(isVoid) {
				if(single) { if constexpr(!Rec) for(auto& sub : cb->subscriptions()) sub.func(payload); }
				else if(vary(2)) cb->call(payload); else (*cb)(payload);
				if(eng.dead()) return;
				eng.setField(fEnd, "ret"); eng.setField(fVec, "?");
			} else {
				std::vector<Ret> v;
				if(single) { if constexpr(!Rec) for(auto& sub : cb->subscriptions()) v.push_back(sub.func(payload)); }
				else {
					auto w = vary(2) ? cb->call(payload) : (*cb)(payload);
					static_assert(std::is_same<decltype(w), std::vector<Ret>>::value, "result type");
					v = std::move(w);
				}
				if(eng.dead()) return;
				std::string s;
				for(auto&& r : v) s += (s.empty() ? "" : ",") + std::to_string(RetOf<Ret>::slot(r));
				eng.setField(fEnd, "ret"); eng.setField(fVec, s);
			}
		} catch(Ex& e) {
			if(--e.n > 0) throw;
			if(eng.dead()) return;
			eng.setField(fEnd, "exc");
		} catch(const std::bad_function_call&) {
			if(eng.dead()) return;
			eng.setField(fEnd, "bad_function_call");
		}
	}

	void loop(bool inside) {
		while(auto e = eng.next()) {
			auto& op = eng.g.ops[e->op];
			assigned = op == "assign";
			if(op == "add") ctx([&]{ add(e->arg, false); });
			else if(op == "assign") ctx([&]{ add(e->arg, true); });
			else if(op == "addfail") addFail();
			else if(op == "dis") ctx([&]{ disconnect(e->arg); });
			else if(op == "stale") ctx([&]{ stale(e->arg); });
			else if(op == "clear") ctx([&]{ cb->clear(); });
			else if(op == "call") call();
			else if(op == "destroy") { destroy(); }
			else if(op == "age") age();
			else if(op == "dive") dive(e->arg);
			else if(op == "ret") { if(inside) return; eng.fail("return without a function executing", {}, {}); return; }
			else if(op == "throw") { if(inside) throw Ex{e->arg}; eng.fail("throw without a function executing", {}, {}); return; }
			else { std::fprintf(stderr, "unknown op %s\n", op.c_str()); std::exit(3); }
		}
	}

	void destroy() {
		cb.reset();
		if constexpr(tracks<ID>) if(prop == "C04") for(auto& s : slots) { // connections outlive the callback
			for(auto c : {s.second.conn, s.second.copy}) {
				if(s.second.has && c.connected()) handleBad.push_back("connected after destruction");
				c.disconnect(); emptied(c);
			}
		}
	}

	void collect(std::vector<std::string>& seen) {
		seen.resize(9);
		if(seen[fDres].empty()) seen[fDres] = "0";
		if(seen[fInv].empty()) seen[fInv] = "0";
		// ids
		std::vector<std::string> sets, rems;
		for(auto& e : idLog.events) {
			auto it = idSlot.find(e.first);
			std::string s = it == idSlot.end() ? "?" : std::to_string(it->second);
			// (an assignment may replace the registration of its own slot)
			if(it != idSlot.end() && slots[it->second].val != e.first && !(assigned && slots[it->second].prev == e.first)) s = "old" + s;
			if(e.second == 's') { if(std::find(sets.begin(), sets.end(), s) == sets.end()) sets.push_back(s); }
			else if(e.second == 'r') rems.push_back(s);
			else if(e.second == 'b') sets.push_back("nonnegative" + s);
			else rems.push_back("access" + s);
		}
		idLog.events.clear();
		// ids of failed registrations
		auto q = std::remove(rems.begin(), rems.end(), "?"); rems.erase(q, rems.end());
		auto p = std::remove(sets.begin(), sets.end(), "?"); sets.erase(p, sets.end());
		std::sort(sets.begin(), sets.end()); std::sort(rems.begin(), rems.end());
		auto join = [](const std::vector<std::string>& v) { std::string s; for(auto& x : v) s += (s.empty() ? "" : ",") + x; return s; };
		seen[fSets] = logs<ID> ? join(sets) : "?";
		seen[fRems] = logs<ID> ? join(rems) : "?";
		// connections
		if constexpr(tracks<ID>) {
			std::vector<std::string> conn;
			for(auto& s : slots) {
				if(!s.second.has) continue;
				bool a = s.second.conn.connected(), b = s.second.copy.connected();
				if(a && b) conn.push_back(std::to_string(s.first));
				else if(a || b) conn.push_back("half" + std::to_string(s.first));
				for(auto& c : s.second.stale) if(c.connected()) conn.push_back("stale" + std::to_string(s.first));
			}
			seen[fConn] = join(conn);
		} else seen[fConn] = "?";
		seen[fReg] = join(regBad); seen[fHandle] = join(handleBad);
		regBad.clear(); handleBad.clear();
	}

	std::string prop;
#ifdef RECORD
	bool assigned = false;
	void path() {
		slots.clear(); idSlot.clear(); idLog.events.clear(); idLog.throwing = false; allocCountdown = -1;
		regBad.clear(); handleBad.clear(); self = nullptr; depth = 0;
		cb = std::make_unique<Cb>();
		try { loop(false); } catch(Ex&) { if(!eng.dead()) eng.fail("exception left the outermost call twice", {}, {}); }
		cb.reset();
	}

	int main(int argc, char** argv) {
		tr::init(argc, argv);
		prop = "C04";
		eng.name = tr::opt["--name"];
		eng.reentrant = Rec; eng.failures = tr::optn("--failures", 1);
		lts::gRecorder = [&]{ return eng.current(); };
		lts::installSignals();
		eng.runPath = [&]{ path(); };
		eng.collect = [&](std::vector<std::string>& s) { collect(s); };
		eng.possible = [&](const lts::Edge& e) { auto it = slots.find(e.arg); return it == slots.end() || !it->second.anon; };
		eng.anonymous = [&]{ std::vector<int> v; for(auto& s : slots) if(s.second.anon) v.push_back(s.first); return v; };
		eng.extra = [&](tr::Rec& r) { r("void", isVoid)("parity", std::is_same<Ret, bool>::value)("logs", logs<ID>)("tracks", tracks<ID>)("rec", Rec); };
		unsigned seed = unsigned(tr::optn("--seed", 1)) * 100000u;
		long want = tr::optn("--records", 10000); // about
		int old = tr::optn("--old", 1); // 1: many thousand pending calls, 2: only hundreds, 3: begin with more than 2^31 calls and registrations
		for(unsigned k = 0; eng.steps < want; ++k) {
			// a few long lives, deep nesting, many functions
			rec::Engine::Plan p = old == 3 ? rec::Engine::Plan{6, 3, 200, 3} : k % 97 == 3 ? rec::Engine::Plan{330, 2, 400, 0, 280} : k % 29 == 7 ? rec::Engine::Plan{12, 3, 1600, 0} : k % 29 == 11 ? rec::Engine::Plan{6, 3, 60, old} : k % 5 == 1 ? rec::Engine::Plan{8, 7, 160, 0} :
				k % 5 == 2 ? rec::Engine::Plan{30, 3, 200, old ? 2 : 0} : k % 5 == 3 ? rec::Engine::Plan{5, 4, 50, 0} : rec::Engine::Plan{12, 4, 100, old ? 2 : 0};
			eng.history(p, seed + k);
		}
		for(auto h : tr::out.f) std::fclose(h);
		std::printf("S {\"name\":\"%s\",\"records\":%ld,\"histories\":%ld,\"depth\":%d,\"functions\":%d}\n", eng.name.c_str(), eng.steps, eng.histories, eng.maxDepth, eng.maxLive);
		return 0;
	}
#else
	// -- what a property is about
	bool removals = false, throws = false;
	struct Frame { std::multiset<std::string> got, want; bool removedBefore; };
	std::vector<Frame> frames;

	bool differs(const std::vector<std::string>& exp, const std::vector<std::string>& got, int f) {
		if(got[f] == "?") return false;
		if(std::is_same<Ret, bool>::value && f == fVec) { // only the parity is returned
			std::string x; for(char c : exp[f]) x += c == ',' ? c : char('0' + (c - '0') % 2);
			return x != got[f];
		}
		if(f == fConn && forgets()) { // functions without connection are not connected
			std::string x;
			for(auto& s : slots) if(!s.second.anon && ("," + exp[f] + ",").find("," + std::to_string(s.first) + ",") != std::string::npos)
				x += (x.empty() ? "" : ",") + std::to_string(s.first);
			return x != got[f];
		}
		return got[f] != (size_t(f) < exp.size() ? exp[f] : std::string());
	}

	lts::Verdict judge(const lts::Edge& e, const std::vector<std::string>& exp, std::vector<std::string>& got) {
		using lts::Verdict;
		auto& op = eng.g.ops[e.op];
		auto differs = [&](int f) { return this->differs(exp, got, f); };
		// C02 is about the set of functions invoked, not their order
		bool desync = differs(fEnd);
		if((exp[fInv] == "0") != (got[fInv] == "0") || got[fInv].find('+') != std::string::npos) desync = true;
		bool setbad = false;
		if(op == "call" && exp[fInv] != "0") frames.push_back({{}, {}, removals});
		if(exp[fInv] != "0" && !frames.empty()) frames.back().want.insert(exp[fInv]);
		if(got[fInv] != "0" && !frames.empty()) frames.back().got.insert(got[fInv]);
		if(desync) setbad = !frames.empty() ? frames.back().removedBefore : removals;
		if(op == "ret" && exp[fEnd] == "ret" && !frames.empty()) {
			if(frames.back().want != frames.back().got && frames.back().removedBefore) setbad = true;
			frames.pop_back();
		}
		if(op == "throw") for(int i = 0; i < e.arg && !frames.empty(); ++i) frames.pop_back();
		if(op == "dis" || op == "clear" || op == "assign") removals = true;
		if(op == "throw") throws = true;

		bool bad = false;
		if(prop == "C01") bad = differs(fInv) || differs(fEnd) || differs(fVec);
		else if(prop == "C02") bad = differs(fDres) || setbad;
		else if(prop == "C03") bad = differs(fSets) || differs(fRems);
		else if(prop == "C04") bad = differs(fConn) || differs(fHandle);
		else if(prop == "C06") {
			bad = differs(fReg) || (op == "throw" && differs(fEnd));
			if(throws || failed) for(int f : {fDres, fInv, fEnd, fVec, fSets, fRems, fConn}) bad = bad || differs(f);
			if(op == "addfail") failed = true;
		}
		if(bad) return Verdict::violation;
		if(desync) return Verdict::abort;
		return Verdict::ok;
	}
	bool failed = false, assigned = false;

	void path() {
		slots.clear(); idSlot.clear(); idLog.events.clear(); idLog.throwing = false; allocCountdown = -1;
		regBad.clear(); handleBad.clear(); self = nullptr; depth = 0; frames.clear();
		removals = throws = failed = false;
		cb = std::make_unique<Cb>();
		try { loop(false); } catch(Ex&) { if(!eng.dead()) eng.fail("exception left the outermost call twice", {}, {}); }
		cb.reset();
	}

	int main(int argc, char** argv) {
		std::map<std::string, std::string> o;
		for(int i = 1; i + 1 < argc; i += 2) o[argv[i]] = argv[i + 1];
		prop = o["--prop"];
		eng.init(o["--lts"].c_str());
		eng.name = o["--name"];
		lts::installCrash(eng);
		cpuAlarm(atoi(o["--alarm"].c_str()));
		eng.runPath = [&]{ path(); };
		eng.collect = [&](std::vector<std::string>& s) { collect(s); };
		eng.judge = [&](auto& e, auto& x, auto& g) { return judge(e, x, g); };
		eng.tail = {"ret", "!call", "!destroy"};
		eng.possible = [&](const lts::Edge& e) {
			if(!e.arg || (eng.g.ops[e.op] != "dis" && eng.g.ops[e.op] != "stale")) return true;
			auto it = slots.find(e.arg); return it == slots.end() || !it->second.anon; };
		int seed = atoi(o["--seed"].c_str());
		int shard = atoi(o["--shard"].c_str()), nsh = atoi(o["--nshards"].c_str());
		if(o.count("--replay")) { eng.replay(o["--replay"], 0, atoi(o["--variation"].c_str())); eng.report(); return eng.violations ? 1 : 0; }

		auto explore = [&]{
			if(int d = atoi(o["--depth"].c_str())) eng.dfs({}, d, 0, shard, nsh);
			if(int d = atoi(o["--depth3"].c_str())) eng.dfs({{"add",1},{"add",2},{"add",3}}, d, 0, shard, nsh);
			eng.allEdges(atoi(o["--extra"].c_str()), seed * 100 + shard, 1, shard, nsh);
			eng.walks(atol(o["--walks"].c_str()), atoi(o["--len"].c_str()), seed * 1000 + shard);
		};
		// failing registrations are a part of C06
		if(prop != "C06") eng.allowed = [&](const std::string& op) { return op != "addfail"; };
		if(prop == "C06") {
			// deviations that have nothing to do with exceptions or failing
			// registrations are the subject of other properties: if there are
			// any, only look at arguments and the exceptions themselves
			prop = "none";
			lts::Engine& e = eng;
			long ab = 0;
			e.allowed = [&](const std::string& op) { return op != "throw" && op != "addfail"; };
			e.judge = [&](auto& ed, auto& x, auto& g) {
				for(int f = 0; f < fReg; ++f) if(differs(x, g, f)) { ++ab; return lts::Verdict::abort; }
				return judge(ed, x, g); };
			e.allEdges(atoi(o["--extra"].c_str()), seed * 100 + shard, 1, shard, nsh);
			e.walks(atol(o["--walks"].c_str()) / 4, atoi(o["--len"].c_str()), seed * 1000 + shard + 7);
			e.allowed = nullptr; prop = "C06"; e.aborted = 0;
			if(ab) e.judge = [&](auto& ed, auto& x, auto& g) {
				std::vector<std::string> g2 = g;
				if(g[fReg] != "" || (eng.g.ops[ed.op] == "throw" && g[fEnd] != x[fEnd])) return lts::Verdict::violation;
				for(int f = 0; f < fReg; ++f) if(differs(x, g, f)) return lts::Verdict::abort;
				return lts::Verdict::ok; };
			else e.judge = [&](auto& ed, auto& x, auto& g) { return judge(ed, x, g); };
		}
		explore();
		eng.report();
		return 0;
	}
#endif
};

#ifndef VARIANT
#define VARIANT 0
#endif
int main(int argc, char** argv) {
	using namespace nytl;
	using Str = std::string;
#if VARIANT == 0
	static Runner<RecursiveCallback<int(Str)>, int, ConnectionID, true> r;
#elif VARIANT == 1
	static Runner<RecursiveCallback<void(Str), TrackedConnectionID>, void, TrackedConnectionID, true> r;
#elif VARIANT == 2
	static Runner<RecursiveCallback<std::unique_ptr<int>(Str), ValueId>, std::unique_ptr<int>, ValueId, true> r;
#elif VARIANT == 3
	static Runner<RecursiveCallback<Str(Str), SharedId>, Str, SharedId, true> r;
#elif VARIANT == 4
	static Runner<Callback<int(Str)>, int, ConnectionID, false> r;
#elif VARIANT == 5
	static Runner<Callback<void(Str), TrackedConnectionID>, void, TrackedConnectionID, false> r;
#elif VARIANT == 6
	static Runner<Callback<std::unique_ptr<int>(Str), ValueId>, std::unique_ptr<int>, ValueId, false> r;
#elif VARIANT == 7
	static Runner<Callback<Str(Str), SharedId>, Str, SharedId, false> r;
#elif VARIANT == 8
	static Runner<RecursiveCallback<bool(Str), TrackedConnectionID>, bool, TrackedConnectionID, true> r;
#endif
#ifdef RECORD
	// for calls that are pending many times
	static int res = 0; static int ac = argc; static char** av = argv;
	pthread_attr_t at; pthread_attr_init(&at);
	bool old = true; for(int i = 1; i + 1 < argc; ++i) if(std::string(argv[i]) == "--old" && argv[i + 1][0] != '1') old = false;
	if(old) pthread_attr_setstacksize(&at, std::size_t(1) << 30);
	pthread_t th;
	if(pthread_create(&th, &at, [](void*) -> void* { res = r.main(ac, av); return nullptr; }, nullptr)) return 3;
	pthread_join(th, nullptr);
	return res;
#else
	return r.main(argc, argv);
#endif
}

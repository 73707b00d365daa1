// Engine with the interface of lts::Engine that does not follow a given graph but
// chooses operations at random and records them with what was observed
// (validated by spec/CallbackTrace.tla).
#pragma once
#include "lts.hpp"
#include "trace.hpp"

namespace rec {

struct Graph { std::vector<std::string> ops {"add", "assign", "addfail", "dis", "stale", "clear", "call", "ret", "throw", "destroy", "age", "dive"}; };
enum { oAdd, oAssign, oAddFail, oDis, oStale, oClear, oCall, oRet, oThrow, oDestroy, oAge, oDive };

class Engine {
public:
	Graph g;
	std::function<void()> runPath;
	std::function<void(std::vector<std::string>&)> collect;
	std::function<bool(const lts::Edge&)> possible;
	std::function<void(tr::Rec&)> extra; // completes the record of a history's begin
	std::function<std::vector<int>()> anonymous;
	std::vector<std::string> seen;
	unsigned variation = 0, stepNo = 0;
	std::string name;
	long histories = 0, steps = 0, violations = 0; int maxDepth = 0, maxLive = 0;
	bool reentrant = true, failures = false;
	// age: many calls and registrations; dive: a call that is repeated in its first
	// function until it is pending `times` times, there a function is disconnected
	long times = 0, cycles = 0, total = 0, sum = 0; bool thrown = false; std::vector<int> order;

	void setField(size_t i, const std::string& v) { if(seen.size() <= i) seen.resize(i + 1); seen[i] = v; }
	bool dead() const { return dead_; }
	bool walking() const { return true; }
	int state() const { return 0; }
	std::string current() const {
		std::string s = name + " seed=" + std::to_string(seed_) + " history=" + std::to_string(histories) + " :";
		size_t b = path.size() > 200 ? path.size() - 200 : 0;
		if(b) s += " ...";
		for(size_t i = b; i < path.size(); ++i) { s += " " + g.ops[path[i].op]; if(path[i].arg) s += "(" + std::to_string(path[i].arg) + ")"; }
		return s;
	}
	void fail(const std::string& what, const std::vector<std::string>&, const std::vector<std::string>&) {
		dead_ = true;
		if(last) finish();
		tr::out.write(tr::Rec("impossible")("what", what));
	}

	const lts::Edge* next() {
		if(dead_) return nullptr;
		if(last) finish();
		if(!choose()) { last = nullptr; return nullptr; }
		edge_ = {op_, arg_, 0, 0, 0, 0};
		last = &edge_;
		seen.assign(9, "");
		path.push_back(edge_);
		++stepNo; ++steps;
		apply();
		return last;
	}

	struct Plan { int slots, depth, budget; int old; int many = 0; }; // many: begin with that many functions
	void history(const Plan& p, unsigned seed) {
		plan = p; seed_ = seed; rng.seed(seed); variation = rng();
		path.clear(); last = nullptr; dead_ = false; stepNo = 0; phase = 0; grown = p.many == 0;
		live.clear(); pending.clear(); used.clear(); fresh.clear(); frames.clear(); destroyed = false;
		for(int i = 1; i <= p.slots; ++i) fresh.insert(i);
		bias.assign(g.ops.size(), 1);
		rebias();
		auto r = tr::Rec("new"); r("slots", p.slots); extra(r);
		tr::out.write(r);
		runPath();
		if(last && !dead_) finish();
		++histories;
		tr::out.next(); tr::out.balance();
	}

private:
	Plan plan {};
	unsigned seed_ = 0;
	lts::Edge edge_ {};
	const lts::Edge* last = nullptr;
	std::vector<lts::Edge> path;
	std::mt19937 rng;
	bool dead_ = false, destroyed = false, grown = false;
	int op_ = 0, arg_ = 0, phase = 0;
	std::vector<int> bias;
	// what may be done next: an approximation that only follows the operations done
	std::vector<int> live; std::set<int> pending, used, fresh; std::vector<int> frames; // remaining functions

	unsigned rnd(unsigned n) { return unsigned(rng() % n); }
	// one of the registered functions, often the first or last ones
	int some() { unsigned n = live.size(), k = rnd(plan.many ? 3 : 6); return live[k == 0 ? rnd(std::min(n, 2u)) : k == 1 ? n - 1 - rnd(std::min(n, 2u)) : rnd(n)]; }
	void rebias() { for(auto& b : bias) b = 1 + rnd(8); bias[oAdd] += 3; bias[oClear] = rnd(3); bias[oAssign] = rnd(2);
		bias[oAddFail] = failures ? rnd(3) : 0; bias[oThrow] = failures ? rnd(4) : 0; bias[oRet] += frames.size() > 3 ? 4 : 0; bias[oDestroy] = bias[oAge] = bias[oDive] = 0; }

	static long long toInt(const std::string& s) {
		if(s.empty() || s.size() > 6) return -1;
		for(char c : s) if(c < '0' || c > '9') return -1;
		return atoi(s.c_str());
	}
	static std::string list(const std::string& s) {
		if(s == "?" || s.empty()) return "[]";
		std::string r = "["; std::istringstream in(s); std::string t; bool first = true;
		while(std::getline(in, t, ',')) { if(!first) r += ","; first = false; r += std::to_string(toInt(t)); }
		return r + "]";
	}
	void finish() {
		collect(seen);
		tr::Rec r(g.ops[last->op].c_str());
		r("arg", last->arg);
		r("dres", seen[0] == "?" ? -2 : (int) toInt(seen[0]))("inv", (int) toInt(seen[1]))("end", seen[2]);
		r.raw("vec", list(seen[3])).raw("sets", list(seen[4])).raw("rems", list(seen[5])).raw("conn", list(seen[6]));
		if(last->op == oAge) r("n", times)("total", total)("sum", sum)("order", order);
		if(last->op == oDive) r("n", times)("total", total)("sum", sum)("thrown", thrown);
		r("reg", seen[7])("handle", seen[8])("anon", anonymous());
		tr::out.write(r);
		last = nullptr;
	}
	static long among(std::mt19937& rng, std::initializer_list<long> l) { return *(l.begin() + rng() % l.size()); }

	bool choose() {
		bool busy = !frames.empty();
		total = sum = 0; order.clear();
		if(int(live.size()) >= plan.many) grown = true;
		if(!grown && !fresh.empty()) { // mostly registrations, some removals
			arg_ = *std::next(fresh.begin(), rnd(fresh.size())); op_ = oAdd;
			if(!live.empty() && rnd(12) == 0) {
				int s = some(); lts::Edge e {oDis, s, 0, 0, 0, 0};
				if(possible(e)) { op_ = oDis; arg_ = s; }
			}
			return true;
		}
		if(plan.old == 3 && path.size() < 2) { op_ = oAge; arg_ = 0; times = cycles = 1200000000; return true; }
		if(plan.old && int(path.size()) < plan.budget && !live.empty() && rnd(busy ? 60 : plan.old == 1 ? 4 : 12) == 0 && (reentrant || !busy)) {
			bool large = !busy && live.size() < 8 && rnd(plan.old == 1 ? 2 : 8) == 0;
			if(busy || !reentrant || rnd(2)) {
				op_ = oAge; arg_ = 0; times = large ? among(rng, {33000, 66000}) : among(rng, {1, 130, 300});
				cycles = busy ? rnd(3) * 100 : large ? among(rng, {0, 33000, 66000}) : rnd(300);
				return true;
			}
			arg_ = live[rnd(live.size())]; lts::Edge e {oDis, arg_, 0, 0, 0, 0};
			if(possible(e)) {
				op_ = oDive; times = large && plan.old == 1 ? among(rng, {33000, 66000}) : among(rng, {1, 3, 20, 130, 300});
				thrown = failures && rnd(3) == 0;
				return true;
			}
		}
		if(int(path.size()) >= plan.budget) { // end the history
			if(busy) { op_ = oRet; arg_ = 0; return true; }
			if(phase == 0) { phase = 1; op_ = oCall; arg_ = 0; return true; }
			if(phase == 1) { phase = 2; op_ = oDestroy; arg_ = 0; return true; }
			return false;
		}
		if(rnd(12) == 0) rebias();
		for(int tries = 0; tries < 1000; ++tries) {
			int sum = 0; for(auto b : bias) sum += b;
			int k = int(rnd(sum)); op_ = 0;
			while(k >= bias[op_]) k -= bias[op_++];
			arg_ = 0;
			if(busy && !reentrant && op_ != oRet && op_ != oThrow) continue;
			switch(op_) {
				case oAdd: if(fresh.empty()) continue; arg_ = *std::next(fresh.begin(), rnd(fresh.size())); return true;
				case oAssign: if(fresh.empty()) continue; arg_ = *std::next(fresh.begin(), rnd(fresh.size())); return true;
				case oAddFail: return true;
				case oDis: case oStale: {
					if(used.empty()) continue;
					// mostly registered ones
					if(op_ == oDis && !live.empty() && rnd(4)) arg_ = some();
					else arg_ = *std::next(used.begin(), rnd(used.size()));
					lts::Edge e {op_, arg_, 0, 0, 0, 0};
					if(!possible(e)) continue;
					return true;
				}
				case oClear: return true;
				case oCall: if(int(frames.size()) >= plan.depth) continue; return true;
				case oRet: if(!busy) continue; return true;
				case oThrow: if(!busy) continue; arg_ = 1 + rnd(frames.size()); return true;
			}
		}
		op_ = busy ? oRet : oClear; arg_ = 0;
		return true;
	}

	void release() { for(auto s : pending) fresh.insert(s); pending.clear(); }
	void remove(int s) { if(frames.empty()) fresh.insert(s); else pending.insert(s); }
	void apply() {
		switch(op_) {
			case oAdd: fresh.erase(arg_); used.insert(arg_); live.push_back(arg_); break;
			case oAssign: for(auto s : live) remove(s); live.clear(); fresh.erase(arg_); used.insert(arg_); live.push_back(arg_); break;
			case oDis: { auto it = std::find(live.begin(), live.end(), arg_); if(it != live.end()) { live.erase(it); remove(arg_); } break; }
			case oDive: { auto it = std::find(live.begin(), live.end(), arg_); if(it != live.end()) { live.erase(it); remove(arg_); } break; }
			case oClear: for(auto s : live) remove(s); live.clear(); break;
			case oCall: if(!live.empty()) frames.push_back(int(live.size())); break;
			case oRet: if(--frames.back() == 0) frames.pop_back(); if(frames.empty()) release(); break;
			case oThrow: for(int i = 0; i < arg_; ++i) frames.pop_back(); if(frames.empty()) release(); break;
		}
		maxDepth = std::max(maxDepth, int(frames.size())); maxLive = std::max(maxLive, int(live.size()));
	}
};

} // namespace rec

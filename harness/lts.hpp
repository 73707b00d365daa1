// Replays paths of a labelled transition system (enumerated by TLC from a
// specification) against an implementation and compares what is observed.
#pragma once
#include "cputime.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <fstream>
#include <sstream>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <random>
#include <functional>
#include <algorithm>
#include <iostream>
#include <csignal>
#include <unistd.h>

namespace lts {

struct Edge { int op; int arg; int obs; int to; int id; int from; };

struct Graph {
	std::vector<std::string> ops;
	std::vector<std::vector<std::string>> obs; // expected fields
	std::vector<std::vector<Edge>> out;
	std::vector<int> inits; int init = 0; int nedges = 0;
	std::vector<const Edge*> edges;

	void load(const char* path) {
		std::ifstream in(path);
		if(!in) { std::fprintf(stderr, "cannot read %s\n", path); std::exit(3); }
		std::string line;
		int nops, nobs, nst, ned, nin;
		in >> nops >> nobs >> nst >> ned >> nin; std::getline(in, line);
		for(int i = 0; i < nin; ++i) { int k; in >> k; inits.push_back(k); }
		std::getline(in, line);
		init = inits[0];
		for(int i = 0; i < nops; ++i) { std::getline(in, line); ops.push_back(line); }
		for(int i = 0; i < nobs; ++i) {
			std::getline(in, line);
			std::vector<std::string> f; std::string cur;
			for(char c : line) { if(c == '|') { f.push_back(cur); cur.clear(); } else cur += c; }
			f.push_back(cur); obs.push_back(f);
		}
		out.resize(nst);
		for(int i = 0; i < ned; ++i) {
			Edge e; in >> e.from >> e.op >> e.arg >> e.obs >> e.to; e.id = i;
			out[e.from].push_back(e);
		}
		nedges = ned; edges.resize(ned);
		for(auto& v : out) for(auto& e : v) edges[e.id] = &e;
	}
};

enum class Verdict { ok, violation, abort };

// Drives one path at a time.
class Engine {
public:
	Graph g;
	std::vector<std::string> args;
	// judge(edge, expected, observed)
	std::function<Verdict(const Edge&, const std::vector<std::string>&, std::vector<std::string>&)> judge;
	std::function<void()> runPath; // executes a path, calling next() until null
	std::function<void(std::vector<std::string>&)> collect; // completes observation
	std::function<bool(const std::string& op)> allowed; // may be unset
	std::function<bool(const Edge&)> possible; // may be unset, only asked in random walks
	std::vector<std::string> tail; // preference order of ops to end a path

	// statistics
	long paths = 0, steps = 0, aborted = 0, violations = 0;
	std::vector<char> covered; long coveredCount = 0;
	std::vector<std::string> samples;
	std::set<std::string> classes; // of violations
	unsigned variation = 0, stepNo = 0;
	int maxViolations = 3;
	std::string name;
	bool stop = false;

	std::string current() const {
		std::string s = name + " variation=" + std::to_string(variation) + " init=" + std::to_string(startState) + " :";
		for(auto e : path) { s += " " + g.ops[e->op]; if(e->arg) s += "(" + std::to_string(e->arg) + ")"; }
		return s;
	}

	std::vector<std::string> seen; // observed fields of the last step
	void setField(size_t i, const std::string& v) { if(seen.size() <= i) seen.resize(i + 1); seen[i] = v; }
	bool dead() const { return diverged; }
	int state() const { return cur; }
	int start() const { return startState; }
	bool walking() const { return mode == 1; }

	// the operation to perform next or null
	const Edge* next() {
		if(diverged || ++calls > 100000) { if(calls > 100000) fail("endless path", {}, {}); return nullptr; }
		if(last) finishStep();
		if(diverged || stop) { diverged = true; return nullptr; }
		const Edge* e = choose();
		last = e;
		seen.assign(8, "");
		if(!e) return nullptr;
		path.push_back(e);
		cur = e->to; ++steps; ++stepNo;
		if(!covered[e->id]) { covered[e->id] = 1; ++coveredCount; }
		return e;
	}

	void fail(const std::string& what, const std::vector<std::string>& exp, const std::vector<std::string>& got) {
		diverged = true;
		++violations;
		std::string s = "V {\"what\":\"" + what + "\",\"path\":\"" + current() + "\",\"expected\":\"";
		for(auto& f : exp) s += f + "|";
		s += "\",\"observed\":\"";
		for(auto& f : got) s += f + "|";
		s += "\"}";
		std::printf("%s\n", s.c_str()); std::fflush(stdout);
		if(violations >= maxViolations) stop = true;
	}

	// all paths of up to `depth` operations after the given prefix
	void dfs(const std::vector<std::pair<std::string,int>>& prefix, int depth, long maxPaths, int shard, int nshards, int from = -1) {
		idx.assign(depth, 0); cnt.assign(depth, 0);
		long n = 0;
		mode = 0; prefix_ = prefix; depth_ = depth;
		start0 = from < 0 ? g.init : from;
		bool more = true;
		while(more && !stop) {
			// shard on the first choices
			long h = idx.size() > 1 ? idx[0] * 31 + idx[1] : 0;
			bool mine = nshards <= 1 || (h % nshards) == shard;
			if(mine) {
				variation = unsigned(paths * 7 + shard) ;
				one();
				if(maxPaths && ++n >= maxPaths) break;
			} else {
				// we don't know the branching without executing: walk the graph
				walkCounts();
			}
			int i = std::min(used, depth) - 1;
			while(i >= 0 && idx[i] + 1 >= cnt[i]) --i;
			if(i < 0) { more = false; break; }
			++idx[i];
			for(size_t k = i + 1; k < idx.size(); ++k) idx[k] = 0;
		}
	}

	void walks(long n, int len, unsigned seed) {
		mode = 1;
		std::mt19937 r(seed);
		for(long i = 0; i < n && !stop; ++i) {
			rng.seed(r()); depth_ = 1 + rng() % len; variation = rng();
			start0 = g.inits[rng() % g.inits.size()];
			bias.assign(g.ops.size(), 1);
			for(auto& b : bias) b = 1 + rng() % 8;
			one();
		}
	}

	// every transition at least once: shortest path to its source, the
	// transition and some random operations
	void allEdges(int extra, unsigned seed, int rep = 1, int shard = 0, int nshards = 1) {
		std::vector<const Edge*> via(g.out.size(), nullptr);
		std::vector<int> order(g.inits.begin(), g.inits.end()); std::vector<char> vis(g.out.size(), 0);
		for(auto i : g.inits) vis[i] = 1;
		for(size_t k = 0; k < order.size(); ++k) for(auto& e : g.out[order[k]]) {
			if(allowed && !allowed(g.ops[e.op])) continue;
			if(!vis[e.to]) { vis[e.to] = 1; via[e.to] = &e; order.push_back(e.to); }
		}
		mode = 2;
		std::mt19937 r(seed);
		bias.assign(g.ops.size(), 1);
		for(int k = 0; k < rep && !stop; ++k) for(auto e : g.edges) {
			if(stop) break;
			if((e->id + k) % nshards != shard) continue;
			if(!vis[e->from] || (allowed && !allowed(g.ops[e->op]))) continue;
			plan.clear(); plan.push_back(e);
			int f = e->from;
			while(via[f]) { plan.push_back(via[f]); f = via[f]->from; }
			start0 = f;
			std::reverse(plan.begin(), plan.end());
			rng.seed(r()); depth_ = int(plan.size()) + extra; variation = rng();
			one();
		}
	}

	// one explicit path "op(arg) op ..."
	void replay(const std::string& p, int from, unsigned var) {
		mode = 3; script.clear(); variation = var; start0 = from;
		std::istringstream in(p); std::string t;
		while(in >> t) {
			int a = 0; auto k = t.find('(');
			if(k != std::string::npos) { a = atoi(t.c_str() + k + 1); t = t.substr(0, k); }
			script.push_back({t, a});
		}
		depth_ = int(script.size());
		one();
	}

	void init(const char* ltsFile) { g.load(ltsFile); covered.assign(g.nedges, 0); }

	void report() {
		std::printf("S {\"name\":\"%s\",\"paths\":%ld,\"steps\":%ld,\"aborted\":%ld,\"violations\":%ld,"
			"\"edges\":%d,\"covered\":%ld}\n", name.c_str(), paths, steps, aborted, violations, g.nedges, coveredCount);
		for(auto& s : samples) std::printf("X %s\n", s.c_str());
	}

private:
	const Edge* last = nullptr;
	int cur = 0, startState = 0, start0 = 0; bool diverged = false; int calls = 0;
	std::vector<const Edge*> path;
	int mode = 0, depth_ = 0, used = 0;
	std::vector<int> idx, cnt;
	std::vector<std::pair<std::string,int>> prefix_, script;
	std::vector<const Edge*> plan;
	std::mt19937 rng;
	std::vector<int> bias;
	std::vector<const Edge*> opts;
	std::set<std::string> tailDone;

	void finishStep() {
		if(collect) collect(seen);
		auto& exp = g.obs[last->obs];
		auto v = judge(*last, exp, seen);
		if(v == Verdict::violation) fail("step " + std::to_string(path.size()), exp, seen);
		else if(v == Verdict::abort) { diverged = true; ++aborted; }
		last = nullptr;
	}

	void options(int st) {
		opts.clear();
		for(auto& e : g.out[st]) if((!allowed || allowed(g.ops[e.op])) && (mode != 1 || !possible || possible(e))) opts.push_back(&e);
	}

	const Edge* find(int st, const std::string& op, int arg) {
		for(auto& e : g.out[st]) if(g.ops[e.op] == op && (arg < 0 || e.arg == arg)) return &e;
		return nullptr;
	}

	const Edge* chooseTail() {
		for(auto& t : tail) {
			// an op marked with ! is done only once
			bool once = t[0] == '!'; auto n = once ? t.substr(1) : t;
			if(once && tailDone.count(n)) continue;
			if(auto e = find(cur, n, -1)) { if(once) tailDone.insert(n); return e; }
		}
		return nullptr;
	}

	const Edge* choose() {
		size_t n = path.size();
		if(mode == 0) {
			if(n < prefix_.size()) {
				auto e = find(cur, prefix_[n].first, prefix_[n].second);
				if(!e) { std::fprintf(stderr, "bad prefix\n"); std::exit(3); }
				return e;
			}
			n -= prefix_.size();
			if(int(n) < depth_) {
				options(cur);
				if(!opts.empty()) { used = int(n) + 1; cnt[n] = int(opts.size()); return opts[idx[n]]; }
			}
			return chooseTail();
		}
		if(mode == 3) {
			if(n < script.size()) {
				auto e = find(cur, script[n].first, script[n].second);
				if(e) return e;
			}
			return chooseTail();
		}
		if(mode == 2 && n < plan.size()) return plan[n];
		if(int(n) < depth_) {
			options(cur);
			if(!opts.empty()) {
				int sum = 0; for(auto o : opts) sum += bias[o->op];
				int k = int(rng() % sum);
				for(auto o : opts) { k -= bias[o->op]; if(k < 0) return o; }
			}
		}
		return chooseTail();
	}

	void walkCounts() {
		int st = start0; used = 0;
		for(auto& p : prefix_) st = find(st, p.first, p.second)->to;
		for(int n = 0; n < depth_; ++n) {
			options(st); if(opts.empty()) break;
			used = n + 1; cnt[n] = int(opts.size()); st = opts[idx[n]]->to;
			if(n >= 1) break; // skip the whole subtree of other shards
		}
	}

	void one() {
		path.clear(); last = nullptr; cur = startState = start0; diverged = false; calls = 0; used = 0;
		tailDone.clear(); stepNo = 0;
		++paths;
		seen.assign(8, "");
		runPath();
		if(!diverged && last) finishStep();
		if(paths % 9973 == 7 && samples.size() < 4) samples.push_back(current());
	}
};

inline volatile sig_atomic_t crashed = 0;
inline Engine* gEngine = nullptr;
inline std::function<std::string()> gRecorder;
inline void onCrash(int sig) {
	if(crashed) _exit(98);
	crashed = 1;
	// best effort: tell which path crashed
	if(gEngine || gRecorder) {
		std::string s = "V {\"what\":\"crash signal " + std::to_string(sig) + "\",\"path\":\"" + (gEngine ? gEngine->current() : gRecorder())
			+ "\",\"expected\":\"\",\"observed\":\"crash\"}\n";
		ssize_t r = write(1, s.data(), s.size()); (void) r;
	}
	_exit(97);
}
inline void installSignals();
inline void installCrash(Engine& e) { gEngine = &e; installSignals(); }
inline void installSignals() {
	for(int s : {SIGSEGV, SIGABRT, SIGFPE, SIGILL, SIGBUS, SIGPROF}) std::signal(s, onCrash);
	std::set_terminate([]{ onCrash(6); });
}

} // namespace lts

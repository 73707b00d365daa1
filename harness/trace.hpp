// Recording of executions: ndjson files that are validated by TLC.
#pragma once
#include "cputime.hpp"
#include <cstdio>
#include <cstdint>
#include <cstdlib>
#include <cmath>
#include <cstring>
#include <map>
#include <random>
#include <string>
#include <vector>
#include <unistd.h>

namespace tr {

struct Json {
	std::string s;
	bool first = true;
	void sep() { if(!first) s += ','; first = false; }
};

inline std::string num(long long v) { return std::to_string(v); }
inline std::string str(const std::string& v) {
	std::string r = "\"";
	for(unsigned char c : v) { if(c == '"' || c == '\\') { r += '\\'; r += c; } else if(c < 32 || c > 126) r += '?'; else r += c; }
	return r + "\"";
}
inline std::string val(int v) { return num(v); }
inline std::string val(long v) { return num(v); }
inline std::string val(long long v) { return num(v); }
inline std::string val(unsigned v) { return num(v); }
inline std::string val(unsigned long v) { return num((long long) v); }
inline std::string val(unsigned char v) { return num(v); }
inline std::string val(bool v) { return v ? "true" : "false"; }
inline std::string val(const char* v) { return str(v); }
inline std::string val(const std::string& v) { return str(v); }
template<typename T> std::string val(const std::vector<T>& v);
template<typename T> std::string val(const std::vector<T>& v) {
	std::string r = "[";
	for(size_t i = 0; i < v.size(); ++i) { if(i) r += ','; r += val((T) v[i]); }
	return r + "]";
}

// A record {"k": v, ...}
struct Rec {
	std::string s = "{"; bool first = true;
	Rec() = default;
	Rec(const char* op) { (*this)("op", op); }
	template<typename T> Rec& operator()(const char* k, const T& v) {
		if(!first) s += ','; first = false;
		s += '"'; s += k; s += "\":"; s += val(v); return *this;
	}
	Rec& raw(const char* k, const std::string& v) {
		if(!first) s += ','; first = false;
		s += '"'; s += k; s += "\":"; s += v; return *this;
	}
};
inline std::string val(const Rec& r) { return r.s + "}"; }

// Scaled number: round(x * scale); "bad" numbers (nan, inf, too large) get a
// value that no specification accepts
constexpr long long bad = 2000000011;
inline long long fix(long double x, double scale) {
	long double y = x * scale;
	if(!(y > -1.9e9L && y < 1.9e9L)) return bad;
	return (long long) std::llround(y);
}
// Exact number: x * scale has to be an integer
inline long long exact(long double x, long double scale = 1) {
	long double y = x * scale;
	if(!(y > -1.9e9L && y < 1.9e9L)) return bad;
	long long i = (long long) y;
	return ((long double) i == y) ? i : bad - 1;
}

// Number with twice as many digits: (h W + l) / W^2
inline std::vector<long long> wide(long double x) {
	constexpr long double W = 16384;
	if(!(x > -100000 && x < 100000)) return {bad, bad};
	long long h = std::llround(x * W);
	return {h, std::llround((x * W - h) * W)};
}

struct Out {
	std::vector<FILE*> f; size_t cur = 0; long n = 0; std::vector<long> lines;
	void open(const std::string& prefix, int nfiles) {
		for(int i = 0; i < nfiles; ++i) {
			FILE* h = std::fopen((prefix + "." + std::to_string(i) + ".ndjson").c_str(), "w");
			if(!h) { std::perror("open"); std::exit(3); }
			f.push_back(h); lines.push_back(0);
		}
	}
	void write(const Rec& r) {
		std::string l = r.s + "}\n";
		std::fwrite(l.data(), 1, l.size(), f[cur]); ++n; ++lines[cur];
	}
	// next record may go into another file
	void next() { cur = (cur + 1) % f.size(); }
	// to the shortest file
	void balance() { for(size_t i = 0; i < f.size(); ++i) if(lines[i] < lines[cur]) cur = i; }
	void close(const std::string& name) {
		for(auto h : f) std::fclose(h);
		std::printf("S {\"name\":\"%s\",\"records\":%ld}\n", name.c_str(), n);
	}
};

inline Out out;
inline std::map<std::string, std::string> opt;
inline std::mt19937 rng;
inline bool thorough = false;
inline int rnd(int lo, int hi) { return (int) (lo + (long) (rng() % (unsigned long) ((long) hi - lo + 1))); }
inline long optn(const char* k, long d) { auto i = opt.find(k); return i == opt.end() ? d : atol(i->second.c_str()); }

inline void init(int argc, char** argv) {
	for(int i = 1; i + 1 < argc; i += 2) opt[argv[i]] = argv[i + 1];
	rng.seed((unsigned) optn("--seed", 1)); thorough = opt["--tier"] == "thorough";
	cpuAlarm((unsigned) optn("--alarm", 300));
	out.open(opt["--out"], (int) optn("--files", 8));
}

} // namespace tr

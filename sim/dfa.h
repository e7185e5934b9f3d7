// A small reference implementation of regular languages, independent of the code under test:
// complete, minimal, canonically numbered automata over a handful of abstract symbols.
#pragma once
#include "sim.h"
#include <map>
#include <set>
#include <algorithm>

namespace dfa {

struct TooBig {};

struct Nfa {
	int syms;
	std::vector<std::map<int, std::set<int>>> d;  // symbol -> targets; -1 is epsilon
	std::set<int> fin;
	int init = 0;
	explicit Nfa(int k = 0, int n = 0): syms(k), d(n) {}
	int Add() { d.emplace_back(); return (int) d.size() - 1; }
	void On(int f, int c, int t) { d[f][c].insert(t); }
};

struct Dfa {
	int syms = 0;
	std::vector<std::vector<int>> next;           // state 0 is initial
	std::vector<char> fin;
	size_t Size() const { return next.size(); }
	bool operator==(const Dfa& o) const { return syms == o.syms && next == o.next && fin == o.fin; }
	// states from which a final state can be reached
	std::vector<char> Live() const {
		std::vector<char> l(fin.begin(), fin.end()); bool more = true;
		while (more) { more = false; for (size_t i = 0; i < next.size(); ++i) if (!l[i]) for (int t : next[i]) if (l[t]) { l[i] = 1; more = true; break; } }
		return l;
	}
	uint64_t Hash() const { uint64_t h = syms; for (auto& r : next) for (int t : r) h = sim::Mix(h, t); for (char f : fin) h = sim::Mix(h, f); return h; }
};

// Moore's algorithm, then numbering in breadth-first order.
inline Dfa Minimise(const Dfa& a) {
	size_t n = a.Size(); std::vector<int> cls(a.fin.begin(), a.fin.end()); size_t count = 0;
	for (;;) {
		std::map<std::vector<int>, int> ids; std::vector<int> to(n);
		for (size_t i = 0; i < n; ++i) {
			std::vector<int> sig(1, cls[i]); for (int t : a.next[i]) sig.push_back(cls[t]);
			to[i] = ids.insert(std::make_pair(sig, (int) ids.size())).first->second;
		}
		cls = to;
		if (ids.size() == count) break;
		count = ids.size();
	}
	Dfa r; r.syms = a.syms; std::map<int, int> num; std::vector<int> rep;
	num[cls[0]] = 0; rep.push_back(0);
	for (size_t i = 0; i < rep.size(); ++i) {
		std::vector<int> row;
		for (int t : a.next[rep[i]]) { auto it = num.insert(std::make_pair(cls[t], (int) num.size())); if (it.second) rep.push_back(t); row.push_back(it.first->second); }
		r.next.push_back(row); r.fin.push_back(a.fin[rep[i]]);
	}
	return r;
}
inline Dfa Det(const Nfa& a, size_t maxSubsets = 3000, size_t maxStates = 90) {
	auto close = [&](std::set<int> s) {
		std::vector<int> q(s.begin(), s.end());
		while (!q.empty()) { int x = q.back(); q.pop_back(); auto it = a.d[x].find(-1); if (it != a.d[x].end()) for (int t : it->second) if (s.insert(t).second) q.push_back(t); }
		return s;
	};
	Dfa r; r.syms = a.syms; std::map<std::set<int>, int> ids; std::vector<std::set<int>> sets;
	sets.push_back(close({ a.init })); ids[sets[0]] = 0;
	for (size_t i = 0; i < sets.size(); ++i) {
		std::set<int> cur = sets[i]; bool f = false; for (int x : cur) if (a.fin.count(x)) f = true;
		std::vector<int> row;
		for (int c = 0; c < a.syms; ++c) {
			std::set<int> to; for (int x : cur) { auto it = a.d[x].find(c); if (it != a.d[x].end()) to.insert(it->second.begin(), it->second.end()); }
			to = close(to);
			auto it = ids.insert(std::make_pair(to, (int) ids.size()));
			if (it.second) { sets.push_back(to); if (sets.size() > maxSubsets) throw TooBig(); }
			row.push_back(it.first->second);
		}
		r.next.push_back(row); r.fin.push_back(f);
	}
	r = Minimise(r);
	if (r.Size() > maxStates) throw TooBig();
	return r;
}
inline Nfa ToNfa(const Dfa& a) {
	Nfa n(a.syms, (int) a.Size());
	for (size_t i = 0; i < a.Size(); ++i) { for (int c = 0; c < a.syms; ++c) n.On((int) i, c, a.next[i][c]); if (a.fin[i]) n.fin.insert((int) i); }
	return n;
}
inline int Graft(Nfa& n, const Dfa& a) {              // copies a's states into n; returns the offset
	int off = (int) n.d.size();
	for (size_t i = 0; i < a.Size(); ++i) n.Add();
	for (size_t i = 0; i < a.Size(); ++i) for (int c = 0; c < a.syms; ++c) n.On(off + (int) i, c, off + a.next[i][c]);
	return off;
}
inline Dfa None(int k) { Nfa n(k, 1); return Det(n); }
inline Dfa Eps(int k) { Nfa n(k, 1); n.fin.insert(0); return Det(n); }
inline Dfa Sym(int k, const std::set<int>& cs) { Nfa n(k, 2); for (int c : cs) n.On(0, c, 1); n.fin.insert(1); return Det(n); }
inline Dfa Cat(const Dfa& a, const Dfa& b) {
	Nfa n = ToNfa(a); int off = Graft(n, b);
	for (int f : n.fin) n.On(f, -1, off);
	n.fin.clear(); for (size_t i = 0; i < b.Size(); ++i) if (b.fin[i]) n.fin.insert(off + (int) i);
	return Det(n);
}
template<class F> Dfa Product(const Dfa& a, const Dfa& b, F f) {
	Dfa r; r.syms = a.syms; std::map<std::pair<int, int>, int> ids; std::vector<std::pair<int, int>> q;
	q.push_back({ 0, 0 }); ids[q[0]] = 0;
	for (size_t i = 0; i < q.size(); ++i) {
		auto cur = q[i]; std::vector<int> row;
		for (int c = 0; c < a.syms; ++c) {
			std::pair<int, int> to(a.next[cur.first][c], b.next[cur.second][c]);
			auto it = ids.insert(std::make_pair(to, (int) ids.size())); if (it.second) q.push_back(to);
			row.push_back(it.first->second);
		}
		r.next.push_back(row); r.fin.push_back(f(a.fin[cur.first] != 0, b.fin[cur.second] != 0));
	}
	r = Minimise(r); if (r.Size() > 90) throw TooBig();
	return r;
}
inline Dfa Or(const Dfa& a, const Dfa& b) { return Product(a, b, [](bool x, bool y) { return x || y; }); }
inline Dfa And(const Dfa& a, const Dfa& b) { return Product(a, b, [](bool x, bool y) { return x && y; }); }
inline Dfa Not(const Dfa& a) { Dfa r = a; for (auto& f : r.fin) f = !f; return Minimise(r); }
inline Dfa Star(const Dfa& a) {
	Nfa n(a.syms, 1); int off = Graft(n, a); n.fin.insert(0); n.On(0, -1, off);
	for (size_t i = 0; i < a.Size(); ++i) if (a.fin[i]) n.On(off + (int) i, -1, 0);
	return Det(n);
}
inline Dfa Power(const Dfa& a, size_t k) { Dfa r = Eps(a.syms); while (k--) r = Cat(r, a); return r; }
inline Dfa Reverse(const Dfa& a) {
	Nfa n(a.syms, (int) a.Size() + 1); n.init = (int) a.Size(); n.fin.insert(0);
	for (size_t i = 0; i < a.Size(); ++i) { for (int c = 0; c < a.syms; ++c) n.On(a.next[i][c], c, (int) i); if (a.fin[i]) n.On(n.init, -1, (int) i); }
	return Det(n);
}
inline Dfa Prefix(const Dfa& a) { Dfa r = a; std::vector<char> l = a.Live(); r.fin = l; return Minimise(r); }
inline Dfa Suffix(const Dfa& a) {
	Nfa n = ToNfa(a); std::vector<char> l = a.Live(); n.init = n.Add();
	for (size_t i = 0; i < a.Size(); ++i) if (l[i]) n.On(n.init, -1, (int) i);   // all states of a are reachable
	return Det(n);
}
inline Dfa Anything(int k) { return Not(None(k)); }

}

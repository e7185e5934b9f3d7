// Languages over a small drawn alphabet: patterns with their reference automata, and the comparison of
// a scanner with a reference automaton over all reachable pairs of states.
#pragma once
#include "common.h"
#include "dfa.h"

namespace lang {
using namespace sim;

struct Alphabet {
	std::vector<unsigned char> letters; std::vector<unsigned char> others;
	int K() const { return (int) letters.size(); }
	int Other() const { return K(); }
	int Begin() const { return K() + 1; }
	int End() const { return K() + 2; }
	int Pad() const { return K() + 3; }
	int Syms() const { return K() + 4; }
	std::set<int> Bytes() const { std::set<int> s; for (int i = 0; i <= K(); ++i) s.insert(i); return s; }
	int SymOf(unsigned char c) const { for (int i = 0; i < K(); ++i) if (letters[i] == c) return i; return Other(); }
	// a character to deliver for the symbol
	Pire::Char Rep(int s) const { return s < K() ? letters[s] : s == Other() ? Pick(others) : s == Begin() ? (Pire::Char) Pire::BeginMark : (Pire::Char) Pire::EndMark; }
	std::vector<Pire::Char> All(int s) const {
		std::vector<Pire::Char> r;
		if (s == Other()) for (unsigned char c : others) r.push_back(c); else r.push_back(Rep(s));
		return r;
	}
	std::string Show(int s) const { return s < K() ? re::Show(std::string(1, (char) letters[s])) : s == Other() ? "?" : s == Begin() ? "^" : s == End() ? "$" : "#"; }
	std::string Show(const std::vector<int>& w) const { std::string r; for (int s : w) r += Show(s); return r; }
};
inline Alphabet DrawAlphabet() {
	static const unsigned char pool[] = { 'a', 'b', 'c', 'z', '\n', 0, 0x80, 0xFF, 0x7F, ' ' };
	Alphabet a; a.letters.push_back("abz"[Draw(3)]);
	size_t n = 1 + Draw(3);
	for (size_t i = 0; i < n; ++i) { unsigned char c = pool[Draw(sizeof(pool))]; if (std::find(a.letters.begin(), a.letters.end(), c) == a.letters.end()) a.letters.push_back(c); }
	for (int c = 0; c < 256; ++c) if (std::find(a.letters.begin(), a.letters.end(), (unsigned char) c) == a.letters.end()) a.others.push_back((unsigned char) c);
	return a;
}

// A pattern and its language.
struct Pat { std::string s; dfa::Dfa m; };
inline Pat GenPat(const Alphabet& a, int depth, bool andnot) {
	int k = a.Syms(); size_t r = Draw(depth > 0 ? 14 : 4);
	auto lit = [&]() {
		std::vector<int> ok; for (int i = 0; i < a.K(); ++i) if (isalpha(a.letters[i])) ok.push_back(i);
		int s = Pick(ok); return Pat{ std::string(1, (char) a.letters[s]), dfa::Sym(k, { s }) };
	};
	switch (r) {
	case 0: case 1: return lit();
	case 2: if (Draw(3) == 2) return Pat{ "()", dfa::Eps(k) }; return Pat{ ".", dfa::Sym(k, a.Bytes()) };
	case 3: { size_t w = Draw(3); if (w == 0) return Pat{ "^", dfa::Sym(k, { a.Begin() }) }; if (w == 1) return Pat{ "$", dfa::Sym(k, { a.End() }) }; return lit(); }
	case 4: case 5: case 6: { Pat x = GenPat(a, depth - 1, andnot), y = GenPat(a, depth - 1, andnot); return Pat{ "(" + x.s + y.s + ")", dfa::Cat(x.m, y.m) }; }
	case 7: case 8: { Pat x = GenPat(a, depth - 1, andnot), y = GenPat(a, depth - 1, andnot); return Pat{ "(" + x.s + "|" + y.s + ")", dfa::Or(x.m, y.m) }; }
	case 9: { Pat x = GenPat(a, depth - 1, andnot); return Pat{ "(" + x.s + ")*", dfa::Star(x.m) }; }
	case 10: { Pat x = GenPat(a, depth - 1, andnot); return Pat{ "(" + x.s + ")+", dfa::Cat(x.m, dfa::Star(x.m)) }; }
	case 11: { Pat x = GenPat(a, depth - 1, andnot); return Pat{ "(" + x.s + "|)", dfa::Or(x.m, dfa::Eps(k)) }; }
	case 12: {
		Pat x = GenPat(a, depth - 1, andnot); size_t lo = Draw(3), hi = lo + Draw(3); char buf[32];
		if (hi == lo && sim::Draw(2)) snprintf(buf, sizeof buf, "{%zu}", lo); else snprintf(buf, sizeof buf, "{%zu,%zu}", lo, hi);
		dfa::Dfa m = dfa::None(k); for (size_t i = lo; i <= hi; ++i) m = dfa::Or(m, dfa::Power(x.m, i));
		return Pat{ "(" + x.s + ")" + buf, m };
	}
	default:
		if (!andnot) return lit();
		if (Draw(2)) { Pat x = GenPat(a, depth - 1, andnot), y = GenPat(a, depth - 1, andnot); return Pat{ "(" + x.s + "&" + y.s + ")", dfa::And(x.m, y.m) }; }
		Pat x = GenPat(a, depth - 1, andnot); return Pat{ "(~(" + x.s + "))", dfa::Not(x.m) };
	}
}
inline Pire::Fsm ParsePat(const std::string& s, bool andnot) {
	std::vector<Pire::wchar32> v(s.begin(), s.end());
	Pire::Lexer l(v.begin(), v.end());
	if (andnot) l.AddFeature(Pire::Features::AndNotSupport());
	return l.Parse();
}

// ------------------------------------------------------------------ comparing a scanner with the model
template<class S> void Exact(const Alphabet& a, const S& s, const dfa::Dfa& m, const char* name) {
	std::vector<char> live = m.Live();
	typename S::State st; s.Initialize(st);
	std::map<std::pair<typename S::State, int>, int> seen; struct Q { typename S::State s; int m; int from, sym; }; std::vector<Q> q;
	q.push_back(Q{ st, 0, -1, 0 }); seen[{ st, 0 }] = 0;
	auto word = [&](int i) { std::vector<int> w; for (; i >= 0 && q[i].from >= 0; i = q[i].from) w.push_back(q[i].sym); std::reverse(w.begin(), w.end()); return a.Show(w); };
	for (size_t i = 0; i < q.size(); ++i) {
		Q c = q[i];
		SIM_CHECK(s.Final(c.s) == (m.fin[c.m] != 0), "language", "%s: \"%s\" is %saccepted", name, word((int) i).c_str(), s.Final(c.s) ? "" : "not ");
		SIM_CHECK(s.Dead(c.s) == !live[c.m], "dead", "%s: after \"%s\" Dead() is %d", name, word((int) i).c_str(), s.Dead(c.s));
		if (q.size() > 20000) Discard("large scanner");
		for (int y = 0; y < a.Syms() - 1; ++y) {
			typename S::State t = c.s; Pire::Step(s, t, a.Rep(y));
			int to = m.next[c.m][y];
			if (seen.insert({ { t, to }, 0 }).second) q.push_back(Q{ t, to, (int) i, y });
		}
	}
	Count("reach.pairs_compared", q.size());
}
template<class S> void Walk(const Alphabet& a, const S& s, const dfa::Dfa& m, const char* name, bool dead) {
	std::vector<char> live = m.Live();
	for (int w = 0; w < 14; ++w) {
		typename S::State st; s.Initialize(st); int cur = 0; std::vector<int> word; size_t len = Draw(14);
		for (size_t i = 0; ; ++i) {
			SIM_CHECK(s.Final(st) == (m.fin[cur] != 0), "language", "%s: \"%s\" is %saccepted", name, a.Show(word).c_str(), s.Final(st) ? "" : "not ");
			if (dead) SIM_CHECK(!s.Dead(st) || !live[cur], "dead", "%s: dead after \"%s\"", name, a.Show(word).c_str());
			if (i == len) break;
			int y = (int) Draw(a.Syms() - 1);
			if (!live[m.next[cur][y]] && Draw(4)) for (int k = 0; k < a.Syms() - 1; ++k) if (live[m.next[cur][(y + k) % (a.Syms() - 1)]]) { y = (y + k) % (a.Syms() - 1); break; }
			Pire::Step(s, st, a.Rep(y)); cur = m.next[cur][y]; word.push_back(y);
		}
	}
}
}

// Reference models of counting, and the workloads they apply to.
#pragma once
#include "build.h"

namespace cnt {

// ends[i]: where the matches of a pattern that start at i end
struct Spans {
	std::vector<re::Pos> ends;
	Spans(const re::P& p, const re::Syms& s, bool utf8) {
		if (s.size() + 1 >= re::MaxSyms) sim::Discard("text too long for the reference");
		re::Matcher m(s, utf8);
		for (size_t i = 0; i <= s.size(); ++i) { re::Pos b; b.set(i); ends.push_back(m.Adv(*p, b)); }
	}
	// the end of the longest non-empty match from i, or 0
	size_t Longest(size_t i) const { size_t r = 0; for (size_t j = ends[i]._Find_next(i); j < re::MaxSyms; j = ends[i]._Find_next(j)) r = j; return r; }
};
inline bool Nullable(const re::P& p, bool utf8) { re::Syms s; re::Matcher m(s, utf8); return m.From0(p)[0]; }

// how many positions end at least one match, for every prefix
inline std::vector<size_t> EndPositions(const Spans& m) {
	size_t n = m.ends.size(); std::vector<bool> e(n); std::vector<size_t> r(n);
	for (size_t i = 0; i < n; ++i) for (size_t j = m.ends[i]._Find_next(i); j < n; j = m.ends[i]._Find_next(j)) e[j] = true;
	for (size_t j = 1; j < n; ++j) r[j] = r[j - 1] + e[j];
	return r;
}
// the earliest-ending match after the end of the previous one, again and again, for every prefix
inline std::vector<size_t> EarliestEnds(const Spans& m) {
	size_t n = m.ends.size(), from = 0; std::vector<size_t> r(n);
	for (size_t j = 1; j < n; ++j) {
		bool hit = false;
		for (size_t i = from; i < j && !hit; ++i) hit = m.ends[i][j];
		r[j] = r[j - 1] + hit;
		if (hit) from = j;
	}
	return r;
}
// leftmost-longest matches that do not overlap
inline std::vector<std::pair<size_t, size_t>> LeftmostLongest(const Spans& m, size_t from, size_t to) {
	std::vector<std::pair<size_t, size_t>> r;
	for (size_t i = from; i < to; ) { size_t e = m.Longest(i); if (e) { r.push_back(std::make_pair(i, e)); i = e; } else ++i; }
	return r;
}
// the longest chain  match separator match separator ... match  within the first `upto` symbols, for every prefix
inline std::vector<size_t> Chains(const Spans& m, const Spans& sep) {
	size_t n = m.ends.size(); std::vector<size_t> e(n), g(n), r(n);
	for (size_t i = 0; i < n; ++i) {
		if (e[i]) for (size_t j = sep.ends[i]._Find_first(); j < n; j = sep.ends[i]._Find_next(j)) g[j] = std::max(g[j], e[i]);
		for (size_t j = m.ends[i]._Find_next(i); j < n; j = m.ends[i]._Find_next(j)) e[j] = std::max(e[j], g[i] + 1);
	}
	for (size_t j = 1; j < n; ++j) r[j] = std::max(r[j - 1], e[j]);
	return r;
}

// Tokens: patterns whose matches can be told apart without looking back. A letter of a set, a run of
// them, or a word whose first letter does not recur.
inline re::P Token(const re::Opts& o) {
	size_t k = sim::Draw(3);
	if (k == 2) {
		static const char* const words[] = { "ab", "abb", "abc", "acb", "abbb", "bca" };
		re::P n = std::make_shared<re::Node>(re::Cat);
		for (const char* w = words[sim::Draw(6)]; *w; ++w) { re::P l = std::make_shared<re::Node>(re::Chars); re::AddCp(*l, *w, o); n->kids.push_back(l); }
		return n;
	}
	re::P c = std::make_shared<re::Node>(re::Chars);
	for (size_t n = 1 + sim::Draw(3), i = 0; i < n; ++i) re::AddCp(*c, "abcd"[i], o);
	if (c->toks.size() > 1) c->alone = "";
	return k ? re::Mk(re::Plus, { c }) : c;
}
// ---- documents, one after another, each between marks
struct Stream {
	re::Syms syms; std::vector<size_t> ends;       // ends: positions just behind an end mark
	void Add(const std::string& doc) { re::Syms d = re::ToSyms(doc, true, true); syms.insert(syms.end(), d.begin(), d.end()); ends.push_back(syms.size()); }
	bool AtEnd(size_t pos) const { for (size_t e : ends) if (e == pos) return true; return false; }
	std::string Show() const { std::string r; for (re::Sym c : syms) { if (c == re::SBegin) r += "<begin>"; else if (c == re::SEnd) r += "<end>"; else r += (char) c; } return r; }
};
// Takes the next delivery to all scanners: a mark, or a drawn chunk of bytes at a drawn place.
template<class Step, class Run> size_t Deliver(world::Nic& nic, const Stream& s, size_t pos, Step step, Run run) {
	if (s.syms[pos] > 255) { step((unsigned) s.syms[pos]); sim::Log("  %s mark", s.syms[pos] == re::SBegin ? "begin" : "end"); return pos + 1; }
	std::string t;
	for (size_t i = pos; i < s.syms.size() && s.syms[i] <= 255; ++i) t += (char) s.syms[i];
	size_t n = wl::DrawChunk(t.size());
	const char* p = nic.Place(t.substr(0, n));
	bool bytes = sim::Draw(6) == 5;
	sim::Log("  %zu bytes at %zu (address %%64 = %zu)%s", n, pos, (size_t) p & 63, bytes ? " byte by byte" : "");
	if (bytes) for (size_t i = 0; i < n; ++i) step((unsigned char) p[i]);
	else run(p, p + n);
	return pos + n;
}

}

// Workload generator and executable reference model for patterns.
// The reference is a direct denotational matcher over the syntax tree: it never builds an
// automaton and shares no code with the library.
#pragma once
#include "sim.h"
#include <bitset>
#include <memory>
#include <string>
#include <vector>
#include <set>
#include <string.h>
#include <stdio.h>
#include <ctype.h>

namespace re {

static const size_t MaxSyms = 512;              // longest symbol sequence the reference handles
typedef std::bitset<MaxSyms> Pos;
typedef unsigned short Sym;                      // 0..255 bytes, then the two marks
static const Sym SBegin = 258, SEnd = 259;       // checked against the library's values at start-up
typedef std::vector<Sym> Syms;

enum Kind { Chars, Dot, Begin, End, Cat, Alt, Star, Plus, Opt, Rep, And, Not, Empty };

struct Node;
typedef std::shared_ptr<Node> P;
struct Node {
	Kind k;
	std::vector<std::string> strs;               // Chars: the byte strings of the set (one byte each in Latin-1)
	std::vector<std::string> toks;               // Chars: how each element of the set is written inside brackets
	std::string alone;                           // Chars: how the set is written without brackets, if it can be
	bool neg;                                    // Chars: [^...]
	int lo, hi;                                  // Rep: {lo,hi}, hi < 0 means unbounded
	std::vector<P> kids;
	explicit Node(Kind kk): k(kk), neg(false), lo(0), hi(0) {}
};

struct Opts {
	bool nul = false;                             // patterns may contain literal NUL bytes
	bool utf8 = false, andnot = false, marks = false, icase = false, glyphs = false;
	int depth = 3;
	int maxRep = 4;
	size_t alphabet = 3;                         // how many distinct letters patterns use
	bool dot = true, emptyAlt = true, classes = true;
};

inline std::string Utf8(uint32_t c) {
	std::string s;
	if (c < 0x80) s += (char) c;
	else if (c < 0x800) { s += (char) (0xC0 | c >> 6); s += (char) (0x80 | (c & 63)); }
	else if (c < 0x10000) { s += (char) (0xE0 | c >> 12); s += (char) (0x80 | (c >> 6 & 63)); s += (char) (0x80 | (c & 63)); }
	else { s += (char) (0xF0 | c >> 18); s += (char) (0x80 | (c >> 12 & 63)); s += (char) (0x80 | (c >> 6 & 63)); s += (char) (0x80 | (c & 63)); }
	return s;
}

// ------------------------------------------------------------------ generation
inline uint32_t GenLetter(const Opts& o) {
	static const uint32_t ascii[] = { 'a', 'b', 'c', 'd', 'x', 'A', 'B', '0', '7', ' ', '_', '-', '\n', '\t', '/', 'Z', ']', '&', '~', '*', '.', '\\', '{', '|', '^', '$', '(', 1, 127, '"', 0, 0x1F };
	static const uint32_t wide[] = { 0xE9, 0x436, 0x20AC, 0x1F600, 0x44F, 0x7FF, 0x800, 0xFFFD, 0xF02A, 0x1F0A1, 0xF0FF, 0x1F02A, 0xFF, 0x17C, 0x10000, 0x10FFFF, 0xF05D, 0x1F05B, 0xFFFF, 0x80 };
	static const uint32_t alike[] = { 'a', 'A', 'e', 0x401, 0x451, 0x435, 'E', 0x410, 0x430, 'm', 0x442, 'u', 0x438, 'P', 0x440, 'X', 'y', 'M', 0x422, 0x412 };
	if (o.glyphs && sim::Draw(4) == 3) { uint32_t c = alike[sim::Draw(20)]; if (o.utf8 || c < 128) return c; }
	if (o.utf8 && sim::Draw(4) == 3) return wide[sim::Draw(2) ? sim::Draw(8) : sim::Draw(20)];
	if (sim::Draw(8) == 7) return ascii[sim::Draw(32)];
	return ascii[sim::Draw(o.alphabet)];
}
inline std::string RenderCp(uint32_t c, bool inClass, const Opts& o);
// The letters the library documents as looking alike: each row is a class of its own.
inline const std::vector<uint32_t>* Alike(uint32_t c) {
	static const std::vector<std::vector<uint32_t>> rows = {
		{ 'A', 0x410 }, { 'B', 0x412 }, { 'C', 0x421 }, { 'E', 0x415, 0x401 }, { 'H', 0x41D }, { 'K', 0x41A }, { 'M', 0x41C }, { 'O', 0x41E }, { 'P', 0x420 }, { 'T', 0x422 }, { 'X', 0x425 },
		{ 'a', 0x430 }, { 'c', 0x441 }, { 'e', 0x435, 0x451 }, { 'm', 0x442 }, { 'o', 0x43E }, { 'p', 0x440 }, { 'u', 0x438 }, { 'x', 0x445 }, { 'y', 0x443 } };
	for (auto& r : rows) for (uint32_t x : r) if (x == c) return &r;
	return nullptr;
}
inline void AddStr(Node& n, uint32_t c, const Opts& o) {
	std::vector<uint32_t> all(1, c);
	if (o.icase) {
		// the letters the generator knows: ASCII, cyrillic and Latin-1 letters
		if (c < 128 && isalpha((int) c)) all.push_back(c ^ 32);
		if ((c >= 0x410 && c <= 0x44F) || (c >= 0xE0 && c <= 0xFE && c != 0xF7) || (c >= 0xC0 && c <= 0xDE && c != 0xD7))
			all.push_back(c >= 0x410 ? (c < 0x430 ? c + 32 : c - 32) : c ^ 32);
		if (c == 0x401 || c == 0x451) all.push_back(c == 0x401 ? 0x451 : 0x401);
		if (c == 0xFF) all.push_back(0x178);
		if (c == 0x17C) all.push_back(0x17B);
		if (c == 0x100 || c == 0x101) all.push_back(c ^ 1);
	}
	if (o.glyphs) { std::vector<uint32_t> more; for (uint32_t x : all) if (auto* r = Alike(x)) more.insert(more.end(), r->begin(), r->end()); else more.push_back(x); all.swap(more); }
	for (uint32_t x : all) {
		if (!o.utf8 && x > 127) continue;        // not encodable: the set does not contain it
		n.strs.push_back(o.utf8 ? Utf8(x) : std::string(1, (char) x));
	}
}
inline void AddCp(Node& n, uint32_t c, const Opts& o) {
	std::string in = RenderCp(c, true, o), out = RenderCp(c, false, o);
	char b[16];
	if (c == '-' && n.toks.empty() && sim::Draw(2)) in = "-";    // stands for itself where it cannot be a range
	if ((c == '^' || c == '[') && (c == '[' || !n.toks.empty()) && sim::Draw(2)) in = std::string(1, (char) c);
	if (c == '\n' || c == '\t' || c == '\r') { if (sim::Draw(2)) in = out = c == '\n' ? "\\n" : c == '\t' ? "\\t" : "\\r"; }
	else if (strchr("*+{}()$?.&~|", (int) c) && c && c < 128) { if (c != '|' && sim::Draw(4) == 3) in = std::string("\\") + (char) c; }
	else if (sim::Draw(24) == 23) { snprintf(b, sizeof b, c < 256 && sim::Draw(2) ? "\\x%02x" : "\\x{%x}", c); in = out = b; }
	n.toks.push_back(in);
	n.alone = n.toks.size() == 1 ? out : "";
	AddStr(n, c, o);
}
inline void AddRange(Node& n, uint32_t a, uint32_t b, const Opts& o) {
	n.toks.push_back(RenderCp(a, true, o) + "-" + RenderCp(b, true, o)); n.alone = "";
	for (uint32_t c = a; c <= b; ++c) AddStr(n, c, o);
}
// The documented character classes: \l latin letters, \c cyrillic letters, \w either, \d digits, \s blanks.
inline void AddClass(Node& n, char k, const Opts& o) {
	n.toks.push_back(std::string("\\") + k);
	n.alone = n.toks.size() == 1 ? std::string("\\") + k : "";
	auto span = [&](uint32_t a, uint32_t b) { for (uint32_t c = a; c <= b; ++c) AddStr(n, c, o); };
	char l = (char) tolower(k);
	if (l == 'l' || l == 'w') { span('A', 'Z'); span('a', 'z'); }
	if (l == 'c' || l == 'w') { span(0x410, 0x44F); span(0x401, 0x401); span(0x451, 0x451); }
	if (l == 'd') span('0', '9');
	if (l == 's') { span(' ', ' '); span('\t', '\t'); span('\r', '\r'); span('\n', '\n'); span(0xA0, 0xA0); }
	if (k != l) n.neg = true;
}
inline P GenChars(const Opts& o) {
	P n = std::make_shared<Node>(Chars);
	size_t cnt = 1;
	if (sim::Draw(3) != 2) { AddCp(*n, GenLetter(o), o); return n; }
	if (o.classes && sim::Draw(4) == 3) {
		// a class on its own; an upper case letter is the negated class
		AddClass(*n, (o.utf8 ? "wdslcWDSLC" : "wdslWDSL")[sim::Draw(o.utf8 ? 10 : 8)], o);
		return n;
	}
	cnt = 1 + sim::Draw(4); bool neg = sim::Draw(2) == 1;
	for (size_t i = 0; i < cnt; ++i) {
		size_t r = o.classes ? sim::Draw(8) : 0;
		if (r == 5 && sim::Draw(8) == 7) { AddCp(*n, "-[^"[sim::Draw(3)], o); continue; }
		if (r == 7) AddClass(*n, (o.utf8 ? "wdslc" : "wdsl")[sim::Draw(o.utf8 ? 5 : 4)], o);
		else if (r == 6) {
			static const uint32_t base[] = { 'a', 'b', 'A', '0', 'x', '[', '*', 'Y', 0, 1, 0x430, 0xF029, 0x1F0FD, 0xFE, 0x7E };
			uint32_t a = base[sim::Draw(o.utf8 ? 15 : 10)];
			AddRange(*n, a, a + sim::Draw(4), o);
		}
		else AddCp(*n, GenLetter(o), o);
	}
	if (neg) { n->neg = true; n->alone = ""; }
	else if (n->toks.size() > 1) n->alone = "";
	return n;
}
inline P GenNode(const Opts& o, int depth) {
	if (depth <= 0) {
		size_t r = sim::Draw(8);
		if (o.marks && r == 7) return std::make_shared<Node>(sim::Draw(2) ? End : Begin);
		if (o.dot && r == 6) return std::make_shared<Node>(Dot);
		return GenChars(o);
	}
	size_t r = sim::Draw(o.andnot ? 12 : 10);
	switch (r) {
	case 0: return GenNode(o, 0);
	case 1: case 2: case 3: {
		P n = std::make_shared<Node>(Cat);
		size_t c = 2 + sim::Draw(3);
		for (size_t i = 0; i < c; ++i) n->kids.push_back(GenNode(o, depth - 1));
		return n;
	}
	case 4: case 5: {
		P n = std::make_shared<Node>(Alt);
		size_t c = 2 + sim::Draw(2);
		for (size_t i = 0; i < c; ++i) n->kids.push_back(o.emptyAlt && sim::Draw(8) == 7 ? std::make_shared<Node>(Empty) : GenNode(o, depth - 1));
		return n;
	}
	case 6: { P n = std::make_shared<Node>(Star); n->kids.push_back(GenNode(o, depth - 1)); return n; }
	case 7: { P n = std::make_shared<Node>(Plus); n->kids.push_back(GenNode(o, depth - 1)); return n; }
	case 8: { P n = std::make_shared<Node>(Opt); n->kids.push_back(GenNode(o, depth - 1)); return n; }
	case 9: {
		P n = std::make_shared<Node>(Rep);
		n->lo = (int) sim::Draw(o.maxRep);
		size_t m = sim::Draw(3);
		if (m == 2) n->hi = -1;
		else if (m == 1) n->hi = n->lo + 1 + (int) sim::Draw(2);
		else { if (!n->lo && sim::Draw(4) != 3) n->lo = 1; n->hi = n->lo; n->neg = sim::Draw(3) == 2; }
		n->kids.push_back(GenNode(o, depth - 1));
		return n;
	}
	case 10: {
		P n = std::make_shared<Node>(And);
		n->kids.push_back(GenNode(o, depth - 1)); n->kids.push_back(GenNode(o, depth - 1));
		return n;
	}
	default: { P n = std::make_shared<Node>(Not); n->kids.push_back(GenNode(o, depth - 1)); return n; }
	}
}
inline P Literal(const std::string& s) {
	P n = std::make_shared<Node>(Cat);
	Opts o;
	for (char c : s) { P l = std::make_shared<Node>(Chars); AddCp(*l, (unsigned char) c, o); n->kids.push_back(l); }
	return n;
}
inline P Mk(Kind k, std::vector<P> kids) { P n = std::make_shared<Node>(k); n->kids = kids; return n; }
inline size_t Size(const P& n) { size_t s = 1; for (auto& k : n->kids) s += Size(k); return s; }
inline bool Has(const P& n, Kind k) { if (n->k == k) return true; for (auto& c : n->kids) if (Has(c, k)) return true; return false; }

// ------------------------------------------------------------------ rendering
inline std::string RenderCp(uint32_t c, bool inClass, const Opts& o) {
	char buf[16];
	if (c >= 0x80 && (c & 1) && sim::Draw(3)) { snprintf(buf, sizeof buf, "\\x{%X}", c); return buf; }
	if ((c < 32 || c == 127) && ((c == 0 && !o.nul) || sim::Draw(3))) { snprintf(buf, sizeof buf, "\\x%02X", c); return buf; }
	if (c < 128) {
		if (!c) return std::string(1, '\0');
		const char* sp = inClass ? "^[]-\\" : "|().*+?^$\\[]{}";
		if (strchr(sp, (int) c) || (o.andnot && !inClass && (c == '&' || c == '~'))) return std::string("\\") + (char) c;
		return std::string(1, (char) c);
	}
	return Utf8(c);
}
inline std::string RenderAtom(const P& n, const Opts& o);
inline std::string Render(const P& n, const Opts& o) {
	std::string s;
	switch (n->k) {
	case Chars:
		if (!n->alone.empty()) return n->alone;
		s = n->neg ? "[^" : "[";
		for (auto& t : n->toks) s += t;
		return s + "]";
	case Dot: return ".";
	case Begin: return "^";
	case End: return "$";
	case Empty: return "";
	case Cat: for (auto& k : n->kids) s += (k->k == Alt || k->k == And || k->k == Not) ? "(" + Render(k, o) + ")" : Render(k, o); return s;
	case Alt: for (size_t i = 0; i < n->kids.size(); ++i) s += (i ? "|" : "") + Render(n->kids[i], o); return s;
	case And: for (size_t i = 0; i < n->kids.size(); ++i) s += (i ? "&" : "") + ((n->kids[i]->k == Alt) ? "(" + Render(n->kids[i], o) + ")" : Render(n->kids[i], o)); return s;
	case Not: return "~" + ((n->kids[0]->k == Alt || n->kids[0]->k == And || n->kids[0]->k == Not) ? "(" + Render(n->kids[0], o) + ")" : Render(n->kids[0], o));
	case Star: return RenderAtom(n->kids[0], o) + "*";
	case Plus: return RenderAtom(n->kids[0], o) + "+";
	case Opt: return RenderAtom(n->kids[0], o) + "?";
	case Rep: {
		char b[48];
		if (n->hi == n->lo && n->neg) snprintf(b, sizeof b, "{%d,%d}", n->lo, n->hi);
		else if (n->hi == n->lo) snprintf(b, sizeof b, "{%d}", n->lo);
		else if (n->hi < 0) snprintf(b, sizeof b, "{%d,}", n->lo);
		else snprintf(b, sizeof b, "{%d,%d}", n->lo, n->hi);
		return RenderAtom(n->kids[0], o) + b;
	}
	}
	return s;
}
inline std::string RenderAtom(const P& n, const Opts& o) {
	if (n->k == Chars || n->k == Dot) return Render(n, o);
	return "(" + Render(n, o) + ")";
}

// ------------------------------------------------------------------ reference matcher
class Matcher {
	const Syms& s; bool utf8; size_t n; uint64_t steps;
public:
	Matcher(const Syms& syms, bool u): s(syms), utf8(u), n(syms.size()), steps(0) {}
	Pos From0(const P& root) { Pos p; p.set(0); return Adv(*root, p); }
	size_t DotLen(size_t i, size_t len[2]) const { // number of lengths a dot may take at i
		if (i >= n || s[i] > 255) return 0;
		if (!utf8) { len[0] = 1; return 1; }
		unsigned c = s[i];
		auto cont = [&](size_t k) { return k < n && s[k] >= 0x80 && s[k] <= 0xBF; };
		if (c < 0x80) { len[0] = 1; return 1; }
		if (c >= 0xC0 && c <= 0xDF && cont(i + 1)) { len[0] = 2; return 1; }
		if (c >= 0xE0 && c <= 0xEF && cont(i + 1) && cont(i + 2)) { len[0] = 3; return 1; }
		if (c >= 0xF0 && c <= 0xF7 && cont(i + 1) && cont(i + 2) && cont(i + 3)) { len[0] = 4; return 1; }
		return 0;
	}
	bool At(size_t i, const std::string& t) const {
		if (i + t.size() > n) return false;
		for (size_t k = 0; k < t.size(); ++k) if (s[i + k] != (unsigned char) t[k]) return false;
		return true;
	}
	Pos Adv(const Node& nd, const Pos& in) {
		Pos out;
		if (++steps > 2000000) sim::Discard("reference too slow");
		switch (nd.k) {
		case Empty: return in;
		case Chars:
			for (size_t i = in._Find_first(); i < n; i = in._Find_next(i)) {
				if (!nd.neg) { for (auto& t : nd.strs) if (At(i, t)) out.set(i + t.size()); }
				else {
					size_t l[2];
					if (DotLen(i, l)) {
						bool hit = false;
						for (auto& t : nd.strs) if (t.size() == l[0] && At(i, t)) hit = true;
						if (!hit) out.set(i + l[0]);
					}
				}
			}
			return out;
		case Dot:
			for (size_t i = in._Find_first(); i < n; i = in._Find_next(i)) { size_t l[2]; if (DotLen(i, l)) out.set(i + l[0]); }
			return out;
		case Begin: case End:
			for (size_t i = in._Find_first(); i < n; i = in._Find_next(i)) if (s[i] == (nd.k == Begin ? SBegin : SEnd)) out.set(i + 1);
			return out;
		case Cat: { Pos p = in; for (auto& k : nd.kids) { p = Adv(*k, p); if (p.none()) break; } return p; }
		case Alt: for (auto& k : nd.kids) out |= Adv(*k, in); return out;
		case Star: return Closure(*nd.kids[0], in);
		case Plus: return Closure(*nd.kids[0], Adv(*nd.kids[0], in));
		case Opt: return in | Adv(*nd.kids[0], in);
		case Rep: {
			Pos p = in;
			for (int i = 0; i < nd.lo; ++i) p = Adv(*nd.kids[0], p);
			if (nd.hi < 0) return Closure(*nd.kids[0], p);
			Pos acc = p;
			for (int i = nd.lo; i < nd.hi; ++i) { p = Adv(*nd.kids[0], p); acc |= p; }
			return acc;
		}
		case And:
			for (size_t i = in._Find_first(); i <= n && i < MaxSyms; i = in._Find_next(i)) {
				Pos st; st.set(i);
				Pos p = Adv(*nd.kids[0], st);
				for (size_t k = 1; k < nd.kids.size() && p.any(); ++k) p &= Adv(*nd.kids[k], st);
				out |= p;
			}
			return out;
		case Not:
			for (size_t i = in._Find_first(); i <= n && i < MaxSyms; i = in._Find_next(i)) {
				Pos st; st.set(i);
				Pos p = Adv(*nd.kids[0], st);
				for (size_t j = i; j <= n; ++j) if (!p[j]) out.set(j);
			}
			return out;
		}
		return out;
	}
	Pos Closure(const Node& nd, Pos in) {
		Pos all = in, fresh = in;
		while (fresh.any()) { Pos nx = Adv(nd, fresh); fresh = nx & ~all; all |= nx; }
		return all;
	}
};

// A compiled reference: language = [anything] pattern [anything] over bytes and marks.
struct Ref {
	P root; bool surround; bool utf8;
	// verdict after each prefix of `syms` (result[k]: after k symbols)
	Pos Verdicts(const Syms& syms) const {
		Matcher m(syms, utf8);
		if (syms.size() + 1 >= MaxSyms) sim::Discard("text too long for the reference");
		if (!surround) return m.From0(root);
		Pos all; for (size_t i = 0; i <= syms.size(); ++i) all.set(i);
		Pos hit = m.Adv(*root, all), out;
		size_t first = hit._Find_first();
		for (size_t j = first; j <= syms.size(); ++j) out.set(j);
		return out;
	}
};
inline Syms ToSyms(const std::string& text, bool begin, bool end) {
	Syms s;
	if (begin) s.push_back(SBegin);
	for (unsigned char c : text) s.push_back(c);
	if (end) s.push_back(SEnd);
	return s;
}

// ------------------------------------------------------------------ texts
inline void Noise(std::string& out, const Opts& o, size_t n) {
	for (size_t i = 0; i < n; ++i) {
		size_t r = sim::Draw(16);
		if (r == 15) out += (char) sim::Draw(256);
		else { uint32_t c = GenLetter(o); out += o.utf8 ? Utf8(c) : std::string(1, (char) c); }
	}
}
inline void Sample(const P& n, const Opts& o, std::string& out, int fuel = 40) {
	if (out.size() > 300) return;
	switch (n->k) {
	case Chars:
		if (!n->neg && !n->strs.empty()) out += sim::Pick(n->strs);
		else { Noise(out, o, 1); }
		break;
	case Dot: Noise(out, o, 1); break;
	case Begin: case End: case Empty: break;
	case Cat: for (auto& k : n->kids) Sample(k, o, out, fuel - 1); break;
	case Alt: Sample(sim::Pick(n->kids), o, out, fuel - 1); break;
	case And: Sample(n->kids[0], o, out, fuel - 1); break;
	case Not: Noise(out, o, sim::Draw(4)); break;
	case Star: case Plus: case Opt: case Rep: {
		size_t lo = n->k == Plus ? 1 : n->k == Rep ? (size_t) n->lo : 0;
		size_t extra = n->k == Opt ? sim::Draw(2) : n->k == Rep && n->hi >= 0 ? sim::Draw(n->hi - n->lo + 1) : sim::Draw(4);
		if (fuel > 30 && (n->k == Star || n->k == Plus) && sim::Draw(8) == 7) extra += sim::Draw(40);
		for (size_t i = 0; i < lo + extra; ++i) Sample(n->kids[0], o, out, fuel - 4);
		break;
	}
	}
}
// A text biased towards (near-)matches, long runs of one byte (which reach the word-at-a-time
// and fast-forward paths) and late exits from such runs.
inline std::string GenText(const P& n, const Opts& o, size_t maxLen) {
	std::string s;
	size_t pieces = sim::Draw(5);
	for (size_t i = 0; i < pieces; ++i) {
		switch (sim::Draw(6)) {
		case 0: Sample(n, o, s); break;
		case 1: Noise(s, o, sim::Draw(12)); break;
		case 2: { std::string t; Sample(n, o, t); if (!t.empty()) t.erase(sim::Draw(t.size()), 1 + sim::Draw(2)); s += t; break; }
		case 3: { std::string t; Noise(t, o, 1); size_t r = sim::Draw(90); for (size_t k = 0; k < r; ++k) s += t; break; }
		case 4: { std::string t; Sample(n, o, t); if (!t.empty()) t[sim::Draw(t.size())] = (char) sim::Draw(256); s += t; break; }
		case 5: { char c = (char) sim::Draw(256); s += std::string(sim::Draw(70), c); Sample(n, o, s); break; }
		}
		if (s.size() > maxLen) break;
	}
	if (s.size() > maxLen) s.resize(maxLen);
	return s;
}
inline std::string Show(const std::string& s) {
	std::string r; char b[8];
	for (size_t i = 0; i < s.size();) {
		size_t j = i; while (j < s.size() && s[j] == s[i]) ++j;
		unsigned char c = s[i];
		if (c >= 32 && c < 127 && c != '\\' && c != '<') { b[0] = c; b[1] = 0; } else snprintf(b, sizeof b, "\\x%02X", c);
		if (j - i > 4) { char q[32]; snprintf(q, sizeof q, "<%s*%zu>", b, j - i); r += q; i = j; }
		else { r += b; ++i; }
	}
	return r;
}

}

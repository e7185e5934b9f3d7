// P13: captured substrings. The span a capturing scanner reports is one that the group takes in a match of
// the pattern on the text read so far, whenever every match goes through the group there is such a span, and
// the preferences of greedy and non-greedy repetitions decide which. Documents come in chunks, over several
// connections at a time, some of which restart or return to an earlier position; every connection is served
// by its own object: the compiled scanner, a copy, a reloaded or a mapped one.
#include "common.h"
#include "count.h"
using namespace sim;

namespace {

typedef std::pair<size_t, size_t> Span;

re::P Over(const char* letters, const re::Opts& o, int depth) {
	size_t r = depth > 0 ? Draw(6) : 0;
	switch (r) {
	case 1: case 2: return re::Mk(re::Cat, { Over(letters, o, depth - 1), Over(letters, o, depth - 1) });
	case 3: return re::Mk(re::Alt, { Over(letters, o, depth - 1), Over(letters, o, depth - 1) });
	case 4: return re::Mk(Draw(2) ? re::Plus : re::Star, { Over(letters, o, depth - 1) });
	case 5: return re::Mk(re::Opt, { Over(letters, o, depth - 1) });
	}
	re::P c = std::make_shared<re::Node>(re::Chars);
	for (size_t n = 1 + (Draw(3) == 2 ? Draw(3) : 0), i = 0; i < n; ++i) re::AddCp(*c, letters[Draw(strlen(letters))], o);
	if (c->toks.size() > 1) c->alone = "";
	return c;
}
re::P Nothing() { return std::make_shared<re::Node>(re::Empty); }

// pre ( body ) post, the group perhaps repeated; `without`: matches that avoid the group, if there can be any
struct Pattern {
	re::P pre, body, post, without; re::Opts o; int lo = 1, hi = 1;
	bool fast = false, surround = true;
	enum { Any, Earliest, Prefer } pick = Any; bool lastBegin = false, anyBegin = false, longest = false;
	std::string text; int index = 1;
	std::vector<re::P> samples;
};

// '?' behind some of the repetitions: it changes preferences, not the language
std::string SomeNonGreedy(const std::string& p) {
	std::string r; bool cls = false;
	for (size_t i = 0; i < p.size(); ++i) {
		r += p[i];
		if (p[i] == '\\') { if (i + 1 < p.size()) r += p[++i]; continue; }
		if (cls) { if (p[i] == ']') cls = false; continue; }
		if (p[i] == '[') { cls = true; if (i + 1 < p.size() && p[i + 1] == '^') r += p[++i]; continue; }
		if ((p[i] == '*' || p[i] == '+' || p[i] == '?') && (i + 1 == p.size() || !strchr("*+?{", p[i + 1])) && Draw(2)) r += '?';
	}
	return r;
}
int Groups(const std::string& p) {
	int n = 0; bool cls = false;
	for (size_t i = 0; i < p.size(); ++i) {
		if (p[i] == '\\') ++i;
		else if (cls) cls = p[i] != ']';
		else if (p[i] == '[') cls = true;
		else if (p[i] == '(') ++n;
	}
	return n;
}
std::string Part(const re::P& n, const re::Opts& o) { return n->k == re::Empty && Draw(2) ? "" : re::RenderAtom(n, o); }

Pattern DrawFree() {
	Pattern p; p.o = wl::DrawOpts(); p.o.andnot = false; p.o.depth = 1 + (int) Draw(2); p.o.maxRep = 3;
	auto part = [&](size_t n) { return Draw(5) == 4 ? Nothing() : wl::DrawPattern(p.o, n); };
	p.pre = part(8); p.body = part(10); p.post = part(8);
	std::string a = Part(p.pre, p.o), b = re::Render(p.body, p.o), c = Part(p.post, p.o), left = a, right;
	switch (Draw(7)) {
	case 0: case 1: right = c; break;
	case 2: p.lo = 0; right = "?" + c; break;
	case 3: { static const struct { const char* s; int lo, hi; } q[] = { { "*", 0, -1 }, { "+", 1, -1 }, { "{2}", 2, 2 }, { "{1,3}", 1, 3 }, { "{0,2}", 0, 2 } }; size_t k = Draw(5); right = q[k].s + c; p.lo = q[k].lo; p.hi = q[k].hi; break; }
	case 4: { re::P d = part(8); p.without = d; right = c + "|" + Part(d, p.o); break; }
	case 5: { re::P d = part(8); p.without = d; left = Part(d, p.o) + "|" + a; right = c; break; }
	case 6: { re::P d = part(8); p.without = re::Mk(re::Cat, { p.pre, d, p.post }); left = a + "("; right = "|" + Part(d, p.o) + ")" + c; break; }
	}
	if (p.lo == 0) p.without = re::Mk(re::Cat, { p.pre, p.post });
	if (Draw(2)) { left = SomeNonGreedy(left); b = SomeNonGreedy(b); right = SomeNonGreedy(right); }
	p.index = Groups(left) + 1; p.text = left + "(" + b + ")" + right;
	if (p.without) p.samples.push_back(p.without);
	return p;
}
// d ( body ) f, where the body has neither d nor f: the span is plain from the text. The fast scanner is for such
// patterns only, and moreover a later place in the body must not look like its beginning (its automaton is minimised
// by language, which then merges the two): the body is one run of a set, or begins with letters of its own.
Pattern DrawDelimited() {
	Pattern p; p.fast = true; p.o = wl::DrawOpts(); p.o.andnot = false; p.o.depth = 1 + (int) Draw(2); p.o.marks = Draw(3) == 2;
	p.surround = Draw(4) != 3; p.pick = Pattern::Earliest;
	re::P d = Over("=:", p.o, 0), f = Draw(6) == 5 ? std::make_shared<re::Node>(re::End) : Draw(3) || p.o.utf8 ? Over(";,=", p.o, 0) : nullptr; // one byte in any case
	if (!f) { f = std::make_shared<re::Node>(re::Chars); f->neg = true; for (char c = 'a'; c <= 'd'; ++c) re::AddCp(*f, c, p.o); f->alone = ""; }
	if (Draw(3) == 2) p.body = re::Mk(re::Plus, { Over("abcd", p.o, 0) });
	else { p.body = re::Mk(re::Cat, { Over("ab", p.o, (int) Draw(2)), Over("cd", p.o, (int) Draw(4)) }); if (cnt::Nullable(p.body->kids[0], p.o.utf8)) p.body->kids[0] = Over("ab", p.o, 0); }
	re::P a = Draw(2) ? Nothing() : p.surround ? wl::DrawPattern(p.o, 8) : Over("abcxy", p.o, 2);
	re::P c = p.surround || f->k == re::End ? Nothing() : Over("ab;", p.o, 1);
	p.pre = re::Mk(re::Cat, { a, d }); p.post = re::Mk(re::Cat, { f, c });
	std::string left = Part(a, p.o) + re::Render(d, p.o);
	p.index = Groups(left) + 1; p.text = left + "(" + re::Render(p.body, p.o) + ")" + re::Render(f, p.o) + Part(c, p.o);
	return p;
}
// one repetition before the group, one in it: greedy ones take as much as they can, non-greedy ones as little
Pattern DrawPreference() {
	Pattern p; p.o = wl::DrawOpts(); p.o.andnot = p.o.marks = p.o.utf8 = false; p.pick = Pattern::Prefer;
	re::P d = Over("=x", p.o, 0), f = Over(";,x", p.o, 0), dots = re::Mk(re::Star, { std::make_shared<re::Node>(re::Dot) });
	bool lazy1 = Draw(2), lazy2 = Draw(2), plus = Draw(2);
	p.anyBegin = Draw(4) == 3; p.lastBegin = !lazy1; p.longest = !lazy2;
	re::P x = Draw(2) ? std::make_shared<re::Node>(re::Dot) : Over("ab;,=x", p.o, 0);
	if (x->k == re::Chars) for (char c : { ';', 'a' }) { re::AddCp(*x, c, p.o); x->alone = ""; }
	p.pre = p.anyBegin ? d : re::Mk(re::Cat, { dots, d }); p.body = re::Mk(plus ? re::Plus : re::Star, { x }); p.post = f;
	p.text = std::string(p.anyBegin ? "" : lazy1 ? ".*?" : ".*") + re::Render(d, p.o) + "(" + re::Render(p.body, p.o) + (lazy2 ? "?" : "") + ")" + re::Render(f, p.o);
	return p;
}

struct Truth { bool match, avoidable; std::vector<Span> spans; };

Truth Judge(const Pattern& p, const std::string& text, bool end) {
	re::Syms s = re::ToSyms(text, true, end); size_t n = s.size();
	if (n + 1 >= re::MaxSyms) Discard("text too long for the reference");
	re::Matcher m(s, p.o.utf8);
	auto one = [](size_t i) { re::Pos q; q.set(i); return q; };
	auto at = [&](size_t i) { return i == 0 ? 0 : std::min(i - 1, text.size()); };
	re::Pos all; if (p.surround) for (size_t i = 0; i <= n; ++i) all.set(i); else all.set(0);
	auto ends = [&](const re::Pos& q) { return p.surround ? q.any() : (bool) q[n]; };
	Truth t; t.match = t.avoidable = false;
	if (p.without) t.avoidable = t.match = ends(m.Adv(*p.without, all));
	re::Pos from = m.Adv(*p.pre, all);
	if (p.hi != 1) from = m.Closure(*p.body, from);
	for (size_t b = from._Find_first(); b <= n && b < re::MaxSyms; b = from._Find_next(b)) {
		re::Pos to = m.Adv(*p.body, one(b));
		for (size_t e = to._Find_first(); e <= n && e < re::MaxSyms; e = to._Find_next(e)) {
			re::Pos q = one(e); if (p.hi != 1) q = m.Closure(*p.body, q);
			if (ends(m.Adv(*p.post, q))) t.spans.push_back(Span(at(b), at(e)));
		}
	}
	if (p.hi == 1) t.match |= !t.spans.empty();
	else {
		std::shared_ptr<re::Node> r = std::make_shared<re::Node>(re::Rep); r->lo = std::max(p.lo, 1); r->hi = p.hi; r->kids.push_back(p.body);
		t.match |= ends(m.Adv(*re::Mk(re::Cat, { p.pre, r, p.post }), all));
	}
	std::sort(t.spans.begin(), t.spans.end()); t.spans.erase(std::unique(t.spans.begin(), t.spans.end()), t.spans.end());
	return t;
}

struct Conn { std::string text; size_t pos = 0, ck = 0; bool ended = false, begun = false, done = false; const sc::AnyScanner* s; sc::StateP st, copy; int restarts = 0; };

struct World {
	Pattern p; sc::KindId kind; world::Nic nic; std::vector<Conn> conns;
	void Begin(Conn& c) { if (kind == sc::KCapturing) c.s->Step(*c.st, Pire::BeginMark); }
	void Check(Conn& c, const char* when) {
		sc::Obs o = c.s->Observe(*c.st); std::string seen = c.text.substr(0, c.pos);
		bool slow = kind == sc::KSlowCapturing, got = o[2] != 0; size_t adj = slow ? 0 : 1;
		Span sp(0, 0); if (got) sp = Span((size_t) (o[3] - 10000 - adj), (size_t) (o[4] - 10000 - adj));
		Truth t = Judge(p, seen, slow || c.ended);
		uint64_t h = Mix(HashStr(p.text), HashStr(seen)); h = sc::HashObs(o, h); Cover(h);
		std::string shown = got ? "[" + std::to_string((long) sp.first) + "," + std::to_string((long) sp.second) + ")" : "nothing";
		if (!slow) {
			if (!p.surround && !o[0]) return;       // captures mean something in a match only
			SIM_CHECK((o[0] != 0) == t.match, "wrong-verdict", "final: %d, the text matches: %d %s", (int) o[0], t.match, when);
		}
		if (got) {
			SIM_CHECK(t.match, "captured-without-match", "captured %s of \"%s\" %s, which does not match", shown.c_str(), re::Show(seen).c_str(), when);
			SIM_CHECK(sp.first <= sp.second && sp.second <= seen.size(), "wrong-span", "captured %s of %zu bytes %s", shown.c_str(), seen.size(), when);
			SIM_CHECK(std::binary_search(t.spans.begin(), t.spans.end(), sp), "wrong-span", "captured %s of \"%s\" %s, which the group takes in no match", shown.c_str(), re::Show(seen).c_str(), when);
			Count("reach.captured"); if (sp.first == sp.second) Count("reach.captured_empty");
		} else {
			SIM_CHECK(!t.match || t.avoidable, "nothing-captured", "nothing captured of \"%s\" %s, every match of which goes through the group", re::Show(seen).c_str(), when);
			if (t.match) Count("reach.matched_without_group"); else Count("reach.no_match");
		}
		if (t.match && !t.spans.empty() && p.pick != Pattern::Any && got) {
			Span want = t.spans[0];
			if (p.pick == Pattern::Earliest) { for (auto& x : t.spans) if (x.second < want.second) want = x; Count("reach.delimited"); }
			else {
				if (p.anyBegin && t.spans.front().first != t.spans.back().first) return;
				if (p.lastBegin) want = t.spans.back();
				for (auto& x : t.spans) if (x.first == want.first && (p.longest ? x.second > want.second : x.second < want.second)) want = x;
				Count(t.spans.size() > 1 ? "reach.preferred_of_several" : "reach.preferred");
			}
			SIM_CHECK(sp == want, "wrong-choice", "captured %s of \"%s\" %s instead of [%zu,%zu)", shown.c_str(), re::Show(seen).c_str(), when, want.first, want.second);
		}
	}
};

void Run13() {
	HeapSetGarbage((unsigned char) Draw(256));
	World w; size_t r = Draw(8);
	w.p = r < 4 ? DrawFree() : r < 6 ? DrawDelimited() : DrawPreference();
	Pattern& p = w.p;
	w.kind = p.fast && Draw(3) ? sc::KCapturing : sc::KSlowCapturing;
	if (w.kind == sc::KSlowCapturing) { if (!p.surround) Discard("not searched for"); if (p.pick == Pattern::Earliest) p.pick = Pattern::Any; }
	if (p.index != 1) Count("reach.later_group");
	p.samples.push_back(re::Mk(re::Cat, { p.pre, p.body, p.post }));
	if (p.hi != 1) p.samples.push_back(re::Mk(re::Cat, { p.pre, p.body, p.body, p.post }));
	Log("%s /%s/ group %d%s%s", sc::Names[w.kind], re::Show(p.text).c_str(), p.index, wl::OptStr(p.o).c_str(), p.surround ? " surrounded" : "");
	Pire::Fsm f = sc::Parse(p.text, p.o, p.surround, false, p.index);
	if (f.Size() > 400) Discard("large pattern");
	if (w.kind == sc::KCapturing) {
		InLib([&] { Pire::Fsm g(f); if (!g.Determine(3000)) { HarnessScope h; Discard("large pattern"); } return 0; });
		if (Draw(2)) InLib([&] { f.Determine(); return 0; });
		else if (Draw(3) == 2) InLib([&] { f.Canonize(); return 0; });
	}
	std::vector<uint64_t> image; std::vector<sc::ScannerP> sc_;
	sc_.push_back(sc::CompileFsm(w.kind, f));
	if (Draw(2)) { sc_.push_back(sc_[0]->CopyOf()); Count("op.copied"); }
	if (Draw(2)) { std::stringstream s; sc_.back()->Save(s); sc_.push_back(sc_[0]->Fresh()); sc_.back()->Load(s); Count("op.reloaded"); }
	if (Draw(2)) { std::ostringstream s; sc_.back()->Save(s); std::string b = s.str(); image.resize((b.size() + 7) / 8 + 1); memcpy(image.data(), b.data(), b.size()); sc_.push_back(sc_[0]->Fresh()); sc_.back()->Mmap(image.data(), b.size()); Count("op.mapped"); }
	size_t nc = 1 + Draw(3); w.conns.resize(nc);
	for (size_t i = 0; i < nc; ++i) {
		Conn& c = w.conns[i]; c.text = re::GenText(Pick(p.samples), p.o, 100);
		if (p.pick != Pattern::Any && Draw(2)) { std::string extra = re::GenText(Pick(p.samples), p.o, 60); c.text += extra; }
		if (p.pick == Pattern::Prefer && Draw(2)) { c.text.clear(); for (size_t n = Draw(24); n > 0; --n) c.text += "ab;,=x"[Draw(6)]; }
		c.s = Pick(sc_).get(); c.st = c.s->NewState(); c.copy = c.st->Clone();
		Log("connection %zu: \"%s\"", i, re::Show(c.text).c_str());
		if (w.kind == sc::KSlowCapturing) w.Check(c, "before any input");
	}
	size_t open = nc;
	while (open) {
		size_t k = Draw(nc); while (w.conns[k].done) k = (k + 1) % nc;
		Conn& c = w.conns[k]; Advance(1 + Draw(2000));
		if (!c.begun) { w.Begin(c); c.begun = true; c.copy = c.st->Clone(); c.ck = 0; continue; }
		size_t what = Draw(16);
		if (what == 15) { c.copy = c.st->Clone(); c.ck = c.pos; Log("conn %zu: checkpoint at %zu", k, c.pos); continue; }
		if (what == 14 && c.restarts < 3) { ++c.restarts; Count("fault.connection_reset_and_retransmit"); c.st->Assign(*c.copy); c.pos = c.ck; Log("conn %zu: back to %zu", k, c.pos); w.Check(c, "after a rollback"); continue; }
		if (what == 13 && c.restarts < 3) { ++c.restarts; Count("fault.connection_restarted"); Log("conn %zu: restarted", k); if (Draw(2)) c.s = Pick(sc_).get(); c.s->Init(*c.st); c.begun = false; c.pos = 0; continue; }
		if (what == 12) { c.st = c.st->Clone(); continue; }
		if (c.pos < c.text.size()) {
			size_t n = wl::DrawChunk(c.text.size() - c.pos);
			const char* b = w.nic.Place(c.text.substr(c.pos, n));
			Log("conn %zu: %zu bytes at %zu", k, n, c.pos);
			if (Draw(5) == 4) { for (size_t i = 0; i < n; ++i) { c.s->Step(*c.st, (unsigned char) b[i]); ++c.pos; w.Check(c, "byte by byte"); } }
			else { c.s->Run(*c.st, b, b + n); c.pos += n; }
			char when[48]; snprintf(when, sizeof when, "after %zu bytes", c.pos); w.Check(c, when);
		} else {
			if (w.kind == sc::KCapturing) { c.s->Step(*c.st, Pire::EndMark); c.ended = true; }
			w.Check(c, "at the end"); c.done = true; --open;
		}
	}
}

Property p13("P13", Run13, wl::WarmLibrary);

}

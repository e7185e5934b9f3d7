// P17: a scanner compiled with a distance accepts exactly the words within that many edits of the
// language. A run builds automata by drawn histories, compiles them with drawn distances into every kind,
// glues some, and compares with an edit automaton over the reference language; words are walked with
// deliveries in drawn chunks.
#include "lang.h"
#include "fsmx.h"
#include <pire/approx_matching.h>
using namespace sim;
using namespace lang;

namespace {

// Words at most d insertions, deletions, substitutions and swaps of neighbours away; nothing is edited twice.
dfa::Dfa Within(const dfa::Dfa& m, size_t d) {
	int n = (int) m.Size(); dfa::Nfa a(m.syms, n * (int) (d + 1));
	auto at = [&](int q, size_t cost) { return (int) cost * n + q; };
	std::vector<char> live = m.Live();
	for (size_t cost = 0; cost <= d; ++cost)
		for (int q = 0; q < n; ++q) {
			if (m.fin[q]) a.fin.insert(at(q, cost));
			for (int c = 0; c < m.syms; ++c) {
				int t = m.next[q][c];
				if (live[t]) a.On(at(q, cost), c, at(t, cost));
				if (cost == d) continue;
				a.On(at(q, cost), c, at(q, cost + 1));                                     // c is not in the word
				if (!live[t]) continue;
				a.On(at(q, cost), -1, at(t, cost + 1));                                    // c is missing
				for (int y = 0; y < m.syms; ++y) a.On(at(q, cost), y, at(t, cost + 1));     // y instead of c
				for (int y = 0; y < m.syms; ++y) {                                        // y and c swapped
					int u = m.next[t][y];
					if (!live[u] || y == c) continue;
					int mid = a.Add(); a.On(at(q, cost), y, mid); a.On(mid, c, at(u, cost + 1));
				}
			}
		}
	return dfa::Det(a, 6000, 400);
}

struct Lang { Pire::Fsm f; dfa::Dfa m; std::string what; bool frozen = false; };

Lang Build(const Alphabet& a, bool andnot) {
	Lang l; int depth = 1 + (int) Draw(3);
	auto pat = [&]() {
		for (int d = depth;; --d) { try { return GenPat(a, d, andnot); } catch (dfa::TooBig&) { if (!d) Discard("pattern"); } }
	};
	try {
		Pat p = pat(); l.f = ParsePat(p.s, andnot); l.m = p.m; l.what = "/" + p.s + "/";
		for (size_t i = Draw(4); i > 0; --i) switch (Draw(8)) {
		case 0: { Pat q = pat(); l.m = dfa::Or(l.m, q.m); l.f |= ParsePat(q.s, andnot); l.what = "(" + l.what + " or /" + q.s + "/)"; break; }
		case 1: { Pat q = pat(); l.m = dfa::Cat(l.m, q.m); l.f += ParsePat(q.s, andnot); l.what = "(" + l.what + " then /" + q.s + "/)"; break; }
		case 2: l.m = dfa::Not(l.m); l.f.Complement(); l.what = "not " + l.what; Count("op.complemented"); break;
		case 3: l.m = dfa::Star(l.m); l.f.Iterate(); l.what += " iterated"; break;
		case 4: { int s = (int) Draw(a.K()); l.m = dfa::Cat(l.m, dfa::Sym(a.Syms(), { s })); l.f.Append((char) a.letters[s]); l.what += " then " + a.Show(s); break; }
		case 5: { Pat q = pat(); l.m = dfa::And(l.m, q.m); l.f &= ParsePat(q.s, andnot); l.what = "(" + l.what + " and /" + q.s + "/)"; break; }
		case 6: l.f.RemoveEpsilons(); l.what += " without epsilons"; break;
		default: l.f.Sparse(Draw(2)); l.what += " sparsed"; break;
		}
	} catch (dfa::TooBig&) { Discard("pattern"); }
	if (l.m.Size() > 14 || l.f.Size() > 40) Discard("large language");
	switch (Draw(5)) {
	case 0: l.f.Canonize(); l.frozen = true; l.what += " canonized"; Count("reach.canonized"); break;
	case 1: if (l.f.Determine(200)) l.frozen = true; l.what += " determined"; break;
	default: break;
	}
	return l;
}

// A half-final scanner looks for matches anywhere if every accepted word stays accepted whatever letter follows,
// and at the end mark if some letter leads to a word that is not accepted but may still become so. In between it
// depends on whether the automaton spells out its dead state: -1.
int CountsMatches(const dfa::Dfa& m) {
	std::vector<char> live = m.Live(); int r = 1;
	for (size_t q = 0; q < m.Size(); ++q) if (m.fin[q])
		for (int c = 0; c < m.syms; ++c) { if (live[m.next[q][c]] && !m.fin[m.next[q][c]]) return 0; if (!m.fin[m.next[q][c]] && c != m.syms - 1) r = -1; }
	return r;
}

template<class S> void Try(const Alphabet& a, const Pire::Fsm& f, size_t d, const dfa::Dfa& m, const char* name) {
	Pire::Fsm c(f); S s = c.Compile<S>(d);
	Exact(a, s, m, name);
}

void Run17() {
	HeapSetGarbage((unsigned char) Draw(256));
	Alphabet a = DrawAlphabet(); bool andnot = Draw(3) == 2;
	struct Item { Lang l; size_t d; dfa::Dfa m; sc::ScannerP s; };
	std::vector<Item> items; size_t n = 1 + Draw(2);
	for (size_t i = 0; i < n; ++i) {
		Item it; it.l = Build(a, andnot); it.d = Draw(4) == 3 ? (it.l.m.Size() <= 6 ? 2 : 0) : 1;
		try { it.m = Within(it.l.m, it.d); } catch (dfa::TooBig&) { Discard("edit automaton"); }
		if (it.m.Size() > 60) Discard("edit automaton");
		Log("%s within %zu edits: %zu -> %zu states", it.l.what.c_str(), it.d, it.l.m.Size(), it.m.Size());
		Count(it.d == 2 ? "reach.two_edits" : it.d ? "reach.one_edit" : "reach.no_edits");
		items.push_back(std::move(it));
	}
	uint64_t h = 0;
	for (auto& it : items) {
		uint64_t before = fx::Fingerprint(it.l.f);
		Advance(1 + Draw(100));
		switch (Draw(6)) {
		case 0: { Pire::Fsm g = Pire::CreateApproxFsm(it.l.f, it.d); Log("CreateApproxFsm"); Exact(a, g.Compile<Pire::Scanner>(), it.m, "Scanner of CreateApproxFsm()"); break; }
		case 1: { Pire::Fsm g = Pire::CreateApproxFsm(it.l.f, it.d); g.Canonize(); SIM_CHECK(g.Size() == it.m.Size(), "not-minimal", "canonized to %zu states, the minimal automaton has %zu", g.Size(), it.m.Size()); break; }
		case 2: Try<Pire::ScannerNoMask>(a, it.l.f, it.d, it.m, "ScannerNoMask"); break;
		case 3: Try<Pire::NonrelocScanner>(a, it.l.f, it.d, it.m, "NonrelocScanner"); break;
		case 4: { Pire::Fsm c(it.l.f); Walk(a, c.Compile<Pire::SlowScanner>(it.d), it.m, "SlowScanner", false); Count("reach.slow"); break; }
		case 5: { Pire::Fsm c(it.l.f); Walk(a, c.Compile<Pire::SimpleScanner>(it.d), it.m, "SimpleScanner", true); break; }
		}
		SIM_CHECK(fx::Fingerprint(it.l.f) == before, "operand-changed", "CreateApproxFsm() changed its operand");
		h = Mix(h, it.m.Hash() + it.d); Cover(h);
	}
	// words delivered in drawn chunks, to scanners of every kind and to glued ones
	world::Nic nic; std::vector<sc::ScannerP> own; std::vector<std::pair<const sc::AnyScanner*, std::vector<size_t>>> glued;
	static const sc::KindId kinds[] = { sc::KScanner, sc::KNoMask, sc::KNonreloc, sc::KNonrelocNoMask, sc::KSimple, sc::KSlow, sc::KCapturing };
	sc::KindId multi = kinds[Draw(4)];
	std::vector<std::pair<sc::KindId, size_t>> of;
	for (size_t i = 0; i < items.size(); ++i) {
		sc::KindId kind = Draw(3) ? multi : kinds[Draw(7)];
		if (kind == sc::KCapturing) Count("reach.capturing");
		Pire::Fsm c(items[i].l.f);
		own.push_back(sc::CompileFsm(kind, c, items[i].d)); of.push_back({ kind, i });
		glued.push_back({ own.back().get(), { i } });
	}
	if (items.size() == 2 && of[0].first == of[1].first && glued[0].first->Gluable()) {
		sc::ScannerP g = own[0]->GlueWith(*own[1], 0);
		if (!g->Empty()) { own.push_back(std::move(g)); glued.push_back({ own.back().get(), { 0, 1 } }); Log("glued"); Count("op.glued"); }
	}
	// half-final scanners tell at the end mark: each by its own reading of the language
	struct HalfItem { sc::ScannerP s; dfa::Dfa m; bool counts; size_t of; };
	std::vector<HalfItem> halves;
	if (Draw(2)) for (size_t i = 0; i < items.size(); ++i) {
		HalfItem hi; hi.of = i; int c01 = CountsMatches(items[i].m); if (c01 < 0) continue; hi.counts = c01;
		try { hi.m = hi.counts ? dfa::Cat(dfa::Anything(a.Syms()), items[i].m) : items[i].m; } catch (dfa::TooBig&) { continue; }
		Pire::Fsm c(items[i].l.f);
		hi.s = sc::CompileFsm((sc::KindId) (sc::KHalf + Draw(4)), c, items[i].d);
		Log("%s of language %zu, %s", sc::Names[hi.s->kind], i, hi.counts ? "matches anywhere" : "matches at the end");
		Count(hi.counts ? "reach.half_anywhere" : "reach.half_at_end"); halves.push_back(std::move(hi));
	}
	for (int w = 0; w < 10; ++w) {
		const Item& src = Pick(items);
		// a word of the language with a few edits too many or too few
		std::vector<int> word; int q = 0; std::vector<char> live = src.l.m.Live();
		for (size_t i = Draw(10); i > 0; --i) {
			std::vector<int> ok; for (int c = 0; c < a.Syms() - 1; ++c) if (live[src.l.m.next[q][c]]) ok.push_back(c);
			if (ok.empty()) break;
			word.push_back(Pick(ok)); q = src.l.m.next[q][word.back()];
			if (src.l.m.fin[q] && Draw(3) == 0) break;
		}
		for (size_t e = Draw(src.d + 2); e > 0; --e) {
			size_t p = Draw(word.size() + 1); int c = (int) Draw(a.Syms() - 1);
			switch (Draw(4)) {
			case 0: word.insert(word.begin() + p, c); break;
			case 1: if (p < word.size()) word.erase(word.begin() + p); break;
			case 2: if (p < word.size()) word[p] = c; break;
			default: if (p + 1 < word.size()) std::swap(word[p], word[p + 1]);
			}
		}
		for (auto& h : halves) {
			std::vector<int> doc = word; doc.push_back(a.End());
			sc::StateP st = h.s->NewState(); int cur = 0; bool any = h.counts && h.m.fin[0];
			for (size_t i = 0; i < doc.size(); ) {
				Advance(1);
				size_t e = i;
				if (doc[i] > a.Other()) { h.s->Step(*st, a.Rep(doc[i])); e = i + 1; }
				else {
					size_t stop = i + 1 + Draw(8); std::string chunk;
					for (; e < doc.size() && e < stop && doc[e] <= a.Other(); ++e) chunk += (char) a.Rep(doc[e]);
					const char* b = nic.Place(chunk); h.s->Run(*st, b, b + chunk.size());
				}
				for (; i < e; ++i) { cur = h.m.next[cur][doc[i]]; if (h.counts || doc[i] == a.End()) any |= h.m.fin[cur]; }
			}
			sc::Obs o = h.s->Observe(*st); bool got = std::find(o.begin(), o.end(), 100) != o.end();
			SIM_CHECK(got == any, "half-language", "%s of language %zu: \"%s\" is %saccepted", sc::Names[h.s->kind], h.of, a.Show(doc).c_str(), any ? "not " : "");
		}
		for (auto& g : glued) {
			sc::StateP st = g.first->NewState(); std::vector<int> cur(g.second.size(), 0);
			for (size_t i = 0; i < word.size(); ) {
				Advance(1);
				if (word[i] > a.Other()) { g.first->Step(*st, a.Rep(word[i])); for (size_t k = 0; k < cur.size(); ++k) cur[k] = items[g.second[k]].m.next[cur[k]][word[i]]; ++i; }
				else {
					size_t e = i, stop = i + 1 + Draw(8); std::string chunk;
					for (; e < word.size() && e < stop && word[e] <= a.Other(); ++e) { chunk += (char) a.Rep(word[e]); for (size_t k = 0; k < cur.size(); ++k) cur[k] = items[g.second[k]].m.next[cur[k]][word[e]]; }
					const char* b = nic.Place(chunk); g.first->Run(*st, b, b + chunk.size()); i = e; Count("op.chunks");
				}
				bool any = false; size_t ids = 0;
				for (size_t k = 0; k < cur.size(); ++k) if (items[g.second[k]].m.fin[cur[k]]) { any = true; ids |= 1u << k; }
				SIM_CHECK(g.first->Final(*st) == any, "language", "%s: \"%s\" is %saccepted", sc::Names[g.first->kind], a.Show(std::vector<int>(word.begin(), word.begin() + i)).c_str(), any ? "not " : "");
				if (g.second.size() > 1) {
					sc::Obs o = g.first->Observe(*st), want = { any ? 1u : 0u }; size_t got = 0; (void) want;
					for (size_t k = 2; k < o.size(); ++k) if (o[k] >= 100 && o[k] < 102) got |= 1u << (o[k] - 100);
					SIM_CHECK(got == ids, "accepted", "%s: after \"%s\" accepted %s", sc::Names[g.first->kind], a.Show(std::vector<int>(word.begin(), word.begin() + i)).c_str(), sc::ShowObs(o).c_str());
				}
				if (any) Count("reach.within");  else Count("reach.outside");
			}
		}
	}
}

Property p17("P17", Run17, wl::WarmLibrary);

}

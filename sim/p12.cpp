// P12: counting scanners report the longest chain of matches the separators connect, whatever the
// kind, the gluing and the delivery.
#include "count.h"
using namespace sim;

namespace {

enum Class { Tokens, Disjoint, Free };
struct Part { re::P ast, sep; Class cls; bool any; };

struct Lane { sc::KindId kind; const sc::AnyScanner* s; sc::StateP st, copy; };
struct Conn {
	cnt::Stream text; size_t pos = 0, ck = 0; bool done = false; std::vector<Lane> lanes; unsigned restarts = 0;
	std::vector<std::vector<size_t>> want;      // per pattern and position
};

re::P Over(const char* letters, const re::Opts& o, int depth) {
	switch (Draw(depth > 0 ? 8 : 1)) {
	case 0: case 7: {
		re::P c = std::make_shared<re::Node>(re::Chars);
		size_t n = strlen(letters), a = Draw(n);
		re::AddCp(*c, letters[a], o);
		if (n > 1 && Draw(4) == 3) re::AddCp(*c, letters[(a + 1) % n], o);
		if (c->toks.size() > 1) c->alone = "";
		return c;
	}
	case 1: case 2: return re::Mk(re::Cat, { Over(letters, o, depth - 1), Over(letters, o, depth - 1) });
	case 3: return re::Mk(re::Alt, { Over(letters, o, depth - 1), Over(letters, o, depth - 1) });
	case 4: return re::Mk(re::Plus, { Over(letters, o, depth - 1) });
	case 5: return re::Mk(re::Star, { Over(letters, o, depth - 1) });
	default: return re::Mk(re::Opt, { Over(letters, o, depth - 1) });
	}
}
re::P Rep(re::P k, int lo, int hi) { re::P n = re::Mk(re::Rep, { k }); n->lo = lo; n->hi = hi; return n; }

struct World {
	re::Opts o; std::vector<Part> parts; world::Nic nic;
	std::vector<sc::KindId> kinds; std::vector<sc::ScannerP> glued;
	std::vector<std::unique_ptr<Conn>> conns;

	std::string Text() {
		std::string t;
		for (size_t k = Draw(10); k > 0; --k) {
			const Part& p = Pick(parts);
			switch (Draw(6)) {
			case 0: { std::string n; re::Noise(n, o, 1 + Draw(2)); t += n; break; }
			case 1: for (size_t i = 1 + Draw(4); i > 0; --i) t += "abcdxyz"[Draw(7)]; break;
			case 2: re::Sample(p.ast, o, t); break;
			default: for (size_t i = 1 + Draw(4); i > 0; --i) { re::Sample(p.ast, o, t); re::Sample(p.sep, o, t); } break;
			}
			if (t.size() > 90) { t.resize(90); break; }
		}
		return t;
	}
	void Expect(Conn& c) {
		for (Part& p : parts) {
			if (p.cls == Free) { c.want.push_back(std::vector<size_t>()); continue; }
			cnt::Spans m(p.ast, c.text.syms, o.utf8), s(p.sep, c.text.syms, o.utf8);
			if (p.cls == Disjoint) { c.want.push_back(cnt::Chains(m, s)); continue; }
			// tokens, then chains of neighbouring tokens whose gaps are separators; for every prefix
			std::vector<size_t> w(c.text.syms.size() + 1);
			auto tok = cnt::LeftmostLongest(m, 0, c.text.syms.size());
			size_t run = 0;
			for (size_t k = 0; k < tok.size(); ++k) {
				run = k && s.ends[tok[k - 1].second][tok[k].first] ? run + 1 : 1;
				// the token counts as soon as a prefix of it is one
				size_t from = m.ends[tok[k].first]._Find_next(tok[k].first);
				for (size_t j = from; j < w.size(); ++j) w[j] = std::max(w[j], run);
			}
			c.want.push_back(w);
		}
	}
	void Check(Conn& c, const char* when) {
		std::vector<std::vector<uint64_t>> res;
		uint64_t h = HashStr(c.text.Show());
		for (Lane& l : c.lanes) {
			sc::Obs got = l.s->Observe(*l.st);
			std::vector<uint64_t> r; for (size_t i = 2; i < got.size(); ++i) r.push_back(got[i] - 1000);
			SIM_CHECK(r.size() == parts.size(), "wrong-result-count", "%s glued from %zu counters has %zu results", sc::Names[l.kind], parts.size(), r.size());
			for (size_t i = 0; i < parts.size(); ++i) {
				if (c.want[i].empty()) continue;
				if (l.kind == sc::KCounting && c.pos && !c.text.AtEnd(c.pos)) continue;   // this kind counts a match when it is over
				size_t w = c.want[i][c.pos];
				SIM_CHECK(r[i] == w, "wrong-count", "%s: counter %zu says %llu %s, the longest chain has %zu", sc::Names[l.kind], i, (unsigned long long) r[i], when, w);
				if (w > 2) Count("reach.chain_of_three");
				if (w && c.pos == c.text.syms.size() && c.text.ends.size() > 1) Count("reach.chain_in_several_documents");
			}
			h = sc::HashObs(got, h);
			res.push_back(r);
		}
		// the kinds agree also where no model is claimed
		for (size_t k = 1; k < c.lanes.size(); ++k)
			for (size_t i = 0; i < parts.size(); ++i)
				if (c.want[i].empty() && c.lanes[k].kind != sc::KCounting && c.lanes[0].kind != sc::KCounting)
					SIM_CHECK(res[k][i] == res[0][i], "kinds-disagree", "counter %zu is %llu for %s and %llu for %s %s", i, (unsigned long long) res[0][i], sc::Names[c.lanes[0].kind], (unsigned long long) res[k][i], sc::Names[c.lanes[k].kind], when);
		Cover(Mix(h, c.pos));
	}
};

// Words of many different bytes, so that there are nearly as many letter classes as bytes. More than
// 256 classes (with the marks) are a known finding: these kinds number the classes in one byte.
void RunWide() {
	static const unsigned sizes[] = { 254, 200, 253, 251, 255, 120 };
	size_t k = sizes[Draw(6)]; if (Draw(3) == 2) k = 100 + Draw(156);
	bool fits = k + 5 <= 256;
	unsigned from = (unsigned) Draw(256), stride = 1 + 2 * (unsigned) Draw(128);
	std::string word; for (size_t i = 0; i < k; ++i) word += (char) (from + stride * i);
	char sepc = (char) (from + stride * k);
	Pire::Fsm re, sep;
	{ LibScope in; for (char c : word) re.Append(c); sep.Append(sepc); }
	Log("a word of %zu different bytes from %u by %u, separator %u", k, from, stride, (unsigned char) sepc);
	size_t reps = 1 + Draw(4); std::string text; size_t want = 0, run = 0; std::vector<size_t> ends;
	for (size_t i = 0; i < reps; ++i) {
		size_t what = Draw(5);
		if (what == 4) { text += (char) (from + stride * Draw(k)); run = 0; }    // a stray byte breaks the chain
		text += word; ends.push_back(text.size()); ++run; want = std::max(want, run);
		text += sepc;
		if (what == 3) { text += sepc; run = 0; }
	}
	world::Nic nic;
	for (int kd = sc::KAdvanced; kd <= sc::KNoGlue; ++kd) {
		sc::ScannerP s = sc::CompileCounting((sc::KindId) kd, re, sep);
		bool marks = Draw(2);
		sc::StateP st = s->NewState();
		if (marks) s->Step(*st, Pire::BeginMark);
		for (size_t pos = 0; pos < text.size(); ) {
			size_t n = wl::DrawChunk(text.size() - pos); const char* p = nic.Place(text.substr(pos, n));
			s->Run(*st, p, p + n); pos += n;
		}
		if (marks) s->Step(*st, Pire::EndMark);
		uint64_t got = s->Observe(*st).back() - 1000;
		Log("%s: %zu", sc::Names[kd], (size_t) got);
		if (!fits) { if (got != want) Count("known.more_than_256_letter_classes"); continue; }
		Count("reach.wide_alphabet");
		SIM_CHECK(got == want, "wrong-count", "%s: %llu, the longest chain has %zu, over a word of %zu different bytes", sc::Names[kd], (unsigned long long) got, want, k);
	}
	Cover(Mix(k, Mix(from, stride)));
}

void Run12() {
	HeapSetGarbage((unsigned char) Draw(256));
	if (Draw(100) == 99) { RunWide(); return; }
	World w;
	w.o = re::Opts(); w.o.icase = Draw(5) == 4; w.o.utf8 = Draw(5) == 4; w.o.alphabet = 4; w.o.classes = false; w.o.maxRep = 2; w.o.depth = 2; w.o.andnot = Draw(12) == 11;
	size_t n = 1 + Draw(4);
	bool onlyTokens = true;
	std::vector<Pire::Fsm> res, seps;
	for (size_t i = 0; i < n; ++i) {
		Part p; size_t r = Draw(6); p.any = false;
		p.cls = r < 3 ? Tokens : r < 5 ? Disjoint : Free;
		std::string sp;
		if (p.cls == Tokens) {
			p.ast = cnt::Token(w.o);
			if (w.o.andnot && Draw(2)) { p.ast = re::Mk(re::And, { Over("ab", w.o, 0), Over("cd", w.o, 0) }); Count("reach.impossible_pattern"); }
			bool run = p.ast->k == re::Plus;
			re::P d = Over("xyz", w.o, 0);
			switch (Draw(6)) {
			case 0: p.sep = re::Mk(re::Star, { std::make_shared<re::Node>(re::Dot) }); p.any = true; break;
			case 1: p.sep = re::Mk(re::Plus, { d }); break;
			case 2: p.sep = Rep(d, 2, 2); break;
			case 3: p.sep = Rep(d, 1, 3); break;
			case 4: p.sep = run ? re::Mk(re::Plus, { d }) : re::Mk(re::Star, { d }); break;
			default: p.sep = run ? d : std::make_shared<re::Node>(re::Empty); break;
			}
		} else if (p.cls == Disjoint) {
			p.ast = Over("abcd", w.o, (int) (1 + Draw(3))); p.sep = Over("xyz", w.o, (int) (1 + Draw(2)));
			if (cnt::Nullable(p.ast, w.o.utf8)) p.ast = re::Mk(re::Cat, { p.ast, Over("abcd", w.o, 0) });
			if (cnt::Nullable(p.sep, w.o.utf8)) p.sep = re::Mk(re::Cat, { Over("xyz", w.o, 0), p.sep });
		} else {
			p.ast = wl::DrawPattern(w.o, 8); p.sep = Draw(2) ? re::Mk(re::Star, { std::make_shared<re::Node>(re::Dot) }) : wl::DrawPattern(w.o, 5);
		}
		// the oldest kind gets separators that are not nullable wrong (known, and why the others exist)
		if (p.cls != Tokens || !cnt::Nullable(p.sep, w.o.utf8)) onlyTokens = false;
		std::string pat = re::Render(p.ast, w.o); sp = re::Render(p.sep, w.o);
		static const char* const cn[] = { "tokens", "disjoint alphabets", "free" };
		Log("counter %zu: /%s/ separated by /%s/%s (%s)", i, re::Show(pat).c_str(), re::Show(sp).c_str(), wl::OptStr(w.o).c_str(), cn[p.cls]);
		res.push_back(sc::Parse(pat, w.o, false)); seps.push_back(sc::Parse(sp, w.o, false));
		InLib([&] { Pire::Fsm f(res.back()); if (!f.Determine(60)) { HarnessScope h; Discard("large pattern"); } return 0; });
		w.parts.push_back(p);
	}
	for (int k = sc::KCounting; k <= sc::KNoGlue; ++k) {
		if (k == sc::KCounting && !onlyTokens) continue;
		std::vector<sc::ScannerP> s; bool big = false;
		for (size_t i = 0; i < n; ++i) s.push_back(sc::CompileCounting((sc::KindId) k, res[i], seps[i]));
		while (s.size() > 1 && !big) {
			size_t i = Draw(s.size() - 1);
			if (s[i]->Size() * s[i + 1]->Size() > 20000) { big = true; break; }
			sc::ScannerP g = s[i]->GlueWith(*s[i + 1], 0);
			SIM_CHECK(!g->Empty(), "needless-failure", "gluing %s without a limit failed", sc::Names[k]);
			s[i] = std::move(g);
			s.erase(s.begin() + i + 1);
			Count("op.glue");
		}
		if (big) continue;
		w.kinds.push_back((sc::KindId) k); w.glued.push_back(std::move(s[0]));
	}
	if (w.glued.empty()) Discard("large product");
	size_t nc = 1 + Draw(3);
	for (size_t i = 0; i < nc; ++i) {
		std::unique_ptr<Conn> c(new Conn);
		for (size_t d = 1 + (Draw(3) == 2 ? 1 + Draw(2) : 0); d > 0; --d) c->text.Add(w.Text());
		if (c->text.syms.size() > 300) c->text = cnt::Stream();
		if (c->text.syms.empty()) c->text.Add("abxab");
		Log("connection %zu: \"%s\"", i, re::Show(c->text.Show()).c_str());
		w.Expect(*c);
		for (size_t k = 0; k < w.kinds.size(); ++k) { Lane l; l.kind = w.kinds[k]; l.s = w.glued[k].get(); l.st = l.s->NewState(); l.copy = l.st->Clone(); c->lanes.push_back(std::move(l)); }
		w.Check(*c, "before any input");
		w.conns.push_back(std::move(c));
	}
	size_t open = nc;
	while (open) {
		size_t k = Draw(nc); while (w.conns[k]->done) k = (k + 1) % nc;
		Conn& c = *w.conns[k];
		Advance(1 + Draw(2000));
		size_t r = Draw(16);
		if (r == 15) { for (Lane& l : c.lanes) l.copy = l.st->Clone(); c.ck = c.pos; Log("conn %zu: checkpoint at %zu", k, c.pos); continue; }
		if (r == 14 && c.ck < c.pos && c.restarts < 3) {
			++c.restarts; Count("fault.connection_reset_and_retransmit"); Log("conn %zu: reset, back from %zu to %zu", k, c.pos, c.ck);
			for (Lane& l : c.lanes) l.st->Assign(*l.copy);
			c.pos = c.ck; w.Check(c, "after a rollback"); continue;
		}
		if (r == 13 && c.restarts < 3) {
			++c.restarts; Count("fault.connection_restarted"); Log("conn %zu: restarted", k);
			for (Lane& l : c.lanes) { l.s->Init(*l.st); l.copy = l.st->Clone(); }
			c.pos = c.ck = 0; w.Check(c, "after a restart"); continue;
		}
		if (r == 12) { for (Lane& l : c.lanes) l.st = l.st->Clone(); continue; }
		Log("conn %zu:", k);
		uint64_t before = 0; (void) before;
		c.pos = cnt::Deliver(w.nic, c.text, c.pos, [&](unsigned ch) { for (Lane& l : c.lanes) l.s->Step(*l.st, ch); }, [&](const char* b, const char* e) { for (Lane& l : c.lanes) l.s->Run(*l.st, b, e); });
		char when[64]; snprintf(when, sizeof when, "after %zu symbols", c.pos);
		w.Check(c, when);
		if (c.pos == c.text.syms.size()) { c.done = true; --open; }
	}
}

Property p12("P12", Run12, wl::WarmLibrary);

}

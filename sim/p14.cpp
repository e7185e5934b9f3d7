// P14: half-final counters count what they document, for every pattern, gluing, delivery and restart.
#include "count.h"
using namespace sim;

namespace {

enum Mode { Apart, ApartSimple, Ends, Greedy, GreedyTokens, Match, Modes };
static const char* const ModeName[] = { "non-greedy without intersections", "non-greedy without intersections, simplified", "non-greedy with intersections", "greedy", "greedy simplified", "plain matching" };
static bool IsGreedy(Mode m) { return m == Greedy || m == GreedyTokens; }

struct Part { re::P ast; Mode mode; sc::ScannerP s; std::shared_ptr<Pire::Fsm> own; };
struct Conn {
	size_t kind; cnt::Stream text; size_t pos = 0, ck = 0; sc::StateP st; std::string saved; bool done = false;
	std::vector<std::vector<size_t>> want;      // per pattern and position; for greedy ones only ends of documents count
	std::vector<bool> exact;
};

// A repeated part that needs several letters, and shorter matches of the same pattern: a counter has to hold
// matches back, and at the end of a document to decide about those it held back.
re::P HeldBack(const re::Opts& o) {
	auto word = [&](size_t n) { re::P c = re::Mk(re::Cat, {}); for (; n; --n) c->kids.push_back(re::GenChars(o)); return c; };
	if (Draw(2)) {
		re::P w = word(2 + Draw(2)), t = Draw(2) ? re::Mk(re::Cat, { w->kids[0] }) : word(1);
		return re::Mk(re::Cat, { re::Mk(Draw(2) ? re::Star : re::Opt, { w }), t });
	}
	re::P w = word(3 + Draw(2)), s = re::Mk(re::Cat, {});
	size_t b = Draw(w->kids.size()), e = b + 1 + Draw(w->kids.size() - b);
	for (size_t i = b; i < e; ++i) s->kids.push_back(w->kids[i]);
	return re::Mk(re::Alt, { w, s });
}

struct World {
	re::Opts o; std::vector<Part> parts; std::vector<sc::KindId> kinds; std::vector<sc::ScannerP> glued; world::Nic nic;
	std::vector<std::unique_ptr<Conn>> conns;

	void Expect(Conn& c) {
		for (Part& p : parts) {
			cnt::Spans m(p.ast, c.text.syms, o.utf8);
			bool exact = true; std::vector<size_t> w;
			if (p.mode == Ends) w = cnt::EndPositions(m);
			else if (p.mode == Match) {
				w.assign(c.text.syms.size() + 1, 0);
				re::Syms first(c.text.syms.begin(), c.text.syms.begin() + c.text.ends[0]);
				re::Ref r = { p.ast, true, o.utf8 };
				w[first.size()] = r.Verdicts(first)[first.size()];
			}
			else if (!IsGreedy(p.mode)) w = cnt::EarliestEnds(m);
			else {
				w.assign(c.text.syms.size() + 1, 0);
				size_t from = 0, sum = 0;
				for (size_t e : c.text.ends) {
					size_t n = cnt::LeftmostLongest(m, from, e).size();
					if (p.mode == Greedy && n > Pire::HalfFinalFsm::MaxCountDepth) exact = false;   // beyond what a counter can hold back
					sum += n; w[e] = sum; from = e;
				}
			}
			c.want.push_back(w); c.exact.push_back(exact);
		}
	}
	void Check(Conn& c, const char* when) {
		sc::Obs got = glued[c.kind]->Observe(*c.st);
		std::vector<uint64_t> ids, res;
		for (size_t i = 2; i < got.size(); ++i) { if (got[i] >= 1000) res.push_back(got[i] - 1000); else ids.push_back(got[i] - 100); }
		const char* k = sc::Names[kinds[c.kind]];
		SIM_CHECK(res.size() == parts.size(), "wrong-result-count", "%s glued from %zu counters has %zu results", k, parts.size(), res.size());
		for (size_t i = 0; i < parts.size(); ++i) {
			if (IsGreedy(parts[i].mode) && !(c.text.AtEnd(c.pos) || !c.pos)) continue;
			if (parts[i].mode == Match) {
				if (c.pos != c.text.ends[0]) continue;
				SIM_CHECK((res[i] != 0) == (c.want[i][c.pos] != 0), "wrong-verdict", "%s: pattern %zu has result %llu %s, the reference says %s", k, i, (unsigned long long) res[i], when, c.want[i][c.pos] ? "match" : "no match");
				if (res[i]) Count("reach.plain_match");
				continue;
			}
			if (!c.exact[i]) { Count("reach.beyond_depth"); continue; }
			size_t w = c.want[i][c.pos];
			SIM_CHECK(res[i] == w, "wrong-count", "%s: the %s counter %zu says %llu %s, there are %zu", k, ModeName[parts[i].mode], i, (unsigned long long) res[i], when, w);
			if (w > 1) Count("reach.counted_several");
			if (w > 1 && IsGreedy(parts[i].mode)) Count("reach.greedy_several");
		}
		std::vector<uint64_t> listed;
		for (size_t i = 0; i < res.size(); ++i) if (res[i]) listed.push_back(i);
		SIM_CHECK(listed == ids, "wrong-accepted-set", "%s lists the patterns %s %s, nonzero are %s", k, sc::ShowObs(ids).c_str(), when, sc::ShowObs(listed).c_str());
		Cover(Mix(sc::HashObs(got, HashStr(c.text.Show())), c.pos));
	}
	void Checkpoint(Conn& c) {
		c.ck = c.pos; c.saved.clear();
		world::WritePlan wp; if (Draw(2)) wp.maxPut = 1 + Draw(9);
		world::DiskWriter d(c.saved, wp); std::ostream out(&d);
		c.st->Save(out);
		Count("op.state_saved"); SIM_CHECK(out.good() && !c.saved.empty(), "save-failed", "saving a state failed");
	}
	void Crash(Conn& c) {
		// only what was saved survives
		{
			world::ReadPlan rp; rp.randomChunks = Draw(2);
			world::DiskReader d(c.saved, rp); std::istream in(&d);
			sc::StateP st = glued[c.kind]->NewState();
			if (Draw(2)) { std::string t; re::Noise(t, o, 12); glued[c.kind]->Run(*st, t.data(), t.data() + t.size()); }   // loaded over a used state
			st->Load(in);
			SIM_CHECK(d.Pos() == c.saved.size(), "load-left-bytes", "loading a state read %zu bytes of %zu", d.Pos(), c.saved.size());
			c.st = std::move(st);
			Count("fault.restart_from_saved_state");
		}
		c.pos = c.ck;
	}
};

void Run14() {
	HeapSetGarbage((unsigned char) Draw(256));
	World w;
	w.o = wl::SmallOpts(); w.o.marks = false; w.o.andnot = false; w.o.alphabet = 1 + Draw(3);
	size_t n = 1 + Draw(3);
	std::vector<Pire::HalfFinalFsm> fsms;
	for (size_t i = 0; i < n; ++i) {
		Part p; p.mode = Draw(4) == 3 ? Greedy : (Mode) Draw(Modes);
		re::Opts po = w.o;
		if (p.mode == Match) { po.marks = Draw(2); po.andnot = Draw(2); }
		p.ast = wl::DrawPattern(po, p.mode == Greedy ? 7 : 10);
		if (p.mode == Greedy && Draw(2)) { p.ast = HeldBack(w.o); Count("reach.held_back"); }
		if (p.mode == GreedyTokens) p.ast = cnt::Token(w.o);
		if (p.mode != Match && Draw(16) == 15) { po.andnot = true; p.ast = re::Mk(re::And, { re::GenChars(po), re::GenChars(po) }); Count("reach.intersection"); }
		if (p.mode != Match && cnt::Nullable(p.ast, po.utf8)) p.ast = re::Mk(re::Cat, { p.ast, re::GenChars(w.o) });
		std::string pat = re::Render(p.ast, po);
		Log("counter %zu: /%s/%s, %s", i, re::Show(pat).c_str(), wl::OptStr(po).c_str(), ModeName[p.mode]);
		Pire::Fsm f = sc::Parse(pat, po, p.mode == Match);
		InLib([&] {
			if (!f.Determine(200)) { HarnessScope h; Discard("large pattern"); }
			Pire::HalfFinalFsm h(f);
			if (p.mode == Match) { if (Draw(2)) p.own.reset(new Pire::Fsm(f)); h.MakeScanner(); }
			else if (IsGreedy(p.mode)) h.MakeGreedyCounter(p.mode == GreedyTokens);
			else h.MakeNonGreedyCounter(p.mode == Ends, p.mode == ApartSimple);
			HarnessScope hs; fsms.push_back(h);
			return 0;
		});
		w.parts.push_back(std::move(p));
	}
	static const sc::KindId Kinds[] = { sc::KHalf, sc::KHalfNoMask, sc::KHalfNonreloc, sc::KHalfNonrelocNoMask };
	size_t nk = 1 + Draw(2);
	for (size_t k = 0; k < nk; ++k) {
		sc::KindId kind = Kinds[Draw(4)];
		std::vector<sc::ScannerP> s;
		for (size_t i = 0; i < n; ++i) if (w.parts[i].own) { Pire::Fsm f(*w.parts[i].own); s.push_back(sc::CompileFsm(kind, f)); Count("reach.compiled_directly"); } else s.push_back(sc::FromHalfFinal(kind, fsms[i]));
		// glued in a drawn nesting
		while (s.size() > 1) {
			size_t i = Draw(s.size() - 1);
			if (s[i]->Size() * s[i + 1]->Size() > 60000) Discard("large product");
			s[i] = s[i]->GlueWith(*s[i + 1], 0);
			SIM_CHECK(!s[i]->Empty(), "needless-failure", "gluing without a limit failed");
			if (s[i]->Size() > 6000) Discard("large product");
			s.erase(s.begin() + i + 1);
			Count("op.glue");
		}
		w.kinds.push_back(kind); w.glued.push_back(std::move(s[0]));
	}
	size_t nc = 1 + Draw(3);
	for (size_t i = 0; i < nc; ++i) {
		std::unique_ptr<Conn> c(new Conn);
		c->kind = Draw(nk);
		for (size_t d = 1 + Draw(5); d > 0; --d) {
			std::string t;
			for (size_t k = Draw(4); k > 0; --k) t += re::GenText(Pick(w.parts).ast, w.o, 12 + Draw(3) * 12);
			if (Draw(2) && !t.empty() && !w.o.utf8) { t.resize(Draw(t.size())); Count("reach.cut_short"); }   // in the middle of a longer match
			c->text.Add(t);
		}
		Log("connection %zu on %s: \"%s\"", i, sc::Names[w.kinds[c->kind]], re::Show(c->text.Show()).c_str());
		w.Expect(*c);
		c->st = w.glued[c->kind]->NewState();
		w.Check(*c, "before any input");
		w.Checkpoint(*c);
		w.conns.push_back(std::move(c));
	}
	size_t open = nc, crashes = 0;
	while (open) {
		size_t k = Draw(nc); while (w.conns[k]->done) k = (k + 1) % nc;
		Conn& c = *w.conns[k];
		Advance(1 + Draw(2000));
		size_t r = Draw(14);
		char when[64];
		if (r == 13) { Log("conn %zu: checkpoint at %zu", k, c.pos); w.Checkpoint(c); continue; }
		if (r == 12 && crashes < 4) {
			++crashes; Log("conn %zu: crash at %zu, back to %zu", k, c.pos, c.ck);
			w.Crash(c);
			for (auto& x : w.conns) w.Check(*x, "after a restart");
			continue;
		}
		if (r == 11) { c.st = c.st->Clone(); continue; }
		Log("conn %zu:", k);
		c.pos = cnt::Deliver(w.nic, c.text, c.pos, [&](unsigned ch) { w.glued[c.kind]->Step(*c.st, ch); }, [&](const char* b, const char* e) { w.glued[c.kind]->Run(*c.st, b, e); });
		snprintf(when, sizeof when, "after %zu symbols", c.pos);
		w.Check(c, when);
		if (c.pos == c.text.syms.size()) { c.done = true; --open; }
	}
}

Property p14("P14", Run14, wl::WarmLibrary);

}

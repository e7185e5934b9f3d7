// P01: streaming verdicts equal the reference at every instant, under every delivery schedule.
#include "build.h"
using namespace sim;

namespace {

// A lane is one scanner (or a pair run in one pass) following one connection.
struct Lane {
	std::string name;
	virtual ~Lane() {}
	virtual void Reset() = 0;
	virtual void Mark(unsigned c) = 0;
	virtual void Feed(const char* b, const char* e, unsigned how) = 0;
	virtual void Check(bool want, size_t at, const char* when) = 0;
	virtual void Checkpoint() = 0;
	virtual void Rollback() = 0;
	virtual void Migrate() = 0;
};

struct OneLane: Lane {
	const sc::AnyScanner& s; sc::StateP st, saved; bool sawDead = false, savedDead = false;
	explicit OneLane(const sc::AnyScanner& x): s(x) { name = sc::Names[x.kind]; st = s.NewState(); saved = st->Clone(); }
	void Reset() override { s.Init(*st); saved = st->Clone(); sawDead = savedDead = false; }
	void Mark(unsigned c) override { s.Step(*st, c); }
	void Feed(const char* b, const char* e, unsigned how) override {
		if (how == 1) for (; b != e; ++b) s.Step(*st, (unsigned char) *b);
		else s.Run(*st, b, e);
	}
	void Check(bool want, size_t, const char* when) override {
		bool got = s.Final(*st);
		SIM_CHECK(got == want, "wrong-verdict", "%s says %s %s, the reference says %s", name.c_str(), got ? "match" : "no match", when, want ? "match" : "no match");
		SIM_CHECK(!(sawDead && got), "dead-state-revived", "%s reported a dead state earlier and accepts %s", name.c_str(), when);
		if (s.Dead(*st)) { if (!sawDead) Count("reach.dead_state"); sawDead = true; }
		if (s.kind <= sc::KSlow) {
			sc::Obs o = s.Observe(*st);
			bool listed = o.size() > 2;
			SIM_CHECK(listed == want && o.size() <= 3, "wrong-accepted-set", "%s lists %zu accepted patterns %s, final is %d", name.c_str(), o.size() - 2, when, want);
			if (listed) SIM_CHECK(o[2] == 100, "wrong-accepted-set", "%s lists pattern %llu", name.c_str(), (unsigned long long) o[2] - 100);
		}
		if (want) Count("reach.match");
	}
	void Checkpoint() override { saved = st->Clone(); savedDead = sawDead; }
	void Rollback() override { st->Assign(*saved); sawDead = savedDead; }
	void Migrate() override { sc::StateP c = st->Clone(); st = std::move(c); }
};

// A scanner of any kind: everything it reports must be what a fresh state reports that took the
// same text byte by byte.
struct FollowLane: Lane {
	const sc::AnyScanner& s; const sc::AnyScanner* other; std::string otherText;
	sc::StateP st, saved; std::vector<sc::Obs> base;
	FollowLane(const sc::AnyScanner& x, const sc::AnyScanner* o, const std::string& ot, const std::string& text, bool marks): s(x), other(o), otherText(ot) {
		name = sc::Names[x.kind];
		sc::StateP f = s.NewState();
		base.push_back(s.Observe(*f));
		if (marks) { s.Step(*f, Pire::BeginMark); base.push_back(s.Observe(*f)); }
		for (char c : text) { s.Step(*f, (unsigned char) c); base.push_back(s.Observe(*f)); }
		if (marks) { s.Step(*f, Pire::EndMark); base.push_back(s.Observe(*f)); }
		st = s.NewState(); saved = st->Clone();
	}
	void Reset() override {
		if (other) { // the state object has served a scanner of another pattern in between
			other->Init(*st); other->Run(*st, otherText.data(), otherText.data() + otherText.size()); other->Observe(*st);
			Count("op.state_served_another_scanner");
		}
		s.Init(*st); saved = st->Clone();
	}
	void Mark(unsigned c) override { s.Step(*st, c); }
	void Feed(const char* b, const char* e, unsigned how) override {
		if (how == 1) for (; b != e; ++b) s.Step(*st, (unsigned char) *b);
		else s.Run(*st, b, e);
	}
	void Check(bool, size_t at, const char* when) override {
		sc::Obs got = s.Observe(*st);
		SIM_CHECK(got == base[at], "depends-on-delivery", "%s reports %s %s; a fresh state fed byte by byte reports %s", name.c_str(), sc::ShowObs(got).c_str(), when, sc::ShowObs(base[at]).c_str());
		if (got.size() > 2 && got.back() > 1000) Count("reach.followed_result");
	}
	void Checkpoint() override { saved = st->Clone(); }
	void Rollback() override { st->Assign(*saved); }
	void Migrate() override { sc::StateP c = st->Clone(); st = std::move(c); }
};

template<class A, class B>
struct PairLane: Lane {
	A a; B b; typename A::State x, sx; typename B::State y, sy; unsigned mode;
	PairLane(const Pire::Fsm& f, unsigned m, const char* n): mode(m) {
		name = n;
		LibScope l; Pire::Fsm c1(f), c2(f); a = c1.Compile<A>(); b = c2.Compile<B>();
		a.Initialize(x); b.Initialize(y); sx = x; sy = y;
	}
	void Reset() override { LibScope l; a.Initialize(x); b.Initialize(y); sx = x; sy = y; }
	void Mark(unsigned c) override {
		LibScope l;
		if (mode == 1) { Pire::ScannerPair<A, B> p(a, b); typename Pire::ScannerPair<A, B>::State s(x, y); Pire::Step(p, s, (Pire::Char) c); x = s.first; y = s.second; }
		else { Pire::Step(a, x, (Pire::Char) c); Pire::Step(b, y, (Pire::Char) c); }
	}
	void Feed(const char* p, const char* e, unsigned) override { LibScope l; Pire::Run(a, b, x, y, p, e); Count("op.pair_run"); }
	void Check(bool want, size_t, const char* when) override {
		bool f, g, h;
		{ LibScope l; f = a.Final(x); g = b.Final(y); Pire::ScannerPair<A, B> p(a, b); h = p.Final(typename Pire::ScannerPair<A, B>::State(x, y)); }
		SIM_CHECK(f == want && g == want && h == want, "wrong-verdict-paired", "%s says %d/%d/%d %s, the reference says %d", name.c_str(), f, g, h, when, want);
	}
	void Checkpoint() override { LibScope l; sx = x; sy = y; }
	void Rollback() override { LibScope l; x = sx; y = sy; }
	void Migrate() override {}
};

struct Conn {
	std::string text; std::vector<bool> want; size_t pos, ck; bool begun, ended, marks; unsigned restarts = 0;
	std::vector<std::unique_ptr<Lane>> lanes;
};

void Run01() {
	HeapSetGarbage((unsigned char) Draw(256));
	re::Opts o = wl::DrawOpts();
	bool surround = Draw(2), marks = Draw(2);
	re::P ast = wl::DrawPattern(o);
	std::string pat = re::Render(ast, o);
	re::Ref ref = { ast, surround, o.utf8 };
	Log("pattern /%s/%s surround=%d marks=%d", re::Show(pat).c_str(), wl::OptStr(o).c_str(), surround, marks);
	Pire::Fsm fsm = sc::Parse(pat, o, surround);
	static const sc::KindId kinds[] = { sc::KScanner, sc::KNoMask, sc::KNonreloc, sc::KNonrelocNoMask, sc::KSimple, sc::KSlow, sc::KCapturing };
	std::vector<sc::ScannerP> pool;
	for (size_t i = 0; i < 7; ++i) if (i == 0 || Draw(2)) {
		pool.push_back(sc::CompileFsm(kinds[i], fsm));
		if (pool.back()->Size() > 3000) Count("reach.large_automaton");
	}
	if (Draw(3) == 2) { // a second scanner of a kind already there, at another address and alignment
		LibScope l; Pire::ystring pad(1 + 8 * (size_t) Draw(4), 'x'); HarnessScope h;
		pool.push_back(pool[0]->CopyOf()); Count("op.copy");
	}
	world::Nic nic;
	std::vector<wl::Made> follow;                // scanners of any kind that serve a connection of their own
	std::vector<sc::ScannerP> others;
	size_t main = 1 + Draw(3), nfollow = Draw(3) == 2 ? 1 + Draw(2) : 0;
	for (size_t i = 0; i < nfollow; ++i) follow.push_back(wl::Make(-1, false));
	std::vector<Conn> conns(main + nfollow);
	for (size_t i = main; i < conns.size(); ++i) {
		Conn& c = conns[i]; const wl::Made& m = follow[i - main];
		c.marks = m.marks && Draw(2);
		c.text = m.Text(20 + Draw(3) * 80);
		c.pos = c.ck = 0; c.begun = !c.marks; c.ended = false;
		c.want.assign(c.text.size() + 3, false);
		const sc::AnyScanner* other = nullptr; std::string ot;
		if (m.s->kind != sc::KSlowCapturing && Draw(2)) { wl::Made o2 = wl::Make(m.s->kind, false); ot = o2.Text(60); others.push_back(std::move(o2.s)); other = others.back().get(); }
		c.lanes.emplace_back(new FollowLane(*m.s, other, ot, c.text, c.marks));
		Log("connection %zu: %s, %zu bytes \"%s\"", i, m.desc.c_str(), c.text.size(), re::Show(c.text).c_str());
		for (auto& l : c.lanes) l->Check(false, 0, "before any input");
	}
	for (size_t ci = 0; ci < main; ++ci) {
		Conn& c = conns[ci]; c.marks = marks;
		c.text = re::GenText(ast, o, 50 + Draw(4) * 100);
		c.pos = c.ck = 0; c.begun = !marks; c.ended = false;
		re::Syms syms = re::ToSyms(c.text, marks, marks);
		re::Pos v = ref.Verdicts(syms);
		for (size_t i = 0; i <= syms.size(); ++i) c.want.push_back(v[i]);
		for (auto& s : pool) c.lanes.emplace_back(new OneLane(*s));
		if (Draw(3) == 2) {
			unsigned m = (unsigned) Draw(2);
			switch (Draw(4)) {
			case 0: c.lanes.emplace_back(new PairLane<Pire::Scanner, Pire::SimpleScanner>(fsm, m, "pair<Scanner,SimpleScanner>")); break;
			case 1: c.lanes.emplace_back(new PairLane<Pire::NonrelocScanner, Pire::ScannerNoMask>(fsm, m, "pair<NonrelocScanner,ScannerNoMask>")); break;
			case 2: c.lanes.emplace_back(new PairLane<Pire::SimpleScanner, Pire::Scanner>(fsm, m, "pair<SimpleScanner,Scanner>")); break;
			default: c.lanes.emplace_back(new PairLane<Pire::Scanner, Pire::Scanner>(fsm, m, "pair<Scanner,Scanner>")); break;
			}
		}
		Log("connection %zu: %zu bytes \"%s\"", (size_t) (&c - &conns[0]), c.text.size(), re::Show(c.text).c_str());
		for (auto& l : c.lanes) l->Check(c.want[0], 0, "before any input");
	}
	uint64_t cov = HashStr(pat);
	size_t open = conns.size(), steps = 0;
	unsigned pReset = (unsigned) Draw(3);
	while (open && ++steps < 400) {
		size_t k = Draw(conns.size());
		while (conns[k].ended) k = (k + 1) % conns.size();
		Conn& c = conns[k];
		Advance(1 + Draw(2000));
		if (!c.begun) {
			for (auto& l : c.lanes) l->Mark(Pire::BeginMark);
			c.begun = true; Log("conn %zu: begin", k);
			for (auto& l : c.lanes) { l->Check(c.want[1], 1, "after the begin mark"); l->Checkpoint(); }
			continue;
		}
		if (pReset && Draw(12) == 11 && c.pos > c.ck) { // connection lost: the peer retransmits from the last checkpoint
			Count("fault.connection_reset_and_retransmit");
			Log("conn %zu: reset, back from %zu to %zu", k, c.pos, c.ck);
			for (auto& l : c.lanes) l->Rollback();
			c.pos = c.ck;
			for (auto& l : c.lanes) l->Check(c.want[c.pos + c.marks], c.pos + c.marks, "after a rollback");
			continue;
		}
		if (pReset && c.restarts < 2 && Draw(14) == 13) { // connection lost for good: the client starts again, with the same state objects
			Count("fault.connection_restarted"); ++c.restarts;
			Log("conn %zu: restarted", k);
			for (auto& l : c.lanes) l->Reset();
			c.pos = c.ck = 0; c.begun = !c.marks;
			for (auto& l : c.lanes) l->Check(c.want[0], 0, "after a restart");
			continue;
		}
		if (Draw(16) == 15) { for (auto& l : c.lanes) l->Migrate(); Count("op.state_copied"); Log("conn %zu: states copied", k); continue; }
		if (Draw(10) == 9) { for (auto& l : c.lanes) l->Checkpoint(); c.ck = c.pos; Log("conn %zu: checkpoint at %zu", k, c.pos); continue; }
		if (c.pos < c.text.size()) {
			size_t n = wl::DrawChunk(c.text.size() - c.pos);
			const char* p = nic.Place(c.text.substr(c.pos, n));
			unsigned how = Draw(6) == 5 ? 1 : 0;
			Log("conn %zu: %zu bytes at %zu (address %%64 = %zu)%s", k, n, c.pos, (size_t) p & 63, how ? " byte by byte" : "");
			cov = Mix(cov, (n << 16) ^ (((size_t) p & 15) << 8) ^ k);
			if (!n) Count("fault.empty_delivery");
			if (n && n < 8) Count("fault.short_delivery");
			for (auto& l : c.lanes) l->Feed(p, p + n, how);
			c.pos += n;
			char when[64]; snprintf(when, sizeof when, "after %zu bytes", c.pos);
			for (auto& l : c.lanes) l->Check(c.want[c.pos + c.marks], c.pos + c.marks, when);
			Cover(cov);
			continue;
		}
		if (c.marks) {
			for (auto& l : c.lanes) l->Mark(Pire::EndMark);
			for (auto& l : c.lanes) l->Check(c.want[c.text.size() + 2], c.text.size() + 2, "after the end mark");
			Log("conn %zu: end, verdict %d", k, (int) c.want[c.text.size() + 2]);
		}
		c.ended = true; --open;
	}
}

Property p01("P01", Run01, wl::WarmLibrary);

}

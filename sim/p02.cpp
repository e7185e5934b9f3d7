// P02: a glued scanner reports exactly what its parts would report, whatever the order of gluing,
// and running out of states during gluing gives an empty scanner and damages nothing.
#include "common.h"
#include <algorithm>
using namespace sim;

namespace {

struct Leaf { re::P ast; bool surround; sc::ScannerP scanner; std::string shown; };
struct Item { sc::ScannerP scanner; std::vector<size_t> ids; };
struct Conn { size_t item; std::string text; size_t pos; bool marks, begun, ended; sc::StateP st; std::vector<sc::StateP> leafSt; bool sawDead; };

struct World {
	sc::KindId kind; re::Opts o; std::vector<Leaf> leaves; std::vector<Item> items; std::vector<std::unique_ptr<Conn>> conns; world::Nic nic;

	void Check(Conn& c, const char* when) {
		Item& it = items[c.item];
		sc::Obs got = it.scanner->Observe(*c.st);
		if (sc::IsMulti(kind)) {
			std::vector<uint64_t> want, have(got.begin() + 2, got.end());
			re::Syms s = re::ToSyms(c.text.substr(0, c.pos), c.marks && c.begun, c.ended && c.marks);
			for (size_t k = 0; k < it.ids.size(); ++k) {
				Leaf& l = leaves[it.ids[k]];
				re::Ref r = { l.ast, l.surround, o.utf8 };
				if (r.Verdicts(s)[s.size()]) want.push_back(100 + k);
			}
			std::sort(have.begin(), have.end());
			SIM_CHECK(want == have, "wrong-accepted-set", "%s glued from %zu patterns accepts %s %s, its parts accept %s", sc::Names[kind], it.ids.size(), sc::ShowObs(have).c_str(), when, sc::ShowObs(want).c_str());
			SIM_CHECK(got[0] == !want.empty(), "wrong-verdict", "%s: Final is %d %s with %zu accepted patterns", sc::Names[kind], (int) got[0], when, want.size());
			SIM_CHECK(!(c.sawDead && got[0]), "dead-state-revived", "%s reported a dead state earlier and accepts %s", sc::Names[kind], when);
			if (got[1]) c.sawDead = true;
			if (want.size() > 1) Count("reach.several_accepted");
			if (!want.empty() && want.size() < it.ids.size()) Count("reach.some_accepted");
			uint64_t h = HashStr("state"); for (uint64_t w : have) h = Mix(h, w);
			Cover(Mix(h, c.pos ^ (c.item << 20) ^ HashStr(c.text)));
		} else {
			// results of the parts, in order of gluing
			std::vector<uint64_t> res;
			for (uint64_t v : got) if (v >= 1000) res.push_back(v - 1000);
			SIM_CHECK(res.size() == it.ids.size(), "wrong-result-count", "%s glued from %zu patterns has %zu results", sc::Names[kind], it.ids.size(), res.size());
			for (size_t k = 0; k < it.ids.size(); ++k) {
				sc::Obs part = leaves[it.ids[k]].scanner->Observe(*c.leafSt[k]);
				uint64_t w = part.back() - 1000;
				SIM_CHECK(res[k] == w, "wrong-result", "%s: result %zu is %llu %s, the part alone gives %llu", sc::Names[kind], k, (unsigned long long) res[k], when, (unsigned long long) w);
				if (w) Count("reach.nonzero_result");
			}
			if (sc::IsHalf(kind)) {
				std::vector<uint64_t> want, have;
				for (uint64_t v : got) if (v >= 100 && v < 1000) have.push_back(v - 100);
				std::sort(have.begin(), have.end());
				for (size_t k = 0; k < res.size(); ++k) if (res[k]) want.push_back(k);
				SIM_CHECK(want == have, "wrong-accepted-set", "%s lists %s %s, nonzero results are %s", sc::Names[kind], sc::ShowObs(have).c_str(), when, sc::ShowObs(want).c_str());
			}
			Cover(Mix(sc::HashObs(got, HashStr(c.text)), c.pos));
		}
	}
	void Open(size_t item) {
		std::unique_ptr<Conn> c(new Conn);
		c->item = item; c->pos = 0; c->marks = Draw(2); c->begun = !c->marks; c->ended = false; c->sawDead = false;
		Leaf& l = leaves[Pick(items[item].ids)];
		c->text = re::GenText(l.ast, o, 30 + Draw(3) * 50);
		if (Draw(2)) { Leaf& l2 = leaves[Pick(items[item].ids)]; c->text += re::GenText(l2.ast, o, 40); }
		c->st = items[item].scanner->NewState();
		if (!sc::IsMulti(kind)) for (size_t id : items[item].ids) c->leafSt.push_back(leaves[id].scanner->NewState());
		Log("connection %zu on scanner %zu: \"%s\" marks %d", conns.size(), item, re::Show(c->text).c_str(), c->marks);
		Check(*c, "before any input");
		conns.push_back(std::move(c));
	}
	void Step(Conn& c, unsigned ch) {
		items[c.item].scanner->Step(*c.st, ch);
		for (size_t k = 0; k < c.leafSt.size(); ++k) leaves[items[c.item].ids[k]].scanner->Step(*c.leafSt[k], ch);
	}
	void Deliver(size_t k) {
		Conn& c = *conns[k];
		if (!c.begun) { c.begun = true; Step(c, Pire::BeginMark); Log("conn %zu: begin", k); Check(c, "after the begin mark"); return; }
		if (c.pos == c.text.size()) {
			c.ended = true;
			if (c.marks) { Step(c, Pire::EndMark); Log("conn %zu: end", k); Check(c, "after the end mark"); }
			return;
		}
		size_t n = wl::DrawChunk(c.text.size() - c.pos);
		std::string part = c.text.substr(c.pos, n);
		const char* p = nic.Place(part);
		Log("conn %zu: %zu bytes at %zu (address %%64 = %zu)", k, n, c.pos, (size_t) p & 63);
		items[c.item].scanner->Run(*c.st, p, p + n);
		for (size_t i = 0; i < c.leafSt.size(); ++i) leaves[items[c.item].ids[i]].scanner->Run(*c.leafSt[i], p, p + n);
		c.pos += n;
		char when[64]; snprintf(when, sizeof when, "after %zu bytes", c.pos);
		Check(c, when);
	}
	bool Glue(size_t a, size_t b, unsigned budget) {
		size_t sa = items[a].scanner->Size(), sb = items[b].scanner->Size(), product = sa * sb;
		size_t limit = 0;
		if (product > 6000 && budget == 0) budget = 1 + (unsigned) Draw(2);
		if (budget == 1) limit = 1 + Draw(product < 3000 ? product : 3000);
		else if (budget == 2) limit = 1 + Draw(16);
		else if (budget == 3) limit = product < 6000 ? product : 6000;
		Log("glue %zu (%zu states) + %zu (%zu states), limit %zu", a, sa, b, sb, limit);
		sc::ScannerP r = items[a].scanner->GlueWith(*items[b].scanner, limit);
		Count("op.glue");
		size_t patterns = items[a].ids.size() + items[b].ids.size();
		bool overCount = (kind == sc::KCounting || kind == sc::KAdvanced) && patterns > 16;
		if (r->Empty()) {
			Count("fault.glue_out_of_states"); Log("glue: empty");
			SIM_CHECK(overCount || (limit && limit < product), "needless-failure", "gluing %zu by %zu states failed with a limit of %zu", sa, sb, limit);
			SIM_CHECK(r->RegexpsCount() == 0 || !sc::IsMulti(kind), "failed-glue-not-empty", "a failed glue has %zu patterns", r->RegexpsCount());
			return false;
		}
		SIM_CHECK(!limit || r->Size() <= limit + 1, "limit-ignored", "gluing with a limit of %zu made %zu states", limit, r->Size());
		SIM_CHECK(r->RegexpsCount() == patterns, "wrong-pattern-count", "gluing %zu patterns made a scanner of %zu", patterns, r->RegexpsCount());
		Item n; n.scanner = std::move(r); n.ids = items[a].ids; n.ids.insert(n.ids.end(), items[b].ids.begin(), items[b].ids.end());
		items.push_back(std::move(n));
		return true;
	}
};

static const sc::KindId HalfK[] = { sc::KHalf, sc::KHalfNoMask, sc::KHalfNonreloc, sc::KHalfNonrelocNoMask };
static const sc::KindId MultiK[] = { sc::KScanner, sc::KNoMask, sc::KNonreloc, sc::KNonrelocNoMask };
static const sc::KindId CountK[] = { sc::KCounting, sc::KAdvanced, sc::KNoGlue };

// Products of tens and hundreds of thousands of states: the default limit, limits next to the exact
// size, and tables larger than what the default limit needs. Each part counts the letters modulo a number.
void RunLarge() {
	sc::KindId kind = MultiK[Draw(4)];
	size_t n[2], fin[2]; char letter = (char) ('a' + Draw(26));
	bool huge = Draw(3) == 2;
	n[0] = huge ? 480 + Draw(40) : 230 + Draw(120); n[1] = huge ? 505 + Draw(40) : 230 + Draw(120);
	sc::ScannerP part[2];
	for (int k = 0; k < 2; ++k) {
		fin[k] = Draw(n[k]);
		Pire::Fsm f;
		{ LibScope in; f.Resize(n[k]); f.SetInitial(0); f.ClearFinal(); f.SetFinal(fin[k], true); for (size_t i = 0; i < n[k]; ++i) f.Connect(i, (i + 1) % n[k], letter); }
		part[k] = sc::CompileFsm(kind, f);
		Log("part %d: %s, \"%c\" %zu times modulo %zu", k, sc::Names[kind], letter, fin[k], n[k]);
		SIM_CHECK(part[k]->Size() == n[k] + 1, "wrong-size", "a cycle of %zu states and a dead one makes a scanner of %zu", n[k], part[k]->Size());
	}
	size_t a = n[0], b = n[1]; while (b) { size_t t = a % b; a = b; b = t; }
	size_t states = n[0] / a * n[1] + 1;      // pairs reached along the cycle, and the pair of dead ends
	size_t limit = 0, what = Draw(4);
	if (what == 1) limit = states - 3 + Draw(6);
	else if (what == 2) limit = 300000;
	else if (what == 3) limit = 262000 + Draw(400);
	size_t allowed = limit ? limit : 80000;
	Log("glue, limit %zu, the product has %zu states", limit, states);
	sc::ScannerP r = part[0]->GlueWith(*part[1], limit);
	Count("op.glue_large");
	if (states > 262143 && allowed >= states) Count("reach.large_table");
	if (r->Empty()) {
		Count("fault.glue_out_of_states");
		SIM_CHECK(states > allowed, "needless-failure", "a product of %zu states does not fit a limit of %zu", states, allowed);
		for (int k = 0; k < 2; ++k) SIM_CHECK(part[k]->Size() == n[k] + 1, "operand-changed", "part %d changed", k);
		r.reset();
	} else {
		SIM_CHECK(states <= allowed + 1, "limit-ignored", "a product of %zu states was made with a limit of %zu", states, allowed);
		SIM_CHECK(r->Size() == states, "wrong-size", "the product has %zu states instead of %zu", r->Size(), states);
	}
	world::Nic nic;
	std::string text(8 + Draw(90000), letter);
	bool spoil = Draw(4) == 3; size_t bad = spoil ? Draw(text.size()) : text.size();
	if (spoil) text[bad] = '-';
	sc::StateP st[3]; sc::AnyScanner* s[3] = { part[0].get(), part[1].get(), r.get() };
	int used = r ? 3 : 2;
	for (int k = 0; k < used; ++k) st[k] = s[k]->NewState();
	size_t pos = 0;
	while (pos < text.size()) {
		size_t len = 1 + Draw(text.size() < 4000 ? text.size() : 4000); if (len > text.size() - pos) len = text.size() - pos;
		const char* p = nic.Place(text.substr(pos, len));
		pos += len;
		bool want[2];
		for (int k = 0; k < used; ++k) {
			s[k]->Run(*st[k], p, p + len);
			sc::Obs got = s[k]->Observe(*st[k]), exp;
			if (k < 2) want[k] = pos <= bad && pos % n[k] == fin[k];
			bool any = k < 2 ? want[k] : want[0] || want[1];
			exp.push_back(any); exp.push_back(pos > bad);
			if (k == 2) { if (want[0]) exp.push_back(100); if (want[1]) exp.push_back(101); } else if (any) exp.push_back(100);
			SIM_CHECK(got == exp, "wrong-accepted-set", "after %zu letters %s is %s, expected %s", pos, k == 2 ? "the product" : "a part", sc::ShowObs(got).c_str(), sc::ShowObs(exp).c_str());
		}
	}
	Log("%zu letters read", pos);
	Cover(Mix(states, Mix(limit, kind)));
}

void Run02() {
	HeapSetGarbage((unsigned char) Draw(256));
	if (Draw(40) == 39) { RunLarge(); return; }
	World w;
	size_t fam = Draw(8);
	w.kind = fam < 5 ? MultiK[Draw(4)] : fam == 5 ? HalfK[Draw(4)] : CountK[Draw(3)];
	w.o = wl::DrawOpts();
	w.o.depth = (int) (1 + Draw(2)); w.o.maxRep = 2;
	bool counting = sc::IsCounting(w.kind);
	if (counting) { w.o.marks = false; w.o.andnot = false; w.o.depth = 1; }
	size_t n = 2 + Draw(4);
	bool many = counting && Draw(6) == 5;       // gluing up to the limit of what the kind can hold
	if (many) n = 4;
	for (size_t i = 0; i < n; ++i) {
		Leaf l;
		l.ast = many ? re::GenChars(w.o) : wl::DrawPattern(w.o, 12);
		l.surround = !counting && Draw(2);
		std::string pat = re::Render(l.ast, w.o);
		Pire::Fsm f = sc::Parse(pat, w.o, l.surround);
		if (counting) {
			re::P sep = re::GenChars(w.o);
			std::string sp = re::Render(re::Mk(re::Star, { sep }), w.o);
			if (Draw(3) == 0) sp = ".*";
			l.scanner = sc::CompileCounting(w.kind, f, sc::Parse(sp, w.o, false));
			Log("pattern %zu: %s /%s/ separated by /%s/", i, sc::Names[w.kind], re::Show(pat).c_str(), re::Show(sp).c_str());
		} else {
			l.scanner = sc::CompileFsm(w.kind, f);
			Log("pattern %zu: %s /%s/%s surround %d", i, sc::Names[w.kind], re::Show(pat).c_str(), wl::OptStr(w.o).c_str(), l.surround);
		}
		if (l.scanner->Size() > 400) Discard("large part");
		Item it; it.scanner = l.scanner->CopyOf(); it.ids.push_back(i);
		w.leaves.push_back(std::move(l)); w.items.push_back(std::move(it));
	}
	size_t events = 10 + Draw(30);
	for (size_t e = 0; e < events; ++e) {
		Advance(1 + Draw(3000));
		size_t r = Draw(10);
		if (r < 2 && w.items.size() < 14) {
			size_t a = Draw(w.items.size()), b = Draw(w.items.size());
			if (w.items[a].ids.size() + w.items[b].ids.size() > (many ? 20u : 6u)) continue;
			w.Glue(a, b, (unsigned) Draw(4));
		} else if (r == 2) {
			size_t k = Draw(w.items.size());
			w.items[k].scanner = w.items[k].scanner->CopyOf();
			// connections that follow a replaced scanner start anew: states belong to a scanner object
			for (size_t c = 0; c < w.conns.size(); ) if (w.conns[c]->item == k) w.conns.erase(w.conns.begin() + c); else ++c;
			Log("scanner %zu replaced by its copy", k); Count("op.copy");
		} else if (r == 3 || w.conns.empty()) { if (w.conns.size() < 6) w.Open(w.items.size() - 1 - Draw(w.items.size() < 4 ? w.items.size() : 4)); }
		else {
			size_t k = Draw(w.conns.size());
			if (!w.conns[k]->ended) w.Deliver(k);
		}
	}
	// finally everything is glued in one chain, in drawn order, and read once to the end
	std::vector<size_t> order; for (size_t i = 0; i < n; ++i) order.push_back(i);
	Shuffle(order);
	size_t cur = order[0];
	for (size_t i = 1; i < n; ++i) {
		if (w.items[cur].scanner->Size() * w.items[order[i]].scanner->Size() > 20000) break;
		bool left = Draw(2);
		if (!w.Glue(left ? cur : order[i], left ? order[i] : cur, 3)) break;
		cur = w.items.size() - 1;
	}
	w.Open(cur);
	while (!w.conns.back()->ended) w.Deliver(w.conns.size() - 1);
	for (size_t k = 0; k < w.conns.size(); ++k) while (!w.conns[k]->ended) w.Deliver(k);
}

Property p02("P02", Run02, wl::WarmLibrary);

}

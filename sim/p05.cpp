// P05: every operation on automata does to the language what it says, in whatever order and on
// whatever operands it is applied. A run is a history of operations on a few automata, each followed
// by an independent reference model; scanners compiled on the way are compared with the model state by
// state, over all reachable pairs of states.
#include "common.h"
#include "lang.h"
#include "fsmx.h"
using namespace sim;
using namespace lang;

namespace {

struct Slot { Pire::Fsm f; dfa::Dfa m; bool frozen = false; };   // frozen: determined, see Fsm::Determine()

// Raw construction: a drawn graph, built in drawn order with detours.
Slot RawGraph(const Alphabet& a) {
	Slot s; dfa::Nfa n(a.Syms(), 1); n.fin.insert(0);
	size_t states = 1 + Draw(5), steps = 2 + Draw(10);
	n.d.resize(states); s.f.Resize(states);
	auto conn = [&](int f, int t, int c) { for (Pire::Char ch : a.All(c)) s.f.Connect(f, t, ch); n.On(f, c, t); };
	for (size_t i = 0; i < steps; ++i) {
		int f = (int) Draw(n.d.size()), t = (int) Draw(n.d.size()), c = (int) Draw(a.Syms() - 1);
		switch (Draw(12)) {
		case 0: s.f.Connect(f, t); n.On(f, -1, t); Log("  raw: %d -> %d", f, t); break;
		case 1: s.f.Disconnect(f, t); for (auto& e : n.d[f]) e.second.erase(t); Log("  raw: no %d -> %d", f, t); break;
		case 2: for (Pire::Char ch : a.All(c)) s.f.Disconnect(f, t, ch); n.d[f][c].erase(t); Log("  raw: no %d -%s-> %d", f, a.Show(c).c_str(), t); break;
		case 3: { bool on = Draw(3) != 0; s.f.SetFinal(f, on); if (on) n.fin.insert(f); else n.fin.erase(f); Log("  raw: %d final %d", f, on); break; }
		case 4: s.f.SetInitial(f); n.init = f; Log("  raw: initial %d", f); break;
		case 5: if (n.d.size() < 7) { s.f.Resize(n.d.size() + 1); n.Add(); Log("  raw: resize %zu", n.d.size()); } break;
		case 6: for (Pire::Char ch : a.All(c)) s.f.ConnectFinal(t, ch); { auto fin = n.fin; for (int x : fin) n.On(x, c, t); } Log("  raw: finals -%s-> %d", a.Show(c).c_str(), t); break;
		case 7: if (Draw(2)) { s.f.Sparse(true); Log("  raw: sparse"); Count("reach.raw_sparsed"); } else { s.f.Unsparse(); Log("  raw: unsparse"); } break;
		case 8: { int d = (int) Draw(n.d.size()); s.f.Divert(f, t, d); if (t != d) for (auto& e : n.d[f]) if (e.second.erase(t)) e.second.insert(d); Log("  raw: divert %d -> %d to %d", f, t, d); break; }
		default: conn(f, t, c); Log("  raw: %d -%s-> %d", f, a.Show(c).c_str(), t);
		}
	}
	s.m = dfa::Det(n);
	// the answers of the table itself
	for (int k = 0; k < 4; ++k) {
		int f = (int) Draw(n.d.size()), t = (int) Draw(n.d.size()), c = (int) Draw(a.Syms() - 1);
		bool want = n.d[f].count(c) && n.d[f][c].count(t), got = s.f.Connected(f, t, a.Rep(c));
		SIM_CHECK(want == got, "raw-connected", "Connected(%d, %d, %s) is %d, want %d", f, t, a.Show(c).c_str(), got, want);
		bool any = false; for (auto& e : n.d[f]) if (e.second.count(t)) any = true;
		SIM_CHECK(any == s.f.Connected(f, t), "raw-connected", "Connected(%d, %d) is %d, want %d", f, t, !any, any);
	}
	// dead states: not reachable from the initial state, or not leading to a final one
	{
		std::set<int> fwd{ n.init }, bwd(n.fin.begin(), n.fin.end());
		for (bool more = true; more; ) { more = false; for (size_t i = 0; i < n.d.size(); ++i) for (auto& e : n.d[i]) for (int t : e.second) { if (fwd.count((int) i) && fwd.insert(t).second) more = true; if (bwd.count(t) && bwd.insert((int) i).second) more = true; } }
		auto dead = s.f.DeadStates();
		for (size_t i = 0; i < n.d.size(); ++i)
			SIM_CHECK((dead.count(i) != 0) == !(fwd.count((int) i) && bwd.count((int) i)), "dead-states", "DeadStates() is wrong about state %zu", i);
	}
	return s;
}

// The graph a caller can read out of an automaton.
dfa::Nfa Read(const Alphabet& a, const Pire::Fsm& f) {
	dfa::Nfa n(a.Syms(), (int) f.Size()); n.init = (int) f.Initial();
	for (size_t s : f.Finals()) n.fin.insert((int) s);
	for (int s = 0; s < (int) f.Size(); ++s) {
		for (size_t t : f.Destinations(s, Pire::Epsilon)) n.On(s, -1, (int) t);
		for (int c = 0; c < a.Syms(); ++c) {
			if (c == a.Pad() && !((size_t) Pire::MaxCharUnaligned < Pire::MaxChar)) continue;
			for (size_t t : f.Destinations(s, c == a.Pad() ? (Pire::Char) Pire::MaxCharUnaligned : a.Rep(c))) n.On(s, c, (int) t);
		}
	}
	return n;
}
// Raw changes of an automaton that has a history.
void RawEdit(const Alphabet& a, Slot& x) {
	dfa::Nfa n = Read(a, x.f);
	SIM_CHECK(dfa::Det(n) == x.m, "read-language", "the graph read from the automaton has another language");
	Pire::Fsm& f = x.f; dfa::Nfa o = n;
	struct Edit { int k, f, t, c; bool on; int to; }; std::vector<Edit> es;
	for (size_t k = 1 + Draw(3); k; --k) {
		Edit e = { (int) Draw(9), (int) Draw(n.d.size()), (int) Draw(n.d.size()), (int) Draw(a.Syms() - 1), Draw(3) != 0, (int) Draw(n.d.size()) };
		switch (e.k) {
		case 0: n.On(e.f, -1, e.t); break;
		case 1: for (auto& q : n.d[e.f]) q.second.erase(e.t); break;
		case 2: n.d[e.f][e.c].erase(e.t); break;
		case 3: if (e.on) n.fin.insert(e.f); else n.fin.erase(e.f); break;
		case 4: n.init = e.f; break;
		case 5: n.Add(); n.On(e.f, e.c, (int) n.d.size() - 1); n.On((int) n.d.size() - 1, -1, e.t); break;
		case 6: { auto fin = n.fin; for (int z : fin) n.On(z, e.c, e.t); break; }
		case 7: for (auto& q : n.d[e.f]) if (q.second.erase(e.t)) q.second.insert(e.to); break;
		default: n.On(e.f, e.c, e.t);
		}
		es.push_back(e);
	}
	dfa::Dfa m = dfa::Det(n);                        // before anything is changed: this may be too big
	f.SetIsDetermined(false);
	for (Edit& e : es) switch (e.k) {
		case 0: f.Connect(e.f, e.t); Log("  raw: %d -> %d", e.f, e.t); break;
		case 1: f.Disconnect(e.f, e.t); Log("  raw: no %d -> %d", e.f, e.t); break;
		case 2: for (Pire::Char ch : a.All(e.c)) f.Disconnect(e.f, e.t, ch); Log("  raw: no %d -%s-> %d", e.f, a.Show(e.c).c_str(), e.t); break;
		case 3: f.SetFinal(e.f, e.on); Log("  raw: %d final %d", e.f, e.on); break;
		case 4: f.SetInitial(e.f); Log("  raw: initial %d", e.f); break;
		case 5: { size_t z = f.Resize(f.Size() + 1); for (Pire::Char ch : a.All(e.c)) f.Connect(e.f, z, ch); f.Connect(z, e.t); Log("  raw: %d -%s-> %zu -> %d", e.f, a.Show(e.c).c_str(), z, e.t); break; }
		case 6: for (Pire::Char ch : a.All(e.c)) f.ConnectFinal(e.t, ch); Log("  raw: finals -%s-> %d", a.Show(e.c).c_str(), e.t); break;
		case 7: f.Divert(e.f, e.t, e.to); Log("  raw: %d -> %d diverted to %d", e.f, e.t, e.to); break;
		default: for (Pire::Char ch : a.All(e.c)) f.Connect(e.f, e.t, ch); Log("  raw: %d -%s-> %d", e.f, a.Show(e.c).c_str(), e.t);
	}
	x.m = m; x.frozen = false;
	Count("op.raw_edit");
}

void Compare(const Alphabet& a, const Pire::Fsm& f, const dfa::Dfa& m) {
	bool fin = false; for (char x : m.fin) if (x) fin = true;
	Count(fin ? "reach.language_nonempty" : "reach.language_empty"); if (m.Size() > 12) Count("reach.large_language");
	switch (Draw(7)) {
	case 0: { Pire::Fsm c(f); Exact(a, c.Compile<Pire::NonrelocScanner>(), m, "NonrelocScanner"); break; }
	case 1: { Pire::Fsm c(f); Walk(a, c.Compile<Pire::SimpleScanner>(), m, "SimpleScanner", true); break; }
	case 2: { Pire::Fsm c(f); Walk(a, c.Compile<Pire::SlowScanner>(), m, "SlowScanner", false); break; }
	case 3: { Pire::Fsm c(f); Exact(a, c.Compile<Pire::ScannerNoMask>(), m, "ScannerNoMask"); break; }
	case 4: {
		Pire::Fsm c(f); c.Canonize();
		SIM_CHECK(c.Size() == m.Size(), "not-minimal", "canonized to %zu states, the minimal automaton has %zu", c.Size(), m.Size());
		Exact(a, c.Compile<Pire::Scanner>(), m, "Scanner of a canonized automaton"); break;
	}
	default: { Pire::Fsm c(f); Exact(a, c.Compile<Pire::Scanner>(), m, "Scanner"); }
	}
}

void Run05() {
	HeapSetGarbage((unsigned char) Draw(256));
	Alphabet a = DrawAlphabet(); int k = a.Syms(); bool andnot = Draw(3) == 2;
	std::vector<Slot> pool; size_t slots = 2 + Draw(2), events = 3 + Draw(12); uint64_t h = 0;
	auto fresh = [&]() {
		Slot s; size_t r = Draw(8);
		if (r == 6) { s.f = Pire::Fsm(); s.m = dfa::Eps(k); if (Draw(3) == 2) { s.f = Pire::Fsm::MakeFalse(); s.m = dfa::None(k); Log("  nothing"); } else Log("  the empty word"); }
		else if (r == 7) { s = RawGraph(a); Count("op.raw"); }
		else for (int d = 3;; --d) {
			Pat p; try { p = GenPat(a, d, andnot); } catch (dfa::TooBig&) { if (d == 0) Discard("pattern"); continue; }
			s.f = ParsePat(p.s, andnot); s.m = p.m; Log("  /%s/", p.s.c_str()); Count("op.parse"); break;
		}
		return s;
	};
	{ std::string ls; for (int i = 0; i < a.K(); ++i) ls += " " + a.Show(i); Log("letters%s", ls.c_str()); }
	for (size_t i = 0; i < slots; ++i) { Log("slot %zu:", i); pool.push_back(fresh()); }
	size_t last = ~(size_t) 0, lastOp = 0;
	for (size_t ev = 0; ev < events; ++ev) {
		Advance(1 + Draw(1000));
		size_t i = last < slots && Draw(2) ? last : Draw(slots), j = Draw(slots), op = Draw(41);   // histories of one automaton
		// what is remembered about the shape of an automaton must not outlive an operation that changes the shape
		if (i == last && (lastOp == 20 || lastOp == 40 ? Draw(2) : Draw(6) == 5)) op = 2;
		last = op == 22 && Draw(2) ? j : i;
		if (op >= 30) op = (size_t[]) { 2, 3, 2, 3, 20, 20, 4, 0, 40, 40, 40 }[op - 30];
		lastOp = op;
		Slot& x = pool[i]; Slot& y = pool[j];
		if (x.f.Size() > 260 || (x.frozen && op < 22 && op != 5)) { Log("slot %zu again:", i); x = Slot(); x = fresh(); Compare(a, x.f, x.m); continue; }
		bool self = i == j; dfa::Dfa m = x.m; char what[80]; what[0] = 0; bool frozen = x.frozen;
		bool yok = !y.frozen && y.f.Size() <= 260;
		try {
		switch (op) {
		case 0: case 1: if (!yok) break; m = dfa::Cat(x.m, y.m); snprintf(what, sizeof what, "slot %zu += slot %zu", i, j); if (Draw(3)) x.f += y.f; else x.f = x.f + y.f; if (self) Count("reach.self_concatenated"); break;
		case 2: case 3: if (!yok) break; m = dfa::Or(x.m, y.m); snprintf(what, sizeof what, "slot %zu |= slot %zu", i, j); if (Draw(3)) x.f |= y.f; else x.f = x.f | y.f; if (self) Count("reach.self_alternated"); break;
		case 4: if (y.f.Size() > 260) break; m = dfa::And(x.m, y.m); snprintf(what, sizeof what, "slot %zu &= slot %zu", i, j); if (Draw(3)) x.f &= y.f; else x.f = x.f & y.f; break;
		case 5: if (x.frozen) Count("reach.determined_complemented"); frozen = false; m = dfa::Not(x.m); snprintf(what, sizeof what, "complement of slot %zu", i); if (Draw(2)) x.f.Complement(); else x.f = ~x.f; break;
		case 6: m = dfa::Star(x.m); snprintf(what, sizeof what, "slot %zu iterated", i); if (Draw(2)) x.f.Iterate(); else x.f = *x.f; break;
		case 7: { size_t n = Draw(4); m = dfa::Power(x.m, n); snprintf(what, sizeof what, "slot %zu * %zu", i, n); if (Draw(2)) x.f *= n; else x.f = x.f * n; break; }
		case 8: m = dfa::Reverse(x.m); snprintf(what, sizeof what, "slot %zu reversed", i); x.f.Reverse(); break;
		case 9: m = dfa::Prefix(x.m); snprintf(what, sizeof what, "prefixes of slot %zu", i); x.f.MakePrefix(); break;
		case 10: m = dfa::Suffix(x.m); snprintf(what, sizeof what, "suffixes of slot %zu", i); x.f.MakeSuffix(); break;
		case 11: case 12: { int s = (int) Draw(a.K()); m = dfa::Cat(x.m, dfa::Sym(k, { s })); snprintf(what, sizeof what, "slot %zu, then %s", i, a.Show(s).c_str()); x.f.Append((char) a.letters[s]); break; }
		case 13: {
			std::string str; size_t n = Draw(4); m = x.m;
			for (size_t q = 0; q < n; ++q) { int s = (int) Draw(a.K()); str += (char) a.letters[s]; m = dfa::Cat(m, dfa::Sym(k, { s })); }
			snprintf(what, sizeof what, "slot %zu, then \"%s\"", i, re::Show(str).c_str()); x.f.Append(str); break;
		}
		case 14: {
			Pire::TVector<Pire::ystring> strs; dfa::Dfa u = dfa::None(k); size_t n = 1 + Draw(4); std::string sh;
			for (size_t q = 0; q < n; ++q) {
				std::string str; size_t len = 1 + Draw(3); dfa::Dfa w = dfa::Eps(k);
				for (size_t z = 0; z < len; ++z) { int s = (int) Draw(a.K()); str += (char) a.letters[s]; w = dfa::Cat(w, dfa::Sym(k, { s })); }
				strs.push_back(str); u = dfa::Or(u, w); sh += " " + re::Show(str);
			}
			m = dfa::Cat(x.m, u); snprintf(what, sizeof what, "slot %zu, then one of%s", i, sh.c_str()); x.f.AppendStrings(strs); Count("op.append_strings"); break;
		}
		case 15: m = dfa::Cat(x.m, dfa::Sym(k, a.Bytes())); snprintf(what, sizeof what, "slot %zu, then a dot", i); x.f.AppendDot(); break;
		case 16: { bool b = Draw(2); m = dfa::Cat(x.m, dfa::Sym(k, { b ? a.Begin() : a.End() })); snprintf(what, sizeof what, "slot %zu, then a mark %d", i, b); x.f.AppendSpecial(b ? Pire::BeginMark : Pire::EndMark); break; }
		case 17: m = dfa::Cat(dfa::Cat(dfa::Anything(k), x.m), dfa::Anything(k)); snprintf(what, sizeof what, "slot %zu surrounded", i); if (Draw(2)) x.f.Surround(); else x.f = x.f.Surrounded(); break;
		case 18: m = dfa::Cat(dfa::Anything(k), x.m); snprintf(what, sizeof what, "anything before slot %zu", i); x.f.PrependAnything(); break;
		case 19: m = dfa::Cat(x.m, dfa::Anything(k)); snprintf(what, sizeof what, "anything after slot %zu", i); x.f.AppendAnything(); break;
		case 20: snprintf(what, sizeof what, "slot %zu without epsilons", i); x.f.RemoveEpsilons(); Count("op.remove_epsilons"); break;
		case 21: snprintf(what, sizeof what, "slot %zu without dead ends", i); x.f.RemoveDeadEnds(); break;
		case 22: if (self) { Pire::Fsm& r = x.f; x.f = r; x.f.Swap(r); snprintf(what, sizeof what, "slot %zu assigned to and swapped with itself", i); break; } x.f.Swap(y.f); std::swap(x.frozen, y.frozen); std::swap(x.m, y.m); m = x.m; frozen = x.frozen; snprintf(what, sizeof what, "slots %zu and %zu swapped", i, j); Compare(a, y.f, y.m); Count("op.swap"); break;
		case 23: x.f = y.f; m = y.m; frozen = y.frozen; snprintf(what, sizeof what, "slot %zu = slot %zu", i, j); break;
		case 24: if (self) break; x.f = std::move(y.f); m = y.m; frozen = y.frozen; y.f = Pire::Fsm(); y.m = dfa::Eps(k); y.frozen = false; snprintf(what, sizeof what, "slot %zu moved from slot %zu", i, j); break;
		case 25: case 26: {
			size_t budget = 1 + Draw(6); bool ok = x.f.Determine(budget);
			snprintf(what, sizeof what, "slot %zu determined within %zu: %d", i, budget, ok);
			if (ok) frozen = true; else { Count("fault.out_of_states"); SIM_CHECK(!x.f.IsDetermined() || x.frozen, "failed-determine", "a failed Determine() left the automaton marked as determined"); }
			break;
		}
		case 27: {
			size_t budget = Draw(2) ? 1 + Draw(5) : 0; bool threw = false;
			try { x.f.Canonize(budget); } catch (Pire::Error&) { threw = true; }
			snprintf(what, sizeof what, "slot %zu canonized within %zu: %d", i, budget, !threw);
			SIM_CHECK(!threw || budget, "canonize-threw", "Canonize() without a limit threw");
			if (!threw) { frozen = true; SIM_CHECK(x.f.Size() == x.m.Size(), "not-minimal", "canonized to %zu states, the minimal automaton has %zu", x.f.Size(), x.m.Size()); Count("reach.canonized"); } else Count("fault.out_of_states");
			break;
		}
		case 28:
			if (Draw(3) == 2) { bool e = Draw(2); if (Draw(3)) { x.f.Sparse(e); snprintf(what, sizeof what, "slot %zu sparsed", i); Count("reach.sparsed_again"); } else { x.f.Unsparse(); snprintf(what, sizeof what, "slot %zu unsparsed", i); } break; }
			snprintf(what, sizeof what, "slot %zu without dead ends", i); x.f.RemoveDeadEnds(); if (x.frozen) Count("reach.determined_pruned"); break;
		case 40: Log("slot %zu (%zu states) edited:", i, x.f.Size()); RawEdit(a, x); m = x.m; frozen = false; break;
		default: { bool was = x.frozen; Log("slot %zu again:", i); (void) was; x = Slot(); x = fresh(); m = x.m; frozen = false; }
		}
		} catch (dfa::TooBig&) { continue; }           // the models are computed before the operations
		if (what[0]) { Log("%s", what); Count("op.algebra"); }
		x.m = m; x.frozen = frozen;
		if (Draw(2)) Compare(a, x.f, x.m);
		if (Draw(4) == 3) Compare(a, y.f, y.m);           // operands are left alone
		h = Mix(h, x.m.Hash() + op); Cover(h);
	}
	for (auto& s : pool) Compare(a, s.f, s.m);
}

Property p05("P05", Run05, wl::WarmLibrary);

}

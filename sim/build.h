// Draws whole scanners of any kind, built the ways users build them: compiled, glued, converted,
// copied, or left empty.
#pragma once
#include "common.h"

namespace wl {

struct Made {
	sc::ScannerP s;
	re::Opts o;
	std::vector<re::P> asts;                     // for drawing texts
	std::string desc;
	bool marks = true;
	std::string Text(size_t maxLen) const {
		if (asts.empty()) { std::string t; re::Noise(t, o, sim::Draw(20)); return t; }
		return re::GenText(sim::Pick(asts), o, maxLen);
	}
};

inline re::Opts SmallOpts() {
	re::Opts o = DrawOpts();
	o.depth = (int) (1 + sim::Draw(2)); o.maxRep = 2;
	return o;
}
// A capture pattern: group 1 of  head ( body ) tail.
inline Pire::Fsm CaptureFsm(Made& m) {
	m.o.andnot = false; m.o.marks = false;
	re::P h = DrawPattern(m.o, 5), b = DrawPattern(m.o, 6), t = DrawPattern(m.o, 5);
	std::string pat = re::RenderAtom(h, m.o) + "(" + re::Render(b, m.o) + ")" + re::RenderAtom(t, m.o);
	int idx = 1;
	{ std::string pre = re::RenderAtom(h, m.o); for (size_t i = 0; i < pre.size(); ++i) { if (pre[i] == '\\') ++i; else if (pre[i] == '(') ++idx; } }
	m.asts.push_back(re::Mk(re::Cat, { h, b, t }));
	m.desc += " /" + re::Show(pat) + "/ group " + std::to_string(idx);
	return sc::Parse(pat, m.o, true, false, idx);
}
inline sc::ScannerP MakeLeaf(sc::KindId k, Made& m) {
	if (sc::IsCounting(k)) {
		m.o.marks = false; m.o.andnot = false;
		re::P ast = DrawPattern(m.o, 8), sep = re::GenChars(m.o);
		std::string pat = re::Render(ast, m.o), sp = sim::Draw(3) == 0 ? ".*" : re::Render(re::Mk(re::Star, { sep }), m.o);
		m.asts.push_back(re::Mk(re::Plus, { re::Mk(re::Cat, { ast, re::Mk(re::Opt, { sep }) }) }));
		m.desc += " /" + re::Show(pat) + "/ sep /" + re::Show(sp) + "/";
		return sc::CompileCounting(k, sc::Parse(pat, m.o, false), sc::Parse(sp, m.o, false));
	}
	if (k == sc::KCapturing || k == sc::KSlowCapturing) return sc::CompileFsm(k, CaptureFsm(m));
	if (sim::Draw(20) == 19) {                    // automata of one state, of one letter class, or accepting nothing
		size_t what = sim::Draw(6);
		m.desc += " degenerate automaton " + std::to_string(what);
		sim::Count("reach.degenerate");
		Pire::Fsm f;
		{
			sim::LibScope l;
			switch (what) {
			case 0: break;
			case 1: f = Pire::Fsm::MakeFalse(); break;
			case 2: f.AppendAnything(); break;
			case 3: f.Complement(); break;
			case 4: f.Append('a'); break;
			default: f.AppendDot(); f.Iterate();
			}
		}
		return sc::CompileFsm(k, f);
	}
	re::P ast = DrawPattern(m.o, 12);
	bool surround = sim::Draw(2);
	std::string pat = re::Render(ast, m.o);
	m.asts.push_back(ast);
	m.desc += " /" + re::Show(pat) + "/" + (surround ? " surrounded" : "");
	return sc::CompileFsm(k, sc::Parse(pat, m.o, surround));
}
// kind < 0: any kind
inline Made Make(int kind = -1, bool allowEmpty = true, size_t maxStates = 1500) {
	Made m;
	sc::KindId k = kind >= 0 ? (sc::KindId) kind : (sc::KindId) sim::Draw(sc::KKinds);
	m.o = SmallOpts();
	m.desc = sc::Names[k];
	if (allowEmpty && sim::Draw(12) == 11) { m.s = sc::Default(k); m.desc += " (empty)"; return m; }
	m.s = MakeLeaf(k, m);
	if (m.s->Gluable()) {
		size_t extra = sim::Draw(3);
		for (size_t i = 0; i < extra; ++i) {
			sc::ScannerP t = MakeLeaf(k, m);
			if (t->Size() * m.s->Size() > 3000) break;
			sc::ScannerP g = m.s->GlueWith(*t, 0);
			if (g->Empty()) break;
			m.s = std::move(g);
		}
	}
	if (m.s->Size() > maxStates) sim::Discard("large scanner");
	if (sc::IsCounting(k)) m.marks = false;
	return m;
}

// What every user-visible answer of a scanner is, on a few texts drawn for it.
struct Probe {
	std::vector<std::string> texts; bool marks;
	std::vector<sc::Obs> obs; size_t regexps, states; bool empty;
	static Probe Of(const Made& m, size_t texts = 3, size_t len = 90) {
		Probe p; p.marks = m.marks && sim::Draw(4) != 3;
		for (size_t i = 0; i < texts; ++i) p.texts.push_back(m.Text(len));
		p.Watch(*m.s);
		return p;
	}
	void Watch(const sc::AnyScanner& s) {
		obs.clear();
		for (auto& t : texts) sc::Watch(s, t, marks, obs);
		regexps = s.RegexpsCount(); states = s.Size(); empty = s.Empty();
	}
	// Same answers from another scanner object? `counts`: also the counts and emptiness.
	void Check(const sc::AnyScanner& s, const char* cls, const char* what, bool counts = true) const {
		Probe q; q.texts = texts; q.marks = marks; q.Watch(s);
		if (counts) {
			SIM_CHECK(q.empty == empty, cls, "%s: Empty() is %d, it was %d", what, q.empty, empty);
			SIM_CHECK(q.regexps == regexps, cls, "%s: %zu patterns, there were %zu", what, q.regexps, regexps);
		}
		SIM_CHECK(q.states == states, cls, "%s: %zu states, there were %zu", what, q.states, states);
		for (size_t i = 0; i < obs.size(); ++i)
			SIM_CHECK(q.obs[i] == obs[i], cls, "%s: observation %zu is %s, it was %s (texts start \"%s\")", what, i, sc::ShowObs(q.obs[i]).c_str(), sc::ShowObs(obs[i]).c_str(), re::Show(texts[0]).c_str());
	}
	uint64_t Hash() const { uint64_t h = marks; for (auto& t : texts) h = sim::Mix(h, sim::HashStr(t)); for (auto& o : obs) h = sc::HashObs(o, h); return h; }
};

}

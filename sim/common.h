// Shared by the property files.
#pragma once
#include "sim.h"
#include "re.h"
#include "world.h"
#include "scanners.h"

namespace wl {

// Run knobs are drawn per run (swarm style): every run has its own mix of features and sizes.
inline re::Opts DrawOpts() {
	re::Opts o;
	o.utf8 = sim::Draw(4) == 3;
	o.andnot = sim::Draw(4) == 3;
	o.marks = sim::Draw(3) == 2;
	o.icase = sim::Draw(5) == 4;
	o.glyphs = o.utf8 ? sim::Draw(4) == 3 : sim::Draw(32) == 31;
	o.depth = 1 + (int) sim::Draw(3);
	o.maxRep = 2 + (int) sim::Draw(3);
	o.alphabet = 1 + sim::Draw(4);
	o.nul = sim::Draw(2);
	return o;
}
inline std::string OptStr(const re::Opts& o) {
	std::string s;
	if (o.utf8) s += " utf8"; if (o.andnot) s += " andnot"; if (o.icase) s += " icase"; if (o.glyphs) s += " glyphs"; if (o.marks) s += " marks";
	return s;
}
// A pattern small enough that its automaton stays small.
inline re::P DrawPattern(const re::Opts& o, size_t maxNodes = 22) {
	for (int d = o.depth; d > 0; --d) {
		re::P p = re::GenNode(o, d);
		if (re::Size(p) <= maxNodes) return p;
	}
	return re::GenNode(o, 0);
}
inline size_t DrawChunk(size_t left) {
	size_t r = sim::Draw(8), n;
	switch (r) {
	case 0: n = left; break;
	case 1: n = 1; break;
	case 2: n = 1 + sim::Draw(8); break;
	case 3: n = 8 * (1 + sim::Draw(6)); break;
	case 4: n = 16 * (1 + sim::Draw(6)); break;
	case 5: n = 0; break;
	case 6: n = 1 + sim::Draw(40); break;
	default: n = left - left / 3; break;
	}
	return n > left ? left : n;
}
// Warms every lazily initialised table, so that no run's behaviour depends on what ran before it.
inline void WarmLibrary() {
	for (int k = 0; k < sc::KKinds; ++k) { sc::ScannerP s = sc::Default((sc::KindId) k); (void) s->Empty(); }
	re::Opts o; o.utf8 = true; o.icase = true; o.andnot = true; o.glyphs = true;
	Pire::Fsm f = sc::Parse("\xD0\xB6[a-c]\\w\\d.", o, true);
	f.Compile<Pire::Scanner>(); f.Compile<Pire::SlowScanner>();
	re::Opts o2; Pire::Fsm g = sc::Parse("a.\\W", o2, true); g.Compile<Pire::SimpleScanner>();
}

}

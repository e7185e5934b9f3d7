// Observations on automata.
#pragma once
#include "scanners.h"

namespace fx {

// Everything a caller can observe of an automaton, state by state.
inline uint64_t Fingerprint(const Pire::Fsm& f) {
	uint64_t h = sim::Mix(f.Size(), f.Initial());
	h = sim::Mix(h, f.IsDetermined());
	for (size_t s : f.Finals()) h = sim::Mix(h, s + 1);
	for (size_t s = 0; s < f.Size(); ++s) {
		h = sim::Mix(h, f.Tag(s));
		for (unsigned c = 0; c < Pire::MaxChar; ++c) {
			const Pire::Fsm::StatesSet& to = f.Destinations(s, (Pire::Char) c);
			if (to.empty()) continue;
			h = sim::Mix(h, 0x10000 + c);
			for (size_t t : to) h = sim::Mix(h, t * 8 + f.Output(s, t));
		}
	}
	return h;
}

}

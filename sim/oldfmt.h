// Images in the previous version of the file format, which the library documents that it still reads:
// the same layout, except that scanners of the loaded family (counting and capturing scanners) carried
// a table of actions between their transitions and their tags. Nothing used that table.
#pragma once
#include "sim.h"
#include <string>
#include <string.h>
#include <stdint.h>

namespace oldfmt {

inline std::string Previous(const std::string& image) {
	std::string out = image;
	uint32_t version, type;
	if (out.size() < 24) return out;
	memcpy(&version, out.data() + 4, 4); memcpy(&type, out.data() + 16, 4);
	if (version != 7) return out;
	version = 6; memcpy(&out[4], &version, 4);
	if (type == 4 || type == 5) {
		uint32_t states, letters; memcpy(&states, out.data() + 24, 4); memcpy(&letters, out.data() + 28, 4);
		size_t jumps = 24 + 24 + 264, n = (size_t) states * letters, at = jumps + n * 8, len = (n * 4 + 7) / 8 * 8;
		if (at > out.size()) return image;
		std::string actions(len, '\0');
		for (size_t i = 0; i < n * 4; ++i) actions[i] = (char) (i * 37 + 11);
		out.insert(at, actions);
	}
	return out;
}

}

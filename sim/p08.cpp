// P08: an image that is cut short, damaged in its header, or belongs to another kind of scanner is
// refused with an exception; nothing outside the bytes given is read and the target is unharmed.
#include "build.h"
#include <sanitizer/asan_interface.h>
using namespace sim;

namespace {

static bool MappableKind(sc::KindId k) { return k != sc::KNonreloc && k != sc::KNonrelocNoMask && k != sc::KHalfNonreloc && k != sc::KHalfNonrelocNoMask; }
// kinds whose files cannot be told apart are not foreign to each other
static int Format(sc::KindId k) {
	switch (k) {
	case sc::KScanner: case sc::KNonreloc: case sc::KHalf: case sc::KHalfNonreloc: return 1;
	case sc::KNoMask: case sc::KNonrelocNoMask: case sc::KHalfNoMask: case sc::KHalfNonrelocNoMask: return 2;
	case sc::KSimple: return 3;
	case sc::KSlow: case sc::KSlowCapturing: return 4;
	default: return 5;
	}
}

void Run08() {
	static world::Mapping map(0x320000000000ull, 1500);
	HeapSetGarbage((unsigned char) Draw(256));
	size_t cases = 1 + Draw(3);
	for (size_t c = 0; c < cases; ++c) {
		Advance(1 + Draw(3000));
		wl::Made src = wl::Make(-1, true, 250);
		std::string image;
		{ world::WritePlan p; world::DiskWriter d(image, p); std::ostream o(&d); src.s->Save(o); }
		Log("image of %s, %zu bytes", src.desc.c_str(), image.size());
		size_t attempts = 1 + Draw(5);
		// the target: a scanner in use
		sc::KindId tk = src.s->kind;
		size_t what = Draw(6);
		bool foreign = what == 5;
		if (foreign) { do tk = (sc::KindId) Draw(sc::KKinds); while (Format(tk) == Format(src.s->kind)); }
		wl::Made tgt = wl::Make(tk, true, 250);
		if (Draw(4) == 3) {
			if (tk == sc::KNoGlue) { // a scanner that itself came from a file of the older counting kind
				wl::Made old = wl::Make(sc::KAdvanced, false, 250); std::string f;
				{ world::WritePlan p; world::DiskWriter d(f, p); std::ostream o(&d); old.s->Save(o); }
				world::ReadPlan rp; world::DiskReader d(f, rp); std::istream in(&d); tgt.s->Load(in);
				tgt.asts = old.asts; tgt.o = old.o;
			}
		}
		wl::Probe probe = wl::Probe::Of(tgt, 2, 60);
		Log("target: %s", tgt.desc.c_str());
		for (size_t a = 0; a < attempts; ++a) {
			Advance(1 + Draw(500));
			std::string bytes = image; size_t cut = image.size(); bool viaMap = Draw(2) && MappableKind(tk);
			world::ReadPlan plan; bool exc = Draw(4) == 3; const char* how = "";
			if (what <= 2) {
				// biased to the interesting places: the header, the sizes, the last words
				size_t r = Draw(4);
				cut = r == 0 ? Draw(image.size()) : r == 1 ? Draw(image.size() < 96 ? image.size() : 96) : r == 2 ? image.size() - 1 - Draw(image.size() < 24 ? image.size() : 24) : Draw(image.size()) & ~size_t(7);
				how = "cut"; Count("fault.truncated");
				if (cut < 24) Count("reach.cut_in_header"); else if (cut < 96) Count("reach.cut_in_sizes"); else if (image.size() - cut < 24) Count("reach.cut_in_last_words"); else Count("reach.cut_in_body");
			} else if (what == 3) {
				// a read error of the device instead of its end
				viaMap = false; cut = Draw(image.size()); plan.errAt = cut; how = "device error"; Count("fault.device_error");
			} else if (what == 4) {
				size_t field = Draw(6); uint32_t v; memcpy(&v, &bytes[field * 4], 4);
				uint32_t nv = Draw(2) ? v ^ (1u << Draw(32)) : v + 1 + (uint32_t) Draw(20);
				if (field == 1 && (nv == 6 || nv == 7)) nv = 8;                       // the two versions the library knows
				if (field == 4 && Format(tk) == 5 && (nv == 4 || nv == 5)) nv = 77;  // the two types counting scanners may have
				memcpy(&bytes[field * 4], &nv, 4);
				how = "header damaged"; Count("fault.header_damaged");
			} else how = "foreign", Count("fault.foreign_image");
			size_t m = Draw(4);
			if (m == 1) plan.chunk = 1 + Draw(9); else if (m == 2) plan.buffered = true; else if (m == 3) plan.randomChunks = true;
			if (what <= 2) plan.eofAt = cut;
			Log("attempt: %s at %zu of %zu, %s, exceptions %d", how, cut, image.size(), viaMap ? "mapped" : "stream", exc);
			uint64_t live = HeapLiveLib();
			bool threw = false;
			if (viaMap) {
				// the bytes end at the guard page when the cut is aligned, else as close to it as alignment allows
				std::string part = bytes.substr(0, cut);
				size_t pad = (8 - part.size() % 8) % 8;
				const char* p = map.Put(part, pad, true);
				if (pad) { map.R().Writable(true); memset((char*) p + part.size(), Draw(2) ? 0xFF : 0, pad); }
				map.R().Writable(false);
				if (pad) __asan_poison_memory_region(p + part.size(), pad);   // the rest of the last word is out of bounds too
				try { tgt.s->Mmap(p, part.size()); } catch (const Pire::Error&) { threw = true; }
				if (pad) __asan_unpoison_memory_region(p + part.size(), pad);
				map.R().Readable(false);
			} else {
				world::DiskReader disk(bytes, plan); std::istream in(&disk);
				if (exc) in.exceptions(std::ios::failbit | std::ios::badbit | std::ios::eofbit);
				try { tgt.s->Load(in); } catch (const Pire::Error&) { threw = true; } catch (const std::ios::failure&) { threw = exc; } catch (const world::DiskError&) { threw = exc; }
				map.R().Readable(false);
			}
			Count(viaMap ? "op.mmap" : "op.load");
			SIM_CHECK(threw, "bad-image-accepted", "%s accepted an image of %s (%s at %zu of %zu bytes, %s)", sc::Names[tk], sc::Names[src.s->kind], how, cut, image.size(), viaMap ? "mapped" : "stream");
			SIM_CHECK(HeapLiveLib() == live, "leak", "%s: %ld blocks leaked by a refused image", sc::Names[tk], (long) (HeapLiveLib() - live));
			probe.Check(*tgt.s, "target-changed", "target after a refused image");
			Cover(Mix(Mix(HashStr(how), tk * 16 + src.s->kind), cut * 2 + viaMap));
		}
		// afterwards the target still takes a good image
		if (!foreign && !(Format(tk) == 5 && src.s->Empty())) {
			wl::Probe good = wl::Probe::Of(src, 2, 60);
			world::ReadPlan plan; world::DiskReader disk(image, plan); std::istream in(&disk);
			tgt.s->Load(in); Count("reach.recovered");
			good.Check(*tgt.s, "loaded-differs", "scanner loaded after refusals");
			if (MappableKind(tk)) {
				const char* p = map.Put(image, (8 - image.size() % 8) % 8, true); map.R().Writable(false);
				tgt.s->Mmap(p, image.size());
				good.Check(*tgt.s, "loaded-differs", "scanner mapped after refusals");
			}
		}
		tgt.s.reset();
		map.R().Readable(true);
	}
}

Property p08("P08", Run08, wl::WarmLibrary);

}

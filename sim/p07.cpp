// P07: a scanner mapped from memory behaves as the one it was saved from, wherever the image lies,
// reads nothing outside it, never writes to it, and says truly where it ends.
#include "build.h"
#include "oldfmt.h"
using namespace sim;

namespace {

struct Img { size_t made; std::string bytes; };

static std::string Image(const wl::Made& m) {
	std::string f; world::WritePlan p; world::DiskWriter d(f, p); std::ostream o(&d);
	m.s->Save(o);
	SIM_CHECK(o.good(), "save-broke-stream", "Save to a healthy stream failed");
	return f;
}
static bool MappableKind(sc::KindId k) { return k != sc::KNonreloc && k != sc::KNonrelocNoMask && k != sc::KHalfNonreloc && k != sc::KHalfNonrelocNoMask; }
static bool RecordsEmptiness(sc::KindId k) { return !sc::IsCounting(k) && k != sc::KCapturing; }

world::Mapping* g_map;

void Run07() {
	static world::Mapping map(0x320000000000ull, 1500);
	HeapSetGarbage((unsigned char) Draw(256));
	std::vector<wl::Made> made; std::vector<wl::Probe> probes;
	size_t n = 1 + Draw(3);
	for (size_t i = 0; i < n; ++i) {
		sc::KindId k; do k = (sc::KindId) Draw(sc::KKinds); while (!MappableKind(k));
		made.push_back(wl::Make(k, RecordsEmptiness(k), 500));
		probes.push_back(wl::Probe::Of(made.back()));
		Log("scanner %zu: %s, %zu states", i, made[i].desc.c_str(), made[i].s->Size());
	}
	// the image file: several scanners one after another, each at the next multiple of the word size
	std::string file; std::vector<size_t> at, end, which, size; // size: what the scanner takes in the current format
	size_t recs = 1 + Draw(3);
	for (size_t r = 0; r < recs; ++r) {
		size_t k = Draw(n);
		while (file.size() % 8) file += '\xEE';
		std::string img = Image(made[k]); size.push_back(img.size());
		if (Draw(6) == 5) { img = oldfmt::Previous(img); Count("reach.previous_format"); Log("record %zu is in the previous format", r); }
		at.push_back(file.size()); file += img; end.push_back(file.size()); which.push_back(k);
	}
	bool atEnd = Draw(2); size_t shift = 8 * Draw(9);
	size_t tail = file.size() % 8 ? 8 - file.size() % 8 : 0;
	if (atEnd) shift = Draw(3) ? tail : tail + 8 * Draw(5); 
	if (Draw(4) == 3) { // the pages around hold other bytes
		map.R().Writable(true); world::Garbage(map.R().Base(), 4096, Draw(100)); world::Garbage(map.R().End() - 4096, 4096, 7);
	}
	const char* base = map.Put(file, shift, atEnd);
	map.R().Writable(false);
	if (Draw(4) == 3 && !atEnd) { }
	Log("%zu images, %zu bytes mapped read-only at %%4096 = %zu (%s)", recs, file.size(), (size_t) base & 4095, atEnd ? "up to the end guard" : "from the start");
	SIM_CHECK(((size_t) base & 7) == 0, "harness", "misplaced image");
	uint64_t live0 = HeapLiveLib(); (void) live0;
	std::vector<sc::ScannerP> mapped(recs); uint64_t h = 0;
	// mapping from record to record by the returned pointers
	const char* p = base;
	for (size_t r = 0; r < recs; ++r) {
		Advance(1 + Draw(2000));
		const wl::Made& src = made[which[r]];
		sc::KindId to = src.s->kind;
		if (to == sc::KAdvanced && Draw(3) == 2) { to = sc::KNoGlue; Count("reach.cross_kind"); }
		size_t pre = Draw(4);
		if (pre == 3) { wl::Made old = wl::Make(to, false, 300); mapped[r] = std::move(old.s); }
		else if (pre == 2 && to == src.s->kind) mapped[r] = src.s->CopyOf();
		else mapped[r] = sc::Default(to);
		size_t avail = Draw(2) ? end[r] - at[r] : base + file.size() - p;
		Log("mapping record %zu (%s as %s) with %zu bytes available, target %zu", r, sc::Names[src.s->kind], sc::Names[to], avail, pre);
		const char* q = (const char*) mapped[r]->Mmap(p, avail); Count("op.mmap");
		SIM_CHECK(q == base + end[r], "wrong-return", "%s: Mmap returned a pointer %ld bytes into an image of %zu bytes", sc::Names[to], (long) (q - p), end[r] - at[r]);
		probes[which[r]].Check(*mapped[r], "mapped-differs", "mapped scanner");
		h = Mix(h, probes[which[r]].Hash()); Cover(Mix(h, (size_t) base & 63));
		if (src.s->RegexpsCount() > 1) Count("reach.glued_mapped");
		if (src.s->Empty()) Count("reach.empty_mapped");
		for (auto& o : probes[which[r]].obs) if (o[0]) { Count("reach.accepting"); break; }
		p = q + (8 - ((size_t) q & 7)) % 8;
	}
	// a history on mapped scanners
	size_t ops = Draw(8);
	for (size_t i = 0; i < ops; ++i) {
		Advance(1 + Draw(2000));
		size_t r = Draw(recs);
		if (!mapped[r]) continue;
		size_t op = Draw(8);
		if (op == 0) { sc::ScannerP c = mapped[r]->CopyOf(); mapped[r] = std::move(c); Log("record %zu: replaced by its copy", r); }
		else if (op == 1) { sc::ScannerP c = mapped[r]->MoveOf(); mapped[r] = std::move(c); Log("record %zu: moved", r); }
		else if (op == 2) { sc::ScannerP c = mapped[r]->Fresh(); c->AssignFrom(*mapped[r]); mapped[r] = std::move(c); Log("record %zu: assigned", r); }
		else if (op == 7) {
			// swapped with, or given to, an object that is in use
			wl::Made other = wl::Make(mapped[r]->kind, true, 300); wl::Probe op2 = wl::Probe::Of(other, 2, 50);
			size_t how = Draw(4);
			Log("record %zu: %s %s", r, how == 0 ? "swapped with" : how == 1 ? "swapped into" : how == 2 ? "assigned to" : "moved to", other.desc.c_str());
			if (how == 0) mapped[r]->SwapWith(*other.s);
			else if (how == 1) other.s->SwapWith(*mapped[r]);
			else if (how == 2) other.s->AssignFrom(*mapped[r]);
			else other.s->MoveFrom(*mapped[r]);
			if (how < 2) op2.Check(*mapped[r], "mapped-differs", "the partner of a mapped scanner after a swap");
			else if (how == 2) probes[which[r]].Check(*mapped[r], "mapped-differs", "a mapped scanner after it was assigned to another");
			probes[which[r]].Check(*other.s, "mapped-differs", "a scanner that took over a mapped one");
			mapped[r] = std::move(other.s); Count("reach.swapped_with_used");
		}
		else if (op == 3) { sc::ScannerP c = mapped[r]->Fresh(); c->SwapWith(*mapped[r]); mapped[r] = std::move(c); Log("record %zu: swapped", r); }
		else if (op == 4) {
			// saved again from the mapping
			if (mapped[r]->kind == sc::KNoGlue && made[which[r]].s->kind == sc::KAdvanced) continue;
			std::string f; world::WritePlan wp; world::DiskWriter d(f, wp); std::ostream o(&d);
			mapped[r]->Save(o);
			SIM_CHECK(o.good(), "save-broke-stream", "saving a mapped scanner failed");
			SIM_CHECK(f.size() == size[r], "mapped-differs", "a mapped scanner saves as %zu bytes, the original as %zu", f.size(), size[r]);
			sc::ScannerP t = mapped[r]->Fresh(); world::ReadPlan rp; world::DiskReader dr(f, rp); std::istream in(&dr); t->Load(in);
			probes[which[r]].Check(*t, "mapped-differs", "scanner saved from a mapping and loaded");
			Log("record %zu: saved and loaded", r); Count("reach.saved_from_mapping");
		}
		else if (op == 5 && mapped[r]->Gluable()) {
			wl::Made other = wl::Make(mapped[r]->kind, false, 200);
			if (made[which[r]].s->kind != mapped[r]->kind) continue;
			if (other.s->Size() * mapped[r]->Size() > 3000) continue;
			sc::ScannerP a = mapped[r]->GlueWith(*other.s, 0), b = made[which[r]].s->GlueWith(*other.s, 0);
			Log("record %zu: glued", r); Count("reach.glued_with_mapping");
			std::vector<sc::Obs> x, y; std::string t = made[which[r]].Text(60) + other.Text(40);
			sc::Watch(*a, t, made[which[r]].marks, x); sc::Watch(*b, t, made[which[r]].marks, y);
			SIM_CHECK(x == y, "mapped-differs", "gluing with a mapped scanner differs from gluing with the original");
		}
		else if (op == 6) {
			// the same object takes a stream image afterwards
			std::string f = file.substr(at[r], end[r] - at[r]);
			world::ReadPlan rp; world::DiskReader dr(f, rp); std::istream in(&dr); mapped[r]->Load(in);
			Log("record %zu: loaded over the mapping", r); Count("reach.loaded_over_mapping");
		}
		probes[which[r]].Check(*mapped[r], "mapped-differs", "after the operation");
	}
	SIM_CHECK(!memcmp(base, file.data(), file.size()), "image-changed", "the mapped bytes changed");
	// a misaligned address is refused and changes nothing
	if (Draw(2)) {
		size_t r = Draw(recs), off = 1 + Draw(7);
		map.R().Writable(true);
		char* q = map.R().Base() + 8 * Draw(8) + off;
		std::string f = file.substr(at[r], end[r] - at[r]);
		if (mapped[r]->kind == made[which[r]].s->kind) {
			sc::ScannerP own = made[which[r]].s->CopyOf();
			memcpy(q, f.data(), f.size());
			map.R().Writable(false);
			bool threw = false;
			try { own->Mmap(q, f.size()); } catch (const Pire::Error&) { threw = true; }
			Log("mapping at an address off by %zu: %s", off, threw ? "refused" : "accepted"); Count("fault.misaligned");
			SIM_CHECK(threw, "misaligned-accepted", "%s accepted an image at an address off by %zu bytes", sc::Names[own->kind], off);
			probes[which[r]].Check(*own, "target-changed", "scanner after a refused mapping");
		}
	}
	// the pages go away: destroying the scanners must not touch them
	map.R().Readable(false);
	mapped.clear();
	for (size_t i = 0; i < n; ++i) probes[i].Check(*made[i].s, "original-changed", "the original afterwards");
	map.R().Readable(true);
}

Property p07("P07", Run07, wl::WarmLibrary);

}

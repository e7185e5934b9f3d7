// P06: a scanner written to a stream and read back is the same scanner, whatever scanner it is,
// however the stream moves its bytes, and whatever else is in the file.
#include "build.h"
#include "oldfmt.h"
using namespace sim;

namespace {

struct Record { size_t made; size_t at, end; size_t image; bool old; };

static bool Compatible(sc::KindId from, sc::KindId to) {
	if (from == to) return true;
	// the relocatable and the fixed form of one scanner share a file format
	if (from == sc::KScanner && to == sc::KNonreloc) return true;
	if (from == sc::KNonreloc && to == sc::KScanner) return true;
	if (from == sc::KNoMask && to == sc::KNonrelocNoMask) return true;
	if (from == sc::KNonrelocNoMask && to == sc::KNoMask) return true;
	if (from == sc::KHalf && to == sc::KHalfNonreloc) return true;
	if (from == sc::KHalfNonreloc && to == sc::KHalf) return true;
	if (from == sc::KHalfNoMask && to == sc::KHalfNonrelocNoMask) return true;
	if (from == sc::KHalfNonrelocNoMask && to == sc::KHalfNoMask) return true;
	if (from == sc::KAdvanced && to == sc::KNoGlue) return true;   // documented: old counting scanners load into the new kind
	return false;
}
// The files of counting and capturing scanners do not say whether the scanner was an empty one.
static bool RecordsEmptiness(sc::KindId k) { return !sc::IsCounting(k) && k != sc::KCapturing; }

void Run06() {
	HeapSetGarbage((unsigned char) Draw(256));
	std::vector<wl::Made> made; std::vector<wl::Probe> probes;
	size_t n = 1 + Draw(3);
	for (size_t i = 0; i < n; ++i) {
		sc::KindId k = (sc::KindId) Draw(sc::KKinds);
		made.push_back(wl::Make(k, RecordsEmptiness(k)));
		probes.push_back(wl::Probe::Of(made.back()));
		Log("scanner %zu: %s, %zu states", i, made[i].desc.c_str(), made[i].s->Size());
	}
	std::string file; std::vector<Record> recs;
	size_t writes = 1 + Draw(4);
	for (size_t w = 0; w < writes; ++w) {
		Advance(1 + Draw(5000));
		std::string junk; size_t j = Draw(3) ? Draw(12) : 0;   // the application's own bytes around the scanners
		for (size_t i = 0; i < j; ++i) junk += (char) Draw(256);
		file += junk;
		world::WritePlan plan; size_t r = Draw(3);
		if (r == 1) plan.maxPut = 1 + Draw(7); else if (r == 2) plan.maxPut = 16 + Draw(500);
		size_t k = Draw(n);
		Record rec; rec.made = k; rec.at = file.size();
		{
			world::DiskWriter disk(file, plan); std::ostream out(&disk);
			made[k].s->Save(out);
			SIM_CHECK(out.good(), "save-broke-stream", "the stream is not good after Save");
		}
		rec.image = file.size() - rec.at; rec.old = Draw(6) == 5;
		if (rec.old) {
			// the file was written by the previous release of the library
			std::string prev = oldfmt::Previous(file.substr(rec.at));
			file.resize(rec.at); file += prev; Count("reach.previous_format");
		}
		rec.end = file.size(); recs.push_back(rec);
		Log("saved scanner %zu at %zu..%zu%s", k, rec.at, rec.end, rec.old ? " in the previous format" : ""); Count("op.save");
		probes[k].Check(*made[k].s, "save-changed-scanner", "after Save");
		if (recs.size() > 1) for (auto& q : recs) if (&q != &recs.back() && q.made == k)
			SIM_CHECK(q.image == rec.image, "unstable-image", "one scanner saved twice takes %zu and %zu bytes", q.image, rec.image);
	}
	file.append(Draw(20), 'z');
	size_t reads = 1 + Draw(4); uint64_t h = 0;
	for (size_t r = 0; r < reads; ++r) {
		Advance(1 + Draw(5000));
		const Record& rec = Pick(recs); const wl::Made& src = made[rec.made]; sc::KindId from = src.s->kind, to = from;
		if (Draw(3) == 2) { sc::KindId t = (sc::KindId) Draw(sc::KKinds); if (Compatible(from, t)) to = t; }
		// the target may hold anything beforehand
		sc::ScannerP target; size_t pre = Draw(4);
		if (pre == 3) { wl::Made old = wl::Make(to, false); target = std::move(old.s); }
		else if (pre == 2 && to == from) target = src.s->CopyOf();
		else target = sc::Default(to);
		world::ReadPlan plan; size_t m = Draw(5);
		if (m == 1) plan.chunk = 1 + Draw(9); else if (m == 2) plan.buffered = true; else if (m == 3) plan.randomChunks = true; else if (m == 4) { plan.buffered = true; plan.chunk = 1 + Draw(5); }
		Log("loading %zu..%zu (%s as %s), plan %zu, target %zu", rec.at, rec.end, sc::Names[from], sc::Names[to], m, pre);
		world::DiskReader disk(file, plan, rec.at); std::istream in(&disk);
		if (Draw(3) == 2) in.exceptions(std::ios::failbit | std::ios::badbit | std::ios::eofbit);
		target->Load(in); Count("op.load");
		SIM_CHECK(in.good(), "load-broke-stream", "the stream is not good after Load");
		SIM_CHECK(disk.Pos() == rec.end, "wrong-consumption", "%s: Load read up to %zu, Save had written up to %zu", sc::Names[to], disk.Pos(), rec.end);
		probes[rec.made].Check(*target, "loaded-differs", "loaded scanner");
		// next generation
		if (Draw(2) && !(from == sc::KAdvanced && to == sc::KNoGlue)) {
			std::string again; world::WritePlan wp;
			{ world::DiskWriter d2(again, wp); std::ostream out(&d2); target->Save(out); SIM_CHECK(out.good(), "save-broke-stream", "second Save"); }
			SIM_CHECK(again.size() == rec.image, "unstable-image", "saving a loaded scanner takes %zu bytes, the original took %zu", again.size(), rec.image);
			sc::ScannerP t2 = sc::Default(to); world::ReadPlan rp;
			world::DiskReader d3(again, rp); std::istream in2(&d3); t2->Load(in2);
			probes[rec.made].Check(*t2, "loaded-differs", "scanner of the second generation");
			Count("reach.second_generation");
		}
		if (Draw(3) == 2) { sc::ScannerP c = target->CopyOf(); target.reset(); probes[rec.made].Check(*c, "loaded-differs", "copy of a loaded scanner"); Count("op.copy"); }
		h = Mix(h, probes[rec.made].Hash()); Cover(Mix(h, m * 8 + pre));
		if (src.s->RegexpsCount() > 1) Count("reach.glued_loaded");
		if (src.s->Empty()) Count("reach.empty_loaded");
		if (from != to) Count("reach.cross_kind");
		for (auto& o : probes[rec.made].obs) if (o[0]) { Count("reach.accepting"); break; }
	}
	for (size_t i = 0; i < n; ++i) probes[i].Check(*made[i].s, "original-changed", "the original afterwards");
}

Property p06("P06", Run06, wl::WarmLibrary);

}

// P09: a log of saved scanners survives crashes: after a crash at any byte, a restart recovers exactly
// the scanners whose images were wholly on disk, through streams and through mapping alike, and a Save
// that the disk refuses is visible to the caller and harms nothing.
#include "build.h"
#include <sanitizer/asan_interface.h>
using namespace sim;

namespace {

static bool MappableKind(sc::KindId k) { return k != sc::KNonreloc && k != sc::KNonrelocNoMask && k != sc::KHalfNonreloc && k != sc::KHalfNonrelocNoMask; }

struct Rec { size_t made, at, end; };      // the application's view of what it has written

struct Node {
	sc::KindId kind; std::string file;     // file: everything written, the page cache included
	size_t durable = 0;                    // bytes known to be on the platter
	std::vector<wl::Made> made; std::vector<wl::Probe> probes;
	std::vector<Rec> recs;                 // what has been appended, in order
	world::Mapping* map; bool align;

	static void Pad(std::string& f) { while (f.size() % 8) f += '\0'; }
	void New() {
		wl::Made m = wl::Make(kind, false, 200);
		probes.push_back(wl::Probe::Of(m, 2, 60)); made.push_back(std::move(m));
		Log("new scanner %zu: %s, %zu states", made.size() - 1, made.back().desc.c_str(), made.back().s->Size());
	}
	void Append(size_t k) {
		world::WritePlan plan; size_t r = Draw(4);
		if (r == 1) plan.maxPut = 1 + Draw(9); else if (r == 2) plan.maxPut = 16 + Draw(300);
		bool fail = Draw(4) == 3;
		size_t before = file.size();
		if (fail) { plan.failAt = Draw(3) ? Draw(900) : Draw(120); plan.throws = Draw(3) == 2; }
		bool exc = fail && Draw(3) == 2;
		world::DiskWriter d(file, plan); std::ostream out(&d);
		if (exc) out.exceptions(std::ios::badbit | std::ios::failbit);
		bool threw = false;
		try { made[k].s->Save(out); } catch (const std::ios::failure&) { threw = true; } catch (const world::DiskError&) { threw = true; } catch (const Pire::Error&) { threw = true; }
		Count("op.append");
		if (d.Failed()) {
			// with an exception mask on the stream the caller may be told by an exception, else by the stream's state
			SIM_CHECK(threw || !out.good(), "silent-write-failure", "%s: the disk refused bytes and Save reported nothing", sc::Names[kind]);
			file.resize(before);           // the application removes what a failed append left
			if (durable > before) durable = before;
			Log("append of scanner %zu failed after %zu bytes and was rolled back", k, plan.failAt);
			Count("reach.failed_append");
		} else {
			SIM_CHECK(!threw && out.good(), "save-broke-stream", "Save failed on a healthy disk");
			Rec rec; rec.made = k; rec.at = before; rec.end = file.size();
			recs.push_back(rec);
			Log("appended scanner %zu at %zu..%zu", k, rec.at, rec.end);
			if (align) Pad(file);
		}
		probes[k].Check(*made[k].s, "save-changed-scanner", "after Save");
	}
	void Crash() {
		// what was not synced survives up to an arbitrary byte
		size_t keep = durable + Draw(file.size() - durable + 1);
		if (Draw(3) == 2 && !recs.empty()) { // exactly around the end of a record
			size_t e = Pick(recs).end + Draw(3) - 1;
			if (e >= durable && e <= file.size()) keep = e;
		}
		Log("crash: %zu of %zu bytes survive", keep, file.size()); Count("fault.crash");
		if (keep < file.size()) Count("fault.lost_tail");
		file.resize(keep);
		Advance(100000);
		Recover();
		durable = file.size();
	}
	void Recover() {
		std::vector<Rec> want;
		for (auto& r : recs) if (r.end <= file.size()) want.push_back(r);
		// through a stream
		std::vector<size_t> got; size_t pos = 0, good = 0;
		for (;;) {
			if (pos >= file.size()) break;
			world::ReadPlan plan; size_t m = Draw(4);
			if (m == 1) plan.chunk = 1 + Draw(60); else if (m == 2) plan.buffered = true; else if (m == 3) plan.randomChunks = file.size() - pos < 3000;
			world::DiskReader d(file, plan, pos); std::istream in(&d);
			if (Draw(4) == 3) in.exceptions(std::ios::failbit | std::ios::badbit | std::ios::eofbit);
			sc::ScannerP s = sc::Default(kind);
			try { s->Load(in); } catch (const std::exception&) { Log("recovery: nothing more at %zu", pos); break; }
			size_t i = got.size();
			SIM_CHECK(i < want.size(), "phantom-record", "recovery found a record at %zu that was never wholly written", pos);
			SIM_CHECK(d.Pos() == want[i].end, "wrong-consumption", "record %zu ends at %zu, loading stopped at %zu", i, want[i].end, d.Pos());
			probes[want[i].made].Check(*s, "recovered-differs", "scanner recovered from the stream");
			got.push_back(want[i].made);
			pos = d.Pos(); good = pos;
			if (align) pos = (pos + 7) & ~size_t(7);
		}
		SIM_CHECK(got.size() == want.size(), "lost-record", "recovery found %zu records, %zu were wholly on disk", got.size(), want.size());
		// and through a mapping of the same bytes
		if (align && MappableKind(kind) && !file.empty()) {
			size_t pad = (8 - file.size() % 8) % 8;
			const char* base = map->Put(file, pad, true); map->R().Writable(false);
			const char* end = base + file.size();
			if (pad) __asan_poison_memory_region(end, pad);
			const char* p = base; size_t n = 0;
			std::vector<sc::ScannerP> all;
			while (p < end) {
				sc::ScannerP s = sc::Default(kind); const char* q;
				try { q = (const char*) s->Mmap(p, end - p); } catch (const Pire::Error&) { Log("recovery: nothing more mapped at %zu", (size_t) (p - base)); break; }
				SIM_CHECK(n < want.size(), "phantom-record", "mapping found a record at %zu that was never wholly written", (size_t) (p - base));
				SIM_CHECK(q == base + want[n].end, "wrong-consumption", "record %zu ends at %zu, mapping says %zu", n, want[n].end, (size_t) (q - base));
				all.push_back(std::move(s)); ++n;
				p = base + (((q - base) + 7) & ~size_t(7));
			}
			SIM_CHECK(n == want.size(), "lost-record", "mapping found %zu records, %zu were wholly on disk", n, want.size());
			for (size_t i = 0; i < n; ++i) probes[want[i].made].Check(*all[i], "recovered-differs", "scanner recovered by mapping");
			if (pad) __asan_unpoison_memory_region(end, pad);
			all.clear(); Count("reach.recovered_by_mapping");
		}
		if (got.size() < recs.size()) Count("reach.records_lost");
		if (good < file.size()) Count("reach.torn_tail");
		uint64_t h = file.size(); for (auto& r : want) h = Mix(h, probes[r.made].Hash());
		Cover(h);
		Log("recovered %zu records, %zu good bytes", got.size(), good);
		file.resize(good); if (align) Pad(file);
		recs = want;
		// the application now runs on what it recovered: the scanners of before the crash are gone
		if (!want.empty()) {
			std::vector<bool> kept(made.size());
			for (auto& r : want) {
				if (kept[r.made]) continue;
				world::ReadPlan plan; world::DiskReader d(file, plan, r.at); std::istream in(&d);
				sc::ScannerP s = sc::Default(kind); s->Load(in); made[r.made].s = std::move(s); kept[r.made] = true;
			}
		}
	}
};

void Run09() {
	static world::Mapping map(0x320000000000ull, 1500);
	HeapSetGarbage((unsigned char) Draw(256));
	Node n; n.map = &map; n.kind = (sc::KindId) Draw(sc::KKinds); n.align = Draw(3) != 2;
	n.New();
	size_t events = 6 + Draw(20);
	for (size_t e = 0; e < events; ++e) {
		Advance(1 + Draw(20000));
		size_t r = Draw(10);
		if (r < 5) { if (n.file.size() < 60000) n.Append(Draw(n.made.size())); }
		else if (r == 5) { if (n.made.size() < 4) n.New(); }
		else if (r == 6) { n.durable = n.file.size(); Log("sync: %zu bytes durable", n.durable); Count("op.sync"); }
		else if (r == 7) { Log("orderly restart"); Count("op.restart"); n.Recover(); n.durable = n.durable < n.file.size() ? n.durable : n.file.size(); }
		else n.Crash();
	}
	n.Recover();
	for (size_t i = 0; i < n.made.size(); ++i) n.probes[i].Check(*n.made[i].s, "original-changed", "the original afterwards");
}

Property p09("P09", Run09, wl::WarmLibrary);

}

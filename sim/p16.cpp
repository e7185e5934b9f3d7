// P16: scanners are values. A run keeps a pool of scanners of any kind, some of them serving connections,
// and puts it through a history of copies, assignments, moves, swaps, conversions, gluings, reloads and
// destructions, some of them with failing allocations and some of an object with itself. Every slot must
// go on answering as its model says, connections must not notice what happens to other objects, and
// nothing may be left behind.
#include "build.h"
#include <functional>
#include <list>
#include <sstream>
#include <string.h>
using namespace sim;

namespace {

struct Model { wl::Made made; wl::Probe probe; };       // `made.s` is given away
typedef std::shared_ptr<Model> ModelP;
struct Slot { sc::ScannerP s; ModelP m; bool husk = false; };   // husk: moved from, only good for being assigned to or destroyed
struct Conn { size_t slot; sc::StateP st; std::string text; size_t pos; std::vector<sc::Obs> want; };

ModelP Describe(wl::Made&& made, sc::ScannerP& out) {
	ModelP m = std::make_shared<Model>(); m->probe = wl::Probe::Of(made, 2, 50);
	out = std::move(made.s); m->made = std::move(made);
	return m;
}

void History(std::vector<Slot>& pool, std::list<std::vector<size_t>>& images) {
	std::vector<Conn> conns; world::Nic nic; uint64_t h = 0;
	auto check = [&](size_t i, const char* what) { if (!pool[i].husk) pool[i].m->probe.Check(*pool[i].s, "value-changed", what); };
	auto drop = [&](size_t i) { for (size_t c = 0; c < conns.size(); ) if (conns[c].slot == i) conns.erase(conns.begin() + c); else ++c; };
	size_t events = 6 + Draw(20);
	for (size_t ev = 0; ev < events; ++ev) {
		Advance(1 + Draw(1000));
		size_t i = Draw(pool.size()), j = Draw(pool.size()); Slot& x = pool[i];
		size_t op = Draw(16);
		// j: a slot of the same type
		if (pool[j].s->kind != x.s->kind || (pool[j].husk && j != i)) {
			std::vector<size_t> same; for (size_t k = 0; k < pool.size(); ++k) if (pool[k].s->kind == x.s->kind && !pool[k].husk) same.push_back(k);
			if (same.empty()) op = 0; else j = Pick(same);
		}
		Slot& y = pool[j]; bool self = i == j;
		if (x.husk && op != 3 && op != 4 && op != 5) op = 0;
		if ((op == 3 || op == 4) && y.husk) op = 0;
		// operations that allocate may fail; then nothing has happened
		bool faulty = (op == 1 || op == 3 || op == 7 || op == 8) && Draw(4) == 3, failed = false; uint64_t live = HeapLiveLib();
		auto attempt = [&](const std::function<void()>& f) {
			if (faulty) HeapFailArm(1 + Draw(4), Draw(2));
			try { f(); } catch (const std::bad_alloc&) { failed = true; }
			bool hit = faulty && HeapFailed(); HeapFailDisarm();
			if (hit) Count("fault.alloc_failed");
			SIM_CHECK(!failed || hit, "harness", "out of memory without a fault");
			if (failed) SIM_CHECK(HeapLiveLib() == live, "leak", "a failed operation left %ld blocks behind", (long) (HeapLiveLib() - live));
		};
		switch (op) {
		case 0: { // destroyed; another one takes its place
			drop(i); x.s.reset(); x.husk = false;
			wl::Made n = wl::Make(Draw(2) && !pool[j].husk && pool[j].s ? (int) pool[j].s->kind : -1, true, 300);
			Log("slot %zu destroyed, then %s", i, n.desc.c_str()); x.m = Describe(std::move(n), x.s); Count("op.destroyed"); break;
		}
		case 1: { // replaced by a copy of y; the original may go away first
			sc::ScannerP c; attempt([&]() { c = y.s->CopyOf(); });
			Log("copy of slot %zu %s", j, failed ? "failed" : "made"); if (failed) break;
			ModelP m = y.m; drop(i);
			if (Draw(3) == 2 && !self) {
				Log("  and slot %zu destroyed", j); drop(j); wl::Made e; e.o = m->made.o; e.desc = "(empty)"; e.s = y.s->Fresh(); y.s.reset(); y.m = Describe(std::move(e), y.s);
				m->probe.Check(*c, "value-changed", "a copy after its original was destroyed"); Count("reach.copy_outlives_original");
			}
			x.s = std::move(c); x.m = m; Count("op.copied"); break;
		}
		case 2: { if (x.husk) break; drop(i); sc::ScannerP c = x.s->MoveOf(); Log("slot %zu moved into a new object", i);
			if (Draw(2)) { x.s.reset(); x.s = std::move(c); }                  // the husk goes first
			else { x.m->probe.Check(*c, "value-changed", "a moved scanner beside the object it left"); if (Draw(2)) x.s->AssignFrom(*c); x.s = std::move(c); }
			Count("op.moved"); break; }
		case 3: { attempt([&]() { x.s->AssignFrom(*y.s); }); Log("slot %zu = slot %zu%s", i, j, failed ? " (failed)" : ""); if (failed) { if (x.husk) { op = 99; } break; }
			drop(i); if (!self) { x.m = y.m; x.husk = false; Count("op.assigned"); } else Count("reach.assigned_to_itself"); break; }
		case 4: { if (self) break; drop(i); drop(j); x.s->MoveFrom(*y.s); Log("slot %zu takes slot %zu", i, j); x.m = y.m; x.husk = false; y.husk = true; Count("op.move_assigned"); break; }
		case 5: { if (x.husk) { sc::ScannerP e = x.s->Fresh(); x.s->SwapWith(*e); Log("husk %zu swapped away", i); wl::Made d; d.desc = "(empty)"; d.s = std::move(x.s); x.m = Describe(std::move(d), x.s); x.husk = false; break; }
			drop(i); drop(j); x.s->SwapWith(*y.s); std::swap(x.m, y.m); std::swap(x.husk, y.husk); Log("slots %zu and %zu swapped", i, j); Count(self ? "reach.swapped_with_itself" : "op.swapped"); break; }
		case 6: { // a round through a file, back into the same object
			if (x.s->Empty() || sc::Names[x.s->kind] == nullptr) break;
			std::string f; { world::WritePlan wp; world::DiskWriter d(f, wp); std::ostream o(&d); x.s->Save(o); }
			drop(i); world::ReadPlan rp; world::DiskReader dr(f, rp); std::istream in(&dr); x.s->Load(in); Log("slot %zu saved and loaded over itself", i); Count("op.reloaded"); break;
		}
		case 7: { // converted to the other address mode and back
			sc::ScannerP c, d; static const sc::KindId pairs[][2] = { { sc::KScanner, sc::KNonreloc }, { sc::KNoMask, sc::KNonrelocNoMask }, { sc::KHalf, sc::KHalfNonreloc }, { sc::KHalfNoMask, sc::KHalfNonrelocNoMask } };
			sc::KindId to = sc::KKinds; for (auto& p : pairs) { if (p[0] == x.s->kind) to = p[1]; if (p[1] == x.s->kind) to = p[0]; }
			if (to == sc::KKinds) break;
			attempt([&]() { c = sc::Convert(to, *x.s); }); Log("slot %zu converted to %s%s", i, sc::Names[to], failed ? " (failed)" : ""); if (failed) break;
			x.m->probe.Check(*c, "value-changed", "a converted scanner"); Count("op.converted");
			if (Draw(2)) { drop(i); x.s = std::move(c); }
			break;
		}
		case 8: { // glued with another; the operands stay
			if (!x.s->Gluable() || x.s->Size() * y.s->Size() > 1500) break;
			sc::ScannerP g; attempt([&]() { g = x.s->GlueWith(*y.s, 0); });
			Log("slots %zu and %zu glued%s", i, j, failed ? " (failed)" : ""); if (failed || g->Empty() || g->Size() > 300) break;
			check(i, "the left operand of a gluing"); check(j, "the right operand of a gluing");
			size_t t = Draw(pool.size()); drop(t);
			wl::Made n; n.o = x.m->made.o; n.marks = x.m->made.marks; n.asts = x.m->made.asts; for (auto& a : y.m->made.asts) n.asts.push_back(a);
			n.desc = "glued"; n.s = std::move(g); pool[t].s.reset(); pool[t].husk = false; pool[t].m = Describe(std::move(n), pool[t].s); Log("  into slot %zu", t); Count("op.glued"); break;
		}
		case 9: case 10: { // a connection opens
			if (x.husk) break;
			Conn c; c.slot = i; c.text = x.m->made.Text(40); c.pos = 0;
			sc::StateP f = x.s->NewState(); c.want.push_back(x.s->Observe(*f)); for (char ch : c.text) { x.s->Step(*f, (unsigned char) ch); c.want.push_back(x.s->Observe(*f)); }
			c.st = x.s->NewState(); conns.push_back(std::move(c)); Log("connection to slot %zu", i); Count("op.connected"); break;
		}
		case 11: case 12: { // a round through an image in memory that outlives everything
			if (x.husk || x.s->Empty() || !x.s->Mappable()) break;
			std::ostringstream f; x.s->Save(f); std::string img = f.str();
			images.emplace_back((img.size() + sizeof(size_t) - 1) / sizeof(size_t)); memcpy(images.back().data(), img.data(), img.size());
			drop(i); x.s->Mmap(images.back().data(), img.size()); Log("slot %zu mapped from its own image", i); Count("op.mapped"); break;
		}
		default: break;
		}
		if (op == 99) { wl::Made d; d.desc = "(empty)"; d.s = x.s->Fresh(); x.m = Describe(std::move(d), x.s); x.husk = false; }
		if (failed) { check(i, "after a failed operation"); check(j, "operand of a failed operation"); Count("reach.failed"); }
		// some of the connections progress
		for (auto& c : conns) if (Draw(2)) {
			size_t n = wl::DrawChunk(c.text.size() - c.pos); const sc::AnyScanner& s = *pool[c.slot].s;
			std::string part = c.text.substr(c.pos, n); const char* b = nic.Place(part); s.Run(*c.st, b, b + n); c.pos += n;
			sc::Obs got = s.Observe(*c.st);
			SIM_CHECK(got == c.want[c.pos], "connection-disturbed", "%s: a connection at byte %zu observes %s, want %s", sc::Names[s.kind], c.pos, sc::ShowObs(got).c_str(), sc::ShowObs(c.want[c.pos]).c_str());
			if (c.pos) Count("reach.connection_progressed");
		}
		check(Draw(2) ? i : Draw(pool.size()), "a slot of the pool");
		h = Mix(h, op * 64 + i * 8 + j); if (!x.husk) h = Mix(h, x.m->probe.Hash()); Cover(h);
	}
	for (size_t i = 0; i < pool.size(); ++i) check(i, "a slot at the end");
}

void Run16() {
	HeapSetGarbage((unsigned char) Draw(256));
	uint64_t live = HeapLiveLib();
	{
		std::list<std::vector<size_t>> images; std::vector<Slot> pool(3 + Draw(3)); sc::KindId common = (sc::KindId) Draw(sc::KKinds);
		for (size_t i = 0; i < pool.size(); ++i) {
			wl::Made n = wl::Make(i < 2 || Draw(2) ? (int) common : -1, true, 300);
			Log("slot %zu: %s", i, n.desc.c_str()); pool[i].m = Describe(std::move(n), pool[i].s);
		}
		History(pool, images);
		while (!pool.empty()) { // destroyed in drawn order
			size_t i = Draw(pool.size()); std::swap(pool[i], pool.back()); pool.pop_back();
			if (!pool.empty()) { Slot& s = pool[Draw(pool.size())]; if (!s.husk) s.m->probe.Check(*s.s, "value-changed", "a slot while others are destroyed"); }
		}
	}
	SIM_CHECK(HeapLiveLib() == live, "leak", "%ld blocks are left after everything was destroyed", (long) (HeapLiveLib() - live));
	Count("reach.all_destroyed");
}

Property p16("P16", Run16, wl::WarmLibrary);

}

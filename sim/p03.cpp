// P03: the Regexp facade searches like the reference does, through every way to ask it, on the fast
// engine and on the fallback one, and survives failing allocations.
#include "common.h"
using namespace sim;

namespace {

struct Rx { std::unique_ptr<Pire::Regexp> re; re::P ast; re::Opts o; bool heavy; std::string shown; };

static std::unique_ptr<Pire::Regexp> Construct(const std::string& pat, const re::Opts& o, size_t how) {
	LibScope l;
	std::unique_ptr<Pire::Regexp> r;
	const char* c = pat.c_str(); bool nul = pat.find('\0') != std::string::npos;
	using namespace Pire;
	Pire::ystring y(pat.begin(), pat.end());
	if (o.glyphs || how >= 6) { // options put together at run time, in an order and through copies and assignments of their own
		static const Option<Feature::Ptr> G(&Features::GlueSimilarGlyphs);
		size_t v = (how + pat.size()) % 4;
		Options all;
		if (v == 0) { if (o.glyphs) all = all | G; if (o.icase) all = all | I; if (o.utf8) all = all | UTF8; if (o.andnot) all = all | ANDNOT; }
		else if (v == 1) { if (o.utf8) all.Add(Encodings::Utf8()); if (o.andnot) all.Add(Features::AndNotSupport()); if (o.icase) all.Add(Features::CaseInsensitive()); if (o.glyphs) all.Add(Features::GlueSimilarGlyphs()); }
		else if (v == 2) { Options more(o.utf8 ? Options() | UTF8 : Options() | LATIN1); if (o.icase) more.Add(Features::CaseInsensitive()); Options third(more); if (o.glyphs) third = third | G; all = third; if (o.andnot) all = all | ANDNOT; }
		else { if (o.andnot) all = all | ANDNOT; if (o.glyphs) all.Add(Features::GlueSimilarGlyphs()); if (o.icase) all = all | I; Options copy(all); if (o.utf8) copy.Add(Encodings::Utf8()); all = copy; }
		if (nul || how % 2) r.reset(new Regexp(y, all)); else r.reset(new Regexp(c, all));
		return r;
	}
	unsigned f = (o.icase ? 1 : 0) | (o.andnot ? 2 : 0) | (o.utf8 ? 4 : 0);
	if (nul || how % 2) {
		switch (f) {
		case 0: r.reset(how % 4 == 1 ? new Regexp(y) : new Regexp(y, LATIN1)); break;
		case 1: r.reset(new Regexp(y, I)); break;
		case 2: r.reset(new Regexp(y, ANDNOT)); break;
		case 3: r.reset(new Regexp(y, I | ANDNOT)); break;
		case 4: r.reset(new Regexp(y, UTF8)); break;
		case 5: r.reset(new Regexp(y, UTF8 | I)); break;
		case 6: r.reset(new Regexp(y, ANDNOT | UTF8)); break;
		default: r.reset(new Regexp(y, UTF8 | I | ANDNOT)); break;
		}
	} else {
		switch (f) {
		case 0: r.reset(how % 4 == 2 ? new Regexp(c) : new Regexp(c, LATIN1)); break;
		case 1: r.reset(new Regexp(c, LATIN1 | I)); break;
		case 2: r.reset(new Regexp(c, ANDNOT)); break;
		case 3: r.reset(new Regexp(c, ANDNOT | I)); break;
		case 4: r.reset(new Regexp(c, UTF8)); break;
		case 5: r.reset(new Regexp(c, I | UTF8)); break;
		case 6: r.reset(new Regexp(c, UTF8 | ANDNOT)); break;
		default: r.reset(new Regexp(c, I | ANDNOT | UTF8)); break;
		}
	}
	return r;
}

void Run03() {
	HeapSetGarbage((unsigned char) Draw(256));
	world::Nic nic;
	std::vector<Rx> pool;
	bool faults = Draw(3) == 2;
	bool allowHeavy = Draw(96) == 95;
	size_t events = 6 + Draw(24);
	for (size_t e = 0; e < events; ++e) {
		Advance(1 + Draw(1000));
		size_t r = Draw(10);
		if (pool.empty() || (r < 2 && pool.size() < 4)) {
			Rx x; x.o = wl::DrawOpts(); x.heavy = false;
			size_t how = Draw(8);
			if (allowHeavy) { // more determined states than the library is willing to make
				allowHeavy = false; x.heavy = true;
				x.o = re::Opts(); x.o.alphabet = 2;
				re::P ab = std::make_shared<re::Node>(re::Chars); re::AddCp(*ab, 'a', x.o); re::AddCp(*ab, 'b', x.o); ab->alone = "";
				re::P n = std::make_shared<re::Node>(re::Rep); n->lo = n->hi = 17 + (int) Draw(3); n->kids.push_back(ab);
				x.ast = re::Mk(re::Cat, { re::Literal("a"), n });
				if (Draw(3)) x.ast->kids.push_back(std::make_shared<re::Node>(re::End)); else x.ast->kids.push_back(re::Literal("c"));
				if (Draw(2)) { x.ast->kids.insert(x.ast->kids.begin(), re::Mk(re::Star, { ab })); if (Draw(2)) x.ast->kids.insert(x.ast->kids.begin(), std::make_shared<re::Node>(re::Begin)); }
				Count("reach.fallback_engine");
			} else x.ast = wl::DrawPattern(x.o, 14);
			x.shown = re::Render(x.ast, x.o);
			Log("regexp %zu: /%s/%s", pool.size(), re::Show(x.shown).c_str(), wl::OptStr(x.o).c_str());
			if (faults && !x.heavy && Draw(2)) {
				uint64_t nth = 1 + Draw(Draw(2) ? 2000 : 60);
				HeapFailArm(nth, Draw(2));
				bool failed = false; uint64_t live = HeapLiveLib();
				try { x.re = Construct(x.shown, x.o, how); } catch (const std::bad_alloc&) { failed = true; }
				bool injected = HeapFailed() > 0;
				HeapFailDisarm();
				SIM_CHECK(!failed || injected, "spurious-bad-alloc", "construction reported lack of memory that did not happen");
				SIM_CHECK(!failed || HeapLiveLib() == live, "leak", "a failed construction leaked %lld blocks", (long long) (HeapLiveLib() - live));
				if (failed) { Log("construction failed for lack of memory, tried again"); x.re = Construct(x.shown, x.o, how); }
			} else x.re = Construct(x.shown, x.o, how);
			pool.push_back(std::move(x));
			continue;
		}
		size_t k = Draw(pool.size());
		Rx& x = pool[k];
		if (r == 2) {
			LibScope l; std::unique_ptr<Pire::Regexp> c(new Pire::Regexp(*x.re)); if (Draw(2)) *c = *x.re; x.re = std::move(c);
			HarnessScope h; Log("regexp %zu replaced by its copy", k); Count("op.copy"); continue;
		}
		if (r == 3 && pool.size() > 1) { LibScope l; x.re.reset(); HarnessScope h; pool.erase(pool.begin() + k); Log("regexp %zu destroyed", k); continue; }
		if (r == 4 && !x.heavy && Draw(4) == 3) { // a facade over a scanner compiled by hand
			Pire::Fsm f = sc::Parse(x.shown, x.o, true);
			LibScope l;
			if (Draw(2)) { Pire::Fsm g(f); x.re.reset(new Pire::Regexp(g.Compile<Pire::Scanner>())); } else { Pire::Fsm g(f); x.re.reset(new Pire::Regexp(g.Compile<Pire::SlowScanner>())); }
			HarnessScope h; Log("regexp %zu rebuilt from a scanner", k); Count("op.from_scanner"); continue;
		}
		std::string text = re::GenText(x.ast, x.o, 30 + Draw(4) * 60);
		if (x.heavy) { text.clear(); size_t n = 15 + Draw(40); for (size_t i = 0; i < n; ++i) text += "ab"[Draw(2)]; if (Draw(2)) text += "c"; }
		if (x.heavy && text.size() > 120) text.resize(120);
		bool nul = text.find('\0') != std::string::npos;
		re::Ref ref = { x.ast, true, x.o.utf8 };
		re::Syms s = re::ToSyms(text, true, true);
		bool want = ref.Verdicts(s)[s.size()];
		const Pire::Regexp& q = *x.re;
		size_t how = Draw(6);
		const char* p = nic.Place(how == 0 || how == 2 || how == 3 ? text + '\0' : text);
		bool got = false, threw = false, injected = false;
		bool arm = faults && Draw(6) == 5;
		if (arm) HeapFailArm(1 + Draw(40), false);
		try {
			LibScope l;
			if (nul && (how == 0 || how == 2)) how = 1;
			switch (how) {
			case 0: got = q.Matches(p); break;
			case 1: got = q.Matches(p, p + text.size()); break;
			case 2: got = p ==~ q; break;
			case 3: { Pire::ystring y(text.begin(), text.end()); got = q.Matches(y); break; }
			case 4: { Pire::ystring y(text.begin(), text.end()); got = y ==~ q; break; }
			default: got = q.Matches(p, p + text.size()); break;
			}
		} catch (const std::bad_alloc&) { threw = true; }
		if (arm) { injected = HeapFailed() > 0; HeapFailDisarm(); }
		Log("regexp %zu on \"%s\" (form %zu): want %d", k, re::Show(text).c_str(), how, want);
		if (threw) { SIM_CHECK(injected, "spurious-bad-alloc", "matching reported lack of memory that did not happen"); continue; }
		SIM_CHECK(got == want, "wrong-verdict", "Regexp says %d, the reference says %d (form %zu)", got, want, how);
		Count(want ? "reach.match" : "reach.no_match"); if (x.heavy && want) Count("reach.fallback_match");
		Cover(Mix(HashStr(x.shown), HashStr(text)));
	}
}

Property p03("P03", Run03, wl::WarmLibrary);

}

// P15: threads may use const objects, and build their own ones, at the same time. A run draws scripts for
// two to four threads: parsing and compiling with all the features that keep tables, matching with shared
// scanners, copying, saving, loading, mapping, gluing and converting them, some of them published by a thread
// under a lock while others are at work. Every access of the library to memory is a scheduling point and is
// watched by a happens-before race detector; every result must be what the same script gives alone.
#include "common.h"
#include "threads.h"
#include <pire/easy.h>
#include <pire/extra/glyphs.h>
#include <sstream>
using namespace sim;

namespace {

struct Spec { sc::KindId kind; std::string pattern, sep; re::Opts o; bool surround, glyphs, canon; std::string desc; re::P ast; size_t distance; unsigned half; };

Spec DrawSpec(int kind = -1) {
	Spec s; s.kind = kind >= 0 ? (sc::KindId) kind : (sc::KindId) Draw(sc::KKinds);
	s.o = wl::DrawOpts(); s.o.depth = 1 + (int) Draw(2); s.o.maxRep = 2;
	if (s.kind >= sc::KCounting) { s.o.marks = false; s.o.andnot = false; }
	s.ast = wl::DrawPattern(s.o, 8);
	s.pattern = re::Render(s.ast, s.o);
	static const char* const classes[] = { "\\w", "\\d", "[^\\s]", "\\W", "[\\d\\n]" };
	if (Draw(3) == 2) { s.pattern = re::RenderAtom(s.ast, s.o) + classes[Draw(5)]; s.ast = nullptr; }
	s.glyphs = s.o.glyphs || (s.o.utf8 && Draw(3) == 2); if (s.glyphs) s.ast = nullptr;
	s.surround = Draw(2); s.canon = Draw(4) == 3;
	if (s.kind == sc::KCapturing || s.kind == sc::KSlowCapturing) { s.pattern = "(" + s.pattern + ")"; s.surround = true; }
	s.sep = Draw(2) ? ".*" : "b*";
	s.distance = 0; s.half = 0;
	if (s.kind < sc::KCounting && Draw(5) == 4) {
		s.distance = 1; s.surround = false;
		if (s.o.utf8 || !s.ast || re::Size(s.ast) > 4) { s.o.utf8 = s.glyphs = false; s.ast = re::GenChars(s.o); s.pattern = re::Render(s.ast, s.o); }
	} else if (sc::IsHalf(s.kind)) s.half = (unsigned) Draw(6);
	s.desc = std::string(sc::Names[s.kind]) + " /" + re::Show(s.pattern) + "/" + wl::OptStr(s.o) + (s.glyphs ? " glyphs" : "") + (s.distance ? " within one edit" : "") + (s.half ? " counter " + std::to_string(s.half) : "");
	return s;
}
Pire::Fsm ParseX(const std::string& p, const Spec& s, bool capture) {
	LibScope l;
	Pire::Lexer lex;
	const Pire::Encoding& enc = s.o.utf8 ? Pire::Encodings::Utf8() : Pire::Encodings::Latin1();
	if (s.o.utf8) { std::vector<Pire::wchar32> w; enc.FromLocal(p.data(), p.data() + p.size(), std::back_inserter(w)); lex.Assign(w.begin(), w.end()); }
	else lex.Assign(p.begin(), p.end());
	lex.SetEncoding(enc);
	if (s.o.andnot) lex.AddFeature(Pire::Features::AndNotSupport());
	if (s.o.icase) lex.AddFeature(Pire::Features::CaseInsensitive());
	if (s.glyphs) lex.AddFeature(Pire::Features::GlueSimilarGlyphs());
	if (capture) lex.AddFeature(Pire::Features::Capture(1));
	return lex.Parse();
}
sc::ScannerP BuildSpec(const Spec& s) {
	bool cap = s.kind == sc::KCapturing || s.kind == sc::KSlowCapturing;
	Pire::Fsm f = ParseX(s.pattern, s, cap);
	if (sc::IsCounting(s.kind)) { Spec plain = s; return sc::CompileCounting(s.kind, f, ParseX(s.sep, plain, false)); }
	if (s.surround) { LibScope l; f.Surround(); }
	if (s.canon && !cap) { LibScope l; f.Canonize(); }
	if (s.half) {
		LibScope l;
		Pire::HalfFinalFsm h(f);
		switch (s.half) {
		case 1: h.MakeScanner(); break;
		case 2: case 3: h.MakeGreedyCounter(s.half == 2); break;
		case 4: h.MakeNonGreedyCounter(false, false); break;
		default: h.MakeNonGreedyCounter(true, s.surround); break;
		}
		HarnessScope g; return sc::FromHalfFinal(s.kind, h);
	}
	return sc::CompileFsm(s.kind, f, s.distance);
}

struct World {
	std::vector<Spec> specs; std::vector<sc::ScannerP> shared; std::vector<std::string> images; std::vector<char> published;
	std::vector<Pire::Fsm> fsms; std::vector<std::unique_ptr<Pire::Regexp>> regexps; std::vector<std::string> texts;
	sched::Mutex lock;
	const sc::AnyScanner* Get(size_t i) { lock.Lock(); const sc::AnyScanner* s = published[i] ? shared[i].get() : nullptr; lock.Unlock(); return s; }
	void Publish(size_t i) {
		sc::ScannerP s = BuildSpec(specs[i]);
		lock.Lock(); if (!published[i]) { HarnessScope h; shared[i] = std::move(s); published[i] = 1; } lock.Unlock();
	}
};

struct Op { unsigned what; size_t i, j, t; Spec spec; std::string text; sc::KindId kind; };
struct Result { std::vector<sc::Obs> obs; bool skipped = false; std::string err; };

const char* const What[] = { "parse and match", "publish", "match", "search", "copy", "save and load", "map", "glue", "convert", "automata", "regexp", "new regexp", "empty scanner" };

// One step of a script; also run alone afterwards.
Result Do(World& w, const Op& op) {
	Result r;
	try {
	switch (op.what) {
	case 0: { sc::ScannerP s = BuildSpec(op.spec); sc::Watch(*s, op.text, true, r.obs); break; }
	case 1: w.Publish(op.i); break;
	case 2: { const sc::AnyScanner* s = w.Get(op.i); if (!s) { r.skipped = true; break; } sc::Watch(*s, op.text, true, r.obs); break; }
	case 3: {
		const sc::AnyScanner* s = w.Get(op.i); if (!s || !s->HasPrefixApi()) { r.skipped = true; break; }
		const char *b = op.text.data(), *e = b + op.text.size(), *p = s->Longest(b, e, true, true), *q = s->Shortest(b, e, false, true);
		r.obs.push_back({ p ? (uint64_t) (p - b) : 999, q ? (uint64_t) (q - b) : 999 }); break;
	}
	case 4: { const sc::AnyScanner* s = w.Get(op.i); if (!s) { r.skipped = true; break; } sc::ScannerP c = s->CopyOf(); sc::Watch(*c, op.text, true, r.obs); break; }
	case 5: {
		const sc::AnyScanner* s = w.Get(op.i); if (!s) { r.skipped = true; break; }
		std::stringstream f; s->Save(f); sc::ScannerP c = s->Fresh(); c->Load(f); sc::Watch(*c, op.text, true, r.obs); break;
	}
	case 6: { if (w.images[op.i].empty()) { r.skipped = true; break; } sc::ScannerP c = sc::Default(w.specs[op.i].kind); c->Mmap(w.images[op.i].data(), w.images[op.i].size()); sc::Watch(*c, op.text, true, r.obs); break; }
	case 7: {
		const sc::AnyScanner *s = w.Get(op.i), *t = w.Get(op.j);
		if (!s || !t || s->kind != t->kind || !s->Gluable() || s->Size() * t->Size() > 600) { r.skipped = true; break; }
		sc::ScannerP g = s->GlueWith(*t, 0); sc::Watch(*g, op.text, true, r.obs); break;
	}
	case 8: {
		const sc::AnyScanner* s = w.Get(op.i); if (!s) { r.skipped = true; break; }
		sc::ScannerP c = sc::Convert(op.kind, *s); if (!c) { r.skipped = true; break; } sc::Watch(*c, op.text, true, r.obs); break;
	}
	case 9: {
		if (w.fsms.empty()) { r.skipped = true; break; }
		const Pire::Fsm &x = w.fsms[op.i % w.fsms.size()], &y = w.fsms[op.j % w.fsms.size()];
		sc::ScannerP s; { LibScope l; Pire::Fsm f;
			switch (op.t) {
			case 0: f = x + y; break; case 1: f = x | y; break; case 2: f = x.Surrounded(); break; case 3: f = *x; break;
			case 4: f = x; f.Reverse(); break; case 5: f = x; f.MakePrefix(); break; case 6: f = x; f.Canonize(); break; case 7: f = x; f.RemoveDeadEnds(); break;
			case 8: f = x; f.Swap(*std::unique_ptr<Pire::Fsm>(new Pire::Fsm(y))); break; case 9: f = x; f.RemoveEpsilons(); break;
			case 10: if (x.Size() + y.Size() < 30) f = x & y; break; default: if (x.Size() < 30) f = ~x; break;
			}
			{ HarnessScope h; s = sc::CompileFsm(sc::KScanner, f); } }
		sc::Watch(*s, op.text, true, r.obs); break;
	}
	case 10: { if (w.regexps.empty()) { r.skipped = true; break; } LibScope l; bool m = w.regexps[op.i % w.regexps.size()]->Matches(op.text); HarnessScope h; r.obs.push_back({ m }); break; }
	case 11: { bool m; { LibScope l; std::unique_ptr<Pire::Regexp> re(op.t % 2 ? new Pire::Regexp(Pire::ystring(op.spec.pattern), Pire::I) : new Pire::Regexp(op.spec.pattern.c_str(), Pire::ANDNOT)); m = re->Matches(op.text); } r.obs.push_back({ m }); break; }
	case 12: { sc::ScannerP s = sc::Default(op.kind); r.obs.push_back({ s->Empty(), s->Size() }); sc::Watch(*s, op.text, true, r.obs); break; }
	}
	} catch (const Pire::Error& e) { r.obs.clear(); r.err = e.what(); }
	return r;
}

void Run15() {
	HeapSetGarbage((unsigned char) Draw(256));
	World w; size_t threads = 2 + Draw(3), nsh = 1 + Draw(3); bool cold = Draw(2); sc::KindId common = (sc::KindId) Draw(sc::KKinds);
	for (size_t i = 0; i < nsh; ++i) { w.specs.push_back(DrawSpec(Draw(3) ? (int) common : -1)); Log("shared %zu: %s", i, w.specs[i].desc.c_str()); }
	w.shared.resize(nsh); w.images.resize(nsh); w.published.resize(nsh);
	if (!cold) {
		for (size_t i = 0; i < nsh; ++i) if (Draw(4)) {
			try { w.shared[i] = BuildSpec(w.specs[i]); } catch (Pire::Error&) { Discard("refused pattern"); }
			w.published[i] = 1;
			if (w.shared[i]->Size() > 400) Discard("large scanner");
			sc::KindId k = w.specs[i].kind;
			if (w.shared[i]->Mappable() && k != sc::KNonreloc && k != sc::KNonrelocNoMask && k != sc::KHalfNonreloc && k != sc::KHalfNonrelocNoMask) { std::ostringstream f; w.shared[i]->Save(f); w.images[i] = f.str(); }
		}
		for (size_t i = Draw(3); i > 0; --i) { Spec s = DrawSpec(sc::KScanner); try { w.fsms.push_back(ParseX(s.pattern, s, false)); } catch (Pire::Error&) {} }
		if (Draw(3) == 2) { LibScope l; w.regexps.emplace_back(new Pire::Regexp(Draw(2) ? "a[bc]*d|x" : "(a|b)*a(a|b){3}c")); }
		Count("reach.warm_start");
	} else Count("reach.cold_start");
	std::vector<std::vector<Op>> scripts(threads); std::vector<std::vector<Result>> got(threads);
	for (size_t t = 0; t < threads; ++t) for (size_t k = 1 + Draw(4); k > 0; --k) {
		Op op; op.what = Draw(3) == 0 ? 0 : (unsigned) Draw(13); op.i = Draw(nsh); op.j = Draw(nsh); op.t = Draw(12); op.kind = (sc::KindId) Draw(sc::KKinds);
		if (op.what == 0 || op.what == 11) op.spec = DrawSpec();
		const Spec& s = op.what == 0 ? op.spec : w.specs[op.i];
		op.text = s.ast ? re::GenText(s.ast, s.o, 30) : std::string("ab1 \xD0\xB6 x").substr(Draw(6));
		if (op.what == 11) { op.spec.pattern = re::Render(op.spec.ast ? op.spec.ast : re::GenChars(op.spec.o = re::Opts()), op.spec.o); op.spec.o = re::Opts(); }
		Log("thread %zu: %s %zu %zu%s%s on \"%s\"", t, What[op.what], op.i, op.j, op.what == 0 || op.what == 11 ? " " : "", op.what == 0 || op.what == 11 ? op.spec.desc.c_str() : op.what == 12 || op.what == 8 ? sc::Names[op.kind] : "", re::Show(op.text).c_str());
		scripts[t].push_back(op); Count("op.scripted");
	}
	for (size_t t = 0; t < threads; ++t) got[t].resize(scripts[t].size());
	std::vector<std::function<void()>> bodies;
	for (size_t t = 0; t < threads; ++t)
		bodies.push_back([&, t]() { for (size_t k = 0; k < scripts[t].size(); ++k) { Result r = Do(w, scripts[t][k]); got[t][k] = std::move(r); } });
	sched::Plan p; static const unsigned iv[] = { 100, 3000, 100000, 3000000 }; p.interval = iv[Draw(4)]; p.preemptions = Draw(3) ? 20 + (unsigned) Draw(200) : (unsigned) Draw(4); p.hot = (unsigned) Draw(3) * 4;
	sched::Run(bodies, p);
	Advance(sched::Steps() / 1000 + 1);
	Log("%llu steps, %llu switches, digest %016llx", (unsigned long long) sched::Steps(), (unsigned long long) sched::Switches(), (unsigned long long) sched::Digest());
	Cover(sched::Digest()); if (sched::Switches() > threads) Count("reach.interleaved");
	// the same steps alone
	for (size_t t = 0; t < threads; ++t) for (size_t k = 0; k < scripts[t].size(); ++k) {
		const Result& g = got[t][k]; const Op& op = scripts[t][k];
		if (g.skipped) { Count("reach.not_published_yet"); continue; }
		Result r = Do(w, op);
		SIM_CHECK(g.err == r.err, "result-differs", "thread %zu, %s: error \"%s\"; alone: \"%s\"", t, What[op.what], g.err.c_str(), r.err.c_str());
		SIM_CHECK(g.obs == r.obs, "result-differs", "thread %zu, step %zu (%s) observed something else than alone", t, k, What[op.what]);
		if (op.what == 0 && op.spec.ast && !op.spec.distance && !op.spec.half && op.spec.kind <= sc::KSlow && g.err.empty()) {
			re::Ref ref = { op.spec.ast, op.spec.surround, op.spec.o.utf8 };
			re::Syms syms = re::ToSyms(op.text, true, true); bool want = ref.Verdicts(syms)[syms.size()];
			SIM_CHECK((g.obs.back()[0] != 0) == want, "wrong-verdict", "thread %zu: %s on \"%s\" says %llu", t, op.spec.desc.c_str(), re::Show(op.text).c_str(), (unsigned long long) g.obs.back()[0]);
			Count("reach.compared_with_reference");
		}
		if (op.what == 2) Count("reach.shared_used");
		Count((std::string("reach.did ") + What[op.what]).c_str());
	}
}

Property p15("P15", Run15);

}

// P10: running out of memory at any point, or being given an invalid pattern, raises an exception and
// harms nothing: no leak, no change to any other object, strong guarantees where the library replaces a
// scanner as a whole, and the same operation succeeds once memory is back.
#include "build.h"
#include "fsmx.h"
#include <functional>
using namespace sim;

namespace {

struct Op {
	std::string name;
	std::function<void()> prepare = [] {};         // builds fresh targets
	std::function<void()> act;                     // the call under fault injection
	std::function<uint64_t()> result;              // what came out of a successful call
	std::function<void()> failed = [] {};          // what must still be true after a failed one
	std::function<void()> drop;                    // destroys targets and results
};

struct World {
	std::vector<wl::Made> made; std::vector<wl::Probe> probes;
	struct F { Pire::Fsm f; uint64_t print; re::Opts o; re::P ast; std::string pat; };
	std::vector<std::unique_ptr<F>> fsms;
	std::vector<std::string> files;                // image of each scanner

	void CheckBystanders(const char* when) {
		for (size_t i = 0; i < made.size(); ++i) probes[i].Check(*made[i].s, "bystander-changed", when);
		for (auto& f : fsms) SIM_CHECK(fx::Fingerprint(f->f) == f->print, "bystander-changed", "%s: an automaton that was only read has changed", when);
	}
};

template<class T> struct Slot {                    // an object whose life is controlled by hand
	std::unique_ptr<T> p;
	void Drop() { LibScope l; p.reset(); }
};

static uint64_t HashProbe(const wl::Probe& base, const sc::AnyScanner& s) {
	wl::Probe q; q.texts = base.texts; q.marks = base.marks; q.Watch(s);
	return Mix(Mix(q.Hash(), q.states), Mix(q.regexps, q.empty));
}

static const char* const FsmOps[] = { "+=", "|=", "&=", "*=", "Iterate", "Complement", "Surround", "Reverse", "MakePrefix", "MakeSuffix",
	"PrependAnything", "AppendAnything", "RemoveEpsilons", "RemoveDeadEnds", "Canonize", "Append", "AppendDot", "AppendStrings", "AppendSpecial",
	"assign", "copy", "Determine", "Sparse", "Unsparse", "binary +", "binary |", "binary &", "Import", "approx" };
static const size_t FsmOpCount = sizeof(FsmOps) / sizeof(*FsmOps);

static void DoFsmOp(size_t op, std::unique_ptr<Pire::Fsm>& a, const Pire::Fsm& b, size_t k) {
	using Pire::Fsm;
	switch (op) {
	case 0: *a += b; break;
	case 1: *a |= b; break;
	case 2: *a &= b; break;
	case 3: *a *= k; break;
	case 4: a->Iterate(); break;
	case 5: a->Complement(); break;
	case 6: a->Surround(); break;
	case 7: a->Reverse(); break;
	case 8: a->MakePrefix(); break;
	case 9: a->MakeSuffix(); break;
	case 10: a->PrependAnything(); break;
	case 11: a->AppendAnything(); break;
	case 12: a->RemoveEpsilons(); break;
	case 13: a->RemoveDeadEnds(); break;
	case 14: a->Canonize(); break;
	case 15: a->Append("abcb"); break;
	case 16: a->AppendDot(); break;
	case 17: { Pire::TVector<Pire::ystring> v; v.push_back("ab"); v.push_back("b"); v.push_back("acd"); a->AppendStrings(v); break; }
	case 18: a->AppendSpecial(Pire::EndMark); break;
	case 19: *a = b; break;
	case 20: { Fsm c(*a); a->Swap(c); break; }
	case 21: a->RemoveEpsilons(); a->Determine(); break;
	case 22: a->RemoveEpsilons(); a->Sparse(); break;
	case 23: a->RemoveEpsilons(); a->Sparse(); a->Unsparse(); break;
	case 24: { Fsm c(*a + b); a->Swap(c); break; }
	case 25: { Fsm c(*a | b); a->Swap(c); break; }
	case 26: { Fsm c(*a & b); a->Swap(c); break; }
	case 27: a->Import(b); break;
	default: { Fsm c(Pire::CreateApproxFsm(*a, 1)); a->Swap(c); break; }
	}
}

static std::string BrokenPattern(const re::Opts& o) {
	std::string s; size_t r = Draw(3);
	if (r) { s = re::Render(wl::DrawPattern(o, 10), o); }
	if (r == 2 && s.size()) { // cut or damaged
		if (Draw(2)) s.resize(Draw(s.size()));
		else s.insert(Draw(s.size() + 1), std::string(1, "()[]{}|*+?\\^-,&~x0"[Draw(18)]));
	} else {
		size_t n = 1 + Draw(10);
		static const char* const bits[] = { "(", ")", "[", "]", "{", "}", "|", "*", "+", "?", "\\", "^", "$", "a", "b", "-", ",", "&", "~", "{2,1}", "{0}", "{3", "[z-a]", "[]", "[^]", "\\x", "\\x{FFFFFFF}", "\\777", "\\p", "(?", "{,3}", "a{2,3}", "\xff", "\xc3" };
		for (size_t i = 0; i < n; ++i) s.insert(Draw(s.size() + 1), bits[Draw(sizeof(bits) / sizeof(*bits))]);
	}
	return s;
}

static std::unique_ptr<Op> Make(World& w) {
	std::unique_ptr<Op> op(new Op);
	size_t kind = Draw(14);
	auto anyScanner = [&] { return Draw(w.made.size()); };
	switch (kind) {
	case 0: case 1: { // parsing
		auto o = std::make_shared<re::Opts>(wl::SmallOpts());
		bool surround = Draw(2), reverse = Draw(6) == 5;
		std::string pat = re::Render(wl::DrawPattern(*o, 12), *o);
		auto r = std::make_shared<Slot<Pire::Fsm>>();
		op->name = "parse /" + re::Show(pat) + "/" + wl::OptStr(*o);
		op->act = [=] { Pire::Fsm f(sc::Parse(pat, *o, surround, reverse)); r->p.reset(new Pire::Fsm(f)); };
		op->result = [=] { return fx::Fingerprint(*r->p); };
		op->drop = [=] { r->Drop(); };
		break;
	}
	case 2: { // compiling
		auto& f = *w.fsms[Draw(w.fsms.size())];
		sc::KindId k; do k = (sc::KindId) Draw(sc::KKinds); while (sc::IsCounting(k) || k == sc::KCapturing || k == sc::KSlowCapturing);
		size_t dist = Draw(12) == 11 && f.f.Size() < 12;
		wl::Made m; m.o = f.o; m.asts.push_back(f.ast);
		auto texts = std::make_shared<wl::Probe>(); texts->marks = true;
		for (int i = 0; i < 2; ++i) texts->texts.push_back(m.Text(60));
		auto r = std::make_shared<Slot<sc::AnyScanner>>(); const Pire::Fsm* src = &f.f;
		op->name = std::string("compile ") + sc::Names[k] + (dist ? " approximately" : "");
		op->act = [=] { r->p = sc::CompileFsm(k, *src, dist); };
		op->result = [=] { return HashProbe(*texts, *r->p); };
		op->drop = [=] { r->Drop(); };
		break;
	}
	case 3: { // counting scanners
		sc::KindId k = (sc::KindId) (sc::KCounting + Draw(3));
		auto o = std::make_shared<re::Opts>(wl::SmallOpts()); o->marks = o->andnot = false;
		re::P ast = wl::DrawPattern(*o, 6);
		std::string pat = re::Render(ast, *o), sep = Draw(2) ? ".*" : re::Render(re::Mk(re::Star, { re::GenChars(*o) }), *o);
		auto a = std::make_shared<Pire::Fsm>(sc::Parse(pat, *o, false)), b = std::make_shared<Pire::Fsm>(sc::Parse(sep, *o, false));
		wl::Made m; m.o = *o; m.asts.push_back(re::Mk(re::Plus, { ast }));
		auto texts = std::make_shared<wl::Probe>(); texts->marks = false;
		for (int i = 0; i < 2; ++i) texts->texts.push_back(m.Text(60));
		auto r = std::make_shared<Slot<sc::AnyScanner>>();
		op->name = std::string("count with ") + sc::Names[k] + " /" + re::Show(pat) + "/ sep /" + re::Show(sep) + "/";
		op->act = [=] { r->p = sc::CompileCounting(k, *a, *b); };
		op->result = [=] { return HashProbe(*texts, *r->p); };
		op->drop = [=] { r->Drop(); };
		break;
	}
	case 4: { // glue
		size_t i = anyScanner(), j = anyScanner();
		for (size_t t = 0; t < w.made.size() && w.made[j].s->kind != w.made[i].s->kind; ++t) j = t;
		if (!w.made[i].s->Gluable() || w.made[i].s->kind != w.made[j].s->kind || w.made[i].s->Size() * w.made[j].s->Size() > 4000) return nullptr;
		auto r = std::make_shared<Slot<sc::AnyScanner>>(); auto *a = w.made[i].s.get(), *b = w.made[j].s.get();
		const wl::Probe* texts = &w.probes[i];
		op->name = std::string("glue ") + sc::Names[a->kind];
		op->act = [=] { r->p = a->GlueWith(*b, 0); };
		op->result = [=] { return HashProbe(*texts, *r->p); };
		op->drop = [=] { r->Drop(); };
		break;
	}
	case 5: case 6: case 7: case 8: { // replacing a scanner as a whole: strong guarantee
		size_t i = anyScanner(); sc::AnyScanner* src = w.made[i].s.get(); sc::KindId k = src->kind;
		auto old = std::make_shared<wl::Made>(); auto before = std::make_shared<wl::Probe>();
		auto target = std::make_shared<Slot<sc::AnyScanner>>();
		size_t pre = Draw(3);
		if (pre == 0) old->s = sc::Default(k), old->o = w.made[i].o; else if (pre == 1) *old = wl::Make(k, false, 400); else { old->s = src->CopyOf(); old->o = w.made[i].o; old->asts = w.made[i].asts; }
		*before = wl::Probe::Of(*old, 2, 60);
		op->prepare = [=] { LibScope l; target->p = old->s->CopyOf(); };
		const wl::Probe* want = &w.probes[i];
		op->result = [=] { return HashProbe(*want, *target->p); };
		op->failed = [=] { before->Check(*target->p, "target-changed", "target of the failed operation"); };
		op->drop = [=] { target->Drop(); };
		if (kind == 5) { op->name = "copy over"; op->act = [=] { target->p->AssignFrom(*src); }; }
		else if (kind == 6) {
			op->name = "copy"; auto r = std::make_shared<Slot<sc::AnyScanner>>();
			op->act = [=] { r->p = src->CopyOf(); };
			op->result = [=] { return HashProbe(*want, *r->p); };
			op->drop = [=] { r->Drop(); target->Drop(); };
		} else if (kind == 7 || !src->Mappable()) {
			op->name = "load"; const std::string* file = &w.files[i];
			world::ReadPlan plan; if (Draw(2)) plan.chunk = 1 + Draw(16); plan.buffered = Draw(2);
			op->act = [=] { HarnessScope h; world::DiskReader d(*file, plan); std::istream in(&d); in.exceptions(std::ios::badbit); target->p->Load(in); };
		} else {
			op->name = "map"; const std::string* file = &w.files[i];
			static world::Mapping* map = new world::Mapping(0x310000000000ull);
			op->act = [=] { const char* p; { HarnessScope h; p = map->Put(*file, 0, false); } target->p->Mmap(p, file->size()); };
		}
		op->name += std::string(" ") + sc::Names[k];
		break;
	}
	case 9: { // saving allocates nothing or copes
		size_t i = anyScanner(); sc::AnyScanner* src = w.made[i].s.get(); auto out = std::make_shared<std::string>();
		op->name = std::string("save ") + sc::Names[src->kind];
		op->act = [=] { HarnessScope h; out->clear(); world::WritePlan p; world::DiskWriter d(*out, p); std::ostream o(&d); o.exceptions(std::ios::badbit); src->Save(o); };
		op->result = [=] { return HashStr(*out); };
		op->drop = [=] { out->clear(); };
		break;
	}
	case 10: { // scanning
		size_t i = anyScanner(); const wl::Made* m = &w.made[i]; const wl::Probe* want = &w.probes[i]; auto* s = m->s.get();
		auto st = std::make_shared<Slot<sc::AnyState>>(); std::string text = m->Text(80), head = m->Text(12);
		op->name = std::string("scan with ") + sc::Names[s->kind] + " \"" + re::Show(text) + "\"";
		op->prepare = [=] { st->p = s->NewState(); s->Run(*st->p, head.data(), head.data() + head.size()); };
		op->act = [=] { s->Run(*st->p, text.data(), text.data() + text.size()); };
		op->result = [=] { return sc::HashObs(s->Observe(*st->p), 1); };
		op->failed = [=] { // the state can be started afresh
			s->Init(*st->p); auto fresh = s->NewState();
			s->Run(*st->p, text.data(), text.data() + text.size()); s->Run(*fresh, text.data(), text.data() + text.size());
			SIM_CHECK(s->Observe(*st->p) == s->Observe(*fresh), "state-unusable", "a state initialised again after a failed run differs from a fresh one");
		};
		(void) want;
		op->drop = [=] { st->Drop(); };
		break;
	}
	case 11: { // automata
		auto &fa = *w.fsms[Draw(w.fsms.size())], &fb = *w.fsms[Draw(w.fsms.size())];
		size_t what = Draw(FsmOpCount), k = Draw(4);
		if (what == FsmOpCount - 1 && fa.f.Size() > 12) return nullptr;
		auto t = std::make_shared<Slot<Pire::Fsm>>(); const Pire::Fsm *a = &fa.f, *b = &fb.f; uint64_t bp = fb.print;
		op->name = std::string("automaton ") + FsmOps[what] + " /" + re::Show(fa.pat) + "/ /" + re::Show(fb.pat) + "/";
		op->prepare = [=] { LibScope l; t->p.reset(new Pire::Fsm(*a)); };
		op->act = [=] { LibScope l; DoFsmOp(what, t->p, *b, k); };
		op->result = [=] { return fx::Fingerprint(*t->p); };
		op->failed = [=] { LibScope l; *t->p = *b; HarnessScope h; SIM_CHECK(fx::Fingerprint(*t->p) == bp, "target-unusable", "an automaton that a failed operation left behind cannot be assigned a new value"); };
		op->drop = [=] { t->Drop(); };
		break;
	}
	case 12: { // converting between scanner kinds
		size_t i = anyScanner(); sc::AnyScanner* src = w.made[i].s.get(); sc::KindId to = (sc::KindId) Draw(sc::KHalfNonrelocNoMask + 1);
		if (to == src->kind) return nullptr;
		auto r = std::make_shared<Slot<sc::AnyScanner>>(); const wl::Probe* want = &w.probes[i];
		{ sc::ScannerP probe = sc::Convert(to, *src); if (!probe) return nullptr; }
		op->name = std::string("convert ") + sc::Names[src->kind] + " to " + sc::Names[to];
		op->act = [=] { r->p = sc::Convert(to, *src); };
		op->result = [=] { return HashProbe(*want, *r->p); };
		op->drop = [=] { r->Drop(); };
		break;
	}
	default: { // facade
		auto o = std::make_shared<re::Opts>(wl::SmallOpts()); o->utf8 = o->icase = o->andnot = o->glyphs = false;
		re::P ast = wl::DrawPattern(*o, 10); std::string pat = re::Render(ast, *o);
		if (pat.find('\0') != std::string::npos) return nullptr;
		auto r = std::make_shared<Slot<Pire::Regexp>>(); std::string text = re::GenText(ast, *o, 60); bool copy = Draw(3) == 2;
		op->name = "Regexp /" + re::Show(pat) + "/";
		op->act = [=] { LibScope l; std::unique_ptr<Pire::Regexp> q(new Pire::Regexp(pat.c_str())); if (copy) { r->p.reset(new Pire::Regexp(*q)); } else r->p = std::move(q); };
		op->result = [=] { LibScope l; return (uint64_t) r->p->Matches(text.data(), text.data() + text.size()); };
		op->drop = [=] { r->Drop(); };
	}
	}
	return op;
}

// 1: every character is well-formed, 0: some is broken for certain (a stray or missing continuation byte, an
// impossible first byte; a byte over 127 where the encoding is Latin-1), -1: a matter of taste (overlong forms, surrogates).
static int Decodable(const std::string& s, bool utf8, std::vector<uint32_t>& cps) {
	int r = 1;
	for (size_t i = 0; i < s.size();) {
		unsigned char c = s[i];
		if (!utf8 || c < 0x80) { if (c >= 0x80) return 0; cps.push_back(c); ++i; continue; }
		size_t len = c >= 0xC0 && c < 0xE0 ? 2 : c >= 0xE0 && c < 0xF0 ? 3 : c >= 0xF0 && c < 0xF8 ? 4 : 0;
		if (!len || i + len > s.size()) return 0;
		uint32_t v = c & (0x7F >> len);
		for (size_t k = 1; k < len; ++k) { unsigned char x = s[i + k]; if ((x & 0xC0) != 0x80) return 0; v = v << 6 | (x & 0x3F); }
		static const uint32_t least[] = { 0, 0, 0x80, 0x800, 0x10000 };
		if (v < least[len] || v > 0x10FFFF || (v >= 0xD800 && v < 0xE000)) r = -1;
		cps.push_back(v); i += len;
	}
	return r;
}
// Patterns reach the parser as characters: what their encoding does not define is refused as a whole.
static void Decoding() {
	bool utf8 = Draw(4) < 3; std::string s; size_t n = 1 + Draw(6);
	for (size_t i = 0; i < n; ++i) {
		static const uint32_t edge[] = { 'a', 0, 0x7F, 0x80, 0xFF, 0x430, 0x7FF, 0x800, 0x20AC, 0xD7FF, 0xE000, 0xFFFD, 0xFFFF, 0x10000, 0x1F600, 0x10FFFF };
		uint32_t c = Draw(2) ? edge[Draw(16)] : Draw(3) ? (uint32_t) Draw(0x800) : (uint32_t) Draw(0xD800);
		if (!utf8) c &= 0x7F;
		s += re::Utf8(c);
	}
	size_t damage = Draw(3);
	for (size_t i = 0; i < damage; ++i) {
		size_t at = Draw(s.size());
		switch (Draw(4)) { case 0: s[at] = (char) Draw(256); break; case 1: s.resize(at + 1); break; case 2: s.erase(at, 1); if (s.empty()) s = "x"; break; default: s.insert(at, 1, (char) (0x80 + Draw(128))); }
	}
	std::vector<uint32_t> want; int ok = Decodable(s, utf8, want);
	const Pire::Encoding& enc = utf8 ? Pire::Encodings::Utf8() : Pire::Encodings::Latin1();
	Log("decoding \"%s\" as %s: %s", re::Show(s).c_str(), utf8 ? "UTF-8" : "Latin-1", ok > 0 ? "well-formed" : ok ? "odd" : "broken");
	uint64_t live = HeapLiveLib(); bool threw = false; std::vector<uint32_t> got; std::string back;
	// what follows the end of the text is not part of it: the text is at the very end of its allocation
	std::unique_ptr<char[]> exact(new char[s.size()]); memcpy(exact.get(), s.data(), s.size());
	{
		LibScope l;
		Pire::TVector<Pire::wchar32> cps;
		try { enc.FromLocal(exact.get(), exact.get() + s.size(), std::back_inserter(cps)); } catch (const Pire::Error&) { HarnessScope h; threw = true; }
		if (!threw) for (auto c : cps) { Pire::ystring b = enc.ToLocal(c); HarnessScope h; got.push_back(c); back.append(b.data(), b.size()); }
	}
	if (ok > 0) {
		SIM_CHECK(!threw, "text-refused", "well-formed text is refused by its encoding");
		SIM_CHECK(got == want, "wrong-characters", "the text was read as %zu characters, the first wrong one is number %zu", got.size(), (size_t) (std::mismatch(got.begin(), got.begin() + std::min(got.size(), want.size()), want.begin()).first - got.begin()));
		SIM_CHECK(back == s, "wrong-characters", "the characters of the text are spelled \"%s\"", re::Show(back).c_str());
		Count("reach.decoded");
	} else if (!ok) { SIM_CHECK(threw, "broken-text-accepted", "text that is broken in its encoding was accepted as %zu characters", got.size()); Count("fault.broken_text"); }
	SIM_CHECK(HeapLiveLib() == live, "leak", "%lld blocks leaked by decoding", (long long) (HeapLiveLib() - live));
}

static void InvalidPattern(const re::Opts& o) {
	if (Draw(5) == 4) { Decoding(); return; }
	std::string pat = BrokenPattern(o);
	Log("parsing /%s/%s", re::Show(pat).c_str(), wl::OptStr(o).c_str());
	uint64_t live = HeapLiveLib(); bool threw = false, second = false; std::string what;
	{
		LibScope l;
		std::unique_ptr<Pire::Lexer> lex(new Pire::Lexer(pat.begin(), pat.end()));
		if (o.utf8) {
			Pire::TVector<Pire::wchar32> cps; 
			try { Pire::Encodings::Utf8().FromLocal(pat.data(), pat.data() + pat.size(), std::back_inserter(cps)); } catch (const Pire::Error&) { HarnessScope h; Count("reach.invalid_utf8"); return; }
			lex->Assign(cps.begin(), cps.end()); lex->SetEncoding(Pire::Encodings::Utf8());
		}
		if (o.andnot) lex->AddFeature(Pire::Features::AndNotSupport());
		if (o.icase) lex->AddFeature(Pire::Features::CaseInsensitive());
		if (o.glyphs) lex->AddFeature(Pire::Features::GlueSimilarGlyphs());
		try { Pire::Fsm f(lex->Parse()); } catch (const Pire::Error& e) { HarnessScope h; threw = true; what = e.what(); }
		if (threw) { // the same parser object still works
			std::string good = "a(b|c)*d"; lex->Assign(good.begin(), good.end());
			Pire::Fsm f;
			try { Pire::Fsm g(lex->Parse()); f.Swap(g); } catch (const Pire::Error& e) { HarnessScope h; second = true; what = e.what(); }
			if (!second) {
				Pire::Scanner s(f.Compile<Pire::Scanner>()); std::string y = "abcbd", n = "abcbc";
				bool my = Pire::Runner(s).Run(y.data(), y.data() + y.size()), mn = Pire::Runner(s).Run(n.data(), n.data() + n.size());
				HarnessScope h;
				SIM_CHECK(my && !mn, "parser-not-reusable", "a parser object used again after it refused /%s/ builds a wrong automaton", re::Show(pat).c_str());
			}
		}
	}
	Log("  %s", threw ? "refused" : "accepted");
	Count(threw ? "fault.invalid_pattern" : "reach.strange_pattern_accepted");
	SIM_CHECK(!second, "parser-not-reusable", "a parser object given a valid pattern after it refused /%s/ refuses it too: %s", re::Show(pat).c_str(), what.c_str());
	SIM_CHECK(HeapLiveLib() == live, "leak", "%lld blocks leaked by %s pattern /%s/", (long long) (HeapLiveLib() - live), threw ? "refusing the" : "parsing the", re::Show(pat).c_str());
}

void Run10() {
	HeapSetGarbage((unsigned char) Draw(256));
	World w;
	size_t n = 1 + Draw(3);
	for (size_t i = 0; i < n; ++i) {
		sc::KindId k = i && Draw(2) ? w.made[0].s->kind : (sc::KindId) Draw(sc::KKinds);
		w.made.push_back(wl::Make(k, true, 300));
		w.probes.push_back(wl::Probe::Of(w.made.back(), 2, 60));
		std::string f; { world::WritePlan p; world::DiskWriter d(f, p); std::ostream out(&d); w.made.back().s->Save(out); }
		w.files.push_back(f);
		Log("scanner %zu: %s, %zu states", i, w.made[i].desc.c_str(), w.made[i].s->Size());
	}
	size_t m = 1 + Draw(2);
	for (size_t i = 0; i < m; ++i) {
		std::unique_ptr<World::F> f(new World::F);
		f->o = wl::SmallOpts(); f->ast = wl::DrawPattern(f->o, 8); f->pat = re::Render(f->ast, f->o);
		f->f = sc::Parse(f->pat, f->o, Draw(2));
		if (f->f.Size() > 60) Discard("large automaton");
		f->print = fx::Fingerprint(f->f);
		w.fsms.push_back(std::move(f));
	}
	size_t events = 2 + Draw(6);
	for (size_t e = 0; e < events; ++e) {
		Advance(1 + Draw(1000));
		if (Draw(5) == 4) { InvalidPattern(wl::SmallOpts()); continue; }
		std::unique_ptr<Op> op = Make(w);
		if (!op) continue;
		// without faults: how many allocations, what result
		op->prepare();
		uint64_t a0 = HeapLibAllocs();
		op->act();
		uint64_t allocs = HeapLibAllocs() - a0, want = op->result();
		op->drop();
		uint64_t live = HeapLiveLib();
		Log("%s: %llu allocations", op->name.c_str(), (unsigned long long) allocs);
		if (allocs > 60000) { Count("reach.too_many_allocations"); continue; }
		if (!allocs) { Count("reach.no_allocation"); continue; }
		size_t tries = 1 + Draw(allocs < 40 ? 8 : 3);
		for (size_t t = 0; t < tries; ++t) {
			uint64_t nth = 1 + (Draw(4) == 3 ? allocs - 1 - Draw(allocs < 8 ? allocs : 8) : Draw(allocs)); bool persistent = Draw(2);
			op->prepare();
			HeapFailArm(nth, persistent);
			bool threw = false;
			try { op->act(); } catch (const std::bad_alloc&) { threw = true; }
			bool injected = HeapFailed() > 0;
			HeapFailDisarm();
			Log("  allocation %llu%s fails: %s", (unsigned long long) nth, persistent ? " and all later" : "", threw ? "bad_alloc" : "completed");
			SIM_CHECK(injected || !threw, "spurious-bad-alloc", "%s reported lack of memory that did not happen", op->name.c_str());
			if (threw) { op->failed(); Count("reach.op_failed"); Count(("op.failed_" + op->name.substr(0, op->name.find(' '))).c_str()); }
			else { SIM_CHECK(op->result() == want, "wrong-after-failure", "%s completed despite a failed allocation, with another result", op->name.c_str()); Count("reach.op_survived"); }
			op->drop();
			SIM_CHECK(HeapLiveLib() == live, "leak", "%lld blocks leaked when allocation %llu of %s fails", (long long) (HeapLiveLib() - live), (unsigned long long) nth, op->name.c_str());
			Cover(Mix(HashStr(op->name), nth));
		}
		op->prepare(); op->act();
		SIM_CHECK(op->result() == want, "wrong-after-failure", "%s gives another result after failures", op->name.c_str());
		op->drop();
		SIM_CHECK(HeapLiveLib() == live, "leak", "%lld blocks leaked by a successful %s", (long long) (HeapLiveLib() - live), op->name.c_str());
		if (Draw(2)) w.CheckBystanders("after an operation that ran out of memory");
	}
	w.CheckBystanders("at the end");
}

void Warm10() {
	wl::WarmLibrary();
}

Property p10("P10", Run10, Warm10);

}

// One build of the library behind node.h. Compiled once per build, with -DPire=... -Dsc=... and the
// instruction set that build is for.
#include "node.h"
#include "scanners.h"

#ifndef NODE_NAME
#define NODE_NAME Sse2
#endif
#ifndef NODE_ID
#define NODE_ID 0
#endif
#define NODE_STR2(x) #x
#define NODE_CAT2(a, b) a##b
#define NODE_CAT(a, b) NODE_CAT2(a, b)
#define NODE_STR(x) NODE_STR2(x)

namespace node {
namespace NODE_CAT(In, NODE_NAME) {

// Code for MMX leaves the floating point unit unusable; its callers have to clean up (_mm_empty).
struct Clean { ~Clean() {
#ifdef NODE_EMMS
	__asm__ volatile ("emms" ::: "memory");
#endif
} };

struct St: State { sc::StateP s; };
static sc::AnyState& Of(State& s) { return *static_cast<St&>(s).s; }

struct Sc: Scanner {
	sc::ScannerP s;
	explicit Sc(sc::ScannerP p): s(std::move(p)) { kind = s->kind; build = NODE_ID; }
	StateP Start() const override { Clean c; std::unique_ptr<St> r(new St); r->s = s->NewState(); return std::move(r); }
	void Step(State& st, unsigned ch) const override { Clean c; s->Step(Of(st), ch); }
	void Run(State& st, const char* b, const char* e) const override { Clean c; s->Run(Of(st), b, e); }
	Obs Observe(State& st) const override { Clean c; return s->Observe(Of(st)); }
	bool CanFind() const override { return s->HasPrefixApi(); }
	const char* Find(int how, const char* b, const char* e, bool x, bool y) const override {
		Clean c;
		switch (how) {
		case 0: return s->Longest(b, e, x, y);
		case 1: return s->Shortest(b, e, x, y);
		case 2: return s->LongestSuf(b, e, x, y);
		default: return s->ShortestSuf(b, e, x, y);
		}
	}
	bool Mappable() const override { return s->Mappable(); }
	bool Gluable() const override { return s->Gluable(); }
	size_t Size() const override { return s->Size(); }
	size_t RegexpsCount() const override { return s->RegexpsCount(); }
	bool Empty() const override { return s->Empty(); }
	void Save(std::ostream& o) const override { Clean c; s->Save(o); }
	void Load(std::istream& i) override { Clean c; s->Load(i); }
	const void* Mmap(const void* p, size_t n) override { Clean c; return s->Mmap(p, n); }
	ScannerP Copy() const override { Clean c; return ScannerP(new Sc(s->CopyOf())); }
	ScannerP Glue(const Scanner& o) const override { Clean c; return ScannerP(new Sc(s->GlueWith(*static_cast<const Sc&>(o).s, 0))); }
};

struct B: Build {
	B() { name = NODE_STR(NODE_NAME); word = sizeof(Pire::Impl::Word); }
	ScannerP Compile(const Spec& p) const override {
		Clean c; sc::KindId k = (sc::KindId) p.kind;
		if (sc::IsCounting(k)) return ScannerP(new Sc(sc::CompileCounting(k, sc::Parse(p.pattern, p.o, false), sc::Parse(p.sep, p.o, false))));
		return ScannerP(new Sc(sc::CompileFsm(k, sc::Parse(p.pattern, p.o, p.surround, false, p.capture))));
	}
	ScannerP Default(int k) const override { Clean c; return ScannerP(new Sc(sc::Default((sc::KindId) k))); }
	void Warm() const override {
		Clean c;
		for (int k = 0; k < sc::KKinds; ++k) { sc::ScannerP s = sc::Default((sc::KindId) k); (void) s->Empty(); }
		re::Opts o; o.utf8 = true; o.icase = true; o.andnot = true; o.glyphs = true;
		Pire::Fsm f = sc::Parse("\xD0\xB6[a-c]\\w\\d.", o, true);
		sc::CompileFsm(sc::KScanner, f); sc::CompileFsm(sc::KSlow, f);
		re::Opts o2; Pire::Fsm g = sc::Parse("a.\\W", o2, true); sc::CompileFsm(sc::KSimple, g);
	}
};

}
const Build& NODE_NAME() { static const NODE_CAT(In, NODE_NAME)::B b; return b; }
}

// Adapters from the library's scanner types to sim's AnyScanner. Compiled three times, once per
// group of kinds (-DGROUP=1..3), to keep the build short.
#include "scanners.h"
#include <iterator>

namespace sc {

template<class S> struct KindOf;
#define KIND(S, K) template<> struct KindOf<S> { static const KindId V = K; };
KIND(Pire::Scanner, KScanner)
KIND(Pire::ScannerNoMask, KNoMask)
KIND(Pire::NonrelocScanner, KNonreloc)
KIND(Pire::NonrelocScannerNoMask, KNonrelocNoMask)
KIND(Pire::SimpleScanner, KSimple)
KIND(Pire::SlowScanner, KSlow)
KIND(Pire::HalfFinalScanner, KHalf)
KIND(Pire::HalfFinalScannerNoMask, KHalfNoMask)
KIND(Pire::NonrelocHalfFinalScanner, KHalfNonreloc)
KIND(Pire::NonrelocHalfFinalScannerNoMask, KHalfNonrelocNoMask)
KIND(Pire::CountingScanner, KCounting)
KIND(Pire::AdvancedCountingScanner, KAdvanced)
KIND(Pire::NoGlueLimitCountingScanner, KNoGlue)
KIND(Pire::CapturingScanner, KCapturing)
KIND(Pire::SlowCapturingScanner, KSlowCapturing)

// ------------------------------------------------------------------ capabilities
template<KindId K> struct Group {
	static const bool multi = K <= KNonrelocNoMask, half = K >= KHalf && K <= KHalfNonrelocNoMask,
		counting = K >= KCounting && K <= KNoGlue, capturing = K == KCapturing, slowcap = K == KSlowCapturing,
		simple = K == KSimple, slow = K == KSlow;
};
template<bool> struct Tag {};

template<class S, KindId K = KindOf<S>::V> struct Ops {
	typedef Group<K> G;
	typedef typename S::State St;
	// observation
	static void Extra(const S& s, St& st, Obs& o) { Extra1(s, st, o, Tag<G::multi || G::half || G::simple || G::slow>()); }
	static void Extra1(const S& s, St& st, Obs& o, Tag<true>) { auto r = s.AcceptedRegexps(st); for (auto i = r.first; i != r.second; ++i) o.push_back(100 + *i); Results(s, st, o, Tag<G::half>()); }
	static void Extra1(const S& s, St& st, Obs& o, Tag<false>) { Extra2(s, st, o, Tag<G::counting>()); }
	static void Results(const S& s, St& st, Obs& o, Tag<true>) { for (size_t i = 0; i < s.RegexpsCount(); ++i) o.push_back(1000 + st.Result(i)); }
	static void Results(const S&, St&, Obs&, Tag<false>) {}
	static void Extra2(const S& s, St& st, Obs& o, Tag<true>) { for (size_t i = 0; i < s.RegexpsCount(); ++i) o.push_back(1000 + st.Result((int) i)); }
	static void Extra2(const S& s, St& st, Obs& o, Tag<false>) { Extra3(s, st, o, Tag<G::capturing>()); }
	static void Extra3(const S&, St& st, Obs& o, Tag<true>) { o.push_back(st.Captured()); if (st.Captured()) { o.push_back(10000 + st.Begin()); o.push_back(10000 + st.End()); } }
	static void Extra3(const S& s, St& st, Obs& o, Tag<false>) {
		Pire::SlowCapturingScanner::SingleState f;
		bool got = s.GetCapture(st, f);
		o.push_back(got);
		if (got) { o.push_back(10000 + f.GetBegin()); o.push_back(10000 + f.GetEnd()); }
	}
	static bool FinalOf(const S& s, const St& st) { return Final1(s, st, Tag<G::slowcap>()); }
	static bool Final1(const S& s, const St& st, Tag<false>) { return s.Final(st); }
	static bool Final1(const S& s, const St& st, Tag<true>) { Pire::SlowCapturingScanner::SingleState f; return s.GetCapture(st, f); }
	static bool DeadOf(const S& s, const St& st) { return Dead1(s, st, Tag<G::slowcap>()); }
	static bool Dead1(const S& s, const St& st, Tag<false>) { return s.Dead(st); }
	static bool Dead1(const S&, const St&, Tag<true>) { return false; }
	// prefixes
	typedef Tag<G::multi || G::half || G::simple || G::slow> Pref;
	static const char* Longest(const S& s, const char* b, const char* e, bool tb, bool te, Tag<true>) { return Pire::LongestPrefix(s, b, e, tb, te); }
	static const char* Shortest(const S& s, const char* b, const char* e, bool tb, bool te, Tag<true>) { return Pire::ShortestPrefix(s, b, e, tb, te); }
	static const char* LongestS(const S& s, const char* b, const char* e, bool te, bool tb, Tag<true>) { return Pire::LongestSuffix(s, b, e, te, tb); }
	static const char* ShortestS(const S& s, const char* b, const char* e, bool te, bool tb, Tag<true>) { return Pire::ShortestSuffix(s, b, e, te, tb); }
	static const char* Longest(const S&, const char*, const char*, bool, bool, Tag<false>) { return nullptr; }
	static const char* Shortest(const S&, const char*, const char*, bool, bool, Tag<false>) { return nullptr; }
	static const char* LongestS(const S&, const char*, const char*, bool, bool, Tag<false>) { return nullptr; }
	static const char* ShortestS(const S&, const char*, const char*, bool, bool, Tag<false>) { return nullptr; }
	// mmap: the nonrelocatable kinds do not support it
	typedef Tag<K != KNonreloc && K != KNonrelocNoMask && K != KHalfNonreloc && K != KHalfNonrelocNoMask> Map;
	static const void* Mmap(S& s, const void* p, size_t n, Tag<true>) { return s.Mmap(p, n); }
	static const void* Mmap(S&, const void*, size_t, Tag<false>) { return nullptr; }
	// glue
	typedef Tag<G::multi || G::half || G::counting> Gl;
};

template<class S> struct Box;
template<class S> std::unique_ptr<AnyScanner> BoxIt(S&& s);

template<class S>
struct StBox: AnyState {
	typedef typename S::State St;
	typename std::aligned_storage<sizeof(St), alignof(St)>::type raw;
	St& v() { return *(St*) &raw; }
	const St& v() const { return *(const St*) &raw; }
	StBox() { new (&raw) St; }
	StBox(const StBox& o) { new (&raw) St(o.v()); }
	~StBox() { v().~St(); }
	std::unique_ptr<AnyState> Clone() const override { return std::unique_ptr<AnyState>(new StBox(*this)); }
	void Assign(const AnyState& o) override { sim::LibScope l; v() = static_cast<const StBox&>(o).v(); }
	// only half-final states have the means to be saved (for the same scanner object: they hold its addresses)
	typedef Tag<Group<KindOf<S>::V>::half> Own;
	bool Save(std::ostream& f) const override { sim::LibScope l; return Save1(f, Own()); }
	bool Load(std::istream& f) override { sim::LibScope l; return Load1(f, Own()); }
	bool Save1(std::ostream& f, Tag<true>) const { v().Save(&f); return true; }
	bool Load1(std::istream& f, Tag<true>) { v().Load(&f); return true; }
	bool Save1(std::ostream&, Tag<false>) const { return false; }
	bool Load1(std::istream&, Tag<false>) { return false; }
};

template<class S, bool CanGlue> struct Gluer;
template<class S> struct Gluer<S, true> { static ScannerP Do(const S& a, const S& b, size_t m); };
template<class S> struct Gluer<S, false> { static ScannerP Do(const S&, const S&, size_t) { return nullptr; } };

template<class S>
struct Box: AnyScanner {
	typedef Ops<S> O;
	typedef StBox<S> B;
	S s;
	Box() { kind = KindOf<S>::V; }
	explicit Box(const S& o): s(o) { kind = KindOf<S>::V; }
	explicit Box(S&& o, int): s(std::move(o)) { kind = KindOf<S>::V; }
	static typename S::State& St(AnyState& a) { return static_cast<B&>(a).v(); }
	static const typename S::State& St(const AnyState& a) { return static_cast<const B&>(a).v(); }
	StateP NewState() const override { sim::LibScope l; B* b; { sim::HarnessScope h; b = new B; } StateP p(b); s.Initialize(b->v()); return p; }
	void Init(AnyState& a) const override {
		sim::LibScope l; s.Initialize(St(a));
	}
	void Step(AnyState& a, unsigned c) const override { sim::LibScope l; Pire::Step(s, St(a), (Pire::Char) c); }
	void Run(AnyState& a, const char* b, const char* e) const override { sim::LibScope l; Pire::Run(s, St(a), b, e); }
	bool Final(const AnyState& a) const override { sim::LibScope l; return O::FinalOf(s, St(a)); }
	bool Dead(const AnyState& a) const override { sim::LibScope l; return O::DeadOf(s, St(a)); }
	Obs Observe(AnyState& a) const override {
		Obs o;
		o.push_back(Final(a)); o.push_back(Dead(a));
		// a default-constructed scanner has no result slots to ask for
		O::Extra(s, St(a), o);
		return o;
	}
	const char* Longest(const char* b, const char* e, bool tb, bool te) const override { sim::LibScope l; return O::Longest(s, b, e, tb, te, typename O::Pref()); }
	const char* Shortest(const char* b, const char* e, bool tb, bool te) const override { sim::LibScope l; return O::Shortest(s, b, e, tb, te, typename O::Pref()); }
	const char* LongestSuf(const char* b, const char* e, bool te, bool tb) const override { sim::LibScope l; return O::LongestS(s, b, e, te, tb, typename O::Pref()); }
	const char* ShortestSuf(const char* b, const char* e, bool te, bool tb) const override { sim::LibScope l; return O::ShortestS(s, b, e, te, tb, typename O::Pref()); }
	template<bool V> static bool Val(Tag<V>) { return V; }
	bool HasPrefixApi() const override { return Val(typename O::Pref()); }
	bool Mappable() const override { return Val(typename O::Map()); }
	bool Savable() const override { return true; }
	void Save(std::ostream& f) const override { sim::LibScope l; s.Save(&f); }
	void Load(std::istream& f) override { sim::LibScope l; s.Load(&f); }
	const void* Mmap(const void* p, size_t n) override { sim::LibScope l; return O::Mmap(s, p, n, typename O::Map()); }
	bool Empty() const override { sim::LibScope l; return s.Empty(); }
	size_t RegexpsCount() const override { sim::LibScope l; return s.RegexpsCount(); }
	size_t Size() const override { sim::LibScope l; return s.Size(); }
	ScannerP CopyOf() const override { sim::LibScope l; S c(s); sim::HarnessScope h; return ScannerP(new Box(std::move(c), 0)); }
	ScannerP MoveOf() override { sim::LibScope l; S c(std::move(s)); sim::HarnessScope h; return ScannerP(new Box(std::move(c), 0)); }
	ScannerP Fresh() const override { return ScannerP(new Box()); }
	void AssignFrom(const AnyScanner& o) override { sim::LibScope l; Asg(s, static_cast<const Box&>(o).s, Tag<O::G::slowcap>()); }
	void MoveFrom(AnyScanner& o) override { sim::LibScope l; Mov(s, static_cast<Box&>(o).s, Tag<O::G::slowcap>()); }
	static void Asg(S& a, const S& b, Tag<false>) { a = b; }
	static void Asg(S& a, const S& b, Tag<true>) { S c(b); a.Swap(c); }   // this type has no assignment, only copy and Swap()
	static void Mov(S& a, S& b, Tag<false>) { a = std::move(b); }
	static void Mov(S& a, S& b, Tag<true>) { S c(b); a.Swap(c); }
	void SwapWith(AnyScanner& o) override { sim::LibScope l; s.Swap(static_cast<Box&>(o).s); }
	bool Gluable() const override { return Val(typename O::Gl()); }
	ScannerP GlueWith(const AnyScanner& r, size_t m) const override {
		return Gluer<S, O::G::multi || O::G::half || O::G::counting>::Do(s, static_cast<const Box&>(r).s, m);
	}
};
template<class S> ScannerP Gluer<S, true>::Do(const S& a, const S& b, size_t m) {
	sim::LibScope l; S r(S::Glue(a, b, m)); sim::HarnessScope h; return ScannerP(new Box<S>(std::move(r), 0));
}

template<class S> ScannerP Boxed(const S& s) { return ScannerP(new Box<S>(s)); }

template<class S> static ScannerP Comp(const Pire::Fsm& f, size_t d) {
	sim::LibScope l; Pire::Fsm c(f); S s(c.Compile<S>(d)); sim::HarnessScope h; return ScannerP(new Box<S>(std::move(s), 0));
}
template<class S> static ScannerP Cnt(const Pire::Fsm& re, const Pire::Fsm& sep) {
	sim::LibScope l; S s(re, sep); sim::HarnessScope h; return ScannerP(new Box<S>(std::move(s), 0));
}
template<class S> static ScannerP HF(const Pire::HalfFinalFsm& f) { sim::LibScope l; S s(f.Compile<S>()); sim::HarnessScope h; return ScannerP(new Box<S>(s)); }
template<class T, class F> static ScannerP Conv(const AnyScanner& f) { sim::LibScope l; T t(static_cast<const Box<F>&>(f).s); sim::HarnessScope h; return ScannerP(new Box<T>(std::move(t), 0)); }

#if GROUP == 1
ScannerP Default1(KindId k) {
	switch (k) {
	case KScanner: return ScannerP(new Box<Pire::Scanner>());
	case KNoMask: return ScannerP(new Box<Pire::ScannerNoMask>());
	case KNonreloc: return ScannerP(new Box<Pire::NonrelocScanner>());
	case KNonrelocNoMask: return ScannerP(new Box<Pire::NonrelocScannerNoMask>());
	default: return nullptr;
	}
}
ScannerP CompileFsm1(KindId k, const Pire::Fsm& f, size_t d) {
	switch (k) {
	case KScanner: return Comp<Pire::Scanner>(f, d);
	case KNoMask: return Comp<Pire::ScannerNoMask>(f, d);
	case KNonreloc: return Comp<Pire::NonrelocScanner>(f, d);
	case KNonrelocNoMask: return Comp<Pire::NonrelocScannerNoMask>(f, d);
	default: return nullptr;
	}
}
ScannerP Convert1(KindId to, const AnyScanner& f) {
	if (to == KNonreloc && f.kind == KScanner) return Conv<Pire::NonrelocScanner, Pire::Scanner>(f);
	if (to == KScanner && f.kind == KNonreloc) return Conv<Pire::Scanner, Pire::NonrelocScanner>(f);
	if (to == KNonrelocNoMask && f.kind == KNoMask) return Conv<Pire::NonrelocScannerNoMask, Pire::ScannerNoMask>(f);
	if (to == KNoMask && f.kind == KNonrelocNoMask) return Conv<Pire::ScannerNoMask, Pire::NonrelocScannerNoMask>(f);
	return nullptr;
}
#endif
#if GROUP == 2
ScannerP Default2(KindId k) {
	switch (k) {
	case KHalf: return ScannerP(new Box<Pire::HalfFinalScanner>());
	case KHalfNoMask: return ScannerP(new Box<Pire::HalfFinalScannerNoMask>());
	case KHalfNonreloc: return ScannerP(new Box<Pire::NonrelocHalfFinalScanner>());
	case KHalfNonrelocNoMask: return ScannerP(new Box<Pire::NonrelocHalfFinalScannerNoMask>());
	default: return nullptr;
	}
}
ScannerP CompileFsm2(KindId k, const Pire::Fsm& f, size_t d) {
	switch (k) {
	case KHalf: return Comp<Pire::HalfFinalScanner>(f, d);
	case KHalfNoMask: return Comp<Pire::HalfFinalScannerNoMask>(f, d);
	case KHalfNonreloc: return Comp<Pire::NonrelocHalfFinalScanner>(f, d);
	case KHalfNonrelocNoMask: return Comp<Pire::NonrelocHalfFinalScannerNoMask>(f, d);
	default: return nullptr;
	}
}
ScannerP FromHalfFinal(KindId k, const Pire::HalfFinalFsm& f) {
	switch (k) {
	case KHalf: return HF<Pire::HalfFinalScanner>(f);
	case KHalfNoMask: return HF<Pire::HalfFinalScannerNoMask>(f);
	case KHalfNonreloc: return HF<Pire::NonrelocHalfFinalScanner>(f);
	case KHalfNonrelocNoMask: return HF<Pire::NonrelocHalfFinalScannerNoMask>(f);
	default: return nullptr;
	}
}
ScannerP Convert2(KindId to, const AnyScanner& f) {
	if (to == KHalfNonreloc && f.kind == KHalf) return Conv<Pire::NonrelocHalfFinalScanner, Pire::HalfFinalScanner>(f);
	if (to == KHalf && f.kind == KHalfNonreloc) return Conv<Pire::HalfFinalScanner, Pire::NonrelocHalfFinalScanner>(f);
	if (to == KHalfNonrelocNoMask && f.kind == KHalfNoMask) return Conv<Pire::NonrelocHalfFinalScannerNoMask, Pire::HalfFinalScannerNoMask>(f);
	if (to == KHalfNoMask && f.kind == KHalfNonrelocNoMask) return Conv<Pire::HalfFinalScannerNoMask, Pire::NonrelocHalfFinalScannerNoMask>(f);
	return nullptr;
}
#endif
#if GROUP == 3
ScannerP Default3(KindId k) {
	switch (k) {
	case KSimple: return ScannerP(new Box<Pire::SimpleScanner>());
	case KSlow: return ScannerP(new Box<Pire::SlowScanner>());
	case KCounting: return ScannerP(new Box<Pire::CountingScanner>());
	case KAdvanced: return ScannerP(new Box<Pire::AdvancedCountingScanner>());
	case KNoGlue: return ScannerP(new Box<Pire::NoGlueLimitCountingScanner>());
	case KCapturing: return ScannerP(new Box<Pire::CapturingScanner>());
	case KSlowCapturing: return ScannerP(new Box<Pire::SlowCapturingScanner>());
	default: return nullptr;
	}
}
ScannerP CompileFsm3(KindId k, const Pire::Fsm& f, size_t d) {
	switch (k) {
	case KSimple: return Comp<Pire::SimpleScanner>(f, d);
	case KSlow: return Comp<Pire::SlowScanner>(f, d);
	case KCapturing: return Comp<Pire::CapturingScanner>(f, d);
	case KSlowCapturing: return Comp<Pire::SlowCapturingScanner>(f, d);
	default: return nullptr;
	}
}
ScannerP CompileCounting(KindId k, const Pire::Fsm& re, const Pire::Fsm& sep) {
	switch (k) {
	case KCounting: return Cnt<Pire::CountingScanner>(re, sep);
	case KAdvanced: return Cnt<Pire::AdvancedCountingScanner>(re, sep);
	case KNoGlue: return Cnt<Pire::NoGlueLimitCountingScanner>(re, sep);
	default: return nullptr;
	}
}
#endif

}

#include "scanners.h"
#include <iterator>

namespace sc {

const char* const Names[KKinds] = {
	"Scanner", "ScannerNoMask", "NonrelocScanner", "NonrelocScannerNoMask", "SimpleScanner", "SlowScanner",
	"HalfFinalScanner", "HalfFinalScannerNoMask", "NonrelocHalfFinalScanner", "NonrelocHalfFinalScannerNoMask",
	"CountingScanner", "AdvancedCountingScanner", "NoGlueLimitCountingScanner", "CapturingScanner", "SlowCapturingScanner"
};


ScannerP Default1(KindId); ScannerP Default2(KindId); ScannerP Default3(KindId);
ScannerP CompileFsm1(KindId, const Pire::Fsm&, size_t); ScannerP CompileFsm2(KindId, const Pire::Fsm&, size_t); ScannerP CompileFsm3(KindId, const Pire::Fsm&, size_t);
ScannerP Convert1(KindId, const AnyScanner&); ScannerP Convert2(KindId, const AnyScanner&);
ScannerP Default(KindId k) { return IsMulti(k) ? Default1(k) : IsHalf(k) ? Default2(k) : Default3(k); }
ScannerP CompileFsm(KindId k, const Pire::Fsm& f, size_t d) { return IsMulti(k) ? CompileFsm1(k, f, d) : IsHalf(k) ? CompileFsm2(k, f, d) : CompileFsm3(k, f, d); }
ScannerP Convert(KindId to, const AnyScanner& f) { return IsMulti(to) ? Convert1(to, f) : IsHalf(to) ? Convert2(to, f) : nullptr; }

Pire::Fsm Parse(const std::string& pattern, const re::Opts& o, bool surround, bool reverse, int capturePos) {
	sim::LibScope l;
	Pire::Lexer lex;
	if (o.utf8) {
		std::vector<Pire::wchar32> w;
		Pire::Encodings::Utf8().FromLocal(pattern.data(), pattern.data() + pattern.size(), std::back_inserter(w));
		lex.Assign(w.begin(), w.end());
		lex.SetEncoding(Pire::Encodings::Utf8());
	} else
		lex.Assign(pattern.begin(), pattern.end());
	if (o.andnot) lex.AddFeature(Pire::Features::AndNotSupport());
	if (o.icase) lex.AddFeature(Pire::Features::CaseInsensitive());
	if (o.glyphs) lex.AddFeature(Pire::Features::GlueSimilarGlyphs());
	if (capturePos >= 0) lex.AddFeature(Pire::Features::Capture((size_t) capturePos));
	Pire::Fsm f = lex.Parse();
	if (surround) f.Surround();
	if (reverse) f.Reverse();
	return f;
}

void Watch(const AnyScanner& s, const std::string& text, bool marks, std::vector<Obs>& out) {
	StateP st = s.NewState();
	out.push_back(s.Observe(*st));
	if (marks) { s.Step(*st, Pire::BeginMark); out.push_back(s.Observe(*st)); }
	// fixed cuts: the same for every scanner that is compared
	size_t n = text.size(), cut1 = n / 3, cut2 = n - n / 4;
	size_t cuts[4] = { 0, cut1, cut2, n };
	for (int i = 0; i < 3; ++i) { s.Run(*st, text.data() + cuts[i], text.data() + cuts[i + 1]); out.push_back(s.Observe(*st)); }
	if (marks) { s.Step(*st, Pire::EndMark); out.push_back(s.Observe(*st)); }
}
uint64_t HashObs(const Obs& o, uint64_t h) { for (uint64_t v : o) h = sim::Mix(h, v); return h; }
std::string ShowObs(const Obs& o) { std::string r = "["; char b[32]; for (size_t i = 0; i < o.size(); ++i) { snprintf(b, sizeof b, "%s%llu", i ? " " : "", (unsigned long long) o[i]); r += b; } return r + "]"; }

}

// P04: prefix and suffix search return the position the reference names, wherever the buffer lies.
#include "common.h"
using namespace sim;

namespace {

static const sc::KindId Kinds[] = { sc::KScanner, sc::KNoMask, sc::KNonreloc, sc::KNonrelocNoMask, sc::KSimple, sc::KSlow };

struct Want { long lp, sp, ls, ss; };     // lengths, -1 for none

// f[L]: the prefix (suffix) of length L is accepted without the far mark; whole: the entire text followed by it is
static void Pick(const std::vector<bool>& f, bool mark, bool whole, long& longest, long& shortest) {
	longest = shortest = -1;
	for (size_t l = 0; l < f.size(); ++l) if (f[l]) { longest = (long) l; if (shortest < 0) shortest = (long) l; }
	if (mark && whole) { longest = (long) f.size() - 1; if (shortest < 0) shortest = longest; }
}

void Run04() {
	HeapSetGarbage((unsigned char) Draw(256));
	re::Opts o = wl::DrawOpts();
	bool surround = Draw(4) == 3;
	re::P ast = wl::DrawPattern(o);
	if (Draw(3) == 2) { // patterns whose automata have states that loop on almost everything: skipping is possible there
		re::P n = re::Mk(re::Star, { re::GenChars(o) });
		if (Draw(2) && !n->kids[0]->neg) n->kids[0]->neg = true, n->kids[0]->alone = "";
		ast = Draw(2) ? re::Mk(re::Cat, { n, ast }) : re::Mk(re::Cat, { ast, n });
	}
	std::string pat = re::Render(ast, o);
	Log("pattern /%s/%s surround=%d", re::Show(pat).c_str(), wl::OptStr(o).c_str(), surround);
	Pire::Fsm fwd = sc::Parse(pat, o, surround), rev = sc::Parse(pat, o, surround, true);
	std::vector<sc::ScannerP> fs, rs;
	size_t skip = Draw(6);
	for (size_t i = 0; i < 6; ++i) if (i == skip || Draw(3) == 2) { fs.push_back(sc::CompileFsm(Kinds[i], fwd)); rs.push_back(sc::CompileFsm(Kinds[i], rev)); }
	world::Nic nic;
	size_t texts = 1 + Draw(4);
	for (size_t t = 0; t < texts; ++t) {
		std::string text = re::GenText(ast, o, 40 + Draw(5) * 40);
		bool tb = Draw(3) == 2, te = Draw(3) == 2;
		size_t n = text.size();
		Want w;
		{
			re::Ref ref = { ast, surround, o.utf8 };
			re::Pos v = ref.Verdicts(re::ToSyms(text, tb, te));
			std::vector<bool> f; for (size_t l = 0; l <= n; ++l) f.push_back(v[l + tb]);
			Pick(f, te, te && v[n + tb + 1], w.lp, w.sp);
			// suffixes: a match that ends exactly at the end of the symbols and starts at i
			re::Syms s = re::ToSyms(text, tb, te);
			re::Matcher m(s, o.utf8);
			std::vector<bool> g(n + 1);
			bool whole = false;
			for (size_t i = 0; i <= n + (tb ? 1 : 0); ++i) {
				re::Pos st;
				bool hit;
				if (surround) { for (size_t k = i; k <= s.size(); ++k) st.set(k); hit = m.Adv(*ast, st).any(); }
				else { st.set(i); hit = m.Adv(*ast, st)[s.size()]; }
				if (tb && i == 0) whole = hit; else g[n - (i - tb)] = hit;
			}
			Pick(g, tb, whole, w.ls, w.ss);
		}
		size_t deliveries = 1 + Draw(4);
		for (size_t d = 0; d < deliveries; ++d) {
			Advance(1 + Draw(2000));
			const char* p = nic.Place(text); const char* e = p + n;
			Log("text \"%s\" at address %%64 = %zu, begin mark %d, end mark %d: want longest prefix %ld, shortest %ld, longest suffix %ld, shortest %ld",
				re::Show(text).c_str(), (size_t) p & 63, tb, te, w.lp, w.sp, w.ls, w.ss);
			Cover(Mix(Mix(HashStr(pat), HashStr(text)), (size_t) p & 15));
			Count("op.placement");
			for (size_t i = 0; i < fs.size(); ++i) {
				auto len = [&](const char* q) { return q ? (long) (q - p) : -1; };
				auto slen = [&](const char* q) { return q ? (long) (e - 1 - q) : -1; };
				const char* nm = sc::Names[fs[i]->kind];
				long lp = len(fs[i]->Longest(p, e, tb, te)), sp = len(fs[i]->Shortest(p, e, tb, te));
				SIM_CHECK(lp == w.lp, "wrong-longest-prefix", "%s: LongestPrefix gives %ld, the reference %ld", nm, lp, w.lp);
				SIM_CHECK(sp == w.sp, "wrong-shortest-prefix", "%s: ShortestPrefix gives %ld, the reference %ld", nm, sp, w.sp);
				long ls = slen(rs[i]->LongestSuf(e - 1, p - 1, te, tb)), ss = slen(rs[i]->ShortestSuf(e - 1, p - 1, te, tb));
				SIM_CHECK(ls == w.ls, "wrong-longest-suffix", "%s: LongestSuffix gives %ld, the reference %ld", nm, ls, w.ls);
				SIM_CHECK(ss == w.ss, "wrong-shortest-suffix", "%s: ShortestSuffix gives %ld, the reference %ld", nm, ss, w.ss);
			}
			if (w.lp > 0) Count("reach.nonempty_prefix"); if (w.lp > 64) Count("reach.long_prefix"); if (w.ls > 0) Count("reach.nonempty_suffix");
			if (w.lp > w.sp && w.sp >= 0) Count("reach.shortest_differs_from_longest");
		}
	}
}

Property p04("P04", Run04, wl::WarmLibrary);

}

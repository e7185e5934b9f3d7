// P19: a cluster of machines that run builds of the library for different instruction sets. They compile,
// save, send, load, map and glue the same scanners, and every one of them must answer alike.
#include "build.h"
#include "node.h"
#include <map>
using namespace sim;

namespace {

const node::Build& BuildOf(size_t i) { return i == 0 ? node::Sse2() : i == 1 ? node::Portable() : node::Mmx(); }
static const size_t NBuilds = 3;

struct Text { std::string s; bool marks; re::Syms syms; std::vector<size_t> cuts; std::vector<node::Obs> want; std::vector<long> found; bool hasRef = false; re::Pos ref; };
struct Rule {
	int kind; std::vector<node::Spec> parts; std::string desc;
	std::vector<Text> texts; size_t size = 0, regexps = 0, bytes = 0;
};
struct Held { size_t rule; node::ScannerP s; std::string how; };
struct Node {
	size_t build; std::map<size_t, std::string> disk; std::vector<Held> mem;
	std::unique_ptr<world::Mapping> map; size_t mapped = 0;
};
struct Message { size_t to, rule; std::string body; size_t size; uint64_t sum; uint64_t at; };

struct Cluster {
	std::vector<Rule> rules; std::vector<Node> nodes; std::vector<Message> net; world::Nic nic; uint64_t cov = 0;

	static std::string Image(const node::Scanner& s, const world::WritePlan& p) {
		std::string f; world::DiskWriter d(f, p); std::ostream o(&d); s.Save(o);
		SIM_CHECK(o.good(), "save-failed", "saving to a healthy disk failed");
		return f;
	}
	node::ScannerP CompileOn(size_t build, const Rule& r) {
		node::ScannerP s = BuildOf(build).Compile(r.parts[0]);
		for (size_t i = 1; i < r.parts.size(); ++i) s = s->Glue(*BuildOf(build).Compile(r.parts[i]));
		return s;
	}
	// Everything a user can see of a scanner on the rule's texts, delivered at drawn addresses.
	void Watch(const node::Scanner& s, const Text& t, std::vector<node::Obs>& obs, std::vector<long>& found) {
		node::StateP st = s.Start();
		obs.push_back(s.Observe(*st));
		if (t.marks) { s.Step(*st, Pire::BeginMark); obs.push_back(s.Observe(*st)); }
		for (size_t i = 0; i + 1 < t.cuts.size(); ++i) {
			size_t n = t.cuts[i + 1] - t.cuts[i];
			const char* p = nic.Place(t.s.substr(t.cuts[i], n));
			s.Run(*st, p, p + n); obs.push_back(s.Observe(*st));
		}
		if (t.marks) { s.Step(*st, Pire::EndMark); obs.push_back(s.Observe(*st)); }
		if (!s.CanFind()) return;
		const char* p = nic.Place(t.s); size_t n = t.s.size();
		for (int how = 0; how < 4; ++how) {
			if (how > 1 && !n) { found.push_back(-2); continue; }
			const char* q = how < 2 ? s.Find(how, p, p + n, t.marks, t.marks) : s.Find(how, p + n - 1, p - 1, t.marks, t.marks);
			found.push_back(q ? (long) (q - p) : -1000);
		}
	}
	void Define(Rule& r) {                        // the first build of the rule, checked against the reference where there is one
		node::ScannerP s = CompileOn(0, r);
		if (s->Empty() || s->Size() > 1200) Discard("large scanner");
		r.size = s->Size(); r.regexps = s->RegexpsCount();
		for (Text& t : r.texts) {
			Watch(*s, t, t.want, t.found);
			if (t.hasRef) CheckRef(r, t, t.want, "where it was defined");
		}
	}
	void CheckRef(const Rule& r, const Text& t, const std::vector<node::Obs>& obs, const char* where) {
		size_t at = 0, k = 0;
		SIM_CHECK(obs[k++][0] == t.ref[at], "wrong-verdict", "%s %s: the reference says %d before any input", r.desc.c_str(), where, (int) t.ref[at]);
		if (t.marks) { ++at; SIM_CHECK(obs[k++][0] == t.ref[at], "wrong-verdict", "%s %s: the reference says %d after the begin mark", r.desc.c_str(), where, (int) t.ref[at]); }
		for (size_t i = 0; i + 1 < t.cuts.size(); ++i, ++k) {
			size_t p = t.cuts[i + 1] + t.marks;
			SIM_CHECK(obs[k][0] == t.ref[p], "wrong-verdict", "%s %s: the reference says %d after %zu bytes of \"%s\"", r.desc.c_str(), where, (int) t.ref[p], t.cuts[i + 1], re::Show(t.s).c_str());
			if (t.ref[p]) Count("reach.match");
		}
		if (t.marks) SIM_CHECK(obs[k][0] == t.ref[t.syms.size()], "wrong-verdict", "%s %s: the reference says %d after the end mark", r.desc.c_str(), where, (int) t.ref[t.syms.size()]);
	}
	void Check(const Held& h, const char* what) {
		const Rule& r = rules[h.rule]; const char* bn = BuildOf(h.s->build).name;
		SIM_CHECK(h.s->Size() == r.size && h.s->RegexpsCount() == r.regexps, "builds-differ", "%s: %s in the %s build (%s) has %zu states and %zu patterns, there were %zu and %zu", what, r.desc.c_str(), bn, h.how.c_str(), h.s->Size(), h.s->RegexpsCount(), r.size, r.regexps);
		for (const Text& t : r.texts) {
			std::vector<node::Obs> obs; std::vector<long> found;
			Watch(*h.s, t, obs, found);
			for (size_t i = 0; i < obs.size(); ++i)
				SIM_CHECK(obs[i] == t.want[i], "builds-differ", "%s: %s in the %s build (%s) shows %s as observation %zu on \"%s\", it was %s", what, r.desc.c_str(), bn, h.how.c_str(), sc::ShowObs(obs[i]).c_str(), i, re::Show(t.s).c_str(), sc::ShowObs(t.want[i]).c_str());
			for (size_t i = 0; i < found.size(); ++i)
				SIM_CHECK(found[i] == t.found[i], "builds-differ", "%s: %s in the %s build (%s): search %zu in \"%s\" finds %ld, it was %ld", what, r.desc.c_str(), bn, h.how.c_str(), i, re::Show(t.s).c_str(), found[i], t.found[i]);
			cov = Mix(cov, HashStr(t.s));
		}
		cov = Mix(cov, HashStr(h.how) + h.s->build); Cover(cov);
	}
	void Keep(size_t n, Held h, const char* what) {
		Check(h, what);
		Node& nd = nodes[n];
		for (Held& o : nd.mem) if (o.rule == h.rule) { o = std::move(h); return; }
		nd.mem.push_back(std::move(h));
	}
	node::ScannerP Receive(size_t build, Node* nd, size_t rule, const std::string& file, std::string& how) {
		const Rule& r = rules[rule];
		node::ScannerP s;
		if (Draw(3) == 2 && nd && !nd->mem.empty() && rules[nd->mem[0].rule].kind == r.kind && nd->mem[0].s->build == (int) build) { s = nd->mem[0].s->Copy(); how += ", over another"; }
		else s = BuildOf(build).Default(r.kind);
		if (nd && s->Mappable() && Draw(2) && nd->map) {
			size_t at = (nd->mapped + 15) / 8 * 8 + 8 * Draw(4);
			if (at + file.size() <= nd->map->R().Size()) {
				const char* p = nd->map->Put(file, at, false); nd->map->R().Writable(false);
				const char* q = (const char*) s->Mmap(p, file.size()); nd->mapped = at + file.size();
				SIM_CHECK(q == p + file.size(), "wrong-return", "%s: mapping in the %s build ended at byte %ld of %zu", r.desc.c_str(), BuildOf(build).name, (long) (q - p), file.size());
				how += ", mapped"; Count("op.mapped"); return s;
			}
		}
		world::ReadPlan p; p.randomChunks = Draw(2); p.buffered = Draw(2);
		world::DiskReader d(file, p); std::istream in(&d); s->Load(in);
		SIM_CHECK(d.Pos() == file.size(), "load-left-bytes", "%s: the %s build read %zu bytes of an image of %zu", r.desc.c_str(), BuildOf(build).name, d.Pos(), file.size());
		how += ", loaded"; Count("op.loaded"); return s;
	}
};

static uint64_t Sum(const std::string& s) { return HashStr(s); }

void Run19() {
	HeapSetGarbage((unsigned char) Draw(256));
	Cluster c;
	size_t nr = 1 + Draw(3);
	for (size_t i = 0; i < nr; ++i) {
		Rule r; r.kind = i && Draw(2) ? c.rules[0].kind : (int) Draw(sc::KKinds); sc::KindId k = (sc::KindId) r.kind;
		bool gluable = sc::IsMulti(k) || sc::IsHalf(k) || sc::IsCounting(k);
		size_t parts = gluable ? 1 + Draw(3) : 1;
		std::vector<re::P> asts; re::Opts ro;
		r.desc = sc::Names[k];
		for (size_t j = 0; j < parts; ++j) {
			wl::Made m; m.o = wl::SmallOpts(); node::Spec s; s.kind = r.kind; s.surround = Draw(2); s.capture = -1;
			if (sc::IsCounting(k)) {
				m.o.marks = m.o.andnot = false;
				re::P a = wl::DrawPattern(m.o, 8), b = re::GenChars(m.o);
				s.pattern = re::Render(a, m.o); s.sep = Draw(3) ? re::Render(re::Mk(re::Star, { b }), m.o) : ".*";
				asts.push_back(re::Mk(re::Plus, { re::Mk(re::Cat, { a, re::Mk(re::Opt, { b }) }) }));
			} else if (k == sc::KCapturing || k == sc::KSlowCapturing) {
				m.o.marks = m.o.andnot = false;
				re::P h = wl::DrawPattern(m.o, 4), b = wl::DrawPattern(m.o, 6), t = wl::DrawPattern(m.o, 4);
				std::string pre = re::RenderAtom(h, m.o); s.capture = 1; s.surround = true;
				for (size_t x = 0; x < pre.size(); ++x) { if (pre[x] == '\\') ++x; else if (pre[x] == '(') ++s.capture; }
				s.pattern = pre + "(" + re::Render(b, m.o) + ")" + re::RenderAtom(t, m.o);
				asts.push_back(re::Mk(re::Cat, { h, b, t }));
			} else { re::P a = wl::DrawPattern(m.o, 12); s.pattern = re::Render(a, m.o); asts.push_back(a); }
			s.o = m.o; if (!j) ro = m.o;
			r.desc += (j ? " + /" : " /") + re::Show(s.pattern) + "/" + wl::OptStr(s.o) + (s.surround ? " surrounded" : "");
			if (!s.sep.empty()) r.desc += " sep /" + re::Show(s.sep) + "/";
			r.parts.push_back(s);
		}
		size_t texts = 1 + Draw(3);
		for (size_t j = 0; j < texts; ++j) {
			Text t; t.s = re::GenText(Pick(asts), ro, 40 + Draw(3) * 60); t.marks = !sc::IsCounting(k) && Draw(2);
			t.syms = re::ToSyms(t.s, t.marks, t.marks); t.cuts.push_back(0);
			while (t.cuts.back() < t.s.size() && t.cuts.size() < 6) t.cuts.push_back(t.cuts.back() + wl::DrawChunk(t.s.size() - t.cuts.back()));
			if (t.cuts.back() < t.s.size()) t.cuts.push_back(t.s.size());
			if (parts == 1 && (sc::IsMulti(k) || k == sc::KSimple || k == sc::KSlow)) {
				re::Ref ref = { asts[0], r.parts[0].surround, r.parts[0].o.utf8 }; t.ref = ref.Verdicts(t.syms); t.hasRef = true;
			}
			r.texts.push_back(t);
		}
		Log("rule %zu: %s", i, r.desc.c_str());
		c.Define(r);
		c.rules.push_back(std::move(r));
	}
	static world::Mapping* maps[4];
	size_t nn = 2 + Draw(3);
	c.nodes.resize(nn);
	for (size_t i = 0; i < nn; ++i) { c.nodes[i].build = i < 2 ? i : Draw(NBuilds); Log("node %zu runs the %s build (words of %zu bytes)", i, BuildOf(c.nodes[i].build).name, BuildOf(c.nodes[i].build).word); }
	for (size_t i = 0; i < nn; ++i) c.nodes[i].map.reset(new world::Mapping(0x340000000000ull + i * 0x1000000000ull, 400));
	(void) maps;
	size_t events = 6 + Draw(24), crashes = 0;
	auto deliver = [&](bool all) {
		for (size_t i = 0; i < c.net.size();) {
			if (!all && c.net[i].at > g_now) { ++i; continue; }
			Message m = std::move(c.net[i]); c.net.erase(c.net.begin() + i);
			if (m.body.size() != m.size || Sum(m.body) != m.sum) { Log("node %zu drops a damaged transfer of rule %zu", m.to, m.rule); Count("fault.transfer_dropped"); continue; }
			Log("node %zu received rule %zu (%zu bytes)", m.to, m.rule, m.size);
			c.nodes[m.to].disk[m.rule] = m.body; Count("op.received");
		}
	};
	for (size_t e = 0; e < events; ++e) {
		Advance(1 + Draw(3000));
		deliver(false);
		size_t n = Draw(nn); Node& nd = c.nodes[n]; const char* bn = BuildOf(nd.build).name;
		switch (Draw(8)) {
		case 0: { // builds a rule itself
			size_t r = Draw(nr); Log("node %zu (%s) builds rule %zu", n, bn, r);
			Held h; h.rule = r; h.how = std::string("built on ") + bn; h.s = c.CompileOn(nd.build, c.rules[r]); Count("op.built");
			c.Keep(n, std::move(h), "built");
			break;
		}
		case 1: case 2: { // saves, and sends the file
			if (nd.mem.empty()) break;
			Held& h = nd.mem[Draw(nd.mem.size())];
			world::WritePlan p; if (Draw(2)) p.maxPut = 1 + Draw(64);
			std::string f = Cluster::Image(*h.s, p); Rule& r = c.rules[h.rule];
			if (!r.bytes) r.bytes = f.size();
			SIM_CHECK(r.bytes == f.size(), "images-differ", "%s: the image written by the %s build (%s) has %zu bytes, another one had %zu", r.desc.c_str(), bn, h.how.c_str(), f.size(), r.bytes);
			nd.disk[h.rule] = f; Count("op.saved");
			size_t copies = 1 + Draw(2);
			for (size_t k = 0; k < copies; ++k) {
				Message m; m.to = Draw(nn); m.rule = h.rule; m.body = f; m.size = f.size(); m.sum = Sum(f); m.at = g_now + Draw(8000);
				if (Draw(8) == 7) { if (Draw(2)) m.body.resize(Draw(m.body.size())); else m.body[Draw(m.body.size())] ^= 1 << Draw(8); Count("fault.transfer_damaged"); }
				Log("node %zu (%s) saves rule %zu and sends it to node %zu", n, bn, h.rule, m.to);
				if (Draw(10) == 9) { Count("fault.message_lost"); continue; }
				c.net.push_back(m);
				if (Draw(10) == 9) { Count("fault.message_duplicated"); m.at += Draw(5000); c.net.push_back(m); }
			}
			break;
		}
		case 3: case 4: { // takes a scanner from its disk
			if (nd.disk.empty()) break;
			auto it = nd.disk.begin(); std::advance(it, Draw(nd.disk.size()));
			Held h; h.rule = it->first; h.how = std::string("on ") + bn;
			Log("node %zu (%s) takes rule %zu from disk", n, bn, it->first);
			h.s = c.Receive(nd.build, &nd, it->first, it->second, h.how);
			if (Draw(4) == 3) { h.s = h.s->Copy(); h.how += ", copied"; }
			c.Keep(n, std::move(h), "taken from disk");
			break;
		}
		case 5: { // crash; the machine that replaces it may be of another sort
			if (crashes > 3) break;
			++crashes; nd.mem.clear(); nd.mapped = 0;
			if (Draw(2)) nd.build = Draw(NBuilds);
			Log("node %zu crashes and comes back with the %s build", n, BuildOf(nd.build).name); Count("fault.crash");
			break;
		}
		case 6: { // glues what it holds and compares with the same gluing elsewhere
			if (nd.mem.size() < 2) break;
			Held &a = nd.mem[Draw(nd.mem.size())], &b = nd.mem[Draw(nd.mem.size())];
			if (c.rules[a.rule].kind != c.rules[b.rule].kind || !a.s->Gluable() || a.s->Size() * b.s->Size() > 20000) break;
			node::ScannerP g = a.s->Glue(*b.s), w = c.CompileOn(0, c.rules[a.rule])->Glue(*c.CompileOn(0, c.rules[b.rule]));
			Log("node %zu (%s) glues rules %zu and %zu", n, bn, a.rule, b.rule); Count("op.glued");
			SIM_CHECK(g->Empty() == w->Empty() && g->Size() == w->Size(), "builds-differ", "gluing %s and %s gives %zu states in the %s build, %zu elsewhere", c.rules[a.rule].desc.c_str(), c.rules[b.rule].desc.c_str(), g->Size(), bn, w->Size());
			if (g->Empty()) break;
			for (Held* h : { &a, &b }) for (const Text& t : c.rules[h->rule].texts) {
				std::vector<node::Obs> x, y; std::vector<long> fx, fy;
				c.Watch(*g, t, x, fx); c.Watch(*w, t, y, fy);
				SIM_CHECK(x == y && fx == fy, "builds-differ", "the gluing of %s (%s) and %s (%s) in the %s build differs from the one elsewhere on \"%s\"", c.rules[a.rule].desc.c_str(), a.how.c_str(), c.rules[b.rule].desc.c_str(), b.how.c_str(), bn, re::Show(t.s).c_str());
			}
			break;
		}
		default: { // serves
			if (nd.mem.empty()) break;
			Held& h = nd.mem[Draw(nd.mem.size())];
			Log("node %zu (%s) serves with rule %zu (%s)", n, bn, h.rule, h.how.c_str());
			c.Check(h, "serving"); Count("op.served");
		}
		}
	}
	// the network quiets down; every image that survived is good for every build
	deliver(true);
	for (size_t n = 0; n < nn; ++n) for (auto& f : c.nodes[n].disk) {
		size_t b = Draw(NBuilds);
		Held h; h.rule = f.first; h.how = std::string("on ") + BuildOf(b).name + ", at the end";
		h.s = c.Receive(b, nullptr, f.first, f.second, h.how);
		c.Check(h, "read at the end"); Count("reach.read_at_the_end");
	}
}

void Warm19() { wl::WarmLibrary(); for (size_t i = 0; i < NBuilds; ++i) BuildOf(i).Warm(); }

Property p19("P19", Run19, Warm19);

}

// P20: the sample programs (pigrep, which is installed, and blacklist) print what their patterns and dictionaries
// say, or report that they could not: a run is a machine on which processes are started one after another over
// simulated files, with failing opens, reads, writes, mappings and allocations, full disks and crashes.
#include "shell.h"
#include "common.h"
using namespace sim;

namespace shell {

struct File { std::string data; bool dir = false; int noOpen = 0; int64_t badAt = -1; };
struct Desc { File* f; size_t pos; int flags; bool used; };
struct Map { char* at; size_t len; };

struct Machine {
	std::map<std::string, std::unique_ptr<File>> files;
	std::vector<Desc> fds; std::vector<Map> maps;
	File in; std::string out, err;
	int64_t outRoom = -1, diskRoom = -1, writesLeft = -1;
	bool dead = false; int mapFault = 0; unsigned step = 0, grain = 1; uint64_t failedOps = 0;
	world::Region* pages = 0;
	void Start() { fds.clear(); maps.clear(); for (int i = 0; i < 3; ++i) fds.push_back(Desc{ i ? 0 : &in, 0, i ? O_WRONLY : O_RDONLY, true }); out.clear(); err.clear(); outRoom = -1; dead = false; failedOps = 0; mapFault = 0; writesLeft = -1; }
};
static Machine* M;
static int Bad(int e) { ++M->failedOps; errno = e; return -1; }

int Open(const char* name, int flags) {
	HarnessScope h; Advance(5);
	auto it = M->files.find(name);
	bool write = (flags & O_ACCMODE) != O_RDONLY;
	if (it == M->files.end()) {
		if (!(flags & O_CREAT) || strchr(name, '!')) return Bad(ENOENT);   // a name with a ! is in a folder that does not exist
		if (!M->dead) it = M->files.emplace(name, std::unique_ptr<File>(new File)).first; else return Bad(ENOENT);
	}
	File* f = it->second.get();
	if (f->noOpen) return Bad(f->noOpen);
	if (f->dir && write) return Bad(EISDIR);
	if (write && (flags & O_TRUNC) && !M->dead) f->data.clear();
	M->fds.push_back(Desc{ f, 0, flags, true });
	return (int) M->fds.size() - 1;
}
ssize_t Read(int fd, char* to, size_t n) {
	HarnessScope h; Advance(3);
	if (fd < 0 || (size_t) fd >= M->fds.size() || !M->fds[fd].used) return Bad(EBADF);
	Desc& d = M->fds[fd];
	if (!d.f) return Bad(EBADF);
	if (d.f->dir) { Count("fault.read_directory"); return Bad(EISDIR); }
	size_t end = d.f->data.size();
	if (d.f->badAt >= 0) { if (d.pos >= (size_t) d.f->badAt) { Count("fault.read_failed"); return Bad(EIO); } end = std::min(end, (size_t) d.f->badAt); }
	size_t k = std::min(n, end - std::min(end, d.pos));
	if (k > 1 && M->grain) { size_t s = 1 + (M->step++ * 7 + M->grain) % 29; if (s < k) { k = s; Count("fault.short_read"); } }
	memcpy(to, d.f->data.data() + d.pos, k); d.pos += k;
	return k;
}
ssize_t Write(int fd, const char* from, size_t n) {
	HarnessScope h; Advance(4);
	if (fd < 0 || (size_t) fd >= M->fds.size() || !M->fds[fd].used) return Bad(EBADF);
	if (fd == 2) { M->err.append(from, n); return n; }
	if (M->writesLeft >= 0 && M->writesLeft-- == 0) { M->dead = true; }
	if (M->dead) return n;                     // the process is gone; nothing it does matters any more
	int64_t& room = fd == 1 ? M->outRoom : M->diskRoom;
	size_t k = n;
	if (M->grain > 8 && k > 1) { k = 1 + (M->step++ * 5 + M->grain) % k; if (k < n) Count("fault.short_write"); }
	if (room >= 0) { if (!room) { Count(fd == 1 ? "fault.output_failed" : "fault.disk_full"); return Bad(fd == 1 ? EPIPE : ENOSPC); } k = std::min<size_t>(k, room); room -= k; }
	if (fd == 1) M->out.append(from, k);
	else { Desc& d = M->fds[fd]; if (d.flags & O_APPEND) d.pos = d.f->data.size(); if (d.f->data.size() < d.pos + k) d.f->data.resize(d.pos + k); d.f->data.replace(d.pos, k, std::string(from, k)); d.pos += k; }
	return k;
}
int Close(int fd) {
	HarnessScope h;
	if (fd < 0 || (size_t) fd >= M->fds.size() || !M->fds[fd].used) return Bad(EBADF);
	M->fds[fd].used = false;
	return 0;
}

}

namespace std { istream sim_cin(0); ostream sim_cout(0), sim_cerr(0); }
using namespace shell;

int sim_open(const char* name, int flags, ...) { return Open(name, flags); }
int sim_close(int fd) { return Close(fd); }
int sim_fstat(int fd, struct stat* st) {
	HarnessScope h;
	if (fd < 0 || (size_t) fd >= M->fds.size() || !M->fds[fd].used || !M->fds[fd].f) return Bad(EBADF);
	if (M->mapFault == 1) { Count("fault.fstat_failed"); return Bad(EIO); }
	memset(st, 0, sizeof *st); st->st_size = M->fds[fd].f->data.size(); st->st_mode = M->fds[fd].f->dir ? S_IFDIR | 0755 : S_IFREG | 0644;
	return 0;
}
void* sim_mmap(void*, size_t len, int, int, int fd, off_t off) {
	HarnessScope h;
	if (fd < 0 || (size_t) fd >= M->fds.size() || !M->fds[fd].used || !M->fds[fd].f) { Bad(EBADF); return MAP_FAILED; }
	if (!len) { Count("fault.mmap_empty"); Bad(EINVAL); return MAP_FAILED; }
	if (M->fds[fd].f->dir) { Bad(ENODEV); return MAP_FAILED; }
	if (M->mapFault == 2) { Count("fault.mmap_failed"); Bad(ENOMEM); return MAP_FAILED; }
	const std::string& d = M->fds[fd].f->data; size_t size = (d.size() + 4095) / 4096 * 4096;
	if (off || size > M->pages->Size() || !M->maps.empty()) Discard("mapping");
	char* at = M->pages->End() - size;           // whole pages: zeros behind the end of the file, then nothing
	M->pages->Writable(true); memset(M->pages->Base(), 0xAA, M->pages->Size()); memset(at, 0, size); memcpy(at, d.data(), d.size()); M->pages->Writable(false);
	M->maps.push_back(Map{ at, len });
	return at;
}
int sim_munmap(void* at, size_t len) {
	HarnessScope h;
	for (size_t i = 0; i < M->maps.size(); ++i) if (M->maps[i].at == at && M->maps[i].len == len) { M->maps.erase(M->maps.begin() + i); M->pages->Writable(true); memset(M->pages->Base(), 0xAA, M->pages->Size()); M->pages->Writable(false); return 0; }
	Fail("bad-munmap", "a process unmapped what it had not mapped"); return -1;
}
void sim_exit(int code) { throw Exit{ code }; }

namespace {

struct Result { int code; std::string out, err; uint64_t failedOps; };

// Runs a program to its end.
Result Launch(int (*program)(int, char**), std::vector<std::string> args) {
	std::string line; for (auto& a : args) line += " " + re::Show(a);
	std::vector<std::vector<char>> mem; std::vector<char*> argv;
	for (auto& a : args) { mem.emplace_back(a.begin(), a.end()); mem.back().push_back(0); }
	for (auto& m : mem) argv.push_back(m.data());
	argv.push_back(0);
	Result r; bool exited = false;
	FileBuf in(0), out(1), err(2);
	std::sim_cin.rdbuf(&in); std::sim_cout.rdbuf(&out); std::sim_cerr.rdbuf(&err);
	try { LibScope l; r.code = program((int) args.size(), argv.data()); }
	catch (const Exit& e) { r.code = e.code; exited = true; }
	catch (const std::exception& e) { HeapFailDisarm(); SIM_CHECK(M->dead, "uncaught", "%s died of an exception: %s", args[0].c_str(), e.what()); r.code = 134; }
	HeapFailDisarm();
	std::sim_cout.rdbuf()->pubsync(); std::sim_cerr.rdbuf()->pubsync();
	std::sim_cin.rdbuf(0); std::sim_cout.rdbuf(0); std::sim_cerr.rdbuf(0);
	r.out = M->out; r.err = M->err; r.failedOps = M->failedOps;
	Log("%s -> %d, %zu bytes%s%s", line.c_str(), r.code, r.out.size(), M->dead ? ", crashed" : "", r.err.empty() ? "" : (", " + re::Show(r.err)).c_str());
	SIM_CHECK(M->maps.empty(), "mapping-left", "%s left a mapping behind", args[0].c_str());
	if (!exited) for (size_t i = 3; i < M->fds.size(); ++i) SIM_CHECK(!M->fds[i].used, "descriptor-left", "%s left a descriptor open", args[0].c_str());
	return r;
}
bool IsPrefix(const std::string& a, const std::string& b) { return a.size() <= b.size() && b.compare(0, a.size(), a) == 0; }

// ---------------------------------------------------------------- pigrep

std::vector<std::string> Split(const std::string& data, bool whole) {
	std::vector<std::string> r; size_t b = 0;
	for (size_t e; (e = data.find('\n', b)) != std::string::npos; b = e + 1) r.push_back(data.substr(b, e - b));
	if (whole && b < data.size()) r.push_back(data.substr(b));
	return r;
}

void Pigrep(Machine& m) {
	re::Opts o = wl::DrawOpts(); o.glyphs = false; o.nul = false;
	re::P ast; std::string pat; bool bad = Draw(16) == 15;
	for (int i = 0; ; ++i) { ast = wl::DrawPattern(o, 14); pat = re::Render(ast, o); if (pat.find('\0') == std::string::npos) break; if (i == 5) Discard("NUL in the pattern"); }
	if (bad) { static const char* const bads[] = { "(a", "a{2,1}", "[ab", "a\\", "*a)", "[a-" }; pat = bads[Draw(6)]; }
	std::map<std::string, bool> verdict;
	auto matches = [&](const std::string& line) {
		auto it = verdict.find(line); if (it != verdict.end()) return it->second;
		re::Syms s = re::ToSyms(line, true, true); re::Ref r = { ast, true, o.utf8 };
		return verdict[line] = r.Verdicts(s)[s.size()];
	};
	auto content = [&]() {
		std::string d;
		for (size_t i = Draw(6); i > 0; --i) {
			std::string t = re::GenText(ast, o, 24); for (auto& c : t) if (c == '\n') c = ' ';
			d += t;
			if (i > 1 || Draw(3)) d += Draw(12) == 11 ? "\r\n" : Draw(12) == 11 ? "\n\n" : "\n";
		}
		return d;
	};
	std::vector<std::string> names; size_t n = Draw(4);
	for (size_t i = 0; i < n; ++i) {
		size_t k = Draw(10);
		if (k == 9) { names.push_back("-"); continue; }
		std::string name = (k == 8 ? "gone" : k == 7 ? "dir" : k == 6 ? "locked" : "f") + std::to_string(i);
		names.push_back(name);
		if (k == 8) continue;
		std::unique_ptr<File> f(new File); f->data = content();
		if (k == 7) f->dir = true;
		if (k == 6) f->noOpen = EACCES;
		if (k == 5) f->badAt = Draw(f->data.size() + 1);
		m.files[name] = std::move(f);
	}
	m.in.data = content(); m.in.badAt = Draw(12) == 11 ? (int64_t) Draw(m.in.data.size() + 1) : -1; m.in.dir = false;
	// what should come out, up to the first file that can not be read
	std::string want; bool inputFault = false, usedIn = false; std::string culprit;
	std::vector<std::string> todo = names; if (todo.empty()) todo.push_back("-");
	for (auto& name : todo) {
		File* f = &m.in;
		if (name != "-") {
			auto it = m.files.find(name);
			if (it == m.files.end() || it->second->noOpen) { inputFault = true; culprit = name; break; }
			f = it->second.get();
		}
		std::string data = name == "-" && usedIn ? "" : f->data; bool fault = f->dir || (f->badAt >= 0);
		if (name == "-") usedIn = true;
		if (f->dir) data.clear(); else if (f->badAt >= 0) data.resize(std::min(data.size(), (size_t) f->badAt));
		std::string prefix = names.size() < 2 ? "" : name == "-" ? "(stdin): " : name + ": ";
		if (!bad) for (auto& l : Split(data, !fault)) { bool v = matches(l); Count(v ? "reach.line_printed" : "reach.line_skipped"); if (v) want += prefix + l + "\n"; }
		if (fault) { inputFault = true; Count("reach.input_fault"); break; }
	}
	std::vector<std::string> args(1, "pigrep"), opts;
	if (o.icase) opts.push_back("-i"); if (o.utf8) opts.push_back("-u"); if (o.andnot) opts.push_back("-x");
	Shuffle(opts); size_t cut = Draw(opts.size() + 1);
	args.insert(args.end(), opts.begin(), opts.begin() + cut);
	if (pat.empty() || pat[0] == '-' || Draw(2)) args.push_back("-e");
	args.push_back(pat);
	args.insert(args.end(), opts.begin() + cut, opts.end());
	args.insert(args.end(), names.begin(), names.end());
	m.Start(); m.grain = Draw(2) ? 1 + Draw(20) : 0;
	bool outFault = Draw(6) == 5, alloc = !outFault && Draw(6) == 5;
	if (outFault) { m.outRoom = Draw(want.size() + 2); outFault = (size_t) m.outRoom < want.size(); }
	if (alloc) HeapFailArm(1 + Draw(Draw(2) ? 40 : 600), Draw(2));
	Result r = Launch(PigrepMain, args);
	bool failed = alloc && HeapFailed(); if (failed) Count("fault.alloc_failed");
	Cover(Mix(Mix(HashStr(want), HashStr(r.err)), r.code));
	if (bad) {
		SIM_CHECK(r.code != 0 && r.out.empty(), "bad-pattern-accepted", "pigrep /%s/ ended with %d and \"%s\"", re::Show(pat).c_str(), r.code, re::Show(r.out).c_str());
		SIM_CHECK(!r.err.empty() || failed, "silent", "pigrep did not say what is wrong with /%s/", re::Show(pat).c_str());
		Count("reach.bad_pattern"); return;
	}
	SIM_CHECK(IsPrefix(r.out, want), "wrong-lines", "pigrep /%s/%s printed \"%s\", expected \"%s\"", re::Show(pat).c_str(), wl::OptStr(o).c_str(), re::Show(r.out).c_str(), re::Show(want).c_str());
	if (r.code == 0) {
		SIM_CHECK(!inputFault, "fault-unreported", "pigrep reported success though it could not read everything");
		SIM_CHECK(r.out == want, failed || outFault ? "fault-unreported" : "lines-missing", "pigrep reported success and printed \"%s\", expected \"%s\"", re::Show(r.out).c_str(), re::Show(want).c_str());
		Count("reach.success");
	} else {
		SIM_CHECK(inputFault || outFault || failed, "needless-failure", "pigrep failed without a reason: %s", re::Show(r.err).c_str());
		SIM_CHECK(!r.err.empty() || failed, "silent", "pigrep failed without saying so");
		if (!failed && !outFault) {
			SIM_CHECK(r.out == want, "lines-missing", "pigrep stopped at a file it could not read, after \"%s\", expected \"%s\"", re::Show(r.out).c_str(), re::Show(want).c_str());
			SIM_CHECK(culprit.empty() || r.err.find(culprit) != std::string::npos, "wrong-name", "\"%s\" does not name the file %s", re::Show(r.err).c_str(), culprit.c_str());
		}
		Count("reach.failure");
	}
	if (outFault && !inputFault) SIM_CHECK(r.code != 0, "fault-unreported", "pigrep reported success though its output was lost");
}

// ---------------------------------------------------------------- blacklist

typedef std::vector<std::string> Dict;
bool Listed(const std::string& url, const Dict& d) {
	std::vector<size_t> from(1, 0), starts; size_t i = 0, n = url.size();
	while (i < n && url[i] >= 'a' && url[i] <= 'z') ++i;
	if (i > 0 && url.compare(i, 3, "://") == 0) from.push_back(i + 3);
	std::set<size_t> at;
	for (size_t b : from) {
		at.insert(b);
		for (size_t p = b; p < n; ) { size_t e = p; while (e < n && (isalnum((unsigned char) url[e]) || url[e] == '-')) ++e; if (e == p || e >= n || url[e] != '.') break; p = e + 1; at.insert(p); }
	}
	for (size_t b : at) for (auto& x : d) if (url.compare(b, x.size(), x) == 0) { size_t e = b + x.size(); if (e == n || (e < n && url[e] == '/')) return true; }
	return false;
}
std::string Word(size_t max) {
	static const char abc[] = "ab-.cz*(\xE9"; std::string s;
	for (size_t k = 1 + Draw(max); k > 0; --k) s += abc[Draw(3) ? Draw(2) : Draw(sizeof(abc) - 1)];
	return s;
}
std::string Url(const Dict& d) {
	std::string s;
	if (Draw(3) == 2) s += Draw(4) == 3 ? Word(2) + "://" : std::string(1 + Draw(2), 'a' + Draw(2)) + "://";
	for (size_t k = Draw(3); k > 0; --k) s += (Draw(6) == 5 ? Word(2) : std::string(1 + Draw(2), "ab-Z0"[Draw(5)])) + ".";
	if (!d.empty() && Draw(5)) s += Pick(d); else s += Word(4);
	if (Draw(2)) { s += Draw(6) == 5 ? "." : "/"; if (Draw(2)) s += Word(5); }
	return s;
}
const char* Blank() { static const char* const b[] = { "\n", "\n", " ", "\n\n", "\t", "\r\n" }; return b[Draw(6)]; }

void Blacklist(Machine& m) {
	const std::string file = "dict"; Dict current, pending; bool valid = false, torn = false; std::string garbage;
	size_t steps = 1 + Draw(4);
	for (size_t step = 0; step < steps + 1; ++step) {
		bool gen = step == 0 || Draw(3) == 0;
		m.Start(); m.grain = Draw(2) ? 1 + Draw(20) : 0; m.in.badAt = -1; m.diskRoom = -1;
		m.in.data.clear();
		if (gen) {
			Dict d; for (size_t k = Draw(5); k > 0; --k) d.push_back(Word(4));
			for (auto& x : d) { m.in.data += x + Blank(); }
			if (!d.empty() && Draw(3) == 2) while (isspace((unsigned char) m.in.data[m.in.data.size() - 1])) m.in.data.resize(m.in.data.size() - 1);
			unsigned fault = Draw(10); std::string where = file; bool crash = false, alloc = false;
			switch (fault) {
			case 5: where = "!no/dict"; break;
			case 6: m.in.badAt = Draw(m.in.data.size() + 1); break;
			case 7: m.diskRoom = Draw(3) ? Draw(12000) : Draw(600); break;
			case 8: m.writesLeft = Draw(24); crash = true; break;
			case 9: alloc = true; break;
			}
			if (alloc) HeapFailArm(1 + Draw(3000), Draw(2));
			std::vector<std::string> a = { "/bin/blacklist", "-g", "-d", where }; if (Draw(2)) a = { "blacklist", "-d", where, "-g" };
			Result r = Launch(BlacklistMain, a);
			bool failed = alloc && HeapFailed(); if (failed) Count("fault.alloc_failed");
			Cover(Mix(HashStr(m.in.data), Mix(fault, r.code)));
			if (crash && m.dead) {
				Count("fault.crash"); std::string& data = m.files[file]->data;
				if (Draw(2)) { size_t keep = Draw(data.size() + 1); if (keep < data.size()) { data.resize(keep); Count("fault.lost_tail"); } }
				pending = d; torn = true; Log("crash: %zu bytes of the dictionary survive", data.size());
				continue;
			}
			if (r.code == 0) {
				SIM_CHECK(where == file, "fault-unreported", "a dictionary was written to a file that could not be opened");
				SIM_CHECK(m.in.badAt < 0, "fault-unreported", "a dictionary was made though the list could not be read");
				SIM_CHECK(!m.failedOps, "fault-unreported", "blacklist reported success though the dictionary could not be written");
				current = d; valid = true; torn = false; Count("reach.generated");
			} else {
				SIM_CHECK(fault >= 5 && (m.failedOps || failed), "needless-failure", "blacklist -g failed without a reason: %s", re::Show(r.err).c_str());
				SIM_CHECK(!r.err.empty() || failed, "silent", "blacklist -g failed without saying so");
				Count("reach.generate_failed");
				if (where == file) { pending = d; torn = true; }   // what it left there is part of the new one, or still the old one
			}
			continue;
		}
		for (size_t k = 1 + Draw(6); k > 0; --k) m.in.data += Url(!torn ? current : Draw(2) ? pending : current) + (k > 1 || Draw(2) ? Blank() : "");
		unsigned fault = Draw(9); bool alloc = false;
		switch (fault) {
		case 4: m.mapFault = 1 + Draw(2); break;
		case 5: m.in.badAt = Draw(m.in.data.size() + 1); break;
		case 6: m.outRoom = Draw(40); break;
		case 7: if (Draw(2)) alloc = true; break;
		case 8: if (m.files.count(file) && Draw(2)) { std::string& d = m.files[file]->data; if (Draw(2) && !d.empty()) { d.resize(Draw(d.size())); Count("fault.dictionary_cut"); } else { d = "domains\n" + std::string(Draw(300), 'x'); Count("fault.not_a_dictionary"); } valid = torn = false; garbage = d; } break;
		}
		auto expect = [&](const Dict& d) {
			std::string data = m.in.data; if (m.in.badAt >= 0) data.resize(std::min(data.size(), (size_t) m.in.badAt));
			std::string w, url; std::istringstream s(data);
			while (s >> url) { if (m.in.badAt >= 0 && s.eof()) break; bool v = Listed(url, d); Count(v ? "reach.listed" : "reach.not_listed"); if (v) w += url + "\n"; }
			return w;
		};
		if (alloc) HeapFailArm(1 + Draw(60), Draw(2));
		Result r = Launch(BlacklistMain, { "./blacklist", "-u", "-d", file });
		bool failed = alloc && HeapFailed(); if (failed) Count("fault.alloc_failed");
		std::vector<std::string> wants; if (valid) wants.push_back(expect(current)); if (torn) wants.push_back(expect(pending));
		Cover(Mix(HashStr(m.in.data), Mix(HashStr(r.out), r.code)));
		bool any = r.out.empty();
		for (auto& w : wants) if (r.code == 0 ? r.out == w : IsPrefix(r.out, w)) any = true; else if (r.code == 0 && !torn) any = false;
		if (r.code == 0) {
			any = false; for (auto& w : wants) any |= r.out == w;
			SIM_CHECK(!wants.empty(), "bad-dictionary-used", "blacklist used a dictionary that is none");
			SIM_CHECK(any, "wrong-urls", "blacklist printed \"%s\" of \"%s\", expected \"%s\"", re::Show(r.out).c_str(), re::Show(m.in.data).c_str(), re::Show(wants.back()).c_str());
			SIM_CHECK(m.in.badAt < 0, "fault-unreported", "blacklist reported success though it could not read everything");
			Count("reach.filtered"); if (torn) Count("reach.survived_crash");
		} else {
			SIM_CHECK(any, "wrong-urls", "blacklist printed \"%s\" before it failed", re::Show(r.out).c_str());
			SIM_CHECK(m.failedOps || failed || torn || !valid, "needless-failure", "blacklist -u failed without a reason: %s", re::Show(r.err).c_str());
			SIM_CHECK(!r.err.empty() || failed, "silent", "blacklist -u failed without saying so");
			Count(torn ? "reach.torn_refused" : "reach.use_failed");
		}
		if (m.outRoom >= 0 && r.code == 0 && !wants.empty()) SIM_CHECK(r.out == wants.back() || torn, "fault-unreported", "output was lost");
	}
}

void Run20() {
	HeapSetGarbage((unsigned char) Draw(256));
	Machine m; M = &m;
	world::Region pages(0x7d0000000000ull, 64); m.pages = &pages;
	if (Draw(2)) for (size_t k = 1 + Draw(2); k > 0; --k) Pigrep(m);
	else Blacklist(m);
}

Property p20("P20", Run20, wl::WarmLibrary);

}

// P18: pire_inline embeds, for every PIRE_REGEXP() of a source file, the scanner the library would build at run
// time, passes everything else through, and never claims success for a job it could not do.
// The tool's own main() runs in a child process of the run, on simulated files (cookie streams) whose transfers,
// errors and space are planned by the run before the child is forked.
#include "common.h"
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <signal.h>
#include <unistd.h>
#include <errno.h>
using namespace sim;

int PireInlineMain(int argc, char** argv);
FILE* SimFopen(const char* path, const char* mode);

namespace {

// ------------------------------------------------------------------ the simulated files
struct Plan {
	std::vector<unsigned> reads;                 // sizes of the transfers, used in turn
	long readFail = -1, writeFail = -1;          // the transfer that would pass this offset fails
	bool failAtEof = false;                      // the read that should report the end of the file fails instead
	bool closeFails = false, openInFails = false, openOutFails = false;
	uint64_t allocFail = 0; bool allocKeeps = false;
	size_t buffer = 0;                           // stdio buffer (0: the C library's choice)
};
static const size_t MaxOut = 4u << 20, MaxErr = 4096;
struct Shared {                                  // what the parent sees of the child
	size_t outSize, errSize, reads, writes;
	char readErr, writeErr, closeErr, openErr, allocErr, exited, runaway;
	char err[MaxErr]; char out[MaxOut];
};
static Shared* sh;
static const Plan* plan; static std::string inName, outName; static const std::string* input; static size_t inPos;

static ssize_t ReadIn(void*, char* buf, size_t n) {
	size_t left = input->size() - inPos, c = plan->reads[sh->reads++ % plan->reads.size()];
	if (c > n) c = n;
	if (c > left) c = left;
	if ((plan->readFail >= 0 && (long) (inPos + c) > plan->readFail) || (!left && plan->failAtEof)) { sh->readErr = 1; errno = EIO; return -1; }
	memcpy(buf, input->data() + inPos, c); inPos += c;
	return (ssize_t) c;
}
static ssize_t WriteOut(void*, const char* buf, size_t n) {
	size_t c = n; ++sh->writes;                  // (the C library itself repeats short writes before a cookie could see them)
	if (plan->writeFail >= 0 && (long) (sh->outSize + n) > plan->writeFail) {
		c = (long) sh->outSize < plan->writeFail ? (size_t) plan->writeFail - sh->outSize : 0;
		sh->writeErr = 1; errno = ENOSPC;
	}
	if (sh->outSize + c > MaxOut) { sh->runaway = 1; _exit(98); }
	memcpy(sh->out + sh->outSize, buf, c); sh->outSize += c;
	return (ssize_t) c;
}
static int CloseOut(void*) { if (plan->closeFails) { sh->closeErr = 1; errno = EIO; return -1; } return 0; }
static ssize_t WriteErr(void*, const char* buf, size_t n) {
	size_t c = n < MaxErr - sh->errSize ? n : MaxErr - sh->errSize;
	memcpy(sh->err + sh->errSize, buf, c); sh->errSize += c;
	return (ssize_t) n;
}
static FILE* Cookie(const char* mode, cookie_io_functions_t f, bool unbuffered = false) {
	FILE* r = fopencookie(nullptr, mode, f);
	if (unbuffered) setvbuf(r, nullptr, _IONBF, 0);
	else if (plan->buffer) setvbuf(r, nullptr, _IOFBF, plan->buffer);
	return r;
}
static FILE* InFile() { cookie_io_functions_t f = { ReadIn, nullptr, nullptr, nullptr }; return Cookie("r", f); }
static FILE* OutFile() { cookie_io_functions_t f = { nullptr, WriteOut, nullptr, CloseOut }; return Cookie("w", f); }

struct Result { bool crashed; int code; int sig; bool hang; std::string out, err; bool fault; };

static Result Tool(const std::string& src, const Plan& p, bool fromStdin, bool toStdout) {
	if (!sh) { sh = (Shared*) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); SIM_CHECK(sh != MAP_FAILED, "harness", "mmap"); }
	memset(sh, 0, offsetof(Shared, err));
	plan = &p; input = &src; inPos = 0;
	std::vector<std::string> args; args.push_back("pire_inline");
	if (!toStdout) { args.push_back("-o"); args.push_back(outName); }
	if (!fromStdin) args.push_back(inName);
	std::vector<char*> argv; for (auto& a : args) argv.push_back(&a[0]);
	size_t argc = argv.size(); argv.push_back(nullptr);
	pid_t pid = fork();
	SIM_CHECK(pid >= 0, "harness", "fork");
	if (!pid) {
		for (int s : { SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL, SIGVTALRM }) signal(s, SIG_DFL);
		itimerval tv = {}; tv.it_value.tv_sec = 8; setitimer(ITIMER_VIRTUAL, &tv, nullptr);
		cookie_io_functions_t ef = { nullptr, WriteErr, nullptr, nullptr };
		stderr = Cookie("w", ef, true);
		if (fromStdin) stdin = InFile();
		if (toStdout) stdout = OutFile();
		LibScope l;
		if (p.allocFail) HeapFailArm(p.allocFail, p.allocKeeps);
		atexit([] { sh->exited = 1; sh->allocErr = HeapFailed() > 0; });
		exit(PireInlineMain((int) argc, argv.data()));
	}
	int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
	Result r; r.hang = (WIFSIGNALED(st) && WTERMSIG(st) == SIGVTALRM) || sh->runaway;
	r.code = WIFEXITED(st) ? WEXITSTATUS(st) : -1; r.sig = WIFSIGNALED(st) ? WTERMSIG(st) : 0;
	r.crashed = !r.hang && (!sh->exited || r.sig);
	r.out.assign(sh->out, sh->outSize); r.err.assign(sh->err, sh->errSize);
	r.fault = sh->readErr || sh->writeErr || sh->closeErr || sh->openErr || sh->allocErr;
	if (sh->readErr) Count("fault.read_error");
	if (sh->writeErr) Count("fault.write_failed");
	if (sh->closeErr) Count("fault.close_failed");
	if (sh->openErr) Count("fault.open_failed");
	if (sh->allocErr) Count("fault.alloc_failed");
	Log("  the tool %s %d after %zu reads and %zu writes: %zu bytes, said \"%s\"%s", r.hang ? "hung" : r.sig ? "died with signal" : "returned", r.sig ? r.sig : r.code, sh->reads, sh->writes, r.out.size(), re::Show(r.err.substr(0, 120)).c_str(), r.fault ? " (fault met)" : "");
	return r;
}

// ------------------------------------------------------------------ source files
struct Pat { std::string text, flags; re::P ast; re::Opts o; bool surround, greedy, reverse; };
struct Seg { std::string src; std::vector<Pat> pats; bool macro; };

static std::string Newline(bool crlf) { return crlf && Draw(4) == 3 ? "\r\n" : "\n"; }
static std::string BlockComment(bool crlf) {
	std::string s = "/*"; size_t n = Draw(6);
	static const char* const bits[] = { " a", "*", "**", "\"", "'", "//", "* ", "*x", "/", "PIRE_REGEXP(\"a\", \"\")", "\\", "***\n", ";" };
	for (size_t i = 0; i < n; ++i) {
		size_t k = Draw(16);
		std::string b = k < 13 ? bits[k] : Newline(crlf);
		if (s.size() > 2 && s.back() == '*' && b[0] == '/') b = " " + b;
		if (s.size() == 2 && b[0] == '/') b = " " + b;    // (a comment that reads as closed to a careless eye is not the point)
		s += b;
	}
	return s + (Draw(3) == 2 ? "**/" : "*/");
}
static std::string LineComment(bool crlf) {
	std::string s = "//"; size_t n = Draw(5);
	static const char* const bits[] = { " a", "\"", "'", "/*", "*/", "/", " PIRE_REGEXP(\"a\", \"\")", "\\a", "\\\n  b \"" };
	for (size_t i = 0; i < n; ++i) s += bits[Draw(9)];
	return s + Newline(crlf);
}
static std::string String() {
	std::string s = "\""; size_t n = Draw(5);
	static const char* const bits[] = { "a", "\\\"", "\\\\", "//", "/*", "*/", "'", "PIRE_REGEXP(", "\\n", " ", ")", ",", "%s", "\\\n" };
	for (size_t i = 0; i < n; ++i) s += bits[Draw(14)];
	return s + "\"";
}
static std::string Text(size_t n, bool crlf) {
	std::string s;
	static const char* const words[] = { "foo", "x1", "int", "PIRE_REGEXP;", "XPIRE_REGEXP(", "PIRE_REGEXPS(a", "PIRE_REGEXP_2(", "0x1F", "12.5e3", "1'000'000", "%", "%s%n", "\\\n", "#define A PIRE_REGEXP x\n", "#include <a.h>\n", "'\"'", "'\\''", "'\\\\'", "'a'", "L'/'", "u8\"a\"", "\xD0\xB6", "PIRE", "_" };
	static const char* const puncts[] = { "+", "-", "* ", "=", ";", ",", "{", "}", "(", ")", "<", ">", "[", "]", ":", "?", "!", "&", "|", "~", ".", "/ 2", "%" };
	for (size_t i = 0; i < n; ++i) {
		switch (Draw(8)) {
		case 0: case 1: s += words[Draw(24)]; s += " "; break;
		case 2: s += puncts[Draw(23)]; break;
		case 3: s += " "; s += String(); break;
		case 4: s += " "; s += BlockComment(crlf); break;
		case 5: s += " "; s += LineComment(crlf); break;
		case 6: s += Newline(crlf); break;
		default: s += Draw(2) ? "\t" : "  "; break;
		}
	}
	return s;
}
static std::string Gap(bool crlf) {
	std::string s; size_t n = Draw(3);
	for (size_t i = 0; i < n; ++i)
		switch (Draw(6)) { case 0: case 1: s += " "; break; case 2: s += "\t"; break; case 3: s += Newline(crlf); break; case 4: s += BlockComment(crlf); break; default: s += Draw(8) == 7 ? "\\\n" : LineComment(crlf); break; }
	return s;
}
// Writes bytes as string literals of C++.
static std::string Literals(const std::string& t, bool crlf, bool escapes = true) {
	std::string s = "\"";
	for (size_t i = 0; i < t.size(); ++i) {
		unsigned char c = (unsigned char) t[i]; char b[8];
		size_t how = escapes ? Draw(12) : 0;
		bool nextHex = i + 1 < t.size() && isxdigit((unsigned char) t[i + 1]), nextOct = i + 1 < t.size() && t[i + 1] >= '0' && t[i + 1] <= '7';
		if (how == 11 && !nextHex && c) { snprintf(b, sizeof b, Draw(2) ? "\\x%02X" : "\\x%x", c); s += b; }
		else if (how == 10 || c == 0) { snprintf(b, sizeof b, nextOct || Draw(2) ? "\\%03o" : "\\%o", c); s += b; }
		else if (c == '\n') s += "\\n";
		else if (c == '\t') s += Draw(2) ? "\\t" : "\t";
		else if (c == '"' || c == '\\') { s += '\\'; s += (char) c; }
		else if (c == '\'') s += Draw(2) ? "\\'" : "'";
		else if (c == '\r') s += "\\015";
		else s += (char) c;
		if (escapes && Draw(24) == 23) s += "\"" + Gap(crlf) + "\"";
		else if (escapes && Draw(64) == 63) s += "\\\n";
	}
	return s + "\"";
}
static Pat DrawPat() {
	Pat p; p.o = wl::DrawOpts(); p.o.glyphs = p.o.nul = false;
	if (p.o.depth > 2) p.o.depth = 2;
	p.o.maxRep = 2;
	p.ast = wl::DrawPattern(p.o, 12); p.text = re::Render(p.ast, p.o);
	p.surround = p.greedy = p.reverse = false;
	size_t m = Draw(6);
	if (m < 3) p.surround = true; else if (m == 5) p.greedy = true;
	p.reverse = Draw(6) == 5;
	if (p.o.icase) p.flags += 'i';
	if (p.o.utf8) p.flags += 'u';
	if (p.o.andnot) p.flags += 'a';
	if (p.surround) p.flags += 's';
	if (p.greedy) p.flags += 'g';
	if (p.reverse) p.flags += 'r';
	for (size_t i = p.flags.size(); i > 1; --i) std::swap(p.flags[i - 1], p.flags[Draw(i)]);
	return p;
}
static Seg Macro(size_t n, bool crlf) {
	Seg s; s.macro = true; s.src = "PIRE_REGEXP";
	if (Draw(4) == 3) s.src += Draw(3) == 2 ? "\n" : " ";
	s.src += "(";
	for (size_t i = 0; i < n; ++i) {
		Pat p = DrawPat();
		s.src += (i ? "," : "") + Gap(crlf) + Literals(p.text, crlf) + Gap(crlf) + "," + Gap(crlf) + Literals(p.flags, crlf, Draw(4) == 3) + Gap(crlf);
		s.pats.push_back(p);
	}
	s.src += ")";
	return s;
}

// ------------------------------------------------------------------ reading the tool's output
struct Reader {
	const std::string& s; size_t p; long line; std::string file;
	explicit Reader(const std::string& t): s(t), p(0), line(1) {}
	bool At(const char* t) const { return s.compare(p, strlen(t), t) == 0; }
	// the preprocessor joins lines that end in a backslash; gcc does so even with blanks behind it
	size_t Splice() const {
		if (p >= s.size() || s[p] != '\\') return 0;
		size_t q = p + 1; while (q < s.size() && (s[q] == ' ' || s[q] == '\t' || s[q] == '\r')) ++q;
		return q < s.size() && s[q] == '\n' ? q + 1 - p : 0;
	}
	void Skip(size_t n) { for (; n; --n, ++p) if (s[p] == '\n') ++line; }
	void Directives() {
		while (At("#line ") && (!p || s[p - 1] == '\n')) {
			p += 6; char* e; long n = strtol(s.c_str() + p, &e, 10); p = e - s.c_str();
			while (p < s.size() && s[p] == ' ') ++p;
			std::string f; bool ok = p < s.size() && s[p] == '"';
			for (++p; ok && p < s.size() && s[p] != '"'; ++p) { if (s[p] == '\\' && p + 1 < s.size()) ++p; f += s[p]; }
			++p; while (p < s.size() && s[p] == ' ') ++p;
			SIM_CHECK(ok && p < s.size() && s[p] == '\n', "bad-output", "a #line directive is not well formed");
			++p; line = n; file = f;
		}
	}
	void Space(bool comments) {
		for (;;) {
			if (p < s.size() && isspace((unsigned char) s[p])) Skip(1);
			else if (size_t n = Splice()) Skip(n);
			else if (comments && At("//")) { while (p < s.size() && s[p] != '\n') { if (size_t n = Splice()) Skip(n); else ++p; } }
			else if (comments && At("/*")) { size_t e = s.find("*/", p + 2); SIM_CHECK(e != std::string::npos, "bad-output", "a comment in the output is not closed"); Skip(e + 2 - p); }
			else return;
		}
	}
	void Token(const char* t) { Space(true); SIM_CHECK(At(t), "bad-output", "where %s is expected for a PIRE_REGEXP() the output has \"%s\"", t, re::Show(s.substr(p, 40)).c_str()); p += strlen(t); }
	std::string Strings() {
		std::string r; bool any = false;
		for (Space(true); p < s.size() && s[p] == '"'; Space(true)) {
			any = true; ++p;
			while (p < s.size() && s[p] != '"') {
				if (size_t n = Splice()) { Skip(n); continue; }
				SIM_CHECK(s[p] != '\n', "bad-output", "a string literal in the output is not closed");
				if (s[p] != '\\') { r += s[p++]; continue; }
				++p;
				if (s[p] == 'x') { ++p; unsigned v = 0; size_t d = 0; while (p < s.size() && isxdigit((unsigned char) s[p])) { v = v * 16 + (isdigit((unsigned char) s[p]) ? s[p] - '0' : (s[p] | 32) - 'a' + 10); ++p; ++d; } SIM_CHECK(d && v < 256, "bad-output", "a character escape is out of range"); r += (char) v; }
				else if (s[p] >= '0' && s[p] <= '7') { unsigned v = 0; for (int d = 0; d < 3 && s[p] >= '0' && s[p] <= '7'; ++d) v = v * 8 + (s[p++] - '0'); SIM_CHECK(v < 256, "bad-output", "a character escape is out of range"); r += (char) v; }
				else { const char* e = strchr("n\nt\tr\ra\ab\bf\fv\v\\\\\"\"''??", s[p]); SIM_CHECK(e, "bad-output", "an unknown escape sequence in the output"); r += e[1]; ++p; }
			}
			++p;
		}
		SIM_CHECK(any, "bad-output", "there is no string literal in the expression for a PIRE_REGEXP()");
		return r;
	}
};

static sc::ScannerP Expected(const Pat& p) {
	LibScope l;
	Pire::Fsm f; { HarnessScope h; f = sc::Parse(p.text, p.o, false); }
	if (p.reverse) f.Reverse();
	if (p.greedy) f = ~f.Surrounded() + f;
	else if (p.surround) f.Surround();
	HarnessScope h;
	return sc::CompileFsm(sc::KScanner, f);
}

static void Verify(const std::string& out, const std::vector<Seg>& segs, const std::string& file, world::Mapping& map) {
	Reader r(out); long line = 1; size_t macros = 0;
	r.Directives();
	for (auto& s : segs) {
		SIM_CHECK(r.line == line, "wrong-line", "text from line %ld is said to come from line %ld", line, r.line);
		SIM_CHECK(r.file == file, "wrong-file", "text is said to come from %s", r.file.c_str());
		if (!s.macro) {
			size_t i = 0; while (i < s.src.size() && r.p + i < out.size() && out[r.p + i] == s.src[i]) ++i;
			SIM_CHECK(i == s.src.size(), "text-changed", "behind \"%s\" the source has \"%s\", the output has \"%s\"", re::Show(s.src.substr(i > 12 ? i - 12 : 0, i > 12 ? 12 : i)).c_str(), re::Show(s.src.substr(i, 20)).c_str(), re::Show(out.substr(r.p + i, 20)).c_str());
			r.Skip(s.src.size());
		} else {
			++macros;
			r.Token("Pire"); r.Token("::"); r.Token("MmappedScanner"); r.Token("<"); r.Token("Pire"); r.Token("::"); r.Token("Scanner"); r.Token(">"); r.Token("(");
			r.Token("PIRE_LITERAL"); r.Token("(");
			std::string image = r.Strings();
			r.Token(")"); r.Token(","); r.Space(true);
			char* e; unsigned long n = strtoul(out.c_str() + r.p, &e, 10); SIM_CHECK(e != out.c_str() + r.p, "bad-output", "no size for the literal");
			r.p = e - out.c_str(); r.Token(")");
			size_t p = r.p; long l = r.line; r.Space(false);
			if (r.At("#line ")) r.Directives(); else { r.p = p; r.line = l; }
			SIM_CHECK(n <= image.size() + 1, "bad-output", "the literal has %zu bytes, the size says %lu", image.size(), n);
			sc::ScannerP got = sc::Default(sc::KScanner), want;
			image.resize(n);
			std::string shown;
			for (auto& q : s.pats) { sc::ScannerP one = Expected(q); if (want) want = want->GlueWith(*one, 0); else want.swap(one); shown += " /" + re::Show(q.text) + "/" + q.flags; }
			const char* at = map.Put(image, 0, false); map.R().Writable(false);
			try { got->Mmap(at, image.size()); } catch (const Pire::Error& x) { Fail("bad-image", "the embedded scanner cannot be mapped: %s (patterns%s)", x.what(), shown.c_str()); }
			SIM_CHECK(got->RegexpsCount() == want->RegexpsCount() && got->Empty() == want->Empty(), "wrong-scanner", "the embedded scanner has %zu patterns, %zu were written", got->RegexpsCount(), want->RegexpsCount());
			for (size_t t = 0; t < 2 + 3 * s.pats.size(); ++t) {
				auto& q = s.pats[Draw(s.pats.size())];
				std::string text = re::GenText(q.ast, q.o, 40);
				if (q.reverse && Draw(2)) text.assign(text.rbegin(), text.rend());
				std::vector<sc::Obs> a, b; bool marks = Draw(4) != 3;
				sc::Watch(*got, text, marks, a); sc::Watch(*want, text, marks, b);
				for (size_t k = 0; k < a.size(); ++k) SIM_CHECK(a[k] == b[k], "wrong-scanner", "on \"%s\" the embedded scanner says %s, one built at run time from%s says %s", re::Show(text).c_str(), sc::ShowObs(a[k]).c_str(), shown.c_str(), sc::ShowObs(b[k]).c_str());
				Cover(Mix(HashStr(shown), HashStr(text)));
				if (a.back().size() && a.back()[0]) Count("reach.match");
			}
			Count("reach.embedded");
			if (s.pats.size() > 1) Count("reach.embedded_several");
		}
		for (char c : s.src) line += c == '\n';
	}
	SIM_CHECK(r.p == out.size(), "text-added", "the output goes on with \"%s\"", re::Show(out.substr(r.p, 40)).c_str());
}

static Plan DrawPlan() {
	Plan p;
	size_t n = 1 + Draw(4), big = Draw(3);
	for (size_t i = 0; i < n; ++i) p.reads.push_back(big == 2 ? 65536 : 1 + (unsigned) Draw(big ? 200 : 12));
	p.buffer = Draw(2) ? 16 + Draw(200) : 0;
	return p;
}

// A source text the tool must refuse, and why.
static std::string Broken(std::string& why, bool crlf) {
	std::string head = Text(Draw(6), crlf) + " ", tail = Text(Draw(4), crlf) + "\n", in = "PIRE_REGEXP(";
	switch (Draw(14)) {
	case 0: why = "pattern without flags"; in += "\"a\")"; break;
	case 1: why = "no arguments"; in += ")"; break;
	case 2: why = "unknown flag"; in += "\"a\", \"" + std::string(Draw(2) ? "i" : "") + "qzxb"[Draw(4)] + "\")"; break;
	case 3: { static const char* const bad[] = { "(a", "a)", "[a", "a{2,1}", "a{3", "*a", "a\\\\", "a{1" }; why = "invalid pattern"; in += std::string(Draw(2) ? "\"b\", \"\", " : "") + "\"" + bad[Draw(8)] + "\", \"\")"; break; }
	case 4: why = "greedy and surround"; in += Draw(2) ? "\"a\", \"gs\")" : "\"a\", \"sig\")"; break;
	case 5: why = "file ends inside PIRE_REGEXP("; in += "\"a\""; if (Draw(2)) in += ", \"i\""; tail = Gap(false); break;
	case 6: why = "an argument that is no string"; in += std::string(Draw(2) ? "foo, \"i\")" : Draw(2) ? "\"a\", 0)" : "\"a\" + x, \"\")"); break;
	case 7: why = "file ends inside a comment"; in = "/* a" + std::string(Draw(2) ? " *" : "") + (Draw(2) ? "\n" : ""); tail = ""; break;
	case 8: why = "file ends inside a comment inside PIRE_REGEXP("; in += "\"a\", /* x"; tail = Draw(2) ? " **" : ""; break;
	case 9: why = "file ends inside a string"; in += "\"abc"; tail = Draw(2) ? "\\\"" : ""; break;
	case 10: why = "unknown escape sequence"; in += "\"a\\qb\", \"\")"; break;
	case 11: why = "pattern is not valid UTF-8"; in += "\"a\xFF\", \"u\")"; break;
	case 12: why = "hexadecimal escape without digits"; in += "\"a\\xg\", \"\")"; break;
	default: why = "third argument alone"; in += "\"a\", \"\", \"b\")"; break;
	}
	return head + in + tail;
}

void Run18() {
	HeapSetGarbage((unsigned char) Draw(256));
	if (Draw(512) == 511) { // patterns whose scanner would have more states than the library glues
		std::string src = "PIRE_REGEXP(\"[ab].{9}x\", \"s\", \"[ac].{9}y\", \"s\")\n";
		Count("reach.too_complex"); inName = "a.cpp"; outName = "out.cpp"; Plan p = DrawPlan(); Result r = Tool(src, p, false, false);
		SIM_CHECK(!r.crashed && !r.hang, "crash", "the tool crashed (code %d, signal %d)", r.code, r.sig);
		SIM_CHECK(r.code != 0 && !r.err.empty(), "bad-source-accepted", "the tool reports success for patterns too complex to be glued");
		return;
	}
	world::Mapping map(0x2c0000000000ull, 1200);
	static const char* const names[] = { "a.cpp", "dir/rx.cc", "my file.cpp" };
	bool fromStdin = Draw(4) == 3, toStdout = Draw(4) == 3;
	inName = names[Draw(3)]; outName = "out.cpp";
	std::string file = fromStdin ? "(stdin)" : inName;
	bool crlf = Draw(6) == 5;
	if (Draw(4) == 3) {
		std::string why, src = Broken(why, crlf);
		Log("source (%s): \"%s\"", why.c_str(), re::Show(src).c_str());
		Count("fault.broken_source");
		Plan p = DrawPlan(); Result r = Tool(src, p, fromStdin, toStdout);
		SIM_CHECK(!r.hang, "hang", "the tool does not come to an end: %s", why.c_str());
		SIM_CHECK(!r.crashed, "crash", "the tool crashed (code %d, signal %d): %s", r.code, r.sig, why.c_str());
		SIM_CHECK(r.code != 0, "bad-source-accepted", "the tool reports success: %s", why.c_str());
		SIM_CHECK(!r.err.empty(), "silent-failure", "the tool says nothing: %s", why.c_str());
		Cover(Mix(HashStr(src), 1));
		return;
	}
	std::vector<Seg> segs; std::string src; size_t macros = Draw(4), texts = 0;
	auto text = [&](std::string s) { Seg g; g.macro = false; g.src = s; segs.push_back(g); ++texts; };
	text(Text(Draw(8), crlf));
	for (size_t i = 0; i < macros; ++i) {
		static const char* const lead[] = { " ", "=", "(", "\n", ",", "\t" };
		segs.back().src += lead[Draw(6)];
		segs.push_back(Macro(1 + (Draw(3) == 2 ? 1 + Draw(2) : 0), crlf));
		std::string rest = Draw(2) ? ";" : " "; rest += Text(Draw(6), crlf);
		text(rest);
	}
	if (Draw(3) == 2) { // no newline at the end, maybe inside a comment
		std::string& s = segs.back().src;
		if (Draw(2)) { s += " // "; s += Draw(2) ? "\"" : "PIRE_REGEXP(\"a\", \"\")"; }
	} else segs.back().src += "\n";
	for (auto& s : segs) src += s.src;
	Log("source: \"%s\"", re::Show(src).c_str());
	Plan clean = DrawPlan(); Advance(1000);
	Result first = Tool(src, clean, fromStdin, toStdout);
	SIM_CHECK(!first.hang, "hang", "the tool does not come to an end");
	SIM_CHECK(!first.crashed, "crash", "the tool crashed (code %d, signal %d)", first.code, first.sig);
	SIM_CHECK(first.code == 0, "good-source-refused", "the tool refuses a valid source: \"%s\"", re::Show(first.err).c_str());
	Verify(first.out, segs, file, map);
	size_t more = 1 + Draw(3);
	for (size_t i = 0; i < more; ++i) {
		Plan p = DrawPlan(); bool in = fromStdin, out = toStdout;
		switch (Draw(9)) {
		case 0: p.readFail = (long) Draw(src.size() + 1); Log("plan: reading fails at %ld", p.readFail); break;
		case 1: p.failAtEof = true; Log("plan: the last read fails"); break;
		case 2: case 3: p.writeFail = Draw(2) ? (long) Draw(first.out.size() + 1) : (long) (first.out.size() - 1 - Draw(first.out.size() < 9 ? first.out.size() : 9)); Log("plan: room for %ld of %zu bytes", p.writeFail, first.out.size()); break;
		case 4: p.closeFails = true; Log("plan: closing the output fails"); break;
		case 5: if (Draw(2)) { p.openInFails = true; in = false; } else { p.openOutFails = true; out = false; } Log("plan: opening the %s fails", p.openInFails ? "input" : "output"); break;
		case 6: case 7: p.allocFail = 1 + Draw(Draw(2) ? 3000 : 100); p.allocKeeps = Draw(2); Log("plan: allocation %llu%s fails", (unsigned long long) p.allocFail, p.allocKeeps ? " and all later" : ""); break;
		default: Log("plan: other transfers"); break;
		}
		Advance(1000);
		Result r = Tool(src, p, in, out);
		SIM_CHECK(!r.hang, "hang", "the tool does not come to an end after a fault");
		if (r.code == 99) Fail("memory-error", "the tool accesses memory it must not");
		SIM_CHECK(!r.crashed || (r.sig == SIGABRT && p.allocFail), "crash", "the tool crashed (code %d, signal %d)", r.code, r.sig);
		if (r.code == 0) {
			bool io = r.fault && !p.allocFail;
			SIM_CHECK(!io, "failure-unreported", "the tool reports success though the input could not be read or the output not be written");
			if (file == (in ? "(stdin)" : inName)) SIM_CHECK(r.out == first.out, "other-output", "the same source gives another output");
			Count("reach.again");
		} else if (!r.crashed) SIM_CHECK(r.fault, "good-source-refused", "the tool refuses a valid source the second time: \"%s\"", re::Show(r.err).c_str());
		Cover(Mix(HashStr(src), Mix(p.readFail, Mix(p.writeFail, p.allocFail))));
	}
}

Property p18("P18", Run18, wl::WarmLibrary);

}

FILE* SimFopen(const char* path, const char* mode) {
	HarnessScope h;
	if (mode[0] == 'r') {
		if (plan->openInFails || inName != path) { sh->openErr = 1; errno = ENOENT; return nullptr; }
		return InFile();
	}
	if (plan->openOutFails || outName != path) { sh->openErr = 1; errno = EACCES; return nullptr; }
	return OutFile();
}

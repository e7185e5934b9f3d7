// A build of the library as the simulator sees it: the same interface over builds for different
// instruction sets, which are all linked into one process (each under a namespace of its own).
#pragma once
#include "sim.h"
#include "re.h"
#include <memory>

namespace node {

typedef std::vector<uint64_t> Obs;

struct State { virtual ~State() {} };
typedef std::unique_ptr<State> StateP;

struct Scanner {
	int kind = 0, build = 0;
	virtual ~Scanner() {}
	virtual StateP Start() const = 0;
	virtual void Step(State&, unsigned c) const = 0;
	virtual void Run(State&, const char* b, const char* e) const = 0;
	virtual Obs Observe(State&) const = 0;
	virtual const char* Find(int how, const char* b, const char* e, bool first, bool last) const = 0;   // longest, shortest prefix; longest, shortest suffix
	virtual bool CanFind() const = 0;
	virtual bool Mappable() const = 0;
	virtual bool Gluable() const = 0;
	virtual size_t Size() const = 0;
	virtual size_t RegexpsCount() const = 0;
	virtual bool Empty() const = 0;
	virtual void Save(std::ostream&) const = 0;
	virtual void Load(std::istream&) = 0;
	virtual const void* Mmap(const void* p, size_t n) = 0;
	virtual std::unique_ptr<Scanner> Copy() const = 0;
	virtual std::unique_ptr<Scanner> Glue(const Scanner& other) const = 0;
};
typedef std::unique_ptr<Scanner> ScannerP;

struct Spec { int kind; std::string pattern, sep; re::Opts o; bool surround; int capture; };

struct Build {
	const char* name; size_t word;
	virtual ScannerP Compile(const Spec&) const = 0;
	virtual ScannerP Default(int kind) const = 0;
	virtual void Warm() const = 0;
};
const Build& Sse2(); const Build& Mmx(); const Build& Portable();

}

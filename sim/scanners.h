// One interface over every scanner type of the library, so that workloads can mix them.
#pragma once
#include "sim.h"
#include "re.h"
#include "world.h"
#include <pire/pire.h>
#include <pire/easy.h>
#include <pire/extra/capture.h>
#include <pire/extra/count.h>
#include <pire/extra/glyphs.h>
#include <memory>
#include <new>

namespace sc {

enum KindId {
	KScanner, KNoMask, KNonreloc, KNonrelocNoMask, KSimple, KSlow,
	KHalf, KHalfNoMask, KHalfNonreloc, KHalfNonrelocNoMask,
	KCounting, KAdvanced, KNoGlue, KCapturing, KSlowCapturing, KKinds
};
extern const char* const Names[KKinds];

typedef std::vector<uint64_t> Obs;               // everything a caller can observe of a state

struct AnyState {
	virtual ~AnyState() {}
	virtual std::unique_ptr<AnyState> Clone() const = 0;
	virtual void Assign(const AnyState&) = 0;
	virtual bool Save(std::ostream&) const = 0;    // false: states of this kind cannot be saved
	virtual bool Load(std::istream&) = 0;
};
typedef std::unique_ptr<AnyState> StateP;

struct AnyScanner {
	KindId kind;
	virtual ~AnyScanner() {}
	virtual StateP NewState() const = 0;           // initialised
	virtual void Init(AnyState&) const = 0;
	virtual void Step(AnyState&, unsigned c) const = 0;
	virtual void Run(AnyState&, const char* b, const char* e) const = 0;
	virtual bool Final(const AnyState&) const = 0;
	virtual bool Dead(const AnyState&) const = 0;
	virtual Obs Observe(AnyState&) const = 0;      // final, dead, accepted ids, results
	virtual const char* Longest(const char* b, const char* e, bool tb, bool te) const = 0;
	virtual const char* Shortest(const char* b, const char* e, bool tb, bool te) const = 0;
	virtual const char* LongestSuf(const char* rb, const char* re, bool te, bool tb) const = 0;
	virtual const char* ShortestSuf(const char* rb, const char* re, bool te, bool tb) const = 0;
	virtual bool HasPrefixApi() const = 0;
	virtual bool Mappable() const = 0;
	virtual bool Savable() const = 0;
	virtual void Save(std::ostream&) const = 0;
	virtual void Load(std::istream&) = 0;
	virtual const void* Mmap(const void* p, size_t n) = 0;
	virtual bool Empty() const = 0;
	virtual size_t RegexpsCount() const = 0;
	virtual size_t Size() const = 0;
	virtual std::unique_ptr<AnyScanner> CopyOf() const = 0;     // copy constructor
	virtual std::unique_ptr<AnyScanner> MoveOf() = 0;           // move constructor
	virtual std::unique_ptr<AnyScanner> Fresh() const = 0;      // default constructor
	virtual void AssignFrom(const AnyScanner&) = 0;             // same kind
	virtual void MoveFrom(AnyScanner&) = 0;
	virtual void SwapWith(AnyScanner&) = 0;
	virtual bool Gluable() const = 0;
	virtual std::unique_ptr<AnyScanner> GlueWith(const AnyScanner& rhs, size_t maxSize) const = 0;
};
typedef std::unique_ptr<AnyScanner> ScannerP;

// How to compile; all of it runs library code and may throw.
ScannerP Default(KindId k);
ScannerP CompileFsm(KindId k, const Pire::Fsm& fsm, size_t distance = 0);           // non counting kinds
ScannerP CompileCounting(KindId k, const Pire::Fsm& re, const Pire::Fsm& sep);
ScannerP FromHalfFinal(KindId k, const Pire::HalfFinalFsm& f);
ScannerP Convert(KindId to, const AnyScanner& from);         // the library's converting constructors; null if there is none
Pire::Fsm Parse(const std::string& pattern, const re::Opts& o, bool surround, bool reverse = false, int capturePos = -1);

// Observations on a whole text: after the begin mark, after every chunk, after the end mark.
void Watch(const AnyScanner& s, const std::string& text, bool marks, std::vector<Obs>& out);
uint64_t HashObs(const Obs& o, uint64_t h);
std::string ShowObs(const Obs& o);
inline bool IsMulti(KindId k) { return k <= KNonrelocNoMask; }
inline bool IsHalf(KindId k) { return k >= KHalf && k <= KHalfNonrelocNoMask; }
inline bool IsCounting(KindId k) { return k >= KCounting && k <= KNoGlue; }

}

// The simulated environment of the library: memory the network card delivers bytes into,
// streams over a simulated disk, and pages that serialized scanners are mapped into.
#pragma once
#include "sim.h"
#include <istream>
#include <ostream>
#include <streambuf>
#include <string>
#include <string.h>
#include <stdint.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <unistd.h>
#include <stdio.h>

namespace world {

static const size_t Page = 4096;

// A region of pages between two inaccessible guard pages, at a fixed address.
class Region {
public:
	Region(uintptr_t at, size_t pages): m_pages(pages) {
		char* p = (char*) mmap((void*) at, (pages + 2) * Page, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
		if (p != (char*) at) { fprintf(stderr, "sim: cannot map region\n"); _exit(70); }
		m_base = p + Page;
		Writable(true);
	}
	char* Base() const { return m_base; }
	char* End() const { return m_base + m_pages * Page; }
	size_t Size() const { return m_pages * Page; }
	void Writable(bool w) { mprotect(m_base, m_pages * Page, w ? PROT_READ | PROT_WRITE : PROT_READ); }
	void Readable(bool r) { mprotect(m_base, m_pages * Page, r ? PROT_READ | PROT_WRITE : PROT_NONE); }
private:
	char* m_base; size_t m_pages;
	Region(const Region&);
};

inline void Garbage(char* p, size_t n, uint64_t seed) {
	uint64_t z = seed * 0x9E3779B97F4A7C15ull + 12345;
	for (size_t i = 0; i < n; ++i) { z ^= z << 13; z ^= z >> 7; z ^= z << 17; p[i] = (char) (z >> 24); }
}

// Receive buffers: every delivery of bytes lands at a drawn alignment, next to drawn garbage, or
// hard against a guard page; the previous contents of the buffer are overwritten.
class Nic {
public:
	Nic(): m_r(0x300000000000ull, 4) {}
	// Places the bytes and returns their address. Valid until the next Place().
	const char* Place(const std::string& s, bool readOnly = true) {
		m_r.Readable(true);
		size_t n = s.size();
		size_t mode = sim::Draw(4);
		uint64_t g = sim::Draw(6);
		char* base = m_r.Base();
		size_t used = n + 256 < m_r.Size() ? n + 256 : m_r.Size();
		size_t off;
		if (mode == 2) { off = m_r.Size() - n; sim::Count("place.flush_against_end_guard"); }
		else if (mode == 3) { off = 0; sim::Count("place.flush_against_start_guard"); }
		else { off = 64 + sim::Draw(64); sim::Count("place.unaligned"); }
		char* p = base + off;
		// neighbours: seeded garbage, zeroes, or bytes repeating the text itself (the nastiest kind)
		size_t lo = off > 128 ? off - 128 : 0, hi = off + n + 128 < m_r.Size() ? off + n + 128 : m_r.Size();
		(void) used;
		if (g == 0) memset(base + lo, 0, hi - lo);
		else if (g <= 2 || !n) Garbage(base + lo, hi - lo, g);
		else for (size_t i = lo; i < hi; ++i) base[i] = s[(i + g) % n];
		if (n) memcpy(p, s.data(), n);
		if (readOnly) m_r.Writable(false);
		return p;
	}
	void Unplug() { m_r.Readable(false); }         // any later access to the buffer is a fault
private:
	Region m_r;
};

// ---------------------------------------------------------------- simulated disk and streams
struct DiskError { };

struct WritePlan {
	size_t failAt = (size_t) -1;      // device fails when this many bytes have been accepted
	size_t maxPut = (size_t) -1;      // largest single transfer
	bool throws = false;              // failure is raised by the stream buffer itself
	bool viaOverflow = false;         // bytes arrive one by one through overflow()
};
class DiskWriter: public std::streambuf {
public:
	DiskWriter(std::string& file, const WritePlan& p): m_f(file), m_p(p), m_done(0), m_failed(false) {}
	bool Failed() const { return m_failed; }
	size_t Transfers() const { return m_n; }
protected:
	std::streamsize xsputn(const char* d, std::streamsize n) override {
		sim::HarnessScope h;
		std::streamsize put = 0;
		while (put < n) {
			size_t c = (size_t) (n - put);
			if (c > m_p.maxPut) c = m_p.maxPut;
			if (m_done + c > m_p.failAt) c = m_p.failAt - m_done;
			m_f.append(d + put, c); put += c; m_done += c; ++m_n;
			sim::Advance(50 + c / 64);
			if (m_done >= m_p.failAt && put < n) { Broken(); return put; }
		}
		return put;
	}
	int_type overflow(int_type c) override {
		if (c == traits_type::eof()) return traits_type::not_eof(c);
		char ch = (char) c;
		return xsputn(&ch, 1) == 1 ? c : traits_type::eof();
	}
private:
	void Broken() {
		if (!m_failed) { sim::Count("fault.write_failed"); sim::Log("fault: disk write fails after %zu bytes", m_done); }
		m_failed = true;
		if (m_p.throws) throw DiskError();
	}
	std::string& m_f; WritePlan m_p; size_t m_done; size_t m_n = 0; bool m_failed;
};

struct ReadPlan {
	size_t chunk = (size_t) -1;       // bytes the device returns per transfer
	size_t eofAt = (size_t) -1;       // device ends here
	size_t errAt = (size_t) -1;       // stream buffer throws here
	bool buffered = false;            // deliver through underflow()/get area instead of xsgetn()
	bool randomChunks = false;
};
class DiskReader: public std::streambuf {
public:
	DiskReader(const std::string& file, const ReadPlan& p, size_t start = 0): m_f(file), m_p(p), m_pos(start), m_hit(false) {
		m_end = m_f.size() < p.eofAt ? m_f.size() : p.eofAt;
	}
	size_t Pos() const { return m_pos - (egptr() - gptr()); }
	bool Hit() const { return m_hit; }
protected:
	size_t Chunk(size_t want) {
		size_t c = m_p.chunk;
		if (m_p.randomChunks) c = 1 + (size_t) sim::Draw(24);
		if (c > want) c = want;
		if (m_pos >= m_p.errAt && m_p.errAt != (size_t) -1) {
			if (!m_hit) { sim::Count("fault.read_error"); sim::Log("fault: disk read error at %zu", m_pos); }
			m_hit = true;
			throw DiskError();
		}
		if (m_p.errAt != (size_t) -1 && m_pos + c > m_p.errAt) c = m_p.errAt - m_pos;
		if (m_pos + c > m_end) { c = m_pos < m_end ? m_end - m_pos : 0; }
		if (!c && want) { if (!m_hit) { sim::Count("fault.read_eof"); sim::Log("read: end of data at %zu", m_pos); } m_hit = true; }
		sim::Advance(30 + c / 64);
		return c;
	}
	std::streamsize xsgetn(char* d, std::streamsize n) override {
		sim::HarnessScope h;
		if (m_p.buffered) return std::streambuf::xsgetn(d, n);
		std::streamsize got = 0;
		if (gptr() < egptr() && n) { *d = *gptr(); gbump(1); got = 1; }   // a byte fetched by an earlier peek
		while (got < n) {
			size_t c = Chunk((size_t) (n - got));
			if (!c) break;
			memcpy(d + got, m_f.data() + m_pos, c); m_pos += c; got += c;
		}
		return got;
	}
	int_type underflow() override {
		sim::HarnessScope h;
		if (gptr() < egptr()) return traits_type::to_int_type(*gptr());
		size_t c = Chunk(m_p.buffered ? sizeof(m_buf) : 1);
		if (!c) return traits_type::eof();
		memcpy(m_buf, m_f.data() + m_pos, c); m_pos += c;
		setg(m_buf, m_buf, m_buf + c);
		return traits_type::to_int_type(*gptr());
	}
private:
	const std::string& m_f; ReadPlan m_p; size_t m_pos, m_end; bool m_hit; char m_buf[64];
};

// ---------------------------------------------------------------- mapped images
class Mapping {
public:
	explicit Mapping(uintptr_t at, size_t pages = 600): m_r(at, pages) {}
	// Maps `image` so that it ends `slack` bytes before the guard page or starts at the region's
	// start plus `shift`; the address is a multiple of 8 when shift is.
	const char* Put(const std::string& image, size_t shift, bool atEnd) {
		m_r.Writable(true);
		if (image.size() + shift > m_r.Size()) sim::Discard("image larger than the mapping");
		char* p = atEnd ? m_r.End() - image.size() - shift : m_r.Base() + shift;
		memcpy(p, image.data(), image.size());
		return p;
	}
	Region& R() { return m_r; }
private:
	Region m_r;
};

}

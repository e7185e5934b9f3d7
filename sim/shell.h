// The machine the sample programs run on: files, descriptors and mappings of one simulated process at a time,
// and standard streams over them that buffer and fail like the ones of the C++ library.
#pragma once
#include <algorithm>
#include <deque>
#include <exception>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <iterator>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>
#include <cassert>
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <errno.h>
#include <fcntl.h>
#include <libgen.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <unistd.h>
#include <pire/pire.h>
#include <pire/easy.h>
#include <pire/extra.h>

namespace shell {

struct Exit { int code; };

int Open(const char* name, int flags);
ssize_t Read(int fd, char* to, size_t n);
ssize_t Write(int fd, const char* from, size_t n);
int Close(int fd);

// Buffers like std::filebuf: reads whole blocks, throws when a read fails, writes when the buffer is full, on
// flush and on close.
class FileBuf : public std::streambuf {
public:
	explicit FileBuf(int fd = -1): m_fd(fd), m_in(1024), m_out() {}
	~FileBuf() { shut(); }
	bool is_open() const { return m_fd >= 0; }
	bool start(const char* name, std::ios_base::openmode mode) {
		if (is_open()) return false;
		int fl = (mode & std::ios_base::out) ? ((mode & std::ios_base::in) ? O_RDWR : O_WRONLY | O_CREAT) : O_RDONLY;
		if ((mode & std::ios_base::trunc) || ((mode & std::ios_base::out) && !(mode & (std::ios_base::in | std::ios_base::app)))) fl |= O_CREAT | O_TRUNC;
		if (mode & std::ios_base::app) fl |= O_CREAT | O_APPEND;
		m_fd = Open(name, fl);
		return is_open();
	}
	bool shut() {
		if (!is_open()) return false;
		bool ok = flush();
		if (Close(m_fd)) ok = false;
		m_fd = -1; setg(0, 0, 0);
		return ok;
	}
protected:
	int_type underflow() {
		if (!is_open()) return traits_type::eof();
		ssize_t n = Read(m_fd, &m_in[0], m_in.size());
		if (n < 0) throw std::ios_base::failure("basic_filebuf::underflow error reading the file");
		if (!n) return traits_type::eof();
		setg(&m_in[0], &m_in[0], &m_in[0] + n);
		return traits_type::to_int_type(m_in[0]);
	}
	int_type overflow(int_type c) {
		if (!is_open()) return traits_type::eof();
		if (!traits_type::eq_int_type(c, traits_type::eof())) m_out += traits_type::to_char_type(c);
		if (m_out.size() >= 512 && !flush()) return traits_type::eof();
		return traits_type::not_eof(c);
	}
	std::streamsize xsputn(const char* s, std::streamsize n) {
		if (!is_open()) return 0;
		m_out.append(s, n);
		return m_out.size() >= 512 && !flush() ? 0 : n;
	}
	int sync() { return flush() ? 0 : -1; }
private:
	bool flush() {
		while (!m_out.empty()) {
			ssize_t n = Write(m_fd, m_out.data(), m_out.size());
			if (n < 0) { m_out.clear(); return false; }
			m_out.erase(0, n);
		}
		return true;
	}
	int m_fd;
	std::vector<char> m_in;
	std::string m_out;
};

}

namespace std {
extern istream sim_cin;
extern ostream sim_cout, sim_cerr;

template<int Mode> class sim_fstream : public iostream {
	static ios_base::openmode mode(ios_base::openmode m) { return Mode == 8 ? m | ios_base::in : Mode == 16 ? m | ios_base::out : m; }
	static ios_base::openmode def() { return Mode == 8 ? ios_base::in : Mode == 16 ? ios_base::out : ios_base::in | ios_base::out; }
public:
	sim_fstream(): iostream(0) { init(&m_buf); }
	explicit sim_fstream(const char* name, ios_base::openmode m = def()): iostream(0) { init(&m_buf); sim_open(name, m); }
	explicit sim_fstream(const string& name, ios_base::openmode m = def()): iostream(0) { init(&m_buf); sim_open(name, m); }
	void sim_open(const char* name, ios_base::openmode m = def()) { if (m_buf.start(name, mode(m))) clear(); else setstate(ios_base::failbit); }
	void sim_open(const string& name, ios_base::openmode m = def()) { sim_open(name.c_str(), m); }
	void sim_close() { if (!m_buf.shut()) setstate(ios_base::failbit); }
	bool is_open() const { return m_buf.is_open(); }
private:
	shell::FileBuf m_buf;
};
}

extern "C++" {
int sim_open(const char* name, int flags, ...);
int sim_close(int fd);
int sim_fstat(int fd, struct stat* st);
void* sim_mmap(void* at, size_t len, int prot, int flags, int fd, off_t off);
int sim_munmap(void* at, size_t len);
[[noreturn]] void sim_exit(int code);
}
namespace std { using ::sim_exit; }
extern "C" int PigrepMain(int argc, char** argv);
extern "C" int BlacklistMain(int argc, char** argv);

// Minimal stand-in for the header-only mio library (absent from this sandbox):
// the read-only mapping interface GrinPlusPlus uses, backed by real mmap(2).
#pragma once
#include <string>
#include <system_error>
#include <cerrno>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
namespace mio {
using file_handle_type = int;
class mmap_source {
public:
	mmap_source() = default;
	mmap_source(const mmap_source&) = delete;
	mmap_source& operator=(const mmap_source&) = delete;
	mmap_source(mmap_source&& o) noexcept : p(o.p), n(o.n), m(o.m) { o.p = nullptr; o.n = 0; o.m = false; }
	mmap_source& operator=(mmap_source&& o) noexcept {
		if (this != &o) { unmap(); p = o.p; n = o.n; m = o.m; o.p = nullptr; o.n = 0; o.m = false; }
		return *this;
	}
	~mmap_source() { unmap(); }
	void map(const std::string& path, std::error_code& ec) {
		unmap();
		ec.clear();
		int fd = ::open(path.c_str(), O_RDONLY | O_CLOEXEC);
		if (fd < 0) { ec = std::error_code(errno, std::system_category()); return; }
		struct stat st;
		if (::fstat(fd, &st) != 0) { ec = std::error_code(errno, std::system_category()); ::close(fd); return; }
		if (st.st_size > 0) {
			void* q = ::mmap(nullptr, (size_t)st.st_size, PROT_READ, MAP_SHARED, fd, 0);
			if (q == MAP_FAILED) { ec = std::error_code(errno, std::system_category()); ::close(fd); return; }
			p = (const char*)q;
			n = (size_t)st.st_size;
			m = true;
		} else {
			// mio: mapping an empty file fails with EINVAL
			ec = std::error_code(EINVAL, std::system_category());
		}
		::close(fd);
	}
	void unmap() { if (p) { ::munmap((void*)p, n); } p = nullptr; n = 0; m = false; }
	bool is_open() const noexcept { return m; }
	bool is_mapped() const noexcept { return m; }
	bool empty() const noexcept { return n == 0; }
	size_t size() const noexcept { return n; }
	size_t length() const noexcept { return n; }
	const char* data() const noexcept { return p; }
	const char* begin() const noexcept { return p; }
	const char* end() const noexcept { return p + n; }
	const char* cbegin() const noexcept { return p; }
	const char* cend() const noexcept { return p + n; }
	const char& operator[](size_t i) const noexcept { return p[i]; }
private:
	const char* p = nullptr;
	size_t n = 0;
	bool m = false;
};
template <class P> inline mmap_source make_mmap_source(const P& path, std::error_code& ec) {
	mmap_source s;
	s.map(std::string(path), ec);
	return s;
}
}

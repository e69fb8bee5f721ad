// Stand-in for the (absent) mio single-header library: only what GrinPlusPlus uses.
// Reads map the file with mmap(2); out-of-range dereferences are as unprotected as in mio.
#pragma once
#include <cstddef>
#include <fcntl.h>
#include <string>
#include <sys/mman.h>
#include <sys/stat.h>
#include <system_error>
#include <unistd.h>
#include <cerrno>
#include <utility>

namespace mio {
class mmap_source {
public:
    mmap_source() = default;
    mmap_source(const mmap_source&) = delete;
    mmap_source& operator=(const mmap_source&) = delete;
    mmap_source(mmap_source&& o) noexcept { swap(o); }
    mmap_source& operator=(mmap_source&& o) noexcept { if (this != &o) { unmap(); swap(o); } return *this; }
    ~mmap_source() { unmap(); }
    void swap(mmap_source& o) noexcept { std::swap(m_p, o.m_p); std::swap(m_n, o.m_n); }
    void map(const char* path, std::error_code& ec) {
        ec.clear();
        unmap();
        int fd = ::open(path, O_RDONLY | O_CLOEXEC);
        if (fd < 0) { ec = std::error_code(errno, std::system_category()); return; }
        struct stat st;
        if (::fstat(fd, &st) != 0) { ec = std::error_code(errno, std::system_category()); ::close(fd); return; }
        if (st.st_size == 0) { ::close(fd); ec = std::make_error_code(std::errc::invalid_argument); return; }
        void* p = ::mmap(nullptr, (size_t)st.st_size, PROT_READ, MAP_SHARED, fd, 0);
        int e = errno;
        ::close(fd);
        if (p == MAP_FAILED) { ec = std::error_code(e, std::system_category()); return; }
        m_p = (const char*)p;
        m_n = (size_t)st.st_size;
    }
    void unmap() { if (m_p) { ::munmap((void*)m_p, m_n); m_p = nullptr; m_n = 0; } }
    bool is_mapped() const noexcept { return m_p != nullptr; }
    bool is_open() const noexcept { return m_p != nullptr; }
    bool empty() const noexcept { return m_n == 0; }
    size_t size() const noexcept { return m_n; }
    size_t length() const noexcept { return m_n; }
    const char* data() const noexcept { return m_p; }
    const char* begin() const noexcept { return m_p; }
    const char* end() const noexcept { return m_p + m_n; }
    const char* cbegin() const noexcept { return m_p; }
    const char* cend() const noexcept { return m_p + m_n; }
    const char& operator[](size_t i) const noexcept { return m_p[i]; }
private:
    const char* m_p = nullptr;
    size_t m_n = 0;
};
inline mmap_source make_mmap_source(const std::string& path, std::error_code& ec) { mmap_source m; m.map(path.c_str(), ec); return m; }
}

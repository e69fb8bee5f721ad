// Opening a database starts dozens of threads and large caches; the checks open thousands of small ones.
// These definitions take the place of the library's for calls from the code under test. They tune speed only.
#include <rocksdb/options.h>
namespace rocksdb {
DBOptions* DBOptions::IncreaseParallelism(int) { max_file_opening_threads = 1; return this; }
ColumnFamilyOptions* ColumnFamilyOptions::OptimizeForPointLookup(uint64_t) { return this; }
}
#include <fcntl.h>
#include <cerrno>
// preallocating log files zeroes tens of megabytes per database on a memory file system
extern "C" int fallocate64(int, int, off64_t, off64_t) { errno = EOPNOTSUPP; return -1; }
extern "C" int fallocate(int, int, off_t, off_t) { errno = EOPNOTSUPP; return -1; }

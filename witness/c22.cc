#include <fcntl.h>
#include <stdarg.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <cstring>
#include <errno.h>
#include "bant/util/file-utils.h"
#include "common.h"
using namespace bant;
static int target = -1, opens = 0, closes = 0, fail_after = -1, reads = 0, mode = 0;
static bool watch = false, fstat_fails = false;
static Driver *D;
extern "C" int open(const char *p, int fl, ...) {
  va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a);
  int fd = syscall(SYS_openat, AT_FDCWD, p, fl, m);
  if (watch && fd >= 0 && strstr(p, "c22-data")) { target = fd; ++opens; }
  return fd;
}
extern "C" ssize_t read(int fd, void *b, size_t n) {
  if (watch && fd == target) {
    if (++reads > 100000) D->fail("more than 100000 reads of a small file: no termination");
    if (fail_after >= 0 && reads > fail_after) { errno = EIO; return mode == 0 ? -1 : 0; }
    if (n > 1 && D->n(2)) n = 1 + D->n(n - 1);
  }
  return syscall(SYS_read, fd, b, n);
}
extern "C" int close(int fd) {
  if (watch && fd == target) { ++closes; target = -1; }
  return syscall(SYS_close, fd);
}
extern "C" int fstat(int fd, struct stat *s) {
  if (watch && fd == target && fstat_fails) { errno = EIO; return -1; }
  return syscall(SYS_newfstatat, fd, "", s, AT_EMPTY_PATH);
}
int main(int argc, char **argv) {
  Driver d(argc, argv);
  D = &d;
  while (d.more()) {
    std::string data;
    int n = d.n(4) ? d.n(40) : d.n(20000);
    for (int i = 0; i < n; ++i) data += (char)d.n(256);
    { std::ofstream o("c22-data", std::ios::binary); o << data; }
    opens = closes = reads = 0; target = -1;
    fail_after = d.n(3) ? -1 : (int)d.n(4);
    mode = d.n(2);
    fstat_fails = d.n(10) == 0;
    bool missing = d.n(10) == 0;
    watch = true;
    auto r = ReadFileToString(FilesystemPath(missing ? "c22-nothing" : "c22-data"));
    watch = false;
    auto at = [&]() { return "file of " + std::to_string(n) + " bytes, " + std::to_string(reads) + " reads" + (fail_after >= 0 ? ", reads fail (" + std::string(mode ? "end of file" : "error") + ") after " + std::to_string(fail_after) : std::string()) + (fstat_fails ? ", fstat fails" : "") + ": "; };
    if (opens != closes) d.fail(at(), opens, " opened but ", closes, " closed");
    bool ok = !missing && !fstat_fails && (fail_after < 0 || reads <= fail_after);
    if (r.has_value() != ok) d.fail(at(), ok ? "failure reported" : "content returned");
    if (r && *r != data) d.fail(at(), "wrong content of size ", r->size());
  }
  return d.done();
}

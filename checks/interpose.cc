#include <dlfcn.h>
#include <errno.h>
#include <stdio.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

#include <random>

#include "common.hh"

namespace {
bool g_real = false;
unsigned g_weak = 0;
pbt::SplitMix g_rng(1);
uint64_t g_calls = 0;
harness::FaultPlan g_plan;
harness::FaultStats g_st;
bool g_fired_r = false, g_fired_w = false;
}  // namespace

// libstdc++'s random_device; the library draws its randomness through it.
std::random_device::result_type std::random_device::_M_getval() {
  ++g_calls;
  if (!g_real) return static_cast<result_type>(g_rng.next() >> 16);
  unsigned v = 0;
  for (size_t got = 0; got < sizeof v;) {
    long n = syscall(SYS_getrandom, reinterpret_cast<char*>(&v) + got, sizeof v - got, 0);
    if (n > 0) got += size_t(n);
  }
  if (g_weak) v = static_cast<unsigned>(pbt::mix(v & ((1u << g_weak) - 1), 77) >> 11);
  return v;
}

namespace harness {
void seed_random(uint64_t s) { g_rng = pbt::SplitMix(s); g_calls = 0; }
void real_random(bool on, unsigned bits) { g_real = on; g_weak = bits; }
uint64_t random_calls() { return g_calls; }
void arm(const FaultPlan& p) { g_plan = p; g_st = FaultStats(); g_fired_r = g_fired_w = false; g_plan.active = true; }
FaultStats disarm() { g_plan.active = false; return g_st; }
}  // namespace harness

static bool eintr_now() {
  ++g_st.calls;
  if (g_plan.eintr_every && g_st.calls % g_plan.eintr_every == 0) { ++g_st.eintrs; errno = EINTR; return true; }
  return false;
}

extern "C" ssize_t read(int fd, void* buf, size_t n) {
  if (!g_plan.active || fd < 3) return syscall(SYS_read, fd, buf, n);
  if (eintr_now()) return -1;
  if (g_plan.read_fail_at >= 0 && !(g_plan.one_shot && g_fired_r)) {
    uint64_t lim = uint64_t(g_plan.read_fail_at);
    if (g_st.read_bytes >= lim) { g_fired_r = true; ++g_st.injected; errno = g_plan.err; return -1; }
    if (g_st.read_bytes + n > lim) n = size_t(lim - g_st.read_bytes);
  }
  if (g_plan.max_chunk && n > g_plan.max_chunk) { n = g_plan.max_chunk; ++g_st.shorts; }
  ssize_t r = syscall(SYS_read, fd, buf, n);
  if (r > 0) g_st.read_bytes += uint64_t(r);
  return r;
}

static ssize_t do_write(int fd, const void* buf, size_t n) {
  if (g_plan.write_fail_at >= 0 && !(g_plan.one_shot && g_fired_w)) {
    uint64_t lim = uint64_t(g_plan.write_fail_at);
    if (g_st.write_bytes >= lim) { g_fired_w = true; ++g_st.injected; errno = g_plan.err; return -1; }
    if (g_st.write_bytes + n > lim) n = size_t(lim - g_st.write_bytes);
  }
  if (g_plan.max_chunk && n > g_plan.max_chunk) { n = g_plan.max_chunk; ++g_st.shorts; }
  ssize_t r = syscall(SYS_write, fd, buf, n);
  if (r > 0) g_st.write_bytes += uint64_t(r);
  return r;
}

extern "C" ssize_t write(int fd, const void* buf, size_t n) {
  if (!g_plan.active || fd < 3) return syscall(SYS_write, fd, buf, n);
  if (eintr_now()) return -1;
  return do_write(fd, buf, n);
}

extern "C" ssize_t writev(int fd, const struct iovec* iov, int cnt) {
  if (!g_plan.active || fd < 3) return syscall(SYS_writev, fd, iov, cnt);
  if (eintr_now()) return -1;
  ssize_t total = 0;
  for (int i = 0; i < cnt; ++i) {
    if (iov[i].iov_len == 0) continue;
    ssize_t r = do_write(fd, iov[i].iov_base, iov[i].iov_len);
    if (r < 0) return total ? total : -1;
    total += r;
    if (size_t(r) < iov[i].iov_len) break;
  }
  return total;
}

static off64_t do_seek(int fd, off64_t off, int whence) {
  if (g_plan.active && fd >= 3) {
    uint64_t n = g_st.seeks++;
    if (g_plan.seek_fail_at >= 0 && (g_plan.one_shot ? n == uint64_t(g_plan.seek_fail_at) : n >= uint64_t(g_plan.seek_fail_at))) { ++g_st.injected; errno = g_plan.err; return -1; }
  }
  return syscall(SYS_lseek, fd, off, whence);
}
extern "C" off64_t lseek64(int fd, off64_t off, int whence) { return do_seek(fd, off, whence); }
extern "C" off_t lseek(int fd, off_t off, int whence) { return do_seek(fd, off, whence); }

extern "C" int fclose(FILE* f) {
  static auto real = reinterpret_cast<int (*)(FILE*)>(dlsym(RTLD_NEXT, "fclose"));
  bool hit = g_plan.active && f && fileno(f) >= 3;
  int r = real(f);
  if (hit) {
    ++g_st.closes;
    if (g_plan.close_fails) { ++g_st.injected; errno = g_plan.err; return EOF; }
  }
  return r;
}

// A failed huge allocation is an ordinary out-of-memory condition.
extern "C" const char* __asan_default_options() { return "allocator_may_return_null=1:detect_leaks=0:malloc_context_size=8"; }

// Reads cases (kind, length, bytes) from stdin, answers one line each. Built with AddressSanitizer; allocations over a
// limit fail as they would on a machine without that memory.
#include "readers.hpp"
#include <new>
#include <unistd.h>
#include <signal.h>
#include <sys/time.h>
#include <time.h>
#include <cstring>

static const size_t LIMIT = size_t(64) << 20;
void* operator new(size_t n) { if (n > LIMIT) throw std::bad_alloc(); void* p = std::malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return n > LIMIT ? NULL : std::malloc(n ? n : 1); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return n > LIMIT ? NULL : std::malloc(n ? n : 1); }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete[](void* p) noexcept { std::free(p); }
void operator delete(void* p, size_t) noexcept { std::free(p); }
void operator delete[](void* p, size_t) noexcept { std::free(p); }

extern "C" const char* __asan_default_options() { return "detect_leaks=0:alloc_dealloc_mismatch=0:allocator_may_return_null=1:quarantine_size_mb=8:hard_rss_limit_mb=3000:abort_on_error=0:exitcode=66"; }

#ifdef LIBFUZZER
static int only = -1;
extern "C" int LLVMFuzzerInitialize(int*, char***) {
  const char* d = std::getenv("SCRATCH");
  std::string t = std::string(d ? d : "/dev/shm") + "/fz-XXXXXX";
  std::vector<char> b(t.begin(), t.end()); b.push_back(0);
  if (!mkdtemp(b.data()) || chdir(b.data())) std::abort();
  if (std::getenv("KIND")) for (int i = 0; i < N_KINDS; ++i) if (std::strcmp(KINDS[i], std::getenv("KIND")) == 0) only = i;
  return 0;
}
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* p, size_t n) {
  if (n == 0) return 0;
  int k = only >= 0 ? only : p[0] % N_KINDS;
  try { read_one(k, (const char*)p + 1, n - 1); }
  catch (const std::exception&) {}
  return 0;
}
#else
// processor time, so that a loaded machine makes no difference
static void limit(unsigned s) {
  itimerval t;
  std::memset(&t, 0, sizeof t);
  t.it_value.tv_sec = s;
  setitimer(ITIMER_PROF, &t, NULL);
}

int main(int, char** argv) {
  if (chdir(argv[1])) return 3;
  unsigned tmo = std::atoi(argv[2]);
  std::printf("%d", N_KINDS);
  for (int i = 0; i < N_KINDS; ++i) std::printf(" %s", KINDS[i]);
  std::printf("\n");
  std::fflush(stdout);
  int out = dup(1);
  dup2(2, 1);   // what the library prints is not an answer
  for (;;) {
    unsigned h[2];
    if (std::fread(h, 4, 2, stdin) != 2) return 0;
    std::vector<char> b(h[1] + 1);
    if (h[1] && std::fread(b.data(), 1, h[1], stdin) != h[1]) return 0;
    std::string r = "read\n";
    alarm(10 * tmo);
    limit(tmo);
    clock_t t0 = clock();
    // the copy has its exact size, so a read beyond the end is found
    std::unique_ptr<char[]> c(new char[h[1]]);
    std::memcpy(c.get(), b.data(), h[1]);
    try { read_one(int(h[0]), c.get(), h[1]); }
    catch (const std::exception& e) { r = std::string("raised ") + e.what(); for (size_t i = 0; i < r.size(); ++i) if (r[i] == '\n') r[i] = ' '; r = r.substr(0, 200) + "\n"; }
    alarm(0);
    limit(0);
    r = std::to_string(int((clock() - t0) / (CLOCKS_PER_SEC / 1000))) + " " + r;
    if (write(out, r.data(), r.size()) < 0) return 4;
  }
}
#endif

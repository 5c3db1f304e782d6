// Native side of the harness interface: runs a harness (compiled from the real
// code by an ordinary compiler) on recorded values of its symbolic inputs.
//   replay FILE        prints one line per observation and per failed assertion
// Exit: 0 every case clean, 1 some assertion failed / unexpected exception.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <new>
#include <string>
#include <unistd.h>
#ifndef ENTRY
#error ENTRY
#endif
static int g_fill = 0xA5;
static uint64_t g_fail = 0;
static size_t g_mis = 0, g_noff = 0; static bool g_aligned = false;
static char* g_off[16][2];
__attribute__((weak)) void* operator new(size_t n) {
  if (n > (1ul << 32) || (g_fail && --g_fail == 0)) throw std::bad_alloc();
  if (g_mis) {                     // the end of the block is exact
    void* q; size_t m = g_mis; g_mis = 0;
    if (posix_memalign(&q, 64, m + n)) throw std::bad_alloc();
    g_off[g_noff % 16][0] = (char*)q + m; g_off[g_noff++ % 16][1] = (char*)q;
    memset(q, g_fill, m + n);
    return (char*)q + m;
  }
  void* p = nullptr;
  if (g_aligned) { if (posix_memalign(&p, 64, n ? n : 1)) p = nullptr; } else p = malloc(n ? n : 1);
  g_aligned = false;
  if (!p) throw std::bad_alloc();
  memset(p, g_fill, n);
  return p;
}
static void release(void* p) {
  for (auto& o : g_off) if (p && o[0] == p) { free(o[1]); o[0] = nullptr; return; }
  free(p);
}
__attribute__((weak)) void* operator new[](size_t n) { return operator new(n); }
__attribute__((weak)) void operator delete(void* p) noexcept { release(p); }
__attribute__((weak)) void operator delete[](void* p) noexcept { release(p); }
__attribute__((weak)) void operator delete(void* p, size_t) noexcept { release(p); }
__attribute__((weak)) void operator delete[](void* p, size_t) noexcept { release(p); }
static std::map<std::string, uint64_t>* in;
static std::map<std::string, uint64_t>* par;
static std::map<std::string, unsigned>* occ;
static bool failed, throwOk;
struct EndOfPath {};
extern "C" {
void ENTRY();
uint64_t v_sym(const char* name, unsigned bits) {
  uint64_t keep = g_fail; g_fail = 0;
  unsigned k = (*occ)[name]++;
  auto it = in->find(std::string(name) + "#" + std::to_string(k));
  g_fail = keep;
  uint64_t v = it == in->end() ? 0 : it->second;
  return bits >= 64 ? v : v & ((1ull << bits) - 1);
}
uint64_t v_choose(const char* name, uint64_t lo, uint64_t) { (void)lo; return v_sym(name, 64); }
uint64_t v_split(uint64_t x) { return x; }
void v_shard(uint64_t) {}
void v_assume(bool c) { if (!c) { printf("assume-failed\n"); throw EndOfPath(); } }
void v_assert(bool c, const char* what) { if (!c) { failed = true; printf("ASSERT-FAILED %s\n", what); fflush(stdout); } }
void v_cover(bool, const char*) {}
void v_observe(uint64_t x) { printf("obs %llu\n", (unsigned long long)x); }
uint64_t v_param(const char* name, uint64_t d) { auto it = par->find(name); return it == par->end() ? d : it->second; }
void v_align(uint64_t b) { g_mis = b % 64; g_aligned = true; }
void v_use(const void* p) { static const void* volatile sink; sink = p; }
void v_fail(uint64_t k) { g_fail = k; }
void v_throw_ok(bool c) { throwOk = c; }
[[noreturn]] void v_end() { throw EndOfPath(); }
}
int main(int argc, char** argv) {
  FILE* f = fopen(argv[1], "r");
  if (!f) return 9;
  if (argc > 2) g_fill = atoi(argv[2]);
  alarm(60);
  in = new std::map<std::string, uint64_t>; par = new std::map<std::string, uint64_t>; occ = new std::map<std::string, unsigned>;
  char kind[64], name[256]; unsigned long long v; bool bad = false;
  while (fscanf(f, "%63s", kind) == 1) {
    if (!strcmp(kind, "case")) in->clear();
    else if (!strcmp(kind, "param")) { if (fscanf(f, "%255s %llu", name, &v) == 2) (*par)[name] = v; }
    else if (!strcmp(kind, "in")) { if (fscanf(f, "%255s %llu", name, &v) == 2) (*in)[name] = v; }
    else if (!strcmp(kind, "run")) {
      occ->clear(); failed = throwOk = false; g_fail = 0;
      printf("case\n");
      fflush(stdout);
      try { ENTRY(); }
      catch (EndOfPath&) {}
      catch (...) { printf("threw\n"); if (!throwOk) { failed = true; printf("ASSERT-FAILED unexpected exception\n"); } }
      if (failed) bad = true;
      fflush(stdout);
    } else { int c; while ((c = fgetc(f)) != EOF && c != '\n') {} }
  }
  return bad ? 1 : 0;
}

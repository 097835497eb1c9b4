// Native implementation of the harness interface: replays one recorded input file.
// exit 0: ran to the end, 10: an assertion failed, 11: assumption not met, 12: input mismatch.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <string>
#include <vector>
#include <fstream>
#include <sstream>
struct In { std::string name; bool choice; uint64_t v; std::vector<unsigned char> b; };
static std::vector<In> in; static size_t pos; static int failures; static bool keep;
static In &next(const char *name) { if (pos >= in.size() || in[pos].name != name) { printf("VF-MISMATCH %s\n", name); fflush(stdout); _Exit(12); } return in[pos++]; }
extern "C" {
void harness(void);
void vf_symbolic(void *p, size_t n, const char *name) { In &i = next(name); if (i.b.size() != n) { printf("VF-MISMATCH size of %s\n", name); fflush(stdout); _Exit(12); } if (n) memcpy(p, i.b.data(), n); }
uint32_t vf_choose(const char *name, uint32_t, uint32_t) { return (uint32_t)next(name).v; }
uint32_t vf_valid(const char *name, bool) { return (uint32_t)next(name).v; }
void vf_shard(void) {}
void vf_assume(bool c) { if (!c) { printf("VF-ASSUME\n"); fflush(stdout); _Exit(failures ? 10 : 11); } }
static void fail(const char *l) { printf("VF-FAIL %s\n", l); fflush(stdout); failures++; }
void vf_assert(bool c, const char *l) { if (!c) fail(l); }
static void hex(const char *t, const void *p, size_t n) { printf("  %s ", t); for (size_t i = 0; i < n; i++) printf("%02x", ((const unsigned char *)p)[i]); printf("\n"); }
void vf_assert_eq(const void *a, const void *b, size_t n, const char *l) { if (n && memcmp(a, b, n)) { fail(l); hex("got ", a, n); hex("want", b, n); } }
void vf_assert_distinct(const void *a, const void *b, size_t n, const char *l) { if (n == 0 || !memcmp(a, b, n)) { fail(l); hex("both", a, n); } }
// a leak is shown by runs on two inputs; a single run can only exhibit equality, which the engine decides
void vf_assert_noleak(const void *o, size_t n, const void *i, size_t m, const char *l) {
  printf("LEAK %s\n", l); hex("obj", o, n); hex("in", i, m);
}
void vf_assert_defined(const void *, size_t, const char *) {}
void vf_cover(const char *) {}
void vf_out(const void *p, size_t n) { printf("OUT "); for (size_t i = 0; i < n; i++) printf("%02x", ((const unsigned char *)p)[i]); printf("\n"); }
void *vf_alloc(size_t n, size_t mis) {
  // exact size, so that ASan sees every overrun: place the block at the end of the allocation
  char *p = 0; if (posix_memalign((void **)&p, 64, mis + n ? mis + n : 1)) abort(); return p + mis; }
uint32_t vf_is_engine(void) { return 0; }
uint64_t vf_fork_value(uint64_t v) { return v; }
}
int main(int c, char **v) {
  std::ifstream f(c > 1 ? v[1] : "/dev/stdin"); std::string ln;
  while (std::getline(f, ln)) { std::istringstream is(ln); std::string k, n, x; is >> k >> n >> x; if (k.empty()) continue; In i; i.name = n; i.choice = k == "choose"; i.v = 0;
    if (i.choice) i.v = strtoull(x.c_str(), 0, 10); else if (x != "-") for (size_t q = 0; q + 1 < x.size(); q += 2) i.b.push_back((unsigned char)strtoul(x.substr(q, 2).c_str(), 0, 16)); in.push_back(i); }
  harness();
  printf("VF-END\n"); fflush(stdout);
  return failures ? 10 : 0;
}

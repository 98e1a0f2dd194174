/* Linked into every program under test.  Without LV_RAND the C library's generator is used; with LV_RAND=MODE:SEED
   the programs see a reproducible sequence chosen by the test case (srand is then ignored):
   mode 1 uniform, mode 2 some first values tiny or multiples of the moduli used, mode 3 the first values all equal,
   mode 4 tiny and uniform values mixed.  From call 300 on every mode is uniform, so retries end. */
#include <cstdlib>
#include <cstdio>
#include <dlfcn.h>
static int mode = -1;
static unsigned long long state, calls, first, v0;
static unsigned long long next() {
  unsigned long long z = (state += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
static void init() {
  const char *e = getenv("LV_RAND");
  unsigned long long s = 0; int m = 0;
  if (e && sscanf(e, "%d:%llu", &m, &s) == 2) { mode = m; state = s; first = 1 + next() % 40; v0 = next() % 4; }
  else mode = 0;
}
static int tiny() {
  static const int T[] = {0, 1, 2, 3, 100, 1000, 10000, 101, 1001, 500, 200, 2000000, 1073741824};
  return T[next() % (sizeof T / sizeof *T)];
}
extern "C" int rand(void) throw() {
  if (mode < 0) init();
  if (mode == 0) { static int (*r)(void) = (int (*)(void)) dlsym(RTLD_NEXT, "rand"); return r(); }
  calls++;
  if (calls < 300) {
    if (mode == 2 && calls <= first) return tiny();
    if (mode == 3 && calls <= first) return (int) v0;
    if (mode == 4 && next() % 2) return tiny();
  }
  return (int) (next() & 0x7fffffff);
}
extern "C" void srand(unsigned s) throw() {
  if (mode < 0) init();
  if (mode == 0) { static void (*r)(unsigned) = (void (*)(unsigned)) dlsym(RTLD_NEXT, "srand"); r(s); }
}

// Native counterpart of the harness intrinsics: replays recorded values against
// the real code and the real libraries.  Usage: prog CASES; each case is run in
// a child process of its own.
#include <dlfcn.h>
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <map>
#include <string>

static std::map<std::string, std::deque<uint64_t>> vals;
static int outfd = 1;
static void say(const char* f, const char* s, unsigned long v) {
  char b[4096];
  int n = snprintf(b, sizeof b, f, s, v);
  if (n > (int)sizeof b - 1) n = sizeof b - 1;
  if (write(outfd, b, n) != n) _exit(99);
}
static bool missing = false;
static uint64_t take(const char* n) {
  auto& q = vals[n];
  if (q.empty()) { if (!missing) { missing = true; say("MISSING %s %lu\n", n, 0); } return 0; }
  uint64_t v = q.front();
  q.pop_front();
  return v;
}
extern "C" {
int se_exact_text = 1;
unsigned long se_sym(const char* name, unsigned bits) {
  uint64_t v = take(name);
  return bits >= 64 ? v : v & ((1ull << bits) - 1);
}
unsigned long se_choose(const char* name, unsigned long n) {
  uint64_t v = take(name);
  return v < n ? v : 0;
}
void se_stop() { say("STOP\n", "", 0); _exit(0); }
void se_assume(bool b) { if (!b) { say("ASSUME\n", "", 0); _exit(11); } }
void se_assert(bool b, const char* m) { if (!b) { say("FAIL assert %s\n", m, 0); _exit(10); } }
void se_reach(const char* l) { say("REACH %s\n", l, 0); }
void se_emit(unsigned long v) { say("EMIT%s %lu\n", "", v); }
void se_fatal(const char* m) { say("FAIL fatal %s\n", m, 0); _exit(10); }
unsigned long se_concretize(unsigned long v) { return v; }
void se_thread(unsigned long) {}
void se_sync(unsigned long, unsigned) {}
int se_is_symbolic(unsigned long) { return 0; }
int se_native() { return 1; }
void se_print(const char* s, unsigned long v) { say("PRINT %s %lu\n", s, v); }
}
int main(int argc, char** argv) {
  FILE* f = fopen(argv[1], "r");
  if (!f) return 2;
  char entry[512], name[512];
  unsigned long n, bits, v;
  int k = 0;
  while (fscanf(f, " case %500s %lu", entry, &n) == 2) {
    vals.clear();
    for (unsigned long i = 0; i < n; i++) {
      if (fscanf(f, " %500s %lu %lu", name, &bits, &v) != 3) return 2;
      vals[name].push_back(v);
    }
    void (*fn)() = (void (*)())dlsym(RTLD_DEFAULT, entry);
    printf("CASE %d %s\n", k++, entry);
    fflush(stdout);
    if (!fn) { printf("END noentry\n"); continue; }
    pid_t p = fork();
    if (p == 0) {
      alarm(20);
      fn();
      say("RETURN\n", "", 0);
      _exit(0);
    }
    int st = 0;
    waitpid(p, &st, 0);
    if (WIFSIGNALED(st)) printf("END signal %d\n", WTERMSIG(st));
    else printf("END exit %d\n", WEXITSTATUS(st));
    fflush(stdout);
  }
  return 0;
}

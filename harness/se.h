// Intrinsics of the symbolic executor.  In a native replay build they read the
// counterexample (tools/native.cc).
#pragma once
#include <cstdint>
extern "C" {
unsigned long se_sym(const char* name, unsigned bits);
unsigned long se_choose(const char* name, unsigned long n);
void se_assume(bool);
void se_assert(bool, const char* msg);
void se_reach(const char* label);
void se_emit(unsigned long);
void se_stop() __attribute__((noreturn));
void se_fatal(const char* msg) __attribute__((noreturn));
unsigned long se_concretize(unsigned long);
int se_is_symbolic(unsigned long);
int se_native();
void se_print(const char*, unsigned long);
// data races between the accesses made as thread 1 and as thread 2 (0: ends and decides)
void se_thread(unsigned long);
void se_sync(unsigned long lock, unsigned kind);   // 1, 2 acquired (shared, exclusively), 3, 4 released
extern int se_exact_text;
}

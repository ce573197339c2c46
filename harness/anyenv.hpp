// Surroundings of entities of any class: no log file, a clock which does not move.
#ifndef VERIF_ANYENV_HPP
#define VERIF_ANYENV_HPP
#include <dlfcn.h>
#include <stdio.h>
#include <string>
#include <sys/time.h>
#include <time.h>
// an entity appends to a fixed log file: send it to /dev/null
extern "C" FILE *fopen64(const char *p, const char *m) {
  typedef FILE *(*F)(const char *, const char *);
  static F f = (F)dlsym(RTLD_NEXT, "fopen64");
  return f(std::string(p) == "/tmp/fd_log.dat" ? "/dev/null" : p, m);
}
extern "C" FILE *fopen(const char *p, const char *m) {
  typedef FILE *(*F)(const char *, const char *);
  static F f = (F)dlsym(RTLD_NEXT, "fopen");
  return f(std::string(p) == "/tmp/fd_log.dat" ? "/dev/null" : p, m);
}
// the clock does not move: two entities read the same time
extern "C" int gettimeofday(struct timeval *tv, void *) noexcept {
  tv->tv_sec = 1795060303, tv->tv_usec = 688530;
  return 0;
}
extern "C" clock_t clock() noexcept { return 12345; }
#endif

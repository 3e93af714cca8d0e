#pragma once
// Line protocol of the sequential drivers.
//   input : "T <id>" starts a new execution; every other line is one operation,
//           a name followed by arguments; strings are written x<hex>
//   output: "T <id>" and then one line per operation: "R <field>=<value> ..."
// Every line is flushed, so that after a crash the runner knows what was done.
#include <string>
#include <vector>
#include <list>
#include <iostream>
#include <sstream>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <ctime>
#include <unistd.h>
#include <functional>
#include <exception>

namespace drv {
  inline std::string unhex(const std::string & h) {
    std::string r;
    auto v = [](char c) { return (c <= '9') ? c - '0' : c - 'a' + 10; };
    for(size_t i = 1; i + 1 < h.size(); i += 2) r.push_back((char)(v(h[i]) * 16 + v(h[i+1])));
    return r;
  }
  inline std::string hex(const std::string & s) {
    static const char * d = "0123456789abcdef";
    std::string r = "x";
    for(unsigned char c : s) { r.push_back(d[c >> 4]); r.push_back(d[c & 15]); }
    return r;
  }

  struct Line {
    std::vector<std::string> a;
    const std::string & op() const { return a[0]; }
    std::string str(size_t i) const { return unhex(a.at(i)); }
    long num(size_t i) const { return strtol(a.at(i).c_str(), nullptr, 10); }
    unsigned long unum(size_t i) const { return strtoul(a.at(i).c_str(), nullptr, 10); }
    char chr(size_t i) const { auto s = str(i); return s.empty() ? '\000' : s[0]; }
  };

  inline FILE *& outf() { static FILE * f = stdout; return f; }

  struct Reply {
    std::string s;
    Reply & f(const char * k, const std::string & v) { s += std::string(" ") + k + "=" + hex(v); return *this; }
    Reply & n(const char * k, long v) { s += std::string(" ") + k + "=" + std::to_string(v); return *this; }
    Reply & raw(const char * k, const std::string & v) { s += std::string(" ") + k + "=" + v; return *this; }
  };

  inline int & outfd() { static int fd = 1; return fd; }

  // a bool that may never have been written
  __attribute__((noinline)) inline bool truth(const bool & b) { unsigned char c; memcpy(&c, (const void *) &b, 1); return c != 0; }

  // A script hangs if it makes no progress for 10 s (it waits for ever) or uses 20 s of processor time; on a
  // machine that is busy with other things it may take longer.
  inline double cpu() {
    struct timespec t;
    clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
  }
  inline double & began() { static double t = 0; return t; }
  inline double & atTick() { static double t = 0; return t; }
  inline int & idle() { static int n = 0; return n; }
  inline void watch() { began() = atTick() = cpu(); idle() = 0; alarm(5); }

  inline void onAlarm(int) {
    double c = cpu();
    idle() = c - atTick() < 0.001 ? idle() + 1 : 0;
    atTick() = c;
    if(idle() < 2 && c - began() < 20) { alarm(5); return; }
    static const char m[] = "H\n";
    ssize_t x = write(outfd(), m, 2); (void) x;
    _exit(77);
  }

  // start: begin a new execution.  op: perform one operation
  inline int run(const std::function<void()> & start,
                 const std::function<void(const Line &, Reply &)> & op) {
    const char * fd = getenv("DRV_FD");
    outfd() = fd ? atoi(fd) : 1;
    outf() = fdopen(outfd(), "w");
    signal(SIGALRM, onAlarm);
    std::string l;
    while(std::getline(std::cin, l)) {
      Line ln;
      std::istringstream is(l);
      std::string w;
      while(is >> w) ln.a.push_back(w);
      if(ln.a.empty()) continue;
      if(ln.op() == "T") {
        start();            // a crash while the old objects are destroyed belongs to the old execution
        watch();
        fprintf(outf(), "T %s\n", ln.a[1].c_str());
        fflush(outf());
        continue;
      }
      Reply r;
      try {
        op(ln, r);
      }
      catch(std::exception & e) {
        r.s = "";
        r.f("escaped", e.what());
      }
      catch(...) {
        r.s = "";
        r.f("escaped", "unknown exception");
      }
      fprintf(outf(), "R%s\n", r.s.c_str());
      fflush(outf());
    }
    start();
    fprintf(outf(), "E\n");
    fflush(outf());
    return 0;
  }

  // A world is what one script works on: start() makes it new, op() performs one operation.
  template<typename W> int runWorld() {
    W w;
    return run([&]() { w.start(); }, [&](const Line & l, Reply & r) { w.op(l, r); });
  }
}

// MANY: the worlds of all drivers are used in one program, by threads of their own
#ifdef MANY
#define DRIVER_MAIN(W)
#else
#define DRIVER_MAIN(W) int main() { return drv::runWorld<W>(); }
#endif

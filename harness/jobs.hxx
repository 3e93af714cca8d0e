#pragma once
// Reads jobs, runs each under the schedules it asks for, prints the distinct logs.
// A driver defines
//   header(word, rest of the line)   other lines of a job; false: unknown
//   fresh()                          a new job begins
//   oneRun(options)                  one execution: must call began(), sched::run and ended()
#include "sched.hxx"
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <sstream>
#include <unordered_set>
#include <sched.h>
#include <unistd.h>

#define PLAIN __attribute__((no_sanitize("thread")))

static char logbuf[1 << 19];
static size_t loglen = 0;
static std::string curJob = "-";
static int runNo = 0;
static unsigned long curSeed = 0;
static bool timed = false;
static bool deepPoints = false;

PLAIN static void logf(const char * kind, int t, const char * what) {
  sched::quiet(true);
  if(loglen + 1200 < sizeof(logbuf)) {
    loglen += snprintf(logbuf + loglen, 1000, "%s%s,%d,%s", loglen ? ";" : "", kind, t, what);
    if(timed) {
      long n = sched::now() / 1000000, s = sched::stolen() / 1000000;
      loglen += snprintf(logbuf + loglen, 100, ",%ld,%ld,%ld,%ld", n / 1000, n % 1000, s / 1000, s % 1000);
    }
  }
  sched::quiet(false);
}

PLAIN static void onFault(int sig) {
  static char out[(1 << 20) + 4096];
  const std::string & p = sched::picksSoFar();
  int n = snprintf(out, sizeof(out), "X %s %d %lu %.200000s %s%sfault,signal %d\n", curJob.c_str(), runNo, curSeed,
                   p.empty() ? "-" : p.c_str(), logbuf, loglen ? ";" : "", sig);
  ssize_t x = write(1, out, n); (void) x;
  _exit(78);
}

static bool header(const std::string & w, std::istream & is);
static void fresh();
static void oneRun(const sched::Options & o);

static std::unordered_set<std::string> seen;

PLAIN static void stuckAt(const sched::Result & r) {
  std::string s;
  for(int t : r.stuck) s += "," + std::to_string(t);
  loglen += snprintf(logbuf + loglen, 2000, "%s%s%s", loglen ? ";" : "", r.status == sched::HANG ? "hang" : "stuck", s.c_str());
  if(timed) {
    long n = sched::now() / 1000000, q = sched::stolen() / 1000000;
    loglen += snprintf(logbuf + loglen, 100, ",%ld,%ld,%ld,%ld", n / 1000, n % 1000, q / 1000, q % 1000);
  }
}

static void began() {
  loglen = 0; logbuf[0] = 0;
  alarm(150);
}

static void ended(const sched::Result & r) {
  if(seen.insert(std::string(logbuf, loglen)).second)
    printf("X %s %d %lu %s %s\n", curJob.c_str(), runNo, curSeed, r.picks.empty() ? "-" : r.picks.c_str(), logbuf);
}

static int runJobs() {
  cpu_set_t cs;
  CPU_ZERO(&cs);
  if(sched_getaffinity(0, sizeof(cs), &cs) == 0) {
    // all the threads of this process on one processor: they take turns anyway
    int n = CPU_COUNT(&cs), want = getpid() % n, i = 0, c = 0;
    for(; c < CPU_SETSIZE; c++) if(CPU_ISSET(c, &cs) && i++ == want) break;
    CPU_ZERO(&cs); CPU_SET(c, &cs);
    sched_setaffinity(0, sizeof(cs), &cs);
  }
  for(int s : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL, SIGALRM}) signal(s, onFault);
  std::string l;
  while(std::getline(std::cin, l)) {
    std::istringstream is(l);
    std::string w;
    is >> w;
    if(w == "J") {
      is >> curJob;
      runNo = 0; seen.clear();
      fresh();
    }
    else if(w == "run") {
      sched::Options o;
      long runs, mem, bound;
      std::string picks;
      is >> o.strategy >> curSeed >> runs >> o.spurious >> o.steals >> mem >> bound >> o.steps >> picks;
      o.memPercent = mem;
      o.deep = deepPoints;
      if(picks != "-") {
        std::istringstream ps(picks);
        std::string d;
        while(std::getline(ps, d, ',')) {
          size_t c = d.find(':');
          o.picks.push_back(std::make_pair(atol(d.c_str()), atoi(d.c_str() + c + 1)));
        }
      }
      long done = 0;
      if(o.strategy == "dfs") {
        sched::dfsStart((int) bound);
        o.seed = curSeed;
        while((runs == 0 || done < runs) && sched::dfsNext()) { oneRun(o); done++; }
      }
      else
        for(; done < runs; done++, curSeed++) { o.seed = curSeed; oneRun(o); }
      printf("D %s %ld %d\n", curJob.c_str(), done, (runs == 0 || done < runs) ? 1 : 0);
      runNo++;
      fflush(stdout);
    }
    else if(!w.empty() && !header(w, is)) { fprintf(stderr, "bad line %s\n", l.c_str()); return 3; }
  }
  printf("E\n");
  fflush(stdout);
  _exit(0);
}

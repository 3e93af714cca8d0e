// Several threads, each with objects of its own (C01) or all reading the same ones (C02), under controlled schedules.
//
//   J <id>
//   pre <world> <op> <op> ...     makes the objects of a world that the threads below marked sh use together
//   th <world> <op> <op> ...      one line per thread; an operation is the hex text (x...) of a line of the sequential
//                                 driver for that world
//   sh <op> <op> ...              a thread that performs its operations on the world made by pre
//   run ...                       as for conc_drv
// A log has one entry per thread: <reply>/<reply>/... with blanks written as +; a stuck or hung run ends with that.
#define MANY
#include <iostream>
#include <memory>
#include <sstream>
#include <streambuf>
#include "sched.hxx"
#define PLAIN __attribute__((no_sanitize("thread"), no_sanitize_coverage))

// standard error, for each thread separately
static std::string * errText[32];
struct Fork : std::streambuf {
  PLAIN std::string & mine() {
    std::string * & p = errText[sched::self() + 1];
    if(p == nullptr) p = new std::string;
    return *p;
  }
  PLAIN int overflow(int c) override { if(c != EOF) mine().push_back((char) c); return c; }
  PLAIN std::streamsize xsputn(const char * s, std::streamsize n) override { mine().append(s, n); return n; }
};
static Fork forkBuf;
struct PerThread {
  PLAIN PerThread() { sched::quiet(true); forkBuf.mine().clear(); sched::quiet(false); }
  PLAIN std::string str() { sched::quiet(true); std::string r = forkBuf.mine(); sched::quiet(false); return r; }
};

#include "format_drv.cxx"
#include "split_drv.cxx"
#include "options_drv.cxx"
#include "ptree_drv.cxx"
#include "mailbox_drv.cxx"
#undef PLAIN
#include "jobs.hxx"

struct Worker {
  std::string world;
  bool shared = false;
  std::vector<std::string> ops;
  std::string log;
};
static std::vector<Worker> workers;
static Worker before;

template<typename W> static void perform(Worker & w, W & world) {
  for(auto & o : w.ops) {
    sched::quiet(true);
    drv::Line ln;
    std::istringstream is(o);
    std::string x;
    while(is >> x) ln.a.push_back(x);
    drv::Reply r;
    sched::quiet(false);
    std::string bad;
    try { world.op(ln, r); }
    catch(std::exception & e) { bad = e.what(); if(bad.empty()) bad = "exception"; }
    catch(...) { bad = "unknown exception"; }
    sched::quiet(true);
    if(!bad.empty()) { r.s = ""; r.f("escaped", bad); }
    std::string s = r.s;
    for(char & c : s) if(c == ' ') c = '+';
    w.log += (w.log.empty() ? "" : "/") + (s.empty() ? std::string("+") : s);
    sched::quiet(false);
    if(!bad.empty()) break;
  }
}

typedef std::vector<std::function<void()>> Bodies;

template<typename W> static void body(Worker & w, const std::shared_ptr<void> & common, Bodies & b) {
  Worker * p = &w;
  if(w.shared) {
    W * c = static_cast<W *>(common.get());
    b.push_back([p, c]() { perform<W>(*p, *c); });
  }
  else b.push_back([p]() { W world; world.start(); perform<W>(*p, world); });
}

template<typename W> static std::shared_ptr<void> prepare() {
  auto w = std::make_shared<W>();
  w->start();
  perform<W>(before, *w);
  return w;
}

static std::shared_ptr<void> common(const std::string & w) {
  if(w == "format") return prepare<FormatWorld>();
  if(w == "options") return prepare<opts::OptionsWorld>();
  if(w == "ptree") return prepare<ptree::TreeWorld>();
  if(w != "") exit(3);
  return nullptr;
}

static void oneRun(const sched::Options & o) {
  began();
  Bodies bodies;
  before.log.clear();
  std::shared_ptr<void> c = common(before.world);
  for(auto & w : workers) {
    w.log.clear();
    if(w.world == "format") body<FormatWorld>(w, c, bodies);
    else if(w.world == "split") body<SplitWorld>(w, c, bodies);
    else if(w.world == "options") body<opts::OptionsWorld>(w, c, bodies);
    else if(w.world == "ptree") body<ptree::TreeWorld>(w, c, bodies);
    else if(w.world == "mailbox") body<mail::MailWorld>(w, c, bodies);
    else exit(3);
  }
  auto r = sched::run(bodies, o);
  if(!before.world.empty()) loglen += snprintf(logbuf + loglen, sizeof(logbuf) - loglen, "%s", before.log.c_str());
  for(auto & w : workers) {
    if(loglen + w.log.size() + 1000 >= sizeof(logbuf)) { fprintf(stderr, "log too long\n"); exit(3); }
    loglen += snprintf(logbuf + loglen, sizeof(logbuf) - loglen, "%s%s", loglen ? ";" : "", w.log.c_str());
  }
  if(r.status != sched::DONE) stuckAt(r);
  ended(r);
}

static void fresh() { workers.clear(); before = Worker(); }

static bool header(const std::string & w, std::istream & is) {
  if(w != "th" && w != "pre" && w != "sh") return false;
  Worker k;
  if(w == "sh") { k.world = before.world; k.shared = true; }
  else is >> k.world;
  std::string x;
  while(is >> x) k.ops.push_back(drv::unhex(x));
  if(w == "pre") before = k; else workers.push_back(k);
  return true;
}

int main() {
  deepPoints = true;
  std::cerr.rdbuf(&forkBuf);
  return runJobs();
}

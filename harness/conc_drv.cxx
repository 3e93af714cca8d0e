// Runs small concurrent workloads on the Barrier and the MailBox under controlled schedules.
//
// input (stdin), one job:
//   J <id>
//   barrier <N> [<name> [<M> <name>]]   |   mailbox      names are written x<hex>
//   pre <ops>                    before the threads start (mailbox)
//   th <ops>                     one line per thread
//   post <ops>                   after they are done (mailbox)
//   run <strategy> <seed> <runs> <spurious> <steals> <mem%> <bound> <steps> <picks or ->
// output (stdout): one line "X <job> <number of the run line> <seed> <picks> <log>" per distinct log and at the end of a run
//   line "D <job> <runs>". A log is a ;-separated list of
//   c,<thread>,<op>,<s>,<ms>,<stolen s>,<stolen ms>   r,<thread>,<result>,<...>   stuck,<threads>   hang   fault,<why>
#include "jobs.hxx"
#include "Barrier.hxx"
#include "MailBox.hxx"

// ------------------------------------------------------------------------- Barrier
// Operations: w<ms> n x<ms> on the first barrier, W<ms> N X<ms> on the second, s<ms> sleeps.
// The result of a wait that threw is <exception>|<bases>|<hex of its text>.
static std::string told(const char * res, std::exception & e) {
  sched::quiet(true);
  std::string r = std::string(res) + "|";
  if(dynamic_cast<SoDa::Barrier::Exception *>(&e)) r += "b";
  if(dynamic_cast<SoDa::Exception *>(&e)) r += "s";
  if(dynamic_cast<std::runtime_error *>(&e)) r += "r";
  r += "|x";
  for(const char * p = e.what(); *p && r.size() < 900; p++) { char h[4]; snprintf(h, 4, "%02x", (unsigned char) *p); r += h; }
  sched::quiet(false);
  return r;
}

static void barrierOp(SoDa::Barrier & b0, SoDa::Barrier & b1, int t, const std::string & op) {
  long v = strtol(op.c_str() + 1, nullptr, 10);
  if(op[0] == 's') { sched::sleepFor((int64_t) v * 1000000); return; }
  SoDa::Barrier & b = (op[0] < 'a') ? b1 : b0;
  char o = op[0] | 32;
  logf("c", t, op.c_str());
  std::string res = "ok";
  try {
    if(o == 'w') b.wait((unsigned long) v);
    else if(o == 'n') b.wait();
    else b.wait(std::chrono::milliseconds(v));
  }
  catch(SoDa::Barrier::Timeout & e) { res = told("timeout", e); }
  catch(SoDa::Barrier::Corrupt & e) { res = told("corrupt", e); }
  catch(std::exception & e) { res = "other"; }
  logf("r", t, res.c_str());
}

// ------------------------------------------------------------------------- MailBox
static int liveMsgs = 0;
struct Msg {
  int id, magic;
  PLAIN Msg(int i) : id(i), magic(0x5a5a1234) { liveMsgs++; }
  PLAIN ~Msg() { if(magic != 0x5a5a1234) raise(SIGSEGV); magic = 0; liveMsgs--; }
};
typedef SoDa::MailBox<Msg> Box;
static const int SLOTS = 12;
struct Mail {
  std::shared_ptr<Box> box;
  Box::Subscription slot[SLOTS];
  int number[SLOTS];
  std::vector<std::shared_ptr<Msg>> taken[20];
};

static void mailOp(Mail & m, int t, const std::string & op) {
  int k = atoi(op.c_str() + 1);
  char res[40] = "ok";
  logf("c", t, op.c_str());
  try {
    switch(op[0]) {
    case 's': m.slot[k] = m.box->subscribe(); m.number[k] = m.slot[k]->subscriber_index; break;
    case 'p': { auto x = std::make_shared<Msg>(k); m.box->put(x); break; }
    case 'q': {
      int w = atoi(strchr(op.c_str(), '.') + 1);
      auto x = std::make_shared<Msg>(k); m.box->put(x, m.slot[w]); break;
    }
    case 'g': {
      auto x = m.box->get(m.slot[k]);
      if(x == nullptr) strcpy(res, "null");
      else { snprintf(res, sizeof(res), "%d", x->magic == 0x5a5a1234 ? x->id : -1); m.taken[t + 1].push_back(x); }
      break;
    }
    case 'r': snprintf(res, sizeof(res), "%d", (int) m.box->readyCount(m.slot[k])); break;
    case 'm': snprintf(res, sizeof(res), "%d", (int) m.box->minReadyCount()); break;
    case 'n': snprintf(res, sizeof(res), "%d", (int) m.box->subscriberCount()); break;
    case 'c': m.box->clear(m.slot[k]); break;
    case 'u': m.box->unsubscribe(m.number[k]); break;
    case 'd': m.slot[k] = nullptr; break;
    }
  }
  catch(Box::MissingSubscriber & e) { strcpy(res, "missing"); }
  catch(Box::SubscriptionMismatch & e) { strcpy(res, "mismatch"); }
  catch(std::exception & e) { strcpy(res, "other"); }
  logf("r", t, res);
}

// ------------------------------------------------------------------------- jobs
typedef std::vector<std::string> Ops;
static std::string unhex(const std::string & h) {
  std::string r;
  for(size_t i = 1; i + 1 < h.size(); i += 2) r.push_back((char) strtol(h.substr(i, 2).c_str(), nullptr, 16));
  return r;
}
static std::string kind;
static int N = 0, M = 2;
static std::string nameN = "b", nameM = "c";
static Ops pre, post;
static std::vector<Ops> threads;
static void oneRun(const sched::Options & o) {
  began();
  std::vector<std::function<void()>> bodies;
  sched::Result r;
  if(kind == "barrier") {
    timed = true;
    std::string tmp = nameN;
    auto b = SoDa::makeBarrier(tmp, N);
    tmp.assign(tmp.size(), 35);      // the barrier has a name of its own
    std::shared_ptr<SoDa::Barrier> b2(new SoDa::Barrier(nameM, M));
    for(size_t t = 0; t < threads.size(); t++)
      bodies.push_back([t, &b, &b2]() { for(auto & op : threads[t]) barrierOp(*b, *b2, (int) t, op); });
    r = sched::run(bodies, o);
    if(r.status != sched::DONE) stuckAt(r);
    if(r.status != sched::DONE) {     // somebody is still inside
      new std::shared_ptr<SoDa::Barrier>(b);
      new std::shared_ptr<SoDa::Barrier>(b2);
    }
  }
  else {
    timed = false;
    liveMsgs = 0;
    Mail * m = new Mail;
    m->box = SoDa::makeMailBox<Msg>("m");
    for(auto & op : pre) mailOp(*m, -1, op);
    for(size_t t = 0; t < threads.size(); t++)
      bodies.push_back([t, m]() { for(auto & op : threads[t]) mailOp(*m, (int) t, op); });
    r = sched::run(bodies, o);
    if(r.status != sched::DONE) stuckAt(r);
    else {
      for(auto & op : post) mailOp(*m, -1, op);
      for(auto & s : m->slot) s = nullptr;
      m->box = nullptr;
      for(auto & v : m->taken) v.clear();
      loglen += snprintf(logbuf + loglen, 100, "%slive,%d", loglen ? ";" : "", liveMsgs);
      delete m;
    }
  }
  ended(r);
}

static void fresh() { pre.clear(); post.clear(); threads.clear(); }

static bool header(const std::string & w, std::istream & is) {
  Ops ops;
  if(w == "barrier") {
    kind = w; M = 2; nameN = "b"; nameM = "c";
    std::string x;
    is >> N;
    if(is >> x) nameN = unhex(x);
    if(is >> M >> x) nameM = unhex(x);
  }
  else if(w == "mailbox") kind = w;
  else if(w == "pre" || w == "post" || w == "th") {
    std::string x;
    while(is >> x) ops.push_back(x);
    if(w == "th") threads.push_back(ops);
    else (w == "pre" ? pre : post) = ops;
  }
  else return false;
  return true;
}

int main() { return runJobs(); }

// Sequential driver of SoDa::MailBox.
#include "drv.hxx"
#include "MailBox.hxx"
#include <map>
#include <set>

namespace mail {
static thread_local std::vector<int> died;
struct Msg {
  int id;
  Msg(int i) : id(i) { }
  ~Msg() { died.push_back(id); id = -id - 1000000; }
};
struct Other { double x; };
typedef SoDa::MailBox<Msg> Box;
typedef SoDa::MailBox<Other> OtherBox;

struct World {
  std::shared_ptr<Box> box[4];
  std::string name[4];
  Box::Subscription slot[400];
  int number[400];
  std::shared_ptr<Msg> hand[8];
  std::map<int, Msg *> made;
  bool same = true;

  ~World() { end(); }
  void end() {
    for(auto & s : slot) s = nullptr;
    for(auto & h : hand) h = nullptr;
    for(auto & b : box) b = nullptr;
  }
  std::shared_ptr<Msg> make(int id) {
    auto p = std::make_shared<Msg>(id);
    made[id] = p.get();
    return p;
  }
  std::string show(const std::shared_ptr<Msg> & p) {
    if(p == nullptr) return "";
    auto it = made.find(p->id);
    if(it == made.end() || it->second != p.get()) same = false;
    return std::to_string(p->id);
  }
};

struct MailWorld {
  std::unique_ptr<World> w;
  void start() {
      w.reset();
      w.reset(new World);
      for(int i = 1; i <= 3; i++) w->box[i] = SoDa::makeMailBox<Msg>(w->name[i] = "box" + std::to_string(i));
      died.clear();
  }
  void op(const drv::Line & ln, drv::Reply & r) {
      died.clear();
      died.reserve(100000);
      w->same = true;
      std::string res = "ok";
      const std::string & op = ln.op();
      // arguments: mailbox, subscription, variable, message, number
      if(op == "names") {
        // names <1> <2> <3>: mailboxes with these names instead
        for(int i = 1; i <= 3; i++) {
          std::string tmp = w->name[i] = ln.str(i);
          w->box[i] = (i == 3) ? std::shared_ptr<Box>(new Box(tmp)) : SoDa::makeMailBox<Msg>(tmp);
        }
        r.f("res", "ok").n("same", 1).raw("died", "d");
        return;
      }
      std::string what, bases;
      auto told = [&](std::exception & e, const char * kind) {
        res = kind;
        what = e.what();
        if(dynamic_cast<SoDa::MailBoxBase::Exception *>(&e)) bases += "m";
        if(dynamic_cast<SoDa::Exception *>(&e)) bases += "s";
        if(dynamic_cast<std::runtime_error *>(&e)) bases += "r";
      };
      int b = (int) ln.num(1), k = (int) ln.num(2), h = (int) ln.num(3), x = (int) ln.num(4), n = (int) ln.num(5);
      try {
        if(op == "sub") {
          w->slot[k] = w->box[b]->subscribe();
          w->number[k] = w->slot[k]->subscriber_index;
          r.n("n", w->number[k]);
        }
        else if(op == "visit") {
          // n subscriptions that come and go, one after the other
          for(int i = 0; i < n; i++) {
            auto s = w->box[b]->subscribe();
            if(i % 100 == 1) w->box[b]->unsubscribe(s->subscriber_index);
          }
        }
        else if(op == "new") w->hand[h] = w->make(x);
        else if(op == "let") w->hand[h] = nullptr;
        else if(op == "put") w->box[b]->put(w->hand[h]);
        else if(op == "putn") w->box[b]->put(w->hand[h], w->slot[k]);
        else if(op == "puts") for(int i = 0; i < n; i++) w->box[b]->put(w->make(x + i));
        else if(op == "get") {
          auto p = w->box[b]->get(w->slot[k]);
          res = "m" + w->show(p);
          if(h >= 0) w->hand[h] = p;
        }
        else if(op == "gets") {
          res = "m";
          for(int i = 0; i < n; i++) {
            auto p = w->box[b]->get(w->slot[k]);
            if(p == nullptr) break;
            res += (res.size() > 1 ? "," : "") + w->show(p);
          }
        }
        else if(op == "clear") w->box[b]->clear(w->slot[k]);
        else if(op == "unsub") {
          if(k >= 0) n = w->number[k];        // the number that subscription has or had
          r.n("n", n);
          w->box[b]->unsubscribe(n);
        }
        else if(op == "drop") w->slot[k] = nullptr;
        else if(op == "finish") w->end();
        else if(op == "lose") w->slot[k].release();
        else if(op == "destroy") w->box[b] = nullptr;
        else if(op == "ready") res = "i" + std::to_string((long) w->box[b]->readyCount(w->slot[k]));
        else if(op == "min") res = "i" + std::to_string((long) (int) w->box[b]->minReadyCount());
        else if(op == "count") res = "i" + std::to_string((long) w->box[b]->subscriberCount());
        else if(op == "convert") {
          std::shared_ptr<SoDa::MailBoxBase> base = w->box[b];
          auto p = SoDa::MailBoxBase::convert<Box>(base);
          if(p != w->box[b] || base->getName() != w->name[b]) res = "other box";
        }
        else if(op == "badconvert") {
          std::shared_ptr<SoDa::MailBoxBase> base = w->box[b];
          auto p = SoDa::MailBoxBase::convert<OtherBox>(base);
        }
      }
      catch(Box::MissingSubscriber & e) { told(e, "missing"); }
      catch(Box::SubscriptionMismatch & e) { told(e, "mismatch"); }
      catch(Box::BadConversion & e) { told(e, "badconversion"); }
      catch(SoDa::Exception & e) { res = "another exception"; }
      if(!what.empty()) r.f("what", what).raw("bases", bases);
      r.f("res", res);
      r.n("same", w->same ? 1 : 0);
      std::string d = "d";
      for(int i : died) d += std::to_string(i) + ",";
      r.raw("died", d);
  }
};
}

DRIVER_MAIN(mail::MailWorld)

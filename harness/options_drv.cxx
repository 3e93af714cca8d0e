// Driver for SoDa::Options
#include "drv.hxx"
#include "Options.hxx"
#include <memory>
#include <algorithm>

namespace opts {
using SoDa::Options;

template<typename T> static std::string show(const T & v) {
  std::ostringstream os;
  os.precision(17);
  os << v;
  return os.str();
}
static std::string show(const std::string & v) { return v; }

template<typename T> static T make(const std::string & s) {
  std::istringstream is(s);
  T v = T();
  is >> v;
  return v;
}
template<> std::string make<std::string>(const std::string & s) { return s; }

// split a list written as x<hex>x<hex>...
static std::vector<std::string> unlist(const std::string & t) {
  std::vector<std::string> r;
  size_t p = 0;
  while(p < t.size() && t[p] == 'x') {
    size_t e = t.find('x', p + 1);
    r.push_back(drv::unhex(t.substr(p, (e == std::string::npos) ? std::string::npos : e - p)));
    if(e == std::string::npos) break;
    p = e;
  }
  return r;
}

struct Target {
  std::string name;
  char ab;
  virtual ~Target() { }
  virtual std::string seen() = 0;
};

template<typename T> struct Test {
  static std::function<bool(T)> get(const std::string & kind, const std::string & arg) {
    T a = make<T>(arg);
    if(kind == "lt") return [a](T v) { return v < a; };
    if(kind == "ge") return [a](T v) { return v >= a; };
    if(kind == "isnt") return [a](T v) { return v != a; };
    return nullptr;
  }
};
template<> struct Test<std::string> {
  static std::function<bool(std::string)> get(const std::string & kind, const std::string & arg) {
    if(kind == "len") { size_t n = atol(arg.c_str()); return [n](std::string v) { return v.size() <= n; }; }
    if(kind == "isnt") return [arg](std::string v) { return v != arg; };
    return nullptr;
  }
};

struct Flag : Target {
  bool v = true;
  std::string seen() override { return "s" + drv::hex(drv::truth(v) ? "1" : "0"); }
};

template<typename T> struct Scalar : Target {
  T v;
  std::string seen() override { return "s" + drv::hex(show(v)); }
};
template<typename T> struct Vec : Target {
  std::vector<T> v;
  std::string seen() override {
    std::string r = "v";
    for(T x : v) r += drv::hex(show(x));
    return r;
  }
};

// the overloads of add are ambiguous for a string default without a description
template<typename T> static void addDef(Options & o, T * p, const std::string & n, char a, T d) { o.add(p, n, a, d); }
static void addDef(Options & o, std::string * p, const std::string & n, char a, std::string d) {
  o.add<std::string>(p, n, a, d, std::string(""));
}

template<typename T> static void addNoDef(Options & o, T * p, const std::string & n, char a, const std::string & doc) {
  o.add<T>(p, n, a, doc);
}
static void addNoDef(Options & o, std::string * p, const std::string & n, char a, const std::string & doc) {
  o.add<std::string>(p, n, a, doc, [](std::string) { return true; });
}

struct Setup {
  std::unique_ptr<Options> o;
  std::vector<std::unique_ptr<Target>> targets;

  template<typename T> void addOpt(const std::string & shape, const std::vector<std::string> & f) {
    // f: name ab dflt doc testkind testarg err init
    auto test = Test<T>::get(f[4], f[5]);
    if(shape == "vec") {
      auto t = new Vec<T>();
      targets.emplace_back(t);
      for(auto & s : unlist(f[7])) t->v.push_back(make<T>(s));
      if(!test && f[6].empty() && f[3].empty()) o->addV(&t->v, f[0], f[1][0]);
      else if(!test && f[6].empty()) o->addV(&t->v, f[0], f[1][0], f[3]);
      else if(!test) o->addV<T>(&t->v, f[0], f[1][0], f[3], [](T) { return true; }, f[6]);
      else o->addV<T>(&t->v, f[0], f[1][0], f[3], test, f[6]);
    }
    else {
      auto t = new Scalar<T>();
      targets.emplace_back(t);
      t->v = make<T>("1");
      if(shape == "def") {
        T d = make<T>(f[2]);
        if(!test && f[6].empty() && f[3].empty()) addDef(*o, &t->v, f[0], f[1][0], d);
        else if(!test && f[6].empty()) o->add<T>(&t->v, f[0], f[1][0], d, f[3]);
        else if(!test) o->add<T>(&t->v, f[0], f[1][0], d, f[3], [](T) { return true; }, f[6]);
        else o->add<T>(&t->v, f[0], f[1][0], d, f[3], test, f[6]);
      }
      else {
        if(!test && f[6].empty() && f[3].empty()) o->add<T>(&t->v, f[0], f[1][0]);
        else if(!test && f[6].empty()) addNoDef(*o, &t->v, f[0], f[1][0], f[3]);
        else if(!test) o->add<T>(&t->v, f[0], f[1][0], f[3], [](T) { return true; }, f[6]);
        else o->add<T>(&t->v, f[0], f[1][0], f[3], test, f[6]);
      }
    }
    targets.back()->name = f[0];
    targets.back()->ab = f[1][0];
  }
};

// collects what this thread writes to standard error
#ifdef MANY
struct Capture : PerThread { };
#else
struct Capture {
  std::ostringstream os;
  std::streambuf * old;
  Capture() { old = std::cerr.rdbuf(os.rdbuf()); }
  ~Capture() { std::cerr.rdbuf(old); }
  std::string str() { return os.str(); }
};
#endif

struct OptionsWorld {
std::unique_ptr<Setup> cur;
void start() { cur.reset(); }

void observe(drv::Reply & r) {
  Setup & s = *cur;
  std::string lng, shrt;
  std::string vals;
  for(auto & t : s.targets) {
    vals += (vals.empty() ? "" : ",") + t->seen();
    lng += drv::truth(s.o->isPresent(t->name)) ? '1' : '0';
    shrt += drv::truth(s.o->isPresent(t->ab)) ? '1' : '0';
  }
  r.raw("val", vals);
  r.raw("long", "b" + lng);
  r.raw("short", "b" + shrt);
  bool other = s.o->isPresent(std::string("never-registered")) || s.o->isPresent(std::string("")) || s.o->isPresent('~');
  for(auto & t : s.targets) other = other || s.o->isPresent(t->name + "x") || s.o->isPresent("--" + t->name);
  r.n("other", other);
  std::string pos, posg;
  for(auto & p : s.o->getPosArgs()) pos += drv::hex(p);
  r.raw("pos", pos);
  int n = s.o->numPosArgs();
  r.n("npos", n);
  posg = drv::hex(s.o->getPosArg(-1));
  for(int i = 0; i <= n + 1; i++) posg += drv::hex(s.o->getPosArg(i));
  posg += drv::hex(s.o->getPosArg(n + 1000));
  r.raw("posg", posg);
}

void op(const drv::Line & l, drv::Reply & r) {
  if(l.op() == "setup") {
    // setup <is_kvp> [I <info>]* [O shape type f1..f8]*
    cur.reset(new Setup());
    if(l.num(1)) cur->o.reset(new Options(true)); else cur->o.reset(new Options());
    size_t i = 2;
    while(i < l.a.size()) {
      if(l.a[i] == "I") { cur->o->addInfo(l.str(i + 1)); i += 2; continue; }
      std::string shape = l.a[i + 1], type = l.a[i + 2];
      std::vector<std::string> f;
      for(int k = 3; k < 10; k++) f.push_back(l.str(i + k));
      f.push_back(l.a[i + 10]);
      i += 11;
      if(shape == "flag") {
        auto t = new Flag();
        t->name = f[0]; t->ab = f[1][0];
        cur->targets.emplace_back(t);
        if(f[3].empty()) cur->o->addP(&t->v, f[0], f[1][0]); else cur->o->addP(&t->v, f[0], f[1][0], f[3]);
      }
      else if(type == "int") cur->addOpt<int>(shape, f);
      else if(type == "short") cur->addOpt<short>(shape, f);
      else if(type == "long") cur->addOpt<long>(shape, f);
      else if(type == "llong") cur->addOpt<long long>(shape, f);
      else if(type == "ushort") cur->addOpt<unsigned short>(shape, f);
      else if(type == "ullong") cur->addOpt<unsigned long long>(shape, f);
      else if(type == "unsigned") cur->addOpt<unsigned int>(shape, f);
      else if(type == "ulong") cur->addOpt<unsigned long>(shape, f);
      else if(type == "double") cur->addOpt<double>(shape, f);
      else if(type == "bool") cur->addOpt<bool>(shape, f);
      else if(type == "string") cur->addOpt<std::string>(shape, f);
      else exit(3);
    }
    observe(r);
    return;
  }
  Options & o = *cur->o;
  if(l.op() == "help") {
    std::ostringstream os;
    o.printHelp(os);
    r.f("text", os.str());
    observe(r);
    return;
  }
  bool ret = false;
  std::string err;
  {
    Capture cap;
    if(l.op() == "argv") {
      auto t = unlist(l.a.size() > 1 ? l.a[1] : "");
      std::vector<std::vector<char>> store;
      t.insert(t.begin(), "-prog");
      for(auto & s : t) { store.emplace_back(s.begin(), s.end()); store.back().push_back('\000'); }
      std::vector<char *> av;
      for(auto & s : store) av.push_back(s.data());
      av.push_back(nullptr);
      ret = o.parse((int) t.size(), av.data());
    }
    else if(l.op() == "list") {
      auto t = unlist(l.a.size() > 1 ? l.a[1] : "");
      ret = o.parse(std::list<std::string>(t.begin(), t.end()));
    }
    else if(l.op() == "str" || l.op() == "kvobj") ret = o.parse(l.str(1));
    else if(l.op() == "kv") ret = o.parseKeyValue(l.str(1));
    else if(l.op() == "kvlist") {
      auto t = unlist(l.a.size() > 1 ? l.a[1] : "");
      ret = o.parseKeyValue(std::list<std::string>(t.begin(), t.end()));
    }
    else exit(3);
    err = cap.str();
  }
  r.n("ret", ret);
  r.f("err", err);
  std::ostringstream help;
  o.printHelp(help);
  r.n("helponly", err == help.str());
  observe(r);
}

};
}

DRIVER_MAIN(opts::OptionsWorld)

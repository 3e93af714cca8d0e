// Driver for SoDa::Format and SoDa::Format_ext
#include "drv.hxx"
#include <memory>
#include "Format.hxx"

// a class extended from Format_ext, with a method of its own
class MyFormat : public SoDa::Format_ext<MyFormat> {
public:
  MyFormat(const std::string & s) : SoDa::Format_ext<MyFormat>(s, this) { }
  MyFormat & addPair(const std::string & a) {
    addS("<" + a + ">");
    return *this;
  }
};

static double bitsToDouble(const std::string & h) {
  unsigned long u = strtoul(h.c_str(), nullptr, 16);
  double d;
  memcpy(&d, &u, sizeof(d));
  return d;
}

// where the object returned by an add is, and whether it is known to be an F
template<typename F> struct Back {
  const void * at;
  bool known;
  Back(F & f) : at(&f), known(true) { }
  template<typename G> Back(G & g) : at(&g), known(false) { }
};
struct NotAccepted : std::runtime_error { NotAccepted(const char * n) : std::runtime_error(std::string("arguments not accepted: ") + n) { } };
// a call that is judged, not refused by the compiler, where the class does not offer it
#define TRY_CALL(NAME) \
  template<typename F, typename... A> auto NAME##_(int, F & f, A... a) -> decltype(f.NAME(a...), Back<F>(f)) { return Back<F>(f.NAME(a...)); } \
  template<typename F, typename... A> Back<F> NAME##_(long, F & f, A... a) { throw NotAccepted(#NAME); }
TRY_CALL(addI)
TRY_CALL(addU)
TRY_CALL(addF)
TRY_CALL(addS)
TRY_CALL(addC)
TRY_CALL(addB)

// perform one add; the number of arguments given selects how many defaults are used
template<typename F> Back<F> doAdd(F & f, const drv::Line & l) {
  size_t n = l.a.size();
  const std::string & op = l.op();
  if(op == "addI") {
    int v = (int) l.num(1);
    if(n == 2) return addI_(0, f, v);
    if(n == 3) return addI_(0, f, v, l.unum(2));
    if(n == 4) return addI_(0, f, v, l.unum(2), l.chr(3));
    return addI_(0, f, v, l.unum(2), l.chr(3), l.chr(4));
  }
  if(op == "addU") {
    unsigned long v = strtoul(l.a[1].c_str(), nullptr, 16);
    if(n == 2) return addU_(0, f, v);
    if(n == 3) return addU_(0, f, v, l.chr(2));
    if(n == 4) return addU_(0, f, v, l.chr(2), l.unum(3));
    if(n == 5) return addU_(0, f, v, l.chr(2), l.unum(3), l.chr(4));
    return addU_(0, f, v, l.chr(2), l.unum(3), l.chr(4), l.unum(5));
  }
  if(op == "addF") {
    double v = bitsToDouble(l.a[1]);
    if(n == 2) return addF_(0, f, v);
    if(n == 3) return addF_(0, f, v, l.chr(2));
    if(n == 4) return addF_(0, f, v, l.chr(2), l.unum(3));
    return addF_(0, f, v, l.chr(2), l.unum(3), l.unum(4));
  }
  if(op == "addS") {
    if(n == 2) return addS_(0, f, l.str(1));
    return addS_(0, f, l.str(1), (int) l.num(2));
  }
  if(op == "addC") return addC_(0, f, l.chr(1));
  if(op == "addB") return addB_(0, f, l.num(1) != 0);
  fprintf(stderr, "bad op %s\n", op.c_str());
  exit(3);
}

struct FormatWorld {
  std::unique_ptr<SoDa::Format> f, of;
  std::unique_ptr<MyFormat> x, ox;
  std::string str(bool chk) { return x ? x->str(chk) : f->str(chk); }
  void start() {
    f.reset(); x.reset(); of.reset(); ox.reset();
    if(SoDa::Format::separator != '.') SoDa::Format::separator = '.';
  }
  void op(const drv::Line & l, drv::Reply & r) {
      const std::string & op = l.op();
      if(op == "new") { x.reset(); f.reset(new SoDa::Format(l.str(1))); r.f("out", str(false)); }
      else if(op == "newx") { f.reset(); x.reset(new MyFormat(l.str(1))); r.f("out", str(false)); }
      else if(op == "reset") { if(x) x->reset(); else f->reset(); r.f("out", str(false)); }
      else if(op == "str") { r.f("out", f || x ? (x ? x->str() : f->str()) : std::string()); }
      else if(op == "strcopy") {
        if(x) { MyFormat c(*x); r.f("out", c.str()); } else { SoDa::Format c(*f); r.f("out", c.str()); }
      }
      else if(op == "stream") {
        std::ostringstream os;
        if(x) os << *x; else os << *f;
        r.f("out", os.str());
      }
      else if(op == "strict") {
        try { auto s = str(true); r.raw("res", "ok").f("out", s).f("what", ""); }
        catch(SoDa::Format::BadFormat & e) {
          SoDa::Exception & base = e;
          std::runtime_error & root = base;
          r.raw("res", "BadFormat").f("out", "").f("what", root.what());
        }
      }
      else if(op == "copy") {
        if(x) { ox = std::move(x); x.reset(new MyFormat(*ox)); } else { of = std::move(f); f.reset(new SoDa::Format(*of)); }
        r.f("out", str(false));
      }
      else if(op == "assign") {
        if(x) { if(!ox) ox.reset(new MyFormat("%0 %7")); *ox = *x; } else { if(!of) of.reset(new SoDa::Format("%0 %7")); *of = *f; }
        r.f("out", str(false));
      }
      else if(op == "swap") { x.swap(ox); f.swap(of); r.f("out", str(false)); }
      else if(op == "dispose") { ox.reset(); of.reset(); r.f("out", str(false)); }
      else if(op == "sep") { SoDa::Format::separator = l.chr(1); }
      else if(op == "pair") { MyFormat & m = x->addPair(l.str(1)); r.f("out", str(false)).n("same", &m == x.get()); }
      else if(x) { auto m = doAdd(*x, l); r.f("out", str(false)).n("same", m.known && m.at == static_cast<void *>(x.get())); }
      else { auto m = doAdd(*f, l); r.f("out", str(false)).n("same", m.known && m.at == static_cast<void *>(f.get())); }
  }
};

DRIVER_MAIN(FormatWorld)

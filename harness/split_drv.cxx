// Driver for SoDa::squashSpaces, split and splitVec
#include "drv.hxx"
#include "Utils.hxx"

struct SplitWorld {
void start() { }

void op(const drv::Line & l, drv::Reply & r) {
  if(l.op() == "squash") {
    std::string s = l.str(1);
    std::string o = SoDa::squashSpaces(s);
    r.f("out", o);
    r.f("again", SoDa::squashSpaces(o));
    return;
  }
  // split|splitVec <string> <delimiters> [<no_empty>]
  std::string all;
  size_t n = 0;
  if(l.op() == "split") {
    auto res = (l.a.size() > 3) ? SoDa::split(l.str(1), l.str(2), l.num(3) != 0)
                                : SoDa::split(l.str(1), l.str(2));
    for(const auto & s : res) { all += drv::hex(s); n++; }
  }
  else if(l.op() == "splitVec") {
    auto res = (l.a.size() > 3) ? SoDa::splitVec(l.str(1), l.str(2), l.num(3) != 0)
                                : SoDa::splitVec(l.str(1), l.str(2));
    for(const auto & s : res) { all += drv::hex(s); n++; }
  }
  else exit(3);
  r.n("n", (long) n);
  r.raw("list", all);
}

};

DRIVER_MAIN(SplitWorld)

// Driver for SoDa::PropertyTreeYAML
#include "drv.hxx"
#include <memory>
#include <fstream>
#include <typeinfo>
#include "Exception.hxx"
#include "PropertyTreeYAML.hxx"

namespace ptree {
typedef SoDa::PropertyTree::PropNode Node;

class Tree : public SoDa::PropertyTreeYAML {
public:
  Tree() { }
  Tree(const std::string & f) : SoDa::PropertyTreeYAML(f) { }
  Node * top() { return root; }
};

static std::string js(const std::string & s) {
  static const char * d = "0123456789abcdef";
  std::string r = "\"";
  for(unsigned char c : s) { r += "\\u00"; r += d[c >> 4]; r += d[c & 15]; }
  return r + "\"";
}

// run f; describe how it ended
static void guarded(drv::Reply & r, const std::function<std::string()> & f) {
  std::string res, what;
  bool soda = false;
  auto note = [&](const char * n, std::exception & e, bool s) { res = n; what = e.what(); soda = s; };
  try { res = f(); }
  catch(SoDa::PropertyTree::FileNotFound & e) { note("FileNotFound", e, dynamic_cast<SoDa::Exception *>(&e) != nullptr); }
  catch(Node::PropertyNotFound & e) { note("PropertyNotFound", e, dynamic_cast<SoDa::Exception *>(&e) != nullptr); }
  catch(Node::BadPropertyType & e) { note("BadPropertyType", e, dynamic_cast<SoDa::Exception *>(&e) != nullptr); }
  catch(std::exception & e) {
    // by name, so that a library without it can be judged too
    if(std::string(typeid(e).name()).find("9BadSyntax") != std::string::npos) note("BadSyntax", e, dynamic_cast<SoDa::Exception *>(&e) != nullptr);
    else note("other", e, false);
  }
  r.raw("res", res);
  r.n("soda", soda);
  r.f("what", what);
}

template<typename T> static std::string show(const T & v) {
  std::ostringstream os;
  os.precision(17);
  os << v;
  return os.str();
}

struct TreeWorld {
std::unique_ptr<Tree> tree;
~TreeWorld() { unlink(scratch().c_str()); }

void start() { tree.reset(new Tree()); }

std::string walk(Node * n, bool named) {
  if(n == nullptr) return "{\"found\":false,\"text\":false,\"t\":\"\",\"keys\":[],\"sub\":[],\"list\":[],\"name\":\"\",\"same\":false}";
  std::string t;
  bool text = n->get<std::string>(t);
  std::string r = std::string("{\"found\":true,\"text\":") + (text ? "true" : "false") + ",\"t\":" + js(text ? t : "");
  std::string keys, sub, list;
  for(auto & k : n->getKeys()) {
    keys += (keys.empty() ? "" : ",") + js(k);
    sub += (sub.empty() ? "" : ",") + walk(n->getProp(k), named);
  }
  for(auto p : n->getList()) list += (list.empty() ? "" : ",") + walk(p, false);
  std::string name;
  bool same = false;
  if(named) {
    name = n->getPathName();
    same = (tree->top()->getProp(name) == n);
  }
  return r + ",\"keys\":[" + keys + "],\"sub\":[" + sub + "],\"list\":[" + list + "],\"name\":" + js(name) +
    ",\"same\":" + (same ? "true" : "false") + "}";
}

template<typename T> std::string viaTree(const std::string & path, int thr, std::string & val) {
  T v = T();
  bool b = (thr < 0) ? tree->get<T>(v, path) : tree->get<T>(v, path, thr != 0);
  val = show(v);
  return b ? "ok" : "false";
}
template<typename T> std::string viaNode(Node * n, int thr, std::string & val) {
  T v = T();
  bool b = (thr < 0) ? n->get<T>(v) : n->get<T>(v, thr != 0);
  val = show(v);
  return b ? "ok" : "false";
}

// what is said when this node is asked for a type it does not have, for every such type
template<typename T> void refusal(Node * n, std::string & out) {
  T v = T();
  try { n->get<T>(v, true); }
  catch(Node::BadPropertyType & e) { out += drv::hex(e.what()); }
  catch(std::exception & e) { }
}
std::string refusals(Node * n) {
  std::string out;
  if(n != nullptr) {
    refusal<int>(n, out);
    refusal<unsigned int>(n, out);
    refusal<double>(n, out);
    refusal<std::string>(n, out);
  }
  return out;
}

std::string scratch() { return "doc-" + std::to_string(getpid()) + "-" + std::to_string((long) (intptr_t) this) + ".yaml"; }

void put(const std::string & text) {
  std::ofstream f(scratch(), std::ios::binary);
  f << text;
}

void op(const drv::Line & l, drv::Reply & r) {
  const std::string & o = l.op();
  if(o == "load" || o == "bad") {
    put(l.str(1));
    guarded(r, [&]() { tree->readFile(scratch()); return std::string("ok"); });
  }
  else if(o == "ctor" || o == "ctorbad") {
    put(l.str(1));
    guarded(r, [&]() { std::unique_ptr<Tree> t(new Tree(scratch())); tree = std::move(t); return std::string("ok"); });
  }
  else if(o == "missing") {
    std::string n = l.str(1);
    guarded(r, [&]() { tree->readFile(n); return std::string("ok"); });
  }
  else if(o == "ctormissing") {
    std::string n = l.str(1);
    guarded(r, [&]() { Tree t(n); return std::string("ok"); });
  }
  else if(o == "get") {
    // get <type> <path> <throw: -1 default, 0, 1>
    std::string val, type = l.a[1], path = l.str(2);
    int thr = l.num(3);
    guarded(r, [&]() {
      if(type == "int") return viaTree<int>(path, thr, val);
      if(type == "unsigned") return viaTree<unsigned int>(path, thr, val);
      if(type == "double") return viaTree<double>(path, thr, val);
      return viaTree<std::string>(path, thr, val);
    });
    r.f("val", val);
    if(thr == 1) r.raw("says", "-" + refusals(tree->top()->getProp(path)));
  }
  else if(o == "hops") {
    // hops <type> <path> <rest> <throw>: getProp(path), then getProp(rest) on that node, then get
    std::string val, type = l.a[1], path = l.str(2), rest = l.str(3);
    int thr = l.num(4);
    guarded(r, [&]() {
      Node * n = tree->top()->getProp(path);
      if(n == nullptr) return std::string("none");
      Node * m = (thr < 0) ? n->getProp(rest) : n->getProp(rest, thr != 0);
      if(m == nullptr) return std::string("false");
      if(type == "int") return viaNode<int>(m, thr, val);
      if(type == "unsigned") return viaNode<unsigned int>(m, thr, val);
      if(type == "double") return viaNode<double>(m, thr, val);
      return viaNode<std::string>(m, thr, val);
    });
    r.f("val", val);
  }
  else if(o == "walk") {
    r.f("tree", walk(tree->top(), true));
  }
  else if(o == "dump") {
    // dump <path> <indent> <by tree>
    std::ostringstream os;
    os << "before ";
    std::string text = "none";
    bool same = true;
    if(l.num(3)) same = (&tree->dump(os) == &os);
    Node * n = l.num(3) ? tree->top() : tree->top()->getProp(l.str(1));
    if(n != nullptr && !l.num(3)) same = (&n->dump(os, l.str(2)) == &os);
    if(n != nullptr) text = os.str().substr(0, 7) == "before " ? os.str().substr(7) : "what was in the stream is lost";
    r.f("text", text).n("same", same);
  }
  else exit(3);
}

};
}

DRIVER_MAIN(ptree::TreeWorld)

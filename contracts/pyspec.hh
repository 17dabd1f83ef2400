// The Python side of the contracts of C25: what an interpreter does with the
// names the module registers (see engine/pystub).
#ifndef VERIF_PYSPEC_HH
#define VERIF_PYSPEC_HH
#include <boost/python.hpp>
#include "com_spec.hh"
namespace py {
using namespace pystub;
typedef std::vector<Value> Args;
struct Raised : std::runtime_error {
  Raised(const std::string& s) : std::runtime_error(s) {}
};
inline Module& load() {
  Module& m = module();
  if (!m.loaded) {
    m.loaded = true;
    for (size_t i = 0; i < m.inits.size(); ++i) m.inits[i]();
  }
  return m;
}
inline Value invoke(const std::string& what, const std::vector<Callable>& cs, const Args& a) {
  // overloads are tried from the last registered one
  for (size_t i = cs.size(); i-- > 0;) {
    if (!cs[i].matches(a)) continue;
    try {
      return cs[i].call(a);
    } catch (engine::PathCut&) {
      throw;
    } catch (...) {
      std::string s;
      for (size_t k = load().translators.size(); k-- > 0;) {
        try {
          if (load().translators[k](s)) throw Raised(s);
        } catch (Raised&) {
          throw;
        }
      }
      try {
        throw;
      } catch (std::exception& e) {
        throw Raised(std::string("C++ exception ") + e.what());
      }
    }
  }
  throw TypeError(what + ": no overload takes these arguments");
}
inline Value call(const std::string& f, const Args& a) {
  std::map<std::string, std::vector<Callable> >::iterator it = load().functions.find(f);
  if (it == load().functions.end()) throw TypeError("no function " + f);
  return invoke(f, it->second, a);
}
inline Class& classOf(const Value& o) {
  std::map<std::type_index, std::string>::iterator it = load().classOf.find(o.type);
  if (o.kind != Value::OBJ || it == load().classOf.end()) throw TypeError("object of a class that is not exposed");
  return load().classes[it->second];
}
inline Value construct(const std::string& c, const Args& a = Args()) {
  if (!load().classes.count(c)) throw TypeError("no class " + c);
  return invoke(c, load().classes[c].ctors, a);
}
inline Value get(const Value& o, const std::string& n) {
  Class& c = classOf(o);
  if (!c.getters.count(n)) throw TypeError("no attribute " + c.name + "." + n);
  return invoke(n, std::vector<Callable>(1, c.getters[n]), Args(1, o));
}
inline void set(const Value& o, const std::string& n, const Value& v) {
  Class& c = classOf(o);
  if (!c.setters.count(n)) throw TypeError("attribute " + c.name + "." + n + " cannot be set");
  Args a(1, o);
  a.push_back(v);
  invoke(n, std::vector<Callable>(1, c.setters[n]), a);
}
inline Value method(const Value& o, const std::string& n, Args a = Args()) {
  Class& c = classOf(o);
  if (!c.methods.count(n)) throw TypeError("no method " + c.name + "." + n);
  a.insert(a.begin(), o);
  return invoke(n, c.methods[n], a);
}
inline Value enumerator(const std::string& e, const std::string& n) {
  if (!load().enums.count(e) || !load().enums[e].count(n)) throw TypeError("no enumerator " + e + "." + n);
  return load().enums[e][n];
}
template <class T>
T& as(const Value& v) {
  if (v.kind != Value::OBJ || v.type != typeid(T) || !v.ptr) throw TypeError("not an object of the expected class");
  return *(T*)v.ptr;
}
template <class D>
Value mat(const Eigen::MatrixBase<D>& m) { return fromMat(m); }
inline Value num(const double& d) { return fromNum(d); }
}  // namespace py
#endif

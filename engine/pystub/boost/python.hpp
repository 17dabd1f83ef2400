// Stand-in for the registration interface of Boost.Python: records every name
// the module registers together with the C++ callable behind it, and calls it
// with dynamically typed values the way the interpreter would. What it stands
// for is the assumed contract of Boost.Python / eigenpy: `def`, `add_property`,
// `class_`, `enum_` forward the converted arguments to the registered callable
// and convert its result back.
#ifndef VERIF_PYSTUB_HH
#define VERIF_PYSTUB_HH
#include <Eigen/Core>
#include <functional>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <typeindex>
#include <vector>

namespace pystub {
typedef Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic> Mat;
struct Value {
  enum Kind { NONE, BOOL, INT, NUM, ENUM, MAT, OBJ, TUPLE } kind;
  long i;
  double num;
  Mat m;
  std::type_index type;
  void* ptr;
  std::shared_ptr<void> owner;
  std::vector<Value> items;
  Value() : kind(NONE), i(0), num(0), type(typeid(void)), ptr(0) {}
};
struct TypeError : std::runtime_error {
  TypeError(const std::string& s) : std::runtime_error("TypeError: " + s) {}
};
inline Value fromBool(bool b) {
  Value v;
  v.kind = Value::BOOL;
  v.i = b;
  return v;
}
inline Value fromInt(long i) {
  Value v;
  v.kind = Value::INT;
  v.i = i;
  return v;
}
inline Value fromNum(const double& d) {
  Value v;
  v.kind = Value::NUM;
  v.num = d;
  return v;
}
template <class D>
Value fromMat(const Eigen::MatrixBase<D>& m) {
  Value v;
  v.kind = Value::MAT;
  v.m = m;
  return v;
}
template <class T>
Value fromEnum(T t) {
  Value v;
  v.kind = Value::ENUM;
  v.i = (long)t;
  v.type = typeid(T);
  return v;
}
template <class T>
Value fromRef(T* t) {
  Value v;
  if (!t) return v;
  v.kind = Value::OBJ;
  v.ptr = (void*)t;
  v.type = typeid(T);
  return v;
}
template <class T>
Value fromOwned(T* t) {
  Value v = fromRef(t);
  if (t) v.owner = std::shared_ptr<void>(t, [](void* p) { delete (T*)p; });
  return v;
}
// ---- conversions from the interpreter
template <class T>
struct is_eigen {
  template <class D>
  static char test(const Eigen::DenseBase<D>*);
  static long test(...);
  static const bool value = sizeof(test((T*)0)) == 1;
};
template <class T, class = void>
struct From;  // T is decayed
template <>
struct From<bool, void> {
  static bool can(const Value& v) { return v.kind == Value::BOOL || v.kind == Value::INT || v.kind == Value::ENUM; }
  static bool get(const Value& v) { return v.i != 0; }
};
template <class T>
struct From<T, typename std::enable_if<std::is_integral<T>::value && !std::is_same<T, bool>::value>::type> {
  static bool can(const Value& v) { return v.kind == Value::BOOL || v.kind == Value::INT || v.kind == Value::ENUM; }
  static T get(const Value& v) { return (T)v.i; }
};
template <>
struct From<double, void> {
  static bool can(const Value& v) { return v.kind == Value::NUM || v.kind == Value::INT || v.kind == Value::BOOL; }
  static double get(const Value& v) { return v.kind == Value::NUM ? v.num : double((int)v.i); }
};
template <class T>
struct From<T, typename std::enable_if<std::is_enum<T>::value>::type> {
  static bool can(const Value& v) { return v.kind == Value::ENUM && v.type == typeid(T); }
  static T get(const Value& v) { return (T)v.i; }
};
template <class T>
struct From<T, typename std::enable_if<is_eigen<T>::value>::type> {
  static bool can(const Value& v) {
    return v.kind == Value::MAT && (int(T::RowsAtCompileTime) < 0 || v.m.rows() == int(T::RowsAtCompileTime)) &&
           (int(T::ColsAtCompileTime) < 0 || v.m.cols() == int(T::ColsAtCompileTime));
  }
  static T get(const Value& v) { return T(v.m); }
};
template <class T>
struct is_std_vector : std::false_type {};
template <class T, class A>
struct is_std_vector<std::vector<T, A> > : std::true_type {};
template <class T>
struct From<T, typename std::enable_if<std::is_class<T>::value && !is_eigen<T>::value && !std::is_same<T, double>::value>::type> {
  static bool can(const Value& v) { return v.kind == Value::OBJ && v.type == typeid(T); }
  static T& get(const Value& v) { return *(T*)v.ptr; }
};
// A: parameter type
template <class A>
struct Arg {
  typedef typename std::decay<A>::type D;
  typename std::remove_cv<D>::type held;
  Arg(const Value& v) : held(From<D>::get(v)) {}
  D& get() { return held; }
  static bool can(const Value& v) { return From<D>::can(v); }
};
template <class D, bool isClass>
struct RefArg;
template <class D>
struct RefArg<D, true> {
  D* p;
  RefArg(const Value& v) : p((D*)v.ptr) {}
  D& get() { return *p; }
  static bool can(const Value& v) { return v.kind == Value::OBJ && v.type == typeid(D); }
};
template <class D>
struct RefArg<D, false> {
  D held;
  RefArg(const Value& v) : held(From<D>::get(v)) {}
  D& get() { return held; }
  static bool can(const Value& v) { return From<D>::can(v); }
};
template <class D>
struct isObject {
  static const bool value = std::is_class<D>::value && !is_eigen<D>::value && !std::is_same<D, double>::value;
};
template <class T>
struct Arg<const T&> : RefArg<T, isObject<T>::value> {
  Arg(const Value& v) : RefArg<T, isObject<T>::value>(v) {}
};
template <class T>
struct Arg<T&> : RefArg<T, isObject<T>::value> {
  Arg(const Value& v) : RefArg<T, isObject<T>::value>(v) {}
};
template <class T>
struct Arg<T*> {
  typedef typename std::remove_cv<T>::type D;
  T* p;
  Arg(const Value& v) : p((T*)v.ptr) {}
  T*& get() { return p; }
  static bool can(const Value& v) { return v.kind == Value::NONE || (v.kind == Value::OBJ && v.type == typeid(D)); }
};
// ---- results
enum Ownership { BY_VALUE, NEW_OBJECT, EXISTING };
template <class T, class = void>
struct To {  // class by value
  static Value make(const T& t, Ownership) { return fromOwned(new T(t)); }
};
template <>
struct To<bool, void> {
  static Value make(bool b, Ownership) { return fromBool(b); }
};
template <class T>
struct To<T, typename std::enable_if<std::is_integral<T>::value && !std::is_same<T, bool>::value>::type> {
  static Value make(T i, Ownership) { return fromInt((long)i); }
};
template <>
struct To<double, void> {
  static Value make(const double& d, Ownership) { return fromNum(d); }
};
template <class T>
struct To<T, typename std::enable_if<std::is_enum<T>::value>::type> {
  static Value make(T t, Ownership) { return fromEnum(t); }
};
template <class T>
struct To<T, typename std::enable_if<is_eigen<T>::value>::type> {
  static Value make(const T& t, Ownership) { return fromMat(t); }
};
template <class T>
struct To<T, typename std::enable_if<std::is_base_of<Value, T>::value>::type> {
  static Value make(const Value& v, Ownership) { return v; }
};
template <class T>
struct To<T*, void> {
  static Value make(T* t, Ownership o) {
    typedef typename std::remove_cv<T>::type D;
    if (o == NEW_OBJECT) return fromOwned((D*)t);
    return fromRef((D*)t);
  }
};
template <class T, class = void>
struct ToRef {
  static Value make(const T& t, Ownership o) { return To<T>::make(t, o); }
};
template <class T>
struct ToRef<T, typename std::enable_if<isObject<T>::value && !std::is_same<T, Value>::value>::type> {
  static Value make(const T& t, Ownership o) { return o == EXISTING ? fromRef((T*)&t) : To<T>::make(t, o); }
};
template <class R>
struct Ret {
  static Value make(R r, Ownership o) { return To<typename std::decay<R>::type>::make(r, o); }
};
template <class T>
struct Ret<T&> {
  static Value make(T& t, Ownership o) { return ToRef<typename std::remove_cv<T>::type>::make(t, o); }
};
struct Callable {
  size_t arity;
  std::function<bool(const std::vector<Value>&)> matches;
  std::function<Value(const std::vector<Value>&)> call;
  Ownership owner;
  bool returnsPointer;
};
template <class F, class R, class... A>
struct Invoke {
  template <size_t... I>
  static bool can(const std::vector<Value>& v, std::index_sequence<I...>) {
    bool ok = v.size() == sizeof...(A);
    if (!ok) return false;
    bool all[] = {true, Arg<A>::can(v[I])...};
    for (bool b : all) ok = ok && b;
    return ok;
  }
  template <size_t... I>
  static Value run(const F& f, const std::vector<Value>& v, Ownership o, std::index_sequence<I...>, std::false_type) {
    std::tuple<Arg<A>...> args{Arg<A>(v[I])...};
    return Ret<R>::make(f(std::get<I>(args).get()...), o);
  }
  template <size_t... I>
  static Value run(const F& f, const std::vector<Value>& v, Ownership, std::index_sequence<I...>, std::true_type) {
    std::tuple<Arg<A>...> args{Arg<A>(v[I])...};
    f(std::get<I>(args).get()...);
    return Value();
  }
  static Callable make(F f, Ownership o) {
    Callable c;
    c.arity = sizeof...(A);
    c.owner = o;
    c.returnsPointer = std::is_pointer<R>::value;
    c.matches = [](const std::vector<Value>& v) { return can(v, std::index_sequence_for<A...>()); };
    c.call = [f, o](const std::vector<Value>& v) {
      return run(f, v, o, std::index_sequence_for<A...>(), typename std::is_void<R>::type());
    };
    return c;
  }
};
template <class R, class... A>
Callable callable(R (*f)(A...), Ownership o = BY_VALUE) {
  return Invoke<R (*)(A...), R, A...>::make(f, o);
}
template <class R, class C, class... A>
Callable callable(R (C::*f)(A...), Ownership o = BY_VALUE) {
  auto g = [f](C& c, A... a) -> R { return (c.*f)(a...); };
  return Invoke<decltype(g), R, C&, A...>::make(g, o);
}
template <class R, class C, class... A>
Callable callable(R (C::*f)(A...) const, Ownership o = BY_VALUE) {
  auto g = [f](const C& c, A... a) -> R { return (c.*f)(a...); };
  return Invoke<decltype(g), R, const C&, A...>::make(g, o);
}
template <class D, class C, class = typename std::enable_if<!std::is_function<D>::value>::type>
Callable callable(D C::*m, Ownership o = BY_VALUE) {
  // class members are exposed by reference
  auto g = [m](C& c) -> D& { return c.*m; };
  return Invoke<decltype(g), D&, C&>::make(g, isObject<D>::value ? EXISTING : o);
}
template <class D, class C>
Callable setterOf(D C::*m) {
  auto g = [m](C& c, const D& d) { c.*m = d; };
  return Invoke<decltype(g), void, C&, const D&>::make(g, BY_VALUE);
}
inline Callable callable(const Callable& c, Ownership o = BY_VALUE) {
  (void)o;
  return c;
}
// stateless lambdas and functors
template <class F, class R, class C, class... A>
Callable functorCall(const F& f, R (C::*)(A...) const, Ownership o) {
  return Invoke<F, R, A...>::make(f, o);
}
template <class F, class = decltype(&F::operator())>
Callable callable(const F& f, Ownership o = BY_VALUE) {
  return functorCall(f, &F::operator(), o);
}
struct Class {
  std::string name;
  std::vector<Callable> ctors;
  std::map<std::string, std::vector<Callable> > methods;
  std::map<std::string, Callable> getters, setters;
};
struct Module {
  std::map<std::string, std::vector<Callable> > functions;
  std::map<std::string, Class> classes;
  std::map<std::type_index, std::string> classOf;
  std::map<std::string, std::map<std::string, Value> > enums;
  std::vector<std::function<bool(std::string&)> > translators;  // rethrow current exception, translate
  std::string raised;
  std::vector<std::function<void()> > inits;
  bool loaded;
  Module() : loaded(false) {}
};
Module& module();
struct ModuleReg {
  ModuleReg(void (*f)()) { module().inits.push_back(f); }
};
}  // namespace pystub

#define BOOST_PYTHON_MODULE(NAME)                              \
  void init_module_##NAME();                                   \
  static pystub::ModuleReg verif_reg_##NAME(&init_module_##NAME); \
  void init_module_##NAME()
#define BOOST_PYTHON_FUNCTION_OVERLOADS(A, B, C, D)
#define BOOST_PYTHON_MEMBER_FUNCTION_OVERLOADS(A, B, C, D)

struct PyObject {
  const char* name;
};
extern PyObject *PyExc_RuntimeError, *PyExc_ValueError, *PyExc_TypeError, *PyExc_AttributeError, *PyExc_IndexError, *PyExc_Exception;
void PyErr_SetString(PyObject*, const char*);

namespace boost {
namespace python {
struct manage_new_object {};
struct reference_existing_object {};
struct copy_const_reference {};
struct copy_non_const_reference {};
struct return_by_value {};
struct default_call_policies {};
template <size_t a, size_t b, class P = default_call_policies>
struct with_custodian_and_ward : P {};
template <size_t a, size_t b, class P = default_call_policies>
struct with_custodian_and_ward_postcall : P {};
template <size_t a = 1, class P = default_call_policies>
struct return_internal_reference : P {};
template <class H, class P = default_call_policies>
struct return_value_policy : P {};
template <class P>
struct OwnershipOf {
  static const pystub::Ownership value = pystub::BY_VALUE;
};
template <class P>
struct OwnershipOf<return_value_policy<manage_new_object, P> > {
  static const pystub::Ownership value = pystub::NEW_OBJECT;
};
template <class P>
struct OwnershipOf<return_value_policy<reference_existing_object, P> > {
  static const pystub::Ownership value = pystub::EXISTING;
};
template <size_t a, class P>
struct OwnershipOf<return_internal_reference<a, P> > {
  static const pystub::Ownership value = pystub::EXISTING;
};
template <size_t a, size_t b, class P>
struct OwnershipOf<with_custodian_and_ward<a, b, P> > : OwnershipOf<P> {};
template <size_t a, size_t b, class P>
struct OwnershipOf<with_custodian_and_ward_postcall<a, b, P> > : OwnershipOf<P> {};
template <class... X>
struct PolicyIn {
  static const pystub::Ownership value = pystub::BY_VALUE;
};
template <class X, class... Y>
struct PolicyIn<X, Y...> {
  static const pystub::Ownership a = OwnershipOf<typename std::decay<X>::type>::value;
  static const pystub::Ownership value = a != pystub::BY_VALUE ? a : PolicyIn<Y...>::value;
};
struct arg {
  arg(const char*) {}
  template <class T>
  arg& operator=(const T&) { return *this; }
  arg& operator,(const arg&) { return *this; }
};
struct args {
  template <class... A>
  args(A...) {}
};
template <class... A>
struct optional {};
struct no_init_t {};
static const no_init_t no_init = no_init_t();
template <class... A>
struct init {
  template <class... X>
  init(const X&...) {}
  template <class P>
  init operator[](const P&) const { return *this; }
};
template <class... A>
struct bases {};
struct docstring_options {
  template <class... X>
  docstring_options(X...) {}
};
typedef pystub::Value object;
struct tuple : pystub::Value {
  tuple() { kind = TUPLE; }
};
template <class... A>
tuple make_tuple(const A&... a) {
  tuple t;
  t.items = std::vector<pystub::Value>{pystub::To<typename std::decay<A>::type>::make(a, pystub::BY_VALUE)...};
  return t;
}
template <class F>
pystub::Callable make_function(F f) { return pystub::callable(f); }
template <class F, class P, class... X>
pystub::Callable make_function(F f, const P&, const X&...) {
  return pystub::callable(f, PolicyIn<P, X...>::value);
}
template <class D, class C>
pystub::Callable make_getter(D C::*m) { return pystub::callable(m); }
template <class D, class C, class P>
pystub::Callable make_getter(D C::*m, const P&) { return pystub::callable(m, PolicyIn<P>::value); }
template <class D, class C>
pystub::Callable make_setter(D C::*m) { return pystub::setterOf(m); }

template <class... A, class... X>
void defInit(pystub::Class& c, const init<A...>&, void* (*mk)(A...)) {
  pystub::Callable k = pystub::callable(mk);
  c.ctors.push_back(k);
}
template <class T, class... A>
T* construct(A... a) { return new T(a...); }

template <class T, class... X>
struct class_ {
  pystub::Class* c;
  void open(const char* n) {
    c = &pystub::module().classes[n];
    c->name = n;
    pystub::module().classOf[typeid(T)] = n;
  }
  class_(const char* n) {
    open(n);
    ctor(init<>());
  }
  class_(const char* n, const no_init_t&) { open(n); }
  class_(const char* n, const char*, const no_init_t&) { open(n); }
  class_(const char* n, const char*) {
    open(n);
    ctor(init<>());
  }
  template <class... A>
  class_(const char* n, const init<A...>& i) {
    open(n);
    ctor(i);
  }
  template <class... A>
  class_(const char* n, const char*, const init<A...>& i) {
    open(n);
    ctor(i);
  }
  template <class... A>
  void ctor(const init<A...>&) {
    c->ctors.push_back(pystub::callable((T * (*)(A...)) & construct<T, A...>, pystub::NEW_OBJECT));
  }
  template <class... A>
  class_& def(const init<A...>& i) {
    ctor(i);
    return *this;
  }
  template <class F, class... P>
  class_& def(const char* n, F f, const P&...) {
    c->methods[n].push_back(pystub::callable(f, PolicyIn<P...>::value));
    return *this;
  }
  template <class G>
  class_& add_property(const char* n, G g) {
    c->getters[n] = pystub::callable(g);
    return *this;
  }
  template <class G>
  class_& add_property(const char* n, G g, const char*) { return add_property(n, g); }
  template <class G, class S>
  class_& add_property(const char* n, G g, S s) {
    c->getters[n] = pystub::callable(g);
    c->setters[n] = setter(s);
    return *this;
  }
  template <class G, class S>
  class_& add_property(const char* n, G g, S s, const char*) { return add_property(n, g, s); }
  template <class S>
  static pystub::Callable setter(S s) { return setter_(s, std::is_member_object_pointer<S>()); }
  template <class S>
  static pystub::Callable setter_(S s, std::true_type) { return pystub::setterOf(s); }
  template <class S>
  static pystub::Callable setter_(S s, std::false_type) { return pystub::callable(s); }
  template <class G, class... P>
  class_& def_readonly(const char* n, G g, const P&...) { return add_property(n, g); }
  template <class G, class... P>
  class_& def_readwrite(const char* n, G g, const P&...) { return add_property(n, g, g); }
  template <class V>
  class_& setattr(const char*, const V&) { return *this; }
  class_& staticmethod(const char*) { return *this; }
  template <class V>
  class_& def(const V&) { return *this; }  // visitors
};
template <class T>
struct enum_ {
  std::map<std::string, pystub::Value>* e;
  enum_(const char* n, const char* = 0) { e = &pystub::module().enums[n]; }
  enum_& value(const char* n, T t) {
    (*e)[n] = pystub::fromEnum(t);
    return *this;
  }
  enum_& export_values() { return *this; }
};
template <class F, class... P>
void def(const char* n, F f, const P&...) {
  pystub::module().functions[n].push_back(pystub::callable(f, PolicyIn<P...>::value));
}
template <class E, class F>
void register_exception_translator(F f) {
  pystub::module().translators.push_back([f](std::string& out) {
    try {
      throw;
    } catch (const E& e) {
      pystub::module().raised = "";
      f(e);
      out = pystub::module().raised;
      return true;
    } catch (...) {
      return false;
    }
  });
}
template <class A, class B>
void implicitly_convertible() {}
template <class T>
void register_ptr_to_python() {}
inline object import(const char*) { return object(); }
struct scope : object {
  template <class V>
  scope(const V&) {}
  scope() {}
};
}  // namespace python
}  // namespace boost
#endif

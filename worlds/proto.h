// Random values of every protocol structure, with an independent model of the
// values and of the names on the wire.  Included by w_proto.cpp and its parts.
#ifndef PROTO_H
#define PROTO_H
#include "kit.h"
#include <cmath>
#include <cstring>
using namespace kit;

namespace proto {
// ---------------------------------------------------------------- random values
// fill(): sets a C++ value and returns its model.  Harness scope.
extern int g_depth;
extern uint32_t g_budget;   // bounds the size of one value
struct Deeper {
  Deeper() { g_depth++; }
  ~Deeper() { g_depth--; }
};
inline bool room() { return g_budget > 0 && g_depth < 5; }

inline int64_t rand_int() {
  switch (sim::W(8)) {
    case 0: return 0;
    case 1: return (int64_t)sim::W(100);
    case 2: return -(int64_t)sim::W(100);
    case 3: return INT64_MAX - sim::W(3);
    case 4: return INT64_MIN + sim::W(3);
    case 5: return (int64_t)1 << sim::W(63);
    case 6: return (int64_t)INT32_MAX + (int64_t)sim::W(5) - 2;
    default: return (int64_t)sim::W64();
  }
}
inline double rand_dbl() {
  static const double k[] = {0, 1, -1, 0.5, 0.1, 1.5, 3, 1e300, -1e300, 1e-300, 1e17, 123456789.25, 2147483648.0, 4294967296.5, 9007199254740993.0, 1.7976931348623157e308, 2.2250738585072014e-308, 5e-324, -0.0};
  if (sim::W(2)) return k[sim::W(sizeof k / sizeof *k)];
  if (sim::W(2)) return (double)(int64_t)sim::W64() / 1024.0;
  for (;;) {
    uint64_t b = sim::W64();
    double d;
    memcpy(&d, &b, 8);
    if (std::isfinite(d)) return d;
  }
}
inline string rand_str() {
  g_budget -= g_budget > 0;
  uint32_t k = sim::W(12);
  if (k == 0) return string(sim::W(5), '\0') + "x";
  if (k == 1) return string(200 + sim::W(2000), 'l');
  return rand_string(k < 8 ? 6 : 60);
}

inline bool fill(dap::boolean& v, J& j) { bool b = sim::W(2); v = b; j = J(b); return true; }
inline bool fill(dap::integer& v, J& j) { int64_t i = rand_int(); v = i; j = J(i); return true; }
inline bool fill(dap::number& v, J& j) { double d = rand_dbl(); v = d; j = J(d); return true; }
inline bool fill(dap::string& v, J& j) { v = rand_str(); j = J(v); return true; }
inline bool fill(std::nullptr_t& v, J& j) { v = nullptr; j = J(); return true; }
inline bool fill(dap::any& v, J& j);
inline bool fill(dap::object& v, J& j) {
  Deeper d;
  v.clear();
  j = J::obj();
  uint32_t n = room() ? sim::W(4) : 0;
  for (uint32_t k = 0; k < n; k++) {
    g_budget -= g_budget > 0;
    string key = sim::W(8) == 0 ? "" : sim::W(4) ? "k" + std::to_string(k) : (sim::W(3) ? rand_string(8) : string(1, "kx\x7f"[sim::W(3)]) + string(sim::W(3), '\0')) + std::to_string(k);
    J x;
    dap::any a;
    fill(a, x);
    v[key] = a;
    j.set(key, x);
  }
  return true;
}
template <typename T>
inline bool fill(dap::array<T>& v, J& j);
template <typename T>
inline bool fill(dap::optional<T>& v, J& j);
template <typename T0, typename... Ts>
inline bool fill(dap::variant<T0, Ts...>& v, J& j);
template <typename V>
bool fill_alt(V&, J&, uint32_t) { return false; }
template <typename V, typename T, typename... Ts>
bool fill_alt(V& v, J& j, uint32_t k) {
  if (k == 0) {
    T x{};
    fill(x, j);
    v = x;
    return true;
  }
  return fill_alt<V, Ts...>(v, j, k - 1);
}
bool fill_typed(dap::any& v, J& j);   // arrays and structures of a static type in an any
inline bool fill(dap::any& v, J& j) {
  // deep values need room; the rest is flat
  if (room() && sim::W(4) == 0) return fill_typed(v, j);
  return fill_alt<dap::any, std::nullptr_t, dap::boolean, dap::integer, dap::number, dap::string, dap::object, dap::array<dap::any>>(v, j, sim::W(room() ? 7 : 5));
}

template <typename S>
bool fill(S& s, J& j);
template <typename S>
bool dump(const S& s, J& j);
template <typename T>
bool dump(const dap::array<T>& v, J& j);
template <typename T>
bool dump(const dap::optional<T>& v, J& j);
template <typename T0, typename... Ts>
bool dump(const dap::variant<T0, Ts...>& v, J& j);
inline bool dump(const dap::boolean& v, J& j);
inline bool dump(const dap::integer& v, J& j);
inline bool dump(const dap::number& v, J& j);
inline bool dump(const dap::string& v, J& j);
inline bool dump(const dap::any& v, J& j);
inline bool dump(const dap::object& v, J& j);
struct Filler {
  J out = J::obj();
  template <typename T>
  void field(const char* name, T& m) {
    J j;
    if (fill(m, j)) out.set(name, std::move(j));
  }
};
struct Dumper {
  J out = J::obj();
  template <typename T>
  void field(const char* name, const T& m);
};

#define P_STRUCT(S)                   \
  template <class V>                  \
  void visit(V& v, dap::S& x) {       \
    (void)v;                          \
    (void)x;
#define P_BASE(B) visit(v, static_cast<dap::B&>(x));
#define P_FIELD(m, n) v.field(n, x.m);
#define P_END }
#include "protocol_table.inc"
#undef P_STRUCT
#undef P_BASE
#undef P_FIELD
#undef P_END
template <class V, class T>
auto visit_any(V& v, T& x) -> decltype(visit(v, x)) { visit(v, x); }

template <typename S>
bool fill(S& s, J& j) {
  Deeper d;
  g_budget -= g_budget > 0;
  Filler f;
  visit_any(f, s);
  j = std::move(f.out);
  return true;
}
template <typename T>
inline bool fill(dap::array<T>& v, J& j) {
  Deeper d;
  v.clear();
  j = J::arr();
  uint32_t n = room() ? sim::W(g_depth < 3 ? 5 : 3) : 0;
  for (uint32_t k = 0; k < n; k++) {
    g_budget -= g_budget > 0;
    T x{};
    J y;
    fill(x, y);
    v.push_back(x);
    j.push(y);
  }
  return true;
}
template <typename T>
inline bool fill(dap::optional<T>& v, J& j) {
  if (sim::W(g_depth < 3 ? 2 : 4) == 0 || !room()) return false;
  T x{};
  if (!fill(x, j)) return false;
  if (j.is(J::Null)) return false;   // JSON has no difference between an unset optional and one set to null
  v = x;
  return true;
}
template <typename T0, typename... Ts>
inline bool fill(dap::variant<T0, Ts...>& v, J& j) {
  return fill_alt<dap::variant<T0, Ts...>, T0, Ts...>(v, j, sim::W(1 + sizeof...(Ts)));
}

// -------------------------------------------------------------------- dumping
inline bool dump(const dap::boolean& v, J& j) { j = J((bool)v); return true; }
inline bool dump(const dap::integer& v, J& j) { j = J((int64_t)v); return true; }
inline bool dump(const dap::number& v, J& j) { j = J((double)v); return true; }
inline bool dump(const dap::string& v, J& j) { j = J(v); return true; }
inline bool dump(const dap::any& v, J& j);
inline bool dump(const dap::object& v, J& j) {
  j = J::obj();
  for (auto& p : v) {
    J x;
    dump(p.second, x);
    j.set(p.first, x);
  }
  return true;
}
template <typename T>
bool dump(const dap::array<T>& v, J& j) {
  j = J::arr();
  for (auto& e : v) {
    J x;
    dump(e, x);
    j.push(x);
  }
  return true;
}
template <typename T>
bool dump(const dap::optional<T>& v, J& j) {
  if (!v.has_value()) return false;
  return dump(v.value(), j);
}
template <typename V>
bool dump_alt(const V&, J& j) { j = J("<no alternative>"); return true; }
template <typename V, typename T, typename... Ts>
bool dump_alt(const V& v, J& j) {
  if (v.template is<T>()) return dump(v.template get<T>(), j);
  return dump_alt<V, Ts...>(v, j);
}
inline bool dump(const dap::any& v, J& j) {
  if (v.is<std::nullptr_t>()) { j = J(); return true; }
  return dump_alt<dap::any, dap::boolean, dap::integer, dap::number, dap::string, dap::object, dap::array<dap::any>>(v, j);
}
template <typename T> struct is_null { static constexpr bool value = false; };
template <> struct is_null<std::nullptr_t> { static constexpr bool value = true; };
template <typename T, typename V>
bool dump_one(const V& v, J& j, bool* hit) {
  if (*hit) return true;
  if constexpr (is_null<T>::value) {
    if (v.template is<T>()) { *hit = true; j = J(); }
  } else {
    if (v.template is<T>()) { *hit = true; dump(v.template get<T>(), j); }
  }
  return true;
}
template <typename T0, typename... Ts>
bool dump(const dap::variant<T0, Ts...>& v, J& j) {
  bool hit = false;
  using V = dap::variant<T0, Ts...>;
  bool a[] = {dump_one<T0, V>(v, j, &hit), dump_one<Ts, V>(v, j, &hit)...};
  (void)a;
  if (!hit) j = J("<no alternative of the variant>");
  return true;
}
template <typename S>
bool dump(const S& s, J& j) {
  Dumper d;
  visit_any(d, const_cast<S&>(s));
  j = std::move(d.out);
  return true;
}
template <typename T>
void Dumper::field(const char* name, const T& m) {
  J j;
  if (dump(m, j)) out.set(name, std::move(j));
}

inline string diff(const J& a, const J& b, const string& at) {
  if (a.is(J::Obj) && b.is(J::Obj)) {
    for (auto& p : a.o) {
      const J* q = b.get(p.first);
      if (!q) return at + "." + show(p.first) + " is missing (was " + show(p.second.dump()) + ")";
      string d = diff(p.second, *q, at + "." + show(p.first));
      if (!d.empty()) return d;
    }
    for (auto& p : b.o) if (!a.get(p.first)) return at + "." + show(p.first) + " appeared with value " + show(p.second.dump());
    return "";
  }
  if (a.is(J::Arr) && b.is(J::Arr)) {
    if (a.a.size() != b.a.size()) return at + " has " + std::to_string(b.a.size()) + " elements instead of " + std::to_string(a.a.size());
    for (size_t k = 0; k < a.a.size(); k++) {
      string d = diff(a.a[k], b.a[k], at + "[" + std::to_string(k) + "]");
      if (!d.empty()) return d;
    }
    return "";
  }
  if (!a.equals(b)) return at + " is " + show(b.dump()) + " instead of " + show(a.dump());
  return "";
}
inline void same(const char* what, const char* type, const J& want, const J& got) {
  string d = diff(want, got, "");
  if (!d.empty()) sim::violate("changed", "%s of %s: %s", what, type, d.c_str());
}

// ------------------------------------------------------------------- exchanges
struct Ctx {
  dap::Session* client;
  dap::Session* server;
  std::shared_ptr<Link> c2s, s2c;
  std::map<string, std::deque<J>> want;            // command or event -> expected values in order (one sender per type)
  std::map<string, std::deque<std::pair<J, bool>>> wire;  // the same for the bytes on the link: body, is response
  int events = 0, requests = 0, errors = 0;
  uint32_t budget;
};
inline string rand_error() {
  static const uint32_t sizes[] = {1, 20, 300, 2040, 2047, 2048, 2049, 5000};
  uint32_t n = sizes[sim::W(8)];
  string s = sim::W(2) ? rand_string(40) : "%s %d %n %";
  while (s.size() < n) s += 'e';
  if (s.empty()) s = "e";
  return s;
}

template <typename Req, typename Resp>
void request_type(Ctx& c, const char* name, int n, vector<std::function<void()>>* jobs) {
  struct St { J resp; bool is_err; string err; };
  auto st = std::make_shared<St>();
  sut([&] {
    c.server->registerHandler([&c, st, name](const Req& q) -> dap::ResponseOrError<Resp> {
      HARNESS();
      J got;
      dump(q, got);
      auto& w = c.want[name];
      if (w.empty()) sim::violate("invented", "a %s request arrived that was not sent", name);
      same("arguments", name, w.front(), got);
      w.pop_front();
      st->is_err = sim::W(5) == 0;
      if (st->is_err) {
        st->err = rand_error();
        J e = J::obj();
        e.set("message", J(st->err));
        c.wire[name].emplace_back(e, true);
        return dap::Error(st->err);
      }
      Resp r;
      g_depth = 0;
      g_budget = c.budget;
      fill(r, st->resp);
      c.wire[name].emplace_back(st->resp, true);
      return r;
    });
  });
  jobs->push_back([&c, st, name, n] {
    for (int k = 0; k < n; k++) {
      Req q;
      J model;
      g_depth = 0;
      g_budget = c.budget;
      fill(q, model);
      c.want[name].push_back(model);
      c.wire[name].emplace_back(model, false);
      c.requests++;
      auto r = sut([&] { return c.client->send(q).get(); });
      if (st->is_err != (bool)r.error) sim::violate("changed", "%s: %s", name, st->is_err ? "an error arrived as success" : "a success arrived as an error");
      if (st->is_err) {
        c.errors++;
        if (r.error.message != st->err)
          sim::violate("changed", "error of %s: message of %zu bytes arrived as %zu bytes: %s", name, st->err.size(), r.error.message.size(), show(r.error.message).c_str());
      } else {
        J got;
        dump(r.response, got);
        same("response", name, st->resp, got);
      }
    }
  });
}
template <typename E>
void event_type(Ctx& c, const char* name, int n, vector<std::function<void()>>* jobs) {
  sut([&] {
    c.client->registerHandler([&c, name](const E& e) {
      HARNESS();
      J got;
      dump(e, got);
      auto& w = c.want[name];
      if (w.empty()) sim::violate("invented", "a %s event arrived that was not sent", name);
      same("body", name, w.front(), got);
      w.pop_front();
      c.events++;
    });
  });
  jobs->push_back([&c, name, n] {
    for (int k = 0; k < n; k++) {
      E e;
      J model;
      g_depth = 0;
      g_budget = c.budget;
      fill(e, model);
      c.want[name].push_back(model);
      c.wire[name].emplace_back(model, false);
      sut([&] { c.server->send(e); });
    }
  });
}


// Handlers that only check what arrives; make() draws a value and its model.
template <typename Req, typename Resp>
void watch_request(Ctx& c, const char* name) {
  sut([&] {
    c.server->registerHandler([&c, name](const Req& q) -> Resp {
      HARNESS();
      J got;
      dump(q, got);
      auto& w = c.want[name];
      if (w.empty()) sim::violate("invented", "a %s request arrived that was not sent", name);
      same("arguments", name, w.front(), got);
      w.pop_front();
      c.requests++;
      return Resp();
    });
  });
}
template <typename E>
void watch_event(Ctx& c, const char* name) {
  sut([&] {
    c.server->registerHandler([&c, name](const E& e) {
      HARNESS();
      J got;
      dump(e, got);
      auto& w = c.want[name];
      if (w.empty()) sim::violate("invented", "a %s event arrived that was not sent", name);
      same("body", name, w.front(), got);
      w.pop_front();
      c.events++;
    });
  });
}
template <typename T>
J make(uint32_t budget) {
  T v;
  J j;
  g_depth = 0;
  g_budget = budget;
  fill(v, j);
  return j;
}

struct Type {
  const char* name;
  bool event;
  void (*setup)(Ctx&, const char*, int, vector<std::function<void()>>*);
  void (*watch)(Ctx&, const char*);
  J (*make)(uint32_t);
};
extern vector<Type>* g_types;
struct AddTypes {
  explicit AddTypes(void (*f)(vector<Type>&)) {
    if (!g_types) g_types = new vector<Type>();
    f(*g_types);
  }
};
template <bool ON, typename Q, typename R>
struct AddRequest {
  static void to(vector<Type>&, const char*) {}
};
template <typename Q, typename R>
struct AddRequest<true, Q, R> {
  static void to(vector<Type>& v, const char* n) { v.push_back({n, false, request_type<Q, R>, watch_request<Q, R>, make<Q>}); }
};
template <bool ON, typename E>
struct AddEvent {
  static void to(vector<Type>&, const char*) {}
};
template <typename E>
struct AddEvent<true, E> {
  static void to(vector<Type>& v, const char* n) { v.push_back({n, true, event_type<E>, watch_event<E>, make<E>}); }
};
}  // namespace proto

// The message types are compiled in PROTO_PARTS parts.
#define PROTO_PARTS 6
#define PROTO_PART(K)                                                                         \
  namespace {                                                                                 \
  constexpr int kCounterBase = __COUNTER__;                                                   \
  constexpr bool mine(int n) { return (n - kCounterBase) % PROTO_PARTS == K; }                \
  }
#endif

// Type information: first use from many threads, library lifetime.
#include "kit.h"
#include "dap/dap.h"
#include "dap/serialization.h"
#include <string.h>
using namespace kit;

namespace {
struct Entry {
  const char* what;
  size_t size, align;
  const dap::TypeInfo* (*get)();
  const char* json;    // a value of the type, complete
  const char* name;    // name on the wire, if the type has one
};
template <typename T>
Entry entry(const char* what, const char* json, const char* name = nullptr) {
  return {what, sizeof(T), alignof(T), [] { return dap::TypeOf<T>::type(); }, json, name};
}
#define E_(T, ...) entry<T>(#T, __VA_ARGS__)
const vector<Entry>& entries() {
  using namespace dap;
  using VIS = variant<integer, string>;
  static const vector<Entry> v = {
      E_(boolean, "true"), E_(integer, "-77"), E_(number, "2.5"), E_(string, "\"str\""), E_(object, "{\"k\":[1,\"x\"]}"), E_(any, "[1,true,{\"a\":null}]"),
      E_(array<string>, "[\"a\",\"b\"]"), E_(array<array<integer>>, "[[1],[],[2,3]]"), E_(array<array<number>>, "[[1.5]]"), E_(optional<integer>, "5"), E_(optional<boolean>, "false"),
      E_(array<object>, "[{},{\"z\":1}]"), E_(array<any>, "[1,\"2\"]"), E_(VIS, "\"vs\""), E_(array<VIS>, "[1,\"vs\"]"), E_(optional<VIS>, "12"),
      E_(Checksum, "{\"algorithm\":\"MD5\",\"checksum\":\"00\"}"),
      E_(Source, "{\"name\":\"n\",\"sources\":[{\"name\":\"inner\"}],\"adapterData\":{\"deep\":[1]}}"),
      E_(array<Source>, "[{\"path\":\"p\"}]"), E_(optional<array<Checksum>>, "[{\"algorithm\":\"SHA1\",\"checksum\":\"1\"}]"),
      E_(StackFrame, "{\"column\":1,\"id\":2,\"line\":3,\"name\":\"main\",\"source\":{\"name\":\"s\"}}"),
      E_(array<StackFrame>, "[{\"column\":1,\"id\":2,\"line\":3,\"name\":\"main\",\"moduleId\":\"m\"}]"),
      E_(SetExceptionBreakpointsRequest, "{\"filters\":[\"f\"],\"filterOptions\":[{\"filterId\":\"i\"}]}", "setExceptionBreakpoints"),
      E_(SetInstructionBreakpointsRequest, "{\"breakpoints\":[{\"instructionReference\":\"r\"}]}", "setInstructionBreakpoints"),
      E_(BreakpointLocationsResponse, "{\"breakpoints\":[{\"line\":1,\"endLine\":2}]}"),
      E_(OutputEvent, "{\"output\":\"o\",\"variablesReference\":9}", "output"),
      E_(StackFrameFormat, "{\"hex\":true,\"module\":false}"),
      E_(TokRequest, "{\"id\":1,\"text\":\"t\",\"list\":[1,2],\"opt\":\"o\"}", "tok"),
      E_(TokEvent, "{\"id\":1,\"text\":\"t\",\"list\":[]}", "tokev"),
  };
  return v;
}
// The serialization interfaces over the harness's own JSON values.
struct Des : dap::Deserializer {
  const J* j;   // null: no such field
  explicit Des(const J* v) : j(v) {}
  bool deserialize(dap::boolean* v) const override { if (!j || !j->is(J::Bool)) return false; *v = j->b; return true; }
  bool deserialize(dap::integer* v) const override { if (!j || !j->is(J::Int)) return false; *v = j->i; return true; }
  bool deserialize(dap::number* v) const override { if (!j || !(j->is(J::Dbl) || j->is(J::Int))) return false; *v = j->is(J::Int) ? (double)j->i : j->d; return true; }
  bool deserialize(dap::string* v) const override { if (!j || !j->is(J::Str)) return false; *v = j->s; return true; }
  bool deserialize(dap::object* v) const override {
    if (!j || !j->is(J::Obj)) return false;
    for (auto& p : j->o) { dap::any a; if (!Des(&p.second).deserialize(&a)) return false; (*v)[p.first] = a; }
    return true;
  }
  bool deserialize(dap::any* v) const override {
    if (!j) return false;
    switch (j->t) {
      case J::Null: *v = nullptr; return true;
      case J::Bool: *v = dap::boolean(j->b); return true;
      case J::Int: *v = dap::integer(j->i); return true;
      case J::Dbl: *v = dap::number(j->d); return true;
      case J::Str: *v = j->s; return true;
      case J::Obj: { dap::object o; if (!deserialize(&o)) return false; *v = o; return true; }
      default: { dap::array<dap::any> a; if (!dap::Deserializer::deserialize(&a)) return false; *v = a; return true; }
    }
  }
  size_t count() const override { return j && j->is(J::Arr) ? j->a.size() : 0; }
  bool array(const std::function<bool(dap::Deserializer*)>& f) const override {
    if (!j || !j->is(J::Arr)) return false;
    for (auto& e : j->a) { Des d(&e); if (!f(&d)) return false; }
    return true;
  }
  bool field(const string& n, const std::function<bool(dap::Deserializer*)>& f) const override {
    if (!j || !j->is(J::Obj)) return false;
    Des d(j->get(n));
    return f(&d);
  }
};
struct Ser : dap::Serializer {
  J* j;
  bool removed = false;
  explicit Ser(J* v) : j(v) {}
  bool serialize(dap::boolean v) override { *j = J((bool)v); return true; }
  bool serialize(dap::integer v) override { *j = J((int64_t)v); return true; }
  bool serialize(dap::number v) override { *j = J((double)v); return true; }
  bool serialize(const dap::string& v) override { *j = J(v); return true; }
  bool serialize(const dap::object& v) override {
    *j = J::obj();
    for (auto& p : v) { J e; Ser s(&e); if (!s.serialize(p.second)) return false; j->set(p.first, e); }
    return true;
  }
  bool serialize(const dap::any& v) override {
    if (v.is<dap::null>()) { *j = J(); return true; }
    return get_any_type(v)->serialize(this, get_any_val(v));
  }
  bool array(size_t n, const std::function<bool(dap::Serializer*)>& f) override {
    *j = J::arr();
    for (size_t k = 0; k < n; k++) { J e; Ser s(&e); if (!f(&s)) return false; j->push(e); }
    return true;
  }
  struct FS : dap::FieldSerializer {
    J* j;
    bool field(const string& n, const SerializeFunc& f) override { J e; Ser s(&e); if (!f(&s)) return false; if (!s.removed) j->set(n, e); return true; }
  };
  bool object(const std::function<bool(dap::FieldSerializer*)>& f) override { *j = J::obj(); FS fs; fs.j = j; return f(&fs); }
  void remove() override { removed = true; }
};

// Uses a type the way sessions do.
void use(const Entry& e, const dap::TypeInfo* ti) {
  if (!ti) sim::violate("no-type", "no type information for %s", e.what);
  if (sut([&] { return ti->size(); }) != e.size || sut([&] { return ti->alignment(); }) != e.align) sim::violate("wrong-type", "wrong size or alignment for %s", e.what);
  string name = sut([&] { return ti->name(); });
  if (e.name && name != e.name) sim::violate("wrong-type", "%s is named '%s'", e.what, show(name).c_str());
  J want, got;
  J::parse(e.json, &want);
  bool ok = sut([&] {
    Des d(&want);
    std::unique_ptr<uint8_t[]> a(new uint8_t[e.size + 64]), b(new uint8_t[e.size + 64]);
    auto al = [&](uint8_t* p) { return (void*)(((uintptr_t)p + e.align - 1) / e.align * e.align); };
    void *x = al(a.get()), *y = al(b.get());
    ti->construct(x);
    bool ok = ti->deserialize(&d, x);
    ti->copyConstruct(y, x);
    ti->destruct(x);
    Ser s(&got);
    ok = ti->serialize(&s, y) && ok;
    ti->destruct(y);
    return ok;
  });
  if (!ok || !want.equals(got)) sim::violate("wrong-value", "%s decoded and encoded again: %s, expected %s", e.what, show(got.dump(), 200).c_str(), e.json);
}
}  // namespace

WORLD("P20", types_first_use, "threads obtain and use types for the first time at once") {
  swarm_sched();
  auto& es = entries();
  int nt = 2 + sim::W(3);
  // a handful of types per run, so that the threads meet on them
  vector<int> pick;
  for (int k = 1 + sim::W(5); k; k--) pick.push_back(sim::W((uint32_t)es.size()));
  std::map<int, const dap::TypeInfo*> seen;
  vector<Task> ts;
  bool init = sim::W(2);
  for (int t = 0; t < nt; t++)
    ts.emplace_back("user", [&, t] {
      bool mine = init && sim::W(2);
      if (mine) sut([&] { dap::initialize(); });
      for (int k = 1 + sim::W(5); k; k--) {
        int n = pick[sim::W((uint32_t)pick.size())];
        auto ti = sut([&] { return es[n].get(); });
        auto& p = seen[n];
        if (p && p != ti) sim::violate("two-types", "two descriptions of %s", es[n].what);
        p = ti;
        use(es[n], ti);
      }
      if (mine) sut([&] { dap::terminate(); });
    });
  for (auto& t : ts) t.join();
  for (auto& p : seen) { use(es[p.first], p.second); for (auto& q : seen) if (q.first != p.first && q.second == p.second && strcmp(es[p.first].what, es[q.first].what)) sim::violate("wrong-type", "one description for %s and %s", es[p.first].what, es[q.first].what); }
  sim::note("threads=%d types=%zu init=%d", nt, seen.size(), init);
  end_of_process("after the end of the process");
}

WORLD("P20", types_lifetime, "type information is used beyond the end of main() while the library is held initialised, then released") {
  swarm_sched();
  auto& es = entries();
  int nt = 1 + sim::W(3);
  // every thread holds the library (or relies on another one that does)
  int keep = sim::W(30) == 0 ? 200 + sim::W(900) : sim::W(4);   // holds taken by the main thread
  sim::Flag go;
  vector<Task> ts;
  for (int k = 0; k < keep; k++) sut([&] { dap::initialize(); });
  struct User { bool own; int after; };
  vector<User> us;
  for (int t = 0; t < nt; t++) us.push_back({keep == 0 || sim::W(2), (int)sim::W(4)});
  int ready = 0;
  sim::Flag all_ready;
  for (int t = 0; t < nt; t++)
    ts.emplace_back("user", [&, t] {
      vector<std::pair<int, const dap::TypeInfo*>> mine;
      int nests = us[t].own ? 1 + sim::W(2) : 0;
      for (int k = 0; k < nests; k++) sut([&] { dap::initialize(); });
      for (int k = sim::W(5); k; k--) {
        int n = sim::W((uint32_t)es.size());
        mine.push_back({n, sut([&] { return es[n].get(); })});
        if (sim::W(2)) use(es[n], mine.back().second);
      }
      std::shared_ptr<dap::any> held;
      if (us[t].own) sut([&] {
        // a value kept in a variable that outlives main()
        dap::Source src;
        src.name = "name";
        switch (sim::W(4)) {
          case 0: held = std::make_shared<dap::any>(src); break;
          case 1: held = std::make_shared<dap::any>(dap::array<dap::any>{dap::any(dap::integer(1)), dap::any(dap::string("x"))}); break;
          case 2: held = std::make_shared<dap::any>(dap::object{{"k", dap::any(dap::string("v"))}}); break;
          default: break;
        }
      });
      if (++ready == nt) all_ready.set();
      if (!us[t].own) return;
      if (sim::W(3)) go.wait();
      for (int k = 0; k <= us[t].after; k++) {
        if (mine.empty()) break;
        auto& m = mine[sim::W((uint32_t)mine.size())];
        use(es[m.first], m.second);
        if (sim::W(4) == 0) sim::sleep_ns(sim::W(10) * kMs);
        if (nests > 1) { sut([&] { dap::terminate(); }); nests--; }
      }
      if (held) sut([&] { held.reset(); });
      for (; nests; nests--) sut([&] { dap::terminate(); });
    });
  all_ready.wait();
  vector<std::pair<int, const dap::TypeInfo*>> mine;
  if (keep) for (int k = sim::W(5); k; k--) { int n = sim::W((uint32_t)es.size()); mine.push_back({n, sut([&] { return es[n].get(); })}); }
  if (sim::W(2)) { go.set(); sim::point("exit-race"); sim::run_exit_handlers(); }
  else { sim::run_exit_handlers(); go.set(); }
  for (auto& m : mine) use(es[m.first], m.second);
  for (int k = 0; k < keep; k++) { if (!mine.empty()) use(es[mine[0].first], mine[0].second); if (k + 1 < keep) sut([&] { dap::terminate(); }); }
  bool wait_all = sim::W(2);
  // threads without a hold of their own rely on this thread's
  for (int t = 0; t < nt; t++) if (keep && (wait_all || !us[t].own)) ts[t].join();
  if (keep) sut([&] { dap::terminate(); });
  for (auto& t : ts) if (t.joinable()) t.join();
  sim::note("threads=%d keep=%d", nt, keep);
  check_no_leaks("after the last termination");
}

// Nothing is left behind: memory, threads, streams.
#include "kit.h"
#include "dap/network.h"
using namespace kit;

namespace dap {
struct DataResponse : public Response {
  any data;
  array<any> list;
  optional<any> opt;
  object obj;
};
struct DataRequest : public Request {
  using Response = DataResponse;
  any data;
  array<any> list;
  optional<any> opt;
  object obj;
};
struct DataEvent : public Event {
  any data;
  variant<integer, string, object> var;
  optional<Source> source;
};
DAP_STRUCT_TYPEINFO(DataResponse, "", DAP_FIELD(data, "data"), DAP_FIELD(list, "list"), DAP_FIELD(opt, "opt"), DAP_FIELD(obj, "obj"));
DAP_STRUCT_TYPEINFO(DataRequest, "data", DAP_FIELD(data, "data"), DAP_FIELD(list, "list"), DAP_FIELD(opt, "opt"), DAP_FIELD(obj, "obj"));
DAP_STRUCT_TYPEINFO(DataEvent, "dataev", DAP_FIELD(data, "data"), DAP_FIELD(var, "var"), DAP_FIELD(source, "source"));
}  // namespace dap

namespace {
J rand_value(int depth) {
  switch (sim::W(depth > 0 ? 8 : 5)) {
    case 0: return J((int64_t)sim::W(1000));
    case 1: return J(sim::W(2) == 1);
    case 2: return J("short");
    case 3: return J("a string that is too long for the small string buffer " + std::to_string(sim::W(100)));
    case 4: return J((sim::W(2) ? 0.5 : 0.0) + sim::W(10));   // 2.0 is a number, not an integer
    case 5: { J a = J::arr(); for (int k = sim::W(4); k; k--) a.push(rand_value(depth - 1)); return a; }
    default: { J o = J::obj(); for (int k = sim::W(4); k; k--) o.set("k" + std::to_string(k), rand_value(depth - 1)); return o; }
  }
}
dap::any to_any(const J& j) {
  switch (j.t) {
    case J::Bool: return dap::boolean(j.b);
    case J::Int: return dap::integer(j.i);
    case J::Dbl: return dap::number(j.d);
    case J::Str: return dap::string(j.s);
    case J::Arr: { dap::array<dap::any> a; for (auto& e : j.a) a.push_back(to_any(e)); return a; }
    case J::Obj: { dap::object o; for (auto& p : j.o) o[p.first] = to_any(p.second); return o; }
    default: return dap::any();
  }
}
bool same(const dap::any& a, const J& j) {
  switch (j.t) {
    case J::Null: return a.is<dap::null>();
    case J::Bool: return a.is<dap::boolean>() && (bool)a.get<dap::boolean>() == j.b;
    case J::Int: return a.is<dap::integer>() && (int64_t)a.get<dap::integer>() == j.i;
    case J::Dbl: return a.is<dap::number>() && (double)a.get<dap::number>() == j.d;
    case J::Str: return a.is<dap::string>() && a.get<dap::string>() == j.s;
    case J::Arr: {
      if (!a.is<dap::array<dap::any>>()) return false;
      auto& v = a.get<dap::array<dap::any>>();
      if (v.size() != j.a.size()) return false;
      for (size_t k = 0; k < v.size(); k++) if (!same(v[k], j.a[k])) return false;
      return true;
    }
    default: {
      if (!a.is<dap::object>()) return false;
      auto& o = a.get<dap::object>();
      if (o.size() != j.o.size()) return false;
      for (auto& p : j.o) { auto it = o.find(p.first); if (it == o.end() || !same(it->second, p.second)) return false; }
      return true;
    }
  }
}
J data_json() {
  J l = J::arr();
  for (int k = sim::W(4); k; k--) l.push(rand_value(2));
  J o = J::obj();
  for (int k = sim::W(3); k; k--) o.set("f" + std::to_string(k), rand_value(2));
  J a = J::obj().set("data", rand_value(3)).set("list", l).set("obj", o);
  if (sim::W(2)) a.set("opt", rand_value(2));
  return a;
}
J dataev_json() {
  J b = J::obj().set("data", rand_value(3)).set("var", sim::W(2) ? rand_value(0) : J::obj().set("in", rand_value(1)));
  if (sim::W(2)) b.set("source", J::obj().set("name", "the name of the source file").set("adapterData", rand_value(2)));
  return b;
}
}  // namespace

WORLD("P24", session_leaks, "sessions end at any point of their traffic: undelivered messages, unanswered requests, failed sends, junk") {
  swarm_sched();
  swarm({sim::LINK_SHORT_READ, sim::LINK_SEGMENT, sim::LINK_DELAY, sim::LINK_WRITE_FAIL, sim::LINK_WRITE_PARTIAL});
  auto in = Link::make("in"), out = Link::make("out");
  long base = in.use_count();
  {
    std::unique_ptr<dap::Session> s;
    bool manual = sim::W(3) == 0, slow = sim::W(3) == 0;
    HQueue<std::function<void()>> held;     // answers nobody gives
    std::vector<std::function<void()>> kept;
    sut([&] {
      s = dap::Session::create();
      if (sim::W(2)) s->onError([](const char*) {});
      if (sim::W(2)) s->setOnInvalidData(dap::kClose);
      switch (sim::W(3)) {
        case 0:
          s->registerHandler([&](const dap::DataRequest& r) {
            { HARNESS(); if (slow) sim::sleep_ns(sim::W(50) * kMs); }
            dap::DataResponse o;
            o.data = r.data;
            o.list = r.list;
            o.opt = r.opt;
            o.obj = r.obj;
            return o;
          });
          break;
        case 1:
          s->registerHandler([&](const dap::DataRequest& r) {
            { HARNESS(); if (slow) sim::sleep_ns(sim::W(50) * kMs); }
            dap::ResponseOrError<dap::DataResponse> o;
            if (r.list.size() % 2) o.error = dap::Error("an error message of some length: %d", (int)r.list.size());
            else o.response.data = r.data;
            return o;
          });
          break;
        default:
          s->registerHandler([&](const dap::DataRequest& r, std::function<void(dap::ResponseOrError<dap::DataResponse>)> cb) {
            bool answer;
            { HARNESS(); answer = sim::W(2); if (!answer && sim::W(2)) kept.push_back([cb] {}); }
            if (answer) { dap::DataResponse o; o.data = r.data; cb(o); }
          });
      }
      if (sim::W(2)) s->registerSentHandler([&](const dap::ResponseOrError<dap::DataResponse>&) {});
      s->registerHandler([&](const dap::DataEvent& e) {
        { HARNESS(); if (slow) sim::sleep_ns(sim::W(50) * kMs); }
        dap::DataEvent copy = e;
        dap::DataEvent moved = std::move(copy);
      });
    });
    int steps = sim::W(12);
    auto one = [&](int k) {
      switch (sim::W(9)) {
        case 0: case 1: in->inject(frame(event_msg(k, "dataev", dataev_json()).dump())); break;
        case 2: case 3: in->inject(frame(request_msg(k, "data", data_json()).dump())); break;
        case 4: { J b = sim::W(2) ? request_msg(k, "data", J::obj().set("data", rand_value(2))) : event_msg(k, "dataev", J::obj().set("var", rand_value(1))); in->inject(frame(b.dump())); break; }
        case 5: in->inject(sim::W(2) ? "some junk that is no frame " : frame("{\"broken\": ")); break;
        case 6: in->inject(frame((sim::W(2) ? response_msg(k, 1 + sim::W(3), "data", data_json()) : error_msg(k, 1 + sim::W(3), "data", "no")).dump())); break;
        default: break;
      }
    };
    // payloads may be kept, run or dropped
    std::vector<std::function<void()>> payloads;
    int before = sim::W(6);
    for (int k = 0; k < before; k++) one(k);
    int how = sim::W(8);
    if (how == 0) {
      // never bound
    } else if (manual) {
      sut([&] { s->connect(in->reader(), out->writer()); });
    } else {
      sut([&] { s->bind(in->reader(), out->writer(), [&] {}); });
    }
    {
      std::vector<Fut<dap::ResponseOrError<dap::DataResponse>>> futs;
      for (int k = 0; k < steps; k++) {
        if (how && manual && before > 0 && sim::W(2) && in->unread() > 40) {
          std::function<void()> p;
          // an incomplete frame would block for ever: only whole frames are injected; junk is skipped up to the end
          in->eof();
          sut([&] { p = s->getPayload(); });
          if (p) {
            if (sim::W(2)) sut([&] { p(); });
            if (sim::W(2)) sut([&] { payloads.push_back(p); });
          }
          sut([&] { p = nullptr; });
          continue;
        }
        one(k);
        if (sim::W(3) == 0) {
          sut([&] {
            dap::DataRequest q;
            q.data = to_any(rand_value(2));
            auto f = s->send(q);
            HARNESS();
            if (sim::W(2)) futs.emplace_back(std::move(f));
          });
        }
        if (sim::W(5) == 0) sut([&] { dap::DataEvent e; e.data = to_any(rand_value(2)); s->send(e); });
        if (sim::W(5) == 0) sim::sleep_ns(sim::W(60) * kMs);
        if (sim::W(20) == 0) in->w_close();
        if (sim::W(20) == 0) out->w_close();
      }
      if (sim::W(2)) sut([&] { futs.clear(); });
      if (sim::W(3) == 0) sim::wait_idle(350000, 200 * kMs, "stuck");
      sut([&] { kept.clear(); });
      if (sim::W(2)) sut([&] { payloads.clear(); });
      sut([&] { s.reset(); });
      sut([&] { kept.clear(); payloads.clear(); futs.clear(); });
    }
    sim::note("steps=%d manual=%d bound=%d", steps, manual, how != 0);
  }
  if (in.use_count() != base || out.use_count() != base) sim::violate("stream-leak", "the session is gone but its streams are still referenced");
  end_of_process("after the session is gone");
}

WORLD("P24", moved_values, "dynamically typed values are received, copied, moved, stored and sent back by handlers") {
  swarm_sched();
  auto a2b = Link::make("a2b"), b2a = Link::make("b2a");
  {
    std::unique_ptr<dap::Session> a, b;
    dap::array<dap::any> pool;              // state of the server
    vector<J> model;
    dap::optional<dap::any> slot;           // more state of the server
    bool slot_set = false;
    J slot_model;
    int n = 1 + sim::W(6);
    sut([&] {
      a = dap::Session::create();
      b = dap::Session::create();
      b->registerHandler([&](const dap::DataRequest& r) -> dap::ResponseOrError<dap::DataResponse> {
        dap::DataResponse o;
        for (int k = 0; k < 6; k++) {
          uint32_t op, i = 0, j = 0;
          { HARNESS(); op = sim::W(14); if (!pool.empty()) { i = sim::W((uint32_t)pool.size()); j = sim::W((uint32_t)pool.size()); } }
          if (pool.empty() && op > 2 && op < 11) op = 0;
          auto mdl = [&](std::function<void()> f) { HARNESS(); f(); };
          switch (op) {
            case 0: pool.push_back(r.data); mdl([&] { model.push_back(model[0]); }); break;
            case 1: { dap::any x(r.data); dap::any y(std::move(x)); x = dap::integer(3); pool.push_back(std::move(y)); mdl([&] { model.push_back(model[0]); }); break; }
            case 2: { dap::any x; x = r.data; pool.emplace_back(x); mdl([&] { model.push_back(model[0]); }); break; }
            case 3: pool[i] = pool[j]; mdl([&] { model[i + 1] = model[j + 1]; }); break;
            case 4: if (i != j) { pool[i] = std::move(pool[j]); pool[j] = dap::string("refilled"); mdl([&] { model[i + 1] = model[j + 1]; model[j + 1] = J("refilled"); }); } break;
            case 5: if (i != j) { std::swap(pool[i], pool[j]); mdl([&] { std::swap(model[i + 1], model[j + 1]); }); } break;
            case 6: pool[i].reset(); mdl([&] { model[i + 1] = J(); }); break;
            case 7: pool[i] = dap::integer(7); mdl([&] { model[i + 1] = J(7); }); break;
            case 8: {   // the same type again: the old value must go, the new one must stay
              string t1, t2;
              { HARNESS(); t1 = rand_string(70); t2 = rand_string(70); }
              pool[i] = dap::string(t1);
              pool[i] = dap::string(t2);
              mdl([&] { model[i + 1] = J(t2); });
              break;
            }
            case 9: {
              dap::array<dap::any> x, y;
              x.push_back(r.data);
              y.push_back(pool[j]);
              y.push_back(r.data);
              J want;
              mdl([&] { want = J::arr().push(model[j + 1]).push(model[0]); });
              pool[i] = x;
              pool[i] = y;
              mdl([&] { model[i + 1] = want; want = J(); });
              break;
            }
            case 11: slot = dap::optional<dap::any>(r.data); mdl([&] { slot_set = true; slot_model = model[0]; }); break;
            case 12: slot = dap::optional<dap::any>(); mdl([&] { slot_set = false; }); break;
            case 13: { dap::optional<dap::any> x = slot; dap::optional<dap::any> y(std::move(x)); dap::optional<dap::any> z; z = y; slot = std::move(z); break; }
            default: pool.erase(pool.begin() + i); mdl([&] { model.erase(model.begin() + 1 + i); }); break;
          }
        }
        o.list = pool;
        o.opt = slot;
        o.data = r.data;
        o.obj = r.obj;
        return std::move(o);
      });
      a->bind(b2a->reader(), a2b->writer());
      b->bind(a2b->reader(), b2a->writer());
    });
    model.push_back(J());   // model[0]: the value in the request
    for (int k = 0; k < n; k++) {
      J v = rand_value(3);
      model[0] = v;
      sut([&] {
        dap::DataRequest q;
        q.data = to_any(v);
        auto r = a->send(q).get();
        if (r.error || !same(r.response.data, v)) sim::violate("wrong-value", "a value came back changed: %s", show(v.dump(), 200).c_str());
        if (r.response.list.size() != model.size() - 1) sim::violate("wrong-value", "%zu values instead of %zu", r.response.list.size(), model.size() - 1);
        for (size_t i = 0; i < r.response.list.size(); i++)
          if (!same(r.response.list[i], model[i + 1])) sim::violate("wrong-value", "stored value %zu came back changed, expected %s", i, show(model[i + 1].dump(), 200).c_str());
        if (r.response.opt.has_value() != slot_set) sim::violate("wrong-value", "an optional that is %s arrived %s", slot_set ? "set" : "not set", slot_set ? "unset" : "set");
        if (slot_set && !same(*r.response.opt, slot_model)) sim::violate("wrong-value", "an optional came back changed, expected %s", show(slot_model.dump(), 200).c_str());
        dap::ResponseOrError<dap::DataResponse> m = std::move(r);
        r = m;
        m = std::move(r);
      });
    }
    sim::note("requests=%d pool=%zu", n, pool.size());
    sut([&] { a.reset(); b.reset(); pool.clear(); pool.shrink_to_fit(); slot = dap::optional<dap::any>(); });
  }
  end_of_process("after the sessions are gone");
}

// Instantiates configuration entries and counters; nothing here is executed.
#include <cstdint>
#include <functional>
#include <string>

#include "mpact/sim/generic/action_point_manager_base.h"
#include "mpact/sim/generic/breakpoint_manager.h"
#include "mpact/sim/generic/component.h"
#include "mpact/sim/generic/config.h"
#include "mpact/sim/generic/counters.h"

namespace verif_unit {

using namespace mpact::sim::generic;  // NOLINT
namespace proto = mpact::sim::proto;

// Variant values, and callbacks through the template interfaces.
template <typename T>
struct Values {
  static absl::Status Set(ConfigBase *c, T v) {
    return c->SetConfigValue(ConfigValue(v));
  }
  static bool Is(ConfigBase *c) {
    return std::holds_alternative<T>(c->GetConfigValue());
  }
  static T Get(ConfigBase *c) { return std::get<T>(c->GetConfigValue()); }
  static void Watch(Config<T> *c, std::function<void()> f) {
    c->AddValueWrittenCallback(f);
  }
};
template struct Values<bool>;
template struct Values<int64_t>;
template struct Values<uint64_t>;
template struct Values<double>;
template struct Values<std::string>;

template <typename T>
struct Counts {
  static bool Is(CounterBaseInterface *c) {
    return std::holds_alternative<T>(c->GetCounterValue());
  }
  static T Get(CounterBaseInterface *c) {
    return std::get<T>(c->GetCounterValue());
  }
  static FunctionCounter<uint64_t, T> *Make(
      std::string name, T initial,
      std::function<bool(const uint64_t &, T *)> f) {
    return new FunctionCounter<uint64_t, T>(name, initial, f);
  }
  static void SetFn(FunctionCounter<uint64_t, T> *c,
                    std::function<bool(const uint64_t &, T *)> f) {
    c->SetFunction(f);
  }
};
template struct Counts<uint64_t>;
template struct Counts<int64_t>;
template struct Counts<double>;

struct Hooks {
  static void Done(Component *c, std::function<void()> f) {
    c->AddImportDoneCallback(f);
  }
};

void Anchor(Component *comp, proto::ComponentData *d,
            proto::ComponentValueEntry *e) {
  Config<bool> a("a"), a2("a", true);
  Config<int64_t> b("a"), b2("a", 1);
  Config<uint64_t> c("a"), c2("a", 1);
  Config<double> f("a"), f2("a", 1);
  Config<std::string> g("a"), g2("a", "x");
  Config<PhysicalValue> h("a", PhysicalValue(1.0));
  (void)h.Import(e);
  (void)h.Export(e);
  (void)h.GetValue();
  SimpleCounter<uint64_t> u, u1("a"), u2("a", uint64_t{1}), u3("a", "b", uint64_t{2}), u4("a", std::string("b"));
  SimpleCounter<int64_t> s, s1("a"), s2("a", int64_t{1}), s3("a", "b", int64_t{2});
  SimpleCounter<double> t, t1("a"), t2("a", 1.0), t3("a", "b", 2.0);
  u.Initialize("a", 1);
  s.Initialize("a", 1);
  t.Initialize("a", 1);
  u.AddListener(&u1);
  s.AddListener(&s1);
  t.AddListener(&t1);
  FunctionCounter<uint64_t> fc("a"), fc2("a", uint64_t{1});
  (void)comp->Import(*d);
  (void)comp->Export(d);
}

struct Halt {
  static BreakpointManager *Make(ActionPointManagerBase *m,
                                 std::function<void()> f) {
    return new BreakpointManager(m, f);
  }
  static absl::StatusOr<int> Set(ActionPointManagerBase *m, uint64_t address,
                                 std::function<void(uint64_t, int)> f) {
    return m->SetAction(address, f);
  }
};

}  // namespace verif_unit

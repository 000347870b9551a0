// Instantiates the delay line templates; nothing here is ever executed.
#include <functional>

#include "mpact/sim/generic/delay_line.h"
#include "mpact/sim/generic/function_delay_line.h"

namespace verif_unit {

class Sink {
 public:
  virtual ~Sink() = default;
  virtual void Apply(int id) = 0;
};

struct Record {
  Sink *sink;
  int id;
  void Apply() { sink->Apply(id); }
  Record(Sink *s, int i) : sink(s), id(i) {}
};

}  // namespace verif_unit

namespace mpact {
namespace sim {
namespace generic {
template class DelayLine<verif_unit::Record>;
template class DelayLine<FunctionDelayRecord>;
template int DelayLine<verif_unit::Record>::Add(int, verif_unit::Sink *, int);
template int DelayLine<FunctionDelayRecord>::Add(int, std::function<void()>);
}  // namespace generic
}  // namespace sim
}  // namespace mpact

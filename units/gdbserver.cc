// The GDB server; nothing here is executed.
#include <cstdint>
#include <string>

#include "mpact/sim/generic/core_debug_interface.h"
#include "mpact/sim/generic/data_buffer.h"
#include "mpact/sim/generic/debug_info.h"
#include "mpact/sim/util/gdbserver/gdbserver.h"

namespace verif_unit {

using namespace mpact::sim::generic;  // NOLINT

void Anchor(DataBuffer *d, DataBufferFactory *f, unsigned char *p) {
  *p = 1;
  (void)f->Allocate(4);
  d->Set<uint8_t>(0, d->Get<uint8_t>(0));
  (void)d->Get<uint8_t>();
  (void)d->size<uint8_t>();
  d->DecRef();
}

}  // namespace verif_unit

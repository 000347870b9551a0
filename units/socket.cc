// The socket stream buffer; nothing here is executed.
#include <streambuf>

#include "mpact/sim/util/renode/socket_streambuf.h"

namespace verif_unit {

using mpact::sim::util::renode::SocketStreambuf;

void Anchor(SocketStreambuf *b, unsigned char *p) {
  *p = 1;
  SocketStreambuf x(1);
  b->overflow(1);
  b->underflow();
}

}  // namespace verif_unit

#include "core.hpp"

namespace qsim {
void quic_sending(sim::Ctx &);
void quic_receiving(sim::Ctx &);
void quic_timing(sim::Ctx &);
void quic_security(sim::Ctx &);
}

namespace sim {

const std::vector<World> &
worlds()
{
  static const std::vector<World> all = {
    { "C21", "QUIC client connection: streams it sends on", qsim::quic_sending },
    { "C22", "QUIC client connection: streams it receives on", qsim::quic_receiving },
    { "C23", "QUIC client connection: time, timers and loss", qsim::quic_timing },
    { "C24", "QUIC client connection: handshake and packet protection", qsim::quic_security },
  };
  return all;
}

}

#include "core.hpp"

namespace qsim {
void program_world(sim::Ctx &);
}

namespace sim {

const std::vector<World> &
worlds()
{
  static const std::vector<World> all = {
    { "C25", "HTTP/3 client program in a simulated operating system", qsim::program_world },
  };
  return all;
}

}

// World "senders": request and response senders, receivers and handles as
// objects of their own, moved, assigned over and destroyed in every state.
#pragma once

#include "core.hpp"

namespace sim {

struct SendersProfile {
  unsigned steps = 120;
  unsigned alloc_fault = 0;
};

void
run_senders(Ctx &ctx, const SendersProfile &profile);

}

// World "exchange": a real client connection and a real server connection over
// the simulated transport, driven by scripted applications whose every step
// is scheduled by the choice source.
#pragma once

#include "h3.hpp"

namespace sim {

struct ExchangeProfile {
  unsigned max_requests = 4;
  unsigned max_headers = 5;
  int header_weight = 0;
  unsigned max_bodies = 4;
  size_t max_body = 2000;
  unsigned empty_body = 0;   // permille of zero-length body buffers
  unsigned misuse = 0;       // permille of app steps that misuse the API
  unsigned handle_chaos = 0; // permille: handle moved / reassigned / dropped
  unsigned drop = 0;         // permille: handle dropped before the end
  unsigned rehandle = 0;     // permille: response(id) asked for again
  unsigned move_conn = 0;    // permille: connection objects moved
  unsigned lazy = 0;         // permille: events left in the generator
  unsigned alloc_fault = 0;  // permille of throwing calls that lose an alloc
  unsigned crash = 0;        // permille of runs in which one side dies
  bool net_faults = true;
  unsigned early = 300;      // permille: respond before the request is complete
  unsigned slow_client = 0;  // permille: client app steps skipped
  unsigned max_steps = 260;
  unsigned big = 15;         // permille of runs far larger in one dimension
  unsigned late_fin = 300;   // permille: fin held back until drained
};

void
run_exchange(Ctx &ctx, const ExchangeProfile &profile);

}

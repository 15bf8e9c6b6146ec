// World "peer": one real endpoint against a scripted peer whose bytes come
// from the reference encoder (valid, extended, forbidden, damaged or cut off),
// judged at every delivery by the reference receiver.
#pragma once

#include "h3.hpp"

namespace sim {

struct PeerProfile {
  int role = -1; // 0 real client, 1 real server, -1 either
  unsigned max_streams = 3;
  int header_weight = 0;
  unsigned max_body = 300;
  // permille per message / stream
  unsigned grease = 0;       // unknown frames
  unsigned zero_data = 0;    // zero-length DATA frames
  unsigned trailers = 0;     // trailing HEADERS
  unsigned wide = 0;         // non-minimal varints
  unsigned truncate = 0;     // FIN before the end
  unsigned stall = 0;        // never ends (no FIN)
  unsigned forbidden = 0;    // a frame that must not be there
  unsigned lie = 0;          // frame length that does not match
  unsigned bad_block = 0;    // invalid field section
  unsigned corrupt = 0;      // random byte damage
  unsigned garbage = 0;      // not HTTP/3 at all
  unsigned uni = 0;          // other unidirectional streams
  unsigned bad_control = 0;  // damaged control stream
  unsigned control_extra = 0; // frames after SETTINGS
  unsigned hostile_calls = 0; // error events, unknown ids, data after FIN
  unsigned lazy = 0;
  unsigned big = 0;           // permille of runs with large and many of everything
  unsigned far_ids = 0;       // permille of runs with large and scattered stream ids
  bool respond = true;
  bool differential = false; // replay every stream one-shot and bytewise
};

void
run_peer(Ctx &ctx, const PeerProfile &profile);

}

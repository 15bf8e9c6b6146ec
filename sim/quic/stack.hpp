// The stand-ins below the client: the transport behind the ngtcp2 API and the
// TLS library behind the BoringSSL API.
#pragma once

#include "engine.hpp"
#include "tls.hpp"

namespace qsim {

// Virtual time, nanoseconds.
extern uint64_t now;
extern sim::Ctx *current;

// What is true of the connection the client is about to make.
struct Truth {
  bytes local, peer; // address bytes
  bytes host;
  Params params;
  Config cfg;
  bytes server_params; // what the server announces
  bool no_hello = false; // the client's TLS fails at once
};
extern Truth truth;

// What a world wants to know about the client's transport.
struct Observer {
  virtual ~Observer() = default;
  // The client offers bytes at an offset of a stream (it may not all fit).
  virtual void offered(int64_t id, uint64_t off, const bytes &data, bool fin)
  {
    (void) id, (void) off, (void) data, (void) fin;
  }
};
extern Observer *observer;

extern Engine *client; // the client's transport; null before and after

// When the call into the client that is under way began.
extern uint64_t entered;

void
reset_stack(sim::Ctx &ctx);

// The client's TLS state.
struct TlsState {
  bool exists = false;
  Secrets secrets;
  bool done = false;
  bool broken = false; // failed for good, and said so
  bytes alpn, name, params;
};
extern TlsState tls;

const char *
error_text(int code);

}

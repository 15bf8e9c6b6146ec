// A TLS 1.3 shaped handshake for QUIC (message order, key schedule structure,
// transcript binding; the primitives are the stand-ins of prim.hpp).
#pragma once

#include "core.hpp"
#include "prim.hpp"

namespace qsim {

using prim::bytes;

struct Message {
  uint8_t type = 0;
  bytes body;
};

enum : uint8_t { CLIENT_HELLO = 1, SERVER_HELLO = 2, TICKET = 4, ENCRYPTED_EXTENSIONS = 8, CERTIFICATE = 11, FINISHED = 20 };

bytes
message(uint8_t type, const bytes &body);
// Takes one complete message off the front.
bool
take_message(bytes &in, Message &out, bytes &raw);

void
put_field(bytes &out, const bytes &value); // 16-bit length, then the value
bool
get_field(const bytes &in, size_t &pos, bytes &value);

// What both ends derive.
struct Secrets {
  prim::Suite suite;
  bool handshake = false;
  bool application = false;
  bytes c_hs, s_hs, c_ap, s_ap;
};

struct Schedule {
  bytes transcript;
  bytes shared;
  Secrets secrets;

  void handshake(const prim::Suite &suite, const bytes &client_random, const bytes &server_random);
  void application();
  bytes finished(bool client) const; // over the transcript so far
};

// How the server's side of a handshake goes wrong.
enum class TlsFault { none, suite, alpn, finished, garbage, params, level, client, post };

class TlsServer {
public:
  TlsServer(sim::Ctx &ctx, unsigned suite, TlsFault fault)
    : ctx_(ctx)
    , suite_(prim::suite(suite))
    , fault_(fault)
  {}
  virtual ~TlsServer() = default;

  bytes params; // to announce
  size_t certificate = 800;

  bytes client_params;
  bytes client_alpn;
  bytes client_name;
  bool done = false;   // the client's Finished is good
  bool failed = false; // the client sent something that makes no sense
  std::string why;
  Schedule schedule;

  void recv(int level, const bytes &data);
  bytes ticket(size_t size) { return message(TICKET, bytes(size, 't')); }

protected:
  virtual void send(int level, const bytes &data) = 0;
  virtual void secrets(int level) = 0; // available now

private:
  void client_hello(const Message &m, const bytes &raw);

  sim::Ctx &ctx_;
  prim::Suite suite_;
  TlsFault fault_;
  bytes in_[3];
  bool hello_ = false;
  bytes expected_finished_;
};

}

// The scripted server and the datagram network between it and the client.
#pragma once

#include "engine.hpp"
#include "tls.hpp"

#include <map>
#include <set>
#include <string>

namespace qsim {

class Server : public Engine, public TlsServer {
public:
  // Bytes the server sends on a stream.
  struct Out {
    bytes content;
    size_t available = 0; // the application has produced this much
    bool fin = true;      // ends after the content
    bool fin_now = false; // ... and the application has said so
    size_t pos = 0;
    bool fin_sent = false;
    bool dead = false; // reset, or refused
  };

  // What arrived on a stream.
  struct In {
    bytes content;
    bool fin = false;
    bool reset = false;
    uint64_t error = 0;
    uint64_t final_size = 0;
    uint64_t unread = 0; // delivered, window not yet extended
    bool starved = false; // never extends this stream's window
  };

  Server(sim::Ctx &ctx, unsigned suite, TlsFault fault)
    : Engine(ctx, true)
    , TlsServer(ctx, suite, fault)
  {}

  std::map<int64_t, Out> out;
  std::map<int64_t, In> in;
  std::vector<uint64_t> order; // stream ids in the order they became known
  uint64_t grants = 0;         // streams granted beyond the first limit
  unsigned lazy_window = 0;    // permille: extend windows later
  bool grant_streams = true;
  bool tickets = false;
  bool post_fault = false; // something else than a ticket after the handshake

  // A datagram arrives.
  void datagram(const bytes &data, uint64_t ts);
  // The next datagram to send; false if there is none now.
  bool next(bytes &out_data, uint64_t ts);
  void extend_windows(bool all);
  void timer(uint64_t ts);
  bool idle() const; // everything it was to send has been sent and acknowledged

  int error = 0; // a transport error the client caused
  std::string error_why;

protected:
  int do_seal(int level, uint8_t *buffer, size_t room, size_t size, const prim::Keys &k, const bytes &nonce, const bytes &ad) override;
  ssize_t do_open(int level, const bytes &sealed, const prim::Keys &k, const bytes &nonce, const bytes &ad, bytes &plain) override;
  int do_mask(int level, const prim::Keys &k, const bytes &sample, uint8_t *mask) override;
  int on_crypto(int level, uint64_t off, const bytes &data) override;
  int on_crypto_acked(int, uint64_t, uint64_t) override { return 0; }
  int on_data(int64_t id, bool fin, uint64_t off, const bytes &data) override;
  int on_acked(int64_t, uint64_t, uint64_t) override { return 0; }
  int on_open(int64_t id) override;
  int on_close(int64_t id, uint64_t error) override;
  int on_reset(int64_t id, uint64_t final_size, uint64_t error) override;
  int on_streams(bool, uint64_t) override { return 0; }
  int on_stream_limit(int64_t, uint64_t) override { return 0; }
  int on_update_key() override;
  void before_packet(const bytes &to, const bytes &from) override;

  void send(int level, const bytes &data) override;
  void secrets(int level) override;

private:
  void check_done();
  std::list<bytes> keep_;
  bytes c_secret_, s_secret_;
};

// Datagrams in flight, both ways.
struct Network {
  struct Faults {
    unsigned loss = 0, duplicate = 0, reorder = 0, corrupt = 0, truncate = 0, garbage = 0, large = 0;
  };
  struct Datagram {
    bytes data;
    bool to_client = false;
  };

  Faults faults;
  uint64_t delay = 10 * MS;
  uint64_t jitter = 0;
  uint64_t cut_from = NEVER, cut_to = NEVER; // nothing gets through
  bool faulty = true;

  std::multimap<uint64_t, Datagram> flight;

  void send(sim::Ctx &ctx, bool to_client, const bytes &data, uint64_t now);
  uint64_t next() const { return flight.empty() ? NEVER : flight.begin()->first; }

private:
  void put(sim::Ctx &ctx, bool to_client, const bytes &data, uint64_t now, bool late);
};

}

// A small QUIC-like transport: packets, header and packet protection, packet
// number spaces, acknowledgements, loss recovery, congestion window, stream
// and connection flow control, stream limits, resets, key updates.  One class
// serves both as the stand-in for ngtcp2 under the client and as the scripted
// server.  All its decisions come from the run's choices.
#pragma once

#include "core.hpp"
#include "prim.hpp"

#include <list>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace qsim {

using prim::bytes;

// The first thing found wrong inside a callback; thrown at the next checkpoint
// (callbacks run below functions that must not throw).
struct Broken {
  bool set = false;
  std::string cls;
  std::string msg;
};
extern Broken broken;
void
breach(const char *cls, const char *format, ...) __attribute__((format(printf, 2, 3)));
void
checkpoint(); // throws what breach() noted

// While the stand-ins run, nothing counts as an allocation of the code under
// test; while they call it back, everything does.
struct Outside {
  bool in = sim::alloc.in_lib;
  Outside() { sim::alloc.in_lib = false; }
  ~Outside() { sim::alloc.in_lib = in; }
};
struct Inside {
  bool in = sim::alloc.in_lib;
  Inside() { sim::alloc.in_lib = true; }
  ~Inside() { sim::alloc.in_lib = in; }
};

constexpr uint64_t NEVER = UINT64_MAX;
constexpr uint64_t US = 1000; // ns
constexpr uint64_t MS = 1000000;

struct Ranges {
  std::map<uint64_t, uint64_t> r; // lo -> hi (exclusive)
  void add(uint64_t lo, uint64_t hi);
  bool contains(uint64_t v) const;
  uint64_t prefix() const
  {
    auto it = r.find(0);
    return it == r.end() ? 0 : it->second;
  }
};

struct Frame {
  enum type : uint8_t {
    PADDING,
    PING,
    ACK,
    CRYPTO,
    STREAM,
    MAX_DATA,
    MAX_STREAM_DATA,
    MAX_STREAMS_BIDI,
    MAX_STREAMS_UNI,
    RESET,
    STOP,
    CLOSE
  };
  type t = PING;
  uint64_t id = 0;
  uint64_t off = 0; // also: limit, error code
  uint64_t len = 0; // also: final size
  bool fin = false;
  bytes data;                                      // parsed STREAM/CRYPTO/CLOSE
  std::vector<std::pair<uint64_t, uint64_t>> acks; // parsed ACK, inclusive
};

struct Params {
  uint64_t stream_bidi_local = 0;
  uint64_t stream_bidi_remote = 0;
  uint64_t stream_uni = 0;
  uint64_t data = 0;
  uint64_t streams_bidi = 0;
  uint64_t streams_uni = 0;
  uint64_t idle_timeout = 0; // ms
  uint64_t max_packet_size = 65527;
  uint64_t ack_delay_exponent = 3;
  uint64_t max_ack_delay = 25; // ms
  bool disable_migration = false;
  bool operator==(const Params &o) const;
};
bytes
encode_params(const Params &p);
bool
decode_params(const bytes &in, Params &p);

struct Config {
  uint64_t pto = 200 * MS;
  uint64_t cwnd = 1U << 20U;
  unsigned short_write = 0; // permille: accept only part of what would fit
};

enum level { INITIAL = 0, HANDSHAKE = 1, APP = 2 };

class Engine {
public:
  // A buffer handed over by the application, not copied: it must stay valid
  // and unchanged until it has been acknowledged.
  struct Segment {
    const uint8_t *ptr = nullptr;
    bytes shadow;
    bool fin = false;
  };

  struct Tx {
    uint64_t next = 0;
    bool fin = false;
    bool fin_acked = false;
    bool shut = false;        // reset (by us, after STOP_SENDING)
    bool reset_acked = false;
    uint64_t limit = 0;
    std::map<uint64_t, Segment> segments; // written, not yet acknowledged
    std::list<uint64_t> lost;
    Ranges acked;
    uint64_t reported = 0;
  };

  struct Rx {
    std::map<uint64_t, bytes> pending;
    uint64_t delivered = 0;
    uint64_t highest = 0;
    uint64_t limit = 0;     // what the application allows
    uint64_t announced = 0; // what the peer was told
    uint64_t window = 0;
    bool fin_known = false;
    uint64_t final_size = 0;
    bool done = false; // end delivered or reset
  };

  struct Stream {
    Tx tx;
    Rx rx;
    bool has_tx = true;
    bool has_rx = true;
    uint64_t error = 0;
  };

  struct Sent {
    uint64_t time = 0;
    uint64_t size = 0;
    bool eliciting = false;
    std::vector<Frame> frames;
  };

  struct Space {
    prim::Keys tx, rx;
    bool dropped = false;
    uint64_t next_pn = 0;
    int64_t largest_acked = -1;
    std::map<uint64_t, Sent> sent;
    Ranges received;
    uint64_t since_ack = 0;          // ack-eliciting packets since the last ACK
    uint64_t first_unacked = NEVER;  // time the oldest of them arrived
    bool ack_timer_cancelled = false;
    uint64_t last_eliciting_sent = 0;
    // crypto stream, sending side
    std::map<uint64_t, Segment> crypto;
    uint64_t crypto_total = 0;
    uint64_t crypto_next = 0;
    std::list<std::pair<uint64_t, uint64_t>> crypto_lost;
    Ranges crypto_acked;
    uint64_t crypto_reported = 0;
    // receiving side
    std::map<uint64_t, bytes> crypto_pending;
    uint64_t crypto_delivered = 0;
  };

  Engine(sim::Ctx &ctx, bool server)
    : ctx_(ctx)
    , server_(server)
  {}
  virtual ~Engine() = default;

  Config cfg;
  Params local, remote;
  bytes scid, dcid;
  bool completed = false; // handshake completed and ready for streams
  bool draining = false;
  uint64_t packets_in = 0;
  uint64_t packets_bad = 0;
  uint64_t losses = 0;
  uint64_t key_updates = 0;
  uint64_t loss_timeouts = 0;

  Space space[3];
  std::map<int64_t, Stream> streams;
  std::set<int64_t> closed;
  std::set<int64_t> whole; // delivered to their end

  // -- sending
  ssize_t write_pkt(uint8_t *dest, size_t destlen, uint64_t ts);
  ssize_t write_stream(uint8_t *dest,
                       size_t destlen,
                       ssize_t *pdatalen,
                       int64_t id,
                       bool fin,
                       const uint8_t *data,
                       size_t size,
                       uint64_t ts);
  int submit_crypto(int level, const uint8_t *data, size_t size);
  int open(bool bidi, int64_t *id);
  int reset(int64_t id, uint64_t error);       // RESET_STREAM
  int stop_sending(int64_t id, uint64_t error); // STOP_SENDING
  void extend_stream(int64_t id, uint64_t n);
  void extend_data(uint64_t n);
  void extend_streams(bool bidi, uint64_t n);
  void close(uint64_t error, const bytes &reason);
  bool update_keys(); // start a key update, if one is possible

  // -- receiving
  int read_pkt(const uint8_t *data, size_t size, uint64_t ts);

  // -- timers
  uint64_t loss_expiry() const;
  uint64_t ack_expiry() const;
  uint64_t expiry() const { return std::min(loss_expiry(), ack_expiry()); }
  int on_loss_timer(uint64_t ts);
  void cancel_ack_timer(uint64_t ts);

  // Everything handed over and not acknowledged must still be there.
  void verify_memory();
  bool quiet() const; // nothing in flight, nothing to (re)transmit
  // Whether some of the `size` bytes the application has for a stream in all,
  // or its end, could be written at this moment.
  bool could_write(int64_t id, uint64_t size, bool fin) const;
  void dump(const char *name) const;
  void set_remote(const Params &p);
  void prepared(const prim::Keys &tx, const prim::Keys &rx);
  uint64_t in_flight() const;

  prim::Keys next_tx, next_rx;

protected:
  virtual int do_seal(int level,
                      uint8_t *buffer,
                      size_t room,
                      size_t size,
                      const prim::Keys &k,
                      const bytes &nonce,
                      const bytes &ad) = 0;
  // < 0: error; otherwise the size of the plaintext.
  virtual ssize_t do_open(int level,
                          const bytes &sealed,
                          const prim::Keys &k,
                          const bytes &nonce,
                          const bytes &ad,
                          bytes &plain) = 0;
  virtual int
  do_mask(int level, const prim::Keys &k, const bytes &sample, uint8_t *mask) = 0;
  virtual int on_start() { return 0; } // before the first packet
  virtual int on_crypto(int level, uint64_t off, const bytes &data) = 0;
  virtual int on_crypto_acked(int level, uint64_t off, uint64_t n) = 0;
  virtual int on_data(int64_t id, bool fin, uint64_t off, const bytes &data) = 0;
  virtual int on_acked(int64_t id, uint64_t off, uint64_t n) = 0;
  virtual int on_open(int64_t id) = 0;
  virtual int on_close(int64_t id, uint64_t error) = 0;
  virtual int on_reset(int64_t id, uint64_t final_size, uint64_t error) = 0;
  virtual int on_streams(bool bidi, uint64_t max) = 0;
  virtual int on_stream_limit(int64_t id, uint64_t max) = 0;
  virtual int on_update_key() = 0; // prepare the next keys
  virtual void on_log(const bytes &text) { (void) text; }
  virtual void on_packet_written() {}
  virtual void before_packet(const bytes &to, const bytes &from) { (void) to, (void) from; }

  sim::Ctx &ctx_;
  bool server_;

private:
  bool is_local(int64_t id) const { return ((id & 1) != 0) == server_; }
  Stream *find(int64_t id);
  Stream &create(int64_t id);
  int maybe_close(int64_t id);
  bool ack_due(int level, uint64_t ts) const;
  size_t frame_room(int level, size_t destlen, bool long_header) const;
  // Collect frames for one packet; returns payload bytes.
  void collect(int level, size_t room, uint64_t ts, std::vector<Frame> &out, bytes &payload);
  bool put(std::vector<Frame> &out, bytes &payload, size_t room, Frame f);
  ssize_t seal_packet(int level,
                      uint8_t *dest,
                      size_t destlen,
                      std::vector<Frame> &frames,
                      bytes &payload,
                      size_t pad_to,
                      uint64_t ts);
  int process(int level, uint64_t pn, const bytes &plain, uint64_t ts);
  int on_frame(int level, Frame &f, uint64_t ts);
  int on_ack(int level, const Frame &f);
  int acked_frame(int level, const Frame &f);
  void lost_packet(int level, uint64_t pn);
  int recv_stream(const Frame &f);
  int deliver(int64_t id);
  int flip_keys();
  bytes stream_bytes(const Segment &s, int64_t id, uint64_t off);
  void check_segment(const Segment &s, int64_t id, uint64_t off);
  size_t verified_ = 0;

  bool started_ = false;
  std::list<Frame> control_; // queued control frames (APP level)
  uint64_t tx_limit_ = 0;    // connection flow control, sending
  uint64_t tx_used_ = 0;
  uint64_t rx_limit_ = 0;
  uint64_t rx_announced_ = 0;
  uint64_t rx_window_ = 0;
  uint64_t rx_used_ = 0;
  uint64_t max_bidi_ = 0; // streams we may open
  uint64_t max_uni_ = 0;
  uint64_t opened_bidi_ = 0;
  uint64_t opened_uni_ = 0;
  uint64_t allow_bidi_ = 0; // streams the peer may open
  uint64_t allow_uni_ = 0;
  bool limits_set_ = false;
  void set_limits();
  unsigned backoff_ = 0;
  bool probe_ = false;
  bool confirmed_ = false;
  unsigned phase_ = 0;
  uint64_t phase_pn_ = 0;     // first packet number we sent in this phase
  uint64_t phase_rx_pn_ = 0;  // first packet number received in this phase
  bool phase_acked_ = true;
  prim::Keys old_rx_;
};

}

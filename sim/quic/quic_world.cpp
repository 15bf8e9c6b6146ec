// The QUIC client connection (real code) over the simulated transport, TLS
// library and network, against a scripted server.
#include "gen.hpp"
#include "server.hpp"
#include "stack.hpp"

#include <bnl/quic/client/connection.hpp>

#include <algorithm>
#include <memory>
#include <random>

// Every random number the library draws comes from the run's choices.
namespace std {
void
random_device::_M_init(const std::string &)
{}
void
random_device::_M_fini()
{}
random_device::result_type
random_device::_M_getval()
{
  qsim::Outside outside;
  return static_cast<result_type>(qsim::current->pick(0x100000000ULL));
}
}

namespace qsim {

using namespace bnl;
using sim::Ctx;
using sim::LibScope;

namespace {

enum Focus { SENDING = 21, RECEIVING = 22, TIMING = 23, SECURITY = 24 };

base::buffer
to_buffer(const bytes &b)
{
  return base::buffer(reinterpret_cast<const uint8_t *>(b.data()), b.size());
}

bytes
to_bytes(const base::buffer &b)
{
  return bytes(reinterpret_cast<const char *>(b.data()), b.size());
}

uint64_t
one_of(Ctx &ctx, std::initializer_list<uint64_t> values)
{
  return values.begin()[ctx.pick(values.size())];
}

class Run final : public Observer {
public:
  Run(Ctx &c, Focus focus)
    : ctx(c)
    , focus_(focus)
  {}

  ~Run() override
  {
    observer = nullptr;
    {
      LibScope lib;
      pending_.reset();
      connection_.reset();
    }
    now = 0;
  }

  void run();
  void end();

private:
  // A stream the client sends on.
  struct Mine {
    bytes content;
    bool fin = true;
    bool fin_with_data = true;
    size_t added = 0;
    bool fin_added = false;
    bool refused = false; // STOP_SENDING sent
    bool used = false;
    bool complete() const { return added == content.size() && (!fin || fin_added); }
  };

  // What the client reported on a stream.
  struct Got {
    size_t size = 0;
    bool fin = false;
    unsigned resets = 0;
    uint64_t code = 0;
  };

  void setup();
  void plan_streams();
  bytes content(size_t max);
  void offered(int64_t id, uint64_t off, const bytes &data, bool fin) override;

  void tick();
  void app();
  void add_some(bool all);
  bool add_one(bool all);
  void server_app(bool all);
  void client_recv(const bytes &data);
  void client_send();
  void check_idle();
  void client_timer();
  void server_send();
  void drain(bool all);
  void event(quic::event &e);
  void transport_error(const char *where);
  void after_client();
  uint64_t client_expiry();
  bool finished();
  std::string missing();
  void stop_faults();
  void final_checks();
  void check_handshake();

  Ctx &ctx;
  Focus focus_;
  std::unique_ptr<Server> server_;
  Network net_;
  std::unique_ptr<quic::client::connection> connection_;
  std::unique_ptr<quic::client::generator> pending_;

  std::map<uint64_t, Mine> mine_;
  std::map<uint64_t, Got> got_;
  std::map<uint64_t, uint64_t> reset_; // server's resets: id -> code
  uint64_t fault_end_ = 0;
  uint64_t deadline_ = NEVER;
  uint64_t next_app_ = NEVER;
  uint64_t next_server_app_ = NEVER;
  uint64_t resume_ = NEVER;       // the client's socket takes data again
  uint64_t stalled_until_ = 0;    // the client does not run
  uint64_t close_at_ = NEVER;
  uint64_t update_at_ = NEVER;
  unsigned updates_ = 0;
  unsigned clock_ticks_ = 0;  // time passes while the client runs
  unsigned socket_blocks_ = 0;
  unsigned undrained_ = 0;
  unsigned spurious_expire_ = 0;
  unsigned stall_ = 0;
  bool many_ = false; // streams, short ones
  bool tls_fault_ = false;
  bool left_ = false; // events are left with the connection
  TlsFault fault_ = TlsFault::none;
  bool closed_ = false;
  bool ended_ = false; // the connection failed, as it had to
  uint64_t baseline_ = 0;
  uint64_t total_bytes_ = 0;
  uint64_t min_window_ = UINT64_MAX;
  uint64_t idle_rounds_ = 0;
  bool checked_handshake_ = false;
  bool had_handshake_ = false;
  bool granted_ = false;
};

bytes
Run::content(size_t max)
{
  size_t size = 0;
  switch (ctx.pick(6)) {
    case 0:
      size = ctx.range(0, 24); // around the size kept inside a buffer
      break;
    case 1:
    case 2:
      size = ctx.range(1, 1500);
      break;
    case 3:
      size = ctx.range(1000, 8000);
      break;
    case 4:
      size = ctx.range(1, 40000);
      break;
    default:
      size = ctx.range(1, max);
      break;
  }
  size = std::min(size, max);
  if (ctx.chance(200)) {
    // Repeats itself: two pieces may well be equal.
    size_t period = ctx.range(1, 40);
    bytes unit = sim::body_bytes(ctx.pick(1U << 16U), 0, period);
    bytes out;
    while (out.size() < size) {
      out += unit;
    }
    out.resize(size);
    return out;
  }
  return sim::body_bytes(ctx.pick(1U << 16U), 0, size);
}

void
Run::plan_streams()
{
  bool heavy = !many_ && ctx.chance(60);
  size_t max = many_ ? 400 : heavy ? 700000 : 60000;
  size_t bidi = 0;
  size_t uni = 0;
  size_t server_uni = 0;
  size_t server_bidi = 0;
  switch (focus_) {
    case SENDING:
      bidi = ctx.range(0, 6);
      uni = ctx.range(bidi == 0 ? 1 : 0, 4);
      server_uni = ctx.pick(2);
      break;
    case RECEIVING:
      bidi = ctx.range(1, 5);
      uni = ctx.pick(2);
      server_uni = ctx.pick(4);
      server_bidi = ctx.pick(3);
      break;
    case TIMING:
      bidi = ctx.range(1, 3);
      uni = ctx.pick(3);
      server_uni = ctx.pick(2);
      max = std::min<size_t>(max, 100000);
      break;
    case SECURITY:
      bidi = ctx.range(1, 3);
      uni = ctx.pick(2);
      server_uni = ctx.pick(2);
      max = std::min<size_t>(max, 20000);
      break;
  }
  if (many_) {
    SIM_COUNT("probe.many_streams");
    bidi += ctx.pick(140);
    uni += ctx.pick(140);
    server_uni += ctx.pick(100);
  }
  auto client_stream = [&](uint64_t id, size_t limit) {
    Mine m;
    m.content = content(limit);
    m.fin = many_ || !ctx.chance(120);
    m.fin_with_data = ctx.chance(600);
    if (m.content.empty()) {
      m.fin = true; // an empty stream exists by its end
    }
    total_bytes_ += m.content.size();
    mine_[id] = std::move(m);
  };
  bool sends = focus_ == SENDING;
  for (size_t i = 0; i < bidi; i++) {
    client_stream(4 * i, sends ? max : std::min<size_t>(max, 6000));
    Server::Out o;
    o.content = content(focus_ == RECEIVING ? max : std::min<size_t>(max, 10000));
    o.fin = many_ || !ctx.chance(100);
    total_bytes_ += o.content.size();
    server_->out[static_cast<int64_t>(4 * i)] = std::move(o);
  }
  for (size_t i = 0; i < uni; i++) {
    client_stream(4 * i + 2, sends ? max : std::min<size_t>(max, 6000));
  }
  for (size_t i = 0; i < server_uni + server_bidi; i++) {
    bool u = i < server_uni;
    Server::Out o;
    o.content = content(focus_ == RECEIVING ? max : std::min<size_t>(max, 10000));
    o.fin = many_ || !ctx.chance(300);
    if (o.content.empty()) {
      o.fin = true;
    }
    total_bytes_ += o.content.size();
    server_->out[static_cast<int64_t>(u ? 4 * i + 3 : 4 * (i - server_uni) + 1)] = std::move(o);
  }
}

void
Run::setup()
{
  reset_stack(ctx);
  observer = this;
  now = ctx.range(1, 1000000) * US;

  bool calm = ctx.chance(120);
  auto knob = [&](unsigned permille, unsigned often = 500) -> unsigned {
    return !calm && ctx.chance(often) ? static_cast<unsigned>(ctx.range(1, permille)) : 0;
  };

  // The addresses, the host, the parameters.
  bool v6 = ctx.chance(300);
  truth.local = sim::random_bytes(ctx, v6 ? 16 : 4, 4);
  truth.peer = sim::random_bytes(ctx, v6 ? 16 : 4, 4);
  truth.host = ctx.chance(300) ? bytes("h{}") : bytes("server.example.org");
  if (ctx.chance(100)) {
    truth.host = "s" + bytes(ctx.range(1, 250), 'x') + ".example";
  }
  auto window = [&]() { return one_of(ctx, { 700, 1500, 4096, 20000, 65536, 262144, 1ULL << 40U }); };
  Params p;
  p.stream_bidi_local = window();
  p.stream_bidi_remote = window();
  p.stream_uni = window();
  p.data = one_of(ctx, { 2000, 16384, 65536, 1048576, 1ULL << 40U });
  p.streams_bidi = one_of(ctx, { 3, 4, 10, 100000 });
  p.streams_uni = one_of(ctx, { 4, 5, 10, 1ULL << 32U });
  p.idle_timeout = one_of(ctx, { 30000, 0, 5000, 600000, 1ULL << 33U });
  p.max_packet_size = one_of(ctx, { 65527, 1500, 20000 });
  p.ack_delay_exponent = one_of(ctx, { 3, 0, 10, 20 });
  p.max_ack_delay = one_of(ctx, { 25, 1, 100, 400 });
  p.disable_migration = ctx.chance(300);
  many_ = ctx.chance(12);
  if (many_) {
    p.streams_bidi = std::max<uint64_t>(p.streams_bidi, 100);
    p.streams_uni = std::max<uint64_t>(p.streams_uni, 100);
  }
  truth.params = p;
  auto note_min = [&](const Params &q) {
    min_window_ = std::min({ min_window_, q.stream_bidi_local, q.stream_bidi_remote, q.stream_uni, q.data });
  };
  note_min(p);

  Params s;
  s.stream_bidi_local = window();
  s.stream_bidi_remote = window();
  s.stream_uni = window();
  s.data = one_of(ctx, { 2000, 16384, 65536, 1048576, 1ULL << 40U });
  s.streams_bidi = one_of(ctx, { 1, 2, 4, 100 });
  s.streams_uni = one_of(ctx, { 1, 2, 3, 100 });
  s.idle_timeout = one_of(ctx, { 30000, 0, 1000, 60000 });
  s.max_ack_delay = one_of(ctx, { 25, 5, 200 });
  s.ack_delay_exponent = one_of(ctx, { 3, 8 });
  note_min(s);
  truth.server_params = encode_params(s);

  // The network.
  net_.delay = one_of(ctx, { 1, 5, 20, 60 }) * MS;
  net_.jitter = ctx.chance(500) ? net_.delay / 2 : 0;
  unsigned heavy = focus_ == TIMING ? 400 : 200;
  net_.faults.loss = knob(heavy);
  net_.faults.duplicate = knob(200, 400);
  net_.faults.reorder = knob(200, 400);
  net_.faults.corrupt = knob(focus_ == SECURITY ? 200 : 60, focus_ == SECURITY ? 600 : 250);
  net_.faults.truncate = knob(60, focus_ == SECURITY ? 500 : 200);
  net_.faults.garbage = knob(100, focus_ == SECURITY ? 600 : 250);

  uint64_t rtt = 2 * (net_.delay + net_.jitter);
  auto config = [&]() {
    Config c;
    c.pto = rtt + rtt / 2 + ctx.range(5000000, 60000000);
    c.cwnd = one_of(ctx, { 1U << 20U, 3000, 12000, 60000 });
    c.short_write = knob(500, 300);
    return c;
  };
  truth.cfg = config();

  // How the handshake goes.
  if (focus_ == SECURITY && ctx.chance(250)) {
    tls_fault_ = true;
    fault_ = static_cast<TlsFault>(ctx.range(1, 8));
    SIM_COUNT("fault.tls");
    truth.no_hello = fault_ == TlsFault::client;
    ctx.ev("tls.fault", static_cast<uint64_t>(fault_));
  }
  unsigned suite = static_cast<unsigned>(ctx.pick(3));
  server_.reset(new Server(ctx, suite, fault_));
  server_->cfg = config();
  server_->local = s;
  server_->params = truth.server_params;
  server_->certificate = one_of(ctx, { 800, 10, 3000, 9000 });
  server_->tickets = ctx.chance(300);
  server_->post_fault = fault_ == TlsFault::post;
  server_->lazy_window = knob(700, 300);
  server_->grant_streams = true;

  plan_streams();

  fault_end_ = now + ctx.range(1, 100) * 40 * MS;
  if (ctx.chance(60)) {
    fault_end_ = now + ctx.range(1, 30) * 1000 * MS;
  }
  if (!calm && ctx.chance(focus_ == TIMING ? 350 : 150)) {
    net_.cut_from = now + ctx.pick((fault_end_ - now) / MS) * MS;
    net_.cut_to = net_.cut_from + ctx.range(10, 3000) * MS;
    fault_end_ = std::max(fault_end_, net_.cut_to);
    SIM_COUNT("fault.partition");
  }
  next_app_ = now + (ctx.chance(400) ? 0 : ctx.pick(300) * MS);
  next_server_app_ = now + ctx.pick(200) * MS;
  clock_ticks_ = ctx.chance(300) ? 1 : 0;
  socket_blocks_ = knob(200, 250);
  undrained_ = knob(500, focus_ == RECEIVING ? 400 : 150);
  spurious_expire_ = knob(200, 300);
  stall_ = knob(focus_ == TIMING ? 40 : 15, 300);
  if (ctx.chance(60)) {
    close_at_ = now + ctx.pick((fault_end_ - now) / MS + 200) * MS;
  }
  if (ctx.chance(focus_ == SECURITY ? 600 : 150)) {
    update_at_ = now + ctx.pick((fault_end_ - now) / MS + 1) * MS;
    updates_ = static_cast<unsigned>(ctx.range(1, 6));
  }
  // Streams whose window never grows: everything else must still get through.
  if (ctx.chance(100) && mine_.size() > 1) {
    auto it = mine_.begin();
    std::advance(it, static_cast<long>(ctx.pick(mine_.size())));
    server_->in[static_cast<int64_t>(it->first)].starved = true;
  }

  entered = now;
  LibScope lib;
  quic::params q;
  q.max_stream_data_bidi_local = p.stream_bidi_local;
  q.max_stream_data_bidi_remote = p.stream_bidi_remote;
  q.max_stream_data_uni = p.stream_uni;
  q.max_data = p.data;
  q.max_streams_bidi = p.streams_bidi;
  q.max_streams_uni = p.streams_uni;
  q.idle_timeout = quic::milliseconds(p.idle_timeout);
  q.max_packet_size = p.max_packet_size;
  q.ack_delay_exponent = p.ack_delay_exponent;
  q.max_ack_delay = quic::milliseconds(p.max_ack_delay);
  q.disable_migration = p.disable_migration ? 1 : 0;
  auto address = [](const bytes &b) {
    return ip::address(base::buffer_view(reinterpret_cast<const uint8_t *>(b.data()), b.size()));
  };
  ip::host host(truth.host);
  quic::path path(ip::endpoint(address(truth.local), 40000), ip::endpoint(address(truth.peer), 443));
  unsigned ticks = clock_ticks_;
  Ctx *c = &ctx;
  connection_.reset(new quic::client::connection(host, path, q, [ticks, c]() {
    if (ticks != 0) {
      Outside outside;
      now += c->pick(3000); // nanoseconds
    }
    return quic::duration(now / US);
  }));
}

void
Run::tick()
{
  ctx.steps++;
  ctx.sim_us = now / US;
  entered = now;
}

// After every call into the client.
void
Run::after_client()
{
  checkpoint();
}

void
Run::transport_error(const char *where)
{
  checkpoint();
  if (tls_fault_ || closed_) {
    ended_ = true;
    SIM_COUNT("probe.failed_as_it_must");
    return;
  }
  sim::fail("unexpected-error", "%s reported an error although nothing fatal happened", where);
}

void
Run::offered(int64_t id, uint64_t off, const bytes &data, bool fin)
{
  auto it = mine_.find(static_cast<uint64_t>(id));
  if (it == mine_.end()) {
    breach("unknown-stream", "bytes offered on stream %lld, which nobody uses", static_cast<long long>(id));
    return;
  }
  const Mine &m = it->second;
  if (off + data.size() > m.added) {
    breach("stream-content",
           "stream %lld: %zu bytes offered at %llu, but only %zu were added",
           static_cast<long long>(id),
           data.size(),
           static_cast<unsigned long long>(off),
           m.added);
    return;
  }
  if (data != m.content.substr(off, data.size())) {
    breach("stream-content",
           "stream %lld: the bytes offered at %llu (%zu of them) are not the ones that were added",
           static_cast<long long>(id),
           static_cast<unsigned long long>(off),
           data.size());
    return;
  }
  if (fin && (!m.fin_added || off + data.size() != m.content.size())) {
    breach("early-fin",
           "stream %lld: end of stream offered at %llu of %zu bytes",
           static_cast<long long>(id),
           static_cast<unsigned long long>(off + data.size()),
           m.content.size());
  }
}

bool
Run::add_one(bool all)
{
  std::vector<uint64_t> ready;
  uint64_t next_bidi = UINT64_MAX;
  uint64_t next_uni = UINT64_MAX;
  for (auto &e : mine_) {
    if (e.second.complete()) {
      continue;
    }
    if (!e.second.used) {
      uint64_t &n = (e.first & 2) == 0 ? next_bidi : next_uni;
      n = std::min(n, e.first);
      continue;
    }
    ready.push_back(e.first);
  }
  // Streams are first used in ascending order.
  if (next_bidi != UINT64_MAX) {
    ready.push_back(next_bidi);
  }
  if (next_uni != UINT64_MAX) {
    ready.push_back(next_uni);
  }
  if (ready.empty()) {
    return false;
  }
  uint64_t id = ready[ctx.pick(ready.size())];
  Mine &m = mine_[id];
  size_t left = m.content.size() - m.added;
  size_t n = left;
  if (!all || ctx.chance(300)) {
    switch (ctx.pick(4)) {
      case 0:
        n = ctx.range(0, 22);
        break;
      case 1:
        n = ctx.range(1, 1400);
        break;
      case 2:
        n = ctx.range(1, 10000);
        break;
      default:
        break;
    }
  }
  n = std::min(n, left);
  bool last = n == left;
  bool fin = m.fin && last && (m.fin_with_data || left == 0);
  if (!m.used && n == 0 && !fin) {
    n = std::min<size_t>(1, left);
    last = n == left;
    fin = m.fin && last && m.fin_with_data;
  }
  if (n == 0 && !fin && !m.used) {
    return true;
  }
  m.used = true;
  quic::data data;
  data.id = id;
  data.fin = fin;
  bytes piece = m.content.substr(m.added, n);
  m.added += n;
  m.fin_added = m.fin_added || fin;
  ctx.ev("app.add", id, n, fin ? 1 : 0);
  tick();
  bool ok = false;
  {
    LibScope lib;
    data.buffer = to_buffer(piece);
    ok = static_cast<bool>(connection_->add(quic::event(std::move(data))));
  }
  after_client();
  SIM_CHECK(ok, "add-refused", "stream %llu: add() of %zu bytes failed", static_cast<unsigned long long>(id), n);
  return true;
}

void
Run::add_some(bool all)
{
  unsigned n = static_cast<unsigned>(ctx.range(1, 4));
  while ((all || n-- > 0) && add_one(all)) {
  }
}

void
Run::app()
{
  add_some(false);
  bool more = false;
  for (auto &e : mine_) {
    more = more || !e.second.complete();
  }
  next_app_ = more ? now + ctx.pick(100) * MS : NEVER;
  client_send();
}

void
Run::server_app(bool all)
{
  Server &s = *server_;
  if (s.completed) {
    for (auto &e : s.out) {
      Server::Out &o = e.second;
      if (o.dead || (!all && ctx.chance(500))) {
        continue;
      }
      if (o.available < o.content.size()) {
        size_t left = o.content.size() - o.available;
        o.available += all ? left : ctx.range(1, left);
      } else if (o.fin) {
        o.fin_now = true;
      }
      if (all) {
        o.fin_now = o.fin;
      }
      if (o.available == o.content.size() && ctx.chance(500)) {
        o.fin_now = o.fin;
      }
    }
    if (!all && ctx.chance(focus_ == RECEIVING ? 60 : 20) && !s.streams.empty()) {
      auto it = s.streams.begin();
      std::advance(it, static_cast<long>(ctx.pick(s.streams.size())));
      int64_t id = it->first;
      uint64_t code = one_of(ctx, { 0x100, 0, 7, 1ULL << 40U });
      if (it->second.has_tx && s.reset(id, code) == 0) {
        SIM_COUNT("fault.server_reset");
        s.out[id].dead = true;
        reset_[static_cast<uint64_t>(id)] = code;
        ctx.ev("server.reset", static_cast<uint64_t>(id), code);
      }
    }
    if (!all && ctx.chance(focus_ == SENDING ? 60 : 20) && !s.streams.empty()) {
      auto it = s.streams.begin();
      std::advance(it, static_cast<long>(ctx.pick(s.streams.size())));
      int64_t id = it->first;
      if (mine_.count(static_cast<uint64_t>(id)) != 0 && s.stop_sending(id, 5) == 0) {
        SIM_COUNT("fault.stop_sending");
        mine_[static_cast<uint64_t>(id)].refused = true;
        ctx.ev("server.stop_sending", static_cast<uint64_t>(id));
      }
    }
    s.extend_windows(all);
    if (all && !granted_) {
      // Streams that do not end make no room for others.
      granted_ = true;
      s.extend_streams(true, many_ ? 200 : 20);
      s.extend_streams(false, many_ ? 200 : 20);
    }
  }
  next_server_app_ = now + (all ? 100 : ctx.range(1, 100)) * MS;
  server_send();
}

void
Run::event(quic::event &e)
{
  uint64_t id = e.id();
  Got &g = got_[id];
  if (e == quic::event::type::error) {
    ctx.ev("client.reset", id, e.error.value);
    SIM_CHECK(e.error.type == quic::application::error::rst_stream,
              "wrong-event",
              "stream %llu: not a stream reset",
              static_cast<unsigned long long>(id));
    auto r = reset_.find(id);
    SIM_CHECK(r != reset_.end() && g.resets == 0 && !g.fin,
              "reset-event",
              "stream %llu: a reset was reported that did not happen (or twice, or after the end)",
              static_cast<unsigned long long>(id));
    SIM_CHECK(e.error.value == r->second,
              "reset-event",
              "stream %llu: reset with code %llu, reported as %llu",
              static_cast<unsigned long long>(id),
              static_cast<unsigned long long>(r->second),
              static_cast<unsigned long long>(e.error.value));
    g.resets++;
    g.code = e.error.value;
    SIM_COUNT("probe.reset_reported");
    return;
  }
  bytes data = to_bytes(e.data.buffer);
  bool fin = e.data.fin;
  ctx.ev("client.data", id, data.size(), fin ? 1 : 0);
  auto it = server_->out.find(static_cast<int64_t>(id));
  SIM_CHECK(it != server_->out.end(),
            "delivered-content",
            "data reported on stream %llu, on which the server sends nothing",
            static_cast<unsigned long long>(id));
  const Server::Out &o = it->second;
  SIM_CHECK(!g.fin && g.resets == 0,
            "delivered-content",
            "stream %llu: data reported after its end",
            static_cast<unsigned long long>(id));
  SIM_CHECK(g.size + data.size() <= o.available &&
              data == o.content.substr(g.size, data.size()),
            "delivered-content",
            "stream %llu: the %zu bytes reported at offset %zu are not the ones that were sent",
            static_cast<unsigned long long>(id),
            data.size(),
            g.size);
  g.size += data.size();
  SIM_CHECK(!fin || (o.fin_now && g.size == o.content.size()),
            "delivered-fin",
            "stream %llu: its end was reported after %zu of %zu bytes",
            static_cast<unsigned long long>(id),
            g.size,
            o.content.size());
  g.fin = fin;
  SIM_COUNT_N("probe.bytes_received", data.size());
}

void
Run::drain(bool all)
{
  while (pending_) {
    bool more = false;
    {
      LibScope lib;
      more = pending_->next();
    }
    left_ = more;
    if (!more) {
      break;
    }
    if (!all && ctx.chance(undrained_)) {
      SIM_COUNT("fault.events_left_undrained");
      return;
    }
    tick();
    bool good = false;
    {
      LibScope lib;
      quic::result<quic::event> r = pending_->get();
      good = static_cast<bool>(r);
      if (good) {
        quic::event e = std::move(r).value();
        Outside outside;
        event(e);
      }
    }
    if (!good) {
      transport_error("recv()");
    }
  }
}

void
Run::client_recv(const bytes &data)
{
  tick();
  ctx.ev("client.recv", data.size());
  bool good = false;
  {
    // Exactly as large as the datagram, and gone afterwards.
    std::vector<uint8_t> copy(data.begin(), data.end());
    copy.shrink_to_fit();
    LibScope lib;
    pending_.reset();
    quic::result<quic::client::generator> r =
      connection_->recv(base::buffer_view(copy.data(), copy.size()));
    good = static_cast<bool>(r);
    if (good) {
      pending_.reset(new quic::client::generator(std::move(r).value()));
    }
  }
  after_client();
  if (!good) {
    transport_error("recv()");
    return;
  }
  drain(false);
  check_handshake();
}

void
Run::check_idle()
{
  if (client == nullptr || ended_ || fault_ != TlsFault::none) {
    return;
  }
  for (auto &e : mine_) {
    const Mine &m = e.second;
    SIM_CHECK(!m.used || !client->could_write(static_cast<int64_t>(e.first), m.added, m.fin_added),
              "idle-too-early",
              "send() says it is idle while stream %llu could be sent",
              static_cast<unsigned long long>(e.first));
  }
}

void
Run::client_send()
{
  resume_ = NEVER;
  for (unsigned n = 0; !ended_; n++) {
    SIM_CHECK(n < 20000, "send-never-idle", "send() went on producing packets without end");
    if (n > 0 && ctx.chance(net_.faulty ? socket_blocks_ : 0)) {
      SIM_COUNT("fault.socket_blocked");
      resume_ = now + ctx.range(1, 20000) * US;
      return;
    }
    tick();
    bytes packet;
    bool good = false;
    bool idle = false;
    {
      LibScope lib;
      quic::result<base::buffer> r = connection_->send();
      good = static_cast<bool>(r);
      if (good) {
        Outside outside;
        packet = to_bytes(r.value());
      } else {
        idle = r.error() == quic::error::idle;
      }
    }
    after_client();
    if (!good && idle) {
      check_idle();
      break;
    }
    if (!good) {
      transport_error("send()");
      return;
    }
    SIM_CHECK(!packet.empty(), "empty-packet", "send() returned an empty packet instead of idle");
    SIM_CHECK(packet.size() <= 1252, "packet-size", "send() returned a packet of %zu bytes", packet.size());
    ctx.ev("client.send", packet.size());
    net_.send(ctx, false, packet, now);
  }
  check_handshake();
}

uint64_t
Run::client_expiry()
{
  if (client == nullptr || ended_) {
    return NEVER;
  }
  uint64_t want = client->expiry();
  uint64_t got = 0;
  {
    LibScope lib;
    got = connection_->expiry().count();
  }
  // Microseconds, rounded either way.
  SIM_CHECK(got == want / US || got == (want - 1) / US + 1,
            "wrong-expiry",
            "expiry() says %llu us, the transport's timer is due at %llu ns",
            static_cast<unsigned long long>(got),
            static_cast<unsigned long long>(want));
  return want == NEVER ? NEVER : got * US;
}

void
Run::client_timer()
{
  tick();
  uint64_t ts = now / US * US;
  bool loss_due = client->loss_expiry() <= ts;
  bool ack_due = client->ack_expiry() <= ts;
  uint64_t fired = client->loss_timeouts;
  ctx.ev("client.expire", loss_due ? 1 : 0, ack_due ? 1 : 0);
  bool good = false;
  {
    LibScope lib;
    good = static_cast<bool>(connection_->expire());
  }
  after_client();
  if (!good) {
    transport_error("expire()");
    return;
  }
  SIM_CHECK(!loss_due || client->loss_timeouts == fired + 1,
            "timer-not-handled",
            "expire() did not fire the loss detection timer that was due");
  SIM_CHECK(loss_due || clock_ticks_ != 0 || client->loss_timeouts == fired,
            "timer-early",
            "expire() fired a loss detection timer that was not due");
  SIM_CHECK(!ack_due || client->ack_expiry() > ts,
            "timer-not-handled",
            "expire() left the acknowledgement timer pending");
  if (loss_due) {
    SIM_COUNT("probe.client_loss_timer");
  }
  if (ack_due) {
    SIM_COUNT("probe.client_ack_timer");
  }
  client_send();
}

void
Run::server_send()
{
  bytes packet;
  for (unsigned n = 0; n < 100000 && server_->next(packet, now); n++) {
    ctx.ev("server.send", packet.size());
    net_.send(ctx, true, packet, now);
  }
  checkpoint();
  SIM_CHECK(server_->error == 0,
            "server-rejects",
            "the client's packets broke the transport at the server: %d (%s)",
            server_->error,
            server_->error_why.c_str());
}

// What TLS and the transport were told, once.
void
Run::check_handshake()
{
  uint64_t timeout = 0;
  {
    LibScope lib;
    timeout = connection_->timeout().count();
  }
  if (client == nullptr || ended_) {
    return;
  }
  uint64_t mine = truth.params.idle_timeout;
  uint64_t want = mine;
  // The server's parameters count as soon as they are known.
  if (client->remote.data != 0) {
    uint64_t theirs = client->remote.idle_timeout;
    want = mine == 0 ? theirs : theirs == 0 ? mine : std::min(mine, theirs);
  }
  SIM_CHECK(timeout == want * 1000,
            "wrong-timeout",
            "timeout() says %llu us, the idle timeout is %llu ms",
            static_cast<unsigned long long>(timeout),
            static_cast<unsigned long long>(want));
  if (checked_handshake_ || !server_->completed) {
    return;
  }
  checked_handshake_ = true;
  SIM_CHECK(!tls_fault_ || fault_ == TlsFault::params || fault_ == TlsFault::post, "handshake-completed", "the client completed a handshake that is broken");
  Params p;
  SIM_CHECK(decode_params(server_->client_params, p) && p == truth.params,
            "wrong-params",
            "the transport parameters the server got are not the client's");
  SIM_CHECK(server_->client_alpn == "\x05h3-23", "wrong-alpn", "the client did not offer h3-23");
  SIM_CHECK(server_->client_name == truth.host, "wrong-name", "the client did not name the host it connects to");
}

bool
Run::finished()
{
  if (!server_->completed || client == nullptr || !client->completed) {
    return false;
  }
  had_handshake_ = true;
  return fault_ != TlsFault::post && missing().empty();
}

std::string
Run::missing()
{
  char line[200];
  if (!client->completed || !server_->completed) {
    return client->completed ? "the server's side of the handshake" : "the handshake";
  }
  if (fault_ == TlsFault::post) {
    return "the end of a connection whose TLS failed";
  }
  for (auto &e : mine_) {
    const Mine &m = e.second;
    auto id = static_cast<long long>(e.first);
    auto it = server_->in.find(id);
    bool have = it != server_->in.end();
    if (have && it->second.starved && m.content.size() > it->second.content.size()) {
      // As much as the window allows.
      uint64_t limit = (e.first & 2) == 0 ? server_->local.stream_bidi_remote : server_->local.stream_uni;
      if (it->second.content.size() >= std::min<uint64_t>(limit, m.content.size())) {
        continue;
      }
    }
    if (m.refused && have && it->second.reset) {
      continue;
    }
    size_t size = have ? it->second.content.size() : 0;
    bool fin = have && it->second.fin;
    if (!m.complete() || size != m.content.size() || fin != m.fin) {
      snprintf(line, sizeof(line), "client stream %lld: %zu of %zu bytes arrived%s", id, size, m.content.size(), m.fin && !fin ? ", its end did not" : "");
      return line;
    }
  }
  for (auto &e : server_->out) {
    const Server::Out &o = e.second;
    auto id = static_cast<uint64_t>(e.first);
    const Got &g = got_[id];
    if (g.resets != 0) {
      continue;
    }
    if (o.dead && reset_.count(id) == 0) {
      continue; // never opened
    }
    auto m = mine_.find(id);
    if (m != mine_.end()) {
      auto in = server_->in.find(e.first);
      bool known = in != server_->in.end() && (!in->second.content.empty() || in->second.fin || in->second.reset);
      if (!known) {
        continue; // the client's stream never got to the server
      }
    }
    if (reset_.count(id) != 0 && !(g.fin)) {
      snprintf(line, sizeof(line), "server stream %llu: its reset was not reported", static_cast<unsigned long long>(id));
      return line;
    }
    if (g.size != o.content.size() || g.fin != o.fin) {
      snprintf(line, sizeof(line), "server stream %llu: %zu of %zu bytes reported%s", static_cast<unsigned long long>(id), g.size, o.content.size(), o.fin && !g.fin ? ", its end was not" : "");
      return line;
    }
  }
  for (auto &e : client->streams) {
    if (!e.second.tx.segments.empty()) {
      snprintf(line, sizeof(line), "client stream %lld: bytes sent are not acknowledged", static_cast<long long>(e.first));
      return line;
    }
  }
  if (!client->quiet()) {
    return "acknowledgements";
  }
  return "";
}

void
Run::stop_faults()
{
  net_.faulty = false;
  net_.cut_from = net_.cut_to = NEVER;
  server_->lazy_window = 0;
  undrained_ = 0;
  stall_ = 0;
  uint64_t rtt = 2 * (net_.delay + net_.jitter);
  deadline_ = now + 4 * fault_end_ + 600000 * MS +
              4 * rtt * (total_bytes_ / std::min<uint64_t>(min_window_, 1000) + 10);
  drain(true);
  server_app(true);
  add_some(true);
  next_app_ = NEVER;
  client_send();
}

void
Run::final_checks()
{
  drain(true);
  for (auto &e : server_->in) {
    auto it = mine_.find(static_cast<uint64_t>(e.first));
    if (it == mine_.end()) {
      continue;
    }
    const Mine &m = it->second;
    const bytes &c = e.second.content;
    SIM_CHECK(c.size() <= m.content.size() && c == m.content.substr(0, c.size()) &&
                (!e.second.fin || (m.fin && c.size() == m.content.size())),
              "stream-content",
              "stream %lld: the server received something else than was added",
              static_cast<long long>(e.first));
  }
}

void
Run::run()
{
  setup();
  after_client();
  baseline_ = sim::alloc.live_bytes;
  ctx.nontrivial = true;
  client_send();
  bool stopped = false;
  uint64_t sent_at = now;
  uint64_t rounds = 0;
  while (!ended_) {
    checkpoint();
    SIM_CHECK(++rounds < 400000, "no-progress", "the connection goes on without getting anywhere: %s", missing().c_str());
    if (stopped && finished()) {
      break;
    }
    uint64_t t_net = net_.next();
    uint64_t t_client = client_expiry();
    if (t_client != NEVER) {
      t_client = std::max(t_client, sent_at + 1 * US);
    }
    uint64_t t_server = server_->expiry();
    uint64_t t_stop = stopped ? NEVER : fault_end_;
    uint64_t t = std::min({ t_net, t_client, t_server, t_stop, next_app_, next_server_app_, resume_, close_at_, update_at_ });
    bool stuck = t == NEVER || (stopped && t > deadline_);
    if (stuck && stopped) {
      if (getenv("SIM_DUMP") != nullptr) {
        client->dump("client");
        server_->dump("server");
      }
      sim::fail("not-delivered",
                "%llu ms after faults stopped: still missing: %s",
                static_cast<unsigned long long>((std::min(t, deadline_) - fault_end_) / MS),
                missing().c_str());
    }
    now = std::max(now, t);
    if (ctx.chance(stall_)) {
      // The client's process does not run for a while.
      SIM_COUNT("fault.client_stall");
      stalled_until_ = now + ctx.range(1, 2000) * MS;
      ctx.mix_schedule(stalled_until_);
    }
    bool client_event = t == t_client || t == next_app_ || t == resume_;
    if (t == t_net && net_.flight.begin()->second.to_client) {
      client_event = true;
    }
    if (client_event && now < stalled_until_) {
      // Nothing is lost, everything is late.
      if (t == t_net) {
        Network::Datagram d = net_.flight.begin()->second;
        net_.flight.erase(net_.flight.begin());
        net_.flight.emplace(stalled_until_, std::move(d));
      } else {
        now = stalled_until_;
      }
      if (t == t_net) {
        continue;
      }
    }
    if (t == t_stop) {
      stopped = true;
      stop_faults();
    } else if (t == close_at_) {
      close_at_ = NEVER;
      if (server_->completed && !stopped) {
        SIM_COUNT("fault.connection_close");
        ctx.ev("server.close");
        server_->close(7, ctx.chance(500) ? bytes("go {} away {") : bytes("bye"));
        closed_ = true;
        server_send();
        // A close is sent once; it may be lost, then nothing tells the client.
        // Tell it again until it does.
      }
    } else if (t == update_at_) {
      if (server_->update_keys()) {
        updates_--;
        ctx.ev("server.update_keys");
        server_app(false);
      }
      update_at_ = updates_ > 0 && !stopped ? now + ctx.range(1, 200) * MS : NEVER;
    } else if (t == t_net) {
      Network::Datagram d = net_.flight.begin()->second;
      net_.flight.erase(net_.flight.begin());
      if (d.to_client) {
        client_recv(d.data);
        if (!ended_ && !ctx.chance(net_.faulty ? 100 : 0)) {
          client_send();
        } else if (!ended_) {
          resume_ = std::min(resume_, now + ctx.range(1, 30000) * US);
        }
        sent_at = now;
      } else {
        server_->datagram(d.data, now);
        server_send();
      }
    } else if (t == next_app_) {
      app();
    } else if (t == next_server_app_) {
      server_app(stopped);
    } else if (t == resume_) {
      client_send();
    } else if (t == t_client) {
      // Timers are never early, often a little late.
      now += ctx.pick(2) == 0 ? 0 : ctx.pick(1000) * US;
      client_timer();
      sent_at = now;
    } else {
      server_->timer(now);
      server_send();
    }
    if (!ended_ && ctx.chance(stopped ? 0 : spurious_expire_)) {
      SIM_COUNT("fault.spurious_expire");
      client_timer();
    }
    if (!ended_ && ctx.chance(100)) {
      drain(false);
    }
    if (closed_ && server_->draining && net_.flight.empty() && !ended_) {
      // The close got lost: the server is gone, and that is all there is to it.
      SIM_COUNT("probe.close_lost");
      break;
    }
    SIM_CHECK(!tls.broken || ended_ || left_,
              "tls-failure-ignored",
              "TLS failed, but no call reported an error");
    ctx.mix(now);
  }
  checkpoint();
  final_checks();
  if (ended_ || closed_) {
    SIM_CHECK(!tls_fault_ || !server_->completed || fault_ == TlsFault::params ||
                fault_ == TlsFault::post,
              "handshake-completed",
              "a broken handshake completed");
    return;
  }
  // Everything is delivered and acknowledged: nothing is left to do or to keep.
  client_send();
  SIM_COUNT("probe.everything_delivered");
  if (pending_) {
    LibScope lib;
    pending_.reset();
  }
  uint64_t live = sim::alloc.live_bytes;
  bool starved = false;
  for (auto &e : server_->in) {
    starved = starved || e.second.starved;
  }
  // Streams that have ended leave nothing behind.
  uint64_t room = 16384;
  for (auto &e : mine_) {
    room += e.second.fin && !e.second.refused ? 0 : 1024;
    if (e.second.refused && client->streams.count(static_cast<int64_t>(e.first)) != 0) {
      room += 2 * e.second.content.size(); // until the stream is closed
    }
  }
  SIM_CHECK(starved || live <= baseline_ + room,
            "memory-kept",
            "everything is acknowledged, yet %llu bytes are kept (%llu when the connection was new)",
            static_cast<unsigned long long>(live),
            static_cast<unsigned long long>(baseline_));
}

}

// Everything goes away, the transport's contexts included.
void
Run::end()
{
  {
    LibScope lib;
    pending_.reset();
    connection_.reset();
  }
  SIM_CHECK(prim::contexts == 0, "context-kept", "%zu cipher contexts were never freed", prim::contexts);
}

template <Focus F>
void
quic_world(Ctx &ctx)
{
  Run run(ctx, F);
  run.run();
  run.end();
}

void
quic_sending(Ctx &ctx)
{
  quic_world<SENDING>(ctx);
}
void
quic_receiving(Ctx &ctx)
{
  quic_world<RECEIVING>(ctx);
}
void
quic_timing(Ctx &ctx)
{
  quic_world<TIMING>(ctx);
}
void
quic_security(Ctx &ctx)
{
  quic_world<SECURITY>(ctx);
}

}

#include "server.hpp"

#include "gen.hpp"

#include <ngtcp2/ngtcp2.h>

#include <algorithm>
#include <cstring>

namespace qsim {

int
Server::do_seal(int level,
                uint8_t *buffer,
                size_t room,
                size_t size,
                const prim::Keys &k,
                const bytes &nonce,
                const bytes &ad)
{
  prim::aead a = level == INITIAL ? prim::aead::aes128 : schedule.secrets.suite.a;
  bytes sealed =
    prim::seal(a, k.key, nonce, ad, bytes(reinterpret_cast<const char *>(buffer), size));
  if (sealed.size() > room) {
    return NGTCP2_ERR_NOBUF;
  }
  memcpy(buffer, sealed.data(), sealed.size());
  return 0;
}

ssize_t
Server::do_open(int level,
                const bytes &sealed,
                const prim::Keys &k,
                const bytes &nonce,
                const bytes &ad,
                bytes &plain)
{
  prim::aead a = level == INITIAL ? prim::aead::aes128 : schedule.secrets.suite.a;
  if (!prim::open(a, k.key, nonce, ad, sealed, plain)) {
    return NGTCP2_ERR_TLS_DECRYPT;
  }
  return static_cast<ssize_t>(plain.size());
}

int
Server::do_mask(int level, const prim::Keys &k, const bytes &sample, uint8_t *mask)
{
  prim::aead a = level == INITIAL ? prim::aead::aes128 : schedule.secrets.suite.a;
  bytes m = prim::hp_mask(a, k.hp, sample);
  memcpy(mask, m.data(), 5);
  return 0;
}

void
Server::before_packet(const bytes &to, const bytes &from)
{
  if (packets_in != 0) {
    return;
  }
  if (scid.empty()) {
    scid = sim::random_bytes(Engine::ctx_, Engine::ctx_.range(4, 20), 4);
  }
  dcid = from;
  space[INITIAL].rx = prim::packet_keys(prim::suite(0), prim::initial_secret(to, true));
  space[INITIAL].tx = prim::packet_keys(prim::suite(0), prim::initial_secret(to, false));
  space[INITIAL].rx.have = space[INITIAL].tx.have = true;
}

void
Server::send(int level, const bytes &data)
{
  keep_.push_back(data);
  submit_crypto(level, reinterpret_cast<const uint8_t *>(keep_.back().data()), data.size());
}

void
Server::secrets(int level)
{
  const Secrets &s = schedule.secrets;
  const bytes &c = level == HANDSHAKE ? s.c_hs : s.c_ap;
  const bytes &v = level == HANDSHAKE ? s.s_hs : s.s_ap;
  space[level].rx = prim::packet_keys(s.suite, c);
  space[level].tx = prim::packet_keys(s.suite, v);
  space[level].rx.have = space[level].tx.have = true;
  if (level == APP) {
    c_secret_ = c;
    s_secret_ = v;
    on_update_key();
  }
}

int
Server::on_update_key()
{
  const Secrets &s = schedule.secrets;
  c_secret_ = prim::next_secret(s.suite, c_secret_);
  s_secret_ = prim::next_secret(s.suite, s_secret_);
  prim::Keys tx = prim::packet_keys(s.suite, s_secret_);
  prim::Keys rx = prim::packet_keys(s.suite, c_secret_);
  tx.have = rx.have = true;
  prepared(tx, rx);
  return 0;
}

int
Server::on_crypto(int level, uint64_t off, const bytes &data)
{
  (void) off;
  TlsServer::recv(level, data);
  if (failed) {
    return NGTCP2_ERR_CRYPTO;
  }
  check_done();
  return 0;
}

void
Server::check_done()
{
  if (!done || completed) {
    return;
  }
  Params p;
  if (!decode_params(client_params, p)) {
    error = NGTCP2_ERR_MALFORMED_TRANSPORT_PARAM;
    error_why = "the client's transport parameters do not decode";
    return;
  }
  set_remote(p);
  completed = true;
  // The client's Finished answers everything sent so far.
  for (int l = 0; l < 2; l++) {
    space[l].sent.clear();
    space[l].crypto_lost.clear();
    space[l].crypto_next = space[l].crypto_total;
  }
  if (post_fault) {
    static const size_t sizes[] = { 0, 3, 40, 500, 511, 512, 513, 1100, 2000, 9000 };
    size_t size = sizes[Engine::ctx_.pick(10)];
    size_t at = Engine::ctx_.pick(3);
    bytes text;
    for (size_t i = 0; i < at; i++) {
      text += ticket(Engine::ctx_.range(1, 1500));
    }
    text += message(static_cast<uint8_t>(Engine::ctx_.range(100, 200)), bytes(size, 'x'));
    send(APP, text);
  } else if (tickets) {
    send(APP, ticket(Engine::ctx_.range(20, 2000)));
  }
  // Streams the server opens itself, within the client's limits.
  for (auto &e : out) {
    if ((e.first & 1) == 0) {
      continue;
    }
    int64_t id = 0;
    if (open((e.first & 2) == 0, &id) != 0 || id != e.first) {
      e.second.dead = true;
    }
  }
}

int
Server::on_open(int64_t id)
{
  order.push_back(static_cast<uint64_t>(id));
  return 0;
}

int
Server::on_data(int64_t id, bool fin, uint64_t off, const bytes &data)
{
  In &i = in[id];
  if (off != i.content.size()) {
    breach("sim-bug", "server delivery out of order");
  }
  i.content += data;
  i.fin = i.fin || fin;
  i.unread += data.size();
  return 0;
}

int
Server::on_close(int64_t id, uint64_t error_code)
{
  (void) error_code;
  if ((id & 1) == 0 && grant_streams) {
    grants++;
    extend_streams((id & 2) == 0, 1);
  }
  return 0;
}

int
Server::on_reset(int64_t id, uint64_t final_size, uint64_t error_code)
{
  In &i = in[id];
  i.reset = true;
  i.error = error_code;
  i.final_size = final_size;
  return 0;
}

void
Server::extend_windows(bool all)
{
  for (auto &e : in) {
    In &i = e.second;
    if (i.unread == 0 || (!all && Engine::ctx_.chance(lazy_window))) {
      continue;
    }
    if (!i.starved) {
      extend_stream(e.first, i.unread);
    }
    extend_data(i.unread);
    i.unread = 0;
  }
}

void
Server::datagram(const bytes &data, uint64_t ts)
{
  if (error != 0) {
    return;
  }
  if (packets_in == 0 && data.size() < 1200) {
    return; // too small to be the first flight
  }
  int rv = read_pkt(reinterpret_cast<const uint8_t *>(data.data()), data.size(), ts);
  if (rv != 0 && rv != NGTCP2_ERR_DRAINING) {
    error = rv;
    error_why = failed ? why : "transport error";
    return;
  }
  extend_windows(false);
}

bool
Server::next(bytes &datagram_out, uint64_t ts)
{
  if (error != 0 || space[INITIAL].tx.have == false || packets_in == 0) {
    return false;
  }
  uint8_t buffer[1252];
  ssize_t n = write_pkt(buffer, sizeof(buffer), ts);
  if (n > 0) {
    datagram_out.assign(reinterpret_cast<const char *>(buffer), static_cast<size_t>(n));
    return true;
  }
  if (!completed || draining) {
    return false;
  }
  std::vector<int64_t> ready;
  for (auto &e : out) {
    Out &o = e.second;
    if (o.dead || o.fin_sent || streams.find(e.first) == streams.end()) {
      continue;
    }
    bool more = o.pos < o.available;
    bool end = o.fin && o.fin_now && o.available == o.content.size();
    if (more || (end && o.pos == o.content.size())) {
      ready.push_back(e.first);
    }
  }
  while (!ready.empty()) {
    size_t at = Engine::ctx_.pick(ready.size());
    int64_t id = ready[at];
    Out &o = out[id];
    bool end = o.fin && o.fin_now && o.available == o.content.size();
    size_t size = o.available - o.pos;
    ssize_t written = -1;
    n = write_stream(buffer,
                     sizeof(buffer),
                     &written,
                     id,
                     end,
                     reinterpret_cast<const uint8_t *>(o.content.data()) + o.pos,
                     size,
                     ts);
    if (n == NGTCP2_ERR_STREAM_SHUT_WR || n == NGTCP2_ERR_STREAM_NOT_FOUND) {
      o.dead = true;
    }
    if (n <= 0) {
      ready.erase(ready.begin() + static_cast<long>(at));
      continue;
    }
    if (written >= 0) {
      o.pos += static_cast<size_t>(written);
      auto it = streams.find(id);
      o.fin_sent = it != streams.end() && it->second.tx.fin;
    }
    datagram_out.assign(reinterpret_cast<const char *>(buffer), static_cast<size_t>(n));
    return true;
  }
  return false;
}

void
Server::timer(uint64_t ts)
{
  if (loss_expiry() <= ts) {
    on_loss_timer(ts);
  }
  if (ack_expiry() <= ts) {
    cancel_ack_timer(ts);
  }
}

bool
Server::idle() const
{
  if (!completed) {
    return false;
  }
  for (const auto &e : out) {
    const Out &o = e.second;
    if (!o.dead && streams.find(e.first) != streams.end() &&
        (o.pos < o.available || (o.fin && o.fin_now && !o.fin_sent))) {
      return false;
    }
  }
  return true;
}

// ----------------------------------------------------------------- network --

void
Network::put(sim::Ctx &ctx, bool to_client, const bytes &data, uint64_t now, bool late)
{
  uint64_t d = delay + (jitter != 0 ? ctx.pick(jitter) : 0);
  if (late) {
    d += ctx.range(1, 20) * delay;
  }
  flight.emplace(now + d, Datagram{ data, to_client });
}

void
Network::send(sim::Ctx &ctx, bool to_client, const bytes &data, uint64_t now)
{
  SIM_COUNT("net.datagrams");
  if (now >= cut_from && now < cut_to) {
    SIM_COUNT("fault.partition_drop");
    ctx.mix_schedule(1);
    return;
  }
  if (!faulty) {
    put(ctx, to_client, data, now, false);
    return;
  }
  if (ctx.chance(faults.loss)) {
    SIM_COUNT("fault.loss");
    ctx.mix_schedule(2);
    return;
  }
  bytes d = data;
  if (ctx.chance(faults.corrupt)) {
    SIM_COUNT("fault.corrupt");
    ctx.mix_schedule(3);
    unsigned n = static_cast<unsigned>(ctx.range(1, 4));
    for (unsigned i = 0; i < n; i++) {
      size_t at = ctx.chance(300) ? ctx.pick(std::min<size_t>(d.size(), 64)) : ctx.pick(d.size());
      d[at] = static_cast<char>(d[at] ^ static_cast<char>(1U << ctx.pick(8)));
    }
  }
  if (ctx.chance(faults.truncate)) {
    SIM_COUNT("fault.truncate");
    ctx.mix_schedule(4);
    d.resize(ctx.range(1, d.size()));
  }
  bool late = ctx.chance(faults.reorder);
  if (late) {
    SIM_COUNT("fault.reorder");
    ctx.mix_schedule(5);
  }
  put(ctx, to_client, d, now, late);
  if (ctx.chance(faults.duplicate)) {
    SIM_COUNT("fault.duplicate");
    ctx.mix_schedule(6);
    put(ctx, to_client, d, now, ctx.chance(500));
  }
  if (ctx.chance(faults.garbage)) {
    SIM_COUNT("fault.garbage");
    ctx.mix_schedule(7);
    // Bytes of another connection, or a header of this one and noise.
    bytes g = ctx.chance(500) ? data.substr(0, ctx.pick(std::min<size_t>(data.size(), 60)))
                              : bytes();
    g += sim::body_bytes(ctx.pick(1U << 16U), 0, ctx.range(1, 1300));
    put(ctx, to_client, g, now, false);
  }
}

}

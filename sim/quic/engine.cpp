#include "engine.hpp"

#include <ngtcp2/ngtcp2.h>

#include <algorithm>
#include <cassert>
#include <cstring>

namespace qsim {

Broken broken;

void
breach(const char *cls, const char *format, ...)
{
  Outside outside;
  if (broken.set) {
    return;
  }
  char line[1024];
  va_list args;
  va_start(args, format);
  vsnprintf(line, sizeof(line), format, args);
  va_end(args);
  broken.set = true;
  broken.cls = cls;
  broken.msg = line;
}

void
checkpoint()
{
  if (broken.set) {
    sim::fail(broken.cls.c_str(), "%s", broken.msg.c_str());
  }
}

void
Ranges::add(uint64_t lo, uint64_t hi)
{
  if (lo >= hi) {
    return;
  }
  auto it = r.upper_bound(lo);
  if (it != r.begin()) {
    auto p = std::prev(it);
    if (p->second >= lo) {
      lo = p->first;
      hi = std::max(hi, p->second);
      r.erase(p);
    }
  }
  it = r.lower_bound(lo);
  while (it != r.end() && it->first <= hi) {
    hi = std::max(hi, it->second);
    it = r.erase(it);
  }
  r[lo] = hi;
}

bool
Ranges::contains(uint64_t v) const
{
  auto it = r.upper_bound(v);
  return it != r.begin() && std::prev(it)->second > v;
}

namespace {

void
put_int(bytes &out, uint64_t v, unsigned n)
{
  for (unsigned i = 0; i < n; i++) {
    out.push_back(static_cast<char>(v >> (8 * (n - 1 - i))));
  }
}

uint64_t
get_int(const bytes &in, size_t &pos, unsigned n, bool &ok)
{
  if (pos + n > in.size()) {
    ok = false;
    return 0;
  }
  uint64_t v = 0;
  for (unsigned i = 0; i < n; i++) {
    v = (v << 8U) | static_cast<uint8_t>(in[pos++]);
  }
  return v;
}

void
put_varint(bytes &out, uint64_t v)
{
  unsigned n = v < 64 ? 1 : v < 16384 ? 2 : v < (1ULL << 30U) ? 4 : 8;
  unsigned tag = n == 1 ? 0 : n == 2 ? 1 : n == 4 ? 2 : 3;
  size_t at = out.size();
  put_int(out, v, n);
  out[at] = static_cast<char>(static_cast<uint8_t>(out[at]) | (tag << 6U));
}

uint64_t
get_varint(const bytes &in, size_t &pos, bool &ok)
{
  if (pos >= in.size()) {
    ok = false;
    return 0;
  }
  unsigned n = 1U << (static_cast<uint8_t>(in[pos]) >> 6U);
  uint64_t v = get_int(in, pos, n, ok);
  return n == 8 ? v & 0x3fffffffffffffffULL : v & ((1ULL << (8 * n - 2)) - 1);
}

size_t
frame_size(const Frame &f)
{
  switch (f.t) {
    case Frame::PADDING:
    case Frame::PING:
      return 1;
    case Frame::ACK:
      return 2 + 16 * f.acks.size();
    case Frame::CRYPTO:
      return 1 + 8 + 2 + f.len;
    case Frame::STREAM:
      return 1 + 8 + 8 + 2 + 1 + f.len;
    case Frame::MAX_DATA:
    case Frame::MAX_STREAMS_BIDI:
    case Frame::MAX_STREAMS_UNI:
      return 9;
    case Frame::MAX_STREAM_DATA:
    case Frame::STOP:
      return 17;
    case Frame::RESET:
      return 25;
    case Frame::CLOSE:
      return 1 + 8 + 2 + f.data.size();
  }
  return 0;
}

void
encode_frame(bytes &out, const Frame &f)
{
  out.push_back(static_cast<char>(f.t));
  switch (f.t) {
    case Frame::PADDING:
    case Frame::PING:
      break;
    case Frame::ACK:
      put_int(out, f.acks.size(), 1);
      for (const auto &a : f.acks) {
        put_int(out, a.first, 8);
        put_int(out, a.second, 8);
      }
      break;
    case Frame::CRYPTO:
      put_int(out, f.off, 8);
      put_int(out, f.data.size(), 2);
      out += f.data;
      break;
    case Frame::STREAM:
      put_int(out, f.id, 8);
      put_int(out, f.off, 8);
      put_int(out, f.data.size(), 2);
      put_int(out, f.fin ? 1 : 0, 1);
      out += f.data;
      break;
    case Frame::MAX_DATA:
    case Frame::MAX_STREAMS_BIDI:
    case Frame::MAX_STREAMS_UNI:
      put_int(out, f.off, 8);
      break;
    case Frame::MAX_STREAM_DATA:
    case Frame::STOP:
      put_int(out, f.id, 8);
      put_int(out, f.off, 8);
      break;
    case Frame::RESET:
      put_int(out, f.id, 8);
      put_int(out, f.off, 8);
      put_int(out, f.len, 8);
      break;
    case Frame::CLOSE:
      put_int(out, f.off, 8);
      put_int(out, f.data.size(), 2);
      out += f.data;
      break;
  }
}

bool
decode_frame(const bytes &in, size_t &pos, Frame &f)
{
  bool ok = true;
  f = Frame();
  f.t = static_cast<Frame::type>(get_int(in, pos, 1, ok));
  switch (f.t) {
    case Frame::PADDING:
    case Frame::PING:
      break;
    case Frame::ACK: {
      uint64_t n = get_int(in, pos, 1, ok);
      for (uint64_t i = 0; i < n && ok; i++) {
        uint64_t lo = get_int(in, pos, 8, ok);
        uint64_t hi = get_int(in, pos, 8, ok);
        f.acks.emplace_back(lo, hi);
      }
      break;
    }
    case Frame::CRYPTO:
    case Frame::STREAM: {
      if (f.t == Frame::STREAM) {
        f.id = get_int(in, pos, 8, ok);
      }
      f.off = get_int(in, pos, 8, ok);
      f.len = get_int(in, pos, 2, ok);
      if (f.t == Frame::STREAM) {
        f.fin = get_int(in, pos, 1, ok) != 0;
      }
      if (!ok || pos + f.len > in.size()) {
        return false;
      }
      f.data = in.substr(pos, f.len);
      pos += f.len;
      break;
    }
    case Frame::MAX_DATA:
    case Frame::MAX_STREAMS_BIDI:
    case Frame::MAX_STREAMS_UNI:
      f.off = get_int(in, pos, 8, ok);
      break;
    case Frame::MAX_STREAM_DATA:
    case Frame::STOP:
      f.id = get_int(in, pos, 8, ok);
      f.off = get_int(in, pos, 8, ok);
      break;
    case Frame::RESET:
      f.id = get_int(in, pos, 8, ok);
      f.off = get_int(in, pos, 8, ok);
      f.len = get_int(in, pos, 8, ok);
      break;
    case Frame::CLOSE: {
      f.off = get_int(in, pos, 8, ok);
      f.len = get_int(in, pos, 2, ok);
      if (!ok || pos + f.len > in.size()) {
        return false;
      }
      f.data = in.substr(pos, f.len);
      pos += f.len;
      break;
    }
    default:
      return false;
  }
  return ok;
}

bool
eliciting(Frame::type t)
{
  return t != Frame::PADDING && t != Frame::ACK && t != Frame::CLOSE;
}

bytes
nonce_of(const bytes &iv, uint64_t pn)
{
  bytes n = iv;
  for (unsigned i = 0; i < 8 && i < n.size(); i++) {
    size_t at = n.size() - 1 - i;
    n[at] = static_cast<char>(static_cast<uint8_t>(n[at]) ^ static_cast<uint8_t>(pn >> (8 * i)));
  }
  return n;
}

constexpr size_t TAG = 16;

}

bool
Params::operator==(const Params &o) const
{
  return stream_bidi_local == o.stream_bidi_local &&
         stream_bidi_remote == o.stream_bidi_remote && stream_uni == o.stream_uni &&
         data == o.data && streams_bidi == o.streams_bidi && streams_uni == o.streams_uni &&
         idle_timeout == o.idle_timeout && max_packet_size == o.max_packet_size &&
         ack_delay_exponent == o.ack_delay_exponent && max_ack_delay == o.max_ack_delay &&
         disable_migration == o.disable_migration;
}

// draft-23: total length, then (id, length, value) each.
bytes
encode_params(const Params &p)
{
  bytes body;
  auto one = [&](uint64_t id, uint64_t value) {
    bytes v;
    put_varint(v, value);
    put_int(body, id, 2);
    put_int(body, v.size(), 2);
    body += v;
  };
  auto some = [&](uint64_t id, uint64_t value, uint64_t usual) {
    if (value != usual) {
      one(id, value);
    }
  };
  some(1, p.idle_timeout, 0);
  some(3, p.max_packet_size, 65527);
  some(4, p.data, 0);
  some(5, p.stream_bidi_local, 0);
  some(6, p.stream_bidi_remote, 0);
  some(7, p.stream_uni, 0);
  some(8, p.streams_bidi, 0);
  some(9, p.streams_uni, 0);
  some(10, p.ack_delay_exponent, 3);
  some(11, p.max_ack_delay, 25);
  if (p.disable_migration) {
    put_int(body, 12, 2);
    put_int(body, 0, 2);
  }
  bytes out;
  put_int(out, body.size(), 2);
  return out + body;
}

bool
decode_params(const bytes &in, Params &p)
{
  bool ok = true;
  size_t pos = 0;
  uint64_t total = get_int(in, pos, 2, ok);
  if (!ok || total + 2 != in.size()) {
    return false;
  }
  p = Params();
  while (ok && pos < in.size()) {
    uint64_t id = get_int(in, pos, 2, ok);
    uint64_t len = get_int(in, pos, 2, ok);
    if (!ok || pos + len > in.size()) {
      return false;
    }
    size_t end = pos + len;
    uint64_t v = len != 0 ? get_varint(in, pos, ok) : 0;
    if (pos != end) {
      return false;
    }
    switch (id) {
      case 1:
        p.idle_timeout = v;
        break;
      case 3:
        p.max_packet_size = v;
        break;
      case 4:
        p.data = v;
        break;
      case 5:
        p.stream_bidi_local = v;
        break;
      case 6:
        p.stream_bidi_remote = v;
        break;
      case 7:
        p.stream_uni = v;
        break;
      case 8:
        p.streams_bidi = v;
        break;
      case 9:
        p.streams_uni = v;
        break;
      case 10:
        p.ack_delay_exponent = v;
        break;
      case 11:
        p.max_ack_delay = v;
        break;
      case 12:
        p.disable_migration = true;
        break;
      default:
        break;
    }
  }
  return ok;
}

// ----------------------------------------------------------------- streams --

Engine::Stream *
Engine::find(int64_t id)
{
  auto it = streams.find(id);
  return it == streams.end() ? nullptr : &it->second;
}

void
Engine::set_limits()
{
  if (!limits_set_) {
    limits_set_ = true;
    rx_limit_ = rx_announced_ = rx_window_ = local.data;
    allow_bidi_ = local.streams_bidi;
    allow_uni_ = local.streams_uni;
  }
}

Engine::Stream &
Engine::create(int64_t id)
{
  set_limits();
  Stream &s = streams[id];
  bool mine = is_local(id);
  bool bidi = (id & 2) == 0;
  s.has_tx = bidi || mine;
  s.has_rx = bidi || !mine;
  if (s.has_tx) {
    s.tx.limit = !bidi ? remote.stream_uni
                 : mine ? remote.stream_bidi_remote
                        : remote.stream_bidi_local;
  }
  if (s.has_rx) {
    s.rx.window = !bidi ? local.stream_uni
                  : mine ? local.stream_bidi_local
                         : local.stream_bidi_remote;
    s.rx.limit = s.rx.announced = s.rx.window;
  }
  return s;
}

void
Engine::set_remote(const Params &p)
{
  remote = p;
  tx_limit_ = p.data;
  max_bidi_ = p.streams_bidi;
  max_uni_ = p.streams_uni;
}

int
Engine::open(bool bidi, int64_t *id)
{
  uint64_t &opened = bidi ? opened_bidi_ : opened_uni_;
  uint64_t max = bidi ? max_bidi_ : max_uni_;
  if (opened >= max) {
    SIM_COUNT("fault.stream_id_blocked");
    return NGTCP2_ERR_STREAM_ID_BLOCKED;
  }
  *id = static_cast<int64_t>(opened * 4 + (bidi ? 0 : 2) + (server_ ? 1 : 0));
  opened++;
  create(*id);
  return 0;
}

int
Engine::maybe_close(int64_t id)
{
  Stream *s = find(id);
  if (s == nullptr) {
    return 0;
  }
  bool tx_done = !s->has_tx || (s->tx.shut ? s->tx.reset_acked : s->tx.fin_acked);
  bool rx_done = !s->has_rx || s->rx.done;
  if (!tx_done || !rx_done) {
    return 0;
  }
  uint64_t error = s->error;
  closed.insert(id);
  streams.erase(id);
  return on_close(id, error);
}

int
Engine::reset(int64_t id, uint64_t error)
{
  Stream *s = find(id);
  if (s == nullptr || !s->has_tx || s->tx.shut || s->tx.fin_acked) {
    return NGTCP2_ERR_STREAM_NOT_FOUND;
  }
  s->tx.shut = true;
  s->tx.segments.clear();
  s->tx.lost.clear();
  if (s->error == 0) {
    s->error = error;
  }
  Frame f;
  f.t = Frame::RESET;
  f.id = static_cast<uint64_t>(id);
  f.off = error;
  f.len = s->tx.next;
  control_.push_back(f);
  return 0;
}

int
Engine::stop_sending(int64_t id, uint64_t error)
{
  Stream *s = find(id);
  if (s == nullptr || !s->has_rx || s->rx.done) {
    return NGTCP2_ERR_STREAM_NOT_FOUND;
  }
  Frame f;
  f.t = Frame::STOP;
  f.id = static_cast<uint64_t>(id);
  f.off = error;
  control_.push_back(f);
  return 0;
}

void
Engine::extend_stream(int64_t id, uint64_t n)
{
  Stream *s = find(id);
  if (s == nullptr || !s->has_rx) {
    return;
  }
  s->rx.limit += n;
  if (s->rx.fin_known || s->rx.done) {
    return;
  }
  if (s->rx.limit - s->rx.announced >= (s->rx.window + 1) / 2) {
    s->rx.announced = s->rx.limit;
    Frame f;
    f.t = Frame::MAX_STREAM_DATA;
    f.id = static_cast<uint64_t>(id);
    f.off = s->rx.limit;
    control_.push_back(f);
  }
}

void
Engine::extend_data(uint64_t n)
{
  set_limits();
  rx_limit_ += n;
  if (rx_limit_ - rx_announced_ >= (rx_window_ + 1) / 2) {
    rx_announced_ = rx_limit_;
    Frame f;
    f.t = Frame::MAX_DATA;
    f.off = rx_limit_;
    control_.push_back(f);
  }
}

void
Engine::extend_streams(bool bidi, uint64_t n)
{
  set_limits();
  uint64_t &allow = bidi ? allow_bidi_ : allow_uni_;
  allow += n;
  Frame f;
  f.t = bidi ? Frame::MAX_STREAMS_BIDI : Frame::MAX_STREAMS_UNI;
  f.off = allow;
  control_.push_back(f);
}

void
Engine::close(uint64_t error, const bytes &reason)
{
  Frame f;
  f.t = Frame::CLOSE;
  f.off = error;
  f.data = reason;
  control_.push_front(f);
}

// -------------------------------------------------------------------- keys --

void
Engine::prepared(const prim::Keys &tx, const prim::Keys &rx)
{
  if (tx.have) {
    next_tx = tx;
  }
  if (rx.have) {
    next_rx = rx;
  }
}

int
Engine::flip_keys()
{
  Space &s = space[APP];
  key_updates++;
  old_rx_ = s.rx;
  next_tx.hp = s.tx.hp;
  next_rx.hp = s.rx.hp;
  s.tx = next_tx;
  s.rx = next_rx;
  next_tx = prim::Keys();
  next_rx = prim::Keys();
  phase_ ^= 1U;
  phase_pn_ = s.next_pn;
  phase_acked_ = false;
  SIM_COUNT("probe.key_update");
  return on_update_key();
}

bool
Engine::update_keys()
{
  if (!completed || !phase_acked_ || !next_tx.have || !next_rx.have || draining) {
    return false;
  }
  phase_rx_pn_ = NEVER; // learned from the first packet of the new phase
  flip_keys();
  return true;
}

// ----------------------------------------------------------------- sending --

bytes
Engine::stream_bytes(const Segment &s, int64_t id, uint64_t off)
{
  check_segment(s, id, off);
  return s.shadow;
}

void
Engine::check_segment(const Segment &s, int64_t id, uint64_t off)
{
  if (!s.shadow.empty() && memcmp(s.ptr, s.shadow.data(), s.shadow.size()) != 0) {
    breach("transport-memory-changed",
           "%s %lld offset %llu: %zu bytes handed to the transport changed before they were "
           "acknowledged",
           id < 0 ? "crypto level" : "stream",
           static_cast<long long>(id < 0 ? -id - 1 : id),
           static_cast<unsigned long long>(off),
           s.shadow.size());
  }
}

void
Engine::verify_memory()
{
  if (server_) {
    return;
  }
  // Of very many, some each time, so that time stays linear.
  size_t total = 0;
  for (auto &e : streams) {
    total += e.second.tx.segments.size();
  }
  size_t stride = 1 + total / 256;
  size_t k = verified_++;
  for (auto &e : streams) {
    if (e.second.tx.shut) {
      continue;
    }
    for (auto &seg : e.second.tx.segments) {
      if (k++ % stride == 0) {
        check_segment(seg.second, e.first, seg.first);
      }
    }
  }
  for (int l = 0; l < 3; l++) {
    if (space[l].dropped) {
      continue;
    }
    for (auto &seg : space[l].crypto) {
      if (seg.first + seg.second.shadow.size() > space[l].crypto_reported &&
          seg.first >= space[l].crypto_reported) {
        check_segment(seg.second, -1 - l, seg.first);
      }
    }
  }
}

int
Engine::submit_crypto(int level, const uint8_t *data, size_t size)
{
  Space &s = space[level];
  if (size == 0) {
    return 0;
  }
  Segment seg;
  seg.ptr = data;
  seg.shadow = bytes(reinterpret_cast<const char *>(data), size);
  s.crypto[s.crypto_total] = seg;
  s.crypto_total += size;
  return 0;
}

uint64_t
Engine::in_flight() const
{
  uint64_t n = 0;
  for (const Space &s : space) {
    for (const auto &p : s.sent) {
      if (p.second.eliciting) {
        n += p.second.size;
      }
    }
  }
  return n;
}

// What it is doing, for a person looking into a failure.
void
Engine::dump(const char *name) const
{
  fprintf(stderr,
          "%s: completed %d draining %d confirmed %d probe %d backoff %u tx %llu/%llu rx %llu/%llu "
          "in flight %llu of %llu opened %llu/%llu %llu/%llu keys %u\n",
          name,
          completed,
          draining,
          confirmed_,
          probe_,
          backoff_,
          static_cast<unsigned long long>(tx_used_),
          static_cast<unsigned long long>(tx_limit_),
          static_cast<unsigned long long>(rx_used_),
          static_cast<unsigned long long>(rx_limit_),
          static_cast<unsigned long long>(in_flight()),
          static_cast<unsigned long long>(cfg.cwnd),
          static_cast<unsigned long long>(opened_bidi_),
          static_cast<unsigned long long>(max_bidi_),
          static_cast<unsigned long long>(opened_uni_),
          static_cast<unsigned long long>(max_uni_),
          static_cast<unsigned>(key_updates));
  for (int l = 0; l < 3; l++) {
    const Space &s = space[l];
    fprintf(stderr,
            "  level %d: dropped %d keys %d/%d next pn %llu unacked packets %zu crypto %llu/%llu lost %zu\n",
            l,
            s.dropped,
            s.tx.have,
            s.rx.have,
            static_cast<unsigned long long>(s.next_pn),
            s.sent.size(),
            static_cast<unsigned long long>(s.crypto_next),
            static_cast<unsigned long long>(s.crypto_total),
            s.crypto_lost.size());
  }
  for (const auto &e : streams) {
    const Tx &t = e.second.tx;
    const Rx &r = e.second.rx;
    fprintf(stderr,
            "  stream %lld: sent %llu acked %llu limit %llu fin %d shut %d segments %zu lost %zu; "
            "delivered %llu highest %llu limit %llu done %d\n",
            static_cast<long long>(e.first),
            static_cast<unsigned long long>(t.next),
            static_cast<unsigned long long>(t.reported),
            static_cast<unsigned long long>(t.limit),
            t.fin,
            t.shut,
            t.segments.size(),
            t.lost.size(),
            static_cast<unsigned long long>(r.delivered),
            static_cast<unsigned long long>(r.highest),
            static_cast<unsigned long long>(r.limit),
            r.done);
  }
}

bool
Engine::quiet() const
{
  for (const Space &s : space) {
    if (s.dropped) {
      continue;
    }
    for (const auto &p : s.sent) {
      if (p.second.eliciting) {
        return false;
      }
    }
    if (!s.crypto_lost.empty() || s.crypto_next < s.crypto_total) {
      return false;
    }
  }
  if (!control_.empty()) {
    return false;
  }
  for (const auto &e : streams) {
    if (!e.second.tx.lost.empty()) {
      return false;
    }
  }
  return true;
}

bool
Engine::ack_due(int level, uint64_t ts) const
{
  const Space &s = space[level];
  if (s.first_unacked == NEVER) {
    return false;
  }
  return level != APP || s.since_ack >= 4 || s.first_unacked + local.max_ack_delay * MS <= ts;
}

bool
Engine::put(std::vector<Frame> &out, bytes &payload, size_t room, Frame f)
{
  if (payload.size() + frame_size(f) > room) {
    return false;
  }
  encode_frame(payload, f);
  f.data.clear();
  out.push_back(std::move(f));
  return true;
}

void
Engine::collect(int level, size_t room, uint64_t ts, std::vector<Frame> &out, bytes &payload)
{
  Space &s = space[level];
  auto ack = [&]() {
    Frame f;
    f.t = Frame::ACK;
    for (auto it = s.received.r.rbegin(); it != s.received.r.rend() && f.acks.size() < 12; ++it) {
      f.acks.emplace_back(it->first, it->second - 1);
    }
    if (put(out, payload, room, f)) {
      s.since_ack = 0;
      s.first_unacked = NEVER;
      s.ack_timer_cancelled = false;
    }
  };
  if (ack_due(level, ts)) {
    ack();
  }
  bool limited = in_flight() + room > cfg.cwnd && !probe_;
  if (limited) {
    SIM_COUNT("fault.congestion_limited");
    return;
  }
  size_t before = out.size();
  auto crypto = [&](uint64_t off, uint64_t len) -> uint64_t {
    auto it = s.crypto.upper_bound(off);
    assert(it != s.crypto.begin());
    --it;
    uint64_t in = off - it->first;
    uint64_t n = std::min<uint64_t>(len, it->second.shadow.size() - in);
    if (payload.size() + 11 >= room) {
      return 0;
    }
    n = std::min<uint64_t>(n, room - payload.size() - 11);
    Frame f;
    f.t = Frame::CRYPTO;
    f.off = off;
    f.len = n;
    // Only what has not been acknowledged is still the transport's.
    bytes now(reinterpret_cast<const char *>(it->second.ptr + in), n);
    if (now != it->second.shadow.substr(in, n)) {
      breach("transport-memory-changed",
             "crypto data of level %d changed before it was acknowledged", level);
    }
    f.data = now;
    put(out, payload, room, f);
    return n;
  };
  while (!s.crypto_lost.empty()) {
    auto &p = s.crypto_lost.front();
    if (p.first < s.crypto_reported) {
      uint64_t gone = std::min(p.second, s.crypto_reported - p.first);
      p.first += gone;
      p.second -= gone;
    }
    if (p.second == 0) {
      s.crypto_lost.pop_front();
      continue;
    }
    uint64_t n = crypto(p.first, p.second);
    if (n == 0) {
      break;
    }
    SIM_COUNT("net.retransmit");
    p.first += n;
    p.second -= n;
  }
  while (s.crypto_next < s.crypto_total) {
    uint64_t n = crypto(s.crypto_next, s.crypto_total - s.crypto_next);
    if (n == 0) {
      break;
    }
    s.crypto_next += n;
  }
  if (level == APP) {
    while (!control_.empty()) {
      Frame f = control_.front();
      if (f.t == Frame::MAX_STREAM_DATA && find(static_cast<int64_t>(f.id)) == nullptr) {
        control_.pop_front();
        continue;
      }
      if (!put(out, payload, room, f)) {
        break;
      }
      control_.pop_front();
    }
    for (auto &e : streams) {
      Tx &tx = e.second.tx;
      while (!tx.lost.empty() && !tx.shut) {
        uint64_t off = tx.lost.front();
        auto it = tx.segments.find(off);
        if (it == tx.segments.end()) {
          tx.lost.pop_front();
          continue;
        }
        Frame f;
        f.t = Frame::STREAM;
        f.id = static_cast<uint64_t>(e.first);
        f.off = off;
        f.len = it->second.shadow.size();
        f.fin = it->second.fin;
        if (payload.size() + frame_size(f) > room) {
          break;
        }
        f.data = stream_bytes(it->second, e.first, off);
        put(out, payload, room, f);
        SIM_COUNT("net.retransmit");
        tx.lost.pop_front();
      }
    }
  }
  if (probe_ && out.size() == before && (level == APP || !completed)) {
    Frame f;
    f.t = Frame::PING;
    put(out, payload, room, f);
  }
  if (out.size() > before) {
    probe_ = false;
    if (s.first_unacked != NEVER) {
      ack(); // ride along
    }
  }
}

size_t
Engine::frame_room(int level, size_t destlen, bool long_header) const
{
  (void) level;
  size_t overhead = 1 + 1 + dcid.size() + (long_header ? 1 + scid.size() : 0) + 2 + 4 + TAG;
  return destlen > overhead ? destlen - overhead : 0;
}

ssize_t
Engine::seal_packet(int level,
                    uint8_t *dest,
                    size_t destlen,
                    std::vector<Frame> &frames,
                    bytes &payload,
                    size_t pad_to,
                    uint64_t ts)
{
  Space &s = space[level];
  bool lng = level != APP;
  size_t room = frame_room(level, destlen, lng);
  size_t overhead = destlen - room;
  if (pad_to > overhead + payload.size()) {
    payload.append(std::min(pad_to - overhead - payload.size(), room - payload.size()), '\0');
  }
  uint64_t pn = s.next_pn++;
  bytes head;
  unsigned first = 0xc0U | (static_cast<unsigned>(level) << 4U);
  if (level == APP && phase_ != 0) {
    first |= 4U;
  }
  head.push_back(static_cast<char>(first));
  put_int(head, dcid.size(), 1);
  head += dcid;
  if (lng) {
    put_int(head, scid.size(), 1);
    head += scid;
  }
  put_int(head, 4 + payload.size() + TAG, 2);
  put_int(head, pn, 4);
  // Exactly as large as it needs to be: writing past the end is caught.
  std::vector<uint8_t> buffer(payload.begin(), payload.end());
  buffer.resize(payload.size() + TAG);
  int rv = do_seal(level,
                   buffer.data(),
                   buffer.size(),
                   payload.size(),
                   s.tx,
                   nonce_of(s.tx.iv, pn),
                   head);
  if (rv != 0) {
    return rv;
  }
  bytes sample(reinterpret_cast<const char *>(buffer.data()), 16);
  uint8_t mask[16] = {};
  rv = do_mask(level, s.tx, sample, mask);
  if (rv != 0) {
    return rv;
  }
  size_t pn_at = head.size() - 4;
  head[0] = static_cast<char>(static_cast<uint8_t>(head[0]) ^ (mask[0] & 0x0fU));
  for (unsigned i = 0; i < 4; i++) {
    head[pn_at + i] = static_cast<char>(static_cast<uint8_t>(head[pn_at + i]) ^ mask[1 + i]);
  }
  memcpy(dest, head.data(), head.size());
  memcpy(dest + head.size(), buffer.data(), buffer.size());
  Sent sent;
  sent.time = ts;
  sent.size = head.size() + buffer.size();
  sent.frames = std::move(frames);
  for (const Frame &f : sent.frames) {
    sent.eliciting = sent.eliciting || eliciting(f.t);
    if (f.t == Frame::CLOSE) {
      draining = true;
    }
  }
  if (sent.eliciting) {
    s.last_eliciting_sent = ts;
    s.sent[pn] = std::move(sent);
  }
  on_packet_written();
  return static_cast<ssize_t>(head.size() + buffer.size());
}

ssize_t
Engine::write_pkt(uint8_t *dest, size_t destlen, uint64_t ts)
{
  if (draining) {
    return server_ ? 0 : NGTCP2_ERR_DRAINING;
  }
  if (!started_) {
    started_ = true;
    int rv = on_start();
    if (rv != 0) {
      return rv;
    }
  }
  verify_memory();
  size_t at = 0;
  for (int level = 0; level < 3; level++) {
    Space &s = space[level];
    if (s.dropped || !s.tx.have || (level == APP && !completed && server_)) {
      continue;
    }
    if (level == APP && !completed) {
      continue;
    }
    bool lng = level != APP;
    size_t room = frame_room(level, destlen - at, lng);
    if (room < 64) {
      break;
    }
    std::vector<Frame> frames;
    bytes payload;
    collect(level, room, ts, frames, payload);
    if (frames.empty()) {
      continue;
    }
    // The client fills up every datagram that carries an Initial packet.
    size_t pad = !server_ && level == INITIAL ? 1200 : 0;
    ssize_t n = seal_packet(level, dest + at, destlen - at, frames, payload, pad, ts);
    if (n < 0) {
      return n;
    }
    at += static_cast<size_t>(n);
  }
  return static_cast<ssize_t>(at);
}

ssize_t
Engine::write_stream(uint8_t *dest,
                     size_t destlen,
                     ssize_t *pdatalen,
                     int64_t id,
                     bool fin,
                     const uint8_t *data,
                     size_t size,
                     uint64_t ts)
{
  *pdatalen = -1;
  if (draining) {
    return NGTCP2_ERR_DRAINING;
  }
  Stream *s = find(id);
  if (s == nullptr || !s->has_tx) {
    return NGTCP2_ERR_STREAM_NOT_FOUND;
  }
  if (s->tx.shut || s->tx.fin) {
    return NGTCP2_ERR_STREAM_SHUT_WR;
  }
  Tx &tx = s->tx;
  uint64_t credit = std::min(tx.limit - tx.next, tx_limit_ - tx_used_);
  if (size > 0 && credit == 0) {
    SIM_COUNT("fault.stream_data_blocked");
    return NGTCP2_ERR_STREAM_DATA_BLOCKED;
  }
  verify_memory();
  size_t room = frame_room(APP, destlen, false);
  std::vector<Frame> frames;
  bytes payload;
  collect(APP, room, ts, frames, payload);
  bool limited = in_flight() + room > cfg.cwnd;
  size_t left = room - payload.size();
  if (!limited && left > 20 + 16) {
    uint64_t n = std::min<uint64_t>(size, std::min<uint64_t>(left - 20, credit));
    if (n > 1 && ctx_.chance(cfg.short_write)) {
      SIM_COUNT("fault.short_write");
      n = ctx_.range(1, n);
    }
    Segment seg;
    seg.ptr = data;
    seg.shadow = bytes(reinterpret_cast<const char *>(data), n);
    seg.fin = fin && n == size;
    Frame f;
    f.t = Frame::STREAM;
    f.id = static_cast<uint64_t>(id);
    f.off = tx.next;
    f.len = n;
    f.fin = seg.fin;
    f.data = seg.shadow;
    put(frames, payload, room, f);
    if (n > 0 || seg.fin) {
      tx.segments[tx.next] = seg;
    }
    tx.next += n;
    tx_used_ += n;
    tx.fin = seg.fin;
    *pdatalen = static_cast<ssize_t>(n);
    if (space[APP].first_unacked != NEVER && payload.size() + 2 + 16 * 12 < room) {
      Space &a = space[APP];
      Frame k;
      k.t = Frame::ACK;
      for (auto it = a.received.r.rbegin(); it != a.received.r.rend() && k.acks.size() < 12; ++it) {
        k.acks.emplace_back(it->first, it->second - 1);
      }
      put(frames, payload, room, k);
      a.since_ack = 0;
      a.first_unacked = NEVER;
      a.ack_timer_cancelled = false;
    }
  }
  if (frames.empty()) {
    return 0;
  }
  if (*pdatalen < 0) {
    SIM_COUNT("fault.packet_without_stream_data");
  }
  return seal_packet(APP, dest, destlen, frames, payload, 0, ts);
}

bool
Engine::could_write(int64_t id, uint64_t size, bool fin) const
{
  if (draining || !completed || closed.count(id) != 0 || in_flight() + 1500 > cfg.cwnd) {
    return false;
  }
  bool bidi = (id & 2) == 0;
  auto it = streams.find(id);
  uint64_t written = 0;
  uint64_t limit = bidi ? remote.stream_bidi_remote : remote.stream_uni;
  if (it != streams.end()) {
    const Tx &tx = it->second.tx;
    if (!it->second.has_tx || tx.shut || tx.fin) {
      return false;
    }
    written = tx.next;
    limit = tx.limit;
  } else {
    uint64_t opened = bidi ? opened_bidi_ : opened_uni_;
    uint64_t next = opened * 4 + (bidi ? 0 : 2) + (server_ ? 1 : 0);
    if (static_cast<uint64_t>(id) != next || opened >= (bidi ? max_bidi_ : max_uni_)) {
      return false;
    }
  }
  if (size > written) {
    return limit > written && tx_limit_ > tx_used_;
  }
  return fin;
}

// ------------------------------------------------------------------ timers --

uint64_t
Engine::loss_expiry() const
{
  if (draining) {
    return NEVER;
  }
  uint64_t last = NEVER;
  for (const Space &s : space) {
    if (s.dropped) {
      continue;
    }
    for (const auto &p : s.sent) {
      if (p.second.eliciting) {
        last = last == NEVER ? s.last_eliciting_sent : std::max(last, s.last_eliciting_sent);
        break;
      }
    }
  }
  if (last == NEVER) {
    // Until the handshake is through a client always has a timer.
    if (server_ || !started_ || completed) {
      return NEVER;
    }
    last = std::max(space[0].last_eliciting_sent, space[1].last_eliciting_sent);
  }
  return last + (cfg.pto << std::min(backoff_, 24U));
}

uint64_t
Engine::ack_expiry() const
{
  const Space &s = space[APP];
  if (draining || s.first_unacked == NEVER || s.ack_timer_cancelled) {
    return NEVER;
  }
  return s.first_unacked + local.max_ack_delay * MS;
}

int
Engine::on_loss_timer(uint64_t ts)
{
  (void) ts;
  loss_timeouts++;
  SIM_COUNT("net.loss_timeout");
  for (int l = 0; l < 3; l++) {
    std::vector<uint64_t> pns;
    for (const auto &p : space[l].sent) {
      pns.push_back(p.first);
    }
    for (uint64_t pn : pns) {
      lost_packet(l, pn);
    }
    if (!space[l].dropped) {
      space[l].last_eliciting_sent = std::max(space[l].last_eliciting_sent, ts);
    }
  }
  backoff_++;
  probe_ = true;
  return 0;
}

void
Engine::cancel_ack_timer(uint64_t ts)
{
  if (ack_expiry() <= ts) {
    space[APP].ack_timer_cancelled = true;
  }
}

void
Engine::lost_packet(int level, uint64_t pn)
{
  Space &s = space[level];
  auto it = s.sent.find(pn);
  Sent sent = std::move(it->second);
  s.sent.erase(it);
  if (sent.eliciting) {
    losses++;
  }
  for (const Frame &f : sent.frames) {
    switch (f.t) {
      case Frame::CRYPTO:
        s.crypto_lost.emplace_back(f.off, f.len);
        break;
      case Frame::STREAM: {
        Stream *st = find(static_cast<int64_t>(f.id));
        if (st != nullptr && !st->tx.shut) {
          st->tx.lost.push_back(f.off);
        }
        break;
      }
      case Frame::MAX_DATA:
      case Frame::MAX_STREAM_DATA:
      case Frame::MAX_STREAMS_BIDI:
      case Frame::MAX_STREAMS_UNI:
      case Frame::RESET:
      case Frame::STOP:
        control_.push_back(f);
        break;
      default:
        break;
    }
  }
}

// --------------------------------------------------------------- receiving --

int
Engine::acked_frame(int level, const Frame &f)
{
  Space &s = space[level];
  switch (f.t) {
    case Frame::CRYPTO: {
      s.crypto_acked.add(f.off, f.off + f.len);
      uint64_t p = s.crypto_acked.prefix();
      if (p > s.crypto_reported) {
        uint64_t from = s.crypto_reported;
        s.crypto_reported = p;
        return on_crypto_acked(level, from, p - from);
      }
      return 0;
    }
    case Frame::STREAM: {
      int64_t id = static_cast<int64_t>(f.id);
      Stream *st = find(id);
      if (st == nullptr || st->tx.shut) {
        return 0;
      }
      Tx &tx = st->tx;
      auto seg = tx.segments.find(f.off);
      if (seg != tx.segments.end() && seg->second.shadow.size() == f.len &&
          seg->second.fin == f.fin) {
        tx.segments.erase(seg);
      }
      tx.acked.add(f.off, f.off + f.len);
      uint64_t p = tx.acked.prefix();
      uint64_t from = tx.reported;
      tx.reported = std::max(p, from);
      if (f.fin) {
        tx.fin_acked = false;
      }
      bool all = tx.fin && tx.reported == tx.next && tx.segments.empty();
      if (all) {
        tx.fin_acked = true;
      }
      if (p > from || f.fin) {
        // Reported in order; an end of stream without bytes is reported as 0.
        int rv = on_acked(id, from, p - from);
        if (rv != 0) {
          return rv;
        }
      }
      return maybe_close(id);
    }
    case Frame::RESET: {
      int64_t id = static_cast<int64_t>(f.id);
      Stream *st = find(id);
      if (st != nullptr) {
        st->tx.reset_acked = true;
      }
      return maybe_close(id);
    }
    default:
      return 0;
  }
}

int
Engine::on_ack(int level, const Frame &f)
{
  Space &s = space[level];
  std::vector<uint64_t> newly;
  for (const auto &a : f.acks) {
    for (auto it = s.sent.lower_bound(a.first); it != s.sent.end() && it->first <= a.second; ++it) {
      newly.push_back(it->first);
    }
    s.largest_acked = std::max<int64_t>(s.largest_acked, static_cast<int64_t>(a.second));
  }
  if (newly.empty()) {
    return 0;
  }
  std::sort(newly.begin(), newly.end());
  backoff_ = 0;
  for (uint64_t pn : newly) {
    auto it = s.sent.find(pn);
    if (it == s.sent.end()) {
      continue;
    }
    std::vector<Frame> frames = std::move(it->second.frames);
    s.sent.erase(it);
    if (level == APP && pn >= phase_pn_ && !phase_acked_) {
      phase_acked_ = true;
    }
    for (const Frame &g : frames) {
      int rv = acked_frame(level, g);
      if (rv != 0) {
        return rv;
      }
    }
  }
  if (level == APP && !confirmed_) {
    confirmed_ = true;
    for (int l = 0; l < 2; l++) {
      if (!server_) {
        space[l].dropped = true;
        space[l].sent.clear();
      }
    }
  }
  std::vector<uint64_t> gone;
  for (const auto &p : s.sent) {
    if (static_cast<int64_t>(p.first) + 3 <= s.largest_acked) {
      gone.push_back(p.first);
    }
  }
  for (uint64_t pn : gone) {
    SIM_COUNT("net.reordering_loss");
    lost_packet(level, pn);
  }
  return 0;
}

int
Engine::deliver(int64_t id)
{
  Stream *s = find(id);
  if (s == nullptr) {
    return 0;
  }
  while (true) {
    Rx &rx = s->rx;
    if (rx.done) {
      break;
    }
    auto it = rx.pending.begin();
    bool have = it != rx.pending.end() && it->first <= rx.delivered;
    if (!have) {
      if (rx.fin_known && rx.delivered == rx.final_size) {
        rx.done = true;
        whole.insert(id);
        int rv = on_data(id, true, rx.delivered, bytes());
        if (rv != 0) {
          return rv;
        }
      }
      break;
    }
    uint64_t off = it->first;
    bytes data = std::move(it->second);
    rx.pending.erase(it);
    if (off + data.size() <= rx.delivered) {
      continue;
    }
    data = data.substr(rx.delivered - off);
    uint64_t from = rx.delivered;
    rx.delivered += data.size();
    bool fin = rx.fin_known && rx.delivered == rx.final_size;
    rx.done = fin;
    if (fin) {
      whole.insert(id);
    }
    int rv = on_data(id, fin, from, data);
    if (rv != 0) {
      return rv;
    }
    s = find(id);
    if (s == nullptr) {
      return 0;
    }
  }
  return maybe_close(id);
}

int
Engine::recv_stream(const Frame &f)
{
  int64_t id = static_cast<int64_t>(f.id);
  if (closed.count(id) != 0) {
    return 0;
  }
  Stream *s = find(id);
  if (s == nullptr) {
    if (is_local(id)) {
      return NGTCP2_ERR_STREAM_STATE;
    }
    s = &create(id);
    uint64_t nth = (f.id >> 2U) + 1;
    if (nth > ((id & 2) == 0 ? allow_bidi_ : allow_uni_)) {
      return NGTCP2_ERR_STREAM_LIMIT;
    }
    int rv = on_open(id);
    if (rv != 0) {
      return rv;
    }
  }
  Rx &rx = s->rx;
  if (rx.done) {
    return 0;
  }
  uint64_t end = f.off + f.data.size();
  if (end > rx.highest) {
    rx_used_ += end - rx.highest;
    rx.highest = end;
  }
  if (rx.highest > rx.limit || rx_used_ > rx_limit_) {
    return NGTCP2_ERR_FLOW_CONTROL;
  }
  if (f.fin) {
    rx.fin_known = true;
    rx.final_size = end;
  }
  if (!f.data.empty()) {
    bytes &slot = rx.pending[f.off];
    if (slot.size() < f.data.size()) {
      slot = f.data;
    }
  }
  return deliver(id);
}

int
Engine::on_frame(int level, Frame &f, uint64_t ts)
{
  (void) ts;
  Space &s = space[level];
  switch (f.t) {
    case Frame::PADDING:
    case Frame::PING:
      return 0;
    case Frame::ACK:
      return on_ack(level, f);
    case Frame::CRYPTO: {
      if (f.off + f.data.size() > s.crypto_delivered) {
        bytes &slot = s.crypto_pending[f.off];
        if (slot.size() < f.data.size()) {
          slot = f.data;
        }
      }
      while (!s.crypto_pending.empty() &&
             s.crypto_pending.begin()->first <= s.crypto_delivered) {
        auto it = s.crypto_pending.begin();
        uint64_t off = it->first;
        bytes data = std::move(it->second);
        s.crypto_pending.erase(it);
        if (off + data.size() <= s.crypto_delivered) {
          continue;
        }
        data = data.substr(s.crypto_delivered - off);
        uint64_t from = s.crypto_delivered;
        s.crypto_delivered += data.size();
        int rv = on_crypto(level, from, data);
        if (rv != 0) {
          return rv;
        }
      }
      return 0;
    }
    case Frame::STREAM:
      return recv_stream(f);
    case Frame::MAX_DATA:
      tx_limit_ = std::max(tx_limit_, f.off);
      return 0;
    case Frame::MAX_STREAM_DATA: {
      Stream *st = find(static_cast<int64_t>(f.id));
      if (st != nullptr && f.off > st->tx.limit) {
        st->tx.limit = f.off;
        return on_stream_limit(static_cast<int64_t>(f.id), f.off);
      }
      return 0;
    }
    case Frame::MAX_STREAMS_BIDI:
    case Frame::MAX_STREAMS_UNI: {
      bool bidi = f.t == Frame::MAX_STREAMS_BIDI;
      uint64_t &max = bidi ? max_bidi_ : max_uni_;
      if (f.off > max) {
        max = f.off;
        return on_streams(bidi, max);
      }
      return 0;
    }
    case Frame::RESET: {
      int64_t id = static_cast<int64_t>(f.id);
      if (closed.count(id) != 0) {
        return 0;
      }
      Stream *st = find(id);
      if (st == nullptr) {
        if (is_local(id)) {
          return NGTCP2_ERR_STREAM_STATE;
        }
        st = &create(id);
        int rv = on_open(id);
        if (rv != 0) {
          return rv;
        }
      }
      if (st->rx.done) {
        return 0;
      }
      st->rx.done = true;
      st->rx.pending.clear();
      st->error = f.off;
      if (f.len > st->rx.highest) {
        rx_used_ += f.len - st->rx.highest;
      }
      // What is never delivered counts as read.
      if (f.len > st->rx.delivered) {
        extend_data(f.len - st->rx.delivered);
      }
      int rv = on_reset(id, f.len, f.off);
      if (rv != 0) {
        return rv;
      }
      return maybe_close(id);
    }
    case Frame::STOP: {
      int64_t id = static_cast<int64_t>(f.id);
      reset(id, f.off);
      return 0;
    }
    case Frame::CLOSE:
      on_log("CONNECTION_CLOSE reason=[" + f.data + "]");
      draining = true;
      return NGTCP2_ERR_DRAINING;
  }
  return 0;
}

int
Engine::process(int level, uint64_t pn, const bytes &plain, uint64_t ts)
{
  Space &s = space[level];
  bool elicits = false;
  size_t pos = 0;
  std::vector<Frame> frames;
  while (pos < plain.size()) {
    Frame f;
    if (!decode_frame(plain, pos, f)) {
      return NGTCP2_ERR_FRAME_ENCODING;
    }
    elicits = elicits || eliciting(f.t);
    if (f.t != Frame::PADDING) {
      frames.push_back(std::move(f));
    }
  }
  for (Frame &f : frames) {
    int rv = on_frame(level, f, ts);
    if (rv != 0) {
      return rv;
    }
  }
  s.received.add(pn, pn + 1);
  if (elicits) {
    s.since_ack++;
    if (s.first_unacked == NEVER) {
      s.first_unacked = ts;
      s.ack_timer_cancelled = false;
    }
  }
  return 0;
}

int
Engine::read_pkt(const uint8_t *data, size_t size, uint64_t ts)
{
  if (draining) {
    return NGTCP2_ERR_DRAINING;
  }
  bytes in(reinterpret_cast<const char *>(data), size);
  size_t at = 0;
  while (at < in.size()) {
    bool ok = true;
    size_t pos = at;
    unsigned first = static_cast<unsigned>(get_int(in, pos, 1, ok));
    if (!ok || (first & 0xc0U) != 0xc0U) {
      break;
    }
    int level = static_cast<int>((first >> 4U) & 3U);
    if (level == 3) {
      break;
    }
    size_t n = get_int(in, pos, 1, ok);
    if (!ok || n > 20 || pos + n > in.size()) {
      break;
    }
    bytes to = in.substr(pos, n);
    pos += n;
    bytes from;
    if (level != APP) {
      n = get_int(in, pos, 1, ok);
      if (!ok || n > 20 || pos + n > in.size()) {
        break;
      }
      from = in.substr(pos, n);
      pos += n;
    }
    size_t len = get_int(in, pos, 2, ok);
    if (!ok || len < 4 + TAG || pos + len > in.size()) {
      break;
    }
    size_t end = pos + len;
    size_t start = at;
    at = end;
    if (server_ && level == INITIAL) {
      before_packet(to, from);
    }
    Space &s = space[level];
    if (s.dropped || !s.rx.have || (level == APP && !completed)) {
      continue;
    }
    if (to != scid && !(server_ && level == INITIAL)) {
      continue;
    }
    uint8_t mask[16] = {};
    int rv = do_mask(level, s.rx, in.substr(pos + 4, 16), mask);
    if (rv != 0) {
      return rv;
    }
    bytes head = in.substr(start, pos + 4 - start);
    first ^= mask[0] & 0x0fU;
    head[0] = static_cast<char>(first);
    uint64_t pn = 0;
    for (unsigned i = 0; i < 4; i++) {
      uint8_t b = static_cast<uint8_t>(static_cast<uint8_t>(in[pos + i]) ^ mask[1 + i]);
      head[head.size() - 4 + i] = static_cast<char>(b);
      pn = (pn << 8U) | b;
    }
    bytes sealed = in.substr(pos + 4, len - 4);
    prim::Keys keys = s.rx;
    bool flip = false;
    if (level == APP && ((first >> 2U) & 1U) != phase_) {
      if (next_rx.have && (phase_rx_pn_ == NEVER ? false : pn > phase_rx_pn_)) {
        keys = next_rx;
        keys.hp = s.rx.hp;
        flip = true;
      } else if (old_rx_.have) {
        keys = old_rx_;
      }
    }
    bytes plain;
    ssize_t r = do_open(level, sealed, keys, nonce_of(keys.iv, pn), head, plain);
    if (r < 0) {
      if (r <= NGTCP2_ERR_FATAL) {
        return static_cast<int>(r);
      }
      packets_bad++;
      continue;
    }
    packets_in++;
    if (s.received.contains(pn)) {
      SIM_COUNT("net.duplicate_packet");
      continue;
    }
    if (!server_ && level == INITIAL && from != dcid) {
      dcid = from;
    }
    if (flip) {
      rv = flip_keys();
      if (rv != 0) {
        return rv;
      }
    }
    if (level == APP && ((first >> 2U) & 1U) == phase_) {
      phase_rx_pn_ = phase_rx_pn_ == NEVER ? pn : std::max(phase_rx_pn_, pn);
    }
    rv = process(level, pn, plain, ts);
    if (rv != 0) {
      return rv;
    }
  }
  return 0;
}

}

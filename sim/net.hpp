// Simulated QUIC stream transport: discrete-event virtual time, lossy,
// duplicating, reordering, partitionable packet network underneath; reliable
// in-order byte streams (with FIN) on top, exactly what HTTP/3 is promised.
#pragma once

#include "core.hpp"

#include <algorithm>
#include <map>
#include <queue>
#include <string>

namespace sim {

struct NetConfig {
  unsigned loss = 0;      // permille, per transmission
  unsigned dup = 0;       // permille
  uint64_t min_latency = 1000; // us
  uint64_t jitter = 0;    // us
  uint64_t mtu = 1200;
  uint64_t rto = 50000;   // us
  unsigned separate_fin = 0; // permille: deliver FIN as its own empty event
  unsigned one_chunk = 0;    // permille: deliver all that is there
  uint64_t max_chunk = 64;   // otherwise up to this many bytes
};

class Net {
public:
  // Direction 0: client -> server, 1: server -> client.
  struct Stream {
    std::string sent;       // every byte handed over by the sender
    bool fin_sent = false;  // sender has ended the stream
    std::map<uint64_t, std::pair<uint64_t, bool>> pending; // off -> (len, fin)
    uint64_t contiguous = 0; // reassembled at the receiver
    bool fin_arrived = false; // FIN position known and everything reassembled
    bool fin_seen = false;
    uint64_t delivered = 0;  // handed to the receiving application
    bool fin_delivered = false;
    uint64_t pieces = 0;
    bool dead = false; // sender died: nothing more ever arrives
  };

  NetConfig cfg;
  std::map<uint64_t, Stream> streams[2];
  uint64_t now = 0;
  bool faults = true;

  explicit Net(Ctx &ctx)
    : ctx_(ctx)
  {}

  // Sender side. Enforces the transport contract on the caller.
  void send(int dir, uint64_t id, const std::string &data, bool fin)
  {
    Stream &s = streams[dir][id];
    SIM_CHECK(!s.fin_sent,
              "data-after-fin",
              "dir %d stream %llu: %zu bytes (fin=%d) sent after FIN",
              dir,
              static_cast<unsigned long long>(id),
              data.size(),
              fin);
    uint64_t base = s.sent.size();
    s.sent += data;
    s.fin_sent = fin;
    if (data.empty() && !fin) {
      return;
    }
    uint64_t off = 0;
    do {
      uint64_t len = std::min<uint64_t>(cfg.mtu, data.size() - off);
      bool last = off + len == data.size();
      transmit(dir, id, base + off, len, fin && last);
      off += len;
    } while (off < data.size());
  }

  void partition(uint64_t us)
  {
    SIM_COUNT("fault.partition");
    partition_until_ = std::max(partition_until_, now + us);
  }

  bool idle() const { return queue_.empty(); }

  // Process the next network event; false when there is none.
  bool advance()
  {
    if (queue_.empty()) {
      return false;
    }
    Event e = queue_.top();
    queue_.pop();
    now = std::max(now, e.time);
    ctx_.sim_us = now;
    if (e.retransmit) {
      SIM_COUNT("net.retransmit");
      transmit(e.dir, e.id, e.off, e.len, e.fin);
      return true;
    }
    arrive(e);
    return true;
  }

  struct Chunk {
    uint64_t id = 0;
    std::string data;
    bool fin = false;
  };

  // Streams of a direction with something to hand to the application.
  static bool ready(const Stream &s)
  {
    return s.contiguous > s.delivered || (s.fin_arrived && !s.fin_delivered);
  }

  bool ready(int dir, uint64_t id) { return ready(streams[dir][id]); }

  std::vector<uint64_t> deliverable(int dir) const
  {
    std::vector<uint64_t> out;
    for (const auto &entry : streams[dir]) {
      const Stream &s = entry.second;
      if (ready(s)) {
        out.push_back(entry.first);
      }
    }
    return out;
  }

  Chunk take(int dir, uint64_t id, bool whole = false)
  {
    Stream &s = streams[dir][id];
    Chunk c;
    c.id = id;
    uint64_t available = s.contiguous - s.delivered;
    uint64_t n = available;
    if (!whole && available > 0 && !ctx_.chance(cfg.one_chunk)) {
      n = ctx_.range(1, std::min<uint64_t>(available, cfg.max_chunk));
      // Decoding restarts on every piece, so a large field line in very many
      // pieces takes minutes to simulate and shows nothing new.
      if (++s.pieces > 300) {
        n = std::max(n, std::min<uint64_t>(available, s.delivered / 4));
      }
    }
    c.data = s.sent.substr(s.delivered, n);
    s.delivered += n;
    if (s.fin_arrived && s.delivered == s.contiguous) {
      if (n > 0 && ctx_.chance(cfg.separate_fin)) {
        SIM_COUNT("fault.separate_fin");
      } else {
        c.fin = true;
        s.fin_delivered = true;
      }
    }
    if (n < available) {
      SIM_COUNT("net.split_chunk");
    }
    return c;
  }

private:
  struct Event {
    uint64_t time;
    uint64_t seq;
    bool retransmit;
    int dir;
    uint64_t id;
    uint64_t off;
    uint64_t len;
    bool fin;
    bool operator<(const Event &o) const
    {
      return time != o.time ? time > o.time : seq > o.seq;
    }
  };

  void push(uint64_t delay, bool retransmit, int dir, uint64_t id, uint64_t off,
            uint64_t len, bool fin)
  {
    queue_.push(
      Event{ now + delay, seq_++, retransmit, dir, id, off, len, fin });
  }

  uint64_t latency()
  {
    return cfg.min_latency + (cfg.jitter != 0 ? ctx_.pick(cfg.jitter) : 0);
  }

  void transmit(int dir, uint64_t id, uint64_t off, uint64_t len, bool fin)
  {
    if (faults) {
      if (now < partition_until_) {
        SIM_COUNT("fault.partition_drop");
        push(partition_until_ - now + cfg.rto, true, dir, id, off, len, fin);
        return;
      }
      if (ctx_.chance(cfg.loss)) {
        SIM_COUNT("fault.loss");
        push(cfg.rto, true, dir, id, off, len, fin);
        return;
      }
      if (ctx_.chance(cfg.dup)) {
        SIM_COUNT("fault.duplicate");
        push(latency(), false, dir, id, off, len, fin);
      }
    }
    push(latency(), false, dir, id, off, len, fin);
  }

  void arrive(const Event &e)
  {
    Stream &s = streams[e.dir][e.id];
    if (e.off > s.contiguous) {
      SIM_COUNT("net.out_of_order");
    }
    auto it = s.pending.find(e.off);
    if (it == s.pending.end() || it->second.first < e.len) {
      bool fin = e.fin || (it != s.pending.end() && it->second.second);
      s.pending[e.off] = std::make_pair(e.len, fin);
    } else if (e.fin) {
      it->second.second = true;
    }
    for (auto p = s.pending.begin(); p != s.pending.end();) {
      if (p->first > s.contiguous) {
        break;
      }
      s.contiguous = std::max(s.contiguous, p->first + p->second.first);
      s.fin_seen = s.fin_seen || p->second.second;
      p = s.pending.erase(p);
    }
    if (s.fin_sent && s.fin_seen && s.contiguous == s.sent.size()) {
      s.fin_arrived = true;
    }
    ctx_.ev("net.arrive",
            e.id,
            e.off,
            e.len * 4 + (e.fin ? 2U : 0U) + static_cast<unsigned>(e.dir));
    ctx_.mix_schedule(e.id * 31 + e.off);
  }

  Ctx &ctx_;
  std::priority_queue<Event> queue_;
  uint64_t seq_ = 0;
  uint64_t partition_until_ = 0;
};

}

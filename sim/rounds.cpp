#include "rounds.hpp"
#include "h3.hpp"

#include <deque>

namespace sim {

namespace {

using client_t = h3::client::connection;
using server_t = h3::server::connection;

class Rounds {
public:
  Rounds(Ctx &ctx, const RoundsProfile &profile)
    : ctx_(ctx)
    , p_(profile)
  {
    LibScope scope;
    client_.reset(new client_t());
    server_.reset(new server_t());
  }

  ~Rounds()
  {
    LibScope scope;
    live_.clear();
    client_.reset();
    server_.reset();
  }

  void run()
  {
    bool many = ctx_.chance(ctx_.tier != 0 ? 120 : 40);
    unsigned rounds = static_cast<unsigned>(many ? ctx_.range(60, 160)
                                                 : ctx_.range(6, p_.rounds));
    std::vector<uint64_t> blocks;
    std::vector<uint64_t> bytes;
    uint64_t exchanges = 0;
    skips_ = ctx_.pick(4) == 0;
    chatter_ = ctx_.pick(3) == 0;
    for (round_ = 0; round_ < rounds; round_++) {
      unsigned n = static_cast<unsigned>(ctx_.range(1, 3));
      for (unsigned i = 0; i < n; i++) {
        open();
      }
      uint64_t budget = 4000;
      while (!live_.empty()) {
        SIM_CHECK(budget-- > 0, "no-progress", "round %u does not end: %s", round_,
                  state_of(*live_.front()).c_str());
        step();
      }
      // Everything is over and both applications hold nothing.
      drain_wires();
      if (chatter_) {
        chatter();
      }
      blocks.push_back(alloc.live);
      bytes.push_back(alloc.live_bytes);
      exchanges += n;
      ctx_.ev("round", round_, alloc.live);
      ctx_.mix_schedule(n);
    }
    // Warm-up apart, live memory does not grow with the number of exchanges.
    uint64_t first = std::max(blocks[1], blocks[2]);
    uint64_t last = std::min(blocks[blocks.size() - 1], blocks[blocks.size() - 2]);
    uint64_t later = blocks.size() - 3;
    SIM_CHECK(last <= first || (last - first) * 2 < later, "accumulates",
              "%llu blocks after 3 rounds, %llu after %zu: finished exchanges are not released",
              static_cast<unsigned long long>(first), static_cast<unsigned long long>(last),
              blocks.size());
    // Nor does what is kept inside a single growing block.
    first = 0;
    for (size_t i = 1; i < 5; i++) {
      first = std::max(first, bytes[i]);
    }
    last = std::min(bytes[bytes.size() - 1], bytes[bytes.size() - 2]);
    SIM_CHECK(last <= first + 256 + 4 * exchanges, "accumulates",
              "%llu bytes after the first rounds, %llu after %llu exchanges: something of every "
              "finished exchange is kept",
              static_cast<unsigned long long>(first), static_cast<unsigned long long>(last),
              static_cast<unsigned long long>(exchanges));
    SIM_COUNT_N("probe.rounds", blocks.size());
    ctx_.nontrivial = true;
  }

private:
  struct Exchange {
    uint64_t id = 0;
    unsigned round = 0;
    handle_t request;
    handle_t response;
    bool early = false;     // response may overtake the request
    bool early_drop = false; // handles dropped as soon as they are ended
    unsigned request_script = 0;  // bodies left
    unsigned response_script = 0;
    int request_state = 0;  // 0 body, 1 ended
    int response_state = 0; // 0 none, 1 body, 2 ended
    bool client_done = false;
    bool server_done = false;
    uint64_t request_bytes = 0, request_got = 0;
    uint64_t response_bytes = 0, response_got = 0;
    bool asked_after = false;
    bool skipped = false; // some of its events were not looked at
  };

  struct Wire {
    std::deque<std::pair<uint64_t, std::pair<std::string, bool>>> queue;
  };

  std::string state_of(const Exchange &x) const
  {
    char line[200];
    snprintf(line, sizeof(line), "stream %llu request state %d response state %d client done %d "
             "server done %d", static_cast<unsigned long long>(x.id), x.request_state,
             x.response_state, x.client_done, x.server_done);
    return line;
  }

  // A throwing call, sometimes losing an allocation first.
  template<typename F>
  void call(const char *what, F f)
  {
    if (ctx_.chance(p_.alloc_fault)) {
      alloc.fired = false;
      alloc.countdown = ctx_.pick(5);
      alloc.armed = true;
      bool ok = false;
      try {
        LibScope scope;
        ok = f();
      } catch (const std::bad_alloc &) {
      }
      alloc.armed = false;
      if (alloc.fired) {
        SIM_COUNT("fault.alloc");
        ctx_.ev("alloc-fault");
      }
      alloc.fired = false;
      if (ok) {
        return;
      }
    }
    bool ok = false;
    {
      LibScope scope;
      ok = f();
    }
    SIM_CHECK(ok, "api-rejected", "round %u: %s was rejected", round_, what);
  }

  void open()
  {
    std::unique_ptr<Exchange> x(new Exchange());
    call("request()", [&] {
      auto r = client_->request();
      if (!r) {
        return false;
      }
      x->request = std::move(r).value();
      return true;
    });
    x->id = x->request.id();
    x->round = round_;
    x->early = ctx_.pick(3) == 0;
    x->early_drop = ctx_.pick(2) == 0;
    x->request_script = static_cast<unsigned>(ctx_.pick(3));
    x->response_script = static_cast<unsigned>(ctx_.pick(3));
    std::string value = random_bytes(ctx_, ctx_.range(0, 30), 0);
    call("header()", [&] {
      return x->request
        .header(h3::header_view(":path", { value.data(), value.size() }))
        .has_value();
    });
    call("start()", [&] { return x->request.start().has_value(); });
    live_.push_back(std::move(x));
    SIM_COUNT("probe.exchanges");
  }

  void body(handle_t &handle, uint64_t &total)
  {
    size_t size = random_size(ctx_, 400);
    std::string s = body_bytes(9, static_cast<size_t>(total), size);
    bool done = false;
    call("body()", [&] {
      if (done) {
        return true;
      }
      done = handle.body(buffer(reinterpret_cast<const uint8_t *>(s.data()), s.size())).has_value();
      return done;
    });
    total += size;
  }

  void step()
  {
    ctx_.steps++;
    ctx_.sim_us += 10;
    uint64_t what = ctx_.pick(5);
    switch (what) {
      case 0: { // client application
        Exchange &x = *live_[ctx_.pick(live_.size())];
        if (x.request_state != 0) {
          break;
        }
        if (x.request_script > 0) {
          x.request_script--;
          body(x.request, x.request_bytes);
        } else {
          call("fin()", [&] { return x.request.fin().has_value(); });
          x.request_state = 1;
          if (x.early_drop) {
            LibScope scope;
            x.request = handle_t();
          }
        }
        break;
      }
      case 1: { // server application
        Exchange &x = *live_[ctx_.pick(live_.size())];
        if (x.response_state == 1) {
          if (x.response_script > 0) {
            x.response_script--;
            body(x.response, x.response_bytes);
          } else {
            call("fin()", [&] { return x.response.fin().has_value(); });
            x.response_state = 2;
            if (x.early_drop) {
              LibScope scope;
              x.response = handle_t();
            }
          }
        }
        break;
      }
      case 2:
        pump(true);
        break;
      case 3:
        pump(false);
        break;
      default:
        deliver(ctx_.pick(2) != 0);
        deliver(ctx_.pick(2) != 0);
        break;
    }
    for (size_t i = 0; i < live_.size();) {
      Exchange &x = *live_[i];
      bool over = x.client_done && x.server_done && x.request_state == 1 && x.response_state == 2;
      if (!over) {
        i++;
        continue;
      }
      SIM_CHECK(x.skipped || (x.request_got == x.request_bytes && x.response_got == x.response_bytes),
                "wrong-body", "stream %llu: %llu of %llu and %llu of %llu body bytes arrived",
                static_cast<unsigned long long>(x.id),
                static_cast<unsigned long long>(x.request_got),
                static_cast<unsigned long long>(x.request_bytes),
                static_cast<unsigned long long>(x.response_got),
                static_cast<unsigned long long>(x.response_bytes));
      check_closed(x);
      LibScope scope;
      live_.erase(live_.begin() + static_cast<std::ptrdiff_t>(i));
    }
  }

  // Neither application can reach the exchange any more.
  void check_closed(Exchange &x)
  {
    LibScope scope;
    unsigned long long id = x.id;
    for (handle_t *h : { &x.request, &x.response }) {
      SIM_CHECK(!h->header(h3::header_view("a", "b")) && !h->start() && !h->body("x") && !h->fin(),
                "closed-exchange-usable", "a handle of stream %llu works after its exchange ended",
                id);
    }
    SIM_CHECK(!server_->response(x.id), "closed-exchange-usable",
              "response(%llu) was accepted after the exchange had ended", id);
    quic::data data;
    data.id = x.id;
    data.fin = ctx_pick(2) != 0;
    data.buffer = buffer("late");
    SIM_CHECK(!client_->recv(quic::event(std::move(data))), "closed-exchange-usable",
              "the client accepted data for stream %llu after the exchange had ended", id);
    SIM_COUNT("probe.closed_exchange");
  }

  uint64_t ctx_pick(uint64_t n)
  {
    bool in = alloc.in_lib;
    alloc.in_lib = false;
    uint64_t v = ctx_.pick(n);
    alloc.in_lib = in;
    return v;
  }

  void pump(bool client)
  {
    while (true) {
      h3::result<quic::event> r = [&] {
        LibScope scope;
        return client ? client_->send() : server_->send();
      }();
      if (!r) {
        SIM_CHECK(r.error() == h3::error::idle, "send-error", "send() gives %s",
                  error_name(r.error()));
        LibScope scope;
        SIM_CHECK(client ? !client_->send() : !server_->send(), "idle-too-early",
                  "send() reported idle while it had data to send");
        return;
      }
      LibScope scope;
      quic::event event = std::move(r).value();
      std::string bytes = str(event.data.buffer);
      wire_[client ? 0 : 1].queue.push_back({ event.data.id, { bytes, event.data.fin } });
      ctx_.ev(client ? "sent" : "answered", event.data.id, bytes.size(), event.data.fin);
    }
  }

  // Extension frames on the control streams and streams of unknown types.
  void chatter()
  {
    SIM_COUNT("probe.chatter");
    for (uint64_t n = ctx_.range(1, 6); n > 0; n--) {
      bool to_client = ctx_.pick(2) != 0;
      std::string bytes;
      uint64_t id = to_client ? 3 : 2;
      if (ctx_.pick(4) == 0) {
        id += 4 * (round_ + 1);
        bytes = random_bytes(ctx_, ctx_.range(1, 40), 2);
      } else {
        bytes = ref::frame(0x21 + 0x1f * ctx_.pick(1000), random_bytes(ctx_, ctx_.range(0, 60), 2));
      }
      size_t at = 0;
      while (at < bytes.size()) {
        size_t n_bytes = ctx_.pick(2) == 0 ? bytes.size() - at
                                           : static_cast<size_t>(ctx_.range(1, bytes.size() - at));
        quic::data data;
        data.id = id;
        data.fin = false;
        {
          LibScope scope;
          data.buffer = buffer(reinterpret_cast<const uint8_t *>(bytes.data() + at), n_bytes);
        }
        at += n_bytes;
        ctx_.mix_schedule(id);
        give(to_client, id, std::move(data));
      }
    }
  }

  void drain_wires()
  {
    for (int i = 0; i < 50; i++) {
      pump(true);
      pump(false);
      while (!wire_[0].queue.empty() || !wire_[1].queue.empty()) {
        deliver(wire_[0].queue.empty());
      }
    }
    LibScope scope;
    wire_[0].queue.shrink_to_fit();
    wire_[1].queue.shrink_to_fit();
  }

  Exchange *find(uint64_t id)
  {
    for (auto &x : live_) {
      if (x->id == id) {
        return x.get();
      }
    }
    return nullptr;
  }

  // to_client: hand the client what the server sent, and the other way round.
  void deliver(bool to_client)
  {
    Wire &w = wire_[to_client ? 1 : 0];
    if (w.queue.empty()) {
      return;
    }
    auto item = w.queue.front();
    size_t n = item.second.first.size();
    if (n > 1 && ctx_.pick(3) == 0) {
      n = static_cast<size_t>(ctx_.range(1, n - 1));
      SIM_COUNT("fault.split");
    }
    bool whole = n == item.second.first.size();
    quic::data data;
    data.id = item.first;
    data.fin = whole && item.second.second;
    std::string piece = item.second.first.substr(0, n);
    {
      LibScope scope;
      data.buffer = buffer(reinterpret_cast<const uint8_t *>(piece.data()), piece.size());
      if (whole) {
        w.queue.pop_front();
      } else {
        w.queue.front().second.first.erase(0, n);
      }
    }
    ctx_.mix_schedule(item.first * 2 + (to_client ? 1 : 0));
    give(to_client, item.first, std::move(data));
  }

  void give(bool to_client, uint64_t id, quic::data data)
  {
    bool fin = data.fin;
    if (to_client) {
      h3::result<h3::client::generator> g = [&] {
        LibScope scope;
        return client_->recv(quic::event(std::move(data)));
      }();
      SIM_CHECK(g.has_value(), "recv-rejected", "client rejects stream %llu: %s",
                static_cast<unsigned long long>(id), error_name(g.error()));
      drain(g.value(), id, true, fin);
    } else {
      h3::result<h3::server::generator> g = [&] {
        LibScope scope;
        return server_->recv(quic::event(std::move(data)));
      }();
      SIM_CHECK(g.has_value(), "recv-rejected", "server rejects stream %llu: %s",
                static_cast<unsigned long long>(id), error_name(g.error()));
      drain(g.value(), id, false, fin);
    }
  }

  template<typename Gen>
  void drain(Gen &gen, uint64_t id, bool client, bool fin)
  {
    bool skipped = false;
    for (unsigned pulls = 0; [&] {
           LibScope scope;
           return gen.next();
         }();
         pulls++) {
      SIM_CHECK(pulls < 10000, "event-livelock", "events on stream %llu do not end",
                static_cast<unsigned long long>(id));
      if (skips_ && ctx_.pick(3) == 0) {
        // The application is not interested in this event.
        SIM_COUNT("probe.skipped_event");
        skipped = true;
        continue;
      }
      LibScope scope;
      auto r = gen.get();
      SIM_CHECK(r.has_value(), "spurious-error", "%s stream %llu: %s", client ? "client" : "server",
                static_cast<unsigned long long>(id), error_name(r.error()));
      h3::event event = std::move(r).value();
      Exchange *x = find(id);
      switch (event) {
        case h3::event::type::settings:
          break;
        case h3::event::type::header:
          SIM_CHECK(x != nullptr, "late-event", "event on stream %llu after its exchange ended",
                    static_cast<unsigned long long>(id));
          if (!client && x->response_state == 0 && (x->early)) {
            respond(*x);
          }
          break;
        case h3::event::type::body:
          SIM_CHECK(x != nullptr, "late-event", "event on stream %llu after its exchange ended",
                    static_cast<unsigned long long>(id));
          (client ? x->response_got : x->request_got) += event.body.buffer.size();
          break;
        case h3::event::type::finished:
          SIM_CHECK(x != nullptr, "late-event", "event on stream %llu after its exchange ended",
                    static_cast<unsigned long long>(id));
          SIM_CHECK(!(client ? x->client_done : x->server_done), "repeated-finished",
                    "stream %llu finished twice", static_cast<unsigned long long>(id));
          (client ? x->client_done : x->server_done) = true;
          SIM_COUNT("event.finished");
          if (!client && x->response_state == 0) {
            respond(*x);
          }
          break;
      }
    }
    Exchange *x = find(id);
    if (skipped && x != nullptr) {
      // What the skipped events said is known from what was delivered.
      x->skipped = true;
      if (fin) {
        (client ? x->client_done : x->server_done) = true;
        if (!client && x->response_state == 0) {
          LibScope scope;
          respond(*x);
        }
      }
    }
  }

  void respond(Exchange &x)
  {
    bool in = alloc.in_lib;
    alloc.in_lib = false;
    call("response()", [&] {
      auto r = server_->response(x.id);
      if (!r) {
        return false;
      }
      x.response = std::move(r).value();
      return true;
    });
    call("header()", [&] {
      return x.response.header(h3::header_view(":status", "200")).has_value();
    });
    call("start()", [&] { return x.response.start().has_value(); });
    x.response_state = 1;
    alloc.in_lib = in;
  }

  Ctx &ctx_;
  const RoundsProfile &p_;
  unsigned round_ = 0;
  bool skips_ = false;
  bool chatter_ = false;
  std::unique_ptr<client_t> client_;
  std::unique_ptr<server_t> server_;
  std::vector<std::unique_ptr<Exchange>> live_;
  Wire wire_[2];
};

}

void
run_rounds(Ctx &ctx, const RoundsProfile &profile)
{
  Rounds rounds(ctx, profile);
  rounds.run();
}

}

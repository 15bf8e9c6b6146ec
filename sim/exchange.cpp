#include "exchange.hpp"

#include <new>

namespace sim {

namespace {

using client_t = h3::client::connection;
using server_t = h3::server::connection;

// One direction of one exchange: sender-side script and receive oracle.
struct Msg {
  int dir = 0; // 0 request, 1 response
  uint64_t id = 0;
  uint64_t key = 0;
  std::vector<ref::Header> plan;
  std::vector<size_t> bodies;
  size_t next_header = 0;
  size_t next_body = 0;
  bool started = false;
  bool finned = false;
  bool abandoned = false; // handle dropped: no more operations
  bool hold_fin = false;  // fin only after everything was pumped
  bool opened = false;
  size_t pumps_after_last = 0;
  StreamOracle oracle; // headers/body hold what was accepted so far
  Scanner scanner;
  int slot = -1;

  bool script_done() const { return abandoned || (started && finned); }
};

struct Slot {
  handle_t handle;
  Msg *msg = nullptr;
};

struct Node {
  bool alive = true;
  std::unique_ptr<client_t> client;
  std::unique_ptr<server_t> server;
  // Undrained generators.
  struct Gen {
    uint64_t id;
    std::unique_ptr<h3::client::generator> client;
    std::unique_ptr<h3::server::generator> server;
  };
  std::list<Gen> gens;
  bool settings_seen = false;
  uint64_t pumps = 0;
  bool idle = false; // last send() said idle and nothing happened since
};

class Exchange {
public:
  Exchange(Ctx &ctx, const ExchangeProfile &profile)
    : ctx_(ctx)
    , p_(profile)
    , net_(ctx)
  {}

  void run()
  {
    setup();
    if (crowd_) {
      phase_crowd();
    }
    phase_faulty();
    phase_heal();
    finish();
  }

private:
  static constexpr int CLIENT = 0;
  static constexpr int SERVER = 1;

  const char *name(int side) const { return side == CLIENT ? "client" : "server"; }

  void setup()
  {
    LibScope scope;
    node_[CLIENT].client.reset(new client_t());
    node_[SERVER].server.reset(new server_t());
    alloc.in_lib = false;

    NetConfig &c = net_.cfg;
    if (p_.net_faults) {
      switch (ctx_.pick(4)) {
        case 0:
          break;
        case 1:
          c.jitter = 20000;
          break;
        case 2:
          c.loss = 100;
          c.jitter = 5000;
          break;
        case 3:
          c.loss = 200;
          c.dup = 100;
          c.jitter = 60000;
          break;
      }
    }
    static const uint64_t mtus[] = { 1200, 100, 17, 3, 4000 };
    c.mtu = mtus[ctx_.pick(5)];
    static const uint64_t chunks[] = { 100000, 64, 1, 5, 21, 300 };
    c.max_chunk = chunks[ctx_.pick(6)];
    c.one_chunk = ctx_.pick(2) != 0 ? 500 : 50;
    c.separate_fin = ctx_.pick(2) != 0 ? 500 : 0;
    planned_ = ctx_.range(1, p_.max_requests);
    steps_ = p_.max_steps;
    max_headers_ = p_.max_headers;
    max_bodies_ = p_.max_bodies;
    max_body_ = p_.max_body;
    setup_big();
    lazy_ = ctx_.pick(2) != 0 && !crowd_ ? p_.lazy : 0;
    sliced_ = ctx_.pick(2) != 0;
    if (p_.crash != 0 && ctx_.chance(p_.crash)) {
      crash_at_ = ctx_.range(1, steps_);
      crash_side_ = static_cast<int>(ctx_.pick(2));
    }
    open_idle();
    msgs_[0].reserve(64);
    msgs_[1].reserve(64);
  }

  // Rare runs that are far larger in one dimension than the usual ones.
  void setup_big()
  {
    if (!ctx_.chance(ctx_.tier != 0 ? 2 * p_.big : p_.big)) {
      return;
    }
    SIM_COUNT("probe.big_run");
    heal_steps_ = 40;
    NetConfig &c = net_.cfg;
    switch (ctx_.pick(7)) {
      case 6: { // very many exchanges, all open at the same time
        static const uint64_t sizes[] = { 65, 101, 129, 201, 257, 300, 513, 700 };
        crowd_ = true;
        planned_ = sizes[ctx_.pick(8)];
        max_headers_ = 1;
        max_bodies_ = 1;
        max_body_ = 6;
        c.loss = 0;
        c.mtu = std::max<uint64_t>(c.mtu, 1200);
        c.max_chunk = std::max<uint64_t>(c.max_chunk, 300);
        c.one_chunk = 0;
        break;
      }
      case 0: // many requests
        planned_ = ctx_.pick(8) == 7 ? ctx_.range(250, 300) : ctx_.range(20, 150);
        max_headers_ = 2;
        max_bodies_ = 1;
        max_body_ = 40;
        c.mtu = std::max<uint64_t>(c.mtu, 100);
        c.max_chunk = std::max<uint64_t>(c.max_chunk, 64);
        break;
      case 1: // many fields
        planned_ = ctx_.range(1, 2);
        max_headers_ = static_cast<unsigned>(ctx_.range(40, 400));
        max_bodies_ = 2;
        break;
      case 2: // many body pieces
        planned_ = ctx_.range(1, 3);
        max_headers_ = 2;
        max_bodies_ = static_cast<unsigned>(ctx_.range(40, 400));
        max_body_ = 30;
        break;
      case 3: // large bodies
        planned_ = ctx_.range(1, 2);
        max_bodies_ = static_cast<unsigned>(ctx_.range(1, 2));
        max_body_ = 300000;
        heavy_ = true;
        c.mtu = std::max<uint64_t>(c.mtu, 1200);
        c.max_chunk = std::max<uint64_t>(c.max_chunk, 20000);
        c.one_chunk = 0;
        if (ctx_.pick(12) == 11) {
          SIM_COUNT("probe.huge_body");
          planned_ = 1;
          max_bodies_ = 1;
          max_body_ = 18000000;
          c.mtu = 1U << 21U;
          c.max_chunk = 1U << 21U;
        }
        break;
      case 4: // large stream identifiers, behind requests that never start
      case 5: {
        static const uint64_t idle[] = { 15, 16, 17, 31, 63, 64, 65, 256, 1000, 4095, 4096 };
        idle_ = idle[ctx_.pick(ctx_.tier != 0 ? 11 : 9)];
        max_bodies_ = 1;
        break;
      }
    }
  }

  void open_idle()
  {
    for (uint64_t i = 0; i < idle_; i++) {
      LibScope scope;
      auto r = node_[CLIENT].client->request();
      SIM_CHECK(r.has_value(), "api-rejected", "request() failed");
      SIM_CHECK(r.value().id() == 4 * i,
                "request-id",
                "request %llu got stream id %llu",
                static_cast<unsigned long long>(i),
                static_cast<unsigned long long>(r.value().id()));
    }
    if (idle_ != 0) {
      ctx_.ev("app.idle-requests", idle_);
      steps_ = std::min<uint64_t>(steps_, 150);
    }
  }

  // ------------------------------------------------------------ app script --
  Msg *new_msg(int dir)
  {
    msgs_[dir].emplace_back(new Msg());
    Msg *m = msgs_[dir].back().get();
    m->dir = dir;
    m->key = ++keys_;
    m->plan = random_headers(ctx_, max_headers_, p_.header_weight);
    size_t n = ctx_.range(0, max_bodies_);
    for (size_t i = 0; i < n; i++) {
      m->bodies.push_back(ctx_.chance(p_.empty_body)
                            ? 0
                            : heavy_ ? heavy_size(ctx_, max_body_)
                                     : random_size(ctx_, max_body_));
    }
    m->hold_fin = ctx_.chance(p_.late_fin);
    m->oracle.who = dir == 0 ? "request" : "response";
    return m;
  }

  int add_slot(Msg *m, handle_t &&handle)
  {
    slots_.emplace_back(new Slot());
    LibScope scope;
    slots_.back()->handle = std::move(handle);
    slots_.back()->msg = m;
    m->slot = static_cast<int>(slots_.size() - 1);
    return m->slot;
  }

  // Call `fn` (returns true on API success), possibly losing one allocation.
  // A failed allocation must leave no trace: the call is then repeated.
  template<typename Fn>
  void faulted(const char *what, Fn fn)
  {
    if (p_.alloc_fault != 0 && net_.faults && ctx_.chance(p_.alloc_fault)) {
      uint64_t countdown = ctx_.pick(5);
      alloc.armed = true;
      alloc.countdown = countdown;
      alloc.fired = false;
      bool ok = false;
      bool threw = false;
      try {
        LibScope scope;
        ok = fn();
      } catch (const std::bad_alloc &) {
        threw = true;
      }
      bool fired = alloc.fired;
      alloc.armed = false;
      alloc.fired = false;
      ctx_.ev("alloc-fault", countdown, fired, threw);
      SIM_CHECK(fired || !threw, "spurious-bad-alloc", "%s threw bad_alloc", what);
      if (fired) {
        SIM_COUNT("fault.alloc");
      }
      if (!fired || ok) {
        SIM_CHECK(ok, "api-rejected", "%s failed", what);
        return;
      }
      SIM_COUNT("fault.alloc_failed_call");
    }
    bool ok = false;
    {
      LibScope scope;
      ok = fn();
    }
    SIM_CHECK(ok, "api-rejected", "%s was rejected", what);
  }

  void open_request()
  {
    Msg *m = new_msg(0);
    handle_t handle;
    faulted("request()", [&] {
      auto r = node_[CLIENT].client->request();
      if (!r) {
        return false;
      }
      handle = std::move(r).value();
      return true;
    });
    m->id = handle.id();
    SIM_CHECK(m->id == 4 * (idle_ + opened_),
              "request-id",
              "request %llu got stream id %llu",
              static_cast<unsigned long long>(opened_),
              static_cast<unsigned long long>(m->id));
    opened_++;
    m->oracle.id = m->id;
    m->opened = true;
    by_id_[0][m->id] = m;
    add_slot(m, std::move(handle));
    ctx_.ev("app.request", m->id, m->plan.size(), m->bodies.size());
  }

  void open_response(uint64_t id)
  {
    Msg *m = new_msg(1);
    auto r = [&] {
      LibScope scope;
      return node_[SERVER].server->response(id);
    }();
    SIM_CHECK(r.has_value(),
              "response-rejected",
              "response(%llu) failed: %s",
              static_cast<unsigned long long>(id),
              error_name(r.error()));
    m->id = id;
    m->oracle.id = id;
    m->opened = true;
    by_id_[1][id] = m;
    SIM_CHECK(r.value().id() == id,
              "handle-id",
              "response handle for %llu has id %llu",
              static_cast<unsigned long long>(id),
              static_cast<unsigned long long>(r.value().id()));
    add_slot(m, std::move(r).value());
    ctx_.ev("app.response", id, m->plan.size(), m->bodies.size());
    Msg *request = by_id_[0][id];
    if (!request->oracle.got_finished) {
      SIM_COUNT("probe.early_response");
    }
  }

  handle_t &handle_of(Msg *m) { return slots_[static_cast<size_t>(m->slot)]->handle; }

  template<typename R>
  void expect_rejected(const char *what, const R &r, Msg *m)
  {
    SIM_COUNT("probe.misuse");
    SIM_CHECK(!r,
              "misuse-accepted",
              "%s on stream %llu was accepted",
              what,
              static_cast<unsigned long long>(m->id));
  }

  void misuse(Msg *m)
  {
    handle_t &h = handle_of(m);
    LibScope scope;
    switch (pick_outside(4)) {
      case 0: {
        if (m->started) {
          ctx_.ev("misuse.header-after-start", m->id);
          expect_rejected("header() after start()", h.header({ "late", "x" }), m);
        } else {
          ctx_.ev("misuse.uppercase", m->id);
          expect_rejected("header() with an uppercase name",
                          h.header({ "X-Upper", "x" }),
                          m);
        }
        break;
      }
      case 1:
        if (m->started) {
          ctx_.ev("misuse.start-twice", m->id);
          expect_rejected("second start()", h.start(), m);
        } else if (m->oracle.headers.empty()) {
          ctx_.ev("misuse.start-empty", m->id);
          expect_rejected("start() without headers", h.start(), m);
        }
        break;
      case 2:
        if (m->finned) {
          ctx_.ev("misuse.body-after-fin", m->id);
          expect_rejected("body() after fin()", h.body("late"), m);
        }
        break;
      case 3: {
        ctx_.ev("misuse.default-handle", m->id);
        handle_t none;
        expect_rejected("header() on an empty handle", none.header({ "a", "b" }), m);
        expect_rejected("body() on an empty handle", none.body("x"), m);
        expect_rejected("start() on an empty handle", none.start(), m);
        expect_rejected("fin() on an empty handle", none.fin(), m);
        break;
      }
    }
  }

  uint64_t pick_outside(uint64_t n)
  {
    bool in = alloc.in_lib;
    alloc.in_lib = false;
    uint64_t v = ctx_.pick(n);
    alloc.in_lib = in;
    return v;
  }

  // One application step on a message.
  void step_msg(Msg *m, bool drain_mode)
  {
    if (m->abandoned) {
      return;
    }
    if (p_.misuse != 0 && ctx_.chance(p_.misuse)) {
      misuse(m);
      return;
    }
    if (p_.handle_chaos != 0 && !drain_mode && ctx_.chance(p_.handle_chaos)) {
      chaos_handle(m, static_cast<int>(ctx_.pick(4)));
      return;
    }
    if (p_.drop != 0 && !drain_mode && ctx_.chance(p_.drop / 4)) {
      chaos_handle(m, 3);
      return;
    }
    if (m->script_done()) {
      return;
    }
    handle_t &h = handle_of(m);
    bool can_header = !m->started && m->next_header < m->plan.size();
    bool can_start = !m->started && m->next_header == m->plan.size();
    bool can_body = !m->finned && m->next_body < m->bodies.size();
    bool can_fin = !m->finned && m->next_body == m->bodies.size();
    if (can_fin && m->hold_fin && !drain_mode && m->pumps_after_last < 3) {
      can_fin = false;
    }
    int ops[4];
    size_t n = 0;
    if (can_header) {
      ops[n++] = 0;
    }
    if (can_start) {
      ops[n++] = 1;
    }
    if (can_body) {
      ops[n++] = 2;
    }
    if (can_fin) {
      ops[n++] = 3;
    }
    if (n == 0) {
      return;
    }
    // Prefer the natural order; out-of-order (body before start) sometimes.
    int op = ops[n > 1 && ctx_.chance(250) ? ctx_.pick(n) : 0];
    switch (op) {
      case 0: {
        const ref::Header &want = m->plan[m->next_header];
        faulted("header()", [&] {
          return h
            .header({ bnl::base::string_view(want.name.data(), want.name.size()),
                      bnl::base::string_view(want.value.data(),
                                             want.value.size()) })
            .has_value();
        });
        m->oracle.headers.push_back(want);
        m->next_header++;
        ctx_.ev("app.header", m->id, want.name.size(), want.value.size());
        ctx_.note("%s %llu header {%s: %s}",
                  m->oracle.who,
                  static_cast<unsigned long long>(m->id),
                  want.name.c_str(),
                  want.value.size() > 80 ? hex(want.value).c_str()
                                         : want.value.c_str());
        break;
      }
      case 1: {
        auto r = [&] {
          LibScope scope;
          return h.start();
        }();
        SIM_CHECK(r.has_value(),
                  "api-rejected",
                  "%s %llu: start() failed: %s",
                  m->oracle.who,
                  static_cast<unsigned long long>(m->id),
                  error_name(r.error()));
        m->started = true;
        m->oracle.headers_closed = true;
        ctx_.ev("app.start", m->id, static_cast<unsigned>(m->dir));
        break;
      }
      case 2: {
        size_t size = m->bodies[m->next_body];
        std::string data = body_bytes(m->key, m->oracle.body.size(), size);
        bool sliced = sliced_;
        faulted("body()", [&] {
          bool armed = alloc.armed;
          alloc.armed = false;
          buffer b = [&] {
            bool in = alloc.in_lib;
            alloc.in_lib = false;
            buffer built = make_buffer(ctx_, data, sliced);
            alloc.in_lib = in;
            return built;
          }();
          alloc.armed = armed;
          return h.body(std::move(b)).has_value();
        });
        m->oracle.body += data;
        m->next_body++;
        m->pumps_after_last = 0;
        ctx_.ev("app.body", m->id, size, static_cast<unsigned>(m->dir));
        break;
      }
      case 3: {
        auto r = [&] {
          LibScope scope;
          return h.fin();
        }();
        SIM_CHECK(r.has_value(),
                  "api-rejected",
                  "%s %llu: fin() failed: %s",
                  m->oracle.who,
                  static_cast<unsigned long long>(m->id),
                  error_name(r.error()));
        m->finned = true;
        m->oracle.ended = true;
        if (m->pumps_after_last >= 3) {
          SIM_COUNT("probe.late_fin");
        }
        ctx_.ev("app.fin", m->id, static_cast<unsigned>(m->dir));
        break;
      }
    }
    node_[m->dir].idle = false;
  }

  void chaos_handle(Msg *m, int what)
  {
    size_t from = static_cast<size_t>(m->slot);
    switch (what) {
      case 0: { // move into a fresh slot
        ctx_.ev("handle.move", m->id);
        SIM_COUNT("fault.handle_move");
        handle_t moved = [&] {
          LibScope scope;
          return handle_t(std::move(slots_[from]->handle));
        }();
        slots_[from]->msg = nullptr;
        add_slot(m, std::move(moved));
        expect_dead(slots_[from]->handle, "moved-from handle");
        break;
      }
      case 1: { // destroy the moved-from object
        ctx_.ev("handle.move-destroy", m->id);
        SIM_COUNT("fault.handle_move");
        handle_t moved = [&] {
          LibScope scope;
          return handle_t(std::move(slots_[from]->handle));
        }();
        slots_[from].reset(new Slot());
        add_slot(m, std::move(moved));
        break;
      }
      case 2: { // reassign onto a handle that still refers to another message
        if (p_.drop == 0) {
          break;
        }
        std::vector<size_t> others;
        for (size_t i = 0; i < slots_.size(); i++) {
          if (i != from && slots_[i]->msg != nullptr) {
            others.push_back(i);
          }
        }
        if (others.empty()) {
          break;
        }
        size_t to = others[ctx_.pick(others.size())];
        ctx_.ev("handle.reassign", m->id, slots_[to]->msg->id);
        SIM_COUNT("fault.handle_reassign");
        abandon(slots_[to]->msg);
        {
          LibScope scope;
          slots_[to]->handle = std::move(slots_[from]->handle);
        }
        slots_[to]->msg = m;
        slots_[from]->msg = nullptr;
        m->slot = static_cast<int>(to);
        expect_dead(slots_[from]->handle, "moved-from handle");
        break;
      }
      case 3: { // drop
        if (!m->finned && (p_.drop == 0 || !ctx_.chance(p_.drop))) {
          break;
        }
        ctx_.ev("handle.drop", m->id, m->finned);
        SIM_COUNT("fault.handle_drop");
        slots_[from].reset(new Slot());
        if (!m->script_done()) {
          abandon(m);
        }
        m->abandoned = true;
        m->slot = -1;
        break;
      }
    }
  }

  void abandon(Msg *m)
  {
    if (m->slot >= 0) {
      slots_[static_cast<size_t>(m->slot)]->msg = nullptr;
    }
    m->abandoned = true;
    m->slot = -1;
  }

  void expect_dead(handle_t &h, const char *what)
  {
    LibScope scope;
    SIM_CHECK(!h.header({ "a", "b" }) && !h.body("x") && !h.start() && !h.fin(),
              "dead-handle-accepted",
              "an operation on a %s was accepted",
              what);
  }

  void rehandle()
  {
    std::vector<Msg *> live;
    for (auto &m : msgs_[1]) {
      if (m->slot >= 0 && !m->script_done()) {
        live.push_back(m.get());
      }
    }
    if (live.empty()) {
      return;
    }
    Msg *m = live[ctx_.pick(live.size())];
    ctx_.ev("handle.again", m->id);
    SIM_COUNT("fault.handle_replaced");
    auto r = [&] {
      LibScope scope;
      return node_[SERVER].server->response(m->id);
    }();
    SIM_CHECK(r.has_value(),
              "response-rejected",
              "second response(%llu) failed",
              static_cast<unsigned long long>(m->id));
    size_t old = static_cast<size_t>(m->slot);
    slots_[old]->msg = nullptr;
    add_slot(m, std::move(r).value());
    if (ctx_.pick(2) == 0) {
      slots_[old].reset(new Slot());
    }
  }

  void move_connection(int side)
  {
    Node &n = node_[side];
    if (!n.alive || !n.gens.empty()) {
      return;
    }
    ctx_.ev("conn.move", static_cast<unsigned>(side));
    SIM_COUNT("fault.connection_move");
    LibScope scope;
    if (side == CLIENT) {
      if (pick_outside(2) == 0) {
        n.client.reset(new client_t(std::move(*n.client)));
      } else {
        std::unique_ptr<client_t> fresh(new client_t());
        *fresh = std::move(*n.client);
        n.client = std::move(fresh);
      }
    } else {
      if (pick_outside(2) == 0) {
        n.server.reset(new server_t(std::move(*n.server)));
      } else {
        std::unique_ptr<server_t> fresh(new server_t());
        *fresh = std::move(*n.server);
        n.server = std::move(fresh);
      }
    }
  }

  // ----------------------------------------------------------------- pump ---
  // One send() call. Returns false when the connection is idle.
  bool pump(int side)
  {
    Node &n = node_[side];
    if (!n.alive) {
      return false;
    }
    n.pumps++;
    SIM_CHECK(n.pumps < 200000,
              "send-livelock",
              "%s: send() keeps producing data",
              name(side));
    h3::result<quic::event> r = [&] {
      LibScope scope;
      return side == CLIENT ? n.client->send() : n.server->send();
    }();
    if (!r) {
      ctx_.ev("send.idle", static_cast<unsigned>(side));
      SIM_CHECK(r.error() == h3::error::idle,
                "send-error",
                "%s: send() failed: %s",
                name(side),
                error_name(r.error()));
      if (ctx_.chance(250)) {
        h3::result<quic::event> again = [&] {
          LibScope scope;
          return side == CLIENT ? n.client->send() : n.server->send();
        }();
        SIM_CHECK(!again && again.error() == h3::error::idle,
                  "idle-too-early",
                  "%s: send() reported idle while it had data to send",
                  name(side));
        SIM_COUNT("probe.idle_again");
      }
      n.idle = true;
      for (auto &m : msgs_[side]) {
        m->pumps_after_last++;
      }
      return false;
    }
    quic::event event = std::move(r).value();
    SIM_CHECK(event == quic::event::type::data,
              "send-error",
              "%s: send() produced a non-data event",
              name(side));
    uint64_t id = event.data.id;
    std::string data = str(event.data.buffer);
    bool fin = event.data.fin;
    ctx_.ev(side == CLIENT ? "client.send" : "server.send", id, data.size(), fin);
    ctx_.mix_bytes(data.data(), data.size());
    ctx_.mix_schedule(id * 7 + data.size() + 3);
    uint64_t control = side == CLIENT ? 2 : 3;
    if (id != control) {
      auto it = by_id_[side].find(id);
      SIM_CHECK(it != by_id_[side].end(),
                "wire-unknown-stream",
                "%s sent %zu bytes on stream %llu, which has no message",
                name(side),
                data.size(),
                static_cast<unsigned long long>(id));
      Msg *m = it->second;
      SIM_CHECK(m->started,
                "wire-before-start",
                "%s sent on stream %llu before start()",
                name(side),
                static_cast<unsigned long long>(id));
      SIM_CHECK(!fin || m->finned,
                "wire-fin",
                "%s sent FIN on stream %llu before fin()",
                name(side),
                static_cast<unsigned long long>(id));
    } else {
      SIM_CHECK(!fin, "wire-control", "%s ended its control stream", name(side));
    }
    net_.send(side, id, data, fin);
    return true;
  }

  // -------------------------------------------------------------- receive ---
  // dir: 0 towards the server, 1 towards the client.
  int receiver(int dir) const { return dir == 0 ? SERVER : CLIENT; }

  void deliver(int dir, uint64_t id)
  {
    int side = receiver(dir);
    Node &n = node_[side];
    Net::Chunk c = net_.take(dir, id);
    ctx_.ev(dir == 0 ? "server.recv" : "client.recv", id, c.data.size(), c.fin);
    ctx_.mix_schedule(id * 13 + c.data.size() * 2 + (c.fin ? 1 : 0) + 5);
    SIM_COUNT("net.delivered_chunk");
    if (!n.alive) {
      return;
    }
    n.idle = false;
    bool sliced = sliced_;
    std::string data = c.data;
    Node::Gen gen;
    gen.id = id;
    bool first_chunk_of_response =
      dir == 1 && id != 3 && by_id_[0].find(id) != by_id_[0].end();
    (void) first_chunk_of_response;
    faulted("recv()", [&] {
      bool armed = alloc.armed;
      alloc.armed = false;
      buffer b = [&] {
        bool in = alloc.in_lib;
        alloc.in_lib = false;
        buffer built = make_buffer(ctx_, data, sliced);
        alloc.in_lib = in;
        return built;
      }();
      quic::data payload;
      payload.id = id;
      payload.fin = c.fin;
      payload.buffer = std::move(b);
      quic::event event(std::move(payload));
      alloc.armed = armed;
      if (side == CLIENT) {
        auto r = n.client->recv(std::move(event));
        if (!r) {
          return false;
        }
        alloc.armed = false;
        gen.client.reset(new h3::client::generator(std::move(r).value()));
      } else {
        auto r = n.server->recv(std::move(event));
        if (!r) {
          return false;
        }
        alloc.armed = false;
        gen.server.reset(new h3::server::generator(std::move(r).value()));
      }
      return true;
    });
    bool control = (id & 2U) != 0;
    if (!control) {
      auto it = by_id_[dir].find(id);
      if (it != by_id_[dir].end()) {
        it->second->scanner.feed(data);
      }
    }
    if (lazy_ != 0 && ctx_.chance(lazy_)) {
      SIM_COUNT("fault.lazy_drain");
      if (ctx_.pick(2) == 0) {
        drain(side, gen, ctx_.range(1, 3));
      }
      n.gens.push_back(std::move(gen));
      return;
    }
    drain(side, gen, UINT64_MAX);
  }

  bool fin_delivered(int dir, uint64_t id)
  {
    return net_.streams[dir][id].fin_delivered;
  }

  // Pull up to `limit` events; true when exhausted.
  bool drain(int side, Node::Gen &gen, uint64_t limit)
  {
    int dir = side == SERVER ? 0 : 1;
    uint64_t pulled = 0;
    bool control = (gen.id & 2U) != 0;
    Msg *m = nullptr;
    if (!control) {
      auto it = by_id_[dir].find(gen.id);
      SIM_CHECK(it != by_id_[dir].end(), "harness", "no message for stream");
      m = it->second;
    }
    bool was_finished = m != nullptr && m->oracle.got_finished;
    uint64_t bound =
      net_.streams[dir][gen.id].delivered + 64; // events are never free
    while (pulled < limit) {
      SIM_CHECK(pulled <= bound,
                "event-livelock",
                "%s: stream %llu produced %llu events",
                name(side),
                static_cast<unsigned long long>(gen.id),
                static_cast<unsigned long long>(pulled));
      bool more = [&] {
        LibScope scope;
        return side == CLIENT ? gen.client->next() : gen.server->next();
      }();
      if (!more) {
        if (m != nullptr) {
          check_prompt(m);
        }
        return true;
      }
      pulled++;
      h3::result<h3::event> r = [&] {
        LibScope scope;
        return side == CLIENT ? gen.client->get() : gen.server->get();
      }();
      if (!r) {
        // A stale generator of an already finished exchange may say so.
        if (was_finished) {
          return true;
        }
        fail("recv-error",
             "%s: stream %llu: %s",
             name(side),
             static_cast<unsigned long long>(gen.id),
             error_name(r.error()));
      }
      if (control) {
        SIM_CHECK(r.value() == h3::event::type::settings && !node_[side].settings_seen,
                  "wrong-settings",
                  "%s: unexpected event on the control stream",
                  name(side));
        node_[side].settings_seen = true;
        const h3::settings &s = r.value().settings;
        ctx_.ev("event.settings", static_cast<unsigned>(side));
        SIM_CHECK(s.max_header_list_size == ref::VARINT_MAX &&
                    s.num_placeholders == 0 && s.qpack_max_table_capacity == 0 &&
                    s.qpack_blocked_streams == 0,
                  "wrong-settings",
                  "%s: settings event does not carry what the peer sent",
                  name(side));
        SIM_COUNT("event.settings");
        continue;
      }
      if (was_finished) {
        // A second generator may repeat that the message is finished.
        if (r.value() == h3::event::type::finished) {
          continue;
        }
        fail("event-after-finished",
             "%s: stream %llu: event from a stale generator",
             name(side),
             static_cast<unsigned long long>(gen.id));
      }
      m->oracle.on_event(ctx_, r.value(), fin_delivered(dir, gen.id));
      if (dir == 0 && m->oracle.got_headers == 1 &&
          r.value() == h3::event::type::header) {
        arrived_.push_back(m->id);
      }
      if (m->oracle.got_finished) {
        was_finished = true; // further results of this generator are stale
        if (dir == 0) {
          SIM_COUNT("probe.request_finished");
        }
      }
    }
    return false;
  }

  // Everything delivered and drained: nothing decodable may be held back.
  void check_prompt(Msg *m)
  {
    StreamOracle &o = m->oracle;
    if (m->scanner.headers_done) {
      SIM_CHECK(o.got_header_fin && o.got_headers == o.headers.size(),
                "held-back-headers",
                "%s %llu: HEADERS frame delivered in full, %zu of %zu header "
                "events",
                o.who,
                static_cast<unsigned long long>(o.id),
                o.got_headers,
                o.headers.size());
    }
    SIM_CHECK(o.got_body == m->scanner.data,
              "held-back-body",
              "%s %llu: %llu body bytes delivered, %zu surfaced",
              o.who,
              static_cast<unsigned long long>(o.id),
              static_cast<unsigned long long>(m->scanner.data),
              o.got_body);
    if (fin_delivered(m->dir, m->id)) {
      SIM_CHECK(o.got_finished,
                "missing-finished",
                "%s %llu: FIN delivered and drained but not reported finished",
                o.who,
                static_cast<unsigned long long>(o.id));
    }
  }

  // ------------------------------------------------------------- schedule ---
  bool respond_step(bool drain_mode)
  {
    if (!node_[SERVER].alive) {
      return false;
    }
    for (size_t i = 0; i < arrived_.size(); i++) {
      uint64_t id = arrived_[i];
      Msg *request = by_id_[0][id];
      if (!request->oracle.got_finished && !drain_mode && !ctx_.chance(p_.early)) {
        continue;
      }
      if (!request->oracle.got_finished && drain_mode && !request->abandoned) {
        // Respond anyway: both orders must complete.
      }
      arrived_.erase(arrived_.begin() + static_cast<std::ptrdiff_t>(i));
      open_response(id);
      return true;
    }
    return false;
  }

  void app_step(int side, bool drain_mode)
  {
    if (!node_[side].alive) {
      return;
    }
    if (side == CLIENT) {
      if (opened_ < planned_ && (msgs_[0].empty() || ctx_.pick(4) == 0)) {
        open_request();
        return;
      }
    } else {
      if (respond_step(drain_mode)) {
        return;
      }
      if (p_.rehandle != 0 && ctx_.chance(p_.rehandle)) {
        rehandle();
        return;
      }
    }
    std::vector<Msg *> open;
    for (auto &m : msgs_[side]) {
      if (!m->abandoned && (!m->script_done() || p_.misuse != 0 || p_.handle_chaos != 0)) {
        open.push_back(m.get());
      }
    }
    if (open.empty()) {
      return;
    }
    step_msg(open[ctx_.pick(open.size())], drain_mode);
  }

  void drain_some(int side)
  {
    Node &n = node_[side];
    if (n.gens.empty() || !n.alive) {
      return;
    }
    size_t i = ctx_.pick(n.gens.size());
    auto it = n.gens.begin();
    std::advance(it, static_cast<std::ptrdiff_t>(i));
    bool stale = i != 0;
    (void) stale;
    if (drain(side, *it, ctx_.range(1, 6))) {
      n.gens.erase(it);
    }
  }

  void crash(int side)
  {
    ctx_.ev("crash", static_cast<unsigned>(side));
    SIM_COUNT("fault.crash");
    Node &n = node_[side];
    n.gens.clear();
    n.alive = false;
    LibScope scope;
    n.client.reset();
    n.server.reset();
    // Handles outlive their connection: they must be inert now.
    for (auto &m : msgs_[side]) {
      if (m->slot >= 0) {
        expect_dead(handle_of(m.get()), "handle of a destroyed connection");
        abandon(m.get());
      }
      m->abandoned = true;
    }
    crashed_ = true;
  }

  // Everything that was sent arrives and is looked at.
  void settle()
  {
    for (int side = 0; side < 2; side++) {
      uint64_t sent = 0;
      while (pump(side)) {
        SIM_CHECK(++sent < 100000, "send-livelock", "%s never idles", name(side));
      }
    }
    bool faults = net_.faults;
    net_.faults = false;
    while (net_.advance()) {
    }
    net_.faults = faults;
    for (int dir = 0; dir < 2; dir++) {
      for (uint64_t id : net_.deliverable(dir)) {
        do {
          ctx_.steps++;
          deliver(dir, id);
        } while (net_.ready(dir, id));
      }
    }
  }

  // All planned requests are open, and answered, before the first one ends.
  void phase_crowd()
  {
    ctx_.ev("crowd", planned_);
    while (opened_ < planned_) {
      open_request();
    }
    for (int side = 0; side < 2; side++) {
      if (side == 1) {
        std::vector<uint64_t> ids = arrived_;
        arrived_.clear();
        for (uint64_t id : ids) {
          open_response(id);
        }
      }
      for (size_t i = 0; i < msgs_[side].size(); i++) {
        Msg *m = msgs_[side][i].get();
        for (int k = 0; k < 40 && !m->started && !m->abandoned; k++) {
          step_msg(m, false);
        }
      }
      settle();
      settle();
    }
    size_t open = 0;
    for (const auto &m : msgs_[1]) {
      open += m->oracle.got_finished ? 0 : 1;
    }
    SIM_COUNT("probe.crowd");
    if (open > 256) {
      SIM_COUNT("probe.crowd_over_256");
    }
  }

  void phase_faulty()
  {
    for (uint64_t i = 0; i < steps_; i++) {
      ctx_.steps++;
      if (i == crash_at_ && crash_at_ != 0) {
        crash(crash_side_);
      }
      uint64_t action = ctx_.pick(16);
      ctx_.mix_schedule(action);
      switch (action) {
        case 0:
        case 1:
        case 2:
          if (p_.slow_client == 0 || !ctx_.chance(p_.slow_client)) {
            app_step(CLIENT, false);
          }
          break;
        case 3:
        case 4:
          pump(CLIENT);
          break;
        case 5:
        case 6:
        case 7:
          net_.advance();
          break;
        case 8:
        case 9:
          app_step(SERVER, false);
          break;
        case 10:
        case 11:
          pump(SERVER);
          break;
        case 12:
        case 13: {
          int dir = static_cast<int>(action - 12);
          std::vector<uint64_t> ids = net_.deliverable(dir);
          if (!ids.empty()) {
            deliver(dir, ids[ctx_.pick(ids.size())]);
          }
          break;
        }
        case 14:
          drain_some(static_cast<int>(ctx_.pick(2)));
          break;
        case 15:
          if (p_.net_faults && ctx_.chance(60)) {
            net_.partition(ctx_.range(10000, 500000));
          }
          if (p_.move_conn != 0 && ctx_.chance(p_.move_conn)) {
            move_connection(static_cast<int>(ctx_.pick(2)));
          }
          // Burst: several network events at once.
          for (uint64_t k = ctx_.pick(8); k > 0; k--) {
            net_.advance();
          }
          break;
      }
    }
  }

  bool all_done() const
  {
    if (crashed_) {
      return true;
    }
    if (opened_ < planned_) {
      return false;
    }
    for (int dir = 0; dir < 2; dir++) {
      for (const auto &m : msgs_[dir]) {
        if (m->finned && m->started && !m->oracle.complete()) {
          return false;
        }
        if (!m->script_done()) {
          return false;
        }
      }
    }
    return arrived_.empty();
  }

  // Faults stop. Everything the applications asked for must complete within a
  // bounded number of rounds.
  void phase_heal()
  {
    ctx_.ev("heal");
    net_.faults = false;
    lazy_ = 0;
    for (int round = 0; round < 400; round++) {
      for (int side = 0; side < 2; side++) {
        Node &n = node_[side];
        while (n.alive && !n.gens.empty()) {
          if (drain(side, n.gens.front(), UINT64_MAX)) {
            n.gens.pop_front();
          }
        }
      }
      for (int side = 0; side < 2; side++) {
        for (int k = 0; k < heal_steps_; k++) {
          app_step(side, true);
        }
        uint64_t sent = 0;
        while (pump(side)) {
          SIM_CHECK(++sent < 100000, "send-livelock", "%s never idles", name(side));
        }
      }
      while (net_.advance()) {
      }
      for (int dir = 0; dir < 2; dir++) {
        while (true) {
          std::vector<uint64_t> ids = net_.deliverable(dir);
          if (ids.empty()) {
            break;
          }
          ctx_.steps++;
          deliver(dir, ids[ctx_.pick(ids.size())]);
        }
      }
      if (all_done() && node_idle()) {
        break;
      }
    }
    if (crashed_) {
      return;
    }
    for (int dir = 0; dir < 2; dir++) {
      for (const auto &m : msgs_[dir]) {
        if (!m->finned || !m->started) {
          continue;
        }
        SIM_CHECK(net_.streams[dir][m->id].fin_sent,
                  "never-sent",
                  "%s %llu: ended by the application, FIN never sent",
                  m->oracle.who,
                  static_cast<unsigned long long>(m->id));
        SIM_CHECK(m->oracle.complete(),
                  "never-finished",
                  "%s %llu: %zu/%zu headers, %zu/%zu body bytes, finished=%d "
                  "after the faults stopped",
                  m->oracle.who,
                  static_cast<unsigned long long>(m->id),
                  m->oracle.got_headers,
                  m->oracle.headers.size(),
                  m->oracle.got_body,
                  m->oracle.body.size(),
                  m->oracle.got_finished);
      }
    }
    SIM_CHECK(opened_ == planned_ && arrived_.empty(),
              "harness",
              "applications did not finish their scripts");
    SIM_CHECK(node_[CLIENT].settings_seen && node_[SERVER].settings_seen,
              "missing-settings-event",
              "settings were not reported to both sides");
    check_closed();
  }

  // An exchange whose two directions are done is gone on both sides.
  void check_closed()
  {
    for (const auto &owned : msgs_[0]) {
      Msg *request = owned.get();
      auto it = by_id_[1].find(request->id);
      if (it == by_id_[1].end()) {
        continue;
      }
      Msg *response = it->second;
      if (!request->oracle.got_finished || !response->oracle.got_finished ||
          !net_.streams[0][request->id].fin_sent ||
          !net_.streams[1][request->id].fin_sent) {
        continue;
      }
      SIM_COUNT("probe.closed_exchange");
      for (Msg *m : { request, response }) {
        if (m->slot >= 0) {
          expect_dead(handle_of(m), "handle of a finished exchange");
        }
      }
      LibScope scope;
      SIM_CHECK(!node_[SERVER].server->response(request->id),
                "closed-exchange-usable",
                "response(%llu) was accepted after the exchange had finished",
                static_cast<unsigned long long>(request->id));
      quic::data payload;
      payload.id = request->id;
      payload.fin = false;
      payload.buffer = buffer("late");
      SIM_CHECK(!node_[CLIENT].client->recv(quic::event(std::move(payload))),
                "closed-exchange-usable",
                "the client accepted data for stream %llu, whose exchange had "
                "finished",
                static_cast<unsigned long long>(request->id));
    }
    SIM_CHECK(!pump(CLIENT) && !pump(SERVER),
              "closed-exchange-usable",
              "data to send after every exchange had finished");
  }

  bool node_idle()
  {
    return net_.idle() && net_.deliverable(0).empty() &&
           net_.deliverable(1).empty() && !pump(CLIENT) && !pump(SERVER);
  }

  void finish()
  {
    for (int dir = 0; dir < 2; dir++) {
      for (auto &entry : net_.streams[dir]) {
        uint64_t id = entry.first;
        Net::Stream &s = entry.second;
        if (id == (dir == 0 ? 2U : 3U)) {
          check_control_wire(name(dir), s.sent, s.fin_sent);
          continue;
        }
        Msg *m = by_id_[dir][id];
        check_request_wire(m->oracle.who,
                           id,
                           s.sent,
                           s.fin_sent,
                           m->oracle.headers,
                           m->started,
                           m->oracle.body,
                           m->finned);
      }
    }

    // Teardown in a chosen order; handles of a destroyed connection are inert.
    size_t finished = 0;
    for (int dir = 0; dir < 2; dir++) {
      for (auto &m : msgs_[dir]) {
        finished += m->oracle.got_finished ? 1 : 0;
      }
    }
    ctx_.nontrivial = finished >= 1 && ctx_.steps > 20;
    if (finished >= 4) {
      SIM_COUNT("probe.four_messages_finished");
    }

    for (int side = 0; side < 2; side++) {
      node_[side].gens.clear();
    }
    if (ctx_.pick(2) == 0) {
      {
        LibScope scope;
        node_[CLIENT].client.reset();
        node_[SERVER].server.reset();
      }
      for (auto &slot : slots_) {
        expect_dead(slot->handle, "handle of a destroyed connection");
      }
      slots_.clear();
    } else {
      slots_.clear();
      LibScope scope;
      node_[CLIENT].client.reset();
      node_[SERVER].server.reset();
    }
  }

  Ctx &ctx_;
  const ExchangeProfile &p_;
  Net net_;
  Node node_[2];
  std::vector<std::unique_ptr<Msg>> msgs_[2];
  std::map<uint64_t, Msg *> by_id_[2];
  std::vector<std::unique_ptr<Slot>> slots_;
  std::vector<uint64_t> arrived_; // requests with a header event, unanswered
  uint64_t keys_ = 0;
  uint64_t planned_ = 0;
  uint64_t opened_ = 0;
  uint64_t steps_ = 0;
  unsigned max_headers_ = 0;
  unsigned max_bodies_ = 0;
  size_t max_body_ = 0;
  bool heavy_ = false;
  bool crowd_ = false;
  uint64_t idle_ = 0;
  int heal_steps_ = 4;
  unsigned lazy_ = 0;
  bool sliced_ = false;
  uint64_t crash_at_ = 0;
  int crash_side_ = 0;
  bool crashed_ = false;
};

}

void
run_exchange(Ctx &ctx, const ExchangeProfile &profile)
{
  Exchange exchange(ctx, profile);
  exchange.run();
}

}

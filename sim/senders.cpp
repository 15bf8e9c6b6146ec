#include "senders.hpp"
#include "h3.hpp"

#include <new>

namespace sim {

namespace {

using sender_t = h3::endpoint::stream::request::sender;
using receiver_t = h3::endpoint::stream::request::receiver;

// A message, wherever the objects that carry it currently live.
struct Message {
  uint64_t id = 0;
  bool response = false;
  bool started = false;
  bool finned = false;
  bool lost = false;     // its sender is gone
  bool unheard = false;  // its receiver is gone
  std::string sent;
  bool fin_sent = false;
  size_t taken = 0;
  bool fin_taken = false;
  StreamOracle oracle;
  Scanner scanner;
};

template<typename Sender, typename Receiver>
class Senders {
public:
  Senders(Ctx &ctx, const SendersProfile &profile)
    : ctx_(ctx)
    , p_(profile)
  {}

  void run()
  {
    uint64_t steps = ctx_.range(10, p_.steps);
    for (uint64_t i = 0; i < steps; i++) {
      ctx_.steps++;
      step();
    }
    end();
  }

private:
  static constexpr size_t SENDERS = 4;
  static constexpr size_t HANDLES = 5;
  static constexpr size_t RECEIVERS = 3;

  struct SenderSlot {
    std::unique_ptr<Sender> object; // may be moved-from (message null)
    Message *message = nullptr;
  };

  struct HandleSlot {
    std::unique_ptr<handle_t> object;
    Message *message = nullptr; // live: controls this message
  };

  struct ReceiverSlot {
    std::unique_ptr<Receiver> object;
    Message *message = nullptr;
  };

  static unsigned long long ull(uint64_t v) { return v; }

  // The handle that controlled `m` does not any more.
  void orphan(Message *m)
  {
    for (HandleSlot &h : handles_) {
      if (h.message == m && m != nullptr) {
        h.message = nullptr;
      }
    }
  }

  void lose(Message *m)
  {
    if (m != nullptr) {
      orphan(m);
      m->lost = true;
    }
  }

  void unhear(Message *m)
  {
    if (m != nullptr) {
      m->unheard = true;
    }
  }

  void step()
  {
    uint64_t action = ctx_.pick(20);
    ctx_.mix_schedule(action);
    switch (action) {
      case 0:
        create();
        break;
      case 1:
        take_handle();
        break;
      case 2:
        move_sender();
        break;
      case 3:
        move_handle();
        break;
      case 4:
        drop();
        break;
      case 5:
        move_receiver();
        break;
      case 6:
      case 7:
      case 8:
      case 9:
      case 10:
      case 11:
        operate();
        break;
      case 12:
      case 13:
      case 14:
      case 15:
        send(ctx_.pick(SENDERS));
        break;
      default:
        receive(ctx_.pick(RECEIVERS), ctx_.pick(3) == 0 ? 1 : 1 + ctx_.pick(80));
        break;
    }
  }

  Message *message(uint64_t id)
  {
    messages_.emplace_back(new Message());
    Message *m = messages_.back().get();
    m->id = id;
    m->oracle.id = id;
    m->oracle.who = "message";
    return m;
  }

  void create()
  {
    size_t i = ctx_.pick(SENDERS);
    SenderSlot &s = senders_[i];
    lose(s.message);
    uint64_t id = 4 * (ctx_.pick(4) == 0 ? ctx_.pick(1ULL << 40) : messages_.size());
    for (auto &m : messages_) {
      if (m->id == id) {
        id = (1ULL << 50) + 4 * messages_.size();
      }
    }
    {
      LibScope scope;
      s.object.reset();
      s.object.reset(new Sender(id));
    }
    s.message = message(id);
    ctx_.ev("sender.new", i, id);
    ReceiverSlot &r = receivers_[ctx_.pick(RECEIVERS)];
    unhear(r.message);
    LibScope scope;
    r.object.reset(new Receiver(id));
    SIM_CHECK(r.object->start().has_value(), "api-rejected", "receiver start() failed");
    r.message = s.message;
  }

  void take_handle()
  {
    SenderSlot &s = senders_[ctx_.pick(SENDERS)];
    if (s.message == nullptr) {
      return;
    }
    size_t i = ctx_.pick(HANDLES);
    HandleSlot &h = handles_[i];
    ctx_.ev("handle.take", i, s.message->id);
    SIM_COUNT("fault.handle_replaced");
    LibScope scope;
    if (h.object != nullptr && pick(2) == 0) {
      // Assigned over whatever it was, maybe the very same message.
      orphan(s.message);
      *h.object = handle_t(s.object.get());
    } else {
      h.object.reset();
      orphan(s.message);
      h.object.reset(new handle_t(s.object.get()));
    }
    h.message = s.message;
    SIM_CHECK(h.object->id() == h.message->id, "handle-id", "handle of %llu has id %llu",
              ull(h.message->id), ull(h.object->id()));
  }

  void move_sender()
  {
    size_t from = ctx_.pick(SENDERS);
    size_t to = ctx_.pick(SENDERS);
    SenderSlot &a = senders_[from];
    SenderSlot &b = senders_[to];
    if (a.object == nullptr) {
      return;
    }
    uint64_t how = ctx_.pick(3);
    ctx_.ev("sender.move", from, to, how);
    SIM_COUNT("fault.sender_move");
    if (from == to) {
      LibScope scope;
      Sender &same = *a.object;
      *a.object = std::move(same);
      return;
    }
    if (a.message == nullptr) {
      return;
    }
    LibScope scope;
    if (b.object != nullptr && how != 0) {
      lose(b.message);
      *b.object = std::move(*a.object);
    } else {
      lose(b.message);
      b.object.reset();
      b.object.reset(new Sender(std::move(*a.object)));
    }
    b.message = a.message;
    a.message = nullptr;
    if (how == 2) {
      a.object.reset();
    }
  }

  void move_handle()
  {
    size_t from = ctx_.pick(HANDLES);
    size_t to = ctx_.pick(HANDLES);
    HandleSlot &a = handles_[from];
    HandleSlot &b = handles_[to];
    if (a.object == nullptr) {
      return;
    }
    uint64_t how = ctx_.pick(3);
    ctx_.ev("handle.move", from, to, how);
    SIM_COUNT("fault.handle_move");
    LibScope scope;
    if (from == to) {
      handle_t &same = *a.object;
      *a.object = std::move(same);
    } else {
      if (b.object != nullptr && how != 0) {
        *b.object = std::move(*a.object);
      } else {
        b.object.reset();
        b.object.reset(new handle_t(std::move(*a.object)));
      }
      b.message = a.message;
      a.message = nullptr;
      if (how == 2) {
        a.object.reset();
      }
    }
    if (b.message != nullptr) {
      SIM_CHECK(b.object->id() == b.message->id, "handle-id", "moved handle of %llu has id %llu",
                ull(b.message->id), ull(b.object->id()));
    }
  }

  void drop()
  {
    switch (ctx_.pick(6)) {
      case 0: {
        SenderSlot &s = senders_[ctx_.pick(SENDERS)];
        ctx_.ev("sender.drop", s.message != nullptr ? s.message->id : UINT64_MAX);
        lose(s.message);
        s.message = nullptr;
        LibScope scope;
        s.object.reset();
        break;
      }
      case 1: {
        ReceiverSlot &r = receivers_[ctx_.pick(RECEIVERS)];
        unhear(r.message);
        r.message = nullptr;
        LibScope scope;
        r.object.reset();
        break;
      }
      default: {
        size_t i = ctx_.pick(HANDLES);
        ctx_.ev("handle.drop", i);
        handles_[i].message = nullptr;
        LibScope scope;
        handles_[i].object.reset();
        break;
      }
    }
  }

  void move_receiver()
  {
    size_t from = ctx_.pick(RECEIVERS);
    size_t to = ctx_.pick(RECEIVERS);
    ReceiverSlot &a = receivers_[from];
    ReceiverSlot &b = receivers_[to];
    if (from == to || a.message == nullptr) {
      return;
    }
    uint64_t how = ctx_.pick(3);
    ctx_.ev("receiver.move", from, to, how);
    SIM_COUNT("fault.receiver_move");
    unhear(b.message);
    LibScope scope;
    if (b.object != nullptr && how != 0) {
      *b.object = std::move(*a.object);
    } else {
      b.object.reset(new Receiver(std::move(*a.object)));
    }
    b.message = a.message;
    a.message = nullptr;
    if (how == 2) {
      a.object.reset();
    }
  }

  uint64_t pick(uint64_t n)
  {
    bool in = alloc.in_lib;
    alloc.in_lib = false;
    uint64_t v = ctx_.pick(n);
    alloc.in_lib = in;
    return v;
  }

  // A call that may lose an allocation; then it must have changed nothing.
  template<typename F>
  bool call(F f)
  {
    if (ctx_.chance(p_.alloc_fault)) {
      alloc.fired = false;
      alloc.countdown = ctx_.pick(4);
      alloc.armed = true;
      bool threw = false;
      bool ok = false;
      try {
        LibScope scope;
        ok = f();
      } catch (const std::bad_alloc &) {
        threw = true;
      }
      alloc.armed = false;
      if (alloc.fired) {
        SIM_COUNT("fault.alloc");
      }
      alloc.fired = false;
      if (!threw) {
        return ok;
      }
    }
    LibScope scope;
    return f();
  }

  // One application call, through a handle or on the sender itself.
  void operate()
  {
    Message *m = nullptr;
    handle_t *handle = nullptr;
    Sender *sender = nullptr;
    size_t i;
    if (ctx_.pick(4) == 0) {
      i = ctx_.pick(SENDERS);
      if (senders_[i].message == nullptr) {
        return;
      }
      m = senders_[i].message;
      sender = senders_[i].object.get();
    } else {
      i = ctx_.pick(HANDLES);
      if (handles_[i].object == nullptr) {
        return;
      }
      handle = handles_[i].object.get();
      m = handles_[i].message;
    }
    operate(m, handle, sender, ctx_.pick(6));
  }

  void operate(Message *m, handle_t *handle, Sender *sender, uint64_t what)
  {
    bool dead = m == nullptr;
    const char *name = "";
    bool expected = false;
    bool ok = false;
    ctx_.ev("op", what, dead ? UINT64_MAX : m->id);
    switch (what) {
      case 0:
      case 1: {
        name = "header()";
        ref::Header h = random_header(ctx_, 0);
        h3::header_view view({ h.name.data(), h.name.size() }, { h.value.data(), h.value.size() });
        expected = !dead && !m->started;
        ok = call([&] {
          return (handle != nullptr ? handle->header(view) : sender->header(view)).has_value();
        });
        if (expected && ok) {
          m->oracle.headers.push_back(h);
        }
        break;
      }
      case 2:
        name = "start()";
        expected = !dead && !m->started && !m->oracle.headers.empty();
        ok = call([&] {
          return (handle != nullptr ? handle->start() : sender->start()).has_value();
        });
        if (expected && ok) {
          m->started = true;
          m->oracle.headers_closed = true;
        }
        break;
      case 3:
      case 4: {
        name = "body()";
        size_t size = random_size(ctx_, 300);
        std::string data =
          dead ? std::string(size, 'x') : body_bytes(m->id, m->oracle.body.size(), size);
        expected = !dead && !m->finned;
        ok = call([&] {
          bool armed = alloc.armed;
          alloc.armed = false;
          buffer b(reinterpret_cast<const uint8_t *>(data.data()), data.size());
          alloc.armed = armed;
          return (handle != nullptr ? handle->body(std::move(b)) : sender->body(std::move(b)))
            .has_value();
        });
        if (expected && ok) {
          m->oracle.body += data;
        }
        break;
      }
      case 5:
        name = "fin()";
        expected = !dead && !m->finned;
        ok = call([&] {
          return (handle != nullptr ? handle->fin() : sender->fin()).has_value();
        });
        if (expected && ok) {
          m->finned = true;
          m->oracle.ended = true;
        }
        break;
    }
    if (dead) {
      SIM_CHECK(!ok, "dead-handle-accepted", "%s through a handle without a message was accepted",
                name);
      return;
    }
    if (what == 5 && !expected) {
      return; // ending twice: refused or without effect
    }
    SIM_CHECK(ok == expected, expected ? "api-rejected" : "misuse-accepted",
              "%s on message %llu (started %d, ended %d) was %s", name, ull(m->id), m->started,
              m->finned, ok ? "accepted" : "rejected");
  }

  bool send(size_t i)
  {
    SenderSlot &s = senders_[i];
    Message *m = s.message;
    if (m == nullptr) {
      return false;
    }
    bool finished = [&] {
      LibScope scope;
      return s.object->finished();
    }();
    SIM_CHECK(finished == m->fin_sent, "wrong-finished",
              "sender of message %llu: finished() is %d, end of stream %s", ull(m->id), finished,
              m->fin_sent ? "sent" : "not sent");
    if (finished) {
      return false;
    }
    h3::result<quic::event> r = [&] {
      LibScope scope;
      return s.object->send();
    }();
    if (!r) {
      SIM_CHECK(r.error() == h3::error::idle, "send-error", "message %llu: send() gives %s",
                ull(m->id), error_name(r.error()));
      ctx_.ev("send.idle", m->id);
      return false;
    }
    quic::event event = std::move(r).value();
    SIM_CHECK(event.data.id == m->id, "wire-unknown-stream",
              "the sender of message %llu sends on stream %llu", ull(m->id), ull(event.data.id));
    m->sent += str(event.data.buffer);
    m->fin_sent = event.data.fin;
    SIM_CHECK(m->started, "wire-before-start", "message %llu is sent before start()", ull(m->id));
    SIM_CHECK(!m->fin_sent || m->finned, "wire-fin", "message %llu ends before fin()", ull(m->id));
    ctx_.ev("sent", m->id, m->sent.size(), m->fin_sent);
    return true;
  }

  // Hand the receiver of some message up to n more bytes of what was sent.
  void receive(size_t i, size_t n)
  {
    ReceiverSlot &r = receivers_[i];
    Message *m = r.message;
    if (m == nullptr || m->fin_taken || (m->taken == m->sent.size() && !m->fin_sent)) {
      return;
    }
    n = std::min(n, m->sent.size() - m->taken);
    std::string piece = m->sent.substr(m->taken, n);
    m->taken += n;
    bool fin = m->fin_sent && m->taken == m->sent.size() && (n == 0 || ctx_.pick(2) == 0);
    m->fin_taken = fin;
    m->scanner.feed(piece);
    ctx_.ev("received", m->id, n, fin);
    {
      LibScope scope;
      quic::data data;
      data.id = m->id;
      data.fin = fin;
      data.buffer = buffer(reinterpret_cast<const uint8_t *>(piece.data()), piece.size());
      SIM_CHECK(r.object->recv(std::move(data)).has_value(), "recv-rejected",
                "the receiver of message %llu refuses its data", ull(m->id));
    }
    while (!m->oracle.got_finished) {
      h3::result<h3::event> e = [&] {
        LibScope scope;
        return r.object->process();
      }();
      if (!e) {
        SIM_CHECK(e.error() == h3::error::incomplete && !fin, "recv-error",
                  "message %llu: process() gives %s", ull(m->id), error_name(e.error()));
        break;
      }
      m->oracle.on_event(ctx_, e.value(), fin);
    }
    SIM_CHECK(m->oracle.got_finished == fin && m->oracle.got_body == m->scanner.data,
              "held-back-body", "message %llu: %llu body bytes delivered, %zu surfaced, finished %d",
              ull(m->id), ull(m->scanner.data), m->oracle.got_body, m->oracle.got_finished);
  }

  void end()
  {
    // Every message that still has its sender completes.
    for (size_t i = 0; i < SENDERS; i++) {
      Message *m = senders_[i].message;
      if (m == nullptr) {
        continue;
      }
      handle_t *handle = nullptr;
      for (HandleSlot &h : handles_) {
        if (h.message == m) {
          handle = h.object.get();
        }
      }
      Sender *sender = senders_[i].object.get();
      if (m->oracle.headers.empty()) {
        operate(m, handle, sender, 0);
      }
      if (!m->started) {
        operate(m, handle, sender, 2);
      }
      if (!m->finned) {
        operate(m, handle, sender, 5);
      }
      for (unsigned n = 0; send(i); n++) {
        SIM_CHECK(n < 10000, "send-livelock", "message %llu never ends", ull(m->id));
      }
      SIM_CHECK(m->fin_sent, "never-sent", "message %llu was ended, its end was never sent",
                ull(m->id));
    }
    for (size_t i = 0; i < RECEIVERS; i++) {
      for (unsigned n = 0; n < 10000; n++) {
        receive(i, 200);
      }
    }
    for (auto &m : messages_) {
      check_request_wire("message", m->id, m->sent, m->fin_sent, m->oracle.headers, m->started,
                         m->oracle.body, m->finned);
      if (!m->lost && !m->unheard) {
        SIM_CHECK(m->oracle.complete(), "never-finished", "message %llu did not arrive in full",
                  ull(m->id));
        SIM_COUNT("probe.moved_message_complete");
      }
    }
    ctx_.nontrivial = messages_.size() >= 2;
    LibScope scope;
    if (pick(2) == 0) {
      for (SenderSlot &s : senders_) {
        s.object.reset();
      }
      for (HandleSlot &h : handles_) {
        if (h.object != nullptr) {
          SIM_CHECK(!h.object->body("x") && !h.object->start() && !h.object->fin() &&
                      !h.object->header({ "a", "b" }),
                    "dead-handle-accepted", "a handle works after its sender is gone");
        }
        h.object.reset();
      }
    } else {
      for (HandleSlot &h : handles_) {
        h.object.reset();
      }
      for (SenderSlot &s : senders_) {
        s.object.reset();
      }
    }
    for (ReceiverSlot &r : receivers_) {
      r.object.reset();
    }
  }

  Ctx &ctx_;
  const SendersProfile &p_;
  std::vector<std::unique_ptr<Message>> messages_;
  SenderSlot senders_[SENDERS];
  HandleSlot handles_[HANDLES];
  ReceiverSlot receivers_[RECEIVERS];
};

}

void
run_senders(Ctx &ctx, const SendersProfile &profile)
{
  if (ctx.pick(2) == 0) {
    Senders<h3::client::stream::request::sender, h3::server::stream::request::receiver> w(ctx,
                                                                                          profile);
    w.run();
  } else {
    Senders<h3::server::stream::request::sender, h3::client::stream::request::receiver> w(ctx,
                                                                                          profile);
    w.run();
  }
}

}

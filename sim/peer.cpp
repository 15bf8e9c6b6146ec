#include "peer.hpp"

#include "ref_recv.hpp"

namespace sim {

namespace {

using client_t = h3::client::connection;
using server_t = h3::server::connection;

// The real endpoint, whichever role it has.
struct Endpoint {
  bool server = false;
  std::unique_ptr<client_t> c;
  std::unique_ptr<server_t> s;

  struct Gen {
    std::unique_ptr<h3::client::generator> c;
    std::unique_ptr<h3::server::generator> s;
    bool next() { return c ? c->next() : s->next(); }
    h3::result<h3::event> get() { return c ? c->get() : s->get(); }
    explicit operator bool() const { return c || s; }
  };

  explicit Endpoint(bool is_server)
    : server(is_server)
  {
    LibScope scope;
    if (server) {
      s.reset(new server_t());
    } else {
      c.reset(new client_t());
    }
  }

  ~Endpoint()
  {
    LibScope scope;
    c.reset();
    s.reset();
  }

  h3::result<quic::event> send()
  {
    LibScope scope;
    return server ? s->send() : c->send();
  }

  h3::error recv(quic::event event, Gen &gen)
  {
    LibScope scope;
    if (server) {
      auto r = s->recv(std::move(event));
      if (!r) {
        return r.error();
      }
      gen.s.reset(new h3::server::generator(std::move(r).value()));
    } else {
      auto r = c->recv(std::move(event));
      if (!r) {
        return r.error();
      }
      gen.c.reset(new h3::client::generator(std::move(r).value()));
    }
    return h3::error::no_error;
  }

  uint64_t control() const { return server ? 2 : 3; }
};

// What was observed on one incoming request/response stream.
struct Seen {
  std::vector<ref::Header> headers;
  bool header_fin = false;
  std::string body;
  bool body_fin = false;
  bool finished = false;
  bool errored = false;
  std::string error;
};

struct PeerStream {
  explicit PeerStream(bool server)
    : ref(server)
  {}
  uint64_t id = 0;
  std::string wire;
  bool fin = false;
  size_t handed = 0; // given to the network
  bool fin_handed = false;
  ref::Receiver ref;
  Seen seen;
  std::vector<Endpoint::Gen> gens;
  handle_t handle;
  bool responded = false;
  std::string what; // script description
};

class Peer {
public:
  Peer(Ctx &ctx, const PeerProfile &profile)
    : ctx_(ctx)
    , p_(profile)
    , net_(ctx)
    , end_(profile.role < 0 ? ctx.pick(2) != 0 : profile.role != 0)
    , control_(end_.server)
  {}

  ~Peer()
  {
    for (auto &s : streams_) {
      s->gens.clear();
      LibScope scope;
      s->handle = handle_t();
    }
  }

  void run()
  {
    setup();
    phase_faulty();
    phase_heal();
    final_checks();
    if (p_.differential) {
      for (auto &s : streams_) {
        differential(*s);
      }
    }
  }

private:
  int dir() const { return end_.server ? 0 : 1; }
  const char *who() const { return end_.server ? "server" : "client"; }

  // ------------------------------------------------------- wire generation --
  unsigned width()
  {
    static const unsigned widths[] = { 0, 1, 2, 4, 8 };
    return ctx_.chance(p_.wide) ? widths[ctx_.pick(5)] : 0;
  }

  std::string frame(uint64_t type, const std::string &payload)
  {
    unsigned tw = width();
    unsigned lw = width();
    if (tw > 1 || lw > 1) {
      SIM_COUNT("fault.wide_varint");
    }
    return ref::frame(type, payload, tw, lw);
  }

  uint64_t unknown_type()
  {
    switch (ctx_.pick(5)) {
      case 0:
        return 0x1f * ctx_.range(0, 1000) + 0x21;
      case 1: {
        static const uint64_t holes[] = { 0x6, 0x8, 0x9, 0xa, 0xb, 0xc, 0xf, 0x10 };
        return holes[ctx_.pick(8)];
      }
      case 2:
        return ctx_.range(0x40, 0x4000);
      case 3:
        return 0x1f * (1ULL << 40) + 0x21;
      default:
        return ref::VARINT_MAX;
    }
  }

  std::string grease()
  {
    SIM_COUNT("fault.unknown_frame");
    std::string payload;
    switch (ctx_.pick(4)) {
      case 0:
        break;
      case 1:
        payload = random_bytes(ctx_, ctx_.range(1, 8), 2);
        break;
      case 2:
        payload = big_ && ctx_.pick(3) == 0 ? body_bytes(5, 0, heavy_size(ctx_, 70000))
                                            : random_bytes(ctx_, random_size(ctx_, 300), 2);
        break;
      case 3: // looks like frames of its own
        payload = ref::frame(ctx_.pick(15), random_bytes(ctx_, ctx_.range(0, 4), 2));
        break;
    }
    return frame(unknown_type(), payload);
  }

  std::string maybe_grease()
  {
    std::string out;
    while (out.size() < 2000 && ctx_.chance(p_.grease)) {
      out += grease();
    }
    if (big_ && p_.grease != 0 && ctx_.pick(8) == 0) {
      for (uint64_t n = ctx_.range(50, 300); n > 0; n--) {
        out += ref::frame(0x1f * n + 0x21, "");
      }
      SIM_COUNT("probe.many_unknown_frames");
    }
    if (flood_ && ctx_.pick(3) == 0) {
      flood_ = false;
      flooded_ = true;
      std::string f = ref::frame(0x21, std::string(ctx_.pick(2), 'f'));
      size_t n = ctx_.range(20000, 50000);
      out.reserve(n * f.size() + out.size());
      while (n-- > 0) {
        out += f;
      }
      SIM_COUNT("probe.flood_of_unknown_frames");
    }
    return out;
  }

  std::string forbidden_frame()
  {
    SIM_COUNT("fault.forbidden_frame");
    static const uint64_t types[] = { ref::SETTINGS,    ref::MAX_PUSH_ID,
                                      ref::CANCEL_PUSH, ref::GOAWAY,
                                      ref::PRIORITY,    ref::PUSH_PROMISE,
                                      ref::DUPLICATE_PUSH, ref::HEADERS, ref::DATA };
    uint64_t type = types[ctx_.pick(9)];
    std::string f = frame_of(type);
    if (type != ref::DATA && type != ref::HEADERS && p_.lie != 0 && ctx_.pick(4) == 3) {
      SIM_COUNT("fault.length_lie");
      size_t pos = 0;
      uint64_t size = 0;
      ref::varint_parse(f, pos, type);
      ref::varint_parse(f, pos, size);
      f = ref::frame_header(type, ctx_.pick(2) != 0 ? lied(size) : size / 2) + f.substr(pos);
    }
    return f;
  }

  std::string any_varint()
  {
    static const uint64_t values[] = { 0, 1, 63, 64, 16383, 16384, (1ULL << 30) - 1,
                                       1ULL << 30, ref::VARINT_MAX };
    return ref::varint(values[ctx_.pick(9)], width());
  }

  std::string frame_of(uint64_t type)
  {
    std::string payload;
    switch (type) {
      case ref::SETTINGS:
        payload = settings_payload();
        break;
      case ref::PRIORITY:
        payload = std::string(1, static_cast<char>(ctx_.pick(256))) + any_varint() +
                  any_varint() + std::string(1, static_cast<char>(ctx_.pick(256)));
        break;
      case ref::PUSH_PROMISE:
        payload = any_varint() + block(random_headers(ctx_, 2, 0), nullptr);
        break;
      case ref::HEADERS:
        payload = block(random_headers(ctx_, 2, 0), nullptr);
        break;
      case ref::DATA:
        payload = random_bytes(ctx_, ctx_.range(1, 20), 2);
        break;
      default:
        payload = any_varint();
        break;
    }
    return frame(type, payload);
  }

  std::string block(const std::vector<ref::Header> &headers, bool *bad)
  {
    std::string out = section_prefix(ctx_);
    size_t spoil = SIZE_MAX;
    if (bad != nullptr && *bad && ctx_.pick(10) == 9) {
      out = dynamic_prefix(ctx_);
    } else if (bad != nullptr && *bad) {
      spoil = ctx_.pick(headers.size() + 1);
    }
    for (size_t i = 0; i < headers.size(); i++) {
      if (i == spoil) {
        out += bad_line();
      }
      out += ref::field(headers[i], random_field_options(ctx_));
    }
    if (spoil == headers.size()) {
      out += bad_line();
    }
    return out;
  }

  std::string bad_line()
  {
    SIM_COUNT("fault.bad_field_line");
    switch (ctx_.pick(9)) {
      case 0: // dynamic indexed
        return ref::prefix_int(ctx_.pick(100), 6, 0x80);
      case 1: { // static index out of range, also where a byte would wrap
        static const uint64_t base[] = { 0, 1, 157, 158, 256, 413, 1ULL << 32 };
        return ref::prefix_int(99 + base[ctx_.pick(7)] + ctx_.pick(99), 6, 0xc0);
      }
      case 2: // dynamic name reference
        return ref::prefix_int(ctx_.pick(100), 4, 0x40) +
               ref::literal("v", 7, 0, false);
      case 3: {
        static const uint64_t base[] = { 0, 1, 157, 158, 256, 413, 1ULL << 32 };
        return ref::prefix_int(99 + base[ctx_.pick(7)] + ctx_.pick(99), 4, 0x50) +
               ref::literal("v", 7, 0, false);
      }
      case 4: // post-base forms
        return ref::prefix_int(ctx_.pick(10), 4, 0x10);
      case 5:
        return ref::prefix_int(ctx_.pick(5), 3, 0x00) + ref::literal("v", 7, 0, false);
      case 6: { // uppercase name
        ref::Header h;
        h.name = random_bytes(ctx_, ctx_.range(0, 6), 0);
        h.name.insert(ctx_.pick(h.name.size() + 1),
                      1,
                      static_cast<char>('A' + ctx_.pick(26)));
        h.value = "v";
        ref::FieldOptions o = random_field_options(ctx_);
        o.allow_indexed = false;
        o.allow_name_ref = false;
        return ref::field(h, o);
      }
      case 7: { // huffman garbage
        std::string raw(ctx_.range(1, 6), '\xff');
        if (ctx_.pick(2) != 0) {
          raw = random_bytes(ctx_, ctx_.range(1, 6), 2);
        }
        return ref::prefix_int(ctx_.pick(99), 4, 0x50) +
               ref::prefix_int(raw.size(), 7, 0x80) + raw;
      }
      default: // integer that overflows
        return std::string(1, '\x27') + std::string(ctx_.range(3, 14), '\xff') +
               std::string(1, '\x01');
    }
  }

  std::string settings_payload()
  {
    std::string out;
    static const uint64_t ids[] = { 0x6, 0x9, 0x1, 0x7 };
    uint64_t mask = ctx_.pick(16);
    for (unsigned i = 0; i < 4; i++) {
      while (ctx_.chance(p_.grease)) {
        SIM_COUNT("fault.unknown_setting");
        out += ref::varint(0x1f * ctx_.range(0, 100) + 0x21, width()) + any_varint();
      }
      if ((mask & (1U << i)) != 0) {
        out += ref::varint(ids[i], width()) + any_varint();
      }
    }
    return out;
  }

  // A declared size that promises more than there is.
  uint64_t lied(uint64_t size)
  {
    switch (ctx_.pick(4)) {
      case 0:
      case 1:
        return size + ctx_.range(1, 5);
      case 2:
        return size + alias_amount(ctx_);
      default:
        return ref::VARINT_MAX - ctx_.pick(3);
    }
  }

  void build_message(PeerStream &s)
  {
    uint64_t key = s.id + 77;
    std::string w;
    std::vector<size_t> boundaries; // frame starts
    if (ctx_.chance(p_.garbage)) {
      SIM_COUNT("fault.garbage_stream");
      s.wire = random_bytes(ctx_, random_size(ctx_, 200), ctx_.pick(2) != 0 ? 2 : 0);
      s.fin = ctx_.pick(2) != 0;
      s.what = "garbage";
      return;
    }
    w += maybe_grease();
    boundaries.push_back(w.size());
    bool bad = ctx_.chance(p_.bad_block);
    std::vector<ref::Header> headers =
      random_headers(ctx_, 4, p_.header_weight);
    if (big_) {
      switch (ctx_.pick(5)) {
        case 0: // many
          for (uint64_t k = ctx_.range(30, 400); k > 0; k--) {
            headers.push_back(k % 3 != 0
                                ? ref::static_entry(k % ref::static_size())
                                : ref::Header{ "x-" + std::to_string(k), std::to_string(k * k) });
          }
          SIM_COUNT("probe.many_headers");
          break;
        case 1: { // one large
          std::string &v = headers[ctx_.pick(headers.size())].value;
          v = body_bytes(key, 0, heavy_size(ctx_, ctx_.tier == 1 ? 70000 : 40000));
          if (ctx_.pick(2) != 0) {
            for (char &c : v) {
              c = "aeiost012"[static_cast<uint8_t>(c) % 9];
            }
          }
          SIM_COUNT("probe.large_header");
          break;
        }
        default:
          break;
      }
    }
    std::string payload = block(headers, &bad);
    uint64_t size = payload.size();
    if (ctx_.chance(p_.lie)) {
      SIM_COUNT("fault.length_lie");
      switch (ctx_.pick(5)) {
        case 4:
          size += alias_amount(ctx_);
          break;
        case 0:
          size = ctx_.pick(payload.size() + 1);
          break;
        case 1:
          size += ctx_.range(1, 10);
          break;
        case 2:
          size = 0;
          break;
        case 3:
          size = ref::VARINT_MAX - ctx_.pick(2);
          break;
      }
    }
    w += ref::frame_header(ref::HEADERS, size, width(), width()) + payload;
    size_t bodies = ctx_.range(0, 3);
    if (big_ && ctx_.pick(4) == 0) {
      bodies = ctx_.range(20, 300);
      SIM_COUNT("probe.many_data_frames");
    }
    bool heavy = big_ && bodies < 4;
    size_t offset = 0;
    for (size_t i = 0; i < bodies; i++) {
      boundaries.push_back(w.size());
      w += maybe_grease();
      while (ctx_.chance(p_.zero_data)) {
        SIM_COUNT("fault.zero_length_data");
        w += frame(ref::DATA, "");
      }
      size_t n = heavy && ctx_.pick(2) == 0 ? heavy_size(ctx_, 140000)
                                            : random_size(ctx_, bodies > 4 ? 20 : p_.max_body);
      if (n > 65536) {
        SIM_COUNT("probe.large_body");
      }
      std::string data = body_bytes(key, offset, n);
      offset += n;
      if (p_.lie != 0 && ctx_.chance(p_.lie / 2)) {
        SIM_COUNT("fault.length_lie");
        w += ref::frame_header(ref::DATA, lied(n), width(), width()) + data;
      } else {
        w += frame(ref::DATA, data);
      }
    }
    while (ctx_.chance(p_.zero_data)) {
      SIM_COUNT("fault.zero_length_data");
      w += frame(ref::DATA, "");
    }
    boundaries.push_back(w.size());
    w += maybe_grease();
    if (ctx_.chance(p_.trailers)) {
      SIM_COUNT("fault.trailers");
      std::string trailers = block(random_headers(ctx_, 3, 0), nullptr);
      if (p_.lie != 0 && ctx_.chance(p_.lie / 2)) {
        SIM_COUNT("fault.length_lie");
        uint64_t claimed = ctx_.pick(3) == 0 ? ctx_.pick(trailers.size() + 1) : lied(trailers.size());
        w += ref::frame_header(ref::HEADERS, claimed, width(), width()) + trailers;
      } else {
        w += frame(ref::HEADERS, trailers);
      }
      w += maybe_grease();
      boundaries.push_back(w.size());
    }
    if (ctx_.chance(p_.forbidden)) {
      size_t at = boundaries[ctx_.pick(boundaries.size())];
      w.insert(at, forbidden_frame());
    }
    if (p_.lie != 0 && ctx_.chance(p_.lie / 4)) {
      SIM_COUNT("fault.length_lie");
      std::string rest = random_bytes(ctx_, ctx_.range(0, 20), 2);
      w += ref::frame_header(0x21 + 0x1f * ctx_.pick(1000), lied(rest.size()), width(), width()) +
           rest;
    }
    s.fin = !ctx_.chance(p_.stall);
    if (ctx_.chance(p_.truncate)) {
      SIM_COUNT("fault.truncated_stream");
      w.resize(ctx_.pick(w.size() + 1));
    }
    if (ctx_.chance(p_.corrupt) && !w.empty()) {
      SIM_COUNT("fault.corrupt_bytes");
      for (uint64_t n = ctx_.range(1, 3); n > 0 && !w.empty(); n--) {
        size_t at = ctx_.pick(std::min<size_t>(w.size(), 60));
        switch (ctx_.pick(4)) {
          case 0:
            w[at] = static_cast<char>(ctx_.pick(256));
            break;
          case 1:
            w[at] = static_cast<char>(static_cast<uint8_t>(w[at]) ^ (1U << ctx_.pick(8)));
            break;
          case 2:
            w.insert(at, 1, static_cast<char>(ctx_.pick(256)));
            break;
          case 3:
            w.erase(at, 1);
            break;
        }
      }
    }
    s.wire = std::move(w);
  }

  uint64_t other_stream_type()
  {
    static const uint64_t far[] = { 1ULL << 8, 1ULL << 14, 1ULL << 16, 1ULL << 31, 1ULL << 32, 1ULL << 40 };
    return ctx_.pick(3) != 0 ? ctx_.range(1, 100) : far[ctx_.pick(6)] * ctx_.range(1, 3);
  }

  void build_control()
  {
    std::string w = ref::varint(0, width());
    if (ctx_.chance(p_.bad_control)) {
      SIM_COUNT("fault.bad_control");
      switch (ctx_.pick(6)) {
        case 0: // another stream type
          w = ref::varint(other_stream_type(), width());
          break;
        case 1: { // another first frame
          static const uint64_t types[] = { ref::DATA, ref::HEADERS, ref::PRIORITY,
                                            ref::CANCEL_PUSH, ref::PUSH_PROMISE,
                                            ref::GOAWAY, ref::MAX_PUSH_ID,
                                            ref::DUPLICATE_PUSH };
          w += frame_of(types[ctx_.pick(8)]);
          break;
        }
        case 2: { // SETTINGS length lie
          std::string payload = settings_payload();
          uint64_t size = payload.size();
          size = ctx_.pick(2) != 0 ? lied(size) : ctx_.pick(payload.size() + 1);
          control_wire_ = w + ref::frame_header(ref::SETTINGS, size) + payload + frame_of(ref::DATA);
          return;
        }
        case 3:
          w += random_bytes(ctx_, ctx_.range(0, 40), 2);
          break;
        case 4: // FIN
          control_fin_ = true;
          break;
        case 5: // cut short
          w += frame(ref::SETTINGS, settings_payload());
          w.resize(ctx_.pick(w.size() + 1));
          control_wire_ = w;
          control_fin_ = ctx_.pick(2) != 0;
          return;
      }
    }
    w += frame(ref::SETTINGS, settings_payload());
    w += maybe_grease();
    if (ctx_.chance(p_.control_extra)) {
      SIM_COUNT("fault.control_extra");
      static const uint64_t types[] = { ref::DATA,        ref::HEADERS,
                                        ref::PRIORITY,    ref::CANCEL_PUSH,
                                        ref::SETTINGS,    ref::PUSH_PROMISE,
                                        ref::GOAWAY,      ref::MAX_PUSH_ID,
                                        ref::DUPLICATE_PUSH };
      uint64_t type = types[ctx_.pick(9)];
      std::string f = frame_of(type);
      if (ctx_.pick(4) == 3 && type != ref::DATA && type != ref::HEADERS) {
        SIM_COUNT("fault.length_lie");
        size_t pos = 0;
        uint64_t t = 0;
        uint64_t size = 0;
        ref::varint_parse(f, pos, t);
        ref::varint_parse(f, pos, size);
        f = ref::frame_header(t, ctx_.pick(2) != 0 ? lied(size) : size / 2) + f.substr(pos);
      }
      w += f;
    }
    control_wire_ = std::move(w);
  }

  // ------------------------------------------------------------------ setup --
  void setup()
  {
    NetConfig &c = net_.cfg;
    switch (ctx_.pick(3)) {
      case 0:
        break;
      case 1:
        c.jitter = 20000;
        c.dup = 50;
        break;
      case 2:
        c.loss = 150;
        c.jitter = 60000;
        break;
    }
    static const uint64_t mtus[] = { 1200, 100, 7, 4000 };
    c.mtu = mtus[ctx_.pick(4)];
    static const uint64_t chunks[] = { 100000, 64, 1, 5, 21 };
    c.max_chunk = chunks[ctx_.pick(5)];
    c.one_chunk = ctx_.pick(2) != 0 ? 500 : 50;
    big_ = ctx_.chance(p_.big);
    if (big_) {
      SIM_COUNT("probe.big_run");
      c.mtu = ctx_.pick(2) != 0 ? 65536 : 4000;
      static const uint64_t large[] = { 100000, 16384, 3000, 1000 };
      c.max_chunk = large[ctx_.pick(4)];
      c.one_chunk = 400;
      if (p_.grease != 0 && ctx_.pick(16) == 0) {
        flood_ = true; // one, in few pieces
        c.mtu = 65536;
        c.max_chunk = 100000;
      }
    }
    c.separate_fin = ctx_.pick(2) != 0 ? 500 : 0;
    sliced_ = ctx_.pick(2) != 0;
    lazy_ = ctx_.pick(2) != 0 ? p_.lazy : 0;

    build_control();
    uint64_t n = ctx_.range(1, p_.max_streams);
    uint64_t next_id = 0;
    bool far = ctx_.chance(p_.far_ids);
    if (far) {
      SIM_COUNT("probe.far_stream_ids");
      if (end_.server) {
        static const uint64_t bases[] = { 0,           60,          252,        1020,
                                          65532,       (1ULL << 31) - 4, (1ULL << 32) - 4,
                                          1ULL << 32,  (1ULL << 61) - 4, (1ULL << 62) - 4096 };
        next_id = bases[ctx_.pick(10)];
      } else { // a client cannot choose: it opens requests nobody answers
        static const uint64_t idle[] = { 3, 15, 16, 63, 64, 65, 127 };
        uint64_t k = idle[ctx_.pick(7)];
        LibScope scope;
        for (uint64_t j = 0; j < k; j++) {
          auto r = end_.c->request();
          SIM_CHECK(r.has_value() && r.value().id() == next_id, "request-id",
                    "request %llu has another id", static_cast<unsigned long long>(j));
          next_id += 4;
        }
        requests_ += k;
      }
      far = end_.server;
    }
    for (uint64_t i = 0; i < n; i++) {
      streams_.emplace_back(new PeerStream(end_.server));
      PeerStream &s = *streams_.back();
      s.id = next_id;
      next_id += 4;
      if (far) {
        next_id += 4 * (ctx_.pick(2) != 0 ? ctx_.pick(3) : ctx_.pick(200));
      }
      build_message(s);
      by_id_[s.id] = &s;
      requests_++;
      if (ctx_.verbose) {
        ctx_.note("stream %llu will carry %zu bytes fin=%d: %s",
                  static_cast<unsigned long long>(s.id),
                  s.wire.size(),
                  s.fin,
                  hex(s.wire, 200).c_str());
      }
    }
    ctx_.note("control: %s fin=%d", hex(control_wire_, 200).c_str(), control_fin_);
    if (!end_.server) {
      for (auto &s : streams_) {
        open_request(*s);
      }
    }
    while (ctx_.chance(p_.uni)) {
      SIM_COUNT("fault.unknown_uni_stream");
      static const uint64_t bases[] = { 0, 60, 252, 1020, 16380, 65532, (1ULL << 32) - 4, 1ULL << 61 };
      uint64_t id = (end_.server ? 6 : 7) + 4 * ctx_.pick(4);
      id += ctx_.pick(2) != 0 ? 0 : bases[ctx_.pick(8)];
      if (uni_.count(id) == 0) {
        std::string w = ref::varint(ctx_.range(0, 70)) + random_bytes(ctx_, ctx_.range(0, 60), 2);
        uni_[id] = std::make_pair(w, ctx_.pick(2) != 0);
      }
    }
  }

  void open_request(PeerStream &s)
  {
    LibScope scope;
    auto r = end_.c->request();
    SIM_CHECK(r.has_value(), "api-rejected", "request() failed");
    s.handle = std::move(r).value();
    SIM_CHECK(s.handle.id() == s.id,
              "request-id",
              "request got id %llu",
              static_cast<unsigned long long>(s.handle.id()));
    bool ok = s.handle.header({ ":path", "/" }) && s.handle.start() && s.handle.fin();
    SIM_CHECK(ok, "api-rejected", "request script rejected");
    alloc.in_lib = false;
    drain_sends(1000);
  }

  bool pump()
  {
    h3::result<quic::event> r = end_.send();
    if (!r) {
      SIM_CHECK(r.error() == h3::error::idle,
                "send-error",
                "%s: send() failed: %s",
                who(),
                error_name(r.error()));
      if (ctx_.chance(100)) {
        SIM_CHECK(!end_.send(), "idle-too-early", "%s: send() reported idle with data to send",
                  who());
      }
      return false;
    }
    SIM_CHECK(++pumps_ < 100000, "send-livelock", "%s: send() never idles", who());
    ctx_.ev("send", r.value().data.id, r.value().data.buffer.size(), r.value().data.fin);
    if (r.value().data.fin) {
      fin_sent_.insert(r.value().data.id);
    }
    return true;
  }

  void drain_sends(int n)
  {
    while (n-- > 0 && pump()) {
    }
  }

  // ------------------------------------------------------------ peer sending --
  bool hand_control()
  {
    if (control_handed_ == control_wire_.size() &&
        (!control_fin_ || control_fin_handed_)) {
      return false;
    }
    size_t left = control_wire_.size() - control_handed_;
    size_t n = left == 0 ? 0 : ctx_.range(1, left);
    bool fin = control_fin_ && n == left;
    net_.send(dir(), end_.control(), control_wire_.substr(control_handed_, n), fin);
    control_handed_ += n;
    control_fin_handed_ = fin;
    return true;
  }

  bool hand(PeerStream &s)
  {
    if (s.handed == s.wire.size() && (!s.fin || s.fin_handed)) {
      return false;
    }
    size_t left = s.wire.size() - s.handed;
    size_t n = left == 0 ? 0 : ctx_.range(1, left);
    bool fin = s.fin && n == left && (n == 0 || ctx_.pick(2) == 0);
    net_.send(dir(), s.id, s.wire.substr(s.handed, n), fin);
    s.handed += n;
    s.fin_handed = s.fin_handed || fin;
    return true;
  }

  bool hand_any()
  {
    if (ctx_.pick(4) == 0 && hand_control()) {
      return true;
    }
    size_t first = ctx_.pick(streams_.size());
    for (size_t k = 0; k < streams_.size(); k++) {
      if (hand(*streams_[(first + k) % streams_.size()])) {
        return true;
      }
    }
    for (auto &u : uni_) {
      if (uni_handed_.insert(u.first).second) {
        net_.send(dir(), u.first, u.second.first, u.second.second);
        return true;
      }
    }
    return hand_control();
  }

  // ----------------------------------------------------------------- receive --
  quic::event data_event(uint64_t id, const std::string &data, bool fin)
  {
    buffer b = make_buffer(ctx_, data, sliced_);
    quic::data payload;
    payload.id = id;
    payload.fin = fin;
    payload.buffer = std::move(b);
    return quic::event(std::move(payload));
  }

  void deliver(uint64_t id)
  {
    Net::Chunk c = net_.take(dir(), id);
    ctx_.ev("recv", id, c.data.size(), c.fin);
    ctx_.mix_schedule(id * 13 + c.data.size() * 2 + (c.fin ? 1 : 0) + 5);
    SIM_COUNT("net.delivered_chunk");
    Endpoint::Gen gen;
    received_ += c.data.size();
    h3::error e = end_.recv(data_event(id, c.data, c.fin), gen);
    if (id == end_.control()) {
      if (c.fin) {
        SIM_CHECK(control_errored_ || e == h3::error::closed_critical_stream,
                  "critical-stream",
                  "%s: FIN on the control stream gave %s",
                  who(),
                  error_name(e));
        SIM_COUNT("probe.closed_critical_stream");
        control_errored_ = true;
        return;
      }
      if (control_errored_) {
        return;
      }
      SIM_CHECK(e == h3::error::no_error, "recv-rejected", "%s: control: %s", who(), error_name(e));
      control_.feed(c.data);
      drain_control(gen);
      return;
    }
    if (uni_.count(id) != 0) {
      SIM_CHECK(e == h3::error::no_error,
                "uni-stream",
                "%s: data on unidirectional stream %llu gave %s",
                who(),
                static_cast<unsigned long long>(id),
                error_name(e));
      bool more = next(gen);
      if (more) {
        h3::result<h3::event> r = get(gen);
        fail("uni-stream",
             "%s: unidirectional stream %llu produced %s",
             who(),
             static_cast<unsigned long long>(id),
             r ? "an event" : error_name(r.error()));
      }
      SIM_COUNT("probe.uni_ignored");
      return;
    }
    PeerStream &s = *by_id_[id];
    if (s.seen.errored) {
      // Nothing is promised after an error but survival.
      if (e == h3::error::no_error) {
        for (int i = 0; i < 3 && next(gen); i++) {
          h3::result<h3::event> r = get(gen);
        }
      }
      s.ref.feed(c.data);
      return;
    }
    SIM_CHECK(e == h3::error::no_error,
              "recv-rejected",
              "%s: stream %llu: recv gave %s",
              who(),
              static_cast<unsigned long long>(id),
              error_name(e));
    s.ref.feed(c.data);
    if (c.fin) {
      s.ref.fin();
    }
    if (lazy_ != 0 && ctx_.chance(lazy_)) {
      SIM_COUNT("fault.lazy_drain");
      s.gens.push_back(std::move(gen));
      return;
    }
    drain(s, gen);
  }

  bool next(Endpoint::Gen &gen)
  {
    LibScope scope;
    return gen.next();
  }

  h3::result<h3::event> get(Endpoint::Gen &gen)
  {
    h3::result<h3::event> r = [&] {
      LibScope scope;
      return gen.get();
    }();
    memory();
    return r;
  }

  // Whatever the peer claims, the endpoint uses memory for what has arrived.
  void memory()
  {
    uint64_t budget = 16384 + 24 * received_ + 1024 * requests_;
    SIM_CHECK(alloc.peak <= budget, "memory-out-of-proportion",
              "%s: %llu bytes allocated after receiving %llu bytes", who(),
              static_cast<unsigned long long>(alloc.peak),
              static_cast<unsigned long long>(received_));
  }

  void drain_control(Endpoint::Gen &gen)
  {
    for (int pulls = 0; next(gen); pulls++) {
      SIM_CHECK(pulls < 1000, "event-livelock", "%s: control stream livelock", who());
      h3::result<h3::event> r = get(gen);
      if (!r) {
        control_error(error_name(r.error()));
        return;
      }
      SIM_CHECK(r.value() == h3::event::type::settings && !settings_,
                "wrong-settings",
                "%s: unexpected event on the control stream",
                who());
      settings_ = true;
      SIM_COUNT("event.settings");
      ctx_.ev("event.settings");
      if (control_.unspecified) {
        continue;
      }
      SIM_CHECK(control_.settings_seen,
                "wrong-settings",
                "%s: settings before the SETTINGS frame was complete",
                who());
      const h3::settings &got = r.value().settings;
      const ref::Settings &want = control_.settings;
      SIM_CHECK(got.max_header_list_size == want.max_header_list_size &&
                  got.num_placeholders == want.num_placeholders &&
                  got.qpack_max_table_capacity == want.qpack_max_table_capacity &&
                  got.qpack_blocked_streams == want.qpack_blocked_streams,
                "wrong-settings",
                "%s: settings differ from what the peer sent",
                who());
    }
    if (control_.unspecified) {
      return;
    }
    SIM_CHECK(control_.state != ref::verdict::bad,
              "missing-error",
              "%s: control stream accepted although: %s",
              who(),
              control_.why.c_str());
    SIM_CHECK(settings_ == control_.settings_seen,
              "missing-settings-event",
              "%s: SETTINGS delivered but not reported",
              who());
  }

  void control_error(const char *name)
  {
    control_errored_ = true;
    ctx_.ev("error.control");
    ctx_.note("control error %s (%s)", name, control_.why.c_str());
    if (control_.unspecified) {
      return;
    }
    SIM_CHECK(control_.state != ref::verdict::fine,
              "spurious-error",
              "%s: control stream rejected with %s",
              who(),
              name);
    SIM_CHECK(control_.codes.empty() || control_.codes.count(name) != 0,
              "wrong-error",
              "%s: control stream rejected with %s, expected %s (%s)",
              who(),
              name,
              control_.codes.begin()->c_str(),
              control_.why.c_str());
    if (control_.settings_seen) {
      SIM_CHECK(settings_, "missing-settings-event", "%s: SETTINGS not reported", who());
    }
    SIM_COUNT("probe.control_error");
  }

  void drain(PeerStream &s, Endpoint::Gen &gen)
  {
    unsigned long long sid = s.id;
    uint64_t pulls = 0;
    while (next(gen)) {
      SIM_CHECK(++pulls < s.wire.size() + 64,
                "event-livelock",
                "%s: stream %llu livelock",
                who(),
                sid);
      h3::result<h3::event> r = get(gen);
      if (!r) {
        stream_error(s, error_name(r.error()));
        return;
      }
      if (s.seen.finished) {
        SIM_CHECK(r.value() == h3::event::type::finished,
                  "event-after-finished",
                  "%s: stream %llu: event after finished",
                  who(),
                  sid);
        continue;
      }
      observe(s, r.value());
    }
    settled(s);
  }

  void observe(PeerStream &s, h3::event &event)
  {
    unsigned long long sid = s.id;
    Seen &seen = s.seen;
    ref::Receiver &ref = s.ref;
    bool strict = !ref.unspecified;
    switch (event) {
      case h3::event::type::settings:
        fail("wrong-event", "%s: settings event on stream %llu", who(), sid);
      case h3::event::type::header: {
        SIM_CHECK(event.header.id == s.id, "wrong-stream-id", "%s: stream %llu header with id %llu",
                  who(), sid, static_cast<unsigned long long>(event.header.id));
        ref::Header h{ str(event.header.header.name()), str(event.header.header.value()) };
        ctx_.ev("event.header", s.id, h.name.size(), h.value.size());
        ctx_.mix_bytes(h.name.data(), h.name.size());
        ctx_.mix_bytes(h.value.data(), h.value.size());
        ctx_.note("%s: %s fin=%d", hex(h.name).c_str(), hex(h.value).c_str(), event.header.fin);
        SIM_CHECK(!seen.header_fin && seen.body.empty(),
                  "header-order", "%s: stream %llu: header after the header list", who(), sid);
        size_t k = seen.headers.size();
        seen.headers.push_back(h);
        seen.header_fin = event.header.fin;
        SIM_COUNT("event.header");
        if (!strict && k >= ref.headers.size()) {
          break;
        }
        SIM_CHECK(k < ref.headers.size(), "extra-header",
                  "%s: stream %llu: header %zu was never sent", who(), sid, k);
        SIM_CHECK(ref.headers[k] == h, "wrong-header",
                  "%s: stream %llu: header %zu is {%s: %s}, sent {%s: %s}", who(), sid, k,
                  hex(h.name).c_str(), hex(h.value).c_str(), hex(ref.headers[k].name).c_str(),
                  hex(ref.headers[k].value).c_str());
        if (strict) {
          SIM_CHECK(event.header.fin == (ref.headers_done && k + 1 == ref.headers.size()),
                    "wrong-header-fin", "%s: stream %llu: header %zu fin=%d", who(), sid, k,
                    event.header.fin);
        }
        if (end_.server && ctx_.pick(4) == 3) {
          respond(s);
        }
        break;
      }
      case h3::event::type::body: {
        SIM_CHECK(event.body.id == s.id, "wrong-stream-id", "%s: stream %llu body with id %llu",
                  who(), sid, static_cast<unsigned long long>(event.body.id));
        std::string data = str(event.body.buffer);
        ctx_.ev("event.body", s.id, data.size(), event.body.fin);
        ctx_.mix_bytes(data.data(), data.size());
        SIM_COUNT("event.body");
        SIM_CHECK(seen.header_fin, "body-before-headers",
                  "%s: stream %llu: body before the end of headers", who(), sid);
        SIM_CHECK(!seen.body_fin, "body-after-fin", "%s: stream %llu: body after fin", who(), sid);
        size_t at = seen.body.size();
        seen.body += data;
        seen.body_fin = event.body.fin;
        if (!strict) {
          break;
        }
        SIM_CHECK(seen.body.size() <= ref.body.size(), "extra-body",
                  "%s: stream %llu: %zu body bytes, only %zu were sent", who(), sid,
                  seen.body.size(), ref.body.size());
        SIM_CHECK(ref.body.compare(at, data.size(), data) == 0, "wrong-body",
                  "%s: stream %llu: body bytes at %zu differ", who(), sid, at);
        if (event.body.fin) {
          SIM_CHECK(ref.finished && seen.body.size() == ref.body.size(), "premature-fin",
                    "%s: stream %llu: body fin after %zu bytes", who(), sid, seen.body.size());
        }
        break;
      }
      case h3::event::type::finished:
        SIM_CHECK(event.finished.id == s.id, "wrong-stream-id", "%s: stream %llu finished, id %llu",
                  who(), sid, static_cast<unsigned long long>(event.finished.id));
        ctx_.ev("event.finished", s.id);
        seen.finished = true;
        SIM_COUNT("event.finished");
        SIM_CHECK(ref.fin_seen && ref.state != ref::verdict::bad &&
                    ref.state != ref::verdict::doomed,
                  "premature-finished",
                  "%s: stream %llu: reported finished (FIN delivered=%d, %s)", who(), sid,
                  ref.fin_seen, ref.why.c_str());
        if (strict) {
          SIM_CHECK(ref.finished && seen.headers.size() == ref.headers.size() &&
                      seen.body == ref.body,
                    "premature-finished",
                    "%s: stream %llu: finished after %zu/%zu headers, %zu/%zu body bytes", who(),
                    sid, seen.headers.size(), ref.headers.size(), seen.body.size(),
                    ref.body.size());
        }
        SIM_COUNT("probe.finished");
        break;
    }
  }

  void stream_error(PeerStream &s, const char *name)
  {
    unsigned long long sid = s.id;
    ctx_.ev("error.stream", s.id);
    ctx_.note("stream %llu error %s (%s)", sid, name, s.ref.why.c_str());
    SIM_CHECK(!s.seen.finished, "error-after-finished", "%s: stream %llu: %s after finished", who(),
              sid, name);
    s.seen.errored = true;
    s.seen.error = name;
    if (s.ref.unspecified) {
      SIM_COUNT("probe.unspecified_error");
      return;
    }
    SIM_CHECK(s.ref.state != ref::verdict::fine, "spurious-error",
              "%s: stream %llu: valid bytes rejected with %s", who(), sid, name);
    SIM_CHECK(s.ref.codes.empty() || s.ref.codes.count(name) != 0, "wrong-error",
              "%s: stream %llu: rejected with %s, expected %s (%s)", who(), sid, name,
              s.ref.codes.begin()->c_str(), s.ref.why.c_str());
    SIM_CHECK(std::string(name) != "incomplete" && std::string(name) != "idle", "wrong-error",
              "%s: stream %llu: %s (%s)", who(), sid, name, s.ref.why.c_str());
    if (s.ref.state == ref::verdict::bad && !s.ref.fin_seen) {
      SIM_CHECK(s.seen.body == s.ref.body, "lost-before-error",
                "%s: stream %llu: %zu of %zu body bytes before the error", who(), sid,
                s.seen.body.size(), s.ref.body.size());
      SIM_CHECK(!s.ref.headers_done || s.seen.headers.size() == s.ref.headers.size(),
                "lost-before-error", "%s: stream %llu: headers lost before the error", who(), sid);
    }
    SIM_COUNT("probe.stream_error");
    if (s.ref.fin_seen) {
      SIM_COUNT("probe.truncation_detected");
    }
  }

  // Fully drained: nothing may be held back.
  void settled(PeerStream &s)
  {
    unsigned long long sid = s.id;
    const ref::Receiver &ref = s.ref;
    if (ref.unspecified || s.seen.errored) {
      return;
    }
    SIM_CHECK(ref.state != ref::verdict::bad, "missing-error",
              "%s: stream %llu: accepted although: %s", who(), sid, ref.why.c_str());
    if (ref.headers_done) {
      SIM_CHECK(s.seen.header_fin && s.seen.headers.size() == ref.headers.size(),
                "held-back-headers", "%s: stream %llu: %zu of %zu headers reported", who(), sid,
                s.seen.headers.size(), ref.headers.size());
    }
    SIM_CHECK(s.seen.body.size() == ref.body.size(), "held-back-body",
              "%s: stream %llu: %zu of %zu body bytes reported", who(), sid, s.seen.body.size(),
              ref.body.size());
    if (ref.finished) {
      SIM_CHECK(s.seen.finished, "missing-finished",
                "%s: stream %llu: complete but not reported finished", who(), sid);
    }
  }

  void respond(PeerStream &s)
  {
    if (s.responded || !p_.respond) {
      return;
    }
    s.responded = true;
    LibScope scope;
    auto r = end_.s->response(s.id);
    SIM_CHECK(r.has_value(), "response-rejected", "response(%llu) rejected",
              static_cast<unsigned long long>(s.id));
    s.handle = std::move(r).value();
    bool ok = s.handle.header({ ":status", "200" }) && s.handle.start() &&
              s.handle.body("hello") && s.handle.fin();
    SIM_CHECK(ok, "api-rejected", "response script rejected");
    SIM_COUNT("probe.responded");
  }

  void hostile_call()
  {
    SIM_COUNT("fault.hostile_call");
    switch (ctx_.pick(5)) {
      case 0: { // transport error event
        ctx_.ev("hostile.error-event");
        quic::event event = [&] {
          LibScope scope;
          return quic::event(quic::event::payload::error{
              quic::application::error::rst_stream, 0, 0x10c });
        }();
        Endpoint::Gen gen;
        h3::error e = end_.recv(std::move(event), gen);
        SIM_CHECK(e == h3::error::not_implemented, "error-event", "%s: error event gave %s", who(),
                  error_name(e));
        break;
      }
      case 1: { // a stream the client never opened
        if (end_.server) {
          break;
        }
        uint64_t id = streams_.back()->id + 4 * (1 + ctx_.pick(1000));
        ctx_.ev("hostile.unknown-id", id);
        Endpoint::Gen gen;
        h3::error e = end_.recv(data_event(id, "\x01\x00", false), gen);
        SIM_CHECK(e != h3::error::no_error, "unknown-stream",
                  "client: data for stream %llu it never opened was accepted",
                  static_cast<unsigned long long>(id));
        break;
      }
      case 2: { // response for an id that does not exist
        if (!end_.server) {
          break;
        }
        uint64_t id = 4 * (streams_.size() + ctx_.range(1, 1000));
        while (by_id_.count(id) != 0) {
          id += 4;
        }
        ctx_.ev("hostile.response", id);
        LibScope scope;
        auto r = end_.s->response(id);
        SIM_CHECK(!r && r.error() == h3::error::stream_closed, "unknown-stream",
                  "server: response(%llu) gave a handle",
                  static_cast<unsigned long long>(id));
        break;
      }
      case 3: { // more data after FIN on a live stream
        PeerStream &s = *streams_[ctx_.pick(streams_.size())];
        if (!s.ref.fin_seen || s.seen.finished || s.seen.errored) {
          break;
        }
        ctx_.ev("hostile.after-fin", s.id);
        Endpoint::Gen gen;
        h3::error e = end_.recv(data_event(s.id, "x", ctx_.pick(2) != 0), gen);
        SIM_CHECK(e != h3::error::no_error, "data-after-fin",
                  "%s: data after FIN on stream %llu was accepted", who(),
                  static_cast<unsigned long long>(s.id));
        break;
      }
      case 4: { // an empty chunk is no event at all
        PeerStream &s = *streams_[ctx_.pick(streams_.size())];
        if (s.ref.fin_seen || s.seen.errored || s.handed == 0) {
          break;
        }
        ctx_.ev("hostile.empty-chunk", s.id);
        Endpoint::Gen gen;
        h3::error e = end_.recv(data_event(s.id, "", false), gen);
        SIM_CHECK(e == h3::error::no_error, "recv-rejected", "%s: empty chunk gave %s", who(),
                  error_name(e));
        drain(s, gen);
        break;
      }
    }
  }

  void drain_lazy(bool all)
  {
    for (auto &s : streams_) {
      while (!s->gens.empty()) {
        size_t i = all ? 0 : ctx_.pick(s->gens.size());
        Endpoint::Gen gen = std::move(s->gens[i]);
        s->gens.erase(s->gens.begin() + static_cast<std::ptrdiff_t>(i));
        if (s->seen.errored) {
          continue;
        }
        if (s->seen.finished) {
          continue;
        }
        drain(*s, gen);
        if (!all) {
          return;
        }
      }
    }
  }

  // ---------------------------------------------------------------- schedule --
  bool deliver_any()
  {
    std::vector<uint64_t> ids = net_.deliverable(dir());
    if (ids.empty()) {
      return false;
    }
    deliver(ids[ctx_.pick(ids.size())]);
    return true;
  }

  void phase_faulty()
  {
    uint64_t n = ctx_.range(20, 150);
    for (uint64_t i = 0; i < n; i++) {
      ctx_.steps++;
      uint64_t action = ctx_.pick(10);
      ctx_.mix_schedule(action);
      switch (action) {
        case 0:
        case 1:
          hand_any();
          break;
        case 2:
        case 3:
        case 4:
          net_.advance();
          break;
        case 5:
        case 6:
        case 7:
          deliver_any();
          break;
        case 8:
          if (ctx_.chance(50)) {
            net_.partition(ctx_.range(1000, 200000));
          }
          pump();
          break;
        case 9:
          if (p_.hostile_calls != 0 && ctx_.chance(p_.hostile_calls)) {
            hostile_call();
          } else {
            drain_lazy(false);
          }
          break;
      }
    }
  }

  void phase_heal()
  {
    ctx_.ev("heal");
    net_.faults = false;
    lazy_ = 0;
    drain_lazy(true);
    while (hand_any()) {
    }
    while (net_.advance()) {
    }
    while (deliver_any()) {
      ctx_.steps++;
    }
    if (end_.server) {
      for (auto &s : streams_) {
        if (!s->seen.headers.empty() && !s->responded) {
          respond(*s);
        }
      }
    }
    drain_sends(100000);
  }

  void final_checks()
  {
    size_t judged = 0;
    for (auto &s : streams_) {
      unsigned long long sid = s->id;
      if (!s->ref.unspecified) {
        judged++;
      }
      if (s->ref.finished && !s->ref.unspecified) {
        SIM_CHECK(s->seen.finished, "never-finished",
                  "%s: stream %llu is valid and complete but was not reported finished", who(),
                  sid);
      }
      if (s->ref.state == ref::verdict::bad && !s->ref.unspecified) {
        SIM_CHECK(s->seen.errored, "missing-error", "%s: stream %llu: no error although: %s",
                  who(), sid, s->ref.why.c_str());
      }
      if (s->responded) {
        SIM_CHECK(fin_sent_.count(s->id) != 0, "never-sent",
                  "server: response on stream %llu was never completed", sid);
      }
      if (s->seen.errored) {
        SIM_COUNT("probe.errored_streams");
      }
    }
    if (!control_.unspecified && !control_errored_ && !control_fin_) {
      SIM_CHECK(settings_ == control_.settings_seen, "missing-settings-event",
                "%s: settings seen=%d, sent=%d", who(), settings_, control_.settings_seen);
    }
    ctx_.nontrivial = judged >= 1 && ctx_.steps > 20;
  }

  // ------------------------------------------------------------ differential --
  struct Outcome {
    std::vector<ref::Header> headers;
    std::string body;
    int status = 0; // 0 pending, 1 finished, 2 error
    std::string error;
  };

  Outcome fresh_run(PeerStream &s, int mode)
  {
    Outcome out;
    received_ += s.wire.size();
    requests_ += end_.server ? 1 : s.id / 4 + 1; // what a client opens below
    Endpoint end(end_.server);
    std::vector<handle_t> handles;
    if (!end.server) {
      LibScope scope;
      for (uint64_t id = 0; id <= s.id; id += 4) {
        auto r = end.c->request();
        handles.push_back(std::move(r).value());
        handles.back().header({ ":path", "/" });
        handles.back().start();
        handles.back().fin();
      }
      alloc.in_lib = false;
      while (end.send()) {
      }
    }
    size_t at = 0;
    bool fin_done = false;
    unsigned pieces = 0;
    while ((at < s.wire.size() || (s.fin && !fin_done)) && out.status == 0) {
      size_t left = s.wire.size() - at;
      size_t n = mode == 0 ? left : mode == 1 ? std::min<size_t>(1, left)
                                              : std::min<size_t>(left, 1 + ctx_.pick(40));
      if (mode != 0 && s.wire.size() > 20000) {
        n = std::max(n, std::min<size_t>(left, 1 + s.wire.size() / (flooded_ ? 10 : 64)));
      }
      if (mode != 0 && ++pieces > 300) {
        n = std::max(n, std::min(left, at / 4)); // see SimNet::take
      }
      bool fin = s.fin && n == left && (mode != 1 || left == 0);
      Endpoint::Gen gen;
      if (n == 0 && !fin) {
        break;
      }
      h3::error e = end.recv(data_event(s.id, s.wire.substr(at, n), fin), gen);
      at += n;
      fin_done = fin;
      if (e != h3::error::no_error) {
        out.status = 2;
        out.error = error_name(e);
        break;
      }
      for (uint64_t pulls = 0; next(gen); pulls++) {
        SIM_CHECK(pulls < s.wire.size() + 64, "event-livelock", "%s: livelock", who());
        h3::result<h3::event> r = get(gen);
        if (!r) {
          out.status = 2;
          out.error = error_name(r.error());
          break;
        }
        switch (r.value()) {
          case h3::event::type::header:
            out.headers.push_back(
              { str(r.value().header.header.name()), str(r.value().header.header.value()) });
            break;
          case h3::event::type::body:
            out.body += str(r.value().body.buffer);
            break;
          case h3::event::type::finished:
            out.status = 1;
            break;
          case h3::event::type::settings:
            fail("wrong-event", "settings on a request stream");
        }
        if (out.status != 0) {
          break;
        }
      }
    }
    LibScope scope;
    handles.clear();
    return out;
  }

  void differential(PeerStream &s)
  {
    Outcome a = fresh_run(s, 0);
    SIM_COUNT("probe.differential");
    for (int mode = 1; mode <= 2; mode++) {
      Outcome b = fresh_run(s, mode);
      const char *how = mode == 1 ? "byte by byte" : "in random pieces";
      ctx_.ev("differential", static_cast<uint64_t>(mode), static_cast<uint64_t>(a.status),
              static_cast<uint64_t>(b.status));
      SIM_CHECK(a.status == b.status, "segmentation",
                "%s: the same %zu bytes end as %d (%s) in one piece but %d (%s) %s", who(),
                s.wire.size(), a.status, a.error.c_str(), b.status, b.error.c_str(), how);
      size_t nh = std::min(a.headers.size(), b.headers.size());
      SIM_CHECK(std::equal(a.headers.begin(), a.headers.begin() + static_cast<std::ptrdiff_t>(nh),
                           b.headers.begin()) &&
                  (a.status == 2 || a.headers.size() == b.headers.size()),
                "segmentation", "%s: headers differ between one piece and %s", who(), how);
      size_t nb = std::min(a.body.size(), b.body.size());
      SIM_CHECK(a.body.compare(0, nb, b.body, 0, nb) == 0 &&
                  (a.status == 2 || a.body.size() == b.body.size()),
                "segmentation", "%s: body differs between one piece and %s", who(), how);
    }
  }

  Ctx &ctx_;
  const PeerProfile &p_;
  Net net_;
  Endpoint end_;
  ref::Control control_;
  std::string control_wire_;
  bool control_fin_ = false;
  size_t control_handed_ = 0;
  bool control_fin_handed_ = false;
  bool control_errored_ = false;
  bool settings_ = false;
  std::vector<std::unique_ptr<PeerStream>> streams_;
  std::map<uint64_t, PeerStream *> by_id_;
  std::map<uint64_t, std::pair<std::string, bool>> uni_;
  std::set<uint64_t> uni_handed_;
  std::set<uint64_t> fin_sent_;
  uint64_t pumps_ = 0;
  bool sliced_ = false;
  unsigned lazy_ = 0;
  bool big_ = false;
  bool flood_ = false;
  bool flooded_ = false;
  uint64_t received_ = 0;
  uint64_t requests_ = 0; // opened, or seen arriving
};

}

void
run_peer(Ctx &ctx, const PeerProfile &profile)
{
  Peer peer(ctx, profile);
  peer.run();
}

}

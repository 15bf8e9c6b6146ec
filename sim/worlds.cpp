// The worlds each property is decided in.  Every world is a mix: one choice
// picks the sub-world, and a swarm of further choices turns each kind of fault
// on or off for the run, so that most runs see few kinds of fault and some
// see many.
#include "core.hpp"
#include "codec.hpp"
#include "exchange.hpp"
#include "logging.hpp"
#include "mem.hpp"
#include "peer.hpp"
#include "rounds.hpp"
#include "senders.hpp"
#include "tools.hpp"

namespace sim {

namespace {

// A knob that is off in some runs.
unsigned
maybe(Ctx &ctx, unsigned permille)
{
  return ctx.pick(3) == 0 ? 0 : permille;
}

// A knob that is off in most runs.
unsigned
rarely(Ctx &ctx, unsigned permille)
{
  return ctx.pick(4) == 3 ? permille : 0;
}

unsigned
pick_of(Ctx &ctx, std::initializer_list<unsigned> weights)
{
  unsigned total = 0;
  for (unsigned w : weights) {
    total += w;
  }
  uint64_t v = ctx.pick(total);
  unsigned i = 0;
  for (unsigned w : weights) {
    if (v < w) {
      return i;
    }
    v -= w;
    i++;
  }
  return 0;
}

ExchangeProfile
exchange_base(Ctx &ctx)
{
  ExchangeProfile p;
  if (ctx.tier == 1) {
    p.max_requests = 6;
    p.max_headers = 10;
    p.max_bodies = 8;
    p.max_body = 20000;
    p.max_steps = 600;
  }
  p.header_weight = static_cast<int>(ctx.pick(3));
  p.lazy = maybe(ctx, 200);
  p.empty_body = rarely(ctx, 150);
  p.slow_client = rarely(ctx, 300);
  p.early = ctx.pick(3) == 0 ? 0 : 300;
  p.net_faults = ctx.pick(4) != 0;
  return p;
}

// A peer that only does what the protocol allows.
PeerProfile
peer_valid(Ctx &ctx)
{
  PeerProfile p;
  if (ctx.tier == 1) {
    p.max_streams = 5;
    p.max_body = 3000;
  }
  p.header_weight = static_cast<int>(ctx.pick(3));
  p.grease = maybe(ctx, 200);
  p.zero_data = maybe(ctx, 200);
  p.trailers = maybe(ctx, 200);
  p.wide = maybe(ctx, 200);
  p.uni = maybe(ctx, 200);
  p.lazy = maybe(ctx, 200);
  p.stall = rarely(ctx, 200);
  p.big = ctx.tier == 1 ? 60 : 25;
  p.far_ids = rarely(ctx, 300);
  return p;
}

// ... and one that does anything.
PeerProfile
peer_hostile(Ctx &ctx)
{
  PeerProfile p = peer_valid(ctx);
  p.truncate = rarely(ctx, 200);
  p.forbidden = rarely(ctx, 200);
  p.lie = rarely(ctx, 200);
  p.bad_block = rarely(ctx, 200);
  p.corrupt = rarely(ctx, 200);
  p.garbage = rarely(ctx, 100);
  p.bad_control = rarely(ctx, 200);
  p.control_extra = rarely(ctx, 300);
  p.hostile_calls = rarely(ctx, 300);
  return p;
}

void
exchange(Ctx &ctx)
{
  ExchangeProfile p = exchange_base(ctx);
  p.crash = rarely(ctx, 300);
  run_exchange(ctx, p);
}

void
exchange_everything(Ctx &ctx)
{
  ExchangeProfile p = exchange_base(ctx);
  p.misuse = rarely(ctx, 150);
  p.handle_chaos = rarely(ctx, 150);
  p.drop = rarely(ctx, 100);
  p.rehandle = rarely(ctx, 150);
  p.move_conn = rarely(ctx, 100);
  p.crash = rarely(ctx, 200);
  p.alloc_fault = rarely(ctx, 200);
  run_exchange(ctx, p);
}

void
peer_everything(Ctx &ctx)
{
  PeerProfile p = peer_hostile(ctx);
  p.differential = ctx.pick(4) == 0;
  run_peer(ctx, p);
}

void
codec(Ctx &ctx, unsigned kinds, unsigned alloc_fault, unsigned damage = 300)
{
  CodecProfile p;
  p.kinds = kinds;
  p.alloc_fault = alloc_fault;
  p.damage = damage;
  p.header_weight = static_cast<int>(ctx.pick(3));
  run_codec(ctx, p);
}

void
mem(Ctx &ctx, unsigned alloc_fault)
{
  MemProfile p;
  p.alloc_fault = alloc_fault;
  if (ctx.tier == 1) {
    p.steps = 400;
    p.max_objects = 10;
  }
  run_mem(ctx, p);
}

// ------------------------------------------------------------ properties --

// C01: what was sent is what is received.
void
integrity(Ctx &ctx)
{
  switch (pick_of(ctx, { 70, 20, 10 })) {
    case 0:
      exchange(ctx);
      break;
    case 1:
      run_peer(ctx, peer_valid(ctx));
      break;
    case 2:
      exchange_everything(ctx);
      break;
  }
}

// C02: the way the bytes are cut up does not matter.
void
arrival(Ctx &ctx)
{
  switch (pick_of(ctx, { 55, 25, 20 })) {
    case 0: {
      PeerProfile p = peer_hostile(ctx);
      p.differential = true;
      run_peer(ctx, p);
      break;
    }
    case 1: {
      PeerProfile p = peer_valid(ctx);
      p.differential = true;
      run_peer(ctx, p);
      break;
    }
    case 2:
      codec(ctx, CODEC_HEADERS | CODEC_BODY | CODEC_FRAME | CODEC_QPACK, 0);
      break;
  }
}

// C03: exchanges do not disturb one another.
void
isolation(Ctx &ctx)
{
  switch (pick_of(ctx, { 60, 40 })) {
    case 0: {
      PeerProfile p = peer_valid(ctx);
      p.max_streams = ctx.tier == 1 ? 8 : 5;
      p.truncate = rarely(ctx, 250);
      p.forbidden = rarely(ctx, 250);
      p.lie = rarely(ctx, 250);
      p.bad_block = rarely(ctx, 250);
      p.corrupt = rarely(ctx, 250);
      p.garbage = rarely(ctx, 150);
      p.stall = maybe(ctx, 200);
      p.hostile_calls = rarely(ctx, 300);
      run_peer(ctx, p);
      break;
    }
    case 1: {
      ExchangeProfile p = exchange_base(ctx);
      p.max_requests = ctx.tier == 1 ? 10 : 6;
      p.drop = rarely(ctx, 200);
      p.misuse = rarely(ctx, 150);
      run_exchange(ctx, p);
      break;
    }
  }
}

// C04: everything submitted is sent, and everything sent is reported.
void
completion(Ctx &ctx)
{
  switch (pick_of(ctx, { 60, 25, 15 })) {
    case 0: {
      ExchangeProfile p = exchange_base(ctx);
      p.slow_client = maybe(ctx, 400);
      p.late_fin = ctx.pick(2) != 0 ? 800 : 300;
      p.empty_body = maybe(ctx, 200);
      run_exchange(ctx, p);
      break;
    }
    case 1:
      run_peer(ctx, peer_valid(ctx));
      break;
    case 2:
      exchange_everything(ctx);
      break;
  }
}

// C05: both directions of an exchange live independently.
void
half_close(Ctx &ctx)
{
  switch (pick_of(ctx, { 65, 25, 10 })) {
    case 0: {
      ExchangeProfile p = exchange_base(ctx);
      p.early = 700;
      p.slow_client = maybe(ctx, 500);
      p.late_fin = ctx.pick(2) != 0 ? 800 : 300;
      p.drop = rarely(ctx, 100);
      p.rehandle = rarely(ctx, 150);
      run_exchange(ctx, p);
      break;
    }
    case 1:
      run_peer(ctx, peer_valid(ctx));
      break;
    case 2:
      run_peer(ctx, peer_hostile(ctx));
      break;
  }
}

// C06: handles and moved connections.
void
handles(Ctx &ctx)
{
  if (pick_of(ctx, { 60, 40 }) == 1) {
    SendersProfile p;
    p.steps = ctx.tier == 1 ? 400 : 120;
    p.alloc_fault = rarely(ctx, 100);
    run_senders(ctx, p);
    return;
  }
  ExchangeProfile p = exchange_base(ctx);
  p.handle_chaos = maybe(ctx, 250);
  p.drop = maybe(ctx, 150);
  p.rehandle = maybe(ctx, 250);
  p.move_conn = maybe(ctx, 150);
  p.misuse = rarely(ctx, 150);
  run_exchange(ctx, p);
}

// C07: control streams and settings.
void
control(Ctx &ctx)
{
  switch (pick_of(ctx, { 80, 20 })) {
    case 0: {
      PeerProfile p = peer_valid(ctx);
      p.max_streams = 2;
      p.bad_control = maybe(ctx, 500);
      p.control_extra = maybe(ctx, 500);
      p.uni = maybe(ctx, 400);
      p.hostile_calls = rarely(ctx, 300);
      run_peer(ctx, p);
      break;
    }
    case 1:
      exchange(ctx);
      break;
  }
}

// C08: nothing a peer sends can break the endpoint.
void
hostile(Ctx &ctx)
{
  switch (pick_of(ctx, { 80, 20 })) {
    case 0: {
      PeerProfile p = peer_hostile(ctx);
      p.hostile_calls = maybe(ctx, 300);
      p.differential = ctx.pick(4) == 0;
      run_peer(ctx, p);
      break;
    }
    case 1:
      codec(ctx, 0xffff, 0, 600);
      break;
  }
}

// C09: a cut-off message is never taken for a whole one.
void
truncation(Ctx &ctx)
{
  switch (pick_of(ctx, { 70, 15, 15 })) {
    case 0: {
      PeerProfile p = peer_valid(ctx);
      p.truncate = 600;
      p.stall = maybe(ctx, 300);
      p.lie = rarely(ctx, 200);
      p.differential = ctx.pick(4) == 0;
      run_peer(ctx, p);
      break;
    }
    case 1: {
      ExchangeProfile p = exchange_base(ctx);
      p.crash = 700;
      p.drop = rarely(ctx, 200);
      run_exchange(ctx, p);
      break;
    }
    case 2:
      codec(ctx, CODEC_HEADERS | CODEC_BODY | CODEC_FRAME, 0, 500);
      break;
  }
}

// C10: what must be ignored is ignored.
void
extensions(Ctx &ctx)
{
  PeerProfile p = peer_valid(ctx);
  p.grease = 350;
  p.zero_data = maybe(ctx, 300);
  p.trailers = maybe(ctx, 300);
  p.wide = maybe(ctx, 300);
  p.uni = maybe(ctx, 400);
  p.control_extra = maybe(ctx, 500);
  p.differential = ctx.pick(4) == 0;
  run_peer(ctx, p);
}

// C11: what must not be sent is refused.
void
forbidden(Ctx &ctx)
{
  switch (pick_of(ctx, { 80, 20 })) {
    case 0: {
      PeerProfile p = peer_valid(ctx);
      p.forbidden = maybe(ctx, 500);
      p.lie = rarely(ctx, 300);
      p.bad_block = maybe(ctx, 300);
      p.bad_control = maybe(ctx, 400);
      p.control_extra = maybe(ctx, 400);
      p.garbage = rarely(ctx, 200);
      p.differential = ctx.pick(4) == 0;
      run_peer(ctx, p);
      break;
    }
    case 1:
      codec(ctx, CODEC_FRAME | CODEC_HEADERS | CODEC_BODY, 0, 600);
      break;
  }
}

// C12: the bytes produced are what the protocol asks for.
void
wire(Ctx &ctx)
{
  switch (pick_of(ctx, { 55, 15, 10, 20 })) {
    case 0:
      exchange(ctx);
      break;
    case 1:
      exchange_everything(ctx);
      break;
    case 2: {
      run_peer(ctx, peer_valid(ctx));
      break;
    }
    case 3:
      codec(ctx, CODEC_ENCODERS, rarely(ctx, 200));
      break;
  }
}

// C13: field sections survive compression.
void
compression(Ctx &ctx)
{
  switch (pick_of(ctx, { 60, 20, 20 })) {
    case 0:
      codec(ctx,
            CODEC_PREFIX_INT | CODEC_LITERAL | CODEC_HUFFMAN | CODEC_QPACK |
              CODEC_HEADERS | CODEC_ENCODERS,
            0);
      break;
    case 1: {
      ExchangeProfile p = exchange_base(ctx);
      p.max_headers = 12;
      p.max_bodies = 1;
      p.header_weight = 2;
      run_exchange(ctx, p);
      break;
    }
    case 2: {
      PeerProfile p = peer_valid(ctx);
      p.header_weight = 2;
      p.bad_block = rarely(ctx, 300);
      run_peer(ctx, p);
      break;
    }
  }
}

// C14: a decoder that cannot finish leaves everything as it was.
void
incremental(Ctx &ctx)
{
  codec(ctx, 0xff, rarely(ctx, 200));
}

// C15/C16: buffers and lookaheads.
void
buffers(Ctx &ctx)
{
  MemProfile p;
  p.steps = ctx.tier == 1 ? 400 : 120;
  p.buffers = 300;
  p.lookahead = 100;
  p.alloc_fault = rarely(ctx, 100);
  run_mem(ctx, p);
}

void
sequences(Ctx &ctx)
{
  MemProfile p;
  p.steps = ctx.tier == 1 ? 400 : 120;
  p.buffers = 700;
  p.lookahead = 400;
  p.alloc_fault = rarely(ctx, 100);
  run_mem(ctx, p);
}

// C17: a failed allocation changes nothing.
void
allocation(Ctx &ctx)
{
  switch (pick_of(ctx, { 38, 19, 25, 14, 4 })) {
    case 4: {
      SendersProfile p;
      p.alloc_fault = 300;
      run_senders(ctx, p);
      break;
    }
    case 0: {
      ExchangeProfile p = exchange_base(ctx);
      p.alloc_fault = 300;
      p.net_faults = ctx.pick(2) != 0;
      run_exchange(ctx, p);
      break;
    }
    case 1: {
      RoundsProfile p;
      p.rounds = 8;
      p.alloc_fault = 200;
      run_rounds(ctx, p);
      break;
    }
    case 2:
      codec(ctx, 0xffff, 400);
      break;
    case 3:
      mem(ctx, 150);
      break;
  }
}

// C18: what a finished exchange held is released.
void
resources(Ctx &ctx)
{
  switch (pick_of(ctx, { 50, 20, 15, 15 })) {
    case 0: {
      RoundsProfile p;
      p.rounds = ctx.tier == 1 ? 100 : 24;
      p.alloc_fault = rarely(ctx, 100);
      run_rounds(ctx, p);
      break;
    }
    case 1:
      exchange_everything(ctx);
      break;
    case 2:
      peer_everything(ctx);
      break;
    case 3:
      mem(ctx, rarely(ctx, 100));
      break;
  }
}

// C19: misuse is refused and changes nothing.
void
misuse(Ctx &ctx)
{
  switch (pick_of(ctx, { 75, 25 })) {
    case 0: {
      ExchangeProfile p = exchange_base(ctx);
      p.misuse = 350;
      p.handle_chaos = rarely(ctx, 150);
      p.drop = rarely(ctx, 150);
      p.rehandle = rarely(ctx, 250);
      run_exchange(ctx, p);
      break;
    }
    case 1:
      codec(ctx, CODEC_HEADERS | CODEC_BODY | CODEC_ENCODERS, 0, 600);
      break;
  }
}

// C20: the interop programs.
void
tools(Ctx &ctx)
{
  ToolsProfile p;
  p.hard = ctx.pick(2) != 0 ? 700 : 0;
  p.invalid = rarely(ctx, 700);
  run_tools(ctx, p);
}

// C26: logging.
void
logging(Ctx &ctx)
{
  switch (pick_of(ctx, { 70, 22, 8 })) {
    case 0:
      run_logging(ctx);
      break;
    case 1:
      run_logged(ctx, peer_everything);
      break;
    case 2:
      run_logged(ctx, exchange_everything);
      break;
  }
}

}

const std::vector<World> &
worlds()
{
  static const std::vector<World> list = {
    { "C01", "exchange integrity", integrity },
    { "C02", "arrival pattern", arrival },
    { "C03", "stream isolation", isolation },
    { "C04", "completion", completion },
    { "C05", "half close", half_close },
    { "C06", "handles", handles },
    { "C07", "control streams", control },
    { "C08", "hostile peer", hostile },
    { "C09", "truncation", truncation },
    { "C10", "extensions", extensions },
    { "C11", "forbidden input", forbidden },
    { "C12", "wire format", wire },
    { "C13", "header compression", compression },
    { "C14", "incremental decoding", incremental },
    { "C15", "buffers", buffers },
    { "C16", "byte sequences", sequences },
    { "C17", "allocation failure", allocation },
    { "C18", "resources", resources },
    { "C19", "misuse", misuse },
    { "C20", "tools", tools },
    { "C26", "logging", logging },
  };
  return list;
}

}

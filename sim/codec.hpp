// World "codec": the incremental codecs fed byte streams in arbitrary pieces
// (and losing allocations), judged at every piece by the reference codec; and
// the encoders, whose output the reference codec must read back.
#pragma once

#include "core.hpp"

namespace sim {

struct CodecProfile {
  unsigned kinds = 0xffff;   // bit set of the sub-worlds below
  unsigned alloc_fault = 0;  // permille of allocating calls that fail
  unsigned damage = 300;     // permille of streams with an invalid item
  int header_weight = 1;
};

enum codec_kind : unsigned {
  CODEC_VARINT = 1,
  CODEC_PREFIX_INT = 2,
  CODEC_LITERAL = 4,
  CODEC_HUFFMAN = 8,
  CODEC_FRAME = 16,
  CODEC_QPACK = 32,
  CODEC_HEADERS = 64,
  CODEC_BODY = 128,
  CODEC_ENCODERS = 256, // encode side only
};

void
run_codec(Ctx &ctx, const CodecProfile &profile);

}

#include "gen.hpp"

#include <cstring>

namespace sim {

std::string
random_bytes(Ctx &ctx, size_t size, int alphabet)
{
  static const char lower[] = "abcdefghijklmnopqrstuvwxyz0123456789-_:/.";
  static const char huff[] = "aaaaaaaeeeeiiiooossstt0122 \\\x01\x7f{~^|\"<\xc3\xa9\xff\x0a\x16";
  std::string s(size, 'a');
  // One choice drives a run of bytes: keeps choice sequences short.
  uint64_t state = 0;
  for (size_t i = 0; i < size; i++) {
    if (i % 16 == 0) {
      state = ctx.pick(1ULL << 32) * 0x9e3779b97f4a7c15ULL + i;
    }
    state = state * 6364136223846793005ULL + 1442695040888963407ULL;
    uint64_t r = state >> 33;
    switch (alphabet) {
      case 0:
        s[i] = lower[r % (sizeof(lower) - 1)];
        break;
      case 1:
        s[i] = static_cast<char>(32 + r % 95);
        break;
      case 2:
        s[i] = static_cast<char>(r & 0xff);
        break;
      case 3:
        s[i] = huff[r % (sizeof(huff) - 1)];
        break;
      default:
        s[i] = "aeiost012"[r % 9];
        break;
    }
  }
  return s;
}

size_t
random_size(Ctx &ctx, size_t max)
{
  static const size_t edges[] = { 0,  1,   2,   7,   8,   19,  20,   21,
                                  62, 63,  64,  65,  126, 127, 128,  129,
                                  254, 255, 256, 257, 600, 1200, 1201, 4096,
                                  16383, 16384, 16385, 20000 };
  size_t usable = 0;
  while (usable < sizeof(edges) / sizeof(edges[0]) && edges[usable] <= max) {
    usable++;
  }
  if (ctx.pick(4) < 3) {
    return ctx.pick(std::min<uint64_t>(max, 80) + 1);
  }
  return edges[ctx.pick(usable)];
}

size_t
heavy_size(Ctx &ctx, size_t max)
{
  static const size_t bases[] = { 64,   128,   256,   512,   1024,  2048,  4096,
                                  8192, 16384, 32768, 65536, 131072, 1 << 20,
                                  1 << 22, 1 << 24 };
  size_t usable = 1;
  while (usable < sizeof(bases) / sizeof(bases[0]) && bases[usable] + 1 <= max) {
    usable++;
  }
  size_t base = bases[ctx.pick(usable)];
  switch (ctx.pick(4)) {
    case 0:
      return base + 1;
    case 1:
      return base;
    case 2:
      return base - 1;
    default:
      return std::min<size_t>(max, base + ctx.pick(std::min<size_t>(base, 1 << 20)));
  }
}

uint64_t
alias_amount(Ctx &ctx)
{
  static const unsigned bits[] = { 6, 8, 14, 16, 24, 30, 31, 32, 33, 48, 61 };
  return ctx.range(1, 3) << bits[ctx.pick(10)];
}

namespace {

// XXH64 with seed 0, which the library's lookup in the static table uses.
constexpr uint64_t X1 = 0x9E3779B185EBCA87ULL;
constexpr uint64_t X2 = 0xC2B2AE3D27D4EB4FULL;
constexpr uint64_t X3 = 0x165667B19E3779F9ULL;
constexpr uint64_t X4 = 0x85EBCA77C2B2AE63ULL;
constexpr uint64_t X5 = 0x27D4EB2F165667C5ULL;

uint64_t
rotl(uint64_t v, unsigned n)
{
  return (v << n) | (v >> (64 - n));
}

uint64_t
xround(uint64_t acc, uint64_t in)
{
  return rotl(acc + in * X2, 31) * X1;
}

uint64_t
get64(const char *p)
{
  uint64_t v;
  memcpy(&v, p, 8);
  return v;
}

uint64_t
xxh64(const std::string &s)
{
  const char *p = s.data();
  const char *end = p + s.size();
  uint64_t h = X5;
  if (s.size() >= 32) {
    uint64_t v[4] = { X1 + X2, X2, 0, 0 - X1 };
    for (; end - p >= 32; p += 32) {
      for (int i = 0; i < 4; i++) {
        v[i] = xround(v[i], get64(p + 8 * i));
      }
    }
    h = rotl(v[0], 1) + rotl(v[1], 7) + rotl(v[2], 12) + rotl(v[3], 18);
    for (uint64_t lane : v) {
      h = (h ^ xround(0, lane)) * X1 + X4;
    }
  }
  h += s.size();
  for (; end - p >= 8; p += 8) {
    h = rotl(h ^ xround(0, get64(p)), 27) * X1 + X4;
  }
  if (end - p >= 4) {
    uint32_t v;
    memcpy(&v, p, 4);
    h = rotl(h ^ (v * X1), 23) * X2 + X3;
    p += 4;
  }
  for (; p != end; p++) {
    h = rotl(h ^ (static_cast<uint8_t>(*p) * X5), 11) * X1;
  }
  h = (h ^ (h >> 33)) * X2;
  h = (h ^ (h >> 29)) * X3;
  return h ^ (h >> 32);
}

uint64_t
inverse(uint64_t odd)
{
  uint64_t x = odd;
  for (int i = 0; i < 6; i++) {
    x *= 2 - odd * x;
  }
  return x;
}

uint64_t
unshift(uint64_t h, unsigned n)
{
  uint64_t x = h;
  for (unsigned i = n; i < 64; i += n) {
    x = h ^ (x >> n);
  }
  return x;
}

}

// A string of 16 printable characters without upper case ones that has the same
// XXH64 as `target`: its first half is chosen, the second one follows.
std::string
colliding(uint64_t choice, const std::string &target)
{
  static const char lower[] = "abcdefghijklmnopqrstuvwxyz0123456789-_.~";
  static const uint64_t I1 = inverse(X1);
  static const uint64_t I2 = inverse(X2);
  static const uint64_t I3 = inverse(X3);
  uint64_t h = xxh64(target);
  h = unshift(h, 32) * I3;
  h = unshift(h, 29) * I2;
  h = unshift(h, 33);
  // `h` after the last of the two rounds.
  uint64_t wanted = rotl((h - X4) * I1, 64 - 27);
  for (;; choice++) {
    char s[16];
    uint64_t state = choice * 0x9e3779b97f4a7c15ULL + 1;
    for (int i = 0; i < 8; i++) {
      state = state * 6364136223846793005ULL + 1442695040888963407ULL;
      s[i] = lower[(state >> 33) % (sizeof(lower) - 1)];
    }
    uint64_t first = rotl((X5 + 16) ^ xround(0, get64(s)), 27) * X1 + X4;
    uint64_t second = rotl((wanted ^ first) * I1, 64 - 31) * I2;
    memcpy(s + 8, &second, 8);
    bool fit = true;
    for (int i = 8; i < 16; i++) {
      fit = fit && s[i] > ' ' && s[i] < 0x7f && (s[i] < 'A' || s[i] > 'Z');
    }
    if (fit) {
      return std::string(s, 16);
    }
  }
}

ref::Header
random_header(Ctx &ctx, int weight)
{
  ref::Header h;
  if (weight != 0 && ctx.chance(25)) {
    // A field that hashes like one of the static table but is another one.
    SIM_COUNT("probe.hash_collision");
    h = ref::static_entry(ctx.pick(ref::static_size()));
    uint64_t choice = ctx.pick(1ULL << 32);
    if (ctx.pick(2) == 0) {
      h.name = colliding(choice, h.name);
    } else {
      h.value = colliding(choice, h.value);
    }
    return h;
  }
  switch (ctx.pick(weight != 0 ? 6 : 4)) {
    case 0:
      return ref::static_entry(ctx.pick(ref::static_size()));
    case 1: {
      h.name = ref::static_entry(ctx.pick(ref::static_size())).name;
      break;
    }
    case 2:
      h.name = "x-" + random_bytes(ctx, ctx.range(0, 12), 0);
      break;
    case 3:
      h.name = random_bytes(ctx, ctx.range(1, 9), 0);
      break;
    case 4:
      h.name = random_bytes(ctx, ctx.range(0, 40), 3);
      break;
    case 5:
      // A near miss of a static name.
      h.name = ref::static_entry(ctx.pick(ref::static_size())).name;
      if (ctx.pick(2) == 0) {
        h.name.push_back('a');
      } else {
        h.name.pop_back();
      }
      break;
  }
  for (char &c : h.name) {
    if (c >= 'A' && c <= 'Z') {
      c = static_cast<char>(c + 32);
    }
  }
  switch (ctx.pick(weight != 0 ? 8 : 5)) {
    case 0:
      h.value = random_bytes(ctx, ctx.range(0, 20), 1);
      break;
    case 1:
      h.value = ref::static_entry(ctx.pick(ref::static_size())).value;
      break;
    case 2:
      break;
    case 3:
      h.value = random_bytes(ctx, random_size(ctx, 300), 4);
      break;
    case 4:
      h.value = random_bytes(ctx, random_size(ctx, 130), 3);
      break;
    case 5:
      h.value = random_bytes(ctx, random_size(ctx, 600), 2);
      break;
    case 6: {
      // Mostly short codes (so that Huffman is chosen) around long ones.
      h.value = random_bytes(ctx, ctx.range(1, 40), 4);
      size_t n = ctx.range(1, 4);
      for (size_t i = 0; i < n; i++) {
        h.value.insert(ctx.pick(h.value.size() + 1),
                       1,
                       static_cast<char>(ctx.pick(256)));
      }
      h.value += random_bytes(ctx, ctx.range(0, 60), 4);
      break;
    }
    case 7:
      h.value = random_bytes(ctx, random_size(ctx, 20000), 4);
      break;
  }
  return h;
}

std::vector<ref::Header>
random_headers(Ctx &ctx, size_t max, int weight)
{
  size_t n = ctx.range(1, max);
  std::vector<ref::Header> out;
  for (size_t i = 0; i < n; i++) {
    out.push_back(random_header(ctx, weight));
  }
  return out;
}

std::string
body_bytes(uint64_t key, size_t offset, size_t size)
{
  std::string s(size, '\0');
  for (size_t i = 0; i < size; i++) {
    uint64_t p = offset + i;
    uint64_t z = (key * 1000003 + p / 8) * 0x9e3779b97f4a7c15ULL;
    z ^= z >> 29;
    s[i] = static_cast<char>((z >> (8 * (p % 8))) & 0xff);
  }
  return s;
}

std::string
section_prefix(Ctx &ctx)
{
  static const uint64_t bases[] = { 1, 2, 63, 126, 127, 128, 254, 255, 256, 16510, 1 << 20,
                                    1ULL << 32, (1ULL << 62) - 1 };
  uint64_t base = 0;
  if (ctx.chance(60)) {
    SIM_COUNT("probe.section_base");
    base = bases[ctx.pick(13)];
  }
  return std::string(1, '\0') + ref::prefix_int(base, 7);
}

std::string
dynamic_prefix(Ctx &ctx)
{
  static const uint64_t counts[] = { 1, 2, 100, 254, 255, 256, 512, 1ULL << 32 };
  SIM_COUNT("fault.dynamic_prefix");
  return ref::prefix_int(counts[ctx.pick(8)], 8) + ref::prefix_int(ctx.pick(3), 7);
}

ref::FieldOptions
random_field_options(Ctx &ctx)
{
  ref::FieldOptions o;
  o.allow_indexed = ctx.pick(4) != 3;
  o.allow_name_ref = ctx.pick(4) != 3;
  o.name_huffman = ctx.pick(2) != 0;
  o.value_huffman = ctx.pick(2) != 0;
  o.never_index = ctx.pick(8) == 7;
  o.index_choice = ctx.pick(8);
  return o;
}

std::string
hex(const std::string &s, size_t max)
{
  std::string out;
  char b[4];
  for (size_t i = 0; i < s.size() && i < max; i++) {
    snprintf(b, sizeof(b), "%02x", static_cast<uint8_t>(s[i]));
    out += b;
  }
  if (s.size() > max) {
    out += "...";
  }
  return out;
}

}

// Cryptographic stand-ins (keyed mixing functions, not cryptography) and the
// QUIC key derivation, written from the specification and used as the oracle.
#pragma once

#include <cstddef>
#include <cstdint>
#include <string>
#include <vector>

namespace prim {

using bytes = std::string;

// Pseudo-random function: `size` bytes that depend on every part.  A longer
// output has a shorter one as its prefix.
bytes
prf(const char *label, const std::vector<bytes> &parts, size_t size);

enum class aead { aes128, aes256, chacha };

inline size_t
key_size(aead a)
{
  return a == aead::aes128 ? 16 : 32;
}

bytes
hkdf_extract(size_t hash, const bytes &salt, const bytes &ikm);
bytes
hkdf_expand(size_t hash, const bytes &prk, const bytes &info, size_t size);
// RFC 8446 section 7.1, empty context.
bytes
expand_label(size_t hash, const bytes &secret, const bytes &label, size_t size);

bytes
seal(aead a, const bytes &key, const bytes &nonce, const bytes &ad, const bytes &plain);
bool
open(aead a,
     const bytes &key,
     const bytes &nonce,
     const bytes &ad,
     const bytes &sealed,
     bytes &plain);
bytes
aes_block(const bytes &key, const bytes &block);
bytes
chacha_stream(const bytes &key, const bytes &nonce, uint32_t counter, size_t size);
// The five mask bytes for header protection.
bytes
hp_mask(aead a, const bytes &key, const bytes &sample);

struct Keys {
  bool have = false;
  bytes key, iv, hp;
};

// A negotiated cipher suite.
struct Suite {
  uint32_t id = 0x03001301U;
  aead a = aead::aes128;
  size_t hash = 32;
};
Suite
suite(unsigned index); // 0..2

Keys
packet_keys(const Suite &s, const bytes &secret);
bytes
next_secret(const Suite &s, const bytes &secret);
bytes
initial_secret(const bytes &dcid, bool client);

// EVP_AEAD contexts alive.
extern size_t contexts;

}

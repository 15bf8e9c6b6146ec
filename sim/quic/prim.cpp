#include "prim.hpp"

#include <openssl/base.h>

#include "core.hpp"

namespace prim {

namespace {

struct Mix {
  uint64_t a = 0x9ae16a3b2f90404fULL;
  uint64_t b = 0xc3a5c85c97cb3127ULL;

  void word(uint64_t v)
  {
    a = (a ^ v) * 0xff51afd7ed558ccdULL;
    a ^= a >> 32;
    b = (b + v) * 0xc4ceb9fe1a85ec53ULL;
    b ^= b >> 29;
    b += a;
  }

  void add(const char *data, size_t size)
  {
    word(size);
    size_t i = 0;
    for (; i + 8 <= size; i += 8) {
      uint64_t v = 0;
      memcpy(&v, data + i, 8);
      word(v);
    }
    uint64_t v = 0;
    memcpy(&v, data + i, size - i);
    word(v);
  }

  bytes out(size_t size) const
  {
    bytes r(size, '\0');
    for (size_t i = 0; i < size; i += 8) {
      uint64_t z = a + (i / 8 + 1) * 0x9e3779b97f4a7c15ULL;
      z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
      z = (z ^ (z >> 27) ^ b) * 0x94d049bb133111ebULL;
      z ^= z >> 31;
      memcpy(&r[i], &z, size - i < 8 ? size - i : 8);
    }
    return r;
  }
};

const char *
name(aead a)
{
  switch (a) {
    case aead::aes128:
      return "aead-aes128";
    case aead::aes256:
      return "aead-aes256";
    default:
      return "aead-chacha";
  }
}

bytes
xored(const bytes &in, const bytes &stream)
{
  bytes r = in;
  for (size_t i = 0; i < r.size(); i++) {
    r[i] = static_cast<char>(r[i] ^ stream[i]);
  }
  return r;
}

}

bytes
prf(const char *label, const std::vector<bytes> &parts, size_t size)
{
  Mix m;
  m.add(label, strlen(label));
  for (const bytes &p : parts) {
    m.add(p.data(), p.size());
  }
  return m.out(size);
}

bytes
hkdf_extract(size_t hash, const bytes &salt, const bytes &ikm)
{
  return prf(hash == 32 ? "extract256" : "extract384", { salt, ikm }, hash);
}

bytes
hkdf_expand(size_t hash, const bytes &prk, const bytes &info, size_t size)
{
  return prf(hash == 32 ? "expand256" : "expand384", { prk, info }, size);
}

bytes
expand_label(size_t hash, const bytes &secret, const bytes &label, size_t size)
{
  bytes info;
  info.push_back(static_cast<char>(size >> 8U));
  info.push_back(static_cast<char>(size & 0xffU));
  info.push_back(static_cast<char>(label.size() + 6));
  info += "tls13 " + label;
  info.push_back('\0');
  return hkdf_expand(hash, secret, info, size);
}

bytes
seal(aead a, const bytes &key, const bytes &nonce, const bytes &ad, const bytes &plain)
{
  bytes c = xored(plain, prf(name(a), { key, nonce }, plain.size()));
  return c + prf("tag", { name(a), key, nonce, ad, c }, 16);
}

bool
open(aead a,
     const bytes &key,
     const bytes &nonce,
     const bytes &ad,
     const bytes &sealed,
     bytes &plain)
{
  if (sealed.size() < 16) {
    return false;
  }
  bytes c = sealed.substr(0, sealed.size() - 16);
  if (prf("tag", { name(a), key, nonce, ad, c }, 16) != sealed.substr(c.size())) {
    return false;
  }
  plain = xored(c, prf(name(a), { key, nonce }, c.size()));
  return true;
}

bytes
aes_block(const bytes &key, const bytes &block)
{
  return prf("aes", { key, block }, 16);
}

bytes
chacha_stream(const bytes &key, const bytes &nonce, uint32_t counter, size_t size)
{
  bytes n(reinterpret_cast<const char *>(&counter), 4);
  return prf("chacha", { key, nonce, n }, size);
}

bytes
hp_mask(aead a, const bytes &key, const bytes &sample)
{
  if (a != aead::chacha) {
    return aes_block(key, sample).substr(0, 5);
  }
  uint32_t counter = 0;
  for (unsigned i = 0; i < 4; i++) {
    counter |= static_cast<uint32_t>(static_cast<uint8_t>(sample[i])) << (8 * i);
  }
  return chacha_stream(key, sample.substr(4, 12), counter, 5);
}

Suite
suite(unsigned index)
{
  switch (index) {
    case 0:
      return { 0x03001301U, aead::aes128, 32 };
    case 1:
      return { 0x03001302U, aead::aes256, 48 };
    default:
      return { 0x03001303U, aead::chacha, 32 };
  }
}

Keys
packet_keys(const Suite &s, const bytes &secret)
{
  Keys k;
  k.have = true;
  k.key = expand_label(s.hash, secret, "quic key", key_size(s.a));
  k.iv = expand_label(s.hash, secret, "quic iv", 12);
  k.hp = expand_label(s.hash, secret, "quic hp", key_size(s.a));
  return k;
}

bytes
next_secret(const Suite &s, const bytes &secret)
{
  return expand_label(s.hash, secret, "traffic upd", secret.size());
}

bytes
initial_secret(const bytes &dcid, bool client)
{
  static const bytes SALT("\xc3\xee\xf7\x12\xc7\x2e\xbb\x5a\x11\xa7\xd2\x43\x2b\xb4\x63\x65"
                          "\xbe\xf9\xf5\x02",
                          20);
  bytes initial = hkdf_extract(32, SALT, dcid);
  return expand_label(32, initial, client ? "client in" : "server in", 32);
}

}

// ------------------------------------------------------- the C functions --

using prim::bytes;

namespace {

bytes
view(const uint8_t *data, size_t size)
{
  return bytes(reinterpret_cast<const char *>(data), size);
}

struct Outside {
  bool in = sim::alloc.in_lib;
  Outside() { sim::alloc.in_lib = false; }
  ~Outside() { sim::alloc.in_lib = in; }
};

}

struct evp_aead_st {
  prim::aead a;
};

struct evp_aead_ctx_st {
  prim::aead a;
  bytes key;
};

struct env_md_st {
  size_t size;
};

namespace prim {
size_t contexts = 0;
}

extern "C" {

const EVP_AEAD *
EVP_aead_aes_128_gcm(void)
{
  static const evp_aead_st a{ prim::aead::aes128 };
  return &a;
}

const EVP_AEAD *
EVP_aead_aes_256_gcm(void)
{
  static const evp_aead_st a{ prim::aead::aes256 };
  return &a;
}

const EVP_AEAD *
EVP_aead_chacha20_poly1305(void)
{
  static const evp_aead_st a{ prim::aead::chacha };
  return &a;
}

size_t
EVP_AEAD_max_overhead(const EVP_AEAD *aead)
{
  (void) aead;
  return 16;
}

EVP_AEAD_CTX *
EVP_AEAD_CTX_new(const EVP_AEAD *aead, const uint8_t *key, size_t key_len, size_t tag_len)
{
  Outside outside;
  if (key_len != prim::key_size(aead->a) || tag_len > 16) {
    return nullptr;
  }
  prim::contexts++;
  return new evp_aead_ctx_st{ aead->a, view(key, key_len) };
}

void
EVP_AEAD_CTX_free(EVP_AEAD_CTX *ctx)
{
  Outside outside;
  if (ctx != nullptr) {
    prim::contexts--;
    delete ctx;
  }
}

int
EVP_AEAD_CTX_seal(const EVP_AEAD_CTX *ctx,
                  uint8_t *out,
                  size_t *out_len,
                  size_t max_out_len,
                  const uint8_t *nonce,
                  size_t nonce_len,
                  const uint8_t *in,
                  size_t in_len,
                  const uint8_t *ad,
                  size_t ad_len)
{
  Outside outside;
  if (nonce_len != 12 || max_out_len < in_len + 16) {
    *out_len = 0;
    memset(out, 0, max_out_len);
    return 0;
  }
  bytes sealed =
    prim::seal(ctx->a, ctx->key, view(nonce, nonce_len), view(ad, ad_len), view(in, in_len));
  memcpy(out, sealed.data(), sealed.size());
  *out_len = sealed.size();
  return 1;
}

int
EVP_AEAD_CTX_open(const EVP_AEAD_CTX *ctx,
                  uint8_t *out,
                  size_t *out_len,
                  size_t max_out_len,
                  const uint8_t *nonce,
                  size_t nonce_len,
                  const uint8_t *in,
                  size_t in_len,
                  const uint8_t *ad,
                  size_t ad_len)
{
  Outside outside;
  bytes plain;
  if (nonce_len != 12 ||
      !prim::open(ctx->a,
                  ctx->key,
                  view(nonce, nonce_len),
                  view(ad, ad_len),
                  view(in, in_len),
                  plain) ||
      plain.size() > max_out_len) {
    *out_len = 0;
    memset(out, 0, max_out_len);
    return 0;
  }
  memcpy(out, plain.data(), plain.size());
  *out_len = plain.size();
  return 1;
}

const EVP_MD *
EVP_sha256(void)
{
  static const env_md_st m{ 32 };
  return &m;
}

const EVP_MD *
EVP_sha384(void)
{
  static const env_md_st m{ 48 };
  return &m;
}

int
HKDF_extract(uint8_t *out_key,
             size_t *out_len,
             const EVP_MD *digest,
             const uint8_t *secret,
             size_t secret_len,
             const uint8_t *salt,
             size_t salt_len)
{
  Outside outside;
  bytes prk =
    prim::hkdf_extract(digest->size, view(salt, salt_len), view(secret, secret_len));
  memcpy(out_key, prk.data(), prk.size());
  *out_len = prk.size();
  return 1;
}

int
HKDF_expand(uint8_t *out_key,
            size_t out_len,
            const EVP_MD *digest,
            const uint8_t *prk,
            size_t prk_len,
            const uint8_t *info,
            size_t info_len)
{
  Outside outside;
  if (out_len > 255 * digest->size) {
    return 0;
  }
  bytes okm =
    prim::hkdf_expand(digest->size, view(prk, prk_len), view(info, info_len), out_len);
  memcpy(out_key, okm.data(), okm.size());
  return 1;
}

int
AES_set_encrypt_key(const uint8_t *key, unsigned bits, AES_KEY *aeskey)
{
  if (key == nullptr || aeskey == nullptr) {
    return -1;
  }
  if (bits != 128 && bits != 192 && bits != 256) {
    return -2;
  }
  memcpy(aeskey->rd_key, key, bits / 8);
  aeskey->rounds = bits;
  return 0;
}

void
AES_ecb_encrypt(const uint8_t *in, uint8_t *out, const AES_KEY *key, const int enc)
{
  Outside outside;
  (void) enc;
  bytes block =
    prim::aes_block(view(reinterpret_cast<const uint8_t *>(key->rd_key), key->rounds / 8),
                    view(in, 16));
  memcpy(out, block.data(), 16);
}

void
CRYPTO_chacha_20(uint8_t *out,
                 const uint8_t *in,
                 size_t in_len,
                 const uint8_t key[32],
                 const uint8_t nonce[12],
                 uint32_t counter)
{
  Outside outside;
  bytes stream = prim::chacha_stream(view(key, 32), view(nonce, 12), counter, in_len);
  for (size_t i = 0; i < in_len; i++) {
    out[i] = static_cast<uint8_t>(in[i] ^ static_cast<uint8_t>(stream[i]));
  }
}
}

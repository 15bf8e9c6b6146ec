// The ngtcp2 API on top of the simulated transport.  Besides doing the
// transport's work it checks, at every call, what the library below the client
// may rely on: keys, nonces and sizes, time, path, lifetimes.
#include "stack.hpp"

#include "gen.hpp"

#include <ngtcp2/ngtcp2.h>

#include <cstring>
#include <memory>

namespace qsim {

uint64_t now = 0;
uint64_t entered = 0;
sim::Ctx *current = nullptr;
Truth truth;
Observer *observer = nullptr;
Engine *client = nullptr;

void
reset_stack(sim::Ctx &ctx)
{
  now = 0;
  entered = 0;
  current = &ctx;
  truth = Truth();
  observer = nullptr;
  client = nullptr;
  tls = TlsState();
  broken = Broken();
  prim::contexts = 0;
}

const char *
error_text(int code)
{
  switch (code) {
    case NGTCP2_ERR_DRAINING:
      return "ERR_DRAINING";
    case NGTCP2_ERR_CRYPTO:
      return "ERR_CRYPTO {}";
    case NGTCP2_ERR_TLS_DECRYPT:
      return "ERR_TLS_DECRYPT";
    case NGTCP2_ERR_CALLBACK_FAILURE:
      return "ERR_CALLBACK_FAILURE";
    case NGTCP2_ERR_STREAM_SHUT_WR:
      return "ERR_STREAM_SHUT_WR";
    case NGTCP2_ERR_STREAM_NOT_FOUND:
      return "ERR_STREAM_NOT_FOUND";
    default:
      return "ERR {}";
  }
}

}

using namespace qsim;

namespace {

bytes
bytes_of(const uint8_t *data, size_t size)
{
  return data == nullptr ? bytes() : bytes(reinterpret_cast<const char *>(data), size);
}

const uint8_t *
raw(const bytes &b)
{
  return reinterpret_cast<const uint8_t *>(b.data());
}

// A copy of exactly the right size on the heap, gone after the call.
struct Heap {
  explicit Heap(const bytes &b)
    : p(new uint8_t[b.size()])
  {
    memcpy(p.get(), b.data(), b.size());
  }
  std::unique_ptr<uint8_t[]> p;
};

}

struct ngtcp2_conn final : qsim::Engine {
  ngtcp2_conn(sim::Ctx &ctx, const ngtcp2_conn_callbacks &c, const ngtcp2_settings &s, void *u)
    : Engine(ctx, false)
    , cb(c)
    , settings(s)
    , user(u)
  {
    cfg = truth.cfg;
    local.stream_bidi_local = s.max_stream_data_bidi_local;
    local.stream_bidi_remote = s.max_stream_data_bidi_remote;
    local.stream_uni = s.max_stream_data_uni;
    local.data = s.max_data;
    local.streams_bidi = s.max_streams_bidi;
    local.streams_uni = s.max_streams_uni;
    local.idle_timeout = s.idle_timeout;
    local.max_packet_size = s.max_packet_size;
    local.ack_delay_exponent = s.ack_delay_exponent;
    local.max_ack_delay = s.max_ack_delay;
    local.disable_migration = s.disable_migration != 0;
  }

  ngtcp2_conn_callbacks cb;
  ngtcp2_settings settings;
  void *user;
  ngtcp2_cid dcid_struct = {};
  size_t overhead = 0;
  bool tls_done = false;  // the client says the handshake is complete
  bool have_remote = false;
  unsigned generation = 0; // key updates prepared
  bytes tx_secret, rx_secret;
  std::set<bytes> cids;

  prim::aead kind(int level) const
  {
    return level == INITIAL ? prim::aead::aes128 : tls.secrets.suite.a;
  }

  static int failed(const char *what, ssize_t rv)
  {
    (void) what;
    return rv == NGTCP2_ERR_CRYPTO ? NGTCP2_ERR_CRYPTO : NGTCP2_ERR_CALLBACK_FAILURE;
  }

  int do_seal(int level,
              uint8_t *buffer,
              size_t room,
              size_t size,
              const prim::Keys &k,
              const bytes &nonce,
              const bytes &ad) override
  {
    if (level != INITIAL && overhead != 16) {
      breach("aead-overhead", "level %d packet written while the AEAD overhead is %zu, not 16", level, overhead);
      return NGTCP2_ERR_CALLBACK_FAILURE;
    }
    bytes plain = bytes_of(buffer, size);
    bytes want = prim::seal(kind(level), k.key, nonce, ad, plain);
    Heap key(k.key);
    Heap n(nonce);
    Heap a(ad);
    ssize_t rv = 0;
    {
      Inside inside;
      rv = (level == INITIAL ? cb.in_encrypt : cb.encrypt)(this,
                                                          buffer,
                                                          room,
                                                          buffer,
                                                          size,
                                                          key.p.get(),
                                                          k.key.size(),
                                                          n.p.get(),
                                                          nonce.size(),
                                                          a.p.get(),
                                                          ad.size(),
                                                          user);
    }
    if (rv < 0) {
      breach("encrypt-failed", "level %d: encrypting a packet failed (%zd)", level, rv);
      return NGTCP2_ERR_CALLBACK_FAILURE;
    }
    if (static_cast<size_t>(rv) != want.size() || bytes_of(buffer, want.size()) != want) {
      breach("wrong-ciphertext", "level %d: a packet was not sealed with the connection's keys", level);
    }
    return 0;
  }

  ssize_t do_open(int level,
                  const bytes &sealed,
                  const prim::Keys &k,
                  const bytes &nonce,
                  const bytes &ad,
                  bytes &plain) override
  {
    bytes want;
    bool good = prim::open(kind(level), k.key, nonce, ad, sealed, want);
    std::unique_ptr<uint8_t[]> out(new uint8_t[sealed.size()]);
    Heap in(sealed);
    Heap key(k.key);
    Heap n(nonce);
    Heap a(ad);
    ssize_t rv = 0;
    {
      Inside inside;
      rv = (level == INITIAL ? cb.in_decrypt : cb.decrypt)(this,
                                                          out.get(),
                                                          sealed.size(),
                                                          in.p.get(),
                                                          sealed.size(),
                                                          key.p.get(),
                                                          k.key.size(),
                                                          n.p.get(),
                                                          nonce.size(),
                                                          a.p.get(),
                                                          ad.size(),
                                                          user);
    }
    if (!good) {
      SIM_COUNT("fault.unauthenticated_packet");
      if (rv >= 0) {
        breach("forged-packet-accepted", "level %d: a packet that does not authenticate was decrypted", level);
        return NGTCP2_ERR_TLS_DECRYPT;
      }
      // ngtcp2: anything but TLS_DECRYPT is fatal to the connection.
      return rv == NGTCP2_ERR_TLS_DECRYPT ? rv : NGTCP2_ERR_CALLBACK_FAILURE;
    }
    if (rv < 0) {
      breach("valid-packet-refused", "level %d: a valid packet could not be decrypted (%zd)", level, rv);
      return NGTCP2_ERR_TLS_DECRYPT;
    }
    if (static_cast<size_t>(rv) != want.size() || bytes_of(out.get(), want.size()) != want) {
      breach("wrong-plaintext", "level %d: a packet decrypted to something else", level);
    }
    plain = bytes_of(out.get(), static_cast<size_t>(rv));
    return rv;
  }

  int do_mask(int level, const prim::Keys &k, const bytes &sample, uint8_t *mask) override
  {
    bytes want = prim::hp_mask(kind(level), k.hp, sample);
    Heap key(k.hp);
    Heap s(sample);
    std::unique_ptr<uint8_t[]> out(new uint8_t[sample.size()]);
    memset(out.get(), 0, sample.size());
    ssize_t rv = 0;
    {
      Inside inside;
      rv = (level == INITIAL ? cb.in_hp_mask : cb.hp_mask)(
        this, out.get(), sample.size(), key.p.get(), k.hp.size(), s.p.get(), sample.size(), user);
    }
    if (rv < 0) {
      breach("mask-failed", "level %d: no header protection mask (%zd)", level, rv);
      return NGTCP2_ERR_CALLBACK_FAILURE;
    }
    if (rv < 5 || bytes_of(out.get(), 5) != want.substr(0, 5)) {
      breach("wrong-mask", "level %d: the header protection mask is not the specification's", level);
    }
    memcpy(mask, out.get(), 5);
    return 0;
  }

  int on_start() override
  {
    int rv = 0;
    {
      Inside inside;
      rv = cb.client_initial(this, user);
    }
    if (rv != 0) {
      return failed("client_initial", rv);
    }
    if (!space[INITIAL].tx.have || !space[INITIAL].rx.have) {
      breach("no-initial-keys", "the handshake began without initial keys");
      return NGTCP2_ERR_NOKEY;
    }
    if (space[INITIAL].crypto_total == 0) {
      breach("no-client-hello", "the handshake began without a ClientHello");
    }
    return 0;
  }

  static ngtcp2_crypto_level to_level(int level)
  {
    return level == INITIAL ? NGTCP2_CRYPTO_LEVEL_INITIAL
           : level == HANDSHAKE ? NGTCP2_CRYPTO_LEVEL_HANDSHAKE
                                : NGTCP2_CRYPTO_LEVEL_APP;
  }

  int on_crypto(int level, uint64_t off, const bytes &data) override
  {
    Heap in(data);
    int rv = 0;
    {
      Inside inside;
      rv = cb.recv_crypto_data(this, to_level(level), off, in.p.get(), data.size(), user);
    }
    return rv == 0 ? 0 : failed("recv_crypto_data", rv);
  }

  int on_crypto_acked(int level, uint64_t off, uint64_t n) override
  {
    int rv = 0;
    {
      Inside inside;
      rv = cb.acked_crypto_offset(this, to_level(level), off, n, user);
    }
    if (rv != 0) {
      breach("ack-refused", "level %d: the acknowledgement of %llu crypto bytes was refused", level,
             static_cast<unsigned long long>(n));
      return NGTCP2_ERR_CALLBACK_FAILURE;
    }
    return 0;
  }

  int on_data(int64_t id, bool fin, uint64_t off, const bytes &data) override
  {
    Heap in(data);
    int rv = 0;
    {
      Inside inside;
      rv = cb.recv_stream_data(
        this, id, fin ? 1 : 0, off, in.p.get(), data.size(), user, nullptr);
    }
    return rv == 0 ? 0 : failed("recv_stream_data", rv);
  }

  int on_acked(int64_t id, uint64_t off, uint64_t n) override
  {
    int rv = 0;
    {
      Inside inside;
      rv = cb.acked_stream_data_offset(this, id, off, n, user, nullptr);
    }
    if (rv != 0) {
      breach("ack-refused",
             "stream %lld: the acknowledgement of %llu bytes at %llu was refused",
             static_cast<long long>(id),
             static_cast<unsigned long long>(n),
             static_cast<unsigned long long>(off));
      return NGTCP2_ERR_CALLBACK_FAILURE;
    }
    return 0;
  }

  int on_open(int64_t id) override
  {
    Inside inside;
    return cb.stream_open != nullptr ? cb.stream_open(this, id, user) : 0;
  }

  int on_close(int64_t id, uint64_t error) override
  {
    Inside inside;
    return cb.stream_close != nullptr ? cb.stream_close(this, id, error, user, nullptr) : 0;
  }

  int on_reset(int64_t id, uint64_t final_size, uint64_t error) override
  {
    Inside inside;
    return cb.stream_reset != nullptr ? cb.stream_reset(this, id, final_size, error, user, nullptr)
                                      : 0;
  }

  int on_streams(bool bidi, uint64_t max) override
  {
    Inside inside;
    auto f = bidi ? cb.extend_max_local_streams_bidi : cb.extend_max_local_streams_uni;
    return f != nullptr ? f(this, max, user) : 0;
  }

  int on_stream_limit(int64_t id, uint64_t max) override
  {
    Inside inside;
    return cb.extend_max_stream_data != nullptr
             ? cb.extend_max_stream_data(this, id, max, user, nullptr)
             : 0;
  }

  int on_update_key() override
  {
    generation++;
    tx_secret = prim::next_secret(tls.secrets.suite, tx_secret);
    rx_secret = prim::next_secret(tls.secrets.suite, rx_secret);
    int rv = 0;
    {
      Inside inside;
      rv = cb.update_key(this, user);
    }
    if (rv != 0) {
      breach("key-update-failed", "key update %u: the next keys could not be made", generation);
      return NGTCP2_ERR_CALLBACK_FAILURE;
    }
    if (!next_tx.have || !next_rx.have) {
      breach("key-update-incomplete", "key update %u: the next keys were not installed", generation);
      return NGTCP2_ERR_CALLBACK_FAILURE;
    }
    return 0;
  }

  void on_log(const bytes &text) override
  {
    if (settings.log_printf != nullptr) {
      Inside inside;
      settings.log_printf(user, "I%08llu %s", static_cast<unsigned long long>(now / MS), text.c_str());
    }
  }

  void on_packet_written() override
  {
    maybe_complete();
    if (settings.log_printf != nullptr && ctx_.chance(20)) {
      on_log(ctx_.chance(200) ? bytes(1500, '{') : "pkt tx {} %s {0}");
    }
  }

  // The handshake is over for the transport once TLS says so and everything
  // TLS had to send has been sent.
  int maybe_complete()
  {
    if (completed || !tls_done || !have_remote || completing_ ||
        space[HANDSHAKE].crypto_next < space[HANDSHAKE].crypto_total) {
      return 0;
    }
    completing_ = true;
    if (!space[APP].tx.have || !space[APP].rx.have) {
      breach("no-application-keys", "the handshake completed without application keys");
      return NGTCP2_ERR_NOKEY;
    }
    completed = true;
    SIM_COUNT("probe.handshake_completed");
    int rv = 0;
    {
      Inside inside;
      rv = cb.handshake_completed != nullptr ? cb.handshake_completed(this, user) : 0;
    }
    if (rv == 0 && remote.streams_bidi > 0) {
      rv = on_streams(true, remote.streams_bidi);
    }
    if (rv == 0 && remote.streams_uni > 0) {
      rv = on_streams(false, remote.streams_uni);
    }
    tx_secret = tls.secrets.c_ap;
    rx_secret = tls.secrets.s_ap;
    if (rv == 0) {
      rv = on_update_key();
    }
    for (unsigned i = 0; rv == 0 && i < 3; i++) {
      rv = new_cid();
    }
    if (rv == 0) {
      rv = various();
    }
    if (rv != 0) {
      breach("handshake-completion-failed", "a callback made as the handshake completed failed (%d)", rv);
    }
    return rv;
  }

  int new_cid()
  {
    std::unique_ptr<ngtcp2_cid> cid(new ngtcp2_cid());
    std::unique_ptr<uint8_t[]> token(new uint8_t[NGTCP2_STATELESS_RESET_TOKENLEN]());
    size_t size = ctx_.range(4, 20);
    int rv = 0;
    {
      Inside inside;
      rv = cb.get_new_connection_id(this, cid.get(), token.get(), size, user);
    }
    if (rv != 0) {
      return rv;
    }
    if (cid->datalen != size) {
      breach("connection-id", "asked for a connection id of %zu bytes, got %zu", size, cid->datalen);
      return 0;
    }
    bytes id = bytes_of(cid->data, size);
    bytes t = bytes_of(token.get(), NGTCP2_STATELESS_RESET_TOKENLEN);
    // Four bytes may collide by chance; more do not.
    bool fresh = cids.insert(id).second || size < 8;
    fresh = cids.insert(t).second && fresh;
    if (!fresh || t == bytes(t.size(), t[0]) || id == bytes(size, id[0])) {
      breach("connection-id", "a connection id or reset token is not fresh");
    }
    if (ctx_.chance(300)) {
      Inside inside;
      rv = cb.remove_connection_id != nullptr ? cb.remove_connection_id(this, cid.get(), user) : 0;
    }
    return rv;
  }

  // The rarely used callbacks.
  int various()
  {
    if (ctx_.chance(500)) {
      std::unique_ptr<uint8_t[]> data(new uint8_t[NGTCP2_PATH_CHALLENGE_DATALEN]());
      bytes first;
      for (int i = 0; i < 2; i++) {
        Inside inside;
        int rv = cb.rand(this,
                         data.get(),
                         NGTCP2_PATH_CHALLENGE_DATALEN,
                         NGTCP2_RAND_CTX_PATH_CHALLENGE,
                         user);
        if (rv != 0) {
          return rv;
        }
        Outside outside;
        bytes d = bytes_of(data.get(), NGTCP2_PATH_CHALLENGE_DATALEN);
        if (d == first || d == bytes(8, d[0])) {
          breach("path-challenge", "a path challenge is not random");
        }
        first = d;
      }
    }
    if (ctx_.chance(500)) {
      ngtcp2_path_storage ps = {};
      ngtcp2_path_storage_init(&ps,
                               truth.local.data(),
                               truth.local.size(),
                               nullptr,
                               truth.peer.data(),
                               truth.peer.size(),
                               nullptr);
      Inside inside;
      int rv = cb.path_validation(this, &ps.path, NGTCP2_PATH_VALIDATION_RESULT_SUCCESS, user);
      if (rv != 0) {
        return rv;
      }
    }
    if (ctx_.chance(500)) {
      ngtcp2_preferred_addr preferred = {};
      bytes v4 = sim::random_bytes(ctx_, 4, 4);
      bytes v6 = sim::random_bytes(ctx_, 16, 4);
      memcpy(preferred.ipv4_addr, v4.data(), 4);
      memcpy(preferred.ipv6_addr, v6.data(), 16);
      preferred.ipv4_port = 443;
      preferred.ipv6_port = 443;
      const bytes &want = truth.local.size() == 4 ? v4 : v6;
      std::unique_ptr<uint8_t[]> out(new uint8_t[want.size()]());
      ngtcp2_addr dest = {};
      dest.addr = out.get();
      dest.addrlen = want.size();
      int rv = 0;
      {
        Inside inside;
        rv = cb.select_preferred_addr(this, &dest, &preferred, user);
      }
      if (rv != 0) {
        return rv;
      }
      if (bytes_of(out.get(), want.size()) != want) {
        breach("preferred-address", "not the server's preferred address of the local family");
      }
    }
    return 0;
  }

  prim::Keys expected(int level, bool tx)
  {
    if (level == INITIAL) {
      return prim::packet_keys(prim::suite(0), prim::initial_secret(dcid, tx));
    }
    const Secrets &s = tls.secrets;
    const bytes &secret = level == HANDSHAKE ? (tx ? s.c_hs : s.s_hs) : (tx ? s.c_ap : s.s_ap);
    return prim::packet_keys(s.suite, secret);
  }

  int install(int level,
              bool tx,
              const uint8_t *key,
              size_t keylen,
              const uint8_t *iv,
              size_t ivlen,
              const uint8_t *hp,
              size_t hplen)
  {
    prim::Keys k;
    k.have = true;
    k.key = bytes_of(key, keylen);
    k.iv = bytes_of(iv, ivlen);
    k.hp = bytes_of(hp, hplen);
    prim::Keys want = expected(level, tx);
    if (k.key != want.key || k.iv != want.iv || k.hp != want.hp) {
      breach("wrong-key",
             "level %d %s keys are not the ones the specification derives (%s)",
             level,
             tx ? "tx" : "rx",
             k.key != want.key  ? "key"
             : k.iv != want.iv ? "iv"
                               : "hp");
    }
    (tx ? space[level].tx : space[level].rx) = k;
    return 0;
  }

  int update(bool tx, const uint8_t *key, size_t keylen, const uint8_t *iv, size_t ivlen)
  {
    prim::Keys k;
    k.have = true;
    k.key = bytes_of(key, keylen);
    k.iv = bytes_of(iv, ivlen);
    prim::Keys want = prim::packet_keys(tls.secrets.suite, tx ? tx_secret : rx_secret);
    if (k.key != want.key || k.iv != want.iv) {
      breach("wrong-key",
             "key update %u: the %s keys are not the ones the specification derives",
             generation,
             tx ? "tx" : "rx");
    }
    prepared(tx ? k : prim::Keys(), tx ? prim::Keys() : k);
    return 0;
  }

  void check_time(uint64_t ts, const char *where)
  {
    uint64_t lo = entered / US * US;
    uint64_t hi = now / US * US;
    if (ts < lo || ts > hi) {
      breach("wrong-time",
             "%s: told it is %llu ns, it is %llu ns",
             where,
             static_cast<unsigned long long>(ts),
             static_cast<unsigned long long>(now));
    }
  }

  static void check_path(const ngtcp2_path *path, const char *where)
  {
    bytes l = bytes_of(path->local.addr, path->local.addrlen);
    bytes r = bytes_of(path->remote.addr, path->remote.addrlen);
    if (l != truth.local || r != truth.peer) {
      breach("wrong-path", "%s: the %s address is not the connection's", where, l != truth.local ? "local" : "peer");
    }
  }

private:
  bool completing_ = false;
};

extern "C" {

void
ngtcp2_settings_default(ngtcp2_settings *settings)
{
  memset(settings, 0, sizeof(*settings));
  settings->max_packet_size = 65527;
  settings->ack_delay_exponent = 3;
  settings->max_ack_delay = 25;
}

void
ngtcp2_path_storage_init(ngtcp2_path_storage *ps,
                         const void *local_addr,
                         size_t local_addrlen,
                         void *local_user_data,
                         const void *remote_addr,
                         size_t remote_addrlen,
                         void *remote_user_data)
{
  ps->path.local.addr = ps->local_addrbuf;
  ps->path.remote.addr = ps->remote_addrbuf;
  memcpy(ps->local_addrbuf, local_addr, local_addrlen);
  memcpy(ps->remote_addrbuf, remote_addr, remote_addrlen);
  ps->path.local.addrlen = local_addrlen;
  ps->path.remote.addrlen = remote_addrlen;
  ps->path.local.user_data = local_user_data;
  ps->path.remote.user_data = remote_user_data;
}

const char *
ngtcp2_strerror(int liberr)
{
  return error_text(liberr);
}

int
ngtcp2_err_is_fatal(int liberr)
{
  return liberr < NGTCP2_ERR_FATAL ? 1 : 0;
}

int
ngtcp2_conn_client_new(ngtcp2_conn **pconn,
                       const ngtcp2_cid *dcid,
                       const ngtcp2_cid *scid,
                       const ngtcp2_path *path,
                       uint32_t version,
                       const ngtcp2_conn_callbacks *callbacks,
                       const ngtcp2_settings *settings,
                       const void *mem,
                       void *user_data)
{
  Outside outside;
  (void) mem;
  if (version != NGTCP2_PROTO_VER) {
    breach("wrong-version", "protocol version %x", version);
  }
  auto *c = new ngtcp2_conn(*current, *callbacks, *settings, user_data);
  *pconn = c;
  client = c;
  ngtcp2_conn::check_path(path, "client_new");
  c->check_time(settings->initial_ts, "client_new");
  c->dcid = bytes_of(dcid->data, dcid->datalen);
  c->scid = bytes_of(scid->data, scid->datalen);
  if (c->dcid.size() < NGTCP2_MIN_INITIAL_DCIDLEN || c->dcid == c->scid ||
      c->dcid == bytes(c->dcid.size(), c->dcid[0]) || c->scid.size() < NGTCP2_MIN_CIDLEN ||
      c->scid == bytes(c->scid.size(), c->scid[0])) {
    breach("connection-id", "the first connection ids are not two random ones");
  }
  c->cids.insert(c->scid);
  c->cids.insert(c->dcid);
  if (!(c->local == truth.params)) {
    breach("wrong-params", "the transport was not given the parameters the connection was made with");
  }
  return 0;
}

void
ngtcp2_conn_del(ngtcp2_conn *conn)
{
  Outside outside;
  if (conn != nullptr && client == conn) {
    client = nullptr;
  }
  delete conn;
}

void
ngtcp2_conn_set_aead_overhead(ngtcp2_conn *conn, size_t aead_overhead)
{
  conn->overhead = aead_overhead;
}

#define INSTALL(name, level, tx)                                                                   \
  int ngtcp2_conn_install_##name(SIM_KEY_ARGS)                                                     \
  {                                                                                                \
    Outside outside;                                                                               \
    return conn->install(level, tx, key, keylen, iv, ivlen, hp, hplen);                            \
  }
INSTALL(initial_tx_keys, INITIAL, true)
INSTALL(initial_rx_keys, INITIAL, false)
INSTALL(handshake_tx_keys, HANDSHAKE, true)
INSTALL(handshake_rx_keys, HANDSHAKE, false)
INSTALL(tx_keys, APP, true)
INSTALL(rx_keys, APP, false)

int
ngtcp2_conn_install_early_keys(SIM_KEY_ARGS)
{
  (void) conn, (void) key, (void) keylen, (void) iv, (void) ivlen, (void) hp, (void) hplen;
  breach("early-keys", "early data keys were installed");
  return 0;
}

int
ngtcp2_conn_update_tx_key(ngtcp2_conn *conn,
                          const uint8_t *key,
                          size_t keylen,
                          const uint8_t *iv,
                          size_t ivlen)
{
  Outside outside;
  return conn->update(true, key, keylen, iv, ivlen);
}

int
ngtcp2_conn_update_rx_key(ngtcp2_conn *conn,
                          const uint8_t *key,
                          size_t keylen,
                          const uint8_t *iv,
                          size_t ivlen)
{
  Outside outside;
  return conn->update(false, key, keylen, iv, ivlen);
}

int
ngtcp2_conn_initiate_key_update(ngtcp2_conn *conn)
{
  Outside outside;
  return conn->update_keys() ? 0 : NGTCP2_ERR_INVALID_STATE;
}

int
ngtcp2_conn_get_handshake_completed(ngtcp2_conn *conn)
{
  return conn->completed ? 1 : 0;
}

void
ngtcp2_conn_handshake_completed(ngtcp2_conn *conn)
{
  Outside outside;
  if (!tls.done) {
    breach("completed-early", "the handshake was declared complete before TLS completed it");
    return;
  }
  conn->tls_done = true;
}

void
ngtcp2_conn_get_local_transport_params(ngtcp2_conn *conn, ngtcp2_transport_params *p)
{
  const ngtcp2_settings &s = conn->settings;
  p->max_stream_data_bidi_local = s.max_stream_data_bidi_local;
  p->max_stream_data_bidi_remote = s.max_stream_data_bidi_remote;
  p->max_stream_data_uni = s.max_stream_data_uni;
  p->max_data = s.max_data;
  p->max_streams_bidi = s.max_streams_bidi;
  p->max_streams_uni = s.max_streams_uni;
  p->idle_timeout = s.idle_timeout;
  p->max_packet_size = s.max_packet_size;
  p->ack_delay_exponent = s.ack_delay_exponent;
  p->max_ack_delay = s.max_ack_delay;
  p->disable_migration = s.disable_migration;
}

static Params
to_params(const ngtcp2_transport_params *q)
{
  Params p;
  p.stream_bidi_local = q->max_stream_data_bidi_local;
  p.stream_bidi_remote = q->max_stream_data_bidi_remote;
  p.stream_uni = q->max_stream_data_uni;
  p.data = q->max_data;
  p.streams_bidi = q->max_streams_bidi;
  p.streams_uni = q->max_streams_uni;
  p.idle_timeout = q->idle_timeout;
  p.max_packet_size = q->max_packet_size;
  p.ack_delay_exponent = q->ack_delay_exponent;
  p.max_ack_delay = q->max_ack_delay;
  p.disable_migration = q->disable_migration != 0;
  return p;
}

ssize_t
ngtcp2_encode_transport_params(uint8_t *dest,
                               size_t destlen,
                               ngtcp2_transport_params_type type,
                               const ngtcp2_transport_params *params)
{
  Outside outside;
  if (type != NGTCP2_TRANSPORT_PARAMS_TYPE_CLIENT_HELLO) {
    return NGTCP2_ERR_INVALID_ARGUMENT;
  }
  bytes out = encode_params(to_params(params));
  if (out.size() > destlen) {
    return NGTCP2_ERR_NOBUF;
  }
  memcpy(dest, out.data(), out.size());
  return static_cast<ssize_t>(out.size());
}

int
ngtcp2_decode_transport_params(ngtcp2_transport_params *params,
                               ngtcp2_transport_params_type type,
                               const uint8_t *data,
                               size_t datalen)
{
  Outside outside;
  Params p;
  if (type != NGTCP2_TRANSPORT_PARAMS_TYPE_ENCRYPTED_EXTENSIONS ||
      !decode_params(bytes_of(data, datalen), p)) {
    tls.broken = true;
    return NGTCP2_ERR_MALFORMED_TRANSPORT_PARAM;
  }
  params->max_stream_data_bidi_local = p.stream_bidi_local;
  params->max_stream_data_bidi_remote = p.stream_bidi_remote;
  params->max_stream_data_uni = p.stream_uni;
  params->max_data = p.data;
  params->max_streams_bidi = p.streams_bidi;
  params->max_streams_uni = p.streams_uni;
  params->idle_timeout = p.idle_timeout;
  params->max_packet_size = p.max_packet_size;
  params->ack_delay_exponent = p.ack_delay_exponent;
  params->max_ack_delay = p.max_ack_delay;
  params->disable_migration = p.disable_migration ? 1 : 0;
  return 0;
}

int
ngtcp2_conn_set_remote_transport_params(ngtcp2_conn *conn, const ngtcp2_transport_params *params)
{
  Outside outside;
  if (encode_params(to_params(params)) != truth.server_params) {
    breach("wrong-params", "the server's transport parameters are not the ones it announced");
  }
  conn->set_remote(to_params(params));
  conn->have_remote = true;
  return 0;
}

int
ngtcp2_conn_submit_crypto_data(ngtcp2_conn *conn,
                               ngtcp2_crypto_level level,
                               const uint8_t *data,
                               size_t datalen)
{
  Outside outside;
  if (level == NGTCP2_CRYPTO_LEVEL_EARLY) {
    breach("early-data", "handshake data submitted as early data");
    return NGTCP2_ERR_INVALID_ARGUMENT;
  }
  int l = level == NGTCP2_CRYPTO_LEVEL_INITIAL ? INITIAL
          : level == NGTCP2_CRYPTO_LEVEL_HANDSHAKE ? HANDSHAKE
                                                   : APP;
  return conn->submit_crypto(l, data, datalen);
}

ssize_t
ngtcp2_conn_write_pkt(ngtcp2_conn *conn,
                      ngtcp2_path *path,
                      uint8_t *dest,
                      size_t destlen,
                      ngtcp2_tstamp ts)
{
  Outside outside;
  (void) path;
  conn->check_time(ts, "write_pkt");
  std::vector<uint8_t> out(destlen);
  ssize_t n = conn->write_pkt(out.data(), destlen, ts);
  if (n > 0) {
    memcpy(dest, out.data(), static_cast<size_t>(n));
  }
  return n;
}

ssize_t
ngtcp2_conn_write_stream(ngtcp2_conn *conn,
                         ngtcp2_path *path,
                         uint8_t *dest,
                         size_t destlen,
                         ssize_t *pdatalen,
                         uint32_t flags,
                         int64_t stream_id,
                         uint8_t fin,
                         const uint8_t *data,
                         size_t datalen,
                         ngtcp2_tstamp ts)
{
  Outside outside;
  (void) path;
  (void) flags;
  conn->check_time(ts, "write_stream");
  auto it = conn->streams.find(stream_id);
  if (it != conn->streams.end() && !it->second.tx.shut && !it->second.tx.fin &&
      observer != nullptr) {
    observer->offered(stream_id, it->second.tx.next, bytes_of(data, datalen), fin != 0);
  }
  ssize_t written = -1;
  std::vector<uint8_t> out(destlen);
  ssize_t n =
    conn->write_stream(out.data(), destlen, &written, stream_id, fin != 0, data, datalen, ts);
  if (n > 0) {
    memcpy(dest, out.data(), static_cast<size_t>(n));
  }
  if (pdatalen != nullptr) {
    *pdatalen = written;
  }
  return n;
}

int
ngtcp2_conn_read_pkt(ngtcp2_conn *conn,
                     const ngtcp2_path *path,
                     const uint8_t *pkt,
                     size_t pktlen,
                     ngtcp2_tstamp ts)
{
  Outside outside;
  conn->check_time(ts, "read_pkt");
  ngtcp2_conn::check_path(path, "read_pkt");
  int rv = conn->read_pkt(pkt, pktlen, ts);
  if (rv == 0 && conn->tls_done && !conn->have_remote) {
    return NGTCP2_ERR_REQUIRED_TRANSPORT_PARAM;
  }
  return rv;
}

const ngtcp2_cid *
ngtcp2_conn_get_dcid(ngtcp2_conn *conn)
{
  conn->dcid_struct.datalen = conn->dcid.size();
  memcpy(conn->dcid_struct.data, conn->dcid.data(), conn->dcid.size());
  return &conn->dcid_struct;
}

// The smaller of what both ends want; none is 0.
ngtcp2_duration
ngtcp2_conn_get_idle_timeout(ngtcp2_conn *conn)
{
  uint64_t mine = conn->local.idle_timeout;
  uint64_t theirs = conn->have_remote ? conn->remote.idle_timeout : 0;
  uint64_t ms = mine == 0 ? theirs : theirs == 0 ? mine : std::min(mine, theirs);
  return ms * MS;
}

ngtcp2_tstamp
ngtcp2_conn_get_expiry(ngtcp2_conn *conn)
{
  return conn->expiry();
}

ngtcp2_tstamp
ngtcp2_conn_loss_detection_expiry(ngtcp2_conn *conn)
{
  return conn->loss_expiry();
}

ngtcp2_tstamp
ngtcp2_conn_ack_delay_expiry(ngtcp2_conn *conn)
{
  return conn->ack_expiry();
}

int
ngtcp2_conn_on_loss_detection_timer(ngtcp2_conn *conn, ngtcp2_tstamp ts)
{
  Outside outside;
  conn->check_time(ts, "on_loss_detection_timer");
  if (conn->loss_expiry() > ts) {
    breach("timer-early", "the loss detection timer was fired %llu ns early",
           static_cast<unsigned long long>(conn->loss_expiry() - ts));
    return 0;
  }
  return conn->on_loss_timer(ts);
}

void
ngtcp2_conn_cancel_expired_ack_delay_timer(ngtcp2_conn *conn, ngtcp2_tstamp ts)
{
  Outside outside;
  conn->check_time(ts, "cancel_expired_ack_delay_timer");
  conn->cancel_ack_timer(ts);
}

int
ngtcp2_conn_open_bidi_stream(ngtcp2_conn *conn, int64_t *pstream_id, void *stream_user_data)
{
  Outside outside;
  (void) stream_user_data;
  return conn->open(true, pstream_id);
}

int
ngtcp2_conn_open_uni_stream(ngtcp2_conn *conn, int64_t *pstream_id, void *stream_user_data)
{
  Outside outside;
  (void) stream_user_data;
  return conn->open(false, pstream_id);
}

int
ngtcp2_conn_shutdown_stream(ngtcp2_conn *conn, int64_t stream_id, uint64_t error)
{
  Outside outside;
  conn->stop_sending(stream_id, error);
  conn->reset(stream_id, error);
  return 0;
}

int
ngtcp2_conn_shutdown_stream_write(ngtcp2_conn *conn, int64_t stream_id, uint64_t error)
{
  Outside outside;
  return conn->reset(stream_id, error);
}

int
ngtcp2_conn_shutdown_stream_read(ngtcp2_conn *conn, int64_t stream_id, uint64_t error)
{
  Outside outside;
  return conn->stop_sending(stream_id, error);
}

int
ngtcp2_conn_extend_max_stream_offset(ngtcp2_conn *conn, int64_t stream_id, size_t datalen)
{
  Outside outside;
  if (conn->streams.find(stream_id) == conn->streams.end()) {
    return NGTCP2_ERR_STREAM_NOT_FOUND;
  }
  conn->extend_stream(stream_id, datalen);
  return 0;
}

void
ngtcp2_conn_extend_max_offset(ngtcp2_conn *conn, size_t datalen)
{
  Outside outside;
  conn->extend_data(datalen);
}

}

// The part of BoringSSL's API the client uses.
#include "stack.hpp"

#include "gen.hpp"

#include <openssl/base.h>

#include <cstring>
#include <deque>

using qsim::bytes;

struct ssl_ctx_st {
  int references = 1;
};

struct ssl_method_st {
  int unused;
};

struct ssl_cipher_st {
  uint32_t id;
  const char *name;
};

namespace {

const ssl_cipher_st CIPHERS[] = { { 0x03001301U, "TLS_AES_128_GCM_SHA256" },
                                  { 0x03001302U, "TLS_AES_256_GCM_SHA384" },
                                  { 0x03001303U, "TLS_CHACHA20_POLY1305_SHA256" },
                                  { 0x03001304U, "TLS_AES_128_CCM_{}SHA256" } };

std::deque<std::string> errors;

enum class state { start, server_hello, flight, done, failed };

}

struct ssl_st {
  ssl_ctx_st *ctx = nullptr;
  void *data = nullptr;
  bytes alpn, name, params, peer_params;
  bool connect = false;
  uint16_t min = 0;
  uint16_t max = 0;
  SSL_QUIC_METHOD method{};
  bool have_method = false;
  ::state at = ::state::start;
  int error = SSL_ERROR_NONE;
  bytes in[3];
  bool have_ee = false;
  bool unreadable = false;
  bytes random;
  qsim::Schedule schedule;
  const ssl_cipher_st *cipher = nullptr;
};

namespace {

int
broke(SSL *ssl, const char *why)
{
  errors.push_back(std::string("error:1000009c:SSL routines:{}:") + why);
  ssl->at = state::failed;
  qsim::tls.broken = true;
  ssl->error = SSL_ERROR_SSL;
  return -1;
}

int
wait(SSL *ssl)
{
  ssl->error = SSL_ERROR_WANT_READ;
  return -1;
}

bool
emit(SSL *ssl, ssl_encryption_level_t level, const bytes &data)
{
  // Handed over in one or more pieces that are gone afterwards.
  size_t at = 0;
  while (at < data.size()) {
    size_t n = data.size() - at;
    if (qsim::current->pick(4) == 3) {
      n = qsim::current->range(1, n);
    }
    uint8_t *copy = new uint8_t[n];
    memcpy(copy, data.data() + at, n);
    int rv = 0;
    {
      qsim::Inside inside;
      rv = ssl->method.add_handshake_data(ssl, level, copy, n);
    }
    memset(copy, 0xdd, n);
    delete[] copy;
    if (rv == 0) {
      return false;
    }
    at += n;
  }
  qsim::Inside inside;
  return ssl->method.flush_flight(ssl) != 0;
}

bool
give_secrets(SSL *ssl, ssl_encryption_level_t level, const bytes &read, const bytes &write)
{
  qsim::tls.secrets = ssl->schedule.secrets;
  uint8_t *r = new uint8_t[read.size()];
  uint8_t *w = new uint8_t[write.size()];
  memcpy(r, read.data(), read.size());
  memcpy(w, write.data(), write.size());
  int rv = 0;
  {
    qsim::Inside inside;
    rv = ssl->method.set_encryption_secrets(ssl, level, r, w, read.size());
  }
  memset(r, 0xdd, read.size());
  memset(w, 0xdd, write.size());
  delete[] r;
  delete[] w;
  return rv != 0;
}

int
advance(SSL *ssl)
{
  while (true) {
    switch (ssl->at) {
      case state::start: {
        if (!ssl->connect || !ssl->have_method || ssl->max < TLS1_3_VERSION) {
          return broke(ssl, "not set up");
        }
        if (qsim::truth.no_hello) {
          return broke(ssl, "INTERNAL_ERROR");
        }
        ssl->random = sim::random_bytes(*qsim::current, 32, 4);
        bytes body;
        qsim::put_field(body, ssl->random);
        qsim::put_field(body, ssl->alpn);
        qsim::put_field(body, ssl->name);
        qsim::put_field(body, ssl->params);
        bytes hello = qsim::message(qsim::CLIENT_HELLO, body);
        ssl->schedule.transcript = hello;
        ssl->at = state::server_hello;
        if (!emit(ssl, ssl_encryption_initial, hello)) {
          return broke(ssl, "callback");
        }
        break;
      }
      case state::server_hello: {
        qsim::Message m;
        bytes raw;
        if (!qsim::take_message(ssl->in[0], m, raw)) {
          return wait(ssl);
        }
        bytes random, id;
        size_t pos = 0;
        if (m.type != qsim::SERVER_HELLO || !qsim::get_field(m.body, pos, random) ||
            !qsim::get_field(m.body, pos, id) || id.size() != 4) {
          return broke(ssl, "UNEXPECTED_MESSAGE");
        }
        ssl->schedule.transcript += raw;
        uint32_t v = 0;
        for (char c : id) {
          v = (v << 8U) | static_cast<uint8_t>(c);
        }
        prim::Suite suite = prim::suite(0);
        for (unsigned i = 0; i < 4; i++) {
          if (CIPHERS[i].id == v) {
            ssl->cipher = &CIPHERS[i];
            if (i < 3) {
              suite = prim::suite(i);
            }
          }
        }
        if (ssl->cipher == nullptr) {
          return broke(ssl, "WRONG_CIPHER_RETURNED");
        }
        ssl->schedule.handshake(suite, ssl->random, random);
        if (!give_secrets(ssl,
                          ssl_encryption_handshake,
                          ssl->schedule.secrets.s_hs,
                          ssl->schedule.secrets.c_hs)) {
          return broke(ssl, "callback");
        }
        ssl->at = state::flight;
        break;
      }
      case state::flight: {
        qsim::Message m;
        bytes raw;
        bytes before = ssl->in[1];
        if (!qsim::take_message(ssl->in[1], m, raw)) {
          return wait(ssl);
        }
        if (m.type == qsim::ENCRYPTED_EXTENSIONS && !ssl->have_ee) {
          bytes alpn;
          size_t pos = 0;
          if (!qsim::get_field(m.body, pos, alpn) ||
              !qsim::get_field(m.body, pos, ssl->peer_params) || alpn != ssl->alpn) {
            return broke(ssl, "INVALID_ALPN_PROTOCOL");
          }
          ssl->have_ee = true;
        } else if (m.type == qsim::CERTIFICATE && ssl->have_ee) {
        } else if (m.type == qsim::FINISHED && ssl->have_ee) {
          if (m.body != ssl->schedule.finished(false)) {
            return broke(ssl, "DIGEST_CHECK_FAILED");
          }
          ssl->schedule.transcript += raw;
          ssl->schedule.application();
          bytes fin = qsim::message(qsim::FINISHED, ssl->schedule.finished(true));
          bool keys_first = qsim::current->pick(2) != 0;
          auto keys = [&] {
            return give_secrets(ssl,
                                ssl_encryption_application,
                                ssl->schedule.secrets.s_ap,
                                ssl->schedule.secrets.c_ap);
          };
          if ((keys_first && !keys()) || !emit(ssl, ssl_encryption_handshake, fin) ||
              (!keys_first && !keys())) {
            return broke(ssl, "callback");
          }
          ssl->at = state::done;
          qsim::tls.done = true;
          break;
        } else {
          return broke(ssl, "UNEXPECTED_MESSAGE");
        }
        ssl->schedule.transcript += raw;
        break;
      }
      case state::done:
        ssl->error = SSL_ERROR_NONE;
        return 1;
      case state::failed:
        ssl->error = SSL_ERROR_SSL;
        return -1;
    }
  }
}

}

namespace qsim {

TlsState tls;

}

extern "C" {

const SSL_METHOD *
TLS_method(void)
{
  static const ssl_method_st method{};
  return &method;
}

SSL_CTX *
SSL_CTX_new(const SSL_METHOD *method)
{
  qsim::Outside outside;
  (void) method;
  return new ssl_ctx_st;
}

void
SSL_CTX_free(SSL_CTX *ctx)
{
  qsim::Outside outside;
  if (--ctx->references == 0) {
    delete ctx;
  }
}

int
SSL_CTX_set_default_verify_paths(SSL_CTX *ctx)
{
  (void) ctx;
  return 1;
}

SSL *
SSL_new(SSL_CTX *ctx)
{
  qsim::Outside outside;
  errors.clear();
  ssl_st *ssl = new ssl_st;
  ctx->references++;
  ssl->ctx = ctx;
  qsim::tls = qsim::TlsState();
  qsim::tls.exists = true;
  return ssl;
}

void
SSL_free(SSL *ssl)
{
  qsim::Outside outside;
  if (ssl == nullptr) {
    return;
  }
  SSL_CTX_free(ssl->ctx);
  delete ssl;
  qsim::tls.exists = false;
}

int
SSL_set_ex_data(SSL *ssl, int idx, void *data)
{
  (void) idx;
  ssl->data = data;
  return 1;
}

void *
SSL_get_ex_data(const SSL *ssl, int idx)
{
  (void) idx;
  return ssl->data;
}

int
SSL_set_alpn_protos(SSL *ssl, const uint8_t *protos, unsigned len)
{
  qsim::Outside outside;
  ssl->alpn.assign(reinterpret_cast<const char *>(protos), len);
  qsim::tls.alpn = ssl->alpn;
  return 0;
}

void
SSL_set_connect_state(SSL *ssl)
{
  ssl->connect = true;
}

int
SSL_set_min_proto_version(SSL *ssl, uint16_t version)
{
  ssl->min = version;
  return 1;
}

int
SSL_set_max_proto_version(SSL *ssl, uint16_t version)
{
  ssl->max = version;
  return 1;
}

int
SSL_set_tlsext_host_name(SSL *ssl, const char *name)
{
  qsim::Outside outside;
  ssl->name = name;
  qsim::tls.name = ssl->name;
  return 1;
}

int
SSL_set_quic_transport_params(SSL *ssl, const uint8_t *params, size_t len)
{
  qsim::Outside outside;
  ssl->params.assign(reinterpret_cast<const char *>(params), len);
  qsim::tls.params = ssl->params;
  return 1;
}

void
SSL_get_peer_quic_transport_params(const SSL *ssl, const uint8_t **params, size_t *len)
{
  *params = reinterpret_cast<const uint8_t *>(ssl->peer_params.data());
  *len = ssl->peer_params.size();
}

int
SSL_set_quic_method(SSL *ssl, const SSL_QUIC_METHOD *method)
{
  ssl->method = *method;
  ssl->have_method = true;
  return 1;
}

int
SSL_do_handshake(SSL *ssl)
{
  qsim::Outside outside;
  return advance(ssl);
}

int
SSL_get_error(const SSL *ssl, int ret)
{
  return ret > 0 ? SSL_ERROR_NONE : ssl->error;
}

int
SSL_provide_quic_data(SSL *ssl, enum ssl_encryption_level_t level, const uint8_t *data, size_t len)
{
  qsim::Outside outside;
  ssl_encryption_level_t want = ssl->at == state::start || ssl->at == state::server_hello
                                  ? ssl_encryption_initial
                                : ssl->at == state::flight ? ssl_encryption_handshake
                                                           : ssl_encryption_application;
  if (ssl->at == state::failed || level != want) {
    errors.push_back("error:100000fe:SSL routines:OPENSSL_internal:WRONG_ENCRYPTION_LEVEL_RECEIVED");
    qsim::tls.broken = true;
    return 0;
  }
  int at = level == ssl_encryption_initial ? 0 : level == ssl_encryption_handshake ? 1 : 2;
  ssl->in[at].append(reinterpret_cast<const char *>(data), len);
  return 1;
}

int
SSL_process_quic_post_handshake(SSL *ssl)
{
  qsim::Outside outside;
  qsim::Message m;
  bytes raw;
  if (ssl->unreadable) {
    return 0;
  }
  while (qsim::take_message(ssl->in[2], m, raw)) {
    if (m.type != qsim::TICKET) {
      // As in the original, the handshake itself remains a completed one.
      broke(ssl, "UNEXPECTED_MESSAGE");
      ssl->at = state::done;
      ssl->unreadable = true;
      SIM_COUNT("fault.bad_post_handshake");
      return 0;
    }
    SIM_COUNT("probe.session_ticket");
  }
  return 1;
}

const SSL_CIPHER *
SSL_get_current_cipher(const SSL *ssl)
{
  return ssl->cipher;
}

uint32_t
SSL_CIPHER_get_id(const SSL_CIPHER *cipher)
{
  return cipher->id;
}

const char *
SSL_CIPHER_standard_name(const SSL_CIPHER *cipher)
{
  return cipher->name;
}

uint32_t
ERR_get_error(void)
{
  return errors.empty() ? 0 : 0x1000009cU;
}

char *
ERR_error_string_n(uint32_t packed_error, char *buf, size_t len)
{
  qsim::Outside outside;
  (void) packed_error;
  std::string text = errors.empty() ? "error:unknown" : errors.front();
  if (!errors.empty()) {
    errors.pop_front();
  }
  if (len > 0) {
    size_t n = std::min(len - 1, text.size());
    memcpy(buf, text.data(), n);
    buf[n] = 0;
  }
  return buf;
}

}

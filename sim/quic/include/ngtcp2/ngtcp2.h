// Stand-in for the ngtcp2 API bnl uses (as of ngtcp2 8217c61, draft-23).  The
// functions are implemented by the simulated transport in ../../ngtcp2.cpp.
#pragma once

#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <sys/types.h>

#ifdef __cplusplus
extern "C" {
#endif

typedef uint64_t ngtcp2_tstamp;
typedef uint64_t ngtcp2_duration;

#define NGTCP2_SECONDS ((uint64_t) 1000000000ULL)
#define NGTCP2_MILLISECONDS ((uint64_t) 1000000ULL)
#define NGTCP2_MICROSECONDS ((uint64_t) 1000ULL)
#define NGTCP2_NANOSECONDS ((uint64_t) 1ULL)

#define NGTCP2_PROTO_VER 0xff000017U
#define NGTCP2_PROTO_VER_D23 0xff000017U
#define NGTCP2_ALPN_H3 "\x5h3-23"
#define NGTCP2_ALPN_D23 "\x5h3-23"
#define NGTCP2_INITIAL_SALT                                                    \
  "\xc3\xee\xf7\x12\xc7\x2e\xbb\x5a\x11\xa7\xd2\x43\x2b\xb4\x63\x65\xbe\xf9"   \
  "\xf5\x02"
#define NGTCP2_MAX_CIDLEN 20
#define NGTCP2_MIN_CIDLEN 4
#define NGTCP2_MIN_INITIAL_DCIDLEN 8
#define NGTCP2_MAX_PKTLEN_IPV4 1252
#define NGTCP2_MAX_PKTLEN_IPV6 1232
#define NGTCP2_MIN_INITIAL_PKTLEN 1200
#define NGTCP2_HP_MASKLEN 5
#define NGTCP2_HP_SAMPLELEN 16
#define NGTCP2_STATELESS_RESET_TOKENLEN 16
#define NGTCP2_PATH_CHALLENGE_DATALEN 8

enum ngtcp2_crypto_level : int {
  NGTCP2_CRYPTO_LEVEL_INITIAL,
  NGTCP2_CRYPTO_LEVEL_EARLY,
  NGTCP2_CRYPTO_LEVEL_HANDSHAKE,
  NGTCP2_CRYPTO_LEVEL_APP
};

enum ngtcp2_rand_ctx : int {
  NGTCP2_RAND_CTX_NONE,
  NGTCP2_RAND_CTX_PATH_CHALLENGE
};

enum ngtcp2_path_validation_result : int {
  NGTCP2_PATH_VALIDATION_RESULT_SUCCESS,
  NGTCP2_PATH_VALIDATION_RESULT_FAILURE
};

typedef enum {
  NGTCP2_ERR_INVALID_ARGUMENT = -201,
  NGTCP2_ERR_UNKNOWN_PKT_TYPE = -202,
  NGTCP2_ERR_NOBUF = -203,
  NGTCP2_ERR_PROTO = -205,
  NGTCP2_ERR_INVALID_STATE = -206,
  NGTCP2_ERR_ACK_FRAME = -207,
  NGTCP2_ERR_STREAM_ID_BLOCKED = -208,
  NGTCP2_ERR_STREAM_IN_USE = -209,
  NGTCP2_ERR_STREAM_DATA_BLOCKED = -210,
  NGTCP2_ERR_FLOW_CONTROL = -211,
  NGTCP2_ERR_STREAM_LIMIT = -213,
  NGTCP2_ERR_FINAL_SIZE = -214,
  NGTCP2_ERR_CRYPTO = -215,
  NGTCP2_ERR_PKT_NUM_EXHAUSTED = -216,
  NGTCP2_ERR_REQUIRED_TRANSPORT_PARAM = -217,
  NGTCP2_ERR_MALFORMED_TRANSPORT_PARAM = -218,
  NGTCP2_ERR_FRAME_ENCODING = -219,
  NGTCP2_ERR_TLS_DECRYPT = -220,
  NGTCP2_ERR_STREAM_SHUT_WR = -221,
  NGTCP2_ERR_STREAM_NOT_FOUND = -222,
  NGTCP2_ERR_STREAM_STATE = -226,
  NGTCP2_ERR_NOKEY = -227,
  NGTCP2_ERR_RECV_VERSION_NEGOTIATION = -229,
  NGTCP2_ERR_CLOSING = -230,
  NGTCP2_ERR_DRAINING = -231,
  NGTCP2_ERR_TRANSPORT_PARAM = -234,
  NGTCP2_ERR_DISCARD_PKT = -235,
  NGTCP2_ERR_PATH_VALIDATION_FAILED = -236,
  NGTCP2_ERR_CONN_ID_BLOCKED = -237,
  NGTCP2_ERR_INTERNAL = -238,
  NGTCP2_ERR_CRYPTO_BUFFER_EXCEEDED = -239,
  NGTCP2_ERR_WRITE_STREAM_MORE = -240,
  NGTCP2_ERR_FATAL = -500,
  NGTCP2_ERR_NOMEM = -501,
  NGTCP2_ERR_CALLBACK_FAILURE = -502
} ngtcp2_lib_error;

#define NGTCP2_WRITE_STREAM_FLAG_NONE 0x00
#define NGTCP2_WRITE_STREAM_FLAG_MORE 0x01

typedef enum {
  NGTCP2_TRANSPORT_PARAMS_TYPE_CLIENT_HELLO,
  NGTCP2_TRANSPORT_PARAMS_TYPE_ENCRYPTED_EXTENSIONS
} ngtcp2_transport_params_type;

struct ngtcp2_conn;

struct ngtcp2_cid {
  size_t datalen;
  uint8_t data[NGTCP2_MAX_CIDLEN];
};

struct ngtcp2_pkt_hd {
  struct ngtcp2_cid dcid;
  struct ngtcp2_cid scid;
  int64_t pkt_num;
  uint8_t *token;
  size_t tokenlen;
  size_t pkt_numlen;
  size_t len;
  uint32_t version;
  uint8_t type;
  uint8_t flags;
};

struct ngtcp2_pkt_stateless_reset {
  const uint8_t *stateless_reset_token;
  const uint8_t *rand;
  size_t randlen;
};

struct ngtcp2_pkt_retry {
  struct ngtcp2_cid odcid;
  const uint8_t *token;
  size_t tokenlen;
};

struct ngtcp2_preferred_addr {
  struct ngtcp2_cid cid;
  uint16_t ipv4_port;
  uint16_t ipv6_port;
  uint8_t ipv4_addr[4];
  uint8_t ipv6_addr[16];
  uint8_t stateless_reset_token[NGTCP2_STATELESS_RESET_TOKENLEN];
};

struct ngtcp2_addr {
  size_t addrlen;
  uint8_t *addr;
  void *user_data;
};

struct ngtcp2_path {
  struct ngtcp2_addr local;
  struct ngtcp2_addr remote;
};

typedef struct ngtcp2_path_storage {
  uint8_t local_addrbuf[128];
  uint8_t remote_addrbuf[128];
  struct ngtcp2_path path;
} ngtcp2_path_storage;

typedef struct ngtcp2_settings {
  struct ngtcp2_preferred_addr preferred_address;
  ngtcp2_tstamp initial_ts;
  void (*log_printf)(void *user_data, const char *format, ...);
  uint64_t max_stream_data_bidi_local;
  uint64_t max_stream_data_bidi_remote;
  uint64_t max_stream_data_uni;
  uint64_t max_data;
  uint64_t max_streams_bidi;
  uint64_t max_streams_uni;
  uint64_t idle_timeout;
  uint64_t max_packet_size;
  uint64_t ack_delay_exponent;
  uint64_t max_ack_delay;
  uint8_t disable_migration;
} ngtcp2_settings;

typedef struct ngtcp2_transport_params {
  uint64_t max_stream_data_bidi_local;
  uint64_t max_stream_data_bidi_remote;
  uint64_t max_stream_data_uni;
  uint64_t max_data;
  uint64_t max_streams_bidi;
  uint64_t max_streams_uni;
  uint64_t idle_timeout;
  uint64_t max_packet_size;
  uint64_t ack_delay_exponent;
  uint64_t max_ack_delay;
  uint8_t disable_migration;
} ngtcp2_transport_params;

typedef int (*ngtcp2_client_initial)(struct ngtcp2_conn *conn, void *user_data);
typedef int (*ngtcp2_recv_client_initial)(struct ngtcp2_conn *conn,
                                          const struct ngtcp2_cid *dcid,
                                          void *user_data);
typedef int (*ngtcp2_recv_crypto_data)(struct ngtcp2_conn *conn,
                                       enum ngtcp2_crypto_level level,
                                       uint64_t offset, const uint8_t *data,
                                       size_t datalen, void *user_data);
typedef int (*ngtcp2_handshake_completed)(struct ngtcp2_conn *conn,
                                          void *user_data);
typedef int (*ngtcp2_recv_version_negotiation)(struct ngtcp2_conn *conn,
                                               const struct ngtcp2_pkt_hd *hd,
                                               const uint32_t *sv, size_t nsv,
                                               void *user_data);
typedef ssize_t (*ngtcp2_encrypt)(struct ngtcp2_conn *conn, uint8_t *dest,
                                  size_t destlen, const uint8_t *plaintext,
                                  size_t plaintextlen, const uint8_t *key,
                                  size_t keylen, const uint8_t *nonce,
                                  size_t noncelen, const uint8_t *ad,
                                  size_t adlen, void *user_data);
typedef ssize_t (*ngtcp2_decrypt)(struct ngtcp2_conn *conn, uint8_t *dest,
                                  size_t destlen, const uint8_t *ciphertext,
                                  size_t ciphertextlen, const uint8_t *key,
                                  size_t keylen, const uint8_t *nonce,
                                  size_t noncelen, const uint8_t *ad,
                                  size_t adlen, void *user_data);
typedef ssize_t (*ngtcp2_hp_mask)(struct ngtcp2_conn *conn, uint8_t *dest,
                                  size_t destlen, const uint8_t *key,
                                  size_t keylen, const uint8_t *sample,
                                  size_t samplelen, void *user_data);
typedef int (*ngtcp2_recv_stream_data)(struct ngtcp2_conn *conn,
                                       int64_t stream_id, int fin,
                                       uint64_t offset, const uint8_t *data,
                                       size_t datalen, void *user_data,
                                       void *stream_user_data);
typedef int (*ngtcp2_acked_crypto_offset)(struct ngtcp2_conn *conn,
                                          enum ngtcp2_crypto_level level,
                                          uint64_t offset, size_t datalen,
                                          void *user_data);
typedef int (*ngtcp2_acked_stream_data_offset)(
  struct ngtcp2_conn *conn, int64_t stream_id, uint64_t offset, size_t datalen,
  void *user_data, void *stream_user_data);
typedef int (*ngtcp2_stream_open)(struct ngtcp2_conn *conn, int64_t stream_id,
                                  void *user_data);
typedef int (*ngtcp2_stream_close)(struct ngtcp2_conn *conn, int64_t stream_id,
                                   uint64_t app_error_code, void *user_data,
                                   void *stream_user_data);
typedef int (*ngtcp2_recv_stateless_reset)(
  struct ngtcp2_conn *conn, const struct ngtcp2_pkt_stateless_reset *sr,
  void *user_data);
typedef int (*ngtcp2_recv_retry)(struct ngtcp2_conn *conn,
                                 const struct ngtcp2_pkt_hd *hd,
                                 const struct ngtcp2_pkt_retry *retry,
                                 void *user_data);
typedef int (*ngtcp2_extend_max_streams)(struct ngtcp2_conn *conn,
                                         uint64_t max_streams, void *user_data);
typedef int (*ngtcp2_rand)(struct ngtcp2_conn *conn, uint8_t *dest,
                           size_t destlen, enum ngtcp2_rand_ctx ctx,
                           void *user_data);
typedef int (*ngtcp2_get_new_connection_id)(struct ngtcp2_conn *conn,
                                            struct ngtcp2_cid *cid,
                                            uint8_t *token, size_t cidlen,
                                            void *user_data);
typedef int (*ngtcp2_remove_connection_id)(struct ngtcp2_conn *conn,
                                           const struct ngtcp2_cid *cid,
                                           void *user_data);
typedef int (*ngtcp2_update_key)(struct ngtcp2_conn *conn, void *user_data);
typedef int (*ngtcp2_path_validation)(struct ngtcp2_conn *conn,
                                      const struct ngtcp2_path *path,
                                      enum ngtcp2_path_validation_result res,
                                      void *user_data);
typedef int (*ngtcp2_select_preferred_addr)(
  struct ngtcp2_conn *conn, struct ngtcp2_addr *dest,
  const struct ngtcp2_preferred_addr *paddr, void *user_data);
typedef int (*ngtcp2_stream_reset)(struct ngtcp2_conn *conn, int64_t stream_id,
                                   uint64_t final_size, uint64_t app_error_code,
                                   void *user_data, void *stream_user_data);
typedef int (*ngtcp2_extend_max_stream_data)(struct ngtcp2_conn *conn,
                                             int64_t stream_id,
                                             uint64_t max_data, void *user_data,
                                             void *stream_user_data);

typedef struct ngtcp2_conn_callbacks {
  ngtcp2_client_initial client_initial;
  ngtcp2_recv_client_initial recv_client_initial;
  ngtcp2_recv_crypto_data recv_crypto_data;
  ngtcp2_handshake_completed handshake_completed;
  ngtcp2_recv_version_negotiation recv_version_negotiation;
  ngtcp2_encrypt in_encrypt;
  ngtcp2_decrypt in_decrypt;
  ngtcp2_encrypt encrypt;
  ngtcp2_decrypt decrypt;
  ngtcp2_hp_mask in_hp_mask;
  ngtcp2_hp_mask hp_mask;
  ngtcp2_recv_stream_data recv_stream_data;
  ngtcp2_acked_crypto_offset acked_crypto_offset;
  ngtcp2_acked_stream_data_offset acked_stream_data_offset;
  ngtcp2_stream_open stream_open;
  ngtcp2_stream_close stream_close;
  ngtcp2_recv_stateless_reset recv_stateless_reset;
  ngtcp2_recv_retry recv_retry;
  ngtcp2_extend_max_streams extend_max_local_streams_bidi;
  ngtcp2_extend_max_streams extend_max_local_streams_uni;
  ngtcp2_rand rand;
  ngtcp2_get_new_connection_id get_new_connection_id;
  ngtcp2_remove_connection_id remove_connection_id;
  ngtcp2_update_key update_key;
  ngtcp2_path_validation path_validation;
  ngtcp2_select_preferred_addr select_preferred_addr;
  ngtcp2_stream_reset stream_reset;
  ngtcp2_extend_max_streams extend_max_remote_streams_bidi;
  ngtcp2_extend_max_streams extend_max_remote_streams_uni;
  ngtcp2_extend_max_stream_data extend_max_stream_data;
} ngtcp2_conn_callbacks;

void ngtcp2_settings_default(ngtcp2_settings *settings);
void ngtcp2_path_storage_init(ngtcp2_path_storage *ps, const void *local_addr,
                              size_t local_addrlen, void *local_user_data,
                              const void *remote_addr, size_t remote_addrlen,
                              void *remote_user_data);
const char *ngtcp2_strerror(int liberr);
int ngtcp2_err_is_fatal(int liberr);

int ngtcp2_conn_client_new(struct ngtcp2_conn **pconn,
                           const struct ngtcp2_cid *dcid,
                           const struct ngtcp2_cid *scid,
                           const struct ngtcp2_path *path, uint32_t version,
                           const ngtcp2_conn_callbacks *callbacks,
                           const ngtcp2_settings *settings, const void *mem,
                           void *user_data);
void ngtcp2_conn_del(struct ngtcp2_conn *conn);

void ngtcp2_conn_set_aead_overhead(struct ngtcp2_conn *conn,
                                   size_t aead_overhead);
#define SIM_KEY_ARGS                                                           \
  struct ngtcp2_conn *conn, const uint8_t *key, size_t keylen,                 \
    const uint8_t *iv, size_t ivlen, const uint8_t *hp, size_t hplen
int ngtcp2_conn_install_initial_tx_keys(SIM_KEY_ARGS);
int ngtcp2_conn_install_initial_rx_keys(SIM_KEY_ARGS);
int ngtcp2_conn_install_early_keys(SIM_KEY_ARGS);
int ngtcp2_conn_install_handshake_tx_keys(SIM_KEY_ARGS);
int ngtcp2_conn_install_handshake_rx_keys(SIM_KEY_ARGS);
int ngtcp2_conn_install_tx_keys(SIM_KEY_ARGS);
int ngtcp2_conn_install_rx_keys(SIM_KEY_ARGS);
int ngtcp2_conn_update_tx_key(struct ngtcp2_conn *conn, const uint8_t *key,
                              size_t keylen, const uint8_t *iv, size_t ivlen);
int ngtcp2_conn_update_rx_key(struct ngtcp2_conn *conn, const uint8_t *key,
                              size_t keylen, const uint8_t *iv, size_t ivlen);
int ngtcp2_conn_initiate_key_update(struct ngtcp2_conn *conn);

int ngtcp2_conn_get_handshake_completed(struct ngtcp2_conn *conn);
void ngtcp2_conn_handshake_completed(struct ngtcp2_conn *conn);

void ngtcp2_conn_get_local_transport_params(struct ngtcp2_conn *conn,
                                            ngtcp2_transport_params *params);
ssize_t ngtcp2_encode_transport_params(uint8_t *dest, size_t destlen,
                                       ngtcp2_transport_params_type type,
                                       const ngtcp2_transport_params *params);
int ngtcp2_decode_transport_params(ngtcp2_transport_params *params,
                                   ngtcp2_transport_params_type type,
                                   const uint8_t *data, size_t datalen);
int ngtcp2_conn_set_remote_transport_params(
  struct ngtcp2_conn *conn, const ngtcp2_transport_params *params);

int ngtcp2_conn_submit_crypto_data(struct ngtcp2_conn *conn,
                                   enum ngtcp2_crypto_level level,
                                   const uint8_t *data, size_t datalen);

ssize_t ngtcp2_conn_write_pkt(struct ngtcp2_conn *conn,
                              struct ngtcp2_path *path, uint8_t *dest,
                              size_t destlen, ngtcp2_tstamp ts);
ssize_t ngtcp2_conn_write_stream(struct ngtcp2_conn *conn,
                                 struct ngtcp2_path *path, uint8_t *dest,
                                 size_t destlen, ssize_t *pdatalen,
                                 uint32_t flags, int64_t stream_id, uint8_t fin,
                                 const uint8_t *data, size_t datalen,
                                 ngtcp2_tstamp ts);
int ngtcp2_conn_read_pkt(struct ngtcp2_conn *conn,
                         const struct ngtcp2_path *path, const uint8_t *pkt,
                         size_t pktlen, ngtcp2_tstamp ts);

const struct ngtcp2_cid *ngtcp2_conn_get_dcid(struct ngtcp2_conn *conn);
ngtcp2_duration ngtcp2_conn_get_idle_timeout(struct ngtcp2_conn *conn);
ngtcp2_tstamp ngtcp2_conn_get_expiry(struct ngtcp2_conn *conn);
ngtcp2_tstamp ngtcp2_conn_loss_detection_expiry(struct ngtcp2_conn *conn);
ngtcp2_tstamp ngtcp2_conn_ack_delay_expiry(struct ngtcp2_conn *conn);
int ngtcp2_conn_on_loss_detection_timer(struct ngtcp2_conn *conn,
                                        ngtcp2_tstamp ts);
void ngtcp2_conn_cancel_expired_ack_delay_timer(struct ngtcp2_conn *conn,
                                                ngtcp2_tstamp ts);

int ngtcp2_conn_open_bidi_stream(struct ngtcp2_conn *conn, int64_t *pstream_id,
                                 void *stream_user_data);
int ngtcp2_conn_open_uni_stream(struct ngtcp2_conn *conn, int64_t *pstream_id,
                                void *stream_user_data);
int ngtcp2_conn_shutdown_stream(struct ngtcp2_conn *conn, int64_t stream_id,
                                uint64_t app_error_code);
int ngtcp2_conn_shutdown_stream_write(struct ngtcp2_conn *conn,
                                      int64_t stream_id,
                                      uint64_t app_error_code);
int ngtcp2_conn_shutdown_stream_read(struct ngtcp2_conn *conn,
                                     int64_t stream_id,
                                     uint64_t app_error_code);
int ngtcp2_conn_extend_max_stream_offset(struct ngtcp2_conn *conn,
                                         int64_t stream_id, size_t datalen);
void ngtcp2_conn_extend_max_offset(struct ngtcp2_conn *conn, size_t datalen);

#ifdef __cplusplus
}
#endif

// QPACK static table (draft-ietf-quic-qpack, equal to RFC 9204 appendix A)
// and the HPACK Huffman code (RFC 7541 appendix B).  Kept here as the oracle's
// own copy: never read from /repo at run time.
static const std::pair<const char*, const char*> static_table[99] = {
  {":authority", ""}, // 0
  {":path", "/"}, // 1
  {"age", "0"}, // 2
  {"content-disposition", ""}, // 3
  {"content-length", "0"}, // 4
  {"cookie", ""}, // 5
  {"date", ""}, // 6
  {"etag", ""}, // 7
  {"if-modified-since", ""}, // 8
  {"if-none-match", ""}, // 9
  {"last-modified", ""}, // 10
  {"link", ""}, // 11
  {"location", ""}, // 12
  {"referer", ""}, // 13
  {"set-cookie", ""}, // 14
  {":method", "CONNECT"}, // 15
  {":method", "DELETE"}, // 16
  {":method", "GET"}, // 17
  {":method", "HEAD"}, // 18
  {":method", "OPTIONS"}, // 19
  {":method", "POST"}, // 20
  {":method", "PUT"}, // 21
  {":scheme", "http"}, // 22
  {":scheme", "https"}, // 23
  {":status", "103"}, // 24
  {":status", "200"}, // 25
  {":status", "304"}, // 26
  {":status", "404"}, // 27
  {":status", "503"}, // 28
  {"accept", "*/*"}, // 29
  {"accept", "application/dns-message"}, // 30
  {"accept-encoding", "gzip, deflate, br"}, // 31
  {"accept-ranges", "bytes"}, // 32
  {"access-control-allow-headers", "cache-control"}, // 33
  {"access-control-allow-headers", "content-type"}, // 34
  {"access-control-allow-origin", "*"}, // 35
  {"cache-control", "max-age=0"}, // 36
  {"cache-control", "max-age=2592000"}, // 37
  {"cache-control", "max-age=604800"}, // 38
  {"cache-control", "no-cache"}, // 39
  {"cache-control", "no-store"}, // 40
  {"cache-control", "public, max-age=31536000"}, // 41
  {"content-encoding", "br"}, // 42
  {"content-encoding", "gzip"}, // 43
  {"content-type", "application/dns-message"}, // 44
  {"content-type", "application/javascript"}, // 45
  {"content-type", "application/json"}, // 46
  {"content-type", "application/x-www-form-urlencoded"}, // 47
  {"content-type", "image/gif"}, // 48
  {"content-type", "image/jpeg"}, // 49
  {"content-type", "image/png"}, // 50
  {"content-type", "text/css"}, // 51
  {"content-type", "text/html; charset=utf-8"}, // 52
  {"content-type", "text/plain"}, // 53
  {"content-type", "text/plain;charset=utf-8"}, // 54
  {"range", "bytes=0-"}, // 55
  {"strict-transport-security", "max-age=31536000"}, // 56
  {"strict-transport-security", "max-age=31536000; includesubdomains"}, // 57
  {"strict-transport-security", "max-age=31536000; includesubdomains; preload"}, // 58
  {"vary", "accept-encoding"}, // 59
  {"vary", "origin"}, // 60
  {"x-content-type-options", "nosniff"}, // 61
  {"x-xss-protection", "1; mode=block"}, // 62
  {":status", "100"}, // 63
  {":status", "204"}, // 64
  {":status", "206"}, // 65
  {":status", "302"}, // 66
  {":status", "400"}, // 67
  {":status", "403"}, // 68
  {":status", "421"}, // 69
  {":status", "425"}, // 70
  {":status", "500"}, // 71
  {"accept-language", ""}, // 72
  {"access-control-allow-credentials", "FALSE"}, // 73
  {"access-control-allow-credentials", "TRUE"}, // 74
  {"access-control-allow-headers", "*"}, // 75
  {"access-control-allow-methods", "get"}, // 76
  {"access-control-allow-methods", "get, post, options"}, // 77
  {"access-control-allow-methods", "options"}, // 78
  {"access-control-expose-headers", "content-length"}, // 79
  {"access-control-request-headers", "content-type"}, // 80
  {"access-control-request-method", "get"}, // 81
  {"access-control-request-method", "post"}, // 82
  {"alt-svc", "clear"}, // 83
  {"authorization", ""}, // 84
  {"content-security-policy", "script-src 'none'; object-src 'none'; base-uri 'none'"}, // 85
  {"early-data", "1"}, // 86
  {"expect-ct", ""}, // 87
  {"forwarded", ""}, // 88
  {"if-range", ""}, // 89
  {"origin", ""}, // 90
  {"purpose", "prefetch"}, // 91
  {"server", ""}, // 92
  {"timing-allow-origin", "*"}, // 93
  {"upgrade-insecure-requests", "1"}, // 94
  {"user-agent", ""}, // 95
  {"x-forwarded-for", ""}, // 96
  {"x-frame-options", "deny"}, // 97
  {"x-frame-options", "sameorigin"}, // 98
};
static const HuffCode huffman_table[257] = {
  {0x1ff8u, 13}, // 0
  {0x7fffd8u, 23}, // 1
  {0xfffffe2u, 28}, // 2
  {0xfffffe3u, 28}, // 3
  {0xfffffe4u, 28}, // 4
  {0xfffffe5u, 28}, // 5
  {0xfffffe6u, 28}, // 6
  {0xfffffe7u, 28}, // 7
  {0xfffffe8u, 28}, // 8
  {0xffffeau, 24}, // 9
  {0x3ffffffcu, 30}, // 10
  {0xfffffe9u, 28}, // 11
  {0xfffffeau, 28}, // 12
  {0x3ffffffdu, 30}, // 13
  {0xfffffebu, 28}, // 14
  {0xfffffecu, 28}, // 15
  {0xfffffedu, 28}, // 16
  {0xfffffeeu, 28}, // 17
  {0xfffffefu, 28}, // 18
  {0xffffff0u, 28}, // 19
  {0xffffff1u, 28}, // 20
  {0xffffff2u, 28}, // 21
  {0x3ffffffeu, 30}, // 22
  {0xffffff3u, 28}, // 23
  {0xffffff4u, 28}, // 24
  {0xffffff5u, 28}, // 25
  {0xffffff6u, 28}, // 26
  {0xffffff7u, 28}, // 27
  {0xffffff8u, 28}, // 28
  {0xffffff9u, 28}, // 29
  {0xffffffau, 28}, // 30
  {0xffffffbu, 28}, // 31
  {0x14u, 6}, // 32
  {0x3f8u, 10}, // 33
  {0x3f9u, 10}, // 34
  {0xffau, 12}, // 35
  {0x1ff9u, 13}, // 36
  {0x15u, 6}, // 37
  {0xf8u, 8}, // 38
  {0x7fau, 11}, // 39
  {0x3fau, 10}, // 40
  {0x3fbu, 10}, // 41
  {0xf9u, 8}, // 42
  {0x7fbu, 11}, // 43
  {0xfau, 8}, // 44
  {0x16u, 6}, // 45
  {0x17u, 6}, // 46
  {0x18u, 6}, // 47
  {0x0u, 5}, // 48
  {0x1u, 5}, // 49
  {0x2u, 5}, // 50
  {0x19u, 6}, // 51
  {0x1au, 6}, // 52
  {0x1bu, 6}, // 53
  {0x1cu, 6}, // 54
  {0x1du, 6}, // 55
  {0x1eu, 6}, // 56
  {0x1fu, 6}, // 57
  {0x5cu, 7}, // 58
  {0xfbu, 8}, // 59
  {0x7ffcu, 15}, // 60
  {0x20u, 6}, // 61
  {0xffbu, 12}, // 62
  {0x3fcu, 10}, // 63
  {0x1ffau, 13}, // 64
  {0x21u, 6}, // 65
  {0x5du, 7}, // 66
  {0x5eu, 7}, // 67
  {0x5fu, 7}, // 68
  {0x60u, 7}, // 69
  {0x61u, 7}, // 70
  {0x62u, 7}, // 71
  {0x63u, 7}, // 72
  {0x64u, 7}, // 73
  {0x65u, 7}, // 74
  {0x66u, 7}, // 75
  {0x67u, 7}, // 76
  {0x68u, 7}, // 77
  {0x69u, 7}, // 78
  {0x6au, 7}, // 79
  {0x6bu, 7}, // 80
  {0x6cu, 7}, // 81
  {0x6du, 7}, // 82
  {0x6eu, 7}, // 83
  {0x6fu, 7}, // 84
  {0x70u, 7}, // 85
  {0x71u, 7}, // 86
  {0x72u, 7}, // 87
  {0xfcu, 8}, // 88
  {0x73u, 7}, // 89
  {0xfdu, 8}, // 90
  {0x1ffbu, 13}, // 91
  {0x7fff0u, 19}, // 92
  {0x1ffcu, 13}, // 93
  {0x3ffcu, 14}, // 94
  {0x22u, 6}, // 95
  {0x7ffdu, 15}, // 96
  {0x3u, 5}, // 97
  {0x23u, 6}, // 98
  {0x4u, 5}, // 99
  {0x24u, 6}, // 100
  {0x5u, 5}, // 101
  {0x25u, 6}, // 102
  {0x26u, 6}, // 103
  {0x27u, 6}, // 104
  {0x6u, 5}, // 105
  {0x74u, 7}, // 106
  {0x75u, 7}, // 107
  {0x28u, 6}, // 108
  {0x29u, 6}, // 109
  {0x2au, 6}, // 110
  {0x7u, 5}, // 111
  {0x2bu, 6}, // 112
  {0x76u, 7}, // 113
  {0x2cu, 6}, // 114
  {0x8u, 5}, // 115
  {0x9u, 5}, // 116
  {0x2du, 6}, // 117
  {0x77u, 7}, // 118
  {0x78u, 7}, // 119
  {0x79u, 7}, // 120
  {0x7au, 7}, // 121
  {0x7bu, 7}, // 122
  {0x7ffeu, 15}, // 123
  {0x7fcu, 11}, // 124
  {0x3ffdu, 14}, // 125
  {0x1ffdu, 13}, // 126
  {0xffffffcu, 28}, // 127
  {0xfffe6u, 20}, // 128
  {0x3fffd2u, 22}, // 129
  {0xfffe7u, 20}, // 130
  {0xfffe8u, 20}, // 131
  {0x3fffd3u, 22}, // 132
  {0x3fffd4u, 22}, // 133
  {0x3fffd5u, 22}, // 134
  {0x7fffd9u, 23}, // 135
  {0x3fffd6u, 22}, // 136
  {0x7fffdau, 23}, // 137
  {0x7fffdbu, 23}, // 138
  {0x7fffdcu, 23}, // 139
  {0x7fffddu, 23}, // 140
  {0x7fffdeu, 23}, // 141
  {0xffffebu, 24}, // 142
  {0x7fffdfu, 23}, // 143
  {0xffffecu, 24}, // 144
  {0xffffedu, 24}, // 145
  {0x3fffd7u, 22}, // 146
  {0x7fffe0u, 23}, // 147
  {0xffffeeu, 24}, // 148
  {0x7fffe1u, 23}, // 149
  {0x7fffe2u, 23}, // 150
  {0x7fffe3u, 23}, // 151
  {0x7fffe4u, 23}, // 152
  {0x1fffdcu, 21}, // 153
  {0x3fffd8u, 22}, // 154
  {0x7fffe5u, 23}, // 155
  {0x3fffd9u, 22}, // 156
  {0x7fffe6u, 23}, // 157
  {0x7fffe7u, 23}, // 158
  {0xffffefu, 24}, // 159
  {0x3fffdau, 22}, // 160
  {0x1fffddu, 21}, // 161
  {0xfffe9u, 20}, // 162
  {0x3fffdbu, 22}, // 163
  {0x3fffdcu, 22}, // 164
  {0x7fffe8u, 23}, // 165
  {0x7fffe9u, 23}, // 166
  {0x1fffdeu, 21}, // 167
  {0x7fffeau, 23}, // 168
  {0x3fffddu, 22}, // 169
  {0x3fffdeu, 22}, // 170
  {0xfffff0u, 24}, // 171
  {0x1fffdfu, 21}, // 172
  {0x3fffdfu, 22}, // 173
  {0x7fffebu, 23}, // 174
  {0x7fffecu, 23}, // 175
  {0x1fffe0u, 21}, // 176
  {0x1fffe1u, 21}, // 177
  {0x3fffe0u, 22}, // 178
  {0x1fffe2u, 21}, // 179
  {0x7fffedu, 23}, // 180
  {0x3fffe1u, 22}, // 181
  {0x7fffeeu, 23}, // 182
  {0x7fffefu, 23}, // 183
  {0xfffeau, 20}, // 184
  {0x3fffe2u, 22}, // 185
  {0x3fffe3u, 22}, // 186
  {0x3fffe4u, 22}, // 187
  {0x7ffff0u, 23}, // 188
  {0x3fffe5u, 22}, // 189
  {0x3fffe6u, 22}, // 190
  {0x7ffff1u, 23}, // 191
  {0x3ffffe0u, 26}, // 192
  {0x3ffffe1u, 26}, // 193
  {0xfffebu, 20}, // 194
  {0x7fff1u, 19}, // 195
  {0x3fffe7u, 22}, // 196
  {0x7ffff2u, 23}, // 197
  {0x3fffe8u, 22}, // 198
  {0x1ffffecu, 25}, // 199
  {0x3ffffe2u, 26}, // 200
  {0x3ffffe3u, 26}, // 201
  {0x3ffffe4u, 26}, // 202
  {0x7ffffdeu, 27}, // 203
  {0x7ffffdfu, 27}, // 204
  {0x3ffffe5u, 26}, // 205
  {0xfffff1u, 24}, // 206
  {0x1ffffedu, 25}, // 207
  {0x7fff2u, 19}, // 208
  {0x1fffe3u, 21}, // 209
  {0x3ffffe6u, 26}, // 210
  {0x7ffffe0u, 27}, // 211
  {0x7ffffe1u, 27}, // 212
  {0x3ffffe7u, 26}, // 213
  {0x7ffffe2u, 27}, // 214
  {0xfffff2u, 24}, // 215
  {0x1fffe4u, 21}, // 216
  {0x1fffe5u, 21}, // 217
  {0x3ffffe8u, 26}, // 218
  {0x3ffffe9u, 26}, // 219
  {0xffffffdu, 28}, // 220
  {0x7ffffe3u, 27}, // 221
  {0x7ffffe4u, 27}, // 222
  {0x7ffffe5u, 27}, // 223
  {0xfffecu, 20}, // 224
  {0xfffff3u, 24}, // 225
  {0xfffedu, 20}, // 226
  {0x1fffe6u, 21}, // 227
  {0x3fffe9u, 22}, // 228
  {0x1fffe7u, 21}, // 229
  {0x1fffe8u, 21}, // 230
  {0x7ffff3u, 23}, // 231
  {0x3fffeau, 22}, // 232
  {0x3fffebu, 22}, // 233
  {0x1ffffeeu, 25}, // 234
  {0x1ffffefu, 25}, // 235
  {0xfffff4u, 24}, // 236
  {0xfffff5u, 24}, // 237
  {0x3ffffeau, 26}, // 238
  {0x7ffff4u, 23}, // 239
  {0x3ffffebu, 26}, // 240
  {0x7ffffe6u, 27}, // 241
  {0x3ffffecu, 26}, // 242
  {0x3ffffedu, 26}, // 243
  {0x7ffffe7u, 27}, // 244
  {0x7ffffe8u, 27}, // 245
  {0x7ffffe9u, 27}, // 246
  {0x7ffffeau, 27}, // 247
  {0x7ffffebu, 27}, // 248
  {0xffffffeu, 28}, // 249
  {0x7ffffecu, 27}, // 250
  {0x7ffffedu, 27}, // 251
  {0x7ffffeeu, 27}, // 252
  {0x7ffffefu, 27}, // 253
  {0x7fffff0u, 27}, // 254
  {0x3ffffeeu, 26}, // 255
  {0x3fffffffu, 30}, // 256
};

#include "crypto.hh"

#include <openssl/evp.h>
#include <zlib.h>

#include <cstring>
#include <memory>

namespace ref {

Bytes sha256(const Bytes& d) {
  unsigned char out[32];
  unsigned n = 0;
  if (!EVP_Digest(d.data(), d.size(), out, &n, EVP_sha256(), nullptr)) throw Error("sha256");
  return Bytes(reinterpret_cast<char*>(out), 32);
}

static Bytes evp(const EVP_CIPHER* ci, const Bytes& key, const unsigned char* iv, const Bytes& d, bool enc, bool pad) {
  std::unique_ptr<EVP_CIPHER_CTX, void (*)(EVP_CIPHER_CTX*)> c(EVP_CIPHER_CTX_new(), EVP_CIPHER_CTX_free);
  if (!EVP_CipherInit_ex(c.get(), ci, nullptr, reinterpret_cast<const unsigned char*>(key.data()), iv, enc)) throw Error("evp init");
  EVP_CIPHER_CTX_set_padding(c.get(), pad);
  Bytes out(d.size() + 32, '\0');
  int n = 0, m = 0;
  unsigned char* o = reinterpret_cast<unsigned char*>(&out[0]);
  if (!EVP_CipherUpdate(c.get(), o, &n, reinterpret_cast<const unsigned char*>(d.data()), d.size())) throw Error("evp update");
  if (!EVP_CipherFinal_ex(c.get(), o + n, &m)) throw Error("evp final");
  out.resize(n + m);
  return out;
}

Bytes aes_encrypt_block(const Bytes& k, const Bytes& b) { return evp(EVP_aes_256_ecb(), k, nullptr, b, true, false); }
Bytes aes_decrypt_block(const Bytes& k, const Bytes& b) { return evp(EVP_aes_256_ecb(), k, nullptr, b, false, false); }
Bytes aes_cbc_encrypt(const Bytes& k, const Bytes& iv, const Bytes& d, bool pad) {
  return evp(EVP_aes_256_cbc(), k, reinterpret_cast<const unsigned char*>(iv.data()), d, true, pad);
}
Bytes aes_cbc_decrypt(const Bytes& k, const Bytes& iv, const Bytes& d, bool pad) {
  return evp(EVP_aes_256_cbc(), k, reinterpret_cast<const unsigned char*>(iv.data()), d, false, pad);
}
Bytes aes_transform(const Bytes& key, Bytes d, uint64_t rounds) {
  std::unique_ptr<EVP_CIPHER_CTX, void (*)(EVP_CIPHER_CTX*)> c(EVP_CIPHER_CTX_new(), EVP_CIPHER_CTX_free);
  if (!EVP_EncryptInit_ex(c.get(), EVP_aes_256_ecb(), nullptr, reinterpret_cast<const unsigned char*>(key.data()), nullptr)) throw Error("evp");
  EVP_CIPHER_CTX_set_padding(c.get(), 0);
  unsigned char a[32], b[64];
  memcpy(a, d.data(), 32);
  for (uint64_t i = 0; i < rounds; ++i) {
    int n = 0;
    EVP_EncryptUpdate(c.get(), b, &n, a, 32);
    memcpy(a, b, 32);
  }
  return Bytes(reinterpret_cast<char*>(a), 32);
}

// ---- Twofish, from the AES submission paper (Schneier et al., 1998) ----
namespace {
const uint8_t q0t[4][16] = {
  {0x8, 0x1, 0x7, 0xD, 0x6, 0xF, 0x3, 0x2, 0x0, 0xB, 0x5, 0x9, 0xE, 0xC, 0xA, 0x4},
  {0xE, 0xC, 0xB, 0x8, 0x1, 0x2, 0x3, 0x5, 0xF, 0x4, 0xA, 0x6, 0x7, 0x0, 0x9, 0xD},
  {0xB, 0xA, 0x5, 0xE, 0x6, 0xD, 0x9, 0x0, 0xC, 0x8, 0xF, 0x3, 0x2, 0x4, 0x7, 0x1},
  {0xD, 0x7, 0xF, 0x4, 0x1, 0x2, 0x6, 0xE, 0x9, 0xB, 0x3, 0x0, 0x8, 0x5, 0xC, 0xA}};
const uint8_t q1t[4][16] = {
  {0x2, 0x8, 0xB, 0xD, 0xF, 0x7, 0x6, 0xE, 0x3, 0x1, 0x9, 0x4, 0x0, 0xA, 0xC, 0x5},
  {0x1, 0xE, 0x2, 0xB, 0x4, 0xC, 0x3, 0x7, 0x6, 0xD, 0xA, 0x5, 0xF, 0x9, 0x0, 0x8},
  {0x4, 0xC, 0x7, 0x5, 0x1, 0x6, 0x9, 0xA, 0x0, 0xE, 0xD, 0x8, 0x2, 0xB, 0x3, 0xF},
  {0xB, 0x9, 0x5, 0x1, 0xC, 0x3, 0xD, 0xE, 0x6, 0x4, 0x7, 0xF, 0x2, 0x0, 0x8, 0xA}};
const uint8_t MDS[4][4] = {{0x01, 0xEF, 0x5B, 0x5B}, {0x5B, 0xEF, 0xEF, 0x01}, {0xEF, 0x5B, 0x01, 0xEF}, {0xEF, 0x01, 0xEF, 0x5B}};
const uint8_t RS[4][8] = {{0x01, 0xA4, 0x55, 0x87, 0x5A, 0x58, 0xDB, 0x9E},
                          {0xA4, 0x56, 0x82, 0xF3, 0x1E, 0xC6, 0x68, 0xE5},
                          {0x02, 0xA1, 0xFC, 0xC1, 0x47, 0xAE, 0x3D, 0x19},
                          {0xA4, 0x55, 0x87, 0x5A, 0x58, 0xDB, 0x9E, 0x03}};
uint8_t perm(const uint8_t t[4][16], uint8_t x) {
  uint8_t a0 = x >> 4, b0 = x & 15;
  auto ror4 = [](uint8_t v) { return uint8_t(((v >> 1) | (v << 3)) & 15); };
  uint8_t a1 = a0 ^ b0, b1 = (a0 ^ ror4(b0) ^ (8 * a0)) & 15;
  uint8_t a2 = t[0][a1], b2 = t[1][b1];
  uint8_t a3 = a2 ^ b2, b3 = (a2 ^ ror4(b2) ^ (8 * a2)) & 15;
  return uint8_t(16 * t[3][b3] + t[2][a3]);
}
struct Q { uint8_t q0[256], q1[256]; Q() { for (int i = 0; i < 256; ++i) { q0[i] = perm(q0t, i); q1[i] = perm(q1t, i); } } };
const Q Qs;
uint8_t gmul(unsigned a, unsigned b, unsigned poly) {
  unsigned r = 0;
  while (b) { if (b & 1) r ^= a; a <<= 1; if (a & 0x100) a ^= poly; b >>= 1; }
  return uint8_t(r);
}
struct MdsTab { uint32_t t[4][256]; MdsTab() {
  for (int j = 0; j < 4; ++j) for (int x = 0; x < 256; ++x) {
    uint32_t v = 0;
    for (int i = 0; i < 4; ++i) v |= uint32_t(gmul(x, MDS[i][j], 0x169)) << (8 * i);
    t[j][x] = v;
  }
} };
const MdsTab Ms;
uint32_t rol(uint32_t v, int n) { return (v << n) | (v >> (32 - n)); }
uint32_t ror(uint32_t v, int n) { return (v >> n) | (v << (32 - n)); }
}  // namespace

uint32_t Twofish::h(uint32_t x, const uint32_t* L, int k) const {
  uint8_t y[4];
  for (int i = 0; i < 4; ++i) y[i] = x >> (8 * i);
  auto l = [&](int i, int j) { return uint8_t(L[i] >> (8 * j)); };
  if (k == 4) {
    y[0] = Qs.q1[y[0]] ^ l(3, 0); y[1] = Qs.q0[y[1]] ^ l(3, 1);
    y[2] = Qs.q0[y[2]] ^ l(3, 2); y[3] = Qs.q1[y[3]] ^ l(3, 3);
  }
  if (k >= 3) {
    y[0] = Qs.q1[y[0]] ^ l(2, 0); y[1] = Qs.q1[y[1]] ^ l(2, 1);
    y[2] = Qs.q0[y[2]] ^ l(2, 2); y[3] = Qs.q0[y[3]] ^ l(2, 3);
  }
  y[0] = Qs.q1[Qs.q0[Qs.q0[y[0]] ^ l(1, 0)] ^ l(0, 0)];
  y[1] = Qs.q0[Qs.q0[Qs.q1[y[1]] ^ l(1, 1)] ^ l(0, 1)];
  y[2] = Qs.q1[Qs.q1[Qs.q0[y[2]] ^ l(1, 2)] ^ l(0, 2)];
  y[3] = Qs.q0[Qs.q1[Qs.q1[y[3]] ^ l(1, 3)] ^ l(0, 3)];
  uint32_t r = 0;
  for (int j = 0; j < 4; ++j) r ^= Ms.t[j][y[j]];
  return r;
}

Twofish::Twofish(const Bytes& key) {
  const int k = 4;
  uint32_t Me[4], Mo[4];
  for (int i = 0; i < k; ++i) { Me[i] = get32(key, 8 * i); Mo[i] = get32(key, 8 * i + 4); }
  for (int i = 0; i < k; ++i) {
    uint32_t s = 0;
    for (int j = 0; j < 4; ++j) {
      uint8_t v = 0;
      for (int m = 0; m < 8; ++m) v ^= gmul(uint8_t(key[8 * i + m]), RS[j][m], 0x14D);
      s |= uint32_t(v) << (8 * j);
    }
    S[k - 1 - i] = s;  // S-box words in reverse order
  }
  for (int i = 0; i < 20; ++i) {
    uint32_t A = h(uint32_t(2 * i) * 0x01010101u, Me, k);
    uint32_t B = rol(h(uint32_t(2 * i + 1) * 0x01010101u, Mo, k), 8);
    K[2 * i] = A + B;
    K[2 * i + 1] = rol(A + 2 * B, 9);
  }
}

Bytes Twofish::encrypt(const Bytes& b) const {
  uint32_t R[4];
  for (int i = 0; i < 4; ++i) R[i] = get32(b, 4 * i) ^ K[i];
  for (int r = 0; r < 16; ++r) {
    uint32_t T0 = h(R[0], S, 4), T1 = h(rol(R[1], 8), S, 4);
    uint32_t F0 = T0 + T1 + K[2 * r + 8], F1 = T0 + 2 * T1 + K[2 * r + 9];
    uint32_t n2 = ror(R[2] ^ F0, 1), n3 = rol(R[3], 1) ^ F1;
    R[2] = R[0]; R[3] = R[1]; R[0] = n2; R[1] = n3;
  }
  Bytes o;
  for (int i = 0; i < 4; ++i) put32(o, R[(i + 2) & 3] ^ K[i + 4]);
  return o;
}

Bytes Twofish::decrypt(const Bytes& b) const {
  uint32_t R[4];
  for (int i = 0; i < 4; ++i) R[(i + 2) & 3] = get32(b, 4 * i) ^ K[i + 4];
  for (int r = 15; r >= 0; --r) {
    uint32_t o0 = R[2], o1 = R[3];
    uint32_t T0 = h(o0, S, 4), T1 = h(rol(o1, 8), S, 4);
    uint32_t F0 = T0 + T1 + K[2 * r + 8], F1 = T0 + 2 * T1 + K[2 * r + 9];
    uint32_t o2 = rol(R[0], 1) ^ F0, o3 = ror(R[1] ^ F1, 1);
    R[0] = o0; R[1] = o1; R[2] = o2; R[3] = o3;
  }
  Bytes o;
  for (int i = 0; i < 4; ++i) put32(o, R[i] ^ K[i]);
  return o;
}

static Bytes xor16(const Bytes& a, const Bytes& b) {
  Bytes r(16, '\0');
  for (int i = 0; i < 16; ++i) r[i] = a[i] ^ b[i];
  return r;
}

Bytes twofish_cbc_encrypt(const Bytes& key, const Bytes& iv, const Bytes& data, bool pad) {
  Twofish tf(key);
  Bytes d = data, prev = iv, out;
  if (pad) { int p = 16 - d.size() % 16; d.append(p, static_cast<char>(p)); }
  if (d.size() % 16) throw Error("cbc size");
  for (size_t i = 0; i < d.size(); i += 16) { prev = tf.encrypt(xor16(d.substr(i, 16), prev)); out += prev; }
  return out;
}
Bytes twofish_cbc_decrypt(const Bytes& key, const Bytes& iv, const Bytes& d, bool pad) {
  Twofish tf(key);
  Bytes prev = iv, out;
  if (d.size() % 16) throw Error("cbc size");
  for (size_t i = 0; i < d.size(); i += 16) { Bytes c = d.substr(i, 16); out += xor16(tf.decrypt(c), prev); prev = c; }
  if (pad) {
    if (out.empty()) throw Error("cbc empty");
    unsigned p = static_cast<unsigned char>(out.back());
    if (p < 1 || p > 16) throw Error("cbc pad");
    for (unsigned i = 0; i < p; ++i) if (static_cast<unsigned char>(out[out.size() - 1 - i]) != p) throw Error("cbc pad");
    out.resize(out.size() - p);
  }
  return out;
}

// ---- Salsa20/20 (Bernstein) ----
Salsa20::Salsa20(const Bytes& k, const Bytes& n, uint64_t c) {
  const char* s = "expand 32-byte k";
  for (int i = 0; i < 4; ++i) in[5 * i] = get32(Bytes(s + 4 * i, 4), 0);
  for (int i = 0; i < 4; ++i) { in[1 + i] = get32(k, 4 * i); in[11 + i] = get32(k, 16 + 4 * i); }
  in[6] = get32(n, 0); in[7] = get32(n, 4);
  in[8] = uint32_t(c); in[9] = uint32_t(c >> 32);
}
Bytes Salsa20::block() {
  uint32_t x[16];
  memcpy(x, in, sizeof x);
  auto qr = [&](int a, int b, int c, int d) {
    x[b] ^= rol(x[a] + x[d], 7); x[c] ^= rol(x[b] + x[a], 9);
    x[d] ^= rol(x[c] + x[b], 13); x[a] ^= rol(x[d] + x[c], 18);
  };
  for (int r = 0; r < 10; ++r) {
    qr(0, 4, 8, 12); qr(5, 9, 13, 1); qr(10, 14, 2, 6); qr(15, 3, 7, 11);
    qr(0, 1, 2, 3); qr(5, 6, 7, 4); qr(10, 11, 8, 9); qr(15, 12, 13, 14);
  }
  Bytes o;
  for (int i = 0; i < 16; ++i) put32(o, x[i] + in[i]);
  if (!++in[8]) ++in[9];
  return o;
}
Bytes Salsa20::process(const Bytes& d) {
  Bytes r = d;
  for (auto& ch : r) {
    if (pos == 64) { buf = block(); pos = 0; }
    ch ^= buf[pos++];
  }
  return r;
}

Bytes gzip(const Bytes& d, int level, int strategy, int mem, int wbits, const std::vector<size_t>& fp, int kind) {
  z_stream z;
  memset(&z, 0, sizeof z);
  if (deflateInit2(&z, level, Z_DEFLATED, 16 + wbits, mem, strategy) != Z_OK) throw Error("deflateInit");
  Bytes out;
  size_t at = 0;
  auto run = [&](size_t end, int flush) {
    z.next_in = reinterpret_cast<Bytef*>(const_cast<char*>(d.data() + at));
    z.avail_in = end - at;
    char buf[16384];
    int rc;
    do {
      z.next_out = reinterpret_cast<Bytef*>(buf);
      z.avail_out = sizeof buf;
      rc = deflate(&z, flush);
      out.append(buf, sizeof buf - z.avail_out);
    } while (z.avail_out == 0 || (flush == Z_FINISH && rc != Z_STREAM_END));
    at = end;
  };
  for (size_t f : fp) if (f >= at && f <= d.size()) run(f, kind);
  run(d.size(), Z_FINISH);
  deflateEnd(&z);
  return out;
}

Bytes gunzip(const Bytes& d, size_t* used) {
  z_stream z;
  memset(&z, 0, sizeof z);
  if (inflateInit2(&z, 16 + 15) != Z_OK) throw Error("inflateInit");
  z.next_in = reinterpret_cast<Bytef*>(const_cast<char*>(d.data()));
  z.avail_in = d.size();
  Bytes out;
  std::vector<char> buf(65536);
  int rc;
  do {
    z.next_out = reinterpret_cast<Bytef*>(buf.data());
    z.avail_out = buf.size();
    rc = inflate(&z, Z_NO_FLUSH);
    out.append(buf.data(), buf.size() - z.avail_out);
    if (rc == Z_BUF_ERROR || (rc < 0)) { inflateEnd(&z); throw Error("gunzip " + std::to_string(rc)); }
  } while (rc != Z_STREAM_END);
  if (used) *used = z.total_in;
  inflateEnd(&z);
  return out;
}

static const char kB64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
Bytes b64(const Bytes& d) {
  Bytes o;
  o.reserve(d.size() * 4 / 3 + 4);
  for (size_t i = 0; i < d.size(); i += 3) {
    uint32_t v = uint32_t(uint8_t(d[i])) << 16;
    size_t n = d.size() - i;
    if (n > 1) v |= uint32_t(uint8_t(d[i + 1])) << 8;
    if (n > 2) v |= uint8_t(d[i + 2]);
    o += kB64[v >> 18];
    o += kB64[(v >> 12) & 63];
    o += n > 1 ? kB64[(v >> 6) & 63] : '=';
    o += n > 2 ? kB64[v & 63] : '=';
  }
  return o;
}
Bytes unb64(const std::string& s) {
  if (s.size() % 4) throw Error("base64 length");
  Bytes o;
  auto val = [](char c) -> int { const char* p = c ? strchr(kB64, c) : nullptr; return p ? int(p - kB64) : -1; };
  for (size_t i = 0; i < s.size(); i += 4) {
    bool last = i + 4 == s.size();
    int a = val(s[i]), b = val(s[i + 1]), c = val(s[i + 2]), e = val(s[i + 3]);
    if (a < 0 || b < 0) throw Error("base64 char");
    if (last && s[i + 2] == '=' && s[i + 3] == '=') { o += char(a << 2 | b >> 4); continue; }
    if (c < 0) throw Error("base64 char");
    o += char(a << 2 | b >> 4); o += char(b << 4 | c >> 2);
    if (last && s[i + 3] == '=') continue;
    if (e < 0) throw Error("base64 char");
    o += char(c << 6 | e);
  }
  return o;
}

void put16(Bytes& o, uint32_t v) { o += char(v); o += char(v >> 8); }
void put32(Bytes& o, uint32_t v) { put16(o, v); put16(o, v >> 16); }
void put64(Bytes& o, uint64_t v) { put32(o, uint32_t(v)); put32(o, uint32_t(v >> 32)); }
uint32_t get16(const Bytes& b, size_t at) {
  if (at + 2 > b.size()) throw Error("short read");
  return uint8_t(b[at]) | uint8_t(b[at + 1]) << 8;
}
uint32_t get32(const Bytes& b, size_t at) { return get16(b, at) | get16(b, at + 2) << 16; }
uint64_t get64(const Bytes& b, size_t at) { return get32(b, at) | uint64_t(get32(b, at + 4)) << 32; }

// Days from civil (Howard Hinnant's well-known algorithm).
int64_t civil_to_unix(const Civil& c) {
  int64_t y = c.y - (c.mo <= 2);
  int64_t era = (y >= 0 ? y : y - 399) / 400;
  unsigned yoe = unsigned(y - era * 400);
  unsigned doy = (153 * (c.mo + (c.mo > 2 ? -3 : 9)) + 2) / 5 + c.d - 1;
  unsigned doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
  int64_t days = era * 146097 + int64_t(doe) - 719468;
  return days * 86400 + c.h * 3600 + c.mi * 60 + c.s;
}
Civil unix_to_civil(int64_t t) {
  int64_t z = t >= 0 ? t / 86400 : -((-t + 86399) / 86400);
  int64_t rem = t - z * 86400;
  z += 719468;
  int64_t era = (z >= 0 ? z : z - 146096) / 146097;
  unsigned doe = unsigned(z - era * 146097);
  unsigned yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
  int64_t y = int64_t(yoe) + era * 400;
  unsigned doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
  unsigned mp = (5 * doy + 2) / 153;
  Civil c;
  c.d = doy - (153 * mp + 2) / 5 + 1;
  c.mo = mp < 10 ? mp + 3 : mp - 9;
  c.y = y + (c.mo <= 2);
  c.h = rem / 3600; c.mi = rem / 60 % 60; c.s = rem % 60;
  return c;
}
}  // namespace ref

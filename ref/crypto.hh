// Independent reference implementations: SHA-256 and AES via OpenSSL EVP,
// Twofish and Salsa20 written from their specifications, zlib one-shot
// (de)compression, base64. Nothing here includes the library under test.
#pragma once
#include <cstdint>
#include <stdexcept>
#include <string>
#include <vector>

namespace ref {
using Bytes = std::string;

struct Error : std::runtime_error { using std::runtime_error::runtime_error; };

Bytes sha256(const Bytes& data);

// One 16-byte block, 32-byte key.
Bytes aes_encrypt_block(const Bytes& key, const Bytes& block);
Bytes aes_decrypt_block(const Bytes& key, const Bytes& block);
// AES-256-CBC with PKCS#7 through EVP.
Bytes aes_cbc_encrypt(const Bytes& key, const Bytes& iv, const Bytes& data, bool pad = true);
Bytes aes_cbc_decrypt(const Bytes& key, const Bytes& iv, const Bytes& data, bool pad = true);
// ECB transform of 32 bytes, n rounds.
Bytes aes_transform(const Bytes& key, Bytes data32, uint64_t rounds);

class Twofish {
  uint32_t K[40];
  uint32_t S[4];
  uint32_t h(uint32_t x, const uint32_t* L, int k) const;
 public:
  explicit Twofish(const Bytes& key32);
  Bytes encrypt(const Bytes& b) const;
  Bytes decrypt(const Bytes& b) const;
};
Bytes twofish_cbc_encrypt(const Bytes& key, const Bytes& iv, const Bytes& data, bool pad = true);
Bytes twofish_cbc_decrypt(const Bytes& key, const Bytes& iv, const Bytes& data, bool pad = true);

class Salsa20 {
  uint32_t in[16];
  Bytes buf;
  size_t pos = 64;
 public:
  Salsa20(const Bytes& key32, const Bytes& nonce8, uint64_t counter = 0);
  Bytes block();                 // next 64 keystream bytes
  Bytes process(const Bytes& d);  // XOR with the continuing keystream
};

// gzip (window bits 16+15) whole-buffer coding.
Bytes gzip(const Bytes& d, int level = 6, int strategy = 0, int mem = 8, int wbits = 15,
           const std::vector<size_t>& flush_points = {}, int flush_kind = 2);
Bytes gunzip(const Bytes& d, size_t* used = nullptr);  // throws on error/truncation

Bytes b64(const Bytes& d);
Bytes unb64(const std::string& s);  // strict: padded, no white space; throws

void put16(Bytes& o, uint32_t v);
void put32(Bytes& o, uint32_t v);
void put64(Bytes& o, uint64_t v);
uint32_t get16(const Bytes& b, size_t at);
uint32_t get32(const Bytes& b, size_t at);
uint64_t get64(const Bytes& b, size_t at);

// Proleptic Gregorian calendar, own arithmetic.
struct Civil { int64_t y; int mo, d, h, mi, s; };
int64_t civil_to_unix(const Civil& c);
Civil unix_to_civil(int64_t t);
}  // namespace ref

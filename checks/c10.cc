// C10: ciphers and block modes compute the standard algorithms.
#include <fstream>
#include <memory>
#include <sstream>

#include "cipher.hh"
#include "common.hh"
using namespace harness;
using bridge::arr;
using bridge::str;

namespace {
Bytes unhex(const std::string& h) {
  Bytes o;
  for (size_t i = 0; i + 1 < h.size(); i += 2) o += char(std::stoi(h.substr(i, 2), nullptr, 16));
  return o;
}
// Keys and blocks: random, or with structure (constant, single bit, counting).
Bytes stuff(Case& c, size_t n) {
  Bytes b = c.t.bytes(n);
  switch (c.t.below(6)) {
    case 0: b = Bytes(n, '\0'); break;
    case 1: b = Bytes(n, '\xff'); break;
    case 2: b = Bytes(n, '\0'); b[c.t.below(n)] = char(1 << c.t.below(8)); break;
    case 3: b = Bytes(n, '\xff'); b[c.t.below(n)] ^= char(1 << c.t.below(8)); break;
    default: break;
  }
  return b;
}
struct Algo {
  bool tf;
  Bytes key, iv;
  std::unique_ptr<keepass::Cipher<16>> lib;
  Algo(bool t, const Bytes& k, const Bytes& v, bool with_iv = true) : tf(t), key(k), iv(v) {
    if (tf) lib.reset(with_iv ? new keepass::TwofishCipher(arr<32>(k), arr<16>(v)) : new keepass::TwofishCipher(arr<32>(k)));
    else lib.reset(with_iv ? new keepass::AesCipher(arr<32>(k), arr<16>(v)) : new keepass::AesCipher(arr<32>(k)));
  }
  Bytes enc(const Bytes& b) const { std::array<uint8_t, 16> o{}; lib->Encrypt(arr<16>(b), o); return str(o); }
  Bytes dec(const Bytes& b) const { std::array<uint8_t, 16> o{}; lib->Decrypt(arr<16>(b), o); return str(o); }
  Bytes ref_enc(const Bytes& b) const { return tf ? ref::Twofish(key).encrypt(b) : ref::aes_encrypt_block(key, b); }
  Bytes ref_dec(const Bytes& b) const { return tf ? ref::Twofish(key).decrypt(b) : ref::aes_decrypt_block(key, b); }
  Bytes ref_cbc(const Bytes& d, bool pad = true) const { return tf ? ref::twofish_cbc_encrypt(key, iv, d, pad) : ref::aes_cbc_encrypt(key, iv, d, pad); }
  const char* name() const { return tf ? "Twofish" : "AES"; }
};
void blocks_equal(const Algo& a, const Bytes& p) {
  Bytes e = a.enc(p), re = a.ref_enc(p);
  PBT_REQUIRE(e == re, "block-encrypt", a.name() << " of " << pbt::hex(p) << " under " << pbt::hex(a.key) << " gives " << pbt::hex(e) << ", standard " << pbt::hex(re));
  Bytes d = a.dec(p), rd = a.ref_dec(p);
  PBT_REQUIRE(d == rd, "block-decrypt", a.name() << " decryption of " << pbt::hex(p) << " under " << pbt::hex(a.key) << " gives " << pbt::hex(d) << ", standard " << pbt::hex(rd));
  PBT_REQUIRE(a.dec(e) == p, "block-inverse", a.name() << " decryption does not invert encryption");
  PBT_REQUIRE(str(a.lib->InitializationVector()) == a.iv, "iv", a.name() << " reports another initialization vector");
}

Bytes lib_cbc_encrypt(const Algo& a, const Bytes& d) {
  std::stringstream s(d), o;
  keepass::encrypt_cbc(s, o, *a.lib);
  return o.str();
}
}  // namespace

// Published test vectors, checked on the library and on the reference.
static void vectors(Case& c) {
  struct V { bool tf; const char *key, *pt, *ct; };
  static const V v[] = {
    {false, "000102030405060708090a0b0c0d0e0f101112131415161718191a1b1c1d1e1f", "00112233445566778899aabbccddeeff", "8ea2b7ca516745bfeafc49904b496089"},
    {false, "603deb1015ca71be2b73aef0857d77811f352c073b6108d72d9810a30914dff4", "6bc1bee22e409f96e93d7e117393172a", "f3eed1bdb5d2a03c064b5a7e3db181f8"},
    {false, "603deb1015ca71be2b73aef0857d77811f352c073b6108d72d9810a30914dff4", "ae2d8a571e03ac9c9eb76fac45af8e51", "591ccb10d410ed26dc5ba74a31362870"},
    {true, "0000000000000000000000000000000000000000000000000000000000000000", "00000000000000000000000000000000", "57ff739d4dc92c1bd7fc01700cc8216f"},
    {true, "0123456789abcdeffedcba987654321000112233445566778899aabbccddeeff", "00000000000000000000000000000000", "37527be0052334b89f0cfccae87cfa20"},
    {true, "d43bb7556ea32e46f2a282b7d45b4e0d57ff739d4dc92c1bd7fc01700cc8216f", "90afe91bb288544f2c32dc239b2635e6", "6cb4561c40bf0a9705931cb6d408e7fa"},
  };
  size_t n = sizeof(v) / sizeof(v[0]), i = c.t.below(n + 2);
  c.describe("vector " + std::to_string(i));
  c.nontrivial(i);
  if (i < n) {
    Algo a(v[i].tf, unhex(v[i].key), Bytes(16, '\0'), false);
    PBT_REQUIRE(a.ref_enc(unhex(v[i].pt)) == unhex(v[i].ct), "reference", "the reference implementation fails vector " << i);
    PBT_REQUIRE(a.enc(unhex(v[i].pt)) == unhex(v[i].ct), "vector", a.name() << " vector " << i << " gives " << pbt::hex(a.enc(unhex(v[i].pt))));
    PBT_REQUIRE(a.dec(unhex(v[i].ct)) == unhex(v[i].pt), "vector", a.name() << " decryption vector " << i);
    return;
  }
  // ECRYPT Salsa20/20 256-bit set 1 vector 0 and set 6 vector 0 (stream[0..63]).
  Bytes key = i == n ? unhex("8000000000000000000000000000000000000000000000000000000000000000") : unhex("0053A6F94C9FF24598EB3E91E4378ADD3083D6297CCF2275C81B6EC11467BA0D");
  Bytes iv = i == n ? Bytes(8, '\0') : unhex("0D74DB42A91077DE");
  Bytes want = unhex(i == n ? "E3BE8FDD8BECA2E3EA8EF9475B29A6E7003951E1097A5C38D23B7A5FAD9F6844B22C97559E2723C7CBBD3FE4FC8D9A0744652A83E72A9C461876AF4D7EF1A117"
                            : "F5FAD53F79F9DF58C4AEA0D0ED9A9601F278112CA7180D565B420A48019670EAF24CE493A86263F677B46ACE1924773D2BB25571E1AA8593758FC382B1280B71");
  PBT_REQUIRE(ref::Salsa20(key, iv).block() == want, "reference", "the reference Salsa20 fails its vector");
  keepass::Salsa20Cipher s(arr<32>(key), arr<8>(iv));
  std::array<uint8_t, 64> z{}, o{};
  s.Process(z, o);
  PBT_REQUIRE(str(o) == want, "vector", "Salsa20 vector gives " << pbt::hex(str(o)));
}

static void blocks(Case& c) {
  Bytes key = stuff(c, 32), iv = stuff(c, 16);
  bool tf = c.t.chance(1, 2), with_iv = c.t.chance(3, 4);
  if (!with_iv) iv = Bytes(16, '\0');
  Algo a(tf, key, iv, with_iv);
  size_t n = 1 + c.t.below(4);
  c.describe(std::string(a.name()) + " key " + pbt::hex(key));
  c.label(a.name());
  for (size_t i = 0; i < n; ++i) {
    Bytes p = stuff(c, 16);
    blocks_equal(a, p);
    c.eval(3);
    c.nontrivial(key + p);
  }
  // The 32-byte ECB transform is two independent blocks and ignores the IV.
  Bytes d = stuff(c, 32);
  Bytes want = a.ref_enc(d.substr(0, 16)) + a.ref_enc(d.substr(16)), wantd = a.ref_dec(d.substr(0, 16)) + a.ref_dec(d.substr(16));
  Bytes got = str(keepass::encrypt_ecb(arr<32>(d), *a.lib)), gotd = str(keepass::decrypt_ecb(arr<32>(d), *a.lib));
  PBT_REQUIRE(got == want, "ecb-encrypt", a.name() << " ECB of " << pbt::hex(d) << " gives " << pbt::hex(got) << ", standard " << pbt::hex(want));
  PBT_REQUIRE(gotd == wantd, "ecb-decrypt", a.name() << " ECB decryption of " << pbt::hex(d) << " gives " << pbt::hex(gotd) << ", standard " << pbt::hex(wantd));
}

static void salsa(Case& c) {
  Bytes key = stuff(c, 32), nonce = stuff(c, 8);
  bool with_iv = c.t.chance(3, 4);
  if (!with_iv) nonce = Bytes(8, '\0');
  std::unique_ptr<keepass::Salsa20Cipher> s(with_iv ? new keepass::Salsa20Cipher(arr<32>(key), arr<8>(nonce)) : new keepass::Salsa20Cipher(arr<32>(key)));
  ref::Salsa20 r(key, nonce);
  size_t n = 1 + (c.t.chance(1, 20) ? c.t.below(2000) : c.t.below(12));
  c.describe("Salsa20 " + std::to_string(n) + " blocks, key " + pbt::hex(key));
  c.nontrivial(key + nonce + std::to_string(n));
  Bytes fixed = c.t.bytes(64);
  for (size_t i = 0; i < n; ++i) {
    Bytes d = i < 12 ? stuff(c, 64) : fixed;
    std::array<uint8_t, 64> o{};
    s->Process(arr<64>(d), o);
    Bytes want = r.process(d);
    PBT_REQUIRE(str(o) == want, "salsa", "Salsa20 block " << i << " under " << pbt::hex(key) << "/" << pbt::hex(nonce) << " gives " << pbt::hex(str(o)) << ", standard " << pbt::hex(want));
    c.eval();
  }
}
// Stream positions whose counters need more than one and two bytes.
static void salsa_far(Case& c) {
  size_t far = c.thorough ? (size_t(1) << 22) + 100 : 66000;
  if (c.thorough && c.index == 0) far = (size_t(1) << 24) + 100;
  Bytes key = c.t.bytes(32), nonce = c.t.bytes(8);
  keepass::Salsa20Cipher s(arr<32>(key), arr<8>(nonce));
  std::array<uint8_t, 64> z{}, o{};
  c.describe("Salsa20 position " + std::to_string(far));
  c.nontrivial(key);
  for (size_t i = 0; i < far; ++i) {
    s.Process(z, o);
    if (i % 251 == 0 || (i & (i + 1)) == 0 || (i & (i - 1)) == 0 || i + 300 > far) {
      Bytes want = ref::Salsa20(key, nonce, i).block();
      PBT_REQUIRE(str(o) == want, "salsa", "Salsa20 keystream block " << i << " differs from the standard");
      c.eval();
    }
  }
}

// CBC over streams: every small length in full, boundary lengths beyond.
static void cbc(Case& c) {
  size_t idx = c.t.below(400);
  static const std::vector<size_t> big = {511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 65535, 65536, 65537, 100000};
  size_t n = idx;
  if (idx >= 300) n = c.t.of(big) + (c.t.chance(1, 3) ? c.t.below(40) : 0);
  bool tf = c.t.chance(1, 2);
  Bytes key = stuff(c, 32), iv = stuff(c, 16);
  Algo a(tf, key, iv);
  Bytes d = c.t.bytes(n);
  // Plaintext endings that look like padding.
  if (n && c.t.chance(1, 3)) { size_t k = 1 + c.t.below(std::min<size_t>(n, 17)); for (size_t i = 0; i < k; ++i) d[n - 1 - i] = char(k); }
  size_t skip = c.t.chance(1, 3) ? 1 + c.t.below(200) : 0;
  bool file = c.t.chance(1, 4);
  c.describe(std::string(a.name()) + " CBC of " + std::to_string(n) + " bytes, source position " + std::to_string(skip) + (file ? ", files" : ""));
  c.label(std::string(a.name()) + (file ? "/file" : "/memory"));
  c.label(skip ? "source:offset" : "source:start");
  c.nontrivial(key + iv + std::to_string(n));
  Bytes want = a.ref_cbc(d), pre = c.t.bytes(skip), got, back;
  auto run = [&](const Bytes& in, bool enc) {
    Bytes out;
    if (file) {
      bridge::write_file(c.dir + "/in", pre + in);
      {
        std::ifstream s(c.dir + "/in", std::ios::binary);
        std::ofstream o(c.dir + "/out", std::ios::binary);
        if (skip) { Bytes t(skip, 0); s.read(&t[0], std::streamsize(skip)); o << "prefix"; }
        if (enc) keepass::encrypt_cbc(s, o, *a.lib); else keepass::decrypt_cbc(s, o, *a.lib);
        o.close();
        PBT_REQUIRE(o.good(), "stream-state", "the destination stream is not good afterwards");
      }
      out = bridge::read_file(c.dir + "/out");
    } else {
      std::stringstream s(pre + in), o;
      if (skip) { Bytes t(skip, 0); s.read(&t[0], std::streamsize(skip)); o << "prefix"; }
      if (enc) keepass::encrypt_cbc(s, o, *a.lib); else keepass::decrypt_cbc(s, o, *a.lib);
      out = o.str();
    }
    if (skip) {
      PBT_REQUIRE(out.compare(0, 6, "prefix") == 0, "overwritten", "data already in the destination is gone");
      out = out.substr(6);
    }
    return out;
  };
  got = run(d, true);
  PBT_REQUIRE(got == want, "cbc-encrypt", a.name() << " CBC encryption of " << n << " bytes (source position " << skip << ") gives " << got.size() << " bytes, " << pbt::first_diff(got, want));
  back = run(want, false);
  PBT_REQUIRE(back == d, "cbc-decrypt", a.name() << " CBC decryption of " << n << " plain bytes (source position " << skip << ") gives " << back.size() << " bytes, " << pbt::first_diff(back, d));
  // Cipher objects keep no state between uses.
  PBT_REQUIRE(lib_cbc_encrypt(a, d) == want, "cbc-state", a.name() << " CBC encryption with a used cipher object differs");
  c.eval(2);
}

// Ciphertext with repeated and special blocks, as no random plaintext gives.
static void cbc_chosen(Case& c) {
  bool tf = c.t.chance(1, 2);
  Bytes key = stuff(c, 32), iv = stuff(c, 16);
  Algo a(tf, key, iv);
  size_t n = c.t.below(c.t.chance(1, 10) ? 100 : 9);
  auto x = [](const Bytes& p, const Bytes& q) { Bytes r(16, 0); for (size_t i = 0; i < 16; ++i) r[i] = char(p[i] ^ q[i]); return r; };
  std::vector<Bytes> ct;
  Bytes plain, prev = iv, log;
  for (size_t i = 0; i < n; ++i) {
    Bytes b;
    switch (c.t.below(8)) {
      case 0: b = Bytes(16, '\0'); log += '0'; break;
      case 1: b = Bytes(16, '\xff'); log += 'f'; break;
      case 2: b = iv; log += 'i'; break;
      case 3: case 4: b = prev; log += 'p'; break;
      case 5: b = i ? ct[c.t.below(i)] : iv; log += 'e'; break;
      case 6: b = a.ref_enc(x(c.t.chance(1, 2) ? Bytes(16, '\0') : Bytes(16, '\x10'), prev)); log += 'z'; break;
      default: b = c.t.bytes(16); log += 'r';
    }
    plain += x(a.ref_dec(b), prev);
    ct.push_back(b);
    prev = b;
  }
  size_t pad = 1 + c.t.below(16);
  Bytes last = c.t.bytes(16 - pad) + Bytes(pad, char(pad)), in;
  for (auto& b : ct) in += b;
  in += a.ref_enc(x(last, prev));
  plain += last.substr(0, 16 - pad);
  c.describe(std::string(a.name()) + " CBC of chosen ciphertext blocks " + log + ", padding " + std::to_string(pad));
  c.nontrivial(key + iv + in);
  PBT_REQUIRE(a.ref_cbc(plain) == in, "harness", "the chosen ciphertext is not that of its plaintext");
  std::stringstream s(in), o;
  Outcome r = guarded([&] { keepass::decrypt_cbc(s, o, *a.lib); });
  PBT_REQUIRE(r.ok(), "cbc-rejects-valid", a.name() << " CBC decryption of chosen blocks " << log << " fails: " << r.str());
  PBT_REQUIRE(o.str() == plain, "cbc-decrypt", a.name() << " CBC decryption of chosen blocks " << log << " gives " << pbt::first_diff(o.str(), plain));
  Bytes again = lib_cbc_encrypt(a, plain);
  PBT_REQUIRE(again == in, "cbc-encrypt", a.name() << " CBC encryption to blocks " << log << " gives " << pbt::first_diff(again, in));
}

// Ciphertext that is no whole number of blocks, or whose padding is invalid.
static void cbc_bad(Case& c) {
  bool tf = c.t.chance(1, 2);
  Bytes key = stuff(c, 32), iv = stuff(c, 16);
  Algo a(tf, key, iv);
  size_t full = c.t.below(c.t.chance(1, 10) ? 600 : 5);
  Bytes ct;
  bool valid = false;
  Bytes plain;
  std::string what;
  switch (c.t.below(4)) {
    case 0: {
      ct = a.ref_cbc(c.t.bytes(full * 16 + c.t.below(16)));
      size_t k = c.t.below(ct.size());
      if (k % 16 == 0 && k) k -= 1 + c.t.below(15);
      ct.resize(k);
      what = std::to_string(ct.size()) + " bytes of ciphertext";
      break;
    }
    case 1: what = "no ciphertext"; break;
    default: {  // arbitrary last block
      plain = c.t.bytes(full * 16);
      Bytes last = c.t.bytes(16);
      size_t p = c.t.below(c.t.chance(1, 2) ? 18 : 256);
      for (size_t i = 0; i < 16 && i < p; ++i) last[15 - i] = char(p);
      last[15] = char(p);
      if (c.t.chance(1, 2)) { size_t k = c.t.below(15); last[k] ^= char(1 + c.t.below(255)); }
      valid = p >= 1 && p <= 16;
      for (size_t i = 0; valid && i < p; ++i) valid = uint8_t(last[15 - i]) == p;
      ct = a.ref_cbc(plain + last, false);
      if (valid) plain += last.substr(0, 16 - p);
      what = "last plaintext block " + pbt::hex(last);
      break;
    }
  }
  size_t skip = c.t.chance(1, 4) ? 1 + c.t.below(40) : 0;
  c.describe(std::string(a.name()) + " " + what);
  c.label(valid ? "valid" : "invalid");
  c.nontrivial(key + ct);
  std::stringstream s(Bytes(skip, 'p') + ct), o;
  s.seekg(std::streamoff(skip));
  Outcome r = guarded([&] { keepass::decrypt_cbc(s, o, *a.lib); });
  if (valid) {
    PBT_REQUIRE(r.ok(), "cbc-rejects-valid", a.name() << " CBC decryption rejects valid padding (" << what << "): " << r.str());
    PBT_REQUIRE(o.str() == plain, "cbc-decrypt", a.name() << " CBC decryption (" << what << ") gives " << pbt::first_diff(o.str(), plain));
  } else {
    PBT_REQUIRE(!r.ok(), "cbc-accepts-invalid", a.name() << " CBC decryption of invalid data (" << what << ") reports no error and gives " << o.str().size() << " bytes");
    PBT_REQUIRE(r.kind != kUnknown, "not-std-exception", "not a standard exception");
  }
}

int main(int argc, char** argv) {
  pbt::Check k;
  k.property = "C10";
  k.rule = "distinct (key, IV, input) combinations compared with the reference implementations";
  k.assumptions = {"streams are seekable, as the library's callers provide them", "Salsa20 positions beyond 2^22 blocks (thorough: 2^24) are not reached", "AES reference is OpenSSL's EVP; Twofish and Salsa20 references were written from their specifications and satisfy the published vectors in sub-check vectors"};
  k.subs = {{"vectors", 8, 8, vectors, true}, {"blocks", 15000, 800000, blocks}, {"salsa", 6000, 200000, salsa}, {"salsa-far", 8, 16, salsa_far, false, 300}, {"cbc", 4000, 60000, cbc, true}, {"cbc-chosen", 4000, 200000, cbc_chosen}, {"cbc-bad", 12000, 500000, cbc_bad}};
  return pbt::run_check(k, argc, argv);
}

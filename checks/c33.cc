// C33: the array stream reads, writes and positions within its array.
#include <istream>
#include <memory>
#include <ostream>

#include "cipher.hh"
#include "common.hh"
#include "stream.hh"
using namespace harness;

namespace {
typedef std::char_traits<char> T;

// What an array stream is: bytes that stay as many, and two positions.
struct Model {
  Bytes a;
  size_t g = 0, p = 0;
};

std::string show(std::streamoff x) { return std::to_string(static_cast<long long>(x)); }

template <size_t N> void session(Case& c) {
  // On the heap of its own, so that any access outside is seen.
  std::unique_ptr<std::array<uint8_t, N>> arr(new std::array<uint8_t, N>);
  Model m;
  m.a = c.t.bytes(N);
  if (c.t.chance(1, 4)) m.a.assign(N, '\xff');
  std::copy(m.a.begin(), m.a.end(), arr->begin());
  keepass::array_iostreambuf<N> sb(*arr);
  std::iostream io(&sb);
  std::string trace = std::to_string(N) + " bytes:";
  size_t steps = 1 + c.t.below(c.thorough ? 60 : 25);
  for (size_t i = 0; i < steps; ++i) {
    size_t left = N - m.g, room = N - m.p;
    size_t n = c.t.chance(1, 5) ? c.t.below(2 * N + 2) : c.t.below(N / 3 + 2);
    io.clear();
    std::string what;
    switch (c.t.below(13)) {
      case 0: {
        what = "read " + std::to_string(n);
        Bytes b(n, 'z');
        io.read(&b[0], std::streamsize(n));
        size_t k = std::min(n, left);
        PBT_REQUIRE(size_t(io.gcount()) == k, "read-count", trace << what << ": " << io.gcount() << " bytes instead of " << k);
        PBT_REQUIRE(b == m.a.substr(m.g, k) + Bytes(n - k, 'z'), "read", trace << what << ": other bytes were read");
        PBT_REQUIRE(io.good() == (k == n) && io.eof() == (k < n), "read-state", trace << what << ": wrong state of the stream");
        m.g += k;
        break;
      }
      case 1: {
        what = "get";
        int ch = io.get();
        PBT_REQUIRE(ch == (left ? int(uint8_t(m.a[m.g])) : T::eof()), "get", trace << what << ": got " << ch);
        m.g += left ? 1 : 0;
        break;
      }
      case 2: {
        what = "peek";
        int ch = io.peek();
        PBT_REQUIRE(ch == (left ? int(uint8_t(m.a[m.g])) : T::eof()), "get", trace << what << ": got " << ch);
        break;
      }
      case 3: {
        what = "snextc";
        int ch = sb.snextc();
        if (left) ++m.g;
        PBT_REQUIRE(ch == (m.g < N ? int(uint8_t(m.a[m.g])) : T::eof()), "get", trace << what << ": got " << ch);
        break;
      }
      case 4: {
        what = "sungetc";
        int ch = sb.sungetc();
        PBT_REQUIRE((ch == T::eof()) == (m.g == 0), "unget", trace << what << " at " << m.g << ": got " << ch);
        if (m.g) { --m.g; PBT_REQUIRE(ch == int(uint8_t(m.a[m.g])), "unget", trace << what << ": got " << ch); }
        break;
      }
      case 5: {
        what = "write " + std::to_string(n);
        Bytes b = c.t.bytes(n);
        size_t k = std::min(n, room);
        if (c.t.chance(1, 2)) {
          io.write(b.data(), std::streamsize(n));
          PBT_REQUIRE(io.good() == (k == n), "write-state", trace << what << " with room for " << room << ": wrong state of the stream");
        } else {
          std::streamsize r = sb.sputn(b.data(), std::streamsize(n));
          PBT_REQUIRE(size_t(r) == k, "write-count", trace << what << " with room for " << room << ": " << r << " taken");
        }
        m.a.replace(m.p, k, b.substr(0, k));
        m.p += k;
        break;
      }
      case 6: {
        char ch = char(c.t.below(256));
        what = "put";
        int r = sb.sputc(ch);
        PBT_REQUIRE(r == (room ? int(uint8_t(ch)) : T::eof()), "put", trace << what << ": " << r);
        if (room) m.a[m.p++] = ch;
        break;
      }
      case 7: {
        size_t to = c.t.below(N + 1);
        what = "seekg " + std::to_string(to);
        io.seekg(std::streampos(std::streamoff(to)));
        PBT_REQUIRE(io.good(), "seek", trace << what << " failed");
        m.g = to;
        break;
      }
      case 8: {
        size_t to = c.t.below(N + 1);
        what = "seekp " + std::to_string(to);
        io.seekp(std::streampos(std::streamoff(to)));
        PBT_REQUIRE(io.good(), "seek", trace << what << " failed");
        m.p = to;
        break;
      }
      case 9: case 10: {
        // Relative to the beginning, the present position or the end.
        bool out = c.t.chance(1, 2);
        size_t to = c.t.below(N + 1), now = out ? m.p : m.g;
        static const std::ios_base::seekdir dirs[] = {std::ios::beg, std::ios::cur, std::ios::end};
        int d = int(c.t.below(3));
        std::streamoff base = d == 0 ? 0 : d == 1 ? std::streamoff(now) : std::streamoff(N), off = std::streamoff(to) - base;
        what = std::string(out ? "seekp " : "seekg ") + show(off) + (d == 0 ? " from the beginning" : d == 1 ? " from " + std::to_string(now) : " from the end");
        if (out) io.seekp(off, dirs[d]); else io.seekg(off, dirs[d]);
        PBT_REQUIRE(io.good(), "seek", trace << what << " failed");
        (out ? m.p : m.g) = to;
        break;
      }
      case 11: {
        // Somewhere outside: refused, or as far as there is something.
        bool out = c.t.chance(1, 2), far = c.t.chance(1, 2);
        std::streamoff off = std::streamoff(1 + c.t.below(c.t.chance(1, 2) ? 10 : uint64_t(1) << 40));
        what = std::string(out ? "seekp " : "seekg ") + show(off) + (far ? " behind the end" : " before the beginning");
        size_t& pos = out ? m.p : m.g;
        bool direct = c.t.chance(1, 2);
        std::streampos r;
        auto which = out ? std::ios::out : std::ios::in;
        if (direct) r = sb.pubseekpos(std::streampos(far ? std::streamoff(N) + off : -off), which);
        else r = sb.pubseekoff(far ? off : -off, far ? std::ios::end : std::ios::beg, which);
        if (std::streamoff(r) != -1) {
          size_t to = far ? N : 0;
          PBT_REQUIRE(std::streamoff(r) == std::streamoff(to), "seek-outside", trace << what << ": now at " << show(r));
          pos = to;
        }
        break;
      }
      default: {
        size_t to = c.t.below(N + 1);
        what = "seek both to " + std::to_string(to);
        std::streampos r = c.t.chance(1, 2) ? sb.pubseekpos(std::streampos(std::streamoff(to))) : sb.pubseekoff(std::streamoff(to) - std::streamoff(N), std::ios::end);
        PBT_REQUIRE(std::streamoff(r) == std::streamoff(to), "seek", trace << what << ": " << show(r));
        m.g = m.p = to;
        break;
      }
    }
    io.clear();
    trace += " " + what + ",";
    c.eval();
    std::streamoff g = io.tellg(), p = io.tellp();
    PBT_REQUIRE(g == std::streamoff(m.g), "tellg", trace << " then tellg is " << g << " instead of " << m.g);
    PBT_REQUIRE(p == std::streamoff(m.p), "tellp", trace << " then tellp is " << p << " instead of " << m.p);
    PBT_REQUIRE(std::equal(m.a.begin(), m.a.end(), arr->begin(), [](char x, uint8_t y) { return uint8_t(x) == y; }), "array", trace << " then the array is another one");
  }
  c.describe(trace.substr(0, 300));
  c.label(std::to_string(N) + " bytes");
  c.nontrivial(trace + m.a);
}

void sessions(Case& c) {
  switch (c.t.below(6)) {
    case 0: return session<1>(c);
    case 1: return session<7>(c);
    case 2: return session<16>(c);
    case 3: return session<32>(c);
    case 4: return session<255>(c);
    default: return session<4096>(c);
  }
}

// Encrypting and decrypting from one array to another, at any positions.
template <size_t N> void pass(Case& c) {
  const size_t M = N + 64;
  std::unique_ptr<std::array<uint8_t, N>> from(new std::array<uint8_t, N>), back(new std::array<uint8_t, N>);
  std::unique_ptr<std::array<uint8_t, M>> to(new std::array<uint8_t, M>);
  Bytes data = c.t.bytes(N), key = c.t.bytes(32), iv = c.t.bytes(16);
  std::copy(data.begin(), data.end(), from->begin());
  to->fill(0x55);
  back->fill(0x66);
  std::array<uint8_t, 32> k;
  std::copy(key.begin(), key.end(), k.begin());
  std::array<uint8_t, 16> v;
  std::copy(iv.begin(), iv.end(), v.begin());
  keepass::AesCipher cipher(k, v);
  size_t at = c.t.below(N + 1), n = N - at, padded = n / 16 * 16 + 16, put = M - padded;
  {
    keepass::array_iostreambuf<N> in(*from);
    keepass::array_iostreambuf<M> out(*to);
    std::istream is(&in);
    std::ostream os(&out);
    is.seekg(std::streamoff(at));
    os.seekp(-std::streamoff(padded), std::ios::end);
    keepass::encrypt_cbc(is, os, cipher);
    PBT_REQUIRE(os.good(), "blocks", "there was no room for " << padded << " bytes");
  }
  Bytes want = Bytes(put, '\x55') + ref::aes_cbc_encrypt(key, iv, data.substr(at));
  auto eq = [](char x, uint8_t y) { return uint8_t(x) == y; };
  c.eval();
  PBT_REQUIRE(std::equal(want.begin(), want.end(), to->begin(), eq), "blocks", "encrypting " << N << " bytes from " << at << " to " << put << ": other bytes");
  PBT_REQUIRE(std::equal(data.begin(), data.end(), from->begin(), eq), "source", "encrypting changed its source");
  keepass::array_iostreambuf<M> in(*to);
  keepass::array_iostreambuf<N> out(*back);
  std::istream is(&in);
  std::ostream os(&out);
  is.seekg(-std::streamoff(padded), std::ios::end);
  os.seekp(std::streamoff(at));
  keepass::decrypt_cbc(is, os, cipher);
  Bytes plain = Bytes(at, '\x66') + data.substr(at);
  PBT_REQUIRE(std::equal(plain.begin(), plain.end(), back->begin(), eq), "blocks", "decrypting " << n << " bytes to " << at << ": other bytes");
  c.nontrivial(data);
  c.describe(std::to_string(N) + " bytes from " + std::to_string(at) + " to " + std::to_string(put));
}
void blocks(Case& c) {
  switch (c.t.below(4)) {
    case 0: return pass<16>(c);
    case 1: return pass<32>(c);
    case 2: return pass<77>(c);
    default: return pass<1000>(c);
  }
}
}  // namespace

int main(int argc, char** argv) {
  pbt::Check k;
  k.property = "C33";
  k.rule = "a sequence of reads, writes and movements on an array stream; distinct by the sequence and the bytes";
  k.assumptions = {"a movement to a place outside the array may be refused or end at the nearest place inside"};
  k.subs = {{"sessions", 30000, 600000, sessions}, {"blocks", 3000, 50000, blocks}};
  return pbt::run_check(k, argc, argv);
}

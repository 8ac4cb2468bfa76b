// Ways of writing to and reading from stream buffers, and sources that deliver
// their bytes in small pieces.
#pragma once
#include <istream>
#include <iterator>
#include <ostream>
#include <streambuf>
#include <string>

#include "common.hh"

namespace harness {

// Delivers a byte string in pieces of generated sizes; reads only.
class PieceSource : public std::streambuf {
  Bytes data_, piece_;
  size_t pos_ = 0, max_;
  pbt::SplitMix r_;
 public:
  PieceSource(const Bytes& d, size_t max_piece, pbt::SplitMix r) : data_(d), max_(max_piece ? max_piece : 1), r_(r) {}
  int_type underflow() override {
    if (gptr() != egptr()) return traits_type::to_int_type(*gptr());
    if (pos_ == data_.size()) return traits_type::eof();
    size_t n = 1 + size_t((r_.next() >> 16) % max_);
    n = std::min(n, data_.size() - pos_);
    piece_ = data_.substr(pos_, n);
    pos_ += n;
    setg(&piece_[0], &piece_[0], &piece_[0] + piece_.size());
    return traits_type::to_int_type(*gptr());
  }
};

// Accepts a limited number of bytes, then fails.
class LimitedSink : public std::streambuf {
  size_t room_;
  bool throws_;
 public:
  Bytes got;
  bool hit = false;  // something was refused
  LimitedSink(size_t room, bool throws) : room_(room), throws_(throws) {}
 protected:
  int_type overflow(int_type c) override {
    if (traits_type::eq_int_type(c, traits_type::eof())) return traits_type::not_eof(c);
    char ch = traits_type::to_char_type(c);
    return xsputn(&ch, 1) == 1 ? c : traits_type::eof();
  }
  std::streamsize xsputn(const char* p, std::streamsize n) override {
    size_t k = std::min(size_t(n), room_ - got.size());
    got.append(p, k);
    if (k < size_t(n)) {
      hit = true;
      if (throws_) throw std::runtime_error("sink");
    }
    return std::streamsize(k);
  }
};

struct WritePattern {
  std::string name;
  // Writes all of d; returns false when a write reported failure.
  static bool run(Case& c, std::streambuf& sb, const Bytes& d, std::string* what) {
    std::ostream os(&sb);
    int kind = int(c.t.below(6));
    static const char* names[] = {"sputn of all", "sputc each", "sputn of pieces", "ostream write/put/<< of pieces", "iterator", "ostreambuf pieces with empty writes"};
    *what = names[kind];
    pbt::SplitMix r = c.t.sub();
    size_t max = 1 + c.t.below(c.t.chance(1, 2) ? 40 : 40000);
    auto next = [&](size_t left) { return std::min<size_t>(left, size_t((r.next() >> 16) % (max + 1))); };
    switch (kind) {
      case 0: return size_t(sb.sputn(d.data(), std::streamsize(d.size()))) == d.size();
      case 1: for (char ch : d) if (sb.sputc(ch) == std::char_traits<char>::eof()) return false; return true;
      case 4: { std::ostreambuf_iterator<char> it(&sb); for (char ch : d) *it++ = ch; return !it.failed(); }
      case 2: case 5:
        for (size_t p = 0; p < d.size();) {
          size_t n = next(d.size() - p);
          if (n == 0 && kind == 2) n = 1;
          if (size_t(sb.sputn(d.data() + p, std::streamsize(n))) != n) return false;
          p += n;
        }
        return true;
      default:
        for (size_t p = 0; p < d.size();) {
          size_t n = next(d.size() - p);
          switch ((r.next() >> 20) % 3) {
            case 0: os.write(d.data() + p, std::streamsize(n)); break;
            case 1: os << d.substr(p, n); break;
            default: n = 1; os.put(d[p]); break;
          }
          p += n;
        }
        return os.good();
    }
  }
};

struct ReadResult {
  Bytes data;          // what was delivered
  bool error = false;  // exception, or badbit of the stream
  bool std_error = true;
  bool eof = false;
};

// Reads everything by one of several patterns.
inline ReadResult read_all(Case& c, std::streambuf& sb, std::string* what, size_t limit = size_t(1) << 30) {
  ReadResult r;
  int kind = int(c.t.below(7));
  static const char* names[] = {"istream read of large pieces", "sbumpc", "sgetc/snextc", "sgetn of pieces", "istream get", "istream read of pieces", "istreambuf_iterator"};
  *what = names[kind];
  pbt::SplitMix rng = c.t.sub();
  size_t max = 1 + c.t.below(c.t.chance(1, 2) ? 40 : 40000);
  auto next = [&] { return 1 + size_t((rng.next() >> 16) % max); };
  const auto eof = std::char_traits<char>::eof();
  try {
    switch (kind) {
      case 1: for (int ch; r.data.size() < limit && (ch = sb.sbumpc()) != eof;) r.data += char(ch); r.eof = true; break;
      case 2: for (int ch = sb.sgetc(); ch != eof && r.data.size() < limit; ch = sb.snextc()) r.data += char(ch); r.eof = true; break;
      case 3:
        for (;;) {
          Bytes b(next(), '\0');
          // What sgetn had copied when it threw cannot be known; read ahead
          // byte-wise instead so that the delivered prefix is exact.
          if (sb.sgetc() == eof) break;
          std::streamsize avail = sb.in_avail();
          if (avail > 0 && size_t(avail) < b.size()) b.resize(size_t(avail));
          std::streamsize n = sb.sgetn(&b[0], std::streamsize(b.size()));
          r.data += b.substr(0, size_t(n));
          if (r.data.size() >= limit) break;
        }
        r.eof = true;
        break;
      case 6: { std::istreambuf_iterator<char> it(&sb), e; for (; it != e && r.data.size() < limit; ++it) r.data += *it; r.eof = true; break; }
      default: {
        std::istream is(&sb);
        if (kind == 4) { for (int ch; r.data.size() < limit && (ch = is.get()) != eof;) r.data += char(ch); }
        else {
          while (is.good() && r.data.size() < limit) {
            Bytes b(kind == 0 ? 65536 : next(), '\0');
            is.read(&b[0], std::streamsize(b.size()));
            // On an exception inside read(), gcount() is what arrived before.
            r.data += b.substr(0, size_t(is.gcount()));
          }
        }
        if (is.bad()) r.error = true; else r.eof = is.eof();
        break;
      }
    }
  } catch (const pbt::Failure&) { throw;
  } catch (const std::exception& e) { r.error = true;
  } catch (...) { r.error = true; r.std_error = false; }
  return r;
}

// Writes d through a writer made by `make` over a destination that fails
// somewhere: the failure is reported, and what got through is a prefix of what
// goes to a destination that does not fail.
template <typename Make>
void sink_failure(Case& c, const Bytes& d, const Bytes& whole, Make make) {
  size_t room = c.t.chance(1, 10) ? whole.size() : whole.size() - 1 - c.t.below(c.t.chance(1, 3) ? std::min<size_t>(whole.size(), 40) : whole.size());
  LimitedSink sink(room, c.t.chance(1, 3));
  std::string what;
  bool failed = false;
  {
    std::ostream os(&sink);
    if (c.t.chance(1, 4)) os.exceptions(std::ios::badbit | std::ios::failbit);
    try {
      auto sb = make(os);
      failed = !WritePattern::run(c, *sb, d, &what);
      std::ostream o(sb.get());
      o.flush();
      failed = failed || !o.good();
    } catch (const pbt::Failure&) { throw;
    } catch (const std::exception&) { failed = true; }
  }
  c.describe(std::to_string(d.size()) + " bytes, destination takes " + std::to_string(room) + " of " + std::to_string(whole.size()) + ", " + what);
  if (sink.hit) c.nontrivial(d + std::to_string(room) + what);
  PBT_REQUIRE(sink.hit == (room < whole.size()) || failed, "sink-size", "the destination could take " << room << " of " << whole.size() << " bytes");
  PBT_REQUIRE(failed == sink.hit, "sink-failure", (failed ? "failure reported though the destination took everything" : "the destination failed and the writer reports success") << " (" << what << ", " << room << " of " << whole.size() << " bytes)");
  PBT_REQUIRE(whole.compare(0, sink.got.size(), sink.got) == 0, "sink-prefix", "what the destination got is not a prefix: " << pbt::first_diff(sink.got, whole));
}
}  // namespace harness

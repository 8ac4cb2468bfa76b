// Property-based testing engine: choice-tape generation, forked workers, crash
// and hang detection, shrinking, replay files and evidence.
//
// A case is a pure function of a "tape" of 64-bit choices. While searching, the
// choices come from a PRNG seeded with (VERIF_SEED, property, sub-check, index)
// and are recorded; while replaying or shrinking they come from the recorded
// tape (0, i.e. the simplest choice, past its end). Generators are written so
// that smaller choices mean simpler cases.
#pragma once
#include <cstdint>
#include <exception>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace pbt {

using Bytes = std::string;  // byte strings throughout

struct Failure {
  std::string key;  // short stable code of what failed; groups equal failures
  std::string msg;
};
struct Discard {};

[[noreturn]] void fail(const std::string& key, const std::string& msg);
[[noreturn]] inline void discard() { throw Discard(); }

uint64_t mix(uint64_t a, uint64_t b);
uint64_t hash_bytes(const void* p, size_t n, uint64_t seed = 0);
inline uint64_t hash_str(const std::string& s, uint64_t seed = 0) {
  return hash_bytes(s.data(), s.size(), seed);
}
std::string hex(const std::string& s, size_t max = 64);
std::string quote(const std::string& s, size_t max = 80);
std::string first_diff(const std::string& a, const std::string& b);

struct SplitMix {
  uint64_t s;
  explicit SplitMix(uint64_t seed) : s(seed) {}
  uint64_t next();
};

class Tape {
  SplitMix rng_;
  bool replay_ = false;
  std::vector<uint64_t> in_;
  std::vector<uint64_t> rec_;
  size_t pos_ = 0;
 public:
  explicit Tape(uint64_t seed) : rng_(seed) {}
  explicit Tape(std::vector<uint64_t> in) : rng_(0), replay_(true), in_(std::move(in)) {}
  Tape(uint64_t seed, uint64_t first) : rng_(seed) { in_.push_back(first); }
  const std::vector<uint64_t>& recorded() const { return rec_; }

  uint64_t below(uint64_t n);                 // 0..n-1; n==0: any 64-bit value
  uint64_t range(uint64_t lo, uint64_t hi) { return lo + below(hi - lo + 1); }
  bool chance(unsigned num, unsigned den) { return below(den) >= den - num; }
  size_t pick(std::initializer_list<unsigned> weights);  // index; 0 is simplest
  template <class T> const T& of(const std::vector<T>& v) { return v[below(v.size())]; }
  Bytes bytes(size_t n);                      // arbitrary bytes from few choices
  SplitMix sub() { return SplitMix(below(0)); }
};

struct Case {
  Tape& t;
  std::string dir;       // private scratch directory, may hold files
  uint64_t index = 0;
  bool thorough = false;
  bool want_sample = false;
  std::string sample;
  std::set<std::string> labels;
  std::vector<uint64_t> nontrivial_hashes;
  uint64_t evals = 0;

  explicit Case(Tape& tape) : t(tape) {}
  void label(const std::string& l) { labels.insert(l); }
  // Marks this case as non-trivial; h identifies it among distinct ones.
  void nontrivial(uint64_t h) { nontrivial_hashes.push_back(h); }
  void nontrivial(const std::string& s) { nontrivial(hash_str(s)); }
  void describe(const std::string& s) { if (want_sample) sample = s; }
  // Counts additional executions performed inside the case.
  void eval(uint64_t n = 1) { evals += n; }
};

struct Sub {
  std::string name;
  uint64_t quick;
  uint64_t thorough;
  std::function<void(Case&)> run;
  // Enumerated: the first choice of case i is i itself (domain enumerated in
  // full when the count is the domain size).
  bool enumerated = false;
  unsigned cpu_limit_s = 60;
};

struct Check {
  std::string property;
  std::string level = "exploration";
  std::string rule;
  std::vector<std::string> assumptions;
  std::vector<Sub> subs;
  // Optional extra evidence entries: name -> JSON text.
  std::map<std::string, std::string> extra;
  // Optional extra phase run in the parent before the search (thorough fuzzing).
  std::function<int(bool thorough, uint64_t seed, std::map<std::string, std::string>& extra)> phase;
};

int run_check(const Check& check, int argc, char** argv);

std::string json_str(const std::string& s);

void set_tz(const std::string& tz);

}  // namespace pbt

#define PBT_REQUIRE(cond, key, msg)                       \
  do {                                                    \
    if (!(cond)) {                                        \
      std::ostringstream pbt_oss_;                        \
      pbt_oss_ << msg;                                    \
      ::pbt::fail(key, pbt_oss_.str());                   \
    }                                                     \
  } while (0)

// Small property-based testing engine: every random choice of a case is drawn
// from a recorded "tape" of integers, so that a case can be replayed, shrunk
// (by editing the tape) and stored as a plain text replay file.
#pragma once
#include <cstdint>
#include <cstring>
#include <functional>
#include <map>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace vp {

struct Failure : std::runtime_error {
  using std::runtime_error::runtime_error;
};

class Gen {
 public:
  // Random case.
  Gen(uint64_t seed, bool thorough);
  // Replay of a tape.
  Gen(std::vector<uint64_t> tape, bool thorough);

  // The basic draw: 0..max (inclusive); 0 is the simplest value.
  uint64_t Draw(uint64_t max);

  int64_t Int(int64_t lo, int64_t hi) {  // lo is simplest
    return lo + static_cast<int64_t>(Draw(static_cast<uint64_t>(hi) - static_cast<uint64_t>(lo)));
  }
  uint64_t U64() { return Draw(UINT64_MAX); }
  bool Bool() { return Draw(1) != 0; }
  // true with probability num/den; false is simplest.
  bool Chance(unsigned num, unsigned den) {
    const uint64_t v = Draw(den - 1);
    return v >= den - num;
  }
  template <typename T>
  const T& Pick(const std::vector<T>& list) {
    return list[static_cast<size_t>(Draw(list.size() - 1))];
  }
  template <typename T>
  T Pick(std::initializer_list<T> list) {
    return *(list.begin() + static_cast<size_t>(Draw(list.size() - 1)));
  }
  // Integer with interesting values (boundaries) for a given bit width.
  uint64_t InterestingUnsigned(unsigned bits);
  int64_t InterestingSigned(unsigned bits);
  double InterestingDouble();      // finite
  float InterestingFloat();        // finite
  // Size with a distribution biased to small values.
  size_t Size(size_t max);
  std::string Ascii(size_t max_len);   // printable, no NUL
  std::string Text(size_t max_len);    // valid UTF-8 incl. multibyte, no NUL/control characters
  std::string Ident(size_t max_len);   // [A-Za-z0-9_]+ never empty
  std::vector<uint8_t> Bytes(size_t len);
  bool Thorough() const { return thorough_; }

  // Classification.
  void Label(const std::string& text) { ++labels_[text]; }
  void Nontrivial() { nontrivial_ = true; }
  std::ostringstream& Note() { return note_; }

  const std::vector<uint64_t>& Tape() const { return tape_; }
  const std::map<std::string, uint64_t>& Labels() const { return labels_; }
  bool IsNontrivial() const { return nontrivial_; }
  std::string NoteText() const { return note_.str(); }
  uint64_t CaseSeed() const { return seed_; }

 private:
  uint64_t Next();
  bool random_ = true;
  bool thorough_ = false;
  uint64_t seed_ = 0;
  uint64_t s_[4] = {};
  std::vector<uint64_t> tape_;
  size_t pos_ = 0;
  std::map<std::string, uint64_t> labels_;
  bool nontrivial_ = false;
  std::ostringstream note_;
};

// One sub check of a property.
struct Sub {
  std::string name;
  uint64_t quick_cases;
  uint64_t thorough_cases;
  std::function<void(Gen&)> fn;   // throws Failure
  std::string rule;               // what makes a case non-trivial
  unsigned reproduce_tries = 3;   // replays used to confirm
  unsigned case_timeout_s = 60;   // far above any observed time: a hang
  bool racy = false;              // depends on the OS scheduler: one failure counts, replays are repeated
};

struct Property {
  std::string id;
  std::string level = "exploration";
  std::vector<std::string> assumptions;
  std::vector<Sub> subs;
};

// Scratch directory of the running worker process (removed by the parent).
std::string ScratchDir();

[[noreturn]] void Fail(const std::string& text);

int Main(int argc, char** argv, const Property& property);

template <typename A, typename B>
void CheckEq(const A& expected, const B& actual, const std::string& what) {
  if (!(expected == actual)) {
    std::ostringstream s;
    s.precision(17);
    s << what << ": expected <" << expected << "> got <" << actual << ">";
    Fail(s.str());
  }
}
inline void Check(bool ok, const std::string& what) {
  if (!ok) Fail(what);
}
std::string Hex(const std::vector<uint8_t>& bytes, size_t max = 48);
std::string Quote(const std::string& text, size_t max = 80);
}  // namespace vp

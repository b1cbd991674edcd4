// An independent MDF4 encoder and decoder (written from the standard, not from
// the library): generates well-formed files of any layout and says what each
// channel value is.
#pragma once
#include <cstdint>
#include <string>
#include <vector>

#include "common/model.h"
#include "vp.h"

namespace enc {

// ---- blocks
struct Blk {
  std::string id;                // "DG"
  std::vector<int> link;         // block index or -1
  std::vector<uint8_t> data;
};

struct Image {
  std::vector<Blk> blk;          // blk[0] is the HD block
  std::string version = "4.10";
  std::string file_id = "MDF     ";
  uint16_t unfinished = 0;
  int Add(const std::string& id, std::vector<int> link, std::vector<uint8_t> data);
  int Text(const std::string& text);              // TX
  int Xml(const std::string& text);               // MD
  // order[] is drawn from the generator when it is not null.
  std::vector<uint8_t> Bytes(vp::Gen* g) const;
};

struct Out {
  std::vector<uint8_t> b;
  template <typename T>
  Out& N(T v) {
    uint8_t t[sizeof(T)];
    memcpy(t, &v, sizeof(T));
    b.insert(b.end(), t, t + sizeof(T));
    return *this;
  }
  Out& Raw(const std::vector<uint8_t>& v) { b.insert(b.end(), v.begin(), v.end()); return *this; }
};

// ---- description of the generated file
enum VlsdKind { kNone, kSd, kCg };

struct Cn {
  std::string name;
  uint8_t type = 0;      // 0 fixed 1 VLSD 2 master 3 virtual master 4 sync 5 MLSD 6 virtual data
  uint8_t sync = 0;
  uint8_t dt = 0;        // data type of the standard
  uint8_t bit_off = 0;
  uint32_t byte_off = 0;
  uint32_t bits = 8;
  uint32_t flags = 0;    // 1: all invalid, 2: invalidation bit used
  uint32_t inv_pos = 0;
  VlsdKind vlsd = kNone;
  std::vector<std::vector<uint8_t>> var;  // variable length values per sample
  size_t vlsd_cg = 0;                     // index of the VLSD group in the DG
  int len_cn = -1;                        // MLSD: index of the length channel (top level)
  std::vector<Cn> comp;                   // structure members
};

struct Cg {
  uint64_t id = 0;
  std::string name;
  bool vlsd = false;
  uint32_t data_bytes = 0;
  uint32_t inv_bytes = 0;
  std::vector<Cn> cn;
  std::vector<std::vector<uint8_t>> rec;  // fixed records or VLSD values
};

struct Dg {
  uint8_t id_size = 0;
  std::vector<Cg> cg;
  std::vector<std::pair<size_t, size_t>> order;  // record stream: group, record
};

struct File {
  std::vector<Dg> dg;
  std::string Describe() const;
};

struct Opts {
  size_t max_dg = 2;
  size_t max_cg = 3;
  size_t max_cn = 7;
  size_t max_rec = 30;
  bool vlsd = true;
};

File Generate(vp::Gen& g, const Opts& o);
// How the data of the file was divided (labels are added to g).
Image Encode(vp::Gen& g, const File& f);

// All channels of a group in the order of the library (structure members after
// their parent).
std::vector<const Cn*> Flat(const Cg& cg);

// The value the standard defines.
struct Value {
  enum Kind { U, I, D, S, B } kind = U;
  bool valid = true;
  uint64_t u = 0;
  int64_t i = 0;
  double d = 0;
  std::string s;
  std::vector<uint8_t> b;
};
Value Decode(const Cg& cg, const Cn& cn, uint64_t sample);
// Reads the same from the library.
Value Read(const mdf::IChannelObserver& obs, const Cn& cn, uint64_t sample);
bool Same(const Value& a, const Value& b);
std::string Show(const Value& v);
std::string Show(const Cn& c);

// zlib and transposition as the standard defines them
std::vector<uint8_t> Zip(const std::vector<uint8_t>& in, int level);
std::vector<uint8_t> Transpose(const std::vector<uint8_t>& in, size_t columns);

// All samples of the file, read by the library, are what Decode() says. Further data groups may follow.
void CheckRead(mdf::MdfReader& r, const File& f, const std::string& when);

// Data section: plain, compressed or listed; returns the block to link to.
int EncodeData(vp::Gen& g, Image& im, const std::vector<uint8_t>& data, const std::string& type, size_t record_size);

}  // namespace enc

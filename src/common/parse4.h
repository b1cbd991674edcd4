// Independent MDF4 reader, written from the ASAM standard: block structure
// checks and record decoding. Shares no code with the library.
#pragma once
#include <cstdint>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace parse4 {

using Bytes = std::vector<uint8_t>;

struct Block {
  uint64_t pos = 0;
  std::string type;          // two letters
  uint64_t length = 0;
  std::vector<uint64_t> link;
  size_t data = 0;           // file offset of the data section
  size_t data_size = 0;
};

struct Cn {
  uint64_t pos = 0;
  std::string name, unit;
  uint8_t type = 0, sync = 0, dt = 0, bit_offset = 0;
  uint32_t byte_offset = 0, bit_count = 0, flags = 0, inval_bit = 0;
  uint64_t data_link = 0;
  uint64_t cc_link = 0;
  std::vector<Cn> composition;
  // Array elements (CA), 1 if none.
  uint64_t elements = 1;
};
struct Cg {
  uint64_t pos = 0;
  std::string name;
  uint64_t record_id = 0, cycles = 0;
  uint16_t flags = 0;
  uint32_t data_bytes = 0, inval_bytes = 0;
  std::vector<Cn> cn;
  // Records: data + invalidation bytes; or the bytes of a VLSD record.
  std::vector<Bytes> records;
};
struct Dg {
  uint64_t pos = 0;
  uint8_t rec_id_size = 0;
  uint64_t data_link = 0;
  std::vector<Cg> cg;
};

class File {
 public:
  // Parses and checks the file. Throws vp::Failure if the file is not well-formed.
  // strict: the file has to be finalized and its counters have to agree.
  explicit File(const Bytes& data, bool strict = true);

  std::vector<Dg> dg;
  uint64_t start_time = 0;
  uint16_t unfin_flags = 0;
  bool finalized = true;
  std::map<uint64_t, Block> blocks;    // every block reached, by position
  std::map<std::string, size_t> count; // number of blocks per type

  // The value bytes of a fixed length channel in a record (bit level):
  // little endian bytes of the unsigned value for integers, or the raw bytes.
  static uint64_t RawUnsigned(const Cn& cn, const Bytes& rec, size_t element = 0);
  static bool Valid(const Cn& cn, const Cg& cg, const Bytes& rec);
  static Bytes RawBytes(const Cn& cn, const Bytes& rec);
  // Data bytes of the block tree at a link (DT, SD, DZ, DL, HL, ..).
  Bytes TreeData(uint64_t link, const std::string& kind);
  // The variable length value at an offset.
  Bytes Vlsd(const Cn& cn, const Bytes& rec);

 private:
  const Bytes& d_;
  bool strict_;
  std::map<uint64_t, Bytes> sd_;       // signal data by link
  uint64_t U(size_t pos, size_t n) const;
  const Block& Get(uint64_t pos, const std::string& allowed, const std::string& from);
  std::string Text(uint64_t pos, const std::string& from, bool md = true);
  void Comment(uint64_t pos, const std::string& from);
  void Cc(uint64_t pos, int depth);
  void Si(uint64_t pos);
  std::vector<Cn> CnList(uint64_t pos, const Cg& cg, int depth);
  void Ca(uint64_t pos, Cn& cn, const Cg& cg, int depth);
  void Tree(uint64_t link, const std::string& kind, Bytes& out, int depth);
  void Overlaps();
};

// Text of an MD block: the content of its first <TX> or <tx>... element.
}  // namespace parse4

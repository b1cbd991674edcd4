// Generated measurements: description, write through the public API, read back
// through the public API and comparison.
#pragma once
#include <memory>
#include <string>
#include <vector>

#include "mdf/ichannel.h"
#include "mdf/ichannelgroup.h"
#include "mdf/idatagroup.h"
#include "mdf/mdffactory.h"
#include "mdf/mdfreader.h"
#include "mdf/mdfwriter.h"
#include "vp.h"

namespace model {

void NoLog();

struct Val {
  bool valid = true;
  uint64_t u = 0;
  int64_t i = 0;
  double d = 0;
  std::string s;
  std::vector<uint8_t> b;
};

struct ChSpec {
  std::string name;
  std::string unit;
  mdf::ChannelType type = mdf::ChannelType::FixedLength;
  mdf::ChannelSyncType sync = mdf::ChannelSyncType::None;
  mdf::ChannelDataType dt = mdf::ChannelDataType::UnsignedIntegerLe;
  uint64_t bytes = 8;        // 0: variable length for strings and byte arrays
  bool inv = false;          // invalidation bit
  bool auto_time = false;    // master whose value is calculated by the writer
};
bool IsVlsd(const ChSpec& c);
bool IsUnsigned(const ChSpec& c);
bool IsSigned(const ChSpec& c);
bool IsFloat(const ChSpec& c);
bool IsText(const ChSpec& c);
bool IsBytes(const ChSpec& c);
bool IsVirtual(const ChSpec& c);
std::string Describe(const ChSpec& c);

struct CgSpec {
  std::string name;
  std::vector<ChSpec> ch;
};
struct DgSpec {
  std::vector<CgSpec> cg;
};
struct Rec {
  size_t dg = 0;
  size_t cg = 0;
  uint64_t time = 0;
  std::vector<Val> v;            // value per channel (expected content)
  std::vector<bool> set;         // false: the channel is not set for this sample
};

struct GenOpts {
  bool mdf3 = false;
  size_t max_dg = 3;
  size_t max_cg = 3;
  size_t max_ch = 6;
  size_t max_rec = 60;
  bool vlsd = true;
  bool big = true;              // occasionally records that fill 4 MB blocks
  bool leave_unset = true;
  bool wide = true;             // occasionally many channels
  bool many = true;             // occasionally more than 255 groups
};

struct Meas {
  std::vector<DgSpec> dg;
  std::vector<Rec> rec;
  uint64_t start = 0;           // StartMeasurement time (ns since 1970)
  uint64_t stop = 0;
  std::string Describe() const;
};

std::vector<DgSpec> GenLayout(vp::Gen& g, const GenOpts& o);
Val GenVal(vp::Gen& g, const ChSpec& c);
// All samples at or after the start.
Meas GenMeas(vp::Gen& g, const GenOpts& o);

struct Created {
  std::vector<mdf::IDataGroup*> dg;
  std::vector<std::vector<mdf::IChannelGroup*>> cg;
  std::vector<std::vector<std::vector<mdf::IChannel*>>> ch;
};
// Creates the configuration in the writer.
Created CreateConfig(mdf::MdfWriter& w, const std::vector<DgSpec>& dg);
void SetValue(mdf::IChannel& ch, const ChSpec& c, const Val& v, bool as_text = false);
// Saves one record. how: 0 = SaveSample(cg), 1 = SaveSample(dg, cg), 2 = AddSample
void SaveRec(mdf::MdfWriter& w, const Created& c, const std::vector<DgSpec>& dg, const Rec& r, int how, bool as_text = false);

// What a reader gave for one channel group.
struct ReadCg {
  std::string name;
  uint64_t nof_samples = 0;
  std::vector<std::vector<Val>> ch;   // [channel][sample]
};
// Reads all data groups (0 or more), channels matched by name.
using ReadFile = std::vector<std::vector<ReadCg>>;
ReadFile ReadAll(mdf::MdfReader& r, const std::vector<DgSpec>& layout, size_t first_dg = 0);

// Compares what was read with the records of the measurement.
// The channel's expected value is normalised for its storage.
void Compare(const std::vector<DgSpec>& dg, const std::vector<Rec>& rec, uint64_t start, const ReadFile& got,
             const std::string& ctx);
void CompareVal(const ChSpec& c, const Val& expected, const Val& got, uint64_t rel_sample, int64_t rel_ns,
                const std::string& ctx);
Val ReadVal(const mdf::IChannelObserver& obs, const ChSpec& c, uint64_t sample);
// A measurement with more samples than sixteen bits can number, written and read as a whole and in parts.
void LongRun(vp::Gen& g, bool mdf3);
std::string ValText(const ChSpec& c, const Val& v);

}  // namespace model

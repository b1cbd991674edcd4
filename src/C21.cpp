// C21: the mdf2csv converter writes every sample of every group.
// The tool's main function is compiled into this harness under another name.
#include <sys/stat.h>
#include <unistd.h>

#include <algorithm>
#include <cmath>
#include <cstdlib>
#include <filesystem>
#include <map>
#include <sstream>

#include "common/io.h"
#include "common/enc3.h"
#include "common/enc4.h"
#include "common/model.h"
#include "mdf/canmessage.h"
#include "mdf/ichannelconversion.h"
#include "vp.h"

int mdf2csv_main(int argc, char* argv[]);

using namespace mdf;
using namespace model;
namespace fs = std::filesystem;

namespace {

using Row = std::vector<std::string>;
using Table = std::vector<Row>;

// A standard CSV reader: fields in quotes may hold delimiters, line ends and
// doubled quotes.
Table ParseCsv(const std::string& text, const std::string& ctx) {
  Table t;
  Row row;
  std::string field;
  size_t i = 0;
  while (i < text.size()) {
    field.clear();
    if (text[i] == '"') {
      ++i;
      for (;; ++i) {
        vp::Check(i < text.size(), ctx + ": a quoted field has no end");
        if (text[i] != '"') {
          field += text[i];
        } else if (i + 1 < text.size() && text[i + 1] == '"') {
          field += '"';
          ++i;
        } else {
          ++i;
          break;
        }
      }
      vp::Check(i < text.size() && (text[i] == ';' || text[i] == '\n'),
                ctx + ": characters after the end of a quoted field " + vp::Quote(field));
    } else {
      while (i < text.size() && text[i] != ';' && text[i] != '\n') field += text[i++];
      vp::Check(i < text.size(), ctx + ": the last line has no end");
    }
    row.push_back(field);
    if (text[i] == '\n') {
      t.push_back(row);
      row.clear();
    }
    ++i;
    if (i == text.size() && !row.empty()) {
      row.push_back("");  // delimiter at the end of the text
      vp::Fail(ctx + ": the last line has no end");
    }
  }
  return t;
}

std::string Show(const Table& t) {
  std::string s;
  for (size_t r = 0; r < t.size() && r < 4; ++r) {
    for (const auto& c : t[r]) s += vp::Quote(c) + " ";
    s += "| ";
  }
  return s + std::to_string(t.size()) + " lines";
}

bool Excluded(const std::string& name) {
  return name == "CAN_DataFrame" || name == "CAN_RemoteFrame" || name == "CAN_ErrorFrame" || name == "CAN_OverloadFrame";
}

struct Expected {
  std::string what;
  Table table;
};

// What the library itself gives for each group with samples.
std::vector<Expected> ReadTables(const std::string& file) {
  std::vector<Expected> out;
  MdfReader r(file);
  vp::Check(r.IsOk() && r.ReadEverythingButData(), "reading " + file);
  for (auto* dg : r.GetHeader()->DataGroups()) {
    ChannelObserverList all;
    std::vector<std::pair<IChannelGroup*, std::vector<const IChannelObserver*>>> groups;
    for (auto* cg : dg->ChannelGroups()) {
      if ((cg->Flags() & CgFlag::VlsdChannel) != 0 || cg->NofSamples() == 0) continue;
      std::vector<const IChannelObserver*> obs;
      for (auto* cn : cg->Channels()) {
        if ((cg->Flags() & CgFlag::BusEvent) != 0 && Excluded(cn->Name())) continue;
        auto o = CreateChannelObserver(*dg, *cg, *cn);
        if (!o) continue;
        obs.push_back(o.get());
        all.push_back(std::move(o));
      }
      std::stable_partition(obs.begin(), obs.end(), [](const auto* o) { return o->IsMaster(); });
      if (!obs.empty()) groups.emplace_back(cg, obs);
    }
    vp::Check(r.ReadData(*dg), "reading the data of " + file);
    for (auto& [cg, obs] : groups) {
      Expected e;
      e.what = fs::path(file).filename().string() + " group " + vp::Quote(cg->Name());
      Row head;
      for (const auto* o : obs) {
        const auto unit = o->Channel().Unit();
        head.push_back(o->Channel().Name() + (unit.empty() ? "" : " [" + unit + "]"));
      }
      e.table.push_back(head);
      for (uint64_t s = 0; s < cg->NofSamples(); ++s) {
        Row row;
        for (const auto* o : obs) {
          std::string v;
          const bool valid = o->GetEngValue(s, v);
          row.push_back(valid ? v : "");
        }
        e.table.push_back(row);
      }
      out.push_back(e);
    }
  }
  return out;
}

int RunTool(const std::vector<std::string>& args) {
  std::vector<std::string> copy = {"mdf2csv"};
  copy.insert(copy.end(), args.begin(), args.end());
  std::vector<char*> argv;
  for (auto& a : copy) argv.push_back(a.data());
  argv.push_back(nullptr);
  const int rc = mdf2csv_main(static_cast<int>(copy.size()), argv.data());
  NoLog();
  return rc;
}

std::map<std::string, std::string> Files(const std::string& dir) {
  std::map<std::string, std::string> out;
  if (!fs::exists(dir)) return out;
  for (const auto& e : fs::recursive_directory_iterator(dir)) {
    if (!e.is_regular_file()) continue;
    const auto b = ReadFileBytes(e.path().string());
    out[e.path().string()] = std::string(b.begin(), b.end());
  }
  return out;
}

// A temporary folder on another file system, if there is one.
struct Temp {
  std::string dir;
  bool other = false;
  Temp(vp::Gen& g, const std::string& scratch) : dir(scratch + "/tmp") {
    struct stat a, b;
    if (g.Chance(1, 4) && stat("/dev/shm", &a) == 0 && stat(scratch.c_str(), &b) == 0 && a.st_dev != b.st_dev) {
      dir = "/dev/shm/vp_c21_" + std::to_string(getpid());
      other = true;
      g.Label("temporary folder on another file system");
    }
    fs::remove_all(dir);
    fs::create_directories(dir);
    setenv("TMPDIR", dir.c_str(), 1);
  }
  ~Temp() {
    std::error_code ec;
    fs::remove_all(dir, ec);
  }
};

const char* const kOddText[] = {"\"", "a\"b", ";", "a;b", "\"quoted\"", "line 1\nline 2", " x", "x ", "a\tb", "\"\"", "'", ",", "a\";\"b"};
const char* const kGroupName[] = {"A", "A", "A ", "a b", "ab", "A.B", "AB", "", "", "CG_1", "CG_2", "A_2", "x;\"y\"", "\xC3\x84pple", "DG_1", "a/b"};

void WriteFile(vp::Gen& g, const std::string& file, bool mdf3) {
  GenOpts o;
  o.mdf3 = mdf3;
  o.big = false;
  o.wide = false;
  o.many = false;
  o.max_rec = 25;
  Meas m = GenMeas(g, o);
  for (auto& r : m.rec)
    for (size_t c = 0; c < r.v.size(); ++c) {
      const auto& ch = m.dg[r.dg].cg[r.cg].ch[c];
      if (IsText(ch) && IsVlsd(ch) && g.Chance(1, 3)) r.v[c].s = kOddText[g.Draw(std::size(kOddText) - 1)];
    }
  auto w = MdfFactory::CreateMdfWriter(mdf3 ? MdfWriterType::Mdf3Basic : MdfWriterType::Mdf4Basic);
  vp::Check(w->Init(file), "Init");
  if (!mdf3) w->CompressData(g.Bool());
  auto c = CreateConfig(*w, m.dg);
  for (size_t d = 0; d < c.dg.size(); ++d)
    for (size_t i = 0; i < c.cg[d].size(); ++i) {
      if (!mdf3 && g.Chance(2, 3)) c.cg[d][i]->Name(kGroupName[g.Draw(std::size(kGroupName) - 1)]);
      for (auto* ch : c.ch[d][i]) {
        if (g.Chance(1, 8)) ch->Name(ch->Name() + kOddText[g.Draw(4)]);
        if (g.Chance(1, 4)) ch->Unit(g.Chance(1, 2) ? "km/h" : kOddText[g.Draw(4)]);
        const auto dt = ch->DataType();
        if (ch->Type() == ChannelType::FixedLength && dt <= ChannelDataType::FloatBe && g.Chance(1, 5)) {
          auto* cc = ch->CreateChannelConversion();
          if (mdf3 || g.Bool()) {
            cc->Type(ConversionType::Linear);
            cc->Parameter(0, g.Int(-20, 20) / 4.0);
            cc->Parameter(1, g.Int(1, 20) / 8.0);
          } else {
            cc->Type(ConversionType::ValueToText);
            for (uint16_t k = 0; k < 3; ++k) {
              cc->Parameter(k, k);
              cc->Reference(k, std::string("v") + kOddText[g.Draw(std::size(kOddText) - 1)] + "v");
            }
            cc->Reference(3, "other;\"x\"");
          }
        }
      }
    }
  vp::Check(w->InitMeasurement(), "InitMeasurement");
  w->StartMeasurement(m.start);
  for (const auto& r : m.rec) SaveRec(*w, c, m.dg, r, 0);
  w->StopMeasurement(m.stop);
  vp::Check(w->FinalizeMeasurement(), "FinalizeMeasurement");
}

void WriteBusFile(vp::Gen& g, const std::string& file) {
  auto w = MdfFactory::CreateMdfWriter(MdfWriterType::MdfBusLogger);
  w->BusType(MdfBusType::CAN);
  w->StorageType(g.Bool() ? MdfStorageType::MlsdStorage : MdfStorageType::VlsdStorage);
  w->MaxLength(8);
  vp::Check(w->Init(file) && w->CreateBusLogConfiguration() && w->InitMeasurement(), "bus configuration");
  auto* dg = w->Header()->LastDataGroup();
  w->StartMeasurement(1000);
  const size_t n = 1 + g.Draw(8);
  for (size_t i = 0; i < n; ++i) {
    CanMessage msg;
    msg.MessageId(static_cast<uint32_t>(g.Draw(0x7FF)));
    msg.BusChannel(static_cast<uint8_t>(g.Draw(3)));
    msg.DataBytes(g.Bytes(g.Draw(8)));
    auto* cg = dg->GetChannelGroup(g.Bool() ? "CAN_DataFrame" : "CAN_RemoteFrame");
    vp::Check(cg != nullptr, "bus group");
    w->SaveCanMessage(*cg, 1000 + i * 1000000, msg);
  }
  w->StopMeasurement(1000 + n * 1000000);
  vp::Check(w->FinalizeMeasurement(), "FinalizeMeasurement");
}

// Files of other tools
void WriteForeign(vp::Gen& g, const std::string& file, bool mdf3) {
  enc::Opts o;
  o.max_rec = 20;
  if (mdf3) o.vlsd = false;
  enc::File f = enc::Generate(g, o);
  if (!mdf3) {
    WriteFileBytes(file, enc::Encode(g, f).Bytes(&g));
    return;
  }
  enc::ToMdf3(g, f);
  std::map<std::string, enc::Text3> text;
  std::string version;
  WriteFileBytes(file, enc::Encode3(g, f, text, version, g.Bool()));
}

void Convert(vp::Gen& g) {
  NoLog();
  const std::string dir = vp::ScratchDir(), in = dir + "/in", out = dir + "/out";
  fs::remove_all(in);
  fs::remove_all(out);
  Temp temp(g, dir);
  fs::create_directories(in + "/x/y");
  fs::create_directories(in + "/z");
  const char* const sub[] = {"/", "/x/", "/x/y/", "/z/"};
  const char* const stem[] = {"a", "a", "b", "a_DG_1", "a.b", "ab", "m 1"};
  std::vector<std::string> files;
  const size_t n = 1 + g.Draw(2);
  for (size_t i = 0; i < n; ++i) {
    const bool mdf3 = g.Chance(1, 4);
    const std::string file = in + sub[g.Draw(3)] + stem[g.Draw(std::size(stem) - 1)] + (mdf3 ? ".dat" : ".mf4");
    if (fs::exists(file)) continue;
    if (!mdf3 && g.Chance(1, 6)) WriteBusFile(g, file);
    else if (g.Chance(1, 4)) {
      g.Label("file of another tool");
      WriteForeign(g, file, mdf3);
    } else WriteFile(g, file, mdf3);
    files.push_back(file);
  }
  WriteFileBytes(in + "/note.txt", {'h', 'e', 'l', 'l', 'o'});  // not an MDF file
  std::vector<std::string> args = {"-q"};
  const bool to_out = g.Chance(2, 3);
  if (to_out) {
    args.push_back("-O");
    args.push_back(out + (g.Bool() ? "" : "/deep/er"));
  }
  const bool force = g.Chance(1, 3);
  if (force) args.push_back("--force");
  // The whole folder or each file.
  if (g.Bool()) {
    args.push_back("-i");
    args.push_back(in);
  } else {
    args.push_back("-i");
    for (const auto& f : files) args.push_back(f);
  }
  std::vector<Expected> expected;
  std::map<std::string, size_t> per_dir;  // number of CSV files in each folder
  for (const auto& f : files) {
    auto t = ReadTables(f);
    per_dir[to_out ? args[2] : fs::path(f).parent_path().string()] += t.size();
    expected.insert(expected.end(), t.begin(), t.end());
  }
  const auto before = Files(in);
  std::string cmd;
  for (const auto& a : args) cmd += a + " ";
  g.Note() << cmd;
  const int rc = RunTool(args);
  vp::CheckEq(0, rc, "exit code of mdf2csv " + cmd);
  vp::Check(fs::is_empty(temp.dir), "a temporary file was left");

  auto check = [&](const std::string& when) {
    std::map<std::string, std::string> csv = Files(out);
    for (const auto& [name, content] : Files(in)) {
      const auto it = before.find(name);
      if (it == before.end()) csv[name] = content;
      else vp::Check(it->second == content, when + ": the file " + name + " was changed");
    }
    for (const auto& [name, content] : before) vp::Check(fs::exists(name), when + ": the file " + name + " was removed");
    std::map<std::string, size_t> got;
    std::vector<std::pair<std::string, Table>> tables;
    for (const auto& [name, content] : csv) {
      vp::Check(fs::path(name).extension() == ".csv", when + ": unexpected file " + name);
      got[fs::path(name).parent_path().string()]++;
      tables.emplace_back(name, ParseCsv(content, name));
    }
    vp::CheckEq(expected.size(), tables.size(), when + ": number of CSV files");
    for (const auto& [d, count] : per_dir)
      if (count > 0) vp::CheckEq(count, got[d], when + ": number of CSV files in " + d);
    for (const auto& e : expected) {
      const auto it = std::find_if(tables.begin(), tables.end(), [&](const auto& t) { return t.second == e.table; });
      if (it == tables.end()) {
        std::string s;
        for (const auto& t : tables) s += "\n  " + t.first + ": " + Show(t.second);
        vp::Fail(when + ": no CSV file holds " + e.what + ": " + Show(e.table) + s);
      }
      tables.erase(it);
    }
    return csv;
  };
  const auto csv = check("first run");
  if (csv.empty()) return;
  g.Nontrivial();
  g.Label(to_out ? "output folder" : "beside the source");

  // A second run: a CSV file that exists is only replaced with the force option.
  auto victim = csv.begin();
  std::advance(victim, g.Draw(csv.size() - 1));
  WriteFileBytes(victim->first, {'o', 'l', 'd', '\n'});
  RunTool(args);
  if (force) {
    check("second run with force");
  } else {
    for (const auto& [name, content] : csv) {
      const auto b = ReadFileBytes(name);
      vp::CheckEq(name == victim->first ? "old\n" : content, std::string(b.begin(), b.end()), "CSV file of the second run " + name);
    }
  }
  vp::Check(fs::is_empty(temp.dir), "a temporary file was left");
}

}  // namespace

#undef main
int main(int argc, char** argv) {
  vp::Property p;
  p.id = "C21";
  p.assumptions = {"TZ=UTC", "the output folder is writable", "no array channels"};
  p.subs.push_back({"convert", 2500, 40000, Convert, "at least one CSV file is written", 3, 60});
  return vp::Main(argc, argv, p);
}

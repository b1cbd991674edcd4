// C07: bus messages are logged and read back unchanged.
#include <array>
#include <functional>
#include <map>
#include <set>

#include "common/io.h"
#include "common/model.h"
#include "common/sched.h"
#include "mdf/canbusobserver.h"
#include "mdf/canconfigadapter.h"
#include "mdf/canmessage.h"
#include "mdf/ethconfigadapter.h"
#include "mdf/ethmessage.h"
#include "mdf/flexrayconfigadapter.h"
#include "mdf/flexraymessage.h"
#include "mdf/linconfigadapter.h"
#include "mdf/linmessage.h"
#include "mdf/mostconfigadapter.h"
#include "mdf/mostmessage.h"
#include "vp.h"

using namespace mdf;
using namespace model;

namespace {

struct Field {
  enum Kind { U, S, F, B, BPrefix } kind;
  uint64_t u = 0;
  int64_t s = 0;
  double f = 0;
  std::vector<uint8_t> b;
  bool mandatory = false;
};
using Fields = std::map<std::string, Field>;

struct Put {
  Fields& f;
  std::string base;
  bool m = true;  // mandatory members come first
  void U(const std::string& n, uint64_t v) { f[base + n] = {Field::U, v, 0, 0, {}, m}; }
  void S(const std::string& n, int64_t v) { f[base + n] = {Field::S, 0, v, 0, {}, m}; }
  void F(const std::string& n, double v) { f[base + n] = {Field::F, 0, 0, v, {}, m}; }
  void B(const std::string& n, std::vector<uint8_t> v) { f[base + n] = {Field::B, 0, 0, 0, std::move(v), m}; }
  void P(const std::string& n, std::vector<uint8_t> v) { f[base + n] = {Field::BPrefix, 0, 0, 0, std::move(v), m}; }
};

struct Msg {
  size_t group = 0;
  uint64_t time = 0;
  Fields fields;
  std::function<void(MdfWriter&, const IDataGroup&, const IChannelGroup&, uint64_t)> save;
};

struct Group {
  std::string base;       // type of message, e.g. "CAN_DataFrame"
  std::string name;       // name of the channel group
  bool mandatory = false;
  bool mlsd = false;
  size_t max_length = 8;
  IDataGroup* dg = nullptr;
  IChannelGroup* cg = nullptr;
  size_t dg_index = 0;
  // The previous message of the group; an application may use one object for all of its messages.
  mutable std::shared_ptr<CanMessage> can;
  mutable std::shared_ptr<LinMessage> lin;
  mutable std::shared_ptr<EthMessage> eth;
};

// A message to fill: a new one, a used one or a used one that was reset.
template <typename T>
std::shared_ptr<T> Reuse(vp::Gen& g, std::shared_ptr<T>& prev) {
  auto msg = prev && g.Bool() ? std::make_shared<T>(*prev) : std::make_shared<T>();
  if (g.Chance(1, 4)) msg->Reset();
  prev = msg;
  return msg;
}

uint8_t DlcOf(size_t n) {
  static const size_t len[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 20, 24, 32, 48, 64};
  uint8_t d = 0;
  while (len[d] < n) ++d;
  return d;
}

Msg MakeCan(vp::Gen& g, const Group& grp) {
  Msg m;
  auto msg = Reuse(g, grp.can);
  const bool extended = g.Bool();
  const uint32_t id = static_cast<uint32_t>(g.InterestingUnsigned(extended ? 29 : 11));
  // A 29-bit identifier is marked by bit 31 of the DBC message identifier, by its value or explicitly.
  const auto how = g.Draw(2);
  if (how == 0 && extended) {
    msg->MessageId(id | 0x80000000u);
  } else {
    msg->MessageId(id);
    if (how == 1 || (extended && id <= 0x7FF)) msg->ExtendedId(extended);
  }
  vp::CheckEq(id, msg->CanId(), "CAN identifier of the message");
  vp::CheckEq(extended, msg->ExtendedId(), "extended identifier " + std::to_string(id));
  const auto bus = static_cast<uint8_t>(g.Draw(255));
  msg->BusChannel(bus);
  Put p{m.fields, grp.base + "."};
  p.U("BusChannel", bus);
  const bool dir = g.Bool();
  msg->Dir(dir);
  if (grp.base == "CAN_OverloadFrame") {
    p.U("Dir", dir);
  } else {
    size_t max = 64;
    if (grp.mlsd) max = grp.max_length;
    if (grp.base == "CAN_RemoteFrame") max = 64;
    const size_t len = g.Chance(1, 3) ? std::min<size_t>(max, 8) : static_cast<size_t>(g.Draw(max));
    const auto data = g.Bytes(len);
    const bool set_length = grp.base == "CAN_RemoteFrame" && g.Bool();
    if (set_length) msg->DataLength(static_cast<uint8_t>(len));
    else msg->DataBytes(data);
    p.U("ID", id);
    p.U("IDE", extended);
    p.U("DLC", DlcOf(len));
    p.U("DataLength", len);
    if (grp.base != "CAN_RemoteFrame") {
      if (grp.mlsd) p.P("DataBytes", data);
      else p.B("DataBytes", data);
    }
    p.m = grp.base == "CAN_ErrorFrame";
    p.U("Dir", dir);
    auto flag = [&](const char* n, void (CanMessage::*set)(bool)) {
      const bool v = g.Bool();
      ((*msg).*set)(v);
      p.U(n, v);
    };
    flag("SRR", &CanMessage::Srr);
    flag("WakeUp", &CanMessage::WakeUp);
    flag("SingleWire", &CanMessage::SingleWire);
    flag("R0", &CanMessage::R0);
    flag("R1", &CanMessage::R1);
    if (grp.base != "CAN_RemoteFrame") {
      flag("EDL", &CanMessage::Edl);
      flag("BRS", &CanMessage::Brs);
      flag("ESI", &CanMessage::Esi);
    }
    const auto dur = static_cast<uint32_t>(g.InterestingUnsigned(32));
    msg->FrameDuration(dur);
    p.U("FrameDuration", dur);
    const auto crc = static_cast<uint32_t>(g.InterestingUnsigned(32));
    msg->Crc(crc);
    p.U("CRC", crc);
    if (grp.base == "CAN_ErrorFrame") {
      const auto pos = static_cast<uint16_t>(g.InterestingUnsigned(16));
      msg->BitPosition(pos);
      p.U("BitPosition", pos);
      const auto type = static_cast<uint8_t>(g.Draw(5));
      msg->ErrorType(static_cast<CanErrorType>(type));
      p.U("ErrorType", type);
    }
  }
  m.save = [msg](MdfWriter& w, const IDataGroup& d, const IChannelGroup& c, uint64_t t) { w.SaveCanMessage(d, c, t, *msg); };
  if (g.Bool())
    m.save = [msg](MdfWriter& w, const IDataGroup&, const IChannelGroup& c, uint64_t t) { w.SaveCanMessage(c, t, *msg); };
  return m;
}

Msg MakeLin(vp::Gen& g, const Group& grp) {
  Msg m;
  auto msg = Reuse(g, grp.lin);
  Put p{m.fields, grp.base + "."};
  const std::string& b = grp.base;
  const auto bus = static_cast<uint8_t>(g.Draw(255));
  msg->BusChannel(bus);
  const auto id = static_cast<uint8_t>(g.Draw(63));
  msg->LinId(id);
  const bool dir = g.Bool();
  msg->Dir(dir);
  const auto data = g.Bytes(static_cast<size_t>(g.Draw(8)));
  msg->DataBytes(data);
  const auto received = static_cast<uint8_t>(g.Draw(15));
  msg->ReceivedDataByteCount(received);
  const auto expected = static_cast<uint8_t>(g.Draw(15));
  msg->ExpectedDataByteCount(expected);
  const auto crc = static_cast<uint8_t>(g.Draw(255));
  msg->Checksum(crc);
  const int model = static_cast<int>(g.Int(-1, 1));
  msg->ChecksumModel(static_cast<LinChecksumModel>(model));
  const uint64_t sof = g.InterestingUnsigned(64);
  msg->StartOfFrame(sof);
  const float baud = g.InterestingFloat(), response = g.InterestingFloat();
  msg->Baudrate(baud);
  msg->ResponseBaudrate(response);
  const auto brk = static_cast<uint32_t>(g.InterestingUnsigned(32)), del = static_cast<uint32_t>(g.InterestingUnsigned(32));
  msg->BreakLength(brk);
  msg->DelimiterBreakLength(del);
  const auto dom = static_cast<int>(g.Draw(2));
  msg->TypeOfLongDominantSignal(static_cast<LinTypeOfLongDominantSignal>(dom));
  const auto total = static_cast<uint32_t>(g.InterestingUnsigned(32));
  msg->TotalSignalLength(total);
  p.U("BusChannel", bus);
  if (b == "LIN_Frame") {
    p.U("ID", id);
    p.U("Dir", dir);
    p.U("ReceivedDataByteCount", received);
    p.U("DataLength", data.size());
    p.P("DataBytes", data);
    p.m = false;
    p.U("Checksum", crc);
    p.S("ChecksumModel", model);
    p.U("SOF", sof);
    p.F("Baudrate", baud);
    p.F("ResponseBaudrate", response);
    p.U("BreakLength", brk);
    p.U("BreakDelimiterLength", del);
  } else if (b == "LIN_ChecksumError") {
    p.U("ID", id);
    p.U("Dir", dir);
    p.m = false;
    p.U("ReceivedDataByteCount", received);
    p.U("DataLength", data.size());
    p.P("DataBytes", data);
    p.U("Checksum", crc);
    p.S("ChecksumModel", model);
    p.U("SOF", sof);
    p.F("Baudrate", baud);
    p.F("ResponseBaudrate", response);
    p.U("BreakLength", brk);
    p.U("BreakDelimiterLength", del);
  } else if (b == "LIN_ReceiveError") {
    p.U("ID", id);
    p.U("SpecifiedDataByteCount", expected);
    p.U("ReceivedDataByteCount", received);
    p.U("DataLength", data.size());
    p.P("DataBytes", data);
    p.S("ChecksumModel", model);
    p.U("SOF", sof);
    p.F("Baudrate", baud);
    p.F("ResponseBaudrate", response);
    p.U("BreakLength", brk);
    p.U("BreakDelimiterLength", del);
  } else if (b == "LIN_SyncError") {
    p.U("SOF", sof);
    p.F("Baudrate", baud);
    p.U("BreakLength", brk);
    p.U("BreakDelimiterLength", del);
  } else if (b == "LIN_TransmissionError") {
    p.U("ID", id);
    p.m = false;
    p.U("SpecifiedDataByteCount", expected);
    p.S("ChecksumModel", model);
    p.U("SOF", sof);
    p.F("Baudrate", baud);
    p.U("BreakLength", brk);
    p.U("BreakDelimiterLength", del);
  } else if (b == "LIN_WakeUp" || b == "LIN_Spike") {
    p.F("Baudrate", baud);
    p.U("SOF", sof);
  } else {
    p.F("Baudrate", baud);
    p.U("SOF", sof);
    p.U("Length", total);
    p.U("Type", static_cast<uint64_t>(dom));
  }
  m.save = [msg](MdfWriter& w, const IDataGroup& d, const IChannelGroup& c, uint64_t t) { w.SaveLinMessage(d, c, t, *msg); };
  if (g.Bool())
    m.save = [msg](MdfWriter& w, const IDataGroup&, const IChannelGroup& c, uint64_t t) { w.SaveLinMessage(c, t, *msg); };
  return m;
}

Msg MakeEth(vp::Gen& g, const Group& grp) {
  Msg m;
  auto msg = Reuse(g, grp.eth);
  Put p{m.fields, grp.base + "."};
  const std::string& b = grp.base;
  const auto bus = static_cast<uint8_t>(g.Draw(255));
  msg->BusChannel(bus);
  std::array<uint8_t, 6> src{}, dst{};
  for (auto& x : src) x = static_cast<uint8_t>(g.Draw(255));
  for (auto& x : dst) x = static_cast<uint8_t>(g.Draw(255));
  msg->Source(src);
  msg->Destination(dst);
  const auto type = static_cast<uint16_t>(g.InterestingUnsigned(16));
  msg->EthType(type);
  const auto data = g.Bytes(g.Chance(1, 20) ? 1500 + g.Draw(8000) : g.Size(200));
  msg->DataBytes(data);
  const auto received = static_cast<uint16_t>(g.InterestingUnsigned(16));
  msg->ReceivedDataByteCount(received);
  const auto crc = static_cast<uint32_t>(g.InterestingUnsigned(32)), ecrc = static_cast<uint32_t>(g.InterestingUnsigned(32));
  msg->Crc(crc);
  msg->ExpectedCrc(ecrc);
  const bool dir = g.Bool();
  msg->Dir(dir);
  const auto pad = static_cast<uint16_t>(g.InterestingUnsigned(16));
  msg->PaddingByteCount(pad);
  const auto err = static_cast<int>(g.Draw(1));
  msg->ErrorType(static_cast<EthErrorType>(err));
  p.U("BusChannel", bus);
  p.B("Source", {src.begin(), src.end()});
  p.B("Destination", {dst.begin(), dst.end()});
  p.U("EtherType", type);
  if (b == "ETH_Frame") {
    p.U("ReceivedDataByteCount", received);
    p.U("DataLength", data.size());
    p.B("DataBytes", data);
    p.m = false;
    p.U("CRC", crc);
  } else if (b == "ETH_ChecksumError") {
    p.U("DataLength", data.size());
    p.U("ReceivedCRC", crc);
    p.U("ExpectedCRC", ecrc);
    p.m = false;
    p.U("ReceivedDataByteCount", received);
    p.B("DataBytes", data);
  } else {
    p.U("ReceivedDataByteCount", received);
    p.m = false;
    p.U("DataLength", data.size());
    p.U("CRC", crc);
    p.B("DataBytes", data);
    if (b == "ETH_ReceiveError") p.U("ErrorType", static_cast<uint64_t>(err));
  }
  p.U("Dir", dir);
  p.U("PadByteCount", pad);
  m.save = [msg](MdfWriter& w, const IDataGroup& d, const IChannelGroup& c, uint64_t t) { w.SaveEthMessage(d, c, t, *msg); };
  if (g.Bool())
    m.save = [msg](MdfWriter& w, const IDataGroup&, const IChannelGroup& c, uint64_t t) { w.SaveEthMessage(c, t, *msg); };
  return m;
}

template <typename T>
void SaveMost(Msg& m, std::shared_ptr<T> msg) {
  m.save = [msg](MdfWriter& w, const IDataGroup& d, const IChannelGroup& c, uint64_t t) {
    w.SaveMostMessage(d, c, t, static_cast<const IMostEvent&>(*msg));
  };
}

void FillMostPacket(vp::Gen& g, MostEthernetPacket& msg, Put& p, int address_bits) {
  const auto speed = g.Draw(2), transfer = g.Draw(1), dir = g.Draw(1);
  msg.Speed(static_cast<MostSpeed>(speed));
  msg.TransferType(static_cast<MostTransferType>(transfer));
  msg.Direction(static_cast<MostDirection>(dir));
  const uint64_t src = g.InterestingUnsigned(static_cast<unsigned>(address_bits));
  const uint64_t dst = g.InterestingUnsigned(static_cast<unsigned>(address_bits));
  msg.Source(src);
  msg.Destination(dst);
  const auto data = g.Bytes(g.Size(200));
  msg.DataBytes(data);
  const auto spec = static_cast<uint16_t>(g.InterestingUnsigned(16)), rec = static_cast<uint16_t>(g.InterestingUnsigned(16));
  msg.SpecifiedNofBytes(spec);
  msg.ReceivedNofBytes(rec);
  p.U("Speed", speed);
  p.U("TransferType", transfer);
  p.U("Dir", dir);
  p.U("Source", src);
  p.U("Destination", dst);
  p.U("SpecifiedDataByteCount", spec);
  p.U("ReceivedDataByteCount", rec);
  p.U("DataLength", data.size());
  p.B("DataBytes", data);
  p.m = false;
  const auto crc = static_cast<uint32_t>(g.InterestingUnsigned(32));
  msg.Crc(crc);
  p.U("CRC", crc);
  const auto cack = g.Pick<uint64_t>({0, 1, 4}), pack = g.Pick<uint64_t>({0, 1, 4}), ack = g.Draw(15);
  msg.CompleteAck(static_cast<MostCompleteAck>(cack));
  msg.PreemptiveAck(static_cast<MostPreemptiveAck>(pack));
  msg.TxAck(static_cast<uint8_t>(ack));
  p.U("CAck", cack);
  p.U("PAck", pack);
  p.U("AckNAck", ack);
}

Msg MakeMost(vp::Gen& g, const Group& grp) {
  Msg m;
  Put p{m.fields, grp.base + "."};
  const std::string& b = grp.base;
  const auto bus = static_cast<uint8_t>(g.Draw(255));
  p.U("BusChannel", bus);
  auto u8 = [&](const char* n) {
    const auto v = static_cast<uint8_t>(g.Draw(255));
    p.U(n, v);
    return v;
  };
  auto u16 = [&](const char* n) {
    const auto v = static_cast<uint16_t>(g.InterestingUnsigned(16));
    p.U(n, v);
    return v;
  };
  auto flag = [&](const char* n) {
    const bool v = g.Bool();
    p.U(n, v);
    return v;
  };
  if (b == "MOST_Message") {
    auto msg = std::make_shared<MostMessage>();
    FillMostPacket(g, *msg, p, 16);
    msg->BusChannel(bus);
    msg->PacketIndex(u8("PIndex"));
    msg->TxFailed(flag("TxFailed"));
    const auto type = g.Draw(5);
    msg->ControlMessageType(static_cast<MostControlMessageType>(type));
    p.U("RType", type);
    SaveMost(m, msg);
  } else if (b == "MOST_Packet") {
    auto msg = std::make_shared<MostPacket>();
    FillMostPacket(g, *msg, p, 16);
    msg->BusChannel(bus);
    msg->PacketIndex(u8("PIndex"));
    SaveMost(m, msg);
  } else if (b == "MOST_EthernetPacket") {
    auto msg = std::make_shared<MostEthernetPacket>();
    FillMostPacket(g, *msg, p, 48);
    msg->BusChannel(bus);
    SaveMost(m, msg);
  } else if (b == "MOST_SignalState") {
    auto msg = std::make_shared<MostSignalState>();
    msg->BusChannel(bus);
    const auto v = g.Pick<uint64_t>({0, 1, 2, 3, 16, 32});
    msg->SignalState(static_cast<MostStateOfSignal>(v));
    p.U("State", v);
    SaveMost(m, msg);
  } else if (b == "MOST_MaxPosInfo") {
    auto msg = std::make_shared<MostMaxPosInfo>();
    msg->BusChannel(bus);
    msg->DeviceCount(u8("DeviceCount"));
    SaveMost(m, msg);
  } else if (b == "MOST_BoundDesc") {
    auto msg = std::make_shared<MostBoundDesc>();
    msg->BusChannel(bus);
    msg->BoundaryCount(u16("SBC"));
    SaveMost(m, msg);
  } else if (b == "MOST_AllocTable") {
    auto msg = std::make_shared<MostAllocTable>();
    msg->BusChannel(bus);
    msg->FreeByteCount(u16("FreeByteCount"));
    const auto v = g.Draw(1);
    msg->TableLayout(static_cast<MostTableLayout>(v));
    p.U("TableLayout", v);
    const auto data = g.Bytes(g.Size(200));
    msg->TableData(data);
    p.U("TableLength", data.size());
    p.B("TableData", data);
    SaveMost(m, msg);
  } else if (b == "MOST_SysLockState") {
    auto msg = std::make_shared<MostSysLockState>();
    msg->BusChannel(bus);
    msg->RingIsClosed(flag("SysLockState"));
    SaveMost(m, msg);
  } else {
    auto msg = std::make_shared<MostShutdownFlag>();
    msg->BusChannel(bus);
    msg->ShutdownFlag(flag("ShutdownFlag"));
    SaveMost(m, msg);
  }
  return m;
}

template <typename T>
void SaveFlx(Msg& m, std::shared_ptr<T> msg) {
  m.save = [msg](MdfWriter& w, const IDataGroup& d, const IChannelGroup& c, uint64_t t) {
    w.SaveFlexRayMessage(d, c, t, static_cast<const IFlexRayEvent&>(*msg));
  };
}

void FillFlxFrame(vp::Gen& g, FlexRayFrame& msg, Put& p, uint64_t mandatory_payload) {
  const auto dir = g.Draw(1);
  msg.Direction(static_cast<FlexRayDirection>(dir));
  p.U("Dir", dir);
  p.m = mandatory_payload != 0;
  const auto len = static_cast<uint8_t>(g.Draw(127));
  msg.PayloadLength(len);
  p.U("PayloadLength", len);
  p.m = false;
  const auto crc = static_cast<uint32_t>(g.InterestingUnsigned(24));
  msg.Crc(crc);
  p.U("CRC", crc);
  const auto hcrc = static_cast<uint16_t>(g.InterestingUnsigned(11));
  msg.HeaderCrc(hcrc);
  p.U("HeaderCRC", hcrc);
  const bool f1 = g.Bool(), f2 = g.Bool(), f3 = g.Bool(), f4 = g.Bool(), f5 = g.Bool();
  msg.Reserved(f1);
  p.U("ReservedBitFlag", f1);
  msg.PayloadPreamble(f2);
  p.U("PayloadPreambleFlag", f2);
  msg.NullFrame(f3 ? FlexRayNullFlag::NormalFrame : FlexRayNullFlag::NullFrame);
  p.U("NullFrameFlag", f3);
  msg.SyncFrame(f4);
  p.U("SyncFrameFlag", f4);
  msg.StartupFrame(f5);
  p.U("StartUpFrameFlag", f5);
  const auto flen = static_cast<uint32_t>(g.InterestingUnsigned(32));
  msg.FrameLength(flen);
  p.U("FrameLength", flen);
}

Msg MakeFlx(vp::Gen& g, const Group& grp) {
  Msg m;
  Put p{m.fields, grp.base + "."};
  const std::string& b = grp.base;
  const auto bus = static_cast<uint8_t>(g.Draw(255));
  p.U("BusChannel", bus);
  const auto cycle = static_cast<uint8_t>(g.Draw(63));
  p.U("Cycle", cycle);
  const auto id = static_cast<uint16_t>(g.InterestingUnsigned(11));
  const auto ch = g.Draw(1);
  if (b != "FLX_Symbol") {
    p.U("ID", id);
    p.U("FlxChannel", ch);
  }
  auto common = [&](IFlexRayEvent& msg) {
    msg.BusChannel(bus);
    msg.CycleCount(cycle);
    msg.FrameId(id);
    msg.Channel(static_cast<FlexRayChannel>(ch));
  };
  const auto data = g.Bytes(g.Size(254));
  if (b == "FLX_Frame") {
    auto msg = std::make_shared<FlexRayFrame>();
    common(*msg);
    p.U("DataLength", data.size());
    p.B("DataBytes", data);
    FillFlxFrame(g, *msg, p, 1);
    msg->DataBytes(data);
    SaveFlx(m, msg);
  } else if (b == "FLX_Pdu") {
    auto msg = std::make_shared<FlexRayPdu>();
    common(*msg);
    const auto len = static_cast<uint8_t>(g.Draw(255));
    msg->Length(len);
    p.U("PduLength", len);
    msg->DataBytes(data);
    p.U("DataLength", data.size());
    p.B("DataBytes", data);
    p.m = false;
    const bool f1 = g.Bool(), f2 = g.Bool();
    msg->Multiplexed(f1);
    p.U("IsMultiplexed", f1);
    msg->Valid(f2);
    p.U("ValidFlag", f2);
    const auto sw = static_cast<uint16_t>(g.InterestingUnsigned(16)), up = static_cast<uint16_t>(g.InterestingUnsigned(12));
    msg->Switch(sw);
    p.U("Switch", sw);
    msg->UpdateBitPos(up);
    p.U("UpdateBitPos", up);
    const auto bo = static_cast<uint8_t>(g.Draw(255)), bi = static_cast<uint8_t>(g.Draw(7));
    msg->ByteOffset(bo);
    p.U("PduByteOffset", bo);
    msg->BitOffset(bi);
    p.U("PduBitOffset", bi);
    SaveFlx(m, msg);
  } else if (b == "FLX_FrameHeader") {
    auto msg = std::make_shared<FlexRayFrameHeader>();
    common(*msg);
    FillFlxFrame(g, *msg, p, 1);
    p.m = false;
    msg->FillDataBytes(data);
    p.U("FillDataLength", data.size());
    p.B("FillDataBytes", data);
    SaveFlx(m, msg);
  } else if (b == "FLX_NullFrame") {
    auto msg = std::make_shared<FlexRayNullFrame>();
    common(*msg);
    FillFlxFrame(g, *msg, p, 0);
    msg->DataBytes(data);
    p.U("DataLength", data.size());
    p.B("DataBytes", data);
    SaveFlx(m, msg);
  } else if (b == "FLX_ErrorFrame") {
    auto msg = std::make_shared<FlexRayErrorFrame>();
    common(*msg);
    FillFlxFrame(g, *msg, p, 0);
    msg->DataBytes(data);
    p.U("DataLength", data.size());
    p.B("DataBytes", data);
    const bool f1 = g.Bool(), f2 = g.Bool(), f3 = g.Bool(), f4 = g.Bool(), f5 = g.Bool();
    msg->Syntax(f1);
    msg->Content(f2);
    msg->Boundary(f3);
    msg->TxConflict(f4);
    msg->Valid(f5);
    p.U("IsSyntaxError", f1);
    p.U("IsContentError", f2);
    p.U("IsSlotBndViolation", f3);
    p.U("IsTxConflict", f4);
    p.U("IsValidFrame", f5);
    SaveFlx(m, msg);
  } else {
    auto msg = std::make_shared<FlexRaySymbol>();
    msg->BusChannel(bus);
    msg->CycleCount(cycle);
    const auto mask = g.Int(1, 3);
    msg->ChannelMask(static_cast<FlexRayChannelMask>(mask));
    p.U("FlxChannelMask", static_cast<uint64_t>(mask));
    p.m = false;
    const auto len = static_cast<uint8_t>(g.Draw(255));
    msg->Length(len);
    p.U("SymbolLength", len);
    const auto type = g.Draw(3);
    msg->Type(static_cast<FlexRaySymbolType>(type));
    p.U("SymbolType", type);
    SaveFlx(m, msg);
  }
  return m;
}

const std::vector<std::string> kCan = {"CAN_DataFrame", "CAN_RemoteFrame", "CAN_ErrorFrame", "CAN_OverloadFrame"};
const std::vector<std::string> kLin = {"LIN_Frame", "LIN_ChecksumError", "LIN_ReceiveError", "LIN_SyncError",
                                       "LIN_TransmissionError", "LIN_WakeUp", "LIN_Spike", "LIN_LongDom"};
const std::vector<std::string> kEth = {"ETH_Frame", "ETH_ChecksumError", "ETH_LengthError", "ETH_ReceiveError"};
const std::vector<std::string> kMost = {"MOST_Message", "MOST_Packet", "MOST_EthernetPacket", "MOST_SignalState", "MOST_MaxPosInfo",
                                        "MOST_BoundDesc", "MOST_AllocTable", "MOST_SysLockState", "MOST_ShutdownFlag"};
const std::vector<std::string> kFlx = {"FLX_Frame", "FLX_Pdu", "FLX_FrameHeader", "FLX_NullFrame", "FLX_ErrorFrame", "FLX_Symbol"};

void CompareField(const std::string& name, const Field& e, const IChannelObserver& o, uint64_t sample) {
  const std::string where = name + " sample " + std::to_string(sample);
  switch (e.kind) {
    case Field::U: {
      uint64_t v = 0;
      vp::Check(o.GetChannelValue(sample, v), where + " is not valid");
      vp::CheckEq(e.u, v, where);
      break;
    }
    case Field::S: {
      int64_t v = 0;
      vp::Check(o.GetChannelValue(sample, v), where + " is not valid");
      vp::CheckEq(e.s, v, where);
      break;
    }
    case Field::F: {
      double v = 0;
      vp::Check(o.GetChannelValue(sample, v), where + " is not valid");
      vp::CheckEq(e.f, v, where);
      break;
    }
    case Field::B:
    case Field::BPrefix: {
      std::vector<uint8_t> v;
      vp::Check(o.GetChannelValue(sample, v), where + " is not valid");
      // Only the given length of a maximum length payload is meant.
      if (e.kind == Field::BPrefix && v.size() > e.b.size()) v.resize(e.b.size());
      if (v != e.b) vp::Fail(where + ": expected " + vp::Hex(e.b) + " got " + vp::Hex(v));
      break;
    }
  }
}

void CompareCan(const Msg& m, const Group& grp, const CanMessage& c, const std::string& where) {
  const auto& f = m.fields;
  auto get = [&](const char* n) -> const Field* {
    auto it = f.find(grp.base + "." + n);
    if (it == f.end() || (grp.mandatory && !it->second.mandatory)) return nullptr;
    return &it->second;
  };
  auto num = [&](const char* n, uint64_t got) {
    if (const auto* e = get(n)) vp::CheckEq(e->u, got, where + n);
  };
  num("BusChannel", c.BusChannel());
  num("ID", c.CanId());
  num("IDE", c.ExtendedId());
  num("DLC", c.Dlc());
  num("DataLength", c.DataLength());
  num("Dir", c.Dir());
  num("SRR", c.Srr());
  num("EDL", c.Edl());
  num("BRS", c.Brs());
  num("ESI", c.Esi());
  num("WakeUp", c.WakeUp());
  num("SingleWire", c.SingleWire());
  num("R0", c.R0());
  num("R1", c.R1());
  num("FrameDuration", c.FrameDuration());
  num("CRC", c.Crc());
  num("BitPosition", c.BitPosition());
  num("ErrorType", static_cast<uint64_t>(c.ErrorType()));
  if (const auto* e = get("DataBytes")) {
    if (e->b != c.DataBytes()) vp::Fail(where + "DataBytes: expected " + vp::Hex(e->b) + " got " + vp::Hex(c.DataBytes()));
  }
  static const std::map<std::string, MessageType> type = {{"CAN_DataFrame", MessageType::CAN_DataFrame},
                                                          {"CAN_RemoteFrame", MessageType::CAN_RemoteFrame},
                                                          {"CAN_ErrorFrame", MessageType::CAN_ErrorFrame},
                                                          {"CAN_OverloadFrame", MessageType::CAN_OverloadFrame}};
  vp::CheckEq(static_cast<int>(type.at(grp.base)), static_cast<int>(c.TypeOfMessage()), where + "type of message");
}

void Log(vp::Gen& g, int only_bus) {
  NoLog();
  const bool to_file = g.Bool();
  Io io(to_file, "bus.mf4");
  auto w = MdfFactory::CreateMdfWriter(g.Pick({MdfWriterType::MdfBusLogger, MdfWriterType::MdfBusLogger, MdfWriterType::Mdf4Basic, MdfWriterType::MdfConverter}));
  const bool compress = g.Chance(1, 3);
  w->CompressData(compress);
  vp::Check(io.Init(*w), "Init");
  const bool flush = g.Chance(1, 4);
  auto* header = w->Header();
  std::vector<Group> groups;
  const size_t nof_dg = 1 + (g.Chance(1, 3) ? g.Draw(2) : 0);
  std::string note;
  std::set<std::string> storages;
  // The adapters keep a reference to the writer.
  for (size_t d = 0; d < nof_dg; ++d) {
    const auto storage = g.Pick({MdfStorageType::FixedLengthStorage, MdfStorageType::VlsdStorage, MdfStorageType::MlsdStorage});
    const bool mandatory = g.Chance(1, 3);
    const auto max_length = static_cast<uint32_t>(g.Bool() ? 8 : 1 + g.Draw(63));
    // The settings are those of the writer or those of the adapter.
    const bool via_writer = g.Bool();
    if (via_writer) {
      w->StorageType(storage);
      w->MandatoryMembersOnly(mandatory);
      w->MaxLength(max_length);
    } else {
      w->StorageType(storage);
    }
    // All at once for the buses of the writer, or one adapter per bus.
    const bool by_writer = via_writer && d == 0 && g.Chance(1, 3);
    auto* dg = by_writer ? nullptr : header->CreateDataGroup();
    size_t nof_bus = 1 + (g.Chance(1, 4) ? g.Draw(3) : 0);
    std::vector<int> buses;
    if (by_writer) {
      static const uint16_t kMask[] = {MdfBusType::CAN, MdfBusType::LIN, MdfBusType::Ethernet, MdfBusType::MOST, MdfBusType::FlexRay};
      uint16_t mask = 0;
      for (int bus = 0; bus < 5; ++bus)
        if (bus == only_bus || g.Chance(1, 4)) {
          buses.push_back(bus);
          mask |= kMask[bus];
        }
      if (mask == 0) {
        buses.push_back(0);
        mask = kMask[0];
      }
      w->BusType(mask);
      vp::CheckEq(mask, w->BusType(), "BusType");
      vp::Check(w->CreateBusLogConfiguration(), "CreateBusLogConfiguration");
      dg = header->LastDataGroup();
      vp::Check(dg != nullptr, "no data group");
      nof_bus = buses.size();
      g.Label("configured by the writer");
    }
    std::set<int> used;
    for (size_t k = 0; k < nof_bus; ++k) {
      const int bus = by_writer ? buses[k] : only_bus >= 0 && k == 0 ? only_bus : static_cast<int>(g.Draw(4));
      std::unique_ptr<IConfigAdapter> a;
      const std::vector<std::string>* list = nullptr;
      switch (bus) {
        case 0: a = std::make_unique<CanConfigAdapter>(*w); list = &kCan; break;
        case 1: a = std::make_unique<LinConfigAdapter>(*w); list = &kLin; break;
        case 2: a = std::make_unique<EthConfigAdapter>(*w); list = &kEth; break;
        case 3: a = std::make_unique<MostConfigAdapter>(*w); list = &kMost; break;
        default: a = std::make_unique<FlexRayConfigAdapter>(*w); list = &kFlx; break;
      }
      a->MandatoryMembersOnly(mandatory);
      if (!via_writer) a->MaxLength(max_length);
      // Groups for a bus channel or a message; every group name is used once.
      std::string suffix, number;
      if (used.count(bus) > 0 && bus == 2) continue;
      const bool filter = !by_writer && bus != 2 && (used.count(bus) > 0 || g.Chance(1, 4));
      if (filter) {
        const auto channel = static_cast<uint8_t>(1 + k + 10 * g.Draw(20));
        a->ChannelFilter(channel);
        number = std::to_string(channel);
        if (g.Bool()) {
          a->FilterType(MessageFilter::ChannelFilter);
        } else {
          a->FilterType(MessageFilter::MessageIdFilter);
          const uint64_t id = g.Draw(5000);
          a->IdFilter(id);
          suffix = "_" + std::to_string(id);
        }
      }
      if (g.Chance(1, 5)) a->NetworkName("Net" + g.Ident(5));
      used.insert(bus);
      if (!by_writer) a->CreateConfig(*dg);
      const bool mlsd = (bus == 0 && storage == MdfStorageType::MlsdStorage) || bus == 1;
      for (const auto& base : *list) {
        if (base == "CAN_OverloadFrame" && mandatory) continue;
        Group x;
        x.base = base;
        const auto pos = base.find('_');
        x.name = base.substr(0, pos) + number + base.substr(pos) + suffix;
        x.mandatory = mandatory;
        x.mlsd = mlsd;
        x.max_length = bus == 1 ? 8 : std::max<size_t>(8, max_length);
        x.dg = dg;
        x.dg_index = d;
        for (auto* cg : dg->ChannelGroups())
          if (cg->Name() == x.name) x.cg = cg;
        vp::Check(x.cg != nullptr, "no channel group " + vp::Quote(x.name));
        groups.push_back(x);
      }
      note += " " + list->front().substr(0, 3) + number + suffix;
      g.Label(list->front().substr(0, 4) + (storage == MdfStorageType::FixedLengthStorage ? "sd" : storage == MdfStorageType::VlsdStorage ? "vlsd" : "mlsd") + (mandatory ? " mandatory" : ""));
    }
  }
  // Background saving of several data groups needs compression.
  w->SavePeriodic(!g.Chance(1, 4));
  const uint64_t start = 1700000000000000000ull + g.Draw(1000000000);
  std::vector<Msg> msgs;
  const size_t n = g.Size(g.Thorough() ? 400 : 120);
  uint64_t t = start;
  for (size_t i = 0; i < n; ++i) {
    // Mostly a few of the groups.
    const size_t gi = g.Chance(2, 3) ? g.Draw(std::min<size_t>(groups.size(), 4) - 1) : g.Draw(groups.size() - 1);
    const auto& grp = groups[gi];
    Msg m;
    switch (grp.base[0]) {
      case 'C': m = MakeCan(g, grp); break;
      case 'L': m = MakeLin(g, grp); break;
      case 'E': m = MakeEth(g, grp); break;
      case 'M': m = MakeMost(g, grp); break;
      default: m = MakeFlx(g, grp); break;
    }
    m.group = gi;
    m.time = t;
    t += g.Draw(3000000);
    msgs.push_back(std::move(m));
  }
  if (flush) sched::Enable();
  vp::Check(w->InitMeasurement(), "InitMeasurement");
  w->StartMeasurement(start);
  for (const auto& m : msgs) {
    m.save(*w, *groups[m.group].dg, *groups[m.group].cg, m.time);
    if (flush && g.Chance(1, 10)) sched::Tick();
  }
  w->StopMeasurement(t);
  vp::Check(w->FinalizeMeasurement(), "FinalizeMeasurement");
  if (flush) sched::Disable();
  w.reset();

  auto r = io.Reader();
  vp::Check(r->ReadEverythingButData(), "ReadEverythingButData");
  const auto dgs = r->GetHeader()->DataGroups();
  vp::CheckEq(nof_dg, dgs.size(), "number of data groups");
  const bool callback = g.Bool();
  for (size_t d = 0; d < nof_dg; ++d) {
    struct Obs {
      std::map<std::string, std::unique_ptr<IChannelObserver>> ch;
      std::unique_ptr<IChannelObserver> time;
      std::unique_ptr<CanBusObserver> can;
      std::vector<std::pair<uint64_t, CanMessage>> called;
    };
    std::map<size_t, std::unique_ptr<Obs>> obs;
    std::map<size_t, std::vector<const Msg*>> expected;
    for (const auto& m : msgs)
      if (groups[m.group].dg_index == d) expected[m.group].push_back(&m);
    // The channel observers and the CAN observers are used in separate reads:
    // a file with variable length channels is read differently with them.
    for (size_t gi = 0; gi < groups.size(); ++gi) {
      if (groups[gi].dg_index != d) continue;
      IChannelGroup* cg = nullptr;
      for (auto* c : dgs[d]->ChannelGroups())
        if (c->Name() == groups[gi].name) cg = c;
      vp::Check(cg != nullptr, "no channel group " + groups[gi].name + " in the file");
      vp::CheckEq(expected[gi].size(), cg->NofSamples(), "number of messages in " + groups[gi].name);
      const BusType bus = groups[gi].base[0] == 'C'   ? BusType::Can
                          : groups[gi].base[0] == 'L' ? BusType::Lin
                          : groups[gi].base[0] == 'E' ? BusType::Ethernet
                          : groups[gi].base[0] == 'M' ? BusType::Most
                                                      : BusType::FlexRay;
      vp::CheckEq(static_cast<int>(bus), static_cast<int>(cg->GetBusType()), "bus type of " + groups[gi].name);
      vp::Check((cg->Flags() & CgFlag::BusEvent) != 0 && (cg->Flags() & CgFlag::PlainBusEvent) != 0, groups[gi].name + " is not marked as bus events");
      if (expected[gi].empty()) continue;
      auto o = std::make_unique<Obs>();
      const auto* master = cg->GetMasterChannel();
      vp::Check(master != nullptr, "no master channel in " + groups[gi].name);
      o->time = CreateChannelObserver(*dgs[d], *cg, *master);
      for (const auto& [name, f] : expected[gi][0]->fields) {
        if (groups[gi].mandatory && !f.mandatory) continue;
        const IChannel* cn = nullptr;
        for (const auto* c : cg->Channels())
          if (c->Name() == name) cn = c;
        vp::Check(cn != nullptr, "no channel " + name);
        o->ch[name] = CreateChannelObserver(*dgs[d], *cg, *cn);
      }
      if (groups[gi].base[0] == 'C') {
        // Tools may name the group otherwise: the channel names tell the type.
        if (g.Chance(1, 8)) {
          cg->Name("Traffic " + std::to_string(gi));
          g.Label("type by the channel names");
        }
        o->can = std::make_unique<CanBusObserver>(*dgs[d], *cg);
        if (callback) {
          auto* p = o.get();
          o->can->OnCanMessage = [p](uint64_t s, const CanMessage& c) {
            p->called.emplace_back(s, c);
            return true;
          };
        }
      }
      obs[gi] = std::move(o);
    }
    vp::Check(r->ReadData(*dgs[d]), "ReadData");
    for (auto& [gi, o] : obs) {
      const auto& list = expected[gi];
      for (size_t s = 0; s < list.size(); ++s) {
        double sec = 0;
        o->time->GetChannelValue(s, sec);
        const double want = static_cast<double>(list[s]->time - start) / 1e9;
        if (!(std::abs(sec - want) <= 1e-12 + want * 1e-14)) vp::CheckEq(want, sec, groups[gi].name + " time of message " + std::to_string(s));
        for (auto& [name, ob] : o->ch) CompareField(groups[gi].name + "/" + name, list[s]->fields.at(name), *ob, s);
      }
      if (o->can) {
        if (callback) vp::CheckEq(list.size(), o->called.size(), groups[gi].name + " number of CAN call backs");
        vp::CheckEq(list.size(), o->can->NofSamples(), groups[gi].name + " CAN observer samples");
        for (size_t s = 0; s < list.size(); ++s) {
          const CanMessage* c = nullptr;
          if (callback) {
            vp::CheckEq(s, o->called[s].first, "index of the call back");
            c = &o->called[s].second;
          } else {
            c = o->can->GetCanMessage(s);
          }
          const std::string where = groups[gi].name + " CAN message " + std::to_string(s) + " ";
          vp::Check(c != nullptr, where + "is missing");
          CompareCan(*list[s], groups[gi], *c, where);
          const double want = static_cast<double>(list[s]->time - start) / 1e9;
          if (!(std::abs(c->Timestamp() - want) <= 1e-12 + want * 1e-14)) vp::CheckEq(want, c->Timestamp(), where + "time");
        }
      }
    }
    obs.clear();
    dgs[d]->ClearData();
  }
  std::set<size_t> used;
  for (const auto& m : msgs) used.insert(m.group);
  if (msgs.size() > 1 && used.size() > 1) g.Nontrivial();
  g.Note() << nof_dg << " data groups," << note << ", " << msgs.size() << " messages in " << used.size() << " groups"
           << (compress ? ", compressed" : "") << (flush ? ", background saves" : "");
}

}  // namespace

int main(int argc, char** argv) {
  vp::Property p;
  p.id = "C07";
  p.assumptions = {"field values fit the field sizes of the bus format", "payloads of maximum length storage fit the maximum length"};
  p.subs.push_back({"can", 8000, 200000, [](vp::Gen& g) { Log(g, 0); }, "at least two messages in two groups"});
  p.subs.push_back({"lin", 4000, 100000, [](vp::Gen& g) { Log(g, 1); }, "at least two messages in two groups"});
  p.subs.push_back({"eth", 4000, 100000, [](vp::Gen& g) { Log(g, 2); }, "at least two messages in two groups"});
  p.subs.push_back({"most", 4000, 100000, [](vp::Gen& g) { Log(g, 3); }, "at least two messages in two groups"});
  p.subs.push_back({"flexray", 4000, 100000, [](vp::Gen& g) { Log(g, 4); }, "at least two messages in two groups"});
  return vp::Main(argc, argv, p);
}

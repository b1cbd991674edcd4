// The "file" of a case: a file in the scratch directory or a memory buffer.
#pragma once
#include <memory>
#include <string>

#include "common/membuf.h"
#include "mdf/mdfreader.h"
#include "mdf/mdfwriter.h"
#include "vp.h"

struct Io {
  bool to_file;
  std::string name;
  std::shared_ptr<std::streambuf> buffer;
  Io(bool file, const std::string& filename) : to_file(file), name(vp::ScratchDir() + "/" + filename) {
    if (to_file) std::remove(name.c_str());
    else buffer = std::make_shared<MemBuf>();
  }
  bool Init(mdf::MdfWriter& w) const { return to_file ? w.Init(name) : w.Init(buffer); }
  std::unique_ptr<mdf::MdfReader> Reader() const {
    return to_file ? std::make_unique<mdf::MdfReader>(name) : std::make_unique<mdf::MdfReader>(buffer);
  }
  std::vector<uint8_t> Bytes() const {
    return to_file ? ReadFileBytes(name) : static_cast<MemBuf*>(buffer.get())->Data();
  }
  void Bytes(const std::vector<uint8_t>& b) const {
    if (to_file) WriteFileBytes(name, b);
    else static_cast<MemBuf*>(buffer.get())->Data() = b;
  }
};

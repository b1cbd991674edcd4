// In-memory "file": a stream buffer with one position for reading and writing
// (as a file has), which can log every write.
#pragma once
#include <cstdint>
#include <cstring>
#include <fstream>
#include <streambuf>
#include <string>
#include <vector>

class MemBuf : public std::streambuf {
 public:
  MemBuf() = default;
  explicit MemBuf(std::vector<uint8_t> data) : data_(std::move(data)) {}
  const std::vector<uint8_t>& Data() const { return data_; }
  std::vector<uint8_t>& Data() { return data_; }
  struct Write {
    size_t pos;
    std::vector<uint8_t> bytes;
  };
  bool log_writes = false;
  std::vector<Write> writes;
  // Fault: every write after this many bytes is refused (disk full).
  uint64_t capacity = UINT64_MAX;
  bool refused = false;

 protected:
  std::streamsize xsputn(const char* s, std::streamsize n) override {
    if (n <= 0) return 0;
    size_t len = static_cast<size_t>(n);
    if (pos_ + len > capacity) {
      refused = true;
      len = pos_ >= capacity ? 0 : static_cast<size_t>(capacity - pos_);
      if (len == 0) return 0;
    }
    if (log_writes) {
      writes.push_back({pos_, std::vector<uint8_t>(s, s + len)});
    }
    if (pos_ + len > data_.size()) {
      if (pos_ + len > data_.capacity()) data_.reserve((pos_ + len) * 2);
      data_.resize(pos_ + len);
    }
    std::memcpy(data_.data() + pos_, s, len);
    pos_ += len;
    return static_cast<std::streamsize>(len);
  }
  int_type overflow(int_type c) override {
    if (traits_type::eq_int_type(c, traits_type::eof())) return traits_type::not_eof(c);
    const char ch = traits_type::to_char_type(c);
    return xsputn(&ch, 1) == 1 ? c : traits_type::eof();
  }
  std::streamsize xsgetn(char* s, std::streamsize n) override {
    if (n <= 0 || pos_ >= data_.size()) return 0;
    const size_t len = std::min(static_cast<size_t>(n), data_.size() - pos_);
    std::memcpy(s, data_.data() + pos_, len);
    pos_ += len;
    return static_cast<std::streamsize>(len);
  }
  int_type underflow() override {
    if (pos_ >= data_.size()) return traits_type::eof();
    return traits_type::to_int_type(static_cast<char>(data_[pos_]));
  }
  int_type uflow() override {
    const auto c = underflow();
    if (!traits_type::eq_int_type(c, traits_type::eof())) ++pos_;
    return c;
  }
  std::streamsize showmanyc() override { return static_cast<std::streamsize>(pos_ >= data_.size() ? -1 : static_cast<int64_t>(data_.size() - pos_)); }
  pos_type seekoff(off_type off, std::ios_base::seekdir dir, std::ios_base::openmode) override {
    int64_t base = 0;
    if (dir == std::ios_base::cur) base = static_cast<int64_t>(pos_);
    if (dir == std::ios_base::end) base = static_cast<int64_t>(data_.size());
    const int64_t p = base + static_cast<int64_t>(off);
    if (p < 0) return pos_type(off_type(-1));
    pos_ = static_cast<size_t>(p);  // like a file: may be after the end
    return pos_type(p);
  }
  pos_type seekpos(pos_type p, std::ios_base::openmode which) override {
    return seekoff(off_type(p), std::ios_base::beg, which);
  }

 private:
  std::vector<uint8_t> data_;
  size_t pos_ = 0;
};

inline std::vector<uint8_t> ReadFileBytes(const std::string& name) {
  std::ifstream f(name, std::ios::binary);
  return std::vector<uint8_t>((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
}
inline void WriteFileBytes(const std::string& name, const std::vector<uint8_t>& b) {
  std::ofstream f(name, std::ios::binary | std::ios::trunc);
  f.write(reinterpret_cast<const char*>(b.data()), static_cast<std::streamsize>(b.size()));
}

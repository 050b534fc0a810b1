#pragma once
#include <cstdint>
#include <memory>
#include <vector>
#include "gipfeli/compression.h"
// Stand-in for Gipfeli: a run-length code, so that the compressed size really
// depends on the data and may exceed the uncompressed size.
namespace google::compression {
namespace verif_internal {
inline std::vector<std::uint8_t> ReadAll(Source* reader) {
  std::vector<std::uint8_t> in;
  while (reader->Available() > 0) {
    std::size_t n;
    const char* const p = reader->Peek(&n);
    in.insert(in.end(), p, p + n);
    reader->Skip(n);
  }
  return in;
}
class RunLength : public Compressor {
 public:
  std::size_t MaxCompressedLength(std::size_t nbytes) const override {
    return 2 * nbytes + 8;
  }
  std::size_t CompressStream(Source* reader, Sink* writer) override {
    std::vector<std::uint8_t> const in = ReadAll(reader);
    std::vector<std::uint8_t> out;
    for (int i = 0; i < 8; ++i) {
      out.push_back((in.size() >> (8 * i)) & 0xFF);
    }
    for (std::size_t i = 0; i < in.size();) {
      std::size_t j = i;
      while (j < in.size() && j - i < 255 && in[j] == in[i]) ++j;
      out.push_back(j - i);
      out.push_back(in[i]);
      i = j;
    }
    writer->Append(reinterpret_cast<char*>(out.data()), out.size());
    return out.size();
  }
  bool UncompressStream(Source* reader, Sink* writer) override {
    std::vector<std::uint8_t> const in = ReadAll(reader);
    if (in.size() < 8 || in.size() % 2 != 0) return false;
    std::size_t size = 0;
    for (int i = 0; i < 8; ++i) size |= std::size_t(in[i]) << (8 * i);
    std::vector<char> out;
    for (std::size_t i = 8; i < in.size(); i += 2) {
      out.insert(out.end(), in[i], static_cast<char>(in[i + 1]));
    }
    if (out.size() != size) return false;
    writer->Append(out.data(), out.size());
    return true;
  }
  bool GetUncompressedLengthStream(Source* compressed,
                                   std::size_t* result) override {
    std::size_t n;
    const char* const p = compressed->Peek(&n);
    if (n < 8) return false;
    *result = 0;
    for (int i = 0; i < 8; ++i) {
      *result |= std::size_t(static_cast<std::uint8_t>(p[i])) << (8 * i);
    }
    return true;
  }
};
}  // namespace verif_internal
inline std::unique_ptr<Compressor> NewGipfeliCompressor() {
  return std::make_unique<verif_internal::RunLength>();
}
}

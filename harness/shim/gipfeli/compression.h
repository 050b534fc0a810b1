#pragma once
#include <string>
#include "gipfeli/sinksource.h"
namespace google::compression {
class Compressor {
 public:
  virtual ~Compressor() = default;
  virtual std::size_t MaxCompressedLength(std::size_t nbytes) const = 0;
  virtual std::size_t CompressStream(Source* reader, Sink* writer) = 0;
  virtual bool UncompressStream(Source* reader, Sink* writer) = 0;
  virtual bool GetUncompressedLengthStream(Source* compressed,
                                           std::size_t* result) = 0;
};
}

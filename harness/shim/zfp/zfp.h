// Stand-in for zfp, which is not installed.  It respects the contract that
// Principia relies on: in reversible mode the data is preserved exactly, in
// accuracy mode it is altered by no more than the accuracy; the mode is
// recorded in the header.
#pragma once

#include <cmath>
#include <cstddef>
#include <cstdint>
#include <cstring>

#define ZFP_CODEC 5
#define ZFP_VERSION 0x1000
#define ZFP_HEADER_MAGIC 1u
#define ZFP_HEADER_META 2u
#define ZFP_HEADER_MODE 4u

enum zfp_type { zfp_type_none = 0, zfp_type_double = 4 };

struct zfp_field {
  zfp_type type;
  double* data;
  std::size_t size;
};

struct bitstream {
  char* data;
  std::size_t capacity;
  std::size_t position;
};

struct zfp_stream {
  bitstream* stream;
  double accuracy;  // 0 for reversible.
};

inline zfp_stream* zfp_stream_open(bitstream* s) {
  return new zfp_stream{s, 0};
}
inline void zfp_stream_close(zfp_stream* z) { delete z; }
inline void zfp_stream_set_reversible(zfp_stream* z) { z->accuracy = 0; }
inline double zfp_stream_set_accuracy(zfp_stream* z, double a) {
  return z->accuracy = a;
}
inline std::size_t zfp_stream_maximum_size(zfp_stream const*,
                                           zfp_field const* f) {
  return 32 + sizeof(double) * f->size;
}
inline bitstream* stream_open(void* p, std::size_t n) {
  return new bitstream{static_cast<char*>(p), n, 0};
}
inline void stream_close(bitstream* s) { delete s; }
inline void* stream_data(bitstream const* s) { return s->data; }
inline std::size_t stream_size(bitstream const* s) { return s->position; }
inline void zfp_stream_set_bit_stream(zfp_stream* z, bitstream* s) {
  z->stream = s;
}
inline std::size_t zfp_write_header(zfp_stream* z, zfp_field const* f, unsigned) {
  auto* const s = z->stream;
  std::memcpy(s->data + s->position, "zfp\5", 4);
  std::memcpy(s->data + s->position + 4, &z->accuracy, 8);
  s->position += 12;
  return 96;
}
inline std::size_t zfp_read_header(zfp_stream* z, zfp_field*, unsigned) {
  auto* const s = z->stream;
  if (s->capacity < s->position + 12 ||
      std::memcmp(s->data + s->position, "zfp\5", 4) != 0) {
    return 0;
  }
  std::memcpy(&z->accuracy, s->data + s->position + 4, 8);
  s->position += 12;
  return 96;
}
inline std::size_t zfp_compress(zfp_stream* z, zfp_field const* f) {
  auto* const s = z->stream;
  for (std::size_t i = 0; i < f->size; ++i) {
    double v = f->data[i];
    if (z->accuracy > 0) {
      double const q = std::nearbyint(v / z->accuracy) * z->accuracy;
      if (std::abs(q - v) <= z->accuracy) {
        v = q;
      }
    }
    std::memcpy(s->data + s->position, &v, 8);
    s->position += 8;
  }
  return s->position;
}
inline std::size_t zfp_decompress(zfp_stream* z, zfp_field* f) {
  auto* const s = z->stream;
  if (s->capacity < s->position + 8 * f->size) {
    return 0;
  }
  std::memcpy(f->data, s->data + s->position, 8 * f->size);
  s->position += 8 * f->size;
  return s->position;
}
inline zfp_field* zfp_field_1d(void* p, zfp_type t, std::size_t nx) {
  return new zfp_field{t, static_cast<double*>(p), nx};
}
inline zfp_field* zfp_field_2d(void* p, zfp_type t, std::size_t nx,
                               std::size_t ny) {
  return new zfp_field{t, static_cast<double*>(p), nx * ny};
}
inline zfp_field* zfp_field_3d(void* p, zfp_type t, std::size_t nx,
                               std::size_t ny, std::size_t nz) {
  return new zfp_field{t, static_cast<double*>(p), nx * ny * nz};
}
inline zfp_field* zfp_field_4d(void* p, zfp_type t, std::size_t nx,
                               std::size_t ny, std::size_t nz, std::size_t nw) {
  return new zfp_field{t, static_cast<double*>(p), nx * ny * nz * nw};
}
inline void zfp_field_free(zfp_field* f) { delete f; }

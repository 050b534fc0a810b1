#!/usr/bin/env python3
"""Writes patched copies of a few installed headers into DIR.

Principia expects a newer Abseil and a newer protobuf than the installed ones.
The additions below are inline and leave the layouts as they are, so that the
installed libraries may be used.  usage: make_overlay.py DIR"""

import os
import sys

DIR = sys.argv[1]


def patch(header, *edits):
    path = '/usr/include/' + header
    with open(path, encoding='utf-8') as f:
        s = f.read()
    for old, new in edits:
        if s.count(old) < 1:
            sys.exit('%s: not found: %r' % (path, old))
        s = s.replace(old, new, 1)
    out = os.path.join(DIR, header)
    os.makedirs(os.path.dirname(out), exist_ok=True)
    if not os.path.exists(out) or open(out, encoding='utf-8').read() != s:
        with open(out, 'w', encoding='utf-8') as f:
            f.write(s)


patch('absl/strings/string_view.h',
      ('#include <string>', '#include <string>\n#include <string_view>'),
      ('  // Null `string_view` constructor\n',
       '''  // Added by /verif.
  constexpr string_view(std::string_view s)  // NOLINT(runtime/explicit)
      : string_view(s.data(), s.size(), SkipCheckLengthTag{}) {}
  constexpr operator std::string_view() const {
    return std::string_view(ptr_, length_);
  }

  // Null `string_view` constructor
'''))

patch('absl/container/internal/hash_function_defaults.h',
      ('template <class T, class D>\nstruct HashEq<std::unique_ptr<T, D>>',
       '''// Added by /verif.
template <class T>
  requires requires {
    typename T::absl_container_hash;
    typename T::absl_container_eq;
  }
struct HashEq<T, void> {
  using Hash = typename T::absl_container_hash;
  using Eq = typename T::absl_container_eq;
};

template <class T, class D>
struct HashEq<std::unique_ptr<T, D>>'''))

patch('absl/container/internal/btree_container.h',
      ('  // Extract routines.\n  node_type extract(iterator position) {\n',
       '''  // Added by /verif.
  struct extract_and_get_next_return_type {
    node_type node;
    iterator next;
  };
  extract_and_get_next_return_type extract_and_get_next(
      const_iterator position) {
    iterator it(position);
    auto node = CommonAccess::Construct<node_type>(get_allocator(), it.slot());
    return {std::move(node), erase(it)};
  }

  // Extract routines.
  node_type extract(iterator position) {
'''))

# Make ArenaOptions an aggregate, in the order used by recent versions.
patch('google/protobuf/arena.h',
      ('#include <limits>', '#include <limits>\n#include <memory>'),
      ('  size_t start_block_size;\n',
       '  size_t start_block_size =\n'
       '      internal::AllocationPolicy::kDefaultStartBlockSize;\n'),
      ('  size_t max_block_size;\n',
       '  size_t max_block_size =\n'
       '      internal::AllocationPolicy::kDefaultMaxBlockSize;\n'),
      ('  char* initial_block;\n', '  char* initial_block = nullptr;\n'),
      ('  size_t initial_block_size;\n', '  size_t initial_block_size = 0;\n'),
      ('  void* (*block_alloc)(size_t);\n',
       '  void* (*block_alloc)(size_t) = nullptr;\n'),
      ('  void (*block_dealloc)(void*, size_t);\n',
       '  void (*block_dealloc)(void*, size_t) = nullptr;\n'),
      ('''  ArenaOptions()
      : start_block_size(internal::AllocationPolicy::kDefaultStartBlockSize),
        max_block_size(internal::AllocationPolicy::kDefaultMaxBlockSize),
        initial_block(NULL),
        initial_block_size(0),
        block_alloc(nullptr),
        block_dealloc(nullptr),
        make_metrics_collector(nullptr) {}

 private:
''', ''),
      ('  internal::ArenaMetricsCollector* (*make_metrics_collector)();\n',
       '  internal::ArenaMetricsCollector* (*make_metrics_collector)() = '
       'nullptr;\n'),
      ('class PROTOBUF_EXPORT PROTOBUF_ALIGNAS(8) Arena final {\n public:\n',
       '''class PROTOBUF_EXPORT PROTOBUF_ALIGNAS(8) Arena final {
 public:
  // Added by /verif.
  struct VerifDeleter {
    bool owned = true;
    template <typename T>
    void operator()(T* const t) const {
      if (owned) {
        delete t;
      }
    }
  };
  template <typename T>
  using UniquePtr = std::unique_ptr<T, VerifDeleter>;
  template <typename T>
  static UniquePtr<T> MakeUnique(Arena* const arena) {
    return UniquePtr<T>(CreateMessage<T>(arena),
                        VerifDeleter{arena == nullptr});
  }
  template <typename T, typename U>
  static UniquePtr<T> MakeUnique(Arena* const arena, U&& u) {
    UniquePtr<T> result = MakeUnique<T>(arena);
    *result = std::forward<U>(u);
    return result;
  }
'''))

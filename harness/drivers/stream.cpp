// Drives base/pull_serializer and base/push_deserializer under the controlled
// scheduler.
#include "base/pull_serializer.hpp"
#include "base/push_deserializer.hpp"

#include <google/protobuf/struct.pb.h>

#include <memory>
#include <random>
#include <string>
#include <vector>

#include "sched_driver.hpp"

using google::protobuf::ListValue;
using principia::base::_array::Array;
using principia::base::_array::UniqueArray;
using principia::base::_not_null::not_null;
using principia::base::_pull_serializer::PullSerializer;
using principia::base::_push_deserializer::PushDeserializer;
using verif::Ev;
using verif::F;
using verif::Scenario;

namespace {

// A compressor that has the format: length of the block, bytes xored with their
// position, sum.  Its output is always larger than its input.
class TestCompressor : public google::compression::Compressor {
 public:
  std::size_t MaxCompressedLength(std::size_t const n) const override {
    return n + 3;
  }
  std::size_t CompressStream(google::compression::Source* source,
                             google::compression::Sink* sink) override {
    int const i = next_compressed_++;
    std::size_t const available = source->Available();
    Ev("comp", F("i", i) + "," + F("s", available));
    std::string const out = Read(source);
    verif::sched::Point();
    // Write byte by byte, with interleaving.
    std::string header(1, static_cast<char>(out.size()));
    sink->Append(header.data(), 1);
    unsigned char sum = 0;
    for (std::size_t k = 0; k < out.size(); ++k) {
      char const c = out[k] ^ static_cast<char>(k);
      sink->Append(&c, 1);
      sum += static_cast<unsigned char>(c);
    }
    char const trailer[] = {static_cast<char>(sum), 'x'};
    sink->Append(trailer, 2);
    verif::sched::Point();
    Ev("compd", F("i", i));
    return out.size() + 3;
  }
  bool UncompressStream(google::compression::Source* source,
                        google::compression::Sink* sink) override {
    int const i = next_uncompressed_++;
    std::string const in = Read(source);
    auto const out = Uncompress(in);
    Ev("unc", F("i", i) + "," + F("s", out.has_value() ? out->size() : -1));
    if (!out.has_value()) {
      return false;
    }
    sink->Append(out->data(), out->size());
    return true;
  }
  bool GetUncompressedLengthStream(google::compression::Source*,
                                   std::size_t*) override {
    return false;
  }

  static std::optional<std::string> Uncompress(std::string const& in) {
    if (in.size() < 3 ||
        static_cast<unsigned char>(in[0]) + 3u != in.size() ||
        in.back() != 'x') {
      return std::nullopt;
    }
    std::string out;
    unsigned char sum = 0;
    for (std::size_t k = 0; k + 3 < in.size(); ++k) {
      out.push_back(in[k + 1] ^ static_cast<char>(k));
      sum += static_cast<unsigned char>(in[k + 1]);
    }
    if (static_cast<unsigned char>(in[in.size() - 2]) != sum) {
      return std::nullopt;
    }
    return out;
  }

  static std::string Compress(std::string const& in) {
    std::string out(1, static_cast<char>(in.size()));
    unsigned char sum = 0;
    for (std::size_t k = 0; k < in.size(); ++k) {
      char const c = in[k] ^ static_cast<char>(k);
      out.push_back(c);
      sum += static_cast<unsigned char>(c);
    }
    out.push_back(static_cast<char>(sum));
    out.push_back('x');
    return out;
  }

 private:
  static std::string Read(google::compression::Source* source) {
    std::string out;
    while (source->Available() > 0) {
      std::size_t length;
      char const* const data = source->Peek(&length);
      out.append(data, length);
      source->Skip(length);
    }
    return out;
  }
  int next_compressed_ = 0;
  int next_uncompressed_ = 0;
};

struct Config {
  std::string kind;  // "out", "in", "pipe".
  std::vector<int> message;  // The sizes of the strings.
  int chunk_size;
  int chunks;
  bool compression;
  std::vector<int> pushes;  // The sizes of the pushes (cyclic).
  int sleep = 0;  // Of the client, every other operation.
  bool owned = false;  // Whether the message/the chunks are owned.
  bool callbacks = true;
};

ListValue MakeMessage(Config const& config) {
  ListValue message;
  int c = 0;
  for (int const size : config.message) {
    std::string s;
    for (int i = 0; i < size; ++i) {
      s.push_back('a' + (c++ % 26));
    }
    message.add_values()->set_string_value(s);
  }
  return message;
}

std::unique_ptr<google::compression::Compressor> MakeCompressor(
    Config const& config) {
  return config.compression ? std::make_unique<TestCompressor>() : nullptr;
}

void Pause(Config const& config, int const k) {
  if (config.sleep > 0 && k % 2 == 1) {
    std::this_thread::sleep_for(std::chrono::milliseconds(config.sleep));
  }
}

// Pulls everything; `consume` is called with each chunk.
void PullAll(Config const& config,
             std::function<void(std::string const&)> const& consume) {
  ListValue const message = MakeMessage(config);
  std::string whole;
  {
    PullSerializer serializer(
        config.chunk_size, config.chunks, MakeCompressor(config));
    if (config.owned) {
      serializer.Start(
          not_null<std::unique_ptr<google::protobuf::Message const>>(
              std::make_unique<ListValue>(message)));
    } else {
      serializer.Start(&message);
    }
    Array<std::uint8_t> bytes(static_cast<std::uint8_t*>(nullptr),
                              static_cast<std::int64_t>(0));
    std::string copy;
    for (int k = 0;; ++k) {
      Pause(config, k);
      verif::sched::Point();
      // What was returned last must not have changed in the meantime.
      bool const stable =
          copy == std::string(reinterpret_cast<char const*>(bytes.data),
                              bytes.size);
      Ev("pull", F("stable", stable));
      bytes = serializer.Pull();
      copy = std::string(reinterpret_cast<char const*>(bytes.data), bytes.size);
      std::int64_t plain = copy.size();
      std::string uncompressed = copy;
      if (config.compression && !copy.empty()) {
        auto const u = TestCompressor::Uncompress(copy);
        plain = u.has_value() ? u->size() : -1;
        uncompressed = u.value_or("");
      }
      Ev("pulled", F("s", plain) + "," + F("raw", copy.size()));
      whole += uncompressed;
      consume(copy);
      if (bytes.size == 0) {
        break;
      }
    }
  }
  Ev("whole", F("ok", whole == message.SerializeAsString()));
}

void PushAll(Config const& config,
             std::function<std::optional<std::string>()> const& produce) {
  ListValue const expected = MakeMessage(config);
  ListValue actual;
  std::vector<std::unique_ptr<std::string>> buffers;
  {
    PushDeserializer deserializer(
        config.chunk_size, config.chunks, MakeCompressor(config));
    auto const done = [&expected](google::protobuf::Message const& m) {
      Ev("complete",
         F("ok", m.SerializeAsString() == expected.SerializeAsString()));
    };
    if (config.owned) {
      deserializer.Start(
          not_null<std::unique_ptr<google::protobuf::Message>>(
              std::make_unique<ListValue>()),
          done);
    } else {
      deserializer.Start(&actual, done);
    }
    for (int i = 0;; ++i) {
      auto const s = produce();
      if (!s.has_value()) {
        break;
      }
      Pause(config, i);
      bool const callback = config.callbacks && (i % 4 != 3);
      if (!config.callbacks && i % 2 == 0 && !s->empty()) {
        UniqueArray<std::uint8_t> array(s->size());
        std::memcpy(array.data.get(), s->data(), s->size());
        Ev("push", F("i", i) + "," + F("s", s->size()) + "," + F("cb", 0));
        deserializer.Push(std::move(array));
      } else {
        buffers.push_back(std::make_unique<std::string>(*s));
        auto* const buffer = buffers.back().get();
        Ev("push",
           F("i", i) + "," + F("s", s->size()) + "," + F("cb", callback));
        deserializer.Push(
            Array<std::uint8_t>(reinterpret_cast<std::uint8_t*>(buffer->data()),
                                static_cast<std::int64_t>(buffer->size())),
            callback ? std::function<void()>([buffer, i]() {
              Ev("done", F("i", i));
              // The bytes may be reclaimed.
              for (char& c : *buffer) {
                c = '\xff';
              }
            })
                     : nullptr);
      }
      Ev("pushed", F("i", i));
    }
  }
  Ev("joined");
}

void Run(Config const& config) {
  if (config.kind == "out") {
    PullAll(config, [](std::string const&) {});
  } else if (config.kind == "in") {
    std::string bytes = MakeMessage(config).SerializeAsString();
    std::size_t position = 0;
    int next = 0;
    bool ended = false;
    PushAll(config, [&]() -> std::optional<std::string> {
      if (ended) {
        return std::nullopt;
      }
      if (position == bytes.size()) {
        ended = true;
        return "";
      }
      std::size_t size = config.compression
                             ? config.chunk_size
                             : config.pushes[next++ % config.pushes.size()];
      size = std::min(size, bytes.size() - position);
      auto result = bytes.substr(position, size);
      position += size;
      return config.compression ? TestCompressor::Compress(result) : result;
    });
  } else {
    // The entire stream is pulled out, then pushed back in.
    std::vector<std::string> chunks;
    PullAll(config, [&](std::string const& s) { chunks.push_back(s); });
    std::size_t next = 0;
    PushAll(config, [&]() -> std::optional<std::string> {
      return next == chunks.size() ? std::nullopt
                                   : std::optional(chunks[next++]);
    });
  }
}

}  // namespace

int main(int argc, char** argv) {
  std::vector<Scenario> scenarios;
  auto const add = [&](Config config) {
    if (config.kind != "in" && config.message.empty()) {
      // The installed version of protobuf calls BackUp without having called
      // Next for an empty message.
      config.message = {0};
    }
    auto const total = MakeMessage(config).SerializeAsString().size();
    std::string name = config.kind + std::to_string(config.chunk_size) + "." +
                       std::to_string(config.chunks) +
                       (config.compression ? "c" : "u") +
                       (config.owned ? "o" : "") +
                       (config.callbacks ? "" : "n") + "z" +
                       std::to_string(config.sleep);
    for (int const m : config.message) name += "-" + std::to_string(m);
    for (int const p : config.pushes) name += "/" + std::to_string(p);
    scenarios.push_back(
        {name,
         F("chunk", config.chunk_size) + "," + F("chunks", config.chunks) +
             "," + F("comp", config.compression) + "," + F("total", total),
         [config]() { Run(config); }});
  };
  add({"out", {}, 4, 3, false, {}});
  add({"out", {0}, 4, 3, false, {}});
  add({"out", {4}, 4, 3, false, {}});
  add({"out", {4, 6}, 4, 3, false, {}});
  add({"out", {4, 6}, 8, 4, false, {}, 5, true});
  add({"out", {20}, 3, 3, false, {}, 0, true});
  add({"out", {12}, 4, 4, false, {}, 3});
  add({"out", {}, 4, 4, true, {}});
  add({"out", {4}, 8, 4, true, {}});
  add({"out", {10}, 4, 4, true, {}});
  add({"out", {20, 1}, 6, 4, true, {}, 4, true});
  add({"out", {20, 1}, 6, 5, true, {}});
  add({"out", {30}, 4, 5, true, {}, 4});
  add({"in", {}, 4, 1, false, {3}});
  add({"in", {4}, 4, 1, false, {3}});
  add({"in", {4}, 4, 2, false, {8}});
  add({"in", {10}, 4, 1, false, {6, 2}});
  add({"in", {10}, 4, 2, false, {9, 1, 4}});
  add({"in", {10, 3}, 4, 3, false, {5, 1}, 5, true});
  add({"in", {10, 3}, 5, 2, false, {5, 10}, 3, false, false});
  add({"in", {5, 3}, 1, 2, false, {4}});
  add({"in", {7}, 100, 1, false, {2}, 2});
  add({"in", {}, 4, 1, true, {}});
  add({"in", {}, 4, 2, false, {1}, 0, true, false});
  add({"in", {4}, 4, 1, true, {}});
  add({"in", {10}, 4, 2, true, {}});
  add({"in", {10, 3}, 6, 1, true, {}, 3, true, false});
  add({"pipe", {10, 3}, 6, 4, true, {}});
  add({"pipe", {10, 3}, 5, 4, false, {}});
  char const* const env = std::getenv("VERIF_SEED");
  std::mt19937 random(env == nullptr ? 1 : std::atoi(env));
  auto const pick = [&](int n) { return static_cast<int>(random() % n); };
  for (int i = 0; i < 36; ++i) {
    Config config;
    config.kind = i % 2 == 0 ? "out" : "in";
    config.message.resize(pick(4));
    for (auto& m : config.message) m = pick(12);
    config.chunk_size = 1 + pick(9);
    config.compression = pick(2);
    if (config.compression) config.chunk_size += 2;
    config.chunks = config.kind == "in" ? 1 + pick(3)
                                        : 3 + config.compression + pick(2);
    config.pushes.resize(1 + pick(3));
    for (auto& p : config.pushes) p = 1 + pick(12);
    config.sleep = pick(2) * pick(6);
    config.owned = pick(2);
    config.callbacks = pick(4) != 0;
    add(config);
  }
  return verif::SchedMain(argc, argv, scenarios);
}

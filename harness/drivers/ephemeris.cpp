// Drives ephemerides: prolongations, serializations and reanimations.
#include <chrono>
#include <memory>
#include <set>
#include <string>
#include <thread>
#include <vector>

#include "ephemeris_ops.hpp"
#include "seq_driver.hpp"

namespace verif {

class EphemerisDriver {
 public:
  static constexpr int kEphemerides = 3;
  static constexpr int kMessages = 3;

  explicit EphemerisDriver(Rng& rng) : rng_(rng) {
    constexpr int step_days[] = {20, 30, 45, 60, 90, 100, 200};
    options_.step_days = step_days[rng_(7)];
    options_.bodies = rng_(2, 4);
    if (rng_.Chance(60)) options_.bodies = 2;
    options_.oblate = rng_.Chance(30) ? rng_(options_.bodies) : -1;
    options_.integrator = rng_(4);
    options_.period = rng_(40, 100);
    factory_ = std::make_unique<EphemerisFactory>(options_);
  }

  struct E {
    std::unique_ptr<Eph> e;
    // What the driver believes, to pick meaningful operations.
    int inst = 0;
    int first = 0;
    int oldest = -1;  // The oldest checkpoint reanimated, -1 if all.
    std::vector<int> cps;
  };
  struct M {
    std::string bytes;
    std::vector<int> cps;
    int inst = 0;
  };

  void Observe(int const k) {
    auto const& e = *es_[k].e;
    std::vector<J> batches;
    Instant const t_min = e.t_min();
    Instant const t_max = e.t_max();
    double const begin = (t_min - factory_->At(0)) / factory_->step();
    double const end = (t_max - factory_->At(0)) / factory_->step();
    double error = 0;
    if (t_min <= t_max) {
      for (int b = std::lround(begin); b + 8 <= end; b += 8) {
        auto const batch = factory_->Observe(e, b);
        error = std::max(error, batch.error);
        batches.push_back(J(Fields{{"b", b},
                                   {"hash", batch.hash},
                                   {"agree", batch.agree},
                                   {"close", batch.close}}));
      }
    }
    Ev("obs",
       {{"k", k + 1},
        {"empty", e.empty()},
        {"bodies", factory_->BodiesOk(e)},
        {"min", factory_->TimeText(t_min)},
        {"max", factory_->TimeText(t_max)},
        {"bs", batches},
        {"ok", e.last_severe_integration_status().ok()},
        {"error", std::to_string(error)}});
  }

  void New(int const k) {
    Ev("new", {{"k", k + 1}});
    es_[k] = E{};
    es_[k].e = factory_->Make();
  }

  void Prolong(int const k, int t2, int const max) {
    auto& e = es_[k];
    // During the startup of a linear multistep integrator the instance stops
    // between the steps.
    if (options_.integrator % 2 == 1 && e.inst < 16) t2 &= ~1;
    Ev("prolong", {{"k", k + 1}, {"t2", t2}, {"max", max}});
    auto const status =
        max < 0 ? e.e->Prolong(factory_->At(t2 / 2.0))
                : e.e->Prolong(factory_->At(t2 / 2.0), max);
    Ev("prolonged",
       {{"k", k + 1},
        {"ok", status.ok()},
        {"max", factory_->TimeText(e.e->t_max())}});
    e.inst = std::max(e.inst, std::min((t2 + 1) / 2, max < 0 ? 1000000
                                                             : e.inst + max));
  }

  void Write(int const k, int const m) {
    auto& e = es_[k];
    Ev("write", {{"k", k + 1}, {"m", m + 1}});
    principia::serialization::Ephemeris message;
    e.e->WriteToMessage(&message);
    bool consistent;
    std::vector<J> cps;
    ms_[m].cps.clear();
    for (auto const& c : factory_->Checkpoints(message, consistent)) {
      cps.push_back(J(Fields{{"t", c.t}, {"hash", c.hash}}));
      ms_[m].cps.push_back(c.t);
    }
    e.cps = ms_[m].cps;
    ms_[m].inst = e.inst;
    ms_[m].bytes = message.SerializeAsString();
    Ev("written", {{"m", m + 1}, {"ok", consistent}, {"cps", cps}});
  }

  void Read(int const k, int const m, int const t2) {
    Ev("read", {{"k", k + 1}, {"m", m + 1}, {"t2", t2}});
    principia::serialization::Ephemeris message;
    if (!message.ParseFromString(ms_[m].bytes)) std::abort();
    es_[k] = E{};
    es_[k].e =
        std::unique_ptr<Eph>(Eph::ReadFromMessage(factory_->At(t2 / 2.0),
                                                  message));
    es_[k].cps = ms_[m].cps;
    for (int const c : es_[k].cps) {
      if (2 * c <= t2) {
        es_[k].inst = es_[k].oldest = c;
        es_[k].first = c / 8;
      }
    }
    Observe(k);
  }

  // A time that reanimation may reach.
  int Reachable(int const k) {
    auto const& e = es_[k];
    if (e.oldest == -1) return 2 * rng_(0, e.inst);
    int const oldest = e.cps.front() / 8 * 8;
    if (rng_.Chance(25)) return 2 * oldest;
    if (rng_.Chance(40)) {
      // Near a checkpoint.
      int const c = e.cps[rng_(e.cps.size())];
      return std::max(2 * oldest, 2 * c + rng_(-1, 1));
    }
    return rng_(2 * oldest, 2 * std::max(oldest, e.inst));
  }

  // Whether awaiting that time would succeed.
  bool CanAwait(int const k, int const t2) {
    auto const& e = es_[k];
    if (e.inst >= 8 * e.first + 8) return true;
    if (e.oldest == -1) return false;
    int at = e.cps.front();
    for (int const c : e.cps) {
      if (2 * c <= t2) at = c;
    }
    return at / 8 < e.oldest / 8;
  }

  void Step() {
    int const k = rng_(kEphemerides);
    auto& e = es_[k];
    switch (e.e == nullptr ? 90 : rng_(100)) {
      case 0 ... 29: {
        int const t2 =
            rng_.Chance(20)
                ? rng_(-2, 2 * e.inst + 2)
                : rng_.Chance(20) ? 2 * (e.inst / 8 + rng_(3)) * 8 + rng_(-1, 1)
                                  : 2 * e.inst + rng_(1, 80);
        Prolong(k, std::min(t2, 2 * 240), rng_.Chance(60) ? -1 : rng_(12));
        if (rng_.Chance(30)) Observe(k);
        break;
      }
      case 30 ... 44:
        Write(k, rng_(kMessages));
        break;
      case 45 ... 59: {
        int const t2 = Reachable(k);
        Ev("request", {{"k", k + 1}, {"t2", t2}});
        e.e->RequestReanimation(factory_->At(t2 / 2.0));
        Observe(k);
        break;
      }
      case 60 ... 74: {
        int const t2 = Reachable(k);
        if (!CanAwait(k, t2)) break;
        Ev("await", {{"k", k + 1}, {"t2", t2}});
        e.e->AwaitReanimation(factory_->At(t2 / 2.0));
        Ev("awaited",
           {{"k", k + 1}, {"min", factory_->TimeText(e.e->t_min())}});
        Observe(k);
        break;
      }
      default: {
        std::vector<int> ms;
        for (int m = 0; m < kMessages; ++m) {
          if (!ms_[m].bytes.empty()) ms.push_back(m);
        }
        if (ms.empty() || rng_.Chance(5)) {
          New(k);
          break;
        }
        int const m = ms[rng_(ms.size())];
        auto const& cps = ms_[m].cps;
        int const t2 = rng_.Chance(2)
                           ? 2 * cps.front() - 1 - rng_(3)
                           : rng_.Chance(50)
                                 ? 2 * cps[rng_(cps.size())] + rng_(2)
                                 : rng_(2 * cps.front(), 2 * ms_[m].inst + 4);
        Read(k, m, t2);
        break;
      }
    }
  }

  void Run() {
    verif::Cfg({{"days", options_.step_days},
                {"integrator", options_.integrator},
                {"bodies", options_.bodies},
                {"oblate", options_.oblate}});
    New(0);
    if (rng_.Chance(5)) Write(0, 0);
    if (rng_.Chance(70)) Prolong(0, rng_(1, 2 * 150), -1);
    if (rng_.Chance(70)) Write(0, 0);
    int const steps = rng_(4, 16);
    for (int i = 0; i < steps; ++i) {
      Step();
    }
    for (int k = 0; k < kEphemerides; ++k) {
      if (es_[k].e != nullptr) Observe(k);
    }
  }

 private:
  Rng& rng_;
  EphemerisOptions options_;
  std::unique_ptr<EphemerisFactory> factory_;
  E es_[kEphemerides];
  M ms_[kMessages];
};

}  // namespace verif

int main(int argc, char** argv) {
  return verif::SeqMain(argc, argv, [](std::int64_t, verif::Rng& rng) {
    verif::EphemerisDriver(rng).Run();
  });
}

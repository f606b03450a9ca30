#ifndef H_UTIL_H_
#define H_UTIL_H_
#include "cyclus.h"
#include "rec_backend.h"
#include "timer.h"
#include "h_val.h"

namespace h {

// prints every datum: ROW <table> <ncols> then COL lines are folded in one line:
// ROW <table> | <field> <type> <tokens...> | ...
class PrintBack : public cyclus::RecBackend {
 public:
  bool on;
  std::set<std::string> only;
  PrintBack() : on(true) {}
  virtual void Notify(cyclus::DatumList data) {
    if (!on) return;
    for (size_t i = 0; i < data.size(); ++i) {
      cyclus::Datum* d = data[i];
      if (!only.empty() && !only.count(d->title())) continue;
      std::string o = "ROW " + d->title();
      const cyclus::Datum::Vals& v = d->vals();
      for (size_t j = 0; j < v.size(); ++j) {
        if (std::string(v[j].first) == "SimId") continue;
        o += " | " + std::string(v[j].first) + " " + AnyStr(v[j].second);
      }
      OutS(o);
    }
  }
  virtual std::string Name() { return "print"; }
  virtual void Flush() {}
  virtual void Close() {}
};

class HFac : public cyclus::Facility {
 public:
  HFac(cyclus::Context* ctx) : cyclus::Facility(ctx) {
    cyclus::Agent::prototype("hfac");
    cyclus::Agent::spec("hfac");
  }
  virtual ~HFac() {}
  virtual cyclus::Agent* Clone() { return new HFac(context()); }
  virtual void InitInv(cyclus::Inventories& inv) {}
  virtual cyclus::Inventories SnapshotInv() { return cyclus::Inventories(); }
  virtual std::string version() { return "0"; }
  void Tick() {}
  void Tock() {}
};

inline std::string MapStr(const cyclus::CompMap& m) {
  std::string o = std::to_string(m.size());
  for (cyclus::CompMap::const_iterator it = m.begin(); it != m.end(); ++it)
    o += " " + std::to_string(it->first) + " " + F(it->second);
  return o;
}

}  // namespace h
#endif

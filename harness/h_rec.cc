// a recorder with several back ends
#include "h_common.h"
#include "h_val.h"
#include "rec_backend.h"
#include "recorder.h"
using namespace cyclus;
using namespace h;

// new default|bool b|count n|uuid hex ; inject b ; dump n ; reg k ; flush ; close ; end ; bulk title n base
// datum title n  (then per value: mode(c|s|n) hexname type nshape shape.. value..)
namespace {
Recorder* rec = NULL;

class Bk : public RecBackend {
 public:
  int k;
  explicit Bk(int k_) : k(k_) {}
  virtual void Notify(DatumList data) {
    for (size_t i = 0; i < data.size(); ++i) {
      Datum* d = data[i];
      std::string o = "R " + std::to_string(k) + " " + Hex(d->title());
      const Datum::Vals& v = d->vals();
      const Datum::Shapes& s = d->shapes();
      const Datum::Fields& f = d->fields();
      if (v.size() != s.size() || v.size() != f.size()) o += " SIZES";
      for (size_t j = 0; j < v.size(); ++j) {
        o += " | " + Hex(f[j]) + " " + Hex(std::string(v[j].first)) + " " + std::to_string(s[j].size());
        for (size_t m = 0; m < s[j].size(); ++m) o += " " + std::to_string(s[j][m]);
        o += " " + AnyStr(v[j].second);
      }
      OutS(o);
    }
  }
  virtual std::string Name() { return "b" + std::to_string(k); }
  virtual void Flush() { Out("FL %d", k); }
  virtual void Close() { Out("CL %d", k); }
};

void Run(const Case& c) {
  std::map<int, Bk*> bk;
  for (size_t i = 0; i < c.size(); ++i) {
    const Toks& t = c[i];
    Out("OP %d", (int)i);
    if (t[0] == "new") {
      if (t[1] == "default") rec = new Recorder();
      else if (t[1] == "bool") rec = new Recorder(I(t[2]) != 0);
      else if (t[1] == "count") rec = new Recorder((unsigned int)I(t[2]));
      else {
        Cur cu(t, 2);
        rec = new Recorder(Codec<U_>::De(cu));
      }
      std::string s;
      Codec<U_>::E(rec->sim_id(), s);
      OutS("ID" + s + " " + std::to_string(rec->dump_count()) + " " + std::to_string(rec->inject_sim_id()));
    } else if (t[0] == "inject") {
      rec->inject_sim_id(I(t[1]) != 0);
    } else if (t[0] == "dump") {
      rec->set_dump_count(I(t[1]));
      Out("DC %u", rec->dump_count());
    } else if (t[0] == "reg") {
      int k = I(t[1]);
      if (!bk.count(k)) bk[k] = new Bk(k);
      rec->RegisterBackend(bk[k]);
    } else if (t[0] == "flush") {
      rec->Flush();
    } else if (t[0] == "close") {
      rec->Close();
    } else if (t[0] == "end") {
      delete rec;
      rec = NULL;
    } else if (t[0] == "bulk") {
      int n = I(t[2]);
      for (int j = 0; j < n; ++j) rec->NewDatum(t[1])->AddVal("n", I(t[3]) + j)->Record();
    } else if (t[0] == "datum") {
      Datum* d = rec->NewDatum(UnHex(t[1]));
      int n = I(t[2]);
      Cur cu(t, 3);
      for (int j = 0; j < n; ++j) {
        std::string mode = cu.next(), name = UnHex(cu.next()), type = cu.next();
        int ns = I(cu.next());
        std::vector<int>* shp = ns >= 0 ? new std::vector<int>() : NULL;
        for (int m = 0; m < ns; ++m) shp->push_back(I(cu.next()));
        boost::spirit::hold_any v = MakeAny(type, cu);
        if (mode == "s") {
          d->AddVal(std::string(name), v, shp);
        } else {
          const char* p = strdup(name.c_str());
          if (shp) d->AddVal(p, v, shp);
          else d->AddVal(p, v);
        }
        if (shp) { shp->assign(shp->size(), -77); delete shp; }
      }
      d->Record();
    } else throw Bad("op " + t[0]);
  }
}
}  // namespace
int main() { return Serve(Run, 20); }

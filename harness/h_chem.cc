// nuclide maps, compositions, material queries, enrichment and positions
#include "h_common.h"
#include "h_util.h"
#include "comp_math.h"
#include "composition.h"
#include "material.h"
#include "cyc_arithmetic.h"
#include "toolkit/enrichment.h"
#include "toolkit/mat_query.h"
#include "toolkit/position.h"
#include "pyne.h"
using namespace cyclus;
using namespace h;

namespace {
std::map<std::string, CompMap> cm;
std::map<std::string, Composition::Ptr> comp;
std::map<std::string, Material::Ptr> mat;
std::map<std::string, toolkit::Position> pos;

std::string M(const CompMap& m) {
  std::string o = std::to_string(m.size());
  for (CompMap::const_iterator it = m.begin(); it != m.end(); ++it) o += " " + std::to_string(it->first) + " " + F(it->second);
  return o;
}

void One(const Toks& t) {
  const std::string& k = t[0];
  if (k == "map") {
    CompMap m;
    for (size_t j = 2; j + 1 < t.size(); j += 2) m[I(t[j])] = D(t[j + 1]);
    cm[t[1]] = m;
    OutS("OK");
  } else if (k == "add") { OutS("MAP " + M(cm[t[1]] = compmath::Add(cm[t[2]], cm[t[3]])));
  } else if (k == "sub") { OutS("MAP " + M(cm[t[1]] = compmath::Sub(cm[t[2]], cm[t[3]])));
  } else if (k == "sum") { OutS("D " + F(compmath::Sum(cm[t[1]])));
  } else if (k == "thr") {
    CompMap m = cm[t[1]];
    compmath::ApplyThreshold(&m, D(t[2]));
    cm[t[1]] = m;
    OutS("MAP " + M(m));
  } else if (k == "norm") {
    if (t.size() > 2) compmath::Normalize(&cm[t[1]], D(t[2]));
    else compmath::Normalize(&cm[t[1]]);
    OutS("MAP " + M(cm[t[1]]));
  } else if (k == "valid") { Out("B %d", compmath::ValidNucs(cm[t[1]]) ? 1 : 0);
  } else if (k == "pos") { Out("B %d", compmath::AllPositive(cm[t[1]]) ? 1 : 0);
  } else if (k == "eq") { Out("B %d", compmath::AlmostEq(cm[t[1]], cm[t[2]], D(t[3])) ? 1 : 0);
  } else if (k == "show") { OutS("MAP " + M(cm[t[1]]));
  } else if (k == "kahan") {
    std::vector<double> v;
    for (size_t j = 1; j < t.size(); ++j) v.push_back(D(t[j]));
    OutS("D " + F(CycArithmetic::KahanSum(v)));
  } else if (k == "sorta") {
    std::vector<double> v;
    for (size_t j = 1; j < t.size(); ++j) v.push_back(D(t[j]));
    std::vector<double> w = CycArithmetic::sort_ascending(v);
    std::string o = "L";
    for (size_t j = 0; j < w.size(); ++j) o += " " + F(w[j]);
    OutS(o);
  } else if (k == "comp") {
    comp[t[1]] = t[3] == "atom" ? Composition::CreateFromAtom(cm[t[2]]) : Composition::CreateFromMass(cm[t[2]]);
    Out("ID %d", comp[t[1]]->id());
  } else if (k == "atom") { if (!comp[t[1]]) OutS("NOCOMP"); else OutS("MAP " + M(comp[t[1]]->atom()));
  } else if (k == "mass") { if (!comp[t[1]]) OutS("NOCOMP"); else OutS("MAP " + M(comp[t[1]]->mass()));
  } else if (k == "cid") { if (!comp[t[1]]) OutS("NOCOMP"); else Out("ID %d", comp[t[1]]->id());
  } else if (k == "am") { OutS("D " + F(pyne::atomic_mass(I(t[1]))));
  } else if (k == "mat") {
    mat[t[1]] = Material::CreateUntracked(D(t[2]), comp[t[3]]);
    OutS("OK");
  } else if (k == "q") {
    toolkit::MatQuery q(mat[t[1]]);
    const std::string& w = t[2];
    if (w == "qty") OutS("D " + F(q.qty()));
    else if (w == "mass") OutS("D " + F(t[3][0] == 'n' ? q.mass(t[3].substr(1)) : q.mass(I(t[3]))));
    else if (w == "moles") OutS("D " + F(t[3][0] == 'n' ? q.moles(t[3].substr(1)) : q.moles(I(t[3]))));
    else if (w == "mfrac") OutS("D " + F(t[3][0] == 'n' ? q.mass_frac(t[3].substr(1)) : q.mass_frac(I(t[3]))));
    else if (w == "afrac") OutS("D " + F(t[3][0] == 'n' ? q.atom_frac(t[3].substr(1)) : q.atom_frac(I(t[3]))));
    else if (w == "mfracs" || w == "afracs") {
      std::set<Nuc> s;
      for (size_t j = 3; j < t.size(); ++j) s.insert(I(t[j]));
      OutS("D " + F(w == "mfracs" ? q.mass_frac(s) : q.atom_frac(s)));
    } else if (w == "eq") Out("B %d", q.AlmostEq(mat[t[3]], D(t[4])) ? 1 : 0);
    else if (w == "amount") OutS("D " + F(q.Amount(comp[t[3]])));
    else if (w == "uassay") OutS("D " + F(toolkit::UraniumAssayAtom(mat[t[1]])));
    else if (w == "uassay0") OutS("D " + F(toolkit::UraniumAssay(mat[t[1]])));
    else if (w == "uassaym") OutS("D " + F(toolkit::UraniumAssayMass(mat[t[1]])));
    else if (w == "uqty") OutS("D " + F(toolkit::UraniumQty(mat[t[1]])));
    else throw Bad("query " + w);
  } else if (k == "enr") {
    toolkit::Assays a(D(t[2]), D(t[3]), D(t[4]));
    double p = D(t[1]);
    Out("ENR %s %s %s %s %s", F(a.Feed()).c_str(), F(a.Product()).c_str(), F(a.Tails()).c_str(),
        F(toolkit::FeedQty(p, a)).c_str(), F(toolkit::TailsQty(p, a)).c_str());
  } else if (k == "swu") {
    toolkit::Assays a(D(t[2]), D(t[3]), D(t[4]));
    OutS("D " + F(toolkit::SwuRequired(D(t[1]), a)));
  } else if (k == "value") { OutS("D " + F(toolkit::ValueFunc(D(t[1]))));
  } else if (k == "place") {
    pos[t[1]] = toolkit::Position(D(t[2]), D(t[3]));
    OutS("OK");
  } else if (k == "setlat") { pos[t[1]].latitude(D(t[2])); OutS("OK");
  } else if (k == "setlon") { pos[t[1]].longitude(D(t[2])); OutS("OK");
  } else if (k == "setpos") { pos[t[1]].set_position(D(t[2]), D(t[3])); OutS("OK");
  } else if (k == "where") { Out("POS %s %s", F(pos[t[1]].latitude()).c_str(), F(pos[t[1]].longitude()).c_str());
  } else if (k == "dist") { OutS("D " + F(pos[t[1]].Distance(pos[t[2]])));
  } else if (k == "text") {
    typedef toolkit::Position P;
    OutS("T " + pos[t[1]].ToString(t[2] == "D" ? P::DEGREES : t[2] == "DM" ? P::DEGREES_MINUTES : P::DEGREES_MINUTES_SECONDS));
  } else throw Bad("op " + k);
}

void Run(const Case& c) {
  for (size_t i = 0; i < c.size(); ++i) {
    try {
      One(c[i]);
    } catch (const Bad&) {
      throw;
    } catch (const std::exception& e) {
      OutS("ERR " + ErrName(e));
    }
  }
}
}  // namespace

int main() { return Serve(Run, 10); }

// symbolic functions, producers, supply and demand, build decisions
#include "h_common.h"
#include "h_util.h"
#include "toolkit/builder.h"
#include "toolkit/building_manager.h"
#include "toolkit/commodity.h"
#include "toolkit/commodity_producer.h"
#include "toolkit/commodity_producer_manager.h"
#include "toolkit/supply_demand_manager.h"
#include "toolkit/symbolic_function_factories.h"
#include "toolkit/symbolic_functions.h"
using namespace cyclus;
using namespace cyclus::toolkit;
using namespace h;

namespace {
std::map<std::string, SymFunction::Ptr> fn;
std::map<std::string, PiecewiseFunctionFactory*> pw;
std::map<std::string, CommodityProducer*> prod;
std::map<std::string, CommodityProducerManager*> cpm;
std::map<std::string, Builder*> bld;
std::map<const void*, std::string> nm;
SupplyDemandManager* sdm = NULL;
BuildingManager* bm = NULL;

template <class T> T* Get(std::map<std::string, T*>& m, const std::string& n) {
  if (!m.count(n)) {
    m[n] = new T();
    nm[(const void*)m[n]] = n;
  }
  return m[n];
}

void One(const Toks& t) {
  const std::string& k = t[0];
  Commodity c(t.size() > 2 ? t[2] : "");
  if (k == "fn") {
    BasicFunctionFactory f;
    fn[t[1]] = f.GetFunctionPtr(t[2], UnHex(t[3]));
    OutS("OK");
  } else if (k == "piece") {
    if (!pw.count(t[1])) pw[t[1]] = new PiecewiseFunctionFactory();
    if (t[4] == "def") pw[t[1]]->AddFunction(fn[t[2]], D(t[3]));
    else pw[t[1]]->AddFunction(fn[t[2]], D(t[3]), t[4] == "1");
    OutS("OK");
  } else if (k == "endpiece") {
    if (!pw.count(t[1])) pw[t[1]] = new PiecewiseFunctionFactory();
    fn[t[1]] = pw[t[1]]->GetFunctionPtr(t.size() > 2 ? UnHex(t[2]) : "");
    OutS("OK");
  } else if (k == "val") { OutS("D " + F(fn[t[1]]->value(D(t[2]))));
  } else if (k == "print") { OutS("T " + Hex(fn[t[1]]->Print()));
  } else if (k == "prod") {
    prod[t[1]] = t.size() > 3 ? new CommodityProducer(D(t[2]), D(t[3])) : new CommodityProducer();
    nm[(const void*)prod[t[1]]] = t[1];
    OutS("OK");
  } else if (k == "padd") {
    if (t.size() > 3) prod[t[1]]->Add(c, CommodInfo(D(t[3]), D(t[4])));
    else prod[t[1]]->Add(c);
    OutS("OK");
  } else if (k == "prm") { prod[t[1]]->Rm(c); OutS("OK");
  } else if (k == "pcap") { prod[t[1]]->SetCapacity(c, D(t[3])); OutS("OK");
  } else if (k == "pcost") { prod[t[1]]->SetCost(c, D(t[3])); OutS("OK");
  } else if (k == "pcopy") { prod[t[1]]->Copy(prod[t[2]]); OutS("OK");
  } else if (k == "pshow") {
    std::string o = "P";
    std::set<Commodity, CommodityCompare> s = prod[t[1]]->ProducedCommodities();
    for (std::set<Commodity, CommodityCompare>::iterator it = s.begin(); it != s.end(); ++it)
      o += " " + it->name() + " " + (prod[t[1]]->Produces(*it) ? "1" : "0") + " " + F(prod[t[1]]->Capacity(*it)) + " " + F(prod[t[1]]->Cost(*it));
    OutS(o);
  } else if (k == "produces") { Out("B %d", prod[t[1]]->Produces(c) ? 1 : 0);
  } else if (k == "mreg") { Get(cpm, t[1])->Register(prod[t[2]]); OutS("OK");
  } else if (k == "munreg") { Get(cpm, t[1])->Unregister(prod[t[2]]); OutS("OK");
  } else if (k == "total") { OutS("D " + F(Get(cpm, t[1])->TotalCapacity(c)));
  } else if (k == "sreg") { sdm->RegisterProducerManager(Get(cpm, t[1])); OutS("OK");
  } else if (k == "sunreg") { sdm->UnregisterProducerManager(Get(cpm, t[1])); OutS("OK");
  } else if (k == "scom") { sdm->RegisterCommodity(c, fn[t[1]]); OutS("OK");
  } else if (k == "manages") { Out("B %d", sdm->ManagesCommodity(c) ? 1 : 0);
  } else if (k == "demand") { OutS("D " + F(sdm->Demand(c, I(t[1]))));
  } else if (k == "supply") { OutS("D " + F(sdm->Supply(c)));
  } else if (k == "breg") { Get(bld, t[1])->Register(prod[t[2]]); OutS("OK");
  } else if (k == "bunreg") { Get(bld, t[1])->Unregister(prod[t[2]]); OutS("OK");
  } else if (k == "bmreg") { bm->Register(Get(bld, t[1])); OutS("OK");
  } else if (k == "bmunreg") { bm->Unregister(Get(bld, t[1])); OutS("OK");
  } else if (k == "decide") {
    std::vector<BuildOrder> o = bm->MakeBuildDecision(c, D(t[1]));
    std::string r = "O";
    for (size_t i = 0; i < o.size(); ++i) r += " " + std::to_string(o[i].number) + " " + nm[o[i].builder] + " " + nm[o[i].producer];
    OutS(r);
  } else throw Bad("op " + k);
}

void Run(const Case& c) {
  sdm = new SupplyDemandManager();
  bm = new BuildingManager();
  for (size_t i = 0; i < c.size(); ++i) {
    try {
      One(c[i]);
    } catch (const Bad&) {
      throw;
    } catch (const std::exception& e) {
      OutS("ERR " + ErrName(e));
    }
  }
}
}  // namespace

int main() { return Serve(Run, 20); }

// packages and transport units
#include "h_common.h"
#include "h_util.h"
#include "toolkit/res_manip.h"
using namespace cyclus;
using namespace h;

namespace {

void Run(const Case& c) {
  // never destroyed: the process ends with the case
  Timer& ti = *new Timer();
  Recorder& rec = *new Recorder();
  PrintBack& back = *new PrintBack();
  rec.RegisterBackend(&back);
  back.on = false;
  Context& ctx = *new Context(&ti, &rec);
  SimInfo si(10, 2000, 1, "h", "never");
  for (size_t i = 0; i < c.size(); ++i)
    if (c[i][0] == "seed") si.seed = LL(c[i][1]);
  ctx.InitSim(si);
  HFac* f = new HFac(&ctx);
  f->Build(NULL);
  rec.Flush();
  CompMap cm;
  cm[922350000] = 1;
  cm[922380000] = 3;
  Composition::Ptr comp = Composition::CreateFromMass(cm);
  for (size_t i = 0; i < c.size(); ++i) {
    const Toks& t = c[i];
    if (t[0] == "seed") continue;
    Out("OP %d", (int)i);
    try {
      if (t[0] == "pkg") {
        ctx.AddPackage(UnHex(t[1]), D(t[2]), D(t[3]), UnHex(t[4]));
        Package::Ptr p = ctx.GetPackage(UnHex(t[1]));
        Out("PKG %s %s %s %s", Hex(p->name()).c_str(), F(p->fill_min()).c_str(), F(p->fill_max()).c_str(),
            Hex(p->strategy()).c_str());
      } else if (t[0] == "tu") {
        ctx.AddTransportUnit(UnHex(t[1]), I(t[2]), I(t[3]), UnHex(t[4]));
        TransportUnit::Ptr p = ctx.GetTransportUnit(UnHex(t[1]));
        Out("TU %s %d %d %s", Hex(p->name()).c_str(), p->fill_min(), p->fill_max(), Hex(p->strategy()).c_str());
      } else if (t[0] == "fill") {
        std::vector<double> v = ctx.GetPackage(UnHex(t[1]))->GetFillMass(D(t[2]));
        std::string o = "FILL";
        for (size_t j = 0; j < v.size(); ++j) o += " " + F(v[j]);
        OutS(o);
      } else if (t[0] == "ship") {
        TransportUnit::Ptr p = ctx.GetTransportUnit(UnHex(t[1]));
        Out("SHIP %d %d", p->MaxShippablePackages(I(t[2])), p->GetTransportUnitFill(I(t[2])));
      } else if (t[0] == "res") {  // res M|P qty pkg : create, package, show
        Package::Ptr p = ctx.GetPackage(UnHex(t[3]));
        std::vector<Resource::Ptr> out;
        Resource::Ptr r;
        if (t[1] == "M") {
          r = Material::Create(f, D(t[2]), comp);
          std::vector<Material::Ptr> v = r->Package<Material>(p);
          out = toolkit::ResCast(v);
        } else {
          r = Product::Create(f, D(t[2]), "q");
          std::vector<Product::Ptr> v = r->Package<Product>(p);
          out = toolkit::ResCast(v);
        }
        Out("REST %s %s", F(r->quantity()).c_str(), Hex(r->package_name()).c_str());
        for (size_t j = 0; j < out.size(); ++j)
          Out("ITEM %s %s", F(out[j]->quantity()).c_str(), Hex(out[j]->package_name()).c_str());
      } else if (t[0] == "chg") {  // chg M|P qty first second : create in no package, change twice
        Resource::Ptr r;
        if (t[1] == "M") r = Material::Create(f, D(t[2]), comp);
        else r = Product::Create(f, D(t[2]), "q");
        for (size_t j = 3; j < t.size(); ++j) {
          std::string e = "ok";
          try {
            r->ChangePackage(UnHex(t[j]));
          } catch (const std::exception& x) { e = ErrName(x); }
          Out("CHG %s %s %s", e.c_str(), Hex(r->package_name()).c_str(), F(r->quantity()).c_str());
        }
      } else throw Bad("op");
      OutS("OK");
    } catch (const std::exception& e) {
      Out("ERR %s", ErrName(e).c_str());
    }
  }
}

}  // namespace

int main() { return Serve(Run); }

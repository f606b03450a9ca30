// nuclide names
#include "h_common.h"
#include "pyne.h"
using namespace h;
namespace nn = pyne::nucname;

namespace {
std::string S(int x) { return std::to_string(x); }
std::string S(bool x) { return x ? "1" : "0"; }
std::string S(const std::string& x) { return Hex(x); }

// f FUNC i INT | f FUNC s HEXTEXT | f FUNC c HEXTEXT
#define ALL(name) if (f == #name) { if (t[2] == "i") return S(nn::name(I(t[3]))); if (t[2] == "s") return S(nn::name(UnHex(t[3]))); return S(nn::name(UnHex(t[3]).c_str())); }
#define TXT(name) if (f == #name) { if (t[2] == "s") return S(nn::name(UnHex(t[3]))); return S(nn::name(UnHex(t[3]).c_str())); }
std::string One(const Toks& t) {
  const std::string& f = t[1];
  ALL(id) ALL(name) ALL(isnuclide) ALL(iselement) ALL(znum) ALL(anum) ALL(snum) ALL(zzaaam) ALL(zzaaam_to_id) ALL(zzzaaa) ALL(zzzaaa_to_id)
  ALL(zzllaaam) TXT(zzllaaam_to_id) ALL(mcnp) ALL(mcnp_to_id) ALL(serpent) TXT(serpent_to_id) ALL(nist) TXT(nist_to_id)
  ALL(cinder) ALL(cinder_to_id) ALL(alara) TXT(alara_to_id) ALL(sza) ALL(sza_to_id) ALL(groundstate)
  if (f == "fluka") return S(nn::fluka(I(t[3])));
  if (f == "fluka_to_id") return S(nn::fluka_to_id(UnHex(t[3])));
  if (f == "ensdf_to_id") return S(nn::ensdf_to_id(UnHex(t[3])));
  throw cyclus::KeyError("no function " + f);
}

void Run(const Case& c) {
  pyne::USE_WARNINGS = false;
  for (size_t i = 0; i < c.size(); ++i) {
    try {
      OutS("R " + One(c[i]));
    } catch (const cyclus::KeyError& e) {
      throw Bad(e.what());
    } catch (const nn::NotANuclide&) {
      OutS("ERR not");
    } catch (const nn::IndeterminateNuclideForm&) {
      OutS("ERR indet");
    } catch (const std::exception& e) {
      OutS("ERR other");
    }
  }
}
}  // namespace

int main() { return Serve(Run, 10); }

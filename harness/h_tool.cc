// input trees, agent specs, commodity-recipe contexts and time series
#include "h_common.h"
#include "h_util.h"
#include "infile_tree.h"
#include "xml_parser.h"
#include "dynamic_module.h"
#include "greedy_solver.h"
#include "sqlite_back.h"
#include "query_backend.h"
#include "db_init.h"
#include "product.h"
#include "toolkit/commodity_recipe_context.h"
#include "toolkit/timeseries.h"
using namespace cyclus;
using namespace h;

namespace {
Context* ctx;
Recorder* rec;
std::vector<XMLParser*> parsers;
std::map<std::string, InfileTree*> tree;
std::map<std::string, toolkit::CommodityRecipeContext*> crc;
std::vector<Resource::Ptr> res;
std::map<int, std::vector<Toks> > script;

std::string H(const std::string& s) { return Hex(s); }

std::string SpecStr(AgentSpec s) {
  return "SPEC " + H(s.path()) + " " + H(s.lib()) + " " + H(s.agent()) + " " + H(s.alias()) + " " + H(s.str()) + " " + H(s.Sanitize());
}

template <class T> std::string V(T v) { return boost::lexical_cast<std::string>(v); }
template <> std::string V(double v) { return F(v); }
template <> std::string V(float v) { return F(v); }
template <> std::string V(bool v) { return v ? "1" : "0"; }
template <> std::string V(std::string v) { return H(v); }

template <class T> void Listen(const std::string& name) {
  int k = toolkit::TIME_SERIES_LISTENERS[name].size();
  std::function<void(Agent*, int, T, std::string)> f = [k](Agent* a, int t, T v, std::string n) {
    Out("HEARD %d %d %d %s %s", k, a->id(), t, V<T>(v).c_str(), H(n).c_str());
  };
  toolkit::TIME_SERIES_LISTENERS[name].push_back(f);
}

class TsFac : public HFac {
 public:
  int n;
  TsFac(Context* c, int n) : HFac(c), n(n) {}
  void Do(const Toks& t) {       // ts TIME AGENT NAME TYPE VALUE UNITS
    std::string name = UnHex(t[3]), u = UnHex(t[6]);
    const std::string& k = t[4];
    if (k == "power") toolkit::RecordTimeSeries<toolkit::POWER>(this, D(t[5]), u);
    else if (k == "swu") toolkit::RecordTimeSeries<toolkit::ENRICH_SWU>(this, D(t[5]), u);
    else if (k == "feed") toolkit::RecordTimeSeries<toolkit::ENRICH_FEED>(this, D(t[5]), u);
    else if (k == "power0") toolkit::RecordTimeSeries<toolkit::POWER>(this, D(t[5]));
    else if (k == "double") toolkit::RecordTimeSeries<double>(name, this, D(t[5]), u);
    else if (k == "float") toolkit::RecordTimeSeries<float>(name, this, (float)D(t[5]), u);
    else if (k == "int") toolkit::RecordTimeSeries<int>(name, this, I(t[5]), u);
    else if (k == "bool") toolkit::RecordTimeSeries<bool>(name, this, I(t[5]) != 0, u);
    else toolkit::RecordTimeSeries<std::string>(name, this, UnHex(t[5]), u);
  }
  void Tick() {
    std::vector<Toks>& v = script[context()->time()];
    for (size_t i = 0; i < v.size(); ++i)
      if (I(v[i][2]) == n && v[i][7] == "0") Do(v[i]);
  }
  void Tock() {
    std::vector<Toks>& v = script[context()->time()];
    for (size_t i = 0; i < v.size(); ++i)
      if (I(v[i][2]) == n && v[i][7] == "1") Do(v[i]);
  }
};

template <class T> void Query_(const Toks& t) { OutS("V " + V<T>(Query<T>(tree.at(t[2]), UnHex(t[3]), I(t[4])))); }

std::string Set(const std::set<std::string>& s) {
  std::string o = " " + std::to_string(s.size());
  for (std::set<std::string>::const_iterator it = s.begin(); it != s.end(); ++it) o += " " + H(*it);
  return o;
}

void One(const Toks& t) {
  const std::string& k = t[0];
  if (k == "xml") {
    XMLParser* p = new XMLParser();
    parsers.push_back(p);
    p->Init(UnHex(t[2]));
    tree[t[1]] = new InfileTree(*p);
    OutS("OK");
  } else if (k == "sub") { tree[t[1]] = tree.at(t[2])->SubTree(UnHex(t[3]), I(t[4])); OutS("OK");
  } else if (k == "n") { Out("N %d", tree.at(t[1])->NMatches(UnHex(t[2])));
  } else if (k == "ne") { Out("N %d", tree.at(t[1])->NElements());
  } else if (k == "en") { OutS("V " + H(tree.at(t[1])->GetElementName(I(t[2]))));
  } else if (k == "q") {
    if (t[1] == "int") Query_<int>(t);
    else if (t[1] == "double") Query_<double>(t);
    else if (t[1] == "float") Query_<float>(t);
    else if (t[1] == "bool") Query_<bool>(t);
    else OutS("V " + H(Query<std::string>(tree.at(t[2]), UnHex(t[3]), I(t[4]))));
  } else if (k == "opt") {
    InfileTree* r = tree.at(t[2]);
    std::string q = UnHex(t[3]);
    if (t[1] == "int") OutS("V " + V<int>(OptionalQuery<int>(r, q, I(t[4]))));
    else if (t[1] == "double") OutS("V " + F(OptionalQuery<double>(r, q, D(t[4]))));
    else if (t[1] == "float") OutS("V " + F(OptionalQuery<float>(r, q, (float)D(t[4]))));
    else if (t[1] == "bool") OutS("V " + V<bool>(OptionalQuery<bool>(r, q, I(t[4]) != 0)));
    else OutS("V " + H(OptionalQuery<std::string>(r, q, UnHex(t[4]))));
  } else if (k == "spec1") { OutS(SpecStr(AgentSpec(UnHex(t[1]))));
  } else if (k == "spec4") { OutS(SpecStr(AgentSpec(UnHex(t[1]), UnHex(t[2]), UnHex(t[3]), UnHex(t[4]))));
  } else if (k == "specx") { OutS(SpecStr(AgentSpec(tree.at(t[1]))));
  } else if (k == "crc") { crc[t[1]] = new toolkit::CommodityRecipeContext(); OutS("OK");
  } else if (k == "cclone") { crc[t[1]] = crc.at(t[2])->Clone(); OutS("OK");
  } else if (k == "cadd") { crc.at(t[1])->AddInCommod(UnHex(t[2]), UnHex(t[3]), UnHex(t[4]), UnHex(t[5])); OutS("OK");
  } else if (k == "crec") { crc.at(t[1])->UpdateInRec(UnHex(t[2]), UnHex(t[3])); OutS("OK");
  } else if (k == "cres") { crc.at(t[1])->AddRsrc(UnHex(t[3]), res.at(I(t[2]))); OutS("OK");
  } else if (k == "cupd") { crc.at(t[1])->UpdateRsrc(UnHex(t[3]), res.at(I(t[2]))); OutS("OK");
  } else if (k == "crem") { crc.at(t[1])->RemoveRsrc(res.at(I(t[2]))); OutS("OK");
  } else if (k == "cshow") {
    toolkit::CommodityRecipeContext* c = crc.at(t[1]);
    std::string o = "CRC" + Set(c->in_commods()) + Set(c->out_commods());
    const std::set<std::string> in = c->in_commods();
    for (std::set<std::string>::const_iterator it = in.begin(); it != in.end(); ++it)
      o += " " + H(c->out_commod(*it)) + " " + H(c->in_recipe(*it)) + " " + H(c->out_recipe(*it));
    // a copy, as looking up an unknown resource may note it
    toolkit::CommodityRecipeContext d(*c);
    for (size_t i = 0; i < res.size(); ++i) o += " " + H(d.commod(res[i]));
    OutS(o);
  } else if (k == "ceq") { Out("N %d", (*crc.at(t[1]) == *crc.at(t[2])) && !(*crc.at(t[1]) != *crc.at(t[2])) ? 1 : 0);
  } else if (k == "csave" || k == "cfile") {
    // to a data base and back
    Timer ti;
    Recorder r;
    SqliteBack back(t[3]);
    r.RegisterBackend(&back);
    Context c2(&ti, &r);
    HFac* f = new HFac(&c2);
    f->spec(":h:hfac");
    if (k == "csave") crc.at(t[2])->Snapshot(DbInit(f));
    else {
      toolkit::CommodityRecipeContext tmp;
      tmp.InfileToDb(tree.at(t[2]), DbInit(f));
    }
    r.Flush();
    PrefixInjector pi(&back, "AgentState" + AgentSpec(f->spec()).Sanitize());
    toolkit::CommodityRecipeContext* n = new toolkit::CommodityRecipeContext();
    n->InitFrom(&pi);
    crc[t[1]] = n;
    r.Close();
    OutS("OK");
  } else if (k == "listen") {
    std::string n = UnHex(t[1]);
    if (t[2] == "double") Listen<double>(n);
    else if (t[2] == "float") Listen<float>(n);
    else if (t[2] == "int") Listen<int>(n);
    else if (t[2] == "bool") Listen<bool>(n);
    else Listen<std::string>(n);
    OutS("OK");
  } else if (k == "ts") { script[I(t[1])].push_back(t);
  } else if (k == "run") {     // run DURATION AGENTS
    Timer& ti = *new Timer();
    Recorder& r = *new Recorder();
    PrintBack& back = *new PrintBack();
    r.RegisterBackend(&back);
    r.set_dump_count(1);
    Context* c2 = new Context(&ti, &r);
    ExchangeSolver* s = new GreedySolver(false);
    s->sim_ctx(c2);
    c2->solver(s);
    back.on = false;
    c2->InitSim(SimInfo(I(t[1]), 2000, 1, "h", "never"));
    std::string ids = "IDS";
    for (int i = 0; i < I(t[2]); ++i) {
      TsFac* f = new TsFac(c2, i);
      f->Build(NULL);
      ids += " " + std::to_string(f->id());
    }
    r.Flush();
    back.on = true;
    OutS(ids);
    ti.RunSim();
    r.Flush();
    OutS("DONE");
  } else throw Bad("op " + k);
}

void Run(const Case& c) {
  rec = new Recorder();
  ctx = new Context(new Timer(), rec);
  for (int i = 0; i < 4; ++i) res.push_back(Product::CreateUntracked(1 + i, "q"));
  for (size_t i = 0; i < c.size(); ++i) {
    try {
      One(c[i]);
    } catch (const Bad&) {
      throw;
    } catch (const std::exception& e) {
      OutS("ERR " + ErrName(e));
    }
  }
}
}  // namespace

int main() { return Serve(Run, 10); }

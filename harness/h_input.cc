// input files: loads a document through the loaders and shows the simulation it sets up
#include "h_common.h"
#include "h_util.h"
#include "dynamic_module.h"
#include "env.h"
#include "exchange_graph.h"
#include "exchange_solver.h"
#include "pyne.h"
#include "sim_init.h"
#include "sqlite_back.h"
#include "toolkit/infile_converters.h"
#include "xml_file_loader.h"
#include "xml_flat_loader.h"
using namespace cyclus;
using namespace h;

// load xml|json|flat|flatjson file|text hex   | order n commod..  | x2j hex | j2x hex | mass nuc..
struct SimInitTest {
  static std::map<std::string, Agent*> Protos(Context* c) { return c->protos_; }
  static std::set<Agent*> Agents(Context* c) { return c->agent_list_; }
  static std::map<std::string, Composition::Ptr> Recipes(Context* c) { return c->recipes_; }
  static std::map<std::string, Package::Ptr> Pkgs(Context* c) { return c->packages_; }
  static std::map<std::string, TransportUnit::Ptr> TUs(Context* c) { return c->transport_units_; }
};
typedef SimInitTest X;

namespace {
void Fail(const char* w, const std::exception& e) { Out("%s FAILED %s %s", w, ErrName(e).c_str(), Hex(e.what()).c_str()); }

void AgentLine(const std::string& w, Agent* a) {
  OutS(w + " " + std::to_string(a->id()) + " " + Hex(a->prototype()) + " " + a->spec() + " " + a->kind() + " " +
       std::to_string(a->parent() ? a->parent()->id() : -1) + " " + std::to_string(a->lifetime()) + " " + std::to_string(a->enter_time()));
}

// which of two commodities the solver serves when there is enough for one only
void Order(Context* ctx, const std::string& a, const std::string& b, bool swap) {
  ExchangeGraph g;
  std::vector<std::string> cs;
  cs.push_back(swap ? b : a);
  cs.push_back(swap ? a : b);
  ExchangeNodeGroup::Ptr sup(new ExchangeNodeGroup());
  std::vector<ExchangeNode::Ptr> us, vs;
  for (int i = 0; i < 2; ++i) {
    RequestGroup::Ptr r(new RequestGroup(1));
    ExchangeNode::Ptr u(new ExchangeNode(1, false, cs[i])), v(new ExchangeNode(1, false, cs[i]));
    r->AddExchangeNode(u);
    r->AddCapacity(1);
    sup->AddExchangeNode(v);
    us.push_back(u);
    vs.push_back(v);
    g.AddRequestGroup(r);
  }
  sup->AddCapacity(1);
  g.AddSupplyGroup(sup);
  for (int i = 0; i < 2; ++i) {
    Arc arc(us[i], vs[i]);
    us[i]->unit_capacities[arc].push_back(1);
    vs[i]->unit_capacities[arc].push_back(1);
    us[i]->prefs[arc] = 1;
    g.AddArc(arc);
  }
  ctx->solver()->Solve(&g);
  double q[2] = {0, 0};
  for (size_t i = 0; i < g.matches().size(); ++i)
    for (int j = 0; j < 2; ++j)
      if (g.matches()[i].first.unode() == us[j]) q[j] += g.matches()[i].second;
  Out("ORDER %s %s %s %s", Hex(cs[0]).c_str(), Hex(cs[1]).c_str(), F(q[0]).c_str(), F(q[1]).c_str());
}

void Load(const Toks& t, const Case& c, int k) {
  std::string kind = t[1], doc = UnHex(t[3]);
  bool flat = kind.substr(0, 4) == "flat", json = kind.size() >= 4 && kind.substr(kind.size() - 4) == "json";
  std::string file = "in" + std::to_string(k) + (json ? ".json" : ".xml"), db = "db" + std::to_string(k) + ".sqlite", fmt = "none";
  if (t[2] == "text") { file = doc; fmt = json ? "json" : "xml"; }
  else { std::ofstream o(file.c_str(), std::ios::binary); o << doc; }
  Out("LOAD %d", k);
  Recorder* rec = new Recorder();
  FullBackend* back = new SqliteBack(db);
  rec->RegisterBackend(back);
  try {
    std::string sch = std::string(getenv("VERIF_SHARE")) + (flat ? "/cyclus-flat.rng.in" : "/cyclus.rng.in");
    XMLFileLoader* l = flat ? new XMLFlatLoader(rec, back, sch, file, fmt) : new XMLFileLoader(rec, back, sch, file, fmt);
    l->LoadSim();
    SimInit* si = new SimInit();
    si->Init(rec, back);
    Context* ctx = si->context();
    SimInfo s = ctx->sim_info();
    Out("info %d %d %d %s %s %llu %s %s %d %d %llu %llu", s.duration, s.y0, s.m0, Hex(s.handle).c_str(), Hex(s.decay).c_str(),
        (unsigned long long)s.dt, F(s.eps).c_str(), F(s.eps_rsrc).c_str(), (int)s.explicit_inventory, (int)s.explicit_inventory_compact,
        (unsigned long long)s.seed, (unsigned long long)s.stride);
    Out("eps %s %s", F(eps()).c_str(), F(eps_rsrc()).c_str());
    std::map<std::string, Composition::Ptr> rs = X::Recipes(ctx);
    for (std::map<std::string, Composition::Ptr>::iterator it = rs.begin(); it != rs.end(); ++it) {
      CompMap m = it->second->mass();
      compmath::Normalize(&m);
      OutS("recipe " + Hex(it->first) + " " + MapStr(m));
    }
    std::map<std::string, Package::Ptr> ps = X::Pkgs(ctx);
    for (std::map<std::string, Package::Ptr>::iterator it = ps.begin(); it != ps.end(); ++it)
      OutS("pkg " + Hex(it->first) + " " + F(it->second->fill_min()) + " " + F(it->second->fill_max()) + " " + it->second->strategy());
    std::map<std::string, TransportUnit::Ptr> ts = X::TUs(ctx);
    for (std::map<std::string, TransportUnit::Ptr>::iterator it = ts.begin(); it != ts.end(); ++it)
      OutS("tu " + Hex(it->first) + " " + std::to_string(it->second->fill_min()) + " " + std::to_string(it->second->fill_max()) + " " + it->second->strategy());
    std::map<int, Agent*> as;
    std::set<Agent*> all = X::Agents(ctx);
    for (std::set<Agent*>::iterator it = all.begin(); it != all.end(); ++it)
      if ((*it)->enter_time() != -1) as[(*it)->id()] = *it;
    for (std::map<int, Agent*>::iterator it = as.begin(); it != as.end(); ++it) AgentLine("agent", it->second);
    std::map<std::string, Agent*> pr = X::Protos(ctx);
    for (std::map<std::string, Agent*>::iterator it = pr.begin(); it != pr.end(); ++it) {
      AgentLine("proto", it->second);
      Agent* a = ctx->CreateAgent<Agent>(it->first);
      a->Build(NULL);
      AgentLine("made", a);
    }
    PrintBack* pb = new PrintBack();
    rec->Flush();
    rec->RegisterBackend(pb);
    SimInit::Snapshot(ctx);
    rec->Flush();
    pb->on = false;
    QueryResult q = back->Query("SolverInfo", NULL);
    Out("solver %s %d", Hex(q.GetVal<std::string>("Solver")).c_str(), (int)q.GetVal<bool>("ExclusiveOrders"));
    if (q.GetVal<std::string>("Solver") == "coin-or") {
      q = back->Query("CoinSolverInfo", NULL);
      Out("coin %s %d %d", F(q.GetVal<double>("Timeout")).c_str(), (int)q.GetVal<bool>("Verbose"), (int)q.GetVal<bool>("Mps"));
    } else {
      q = back->Query("GreedySolverInfo", NULL);
      Out("greedy %s", Hex(q.GetVal<std::string>("Preconditioner")).c_str());
      for (size_t i = 0; i < c.size(); ++i)
        if (c[i][0] == "order")
          for (size_t a = 1; a < c[i].size(); ++a)
            for (size_t b = a + 1; b < c[i].size(); ++b) {
              Order(ctx, UnHex(c[i][a]), UnHex(c[i][b]), false);
              Order(ctx, UnHex(c[i][a]), UnHex(c[i][b]), true);
            }
    }
    OutS("LOADED");
  } catch (const std::exception& e) { Fail("LOAD", e); }
  rec->Close();
}

void Run(const Case& c) {
  int k = 0;
  // every load in a process of its own: the loaders keep state in globals
  for (size_t i = 0; i < c.size(); ++i) {
    const Toks& t = c[i];
    if (t[0] == "load") {
      fflush(obs);
      pid_t pid = fork();
      if (pid == 0) {
        int rc = 0;
        try { Load(t, c, k); } catch (const Bad& e) { Out("BAD %s", e.m.c_str()); rc = 99; }
        fflush(obs);
        _exit(rc);
      }
      int st = 0;
      while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
      if (WIFSIGNALED(st)) Out("\nLOAD CRASHED %d", WTERMSIG(st));
      else if (WEXITSTATUS(st)) Out("\nLOAD EXIT %d", WEXITSTATUS(st));
      unlink(("in" + std::to_string(k) + ".xml").c_str());
      unlink(("in" + std::to_string(k) + ".json").c_str());
      unlink(("db" + std::to_string(k) + ".sqlite").c_str());
      ++k;
    } else if (t[0] == "x2j" || t[0] == "j2x") {
      try {
        std::string o = t[0] == "x2j" ? toolkit::XmlToJson(UnHex(t[1])) : toolkit::JsonToXml(UnHex(t[1]));
        Out("%s %s", t[0].c_str(), Hex(o).c_str());
      } catch (const std::exception& e) { Fail(t[0].c_str(), e); }
    } else if (t[0] == "mass") {
      for (size_t j = 1; j < t.size(); ++j) Out("mass %s %s", t[j].c_str(), F(pyne::atomic_mass(I(t[j]))).c_str());
    } else if (t[0] != "order") throw Bad("op " + t[0]);
  }
}
}  // namespace

int main() { return Serve(Run, 60); }

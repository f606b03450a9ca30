// scripted agents' life cycles in a running simulation
#include "h_common.h"
#include "h_util.h"
#include "greedy_solver.h"
#include "institution.h"
#include "region.h"
using namespace cyclus;
using namespace h;

// dur N | proto name kind(F|I|R) lifetime | init proto parent | sched proto parent t | act phase time serial op args..
//   ops: build proto parent(-1 none,-2 self,n serial) t | decom target(-2 self) t | life target n | allow target 0|1 | kill | snap | count proto
namespace {

struct Op { Toks t; };
std::map<std::string, std::vector<Toks> > script;  // "phase time serial"
std::map<int, Agent*> alive;                        // serial -> agent
std::map<int, bool> refuse;                         // serial -> refuses to be decommissioned
int next_serial = 0;
Context* ctx = NULL;

void Act(const char* phase, int serial);

Agent* Get(const std::string& s, int self) {
  int n = I(s);
  if (n == -2) n = self;
  return alive.count(n) ? alive[n] : NULL;
}

void Do(const Toks& t, int self) {
  std::string r = "ok";
  try {
    if (t[0] == "build") {
      Agent* p = Get(t[2], self);
      if (I(t[2]) != -1 && p == NULL) { OutS("DO skip"); return; }
      ctx->SchedBuild(p, t[1], I(t[3]));
    } else if (t[0] == "decom") {
      Agent* p = Get(t[1], self);
      if (p == NULL) { OutS("DO skip"); return; }
      ctx->SchedDecom(p, I(t[2]));
    } else if (t[0] == "life") {
      Agent* p = Get(t[1], self);
      if (p == NULL) { OutS("DO skip"); return; }
      p->lifetime_force(I(t[2]));
      Out("LIFE %d %d", p->lifetime(), p->exit_time());
    } else if (t[0] == "setlife") {
      Agent* p = Get(t[1], self);
      if (p == NULL) { OutS("DO skip"); return; }
      p->lifetime(I(t[2]));
    } else if (t[0] == "allow") {
      int n = I(t[1]) == -2 ? self : I(t[1]);
      refuse[n] = !I(t[2]);
    } else if (t[0] == "kill") {
      ctx->KillSim();
    } else if (t[0] == "snap") {
      ctx->Snapshot();
    } else if (t[0] == "count") {
      Out("COUNT %s %d", t[1].c_str(), ctx->n_prototypes(t[1]));
    } else if (t[0] == "family") {
      Agent* p = Get(t[1], self);
      Agent* q = Get(t[2], self);
      if (p == NULL || q == NULL) { OutS("DO skip"); return; }
      std::set<int> kids;
      for (std::map<int, Agent*>::iterator it = alive.begin(); it != alive.end(); ++it)
        if (p->children().count(it->second)) kids.insert(it->first);
      std::string k;
      for (std::set<int>::iterator it = kids.begin(); it != kids.end(); ++it) k += " " + std::to_string(*it);
      Out("FAM %d %d %d%s", p->parent() ? p->parent()->id() : -1, p->parent_id(), (int)p->children().size(), k.c_str());
      Out("REL %d %d %d", (int)p->AncestorOf(q), (int)p->DecendentOf(q), (int)p->InFamilyTree(q));
    } else if (t[0] == "print") {
      Agent* p = Get(t[1], self);
      if (p == NULL) { OutS("DO skip"); return; }
      std::istringstream is(p->PrintChildren());
      std::string ln;
      while (std::getline(is, ln)) {
        size_t n = ln.find_first_not_of("\t");
        if (n != std::string::npos) Out("PRINT %d %s", (int)n, Hex(ln.substr(n)).c_str());
      }
    } else throw Bad("op " + t[0]);
  } catch (const std::exception& e) { r = ErrName(e); }
  OutS("DO " + r);
}

void Ev(const char* phase, int serial) {
  Out("EV %s %d %d", phase, ctx->time(), serial);
  std::map<std::string, std::vector<Toks> >::iterator it =
      script.find(std::string(phase) + " " + std::to_string(ctx->time()) + " " + std::to_string(serial));
  if (it == script.end()) return;
  for (size_t i = 0; i < it->second.size(); ++i) Do(it->second[i], serial);
}

template <class B> class HA : public B {
 public:
  int serial;
  HA(Context* c) : B(c), serial(-1) {}
  virtual ~HA() {
    if (serial >= 0) {
      alive.erase(serial);
      Out("GONE %d", serial);
    }
  }
  virtual Agent* Clone() {
    HA<B>* a = new HA<B>(this->context());
    a->InitFrom(this);
    return a;
  }
  virtual void InitInv(Inventories&) {}
  virtual Inventories SnapshotInv() { return Inventories(); }
  virtual std::string version() { return "0"; }
  virtual void EnterNotify() {
    B::EnterNotify();
    serial = next_serial++;
    alive[serial] = this;
    Out("ENTER %d %d %s %d %d %d %d", serial, this->id(), this->prototype().c_str(), this->parent() ? this->parent()->id() : -1,
        this->lifetime(), this->enter_time(), this->exit_time());
    Ev("enter", serial);
  }
  virtual void Tick() { Ev("tick", serial); B::Tick(); }
  virtual void Tock() { Ev("tock", serial); B::Tock(); }
  virtual void Decision() { Ev("decision", serial); B::Decision(); }
  virtual void BuildNotify(Agent* a) { Ev("buildnotify", serial); }
  virtual void DecomNotify(Agent* a) { Ev("decomnotify", serial); }
  virtual void Decommission() { Ev("decom", serial); B::Decommission(); }
};

class HFc : public HA<Facility> {
 public:
  HFc(Context* c) : HA<Facility>(c) {}
  virtual Agent* Clone() {
    HFc* a = new HFc(context());
    a->InitFrom(this);
    return a;
  }
  virtual void Tick() { Ev("tick", serial); }
  virtual void Tock() { Ev("tock", serial); }
  virtual bool CheckDecommissionCondition() { return !refuse[serial]; }
  virtual std::set<RequestPortfolio<Material>::Ptr> GetMatlRequests() {
    Ev("mreq", serial);
    return std::set<RequestPortfolio<Material>::Ptr>();
  }
  virtual std::set<RequestPortfolio<Product>::Ptr> GetProductRequests() {
    Ev("preq", serial);
    return std::set<RequestPortfolio<Product>::Ptr>();
  }
};
// facilities have pure virtual Tick and Tock
template <> void HA<Facility>::Tick() {}
template <> void HA<Facility>::Tock() {}

void Run(const Case& c) {
  Timer& ti = *new Timer();
  Recorder& rec = *new Recorder((unsigned int)1);
  PrintBack& back = *new PrintBack();
  const char* tabs[] = {"AgentEntry", "AgentExit", "Finish", "BuildSchedule", "DecomSchedule", "Snapshots"};
  for (int i = 0; i < 6; ++i) back.only.insert(tabs[i]);
  rec.RegisterBackend(&back);
  ctx = new Context(&ti, &rec);
  int dur = 1;
  for (size_t i = 0; i < c.size(); ++i)
    if (c[i][0] == "dur") dur = I(c[i][1]);
  SimInfo si(dur, 2000, 1, "h", "never");
  ctx->InitSim(si);
  ctx->solver(new GreedySolver(true));
  for (size_t i = 0; i < c.size(); ++i)
    if (c[i][0] == "act")
      script[c[i][1] + " " + c[i][2] + " " + c[i][3]].push_back(Toks(c[i].begin() + 4, c[i].end()));
  for (size_t i = 0; i < c.size(); ++i) {
    const Toks& t = c[i];
    if (t[0] == "proto") {
      Agent* a = t[2] == "F" ? (Agent*)new HFc(ctx) : t[2] == "I" ? (Agent*)new HA<Institution>(ctx) : (Agent*)new HA<Region>(ctx);
      a->prototype(t[1]);
      a->spec("s" + t[2]);
      a->lifetime(I(t[3]));
      ctx->AddPrototype(t[1], a);
    } else if (t[0] == "init") {
      Agent* a = ctx->CreateAgent<Agent>(t[1]);
      Agent* p = Get(t[2], -1);
      a->Build(p);
      if (p != NULL) p->BuildNotify(a);
    } else if (t[0] == "sched") {
      Do(Toks(t.begin() + 1, t.end()), -1);
    }
  }
  OutS("RUN");
  try {
    ti.RunSim();
    OutS("DONE");
  } catch (const std::exception& e) {
    Out("ERR %s", ErrName(e).c_str());
  }
}
}  // namespace
int main() { return Serve(Run, 30); }

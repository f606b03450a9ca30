// simulations saved and restored: set-up -> SimInit::Init -> run with snapshots -> SimInit::Restart -> run
#include "h_common.h"
#include "h_util.h"
#include "greedy_solver.h"
#include "hdf5_back.h"
#include "institution.h"
#include "region.h"
#include "sim_init.h"
#include "sqlite_back.h"
#include "toolkit/res_buf.h"
using namespace cyclus;
using namespace h;

// info k=v.. | back sqlite|h5 | prio commod order | recipe name n nuc frac.. | pkg name min max strat | tu name min max strat
// proto name kind k=v.. | init proto parentserial | sched parentserial proto t | snap t.. | restart t..
static void Dump(const char* tag, Context* ctx);

struct SimInitTest {
  static void Reg(const std::string& s, AgentCtor* c) { DynamicModule::man_ctors_[s] = c; }
  static std::set<Agent*> Agents(Context* c) { return c->agent_list_; }
  static std::map<std::string, Agent*> Protos(Context* c) { return c->protos_; }
  static std::map<std::string, Composition::Ptr> Recipes(Context* c) { return c->recipes_; }
  static std::map<std::string, Package::Ptr> Pkgs(Context* c) { return c->packages_; }
  static std::map<std::string, TransportUnit::Ptr> TUs(Context* c) { return c->transport_units_; }
  static std::map<std::string, int> NP(Context* c) { return c->n_prototypes_; }
  static std::map<std::string, int> NS(Context* c) { return c->n_specs_; }
  static Timer* Ti(Context* c) { return c->ti_; }
  static std::map<int, std::vector<std::pair<std::string, Agent*> > > BQ(Context* c) { return c->ti_->build_queue_; }
  static std::map<int, std::vector<Agent*> > DQ(Context* c) { return c->ti_->decom_queue_; }
  static std::vector<int> Tick(Context* c) {
    std::vector<int> r;
    std::map<int, TimeListener*>& m = c->ti_->tickers_;
    for (std::map<int, TimeListener*>::iterator it = m.begin(); it != m.end(); ++it) r.push_back(it->first);
    return r;
  }
  static size_t Traders(Context* c) { return c->traders_.size(); }
  static std::string Next(Context* c) {
    std::ostringstream o;
    o << Agent::next_id_ << " " << c->trans_id_ << " " << Composition::next_id_ << " " << Resource::nextstate_id_ << " "
      << Resource::nextobj_id_ << " " << Product::next_qualid_;
    return o.str();
  }
};
typedef SimInitTest X;

namespace {
typedef std::map<std::string, std::string> KV;

// the state of every agent: parameters that never change and state that does
struct State {
  std::string in, out, recipe, pkg, qual;
  double rate, cap, buy;
  int period, quit;
  std::vector<std::string> plan;
  int n;
  std::vector<double> hist;
  std::map<std::string, int> seen;
  std::string last;
  bool flag;
  State() : rate(0), cap(1e9), buy(0), period(0), quit(-1), n(0), flag(false) {}
  void Parse(const KV& k) {
    for (KV::const_iterator it = k.begin(); it != k.end(); ++it) {
      const std::string& a = it->first; const std::string& b = it->second;
      if (a == "in") in = b; else if (a == "out") out = b; else if (a == "recipe") recipe = b; else if (a == "pkg") pkg = b;
      else if (a == "qual") qual = b; else if (a == "rate") rate = D(b); else if (a == "cap") cap = D(b); else if (a == "buy") buy = D(b);
      else if (a == "period") period = I(b); else if (a == "quit") quit = I(b);
      else if (a == "plan") { std::istringstream is(b); std::string x; while (std::getline(is, x, ',')) plan.push_back(x); }
      else throw Bad("param " + a);
    }
  }
  void Save(DbInit di) {
    di.NewDatum("Info")->AddVal("p_in", in)->AddVal("p_out", out)->AddVal("recipe", recipe)->AddVal("pkg", pkg)->AddVal("qual", qual)
        ->AddVal("rate", rate)->AddVal("cap", cap)->AddVal("buy", buy)->AddVal("period", period)->AddVal("quit", quit)
        ->AddVal("plan", plan)->AddVal("n", n)->AddVal("hist", hist)->AddVal("seen", seen)->AddVal("lastv", last)->AddVal("flag", flag)->Record();
  }
  void Load(QueryableBackend* b) {
    QueryResult q = b->Query("Info", NULL);
    in = q.GetVal<std::string>("p_in"); out = q.GetVal<std::string>("p_out"); recipe = q.GetVal<std::string>("recipe");
    pkg = q.GetVal<std::string>("pkg"); qual = q.GetVal<std::string>("qual"); rate = q.GetVal<double>("rate"); cap = q.GetVal<double>("cap");
    buy = q.GetVal<double>("buy"); period = q.GetVal<int>("period"); quit = q.GetVal<int>("quit");
    plan = q.GetVal<std::vector<std::string> >("plan"); n = q.GetVal<int>("n"); hist = q.GetVal<std::vector<double> >("hist");
    seen = q.GetVal<std::map<std::string, int> >("seen"); last = q.GetVal<std::string>("lastv"); flag = q.GetVal<bool>("flag");
  }
  std::string Str() const {
    std::string o = Hex(in) + " " + Hex(out) + " " + Hex(recipe) + " " + Hex(pkg) + " " + Hex(qual) + " " + F(rate) + " " + F(cap) + " " + F(buy) +
                    " " + std::to_string(period) + " " + std::to_string(quit) + " n " + std::to_string(n) + " " + Hex(last) + " " + std::to_string(flag) + " P";
    for (size_t i = 0; i < plan.size(); ++i) o += " " + Hex(plan[i]);
    o += " H";
    for (size_t i = 0; i < hist.size(); ++i) o += " " + F(hist[i]);
    o += " S";
    for (std::map<std::string, int>::const_iterator it = seen.begin(); it != seen.end(); ++it) o += " " + Hex(it->first) + " " + std::to_string(it->second);
    return o;
  }
};

struct HasState { State s; virtual ~HasState() {} };

double Pref(int a, int b) { return 1.0 + ((a * 7919 + b * 104729 + 31 * a * b) % 9973) / 9973.0; }

bool ByContent(const std::pair<int, Material::Ptr>& a, const std::pair<int, Material::Ptr>& b) {
  if (a.first != b.first) return a.first < b.first;
  return a.second->quantity() < b.second->quantity();
}

class SF : public Facility, public HasState {
 public:
  toolkit::ResBuf<Material> inb, outb;
  toolkit::ResBuf<Product> prod;
  SF(Context* c) : Facility(c), inb(false, true), outb(false, true), prod(false, true) {}
  virtual std::string version() { return "sf1"; }
  virtual Agent* Clone() { SF* a = new SF(context()); a->InitFrom(this); return a; }
  void InitFrom(SF* m) { Facility::InitFrom(m); s = m->s; }
  virtual void InitFrom(QueryableBackend* b) { Facility::InitFrom(b); s.Load(b); }
  virtual void Snapshot(DbInit di) { Facility::Snapshot(di); s.Save(di); }
  virtual Inventories SnapshotInv() {
    Inventories i;
    i["inb"] = inb.PopNRes(inb.count()); inb.Push(i["inb"]);
    i["outb"] = outb.PopNRes(outb.count()); outb.Push(i["outb"]);
    i["prod"] = prod.PopNRes(prod.count()); prod.Push(i["prod"]);
    return i;
  }
  virtual void InitInv(Inventories& i) { inb.Push(i["inb"]); outb.Push(i["outb"]); prod.Push(i["prod"]); }
  virtual void Tick() {
    ++s.n;
    if (s.rate > 0 && s.recipe != "" && outb.quantity() + s.rate <= s.cap)
      outb.Push(Material::Create(this, s.rate, context()->GetRecipe(s.recipe)));
    if (s.qual != "" && prod.quantity() < 20) {
      prod.Push(Product::Create(this, 1.5, s.qual + (s.n % 3 == 0 ? "b" : "")));
      if (s.n % 4 == 3) prod.Push(prod.Pop());
      if (s.n % 3 == 1 && s.pkg != "") {
        Product::Ptr a = prod.Pop();
        std::vector<Product::Ptr> ps = a->Package<Product>(context()->GetPackage(s.pkg));
        for (size_t i = 0; i < ps.size(); ++i) prod.Push(ps[i]);
        if (a->quantity() > eps_rsrc()) prod.Push(a);
      }
    }
    if (s.period > 0 && s.n % s.period == 0) {
      if (inb.count() >= 2) {
        Material::Ptr a = inb.Pop(), b = inb.Pop();
        if (a->package_name() == Package::unpackaged_name() && b->package_name() == Package::unpackaged_name()) {
          a->Absorb(b);
          if (s.n % 2 && s.recipe != "") a->Transmute(context()->GetRecipe(s.recipe));
          outb.Push(a);
        } else { outb.Push(a); outb.Push(b); }
      } else if (inb.count() == 1) outb.Push(inb.Pop());
      if (s.pkg != "" && outb.count() > 0) {
        Material::Ptr a = outb.Pop();
        std::vector<Material::Ptr> ps = a->Package<Material>(context()->GetPackage(s.pkg));
        for (size_t i = 0; i < ps.size(); ++i) outb.Push(ps[i]);
        if (a->quantity() > eps_rsrc()) outb.Push(a);
      }
    }
    s.flag = !s.flag;
  }
  virtual void Tock() {
    s.hist.push_back(outb.quantity());
    if (s.hist.size() > 4) s.hist.erase(s.hist.begin());
    s.last = "t" + std::to_string(s.n);
    if (s.quit >= 0 && s.n == s.quit) context()->SchedDecom(this, context()->time() + s.quit % 3);
  }
  virtual std::set<RequestPortfolio<Material>::Ptr> GetMatlRequests() {
    std::set<RequestPortfolio<Material>::Ptr> r;
    double q = std::min(s.buy, s.cap - inb.quantity());
    if (s.in == "" || q <= 1e-3) return r;
    RequestPortfolio<Material>::Ptr p(new RequestPortfolio<Material>());
    p->AddRequest(Material::CreateUntracked(q, context()->GetRecipe("r0")), this, s.in, 1.0);
    p->AddConstraint(CapacityConstraint<Material>(q));
    r.insert(p);
    return r;
  }
  virtual std::set<BidPortfolio<Material>::Ptr> GetMatlBids(CommodMap<Material>::type& m) {
    std::set<BidPortfolio<Material>::Ptr> r;
    if (s.out == "" || outb.quantity() < 1e-3 || !m.count(s.out)) return r;
    BidPortfolio<Material>::Ptr p(new BidPortfolio<Material>());
    std::vector<Request<Material>*>& q = m[s.out];
    for (size_t i = 0; i < q.size(); ++i)
      p->AddBid(q[i], Material::CreateUntracked(std::min(outb.quantity(), q[i]->target()->quantity()), context()->GetRecipe("r0")), this);
    p->AddConstraint(CapacityConstraint<Material>(outb.quantity()));
    r.insert(p);
    return r;
  }
  virtual void AdjustMatlPrefs(PrefMap<Material>::type& prefs) {
    for (PrefMap<Material>::type::iterator it = prefs.begin(); it != prefs.end(); ++it)
      for (std::map<Bid<Material>*, double>::iterator j = it->second.begin(); j != it->second.end(); ++j)
        j->second = Pref(id(), j->first->bidder()->manager()->id());
  }
  virtual void GetMatlTrades(const std::vector<Trade<Material> >& t,
                             std::vector<std::pair<Trade<Material>, Material::Ptr> >& r) {
    // the order in which trades arrive is free: serve by requester
    std::vector<std::pair<int, size_t> > o;
    for (size_t i = 0; i < t.size(); ++i) o.push_back(std::make_pair(t[i].request->requester()->manager()->id(), i));
    std::sort(o.begin(), o.end());
    for (size_t i = 0; i < o.size(); ++i) {
      const Trade<Material>& x = t[o[i].second];
      double q = std::min(x.amt, outb.quantity());
      Material::Ptr m;
      if (outb.Peek()->package_name() != Package::unpackaged_name() && outb.Peek()->quantity() <= q) m = outb.Pop();
      else {
        // a single material, so that what arrives is one thing
        m = outb.Pop();
        if (m->quantity() > q + 1e-9) {
          Material::Ptr rest = m;
          m = rest->ExtractQty(q);
          outb.Push(rest);
        }
      }
      r.push_back(std::make_pair(x, m));
    }
  }
  virtual void AcceptMatlTrades(const std::vector<std::pair<Trade<Material>, Material::Ptr> >& t) {
    std::vector<std::pair<int, Material::Ptr> > v;
    for (size_t i = 0; i < t.size(); ++i) {
      v.push_back(std::make_pair(t[i].first.bid->bidder()->manager()->id(), t[i].second));
      ++s.seen[t[i].first.request->commodity()];
    }
    std::sort(v.begin(), v.end(), ByContent);
    for (size_t i = 0; i < v.size(); ++i) inb.Push(v[i].second);
  }
};

template <class B> class SM : public B, public HasState {
 public:
  SM(Context* c) : B(c) {}
  virtual std::string version() { return "sm1"; }
  virtual Agent* Clone() { SM<B>* a = new SM<B>(this->context()); a->B::InitFrom(this); a->s = s; return a; }
  virtual void InitFrom(QueryableBackend* b) { B::InitFrom(b); s.Load(b); }
  virtual void Snapshot(DbInit di) {
    B::Snapshot(di);
    s.Save(di);
    if (this->enter_time() != -1 && this->prototype() == "root") Dump("D", this->context());
  }
  virtual Inventories SnapshotInv() { return Inventories(); }
  virtual void InitInv(Inventories&) {}
  std::vector<Agent*> Kids() {
    std::map<int, Agent*> m;
    for (std::set<Agent*>::const_iterator it = this->children().begin(); it != this->children().end(); ++it) m[(*it)->id()] = *it;
    std::vector<Agent*> v;
    for (std::map<int, Agent*>::iterator it = m.begin(); it != m.end(); ++it) v.push_back(it->second);
    return v;
  }
  virtual void Tick() {
    ++s.n;
    if (this->prototype() == "root") { this->context()->Snapshot(); return; }
    Context* ctx = this->context();
    for (size_t i = 0; i < s.plan.size(); ++i) {
      Toks t;
      std::istringstream is(s.plan[i]);
      std::string x;
      while (std::getline(is, x, ':')) t.push_back(x);
      if (I(t[0]) != s.n) continue;
      std::vector<Agent*> k = Kids();
      Agent* a = k.empty() ? NULL : k[(size_t)I(t[2]) % k.size()];
      if (t[1] == "b") ctx->SchedBuild(this, t[3], ctx->time() + 1 + I(t[2]));
      else if (t[1] == "o") ctx->SchedBuild(NULL, t[3], ctx->time() + 1 + I(t[2]));
      else if (t[1] == "d" && a) ctx->SchedDecom(a, ctx->time() + I(t[3]));
      else if (t[1] == "l" && a) a->lifetime_force(I(t[3]));
      s.seen[t[1]]++;
    }
  }
};
typedef SM<Institution> SI;
typedef SM<Region> SR;
Agent* MkF(Context* c) { return new SF(c); }
Agent* MkI(Context* c) { return new SI(c); }
Agent* MkR(Context* c) { return new SR(c); }

std::string ResStr(Resource::Ptr r) {
  std::string o = std::to_string(r->state_id()) + " " + std::to_string(r->obj_id()) + " " + r->type() + " " + F(r->quantity()) + " " +
                  Hex(r->package_name());
  Material::Ptr m = boost::dynamic_pointer_cast<Material>(r);
  if (m) {
    CompMap c = m->comp()->mass();
    compmath::Normalize(&c);
    o += " " + std::to_string(m->comp()->id()) + " " + std::to_string(m->prev_decay_time()) + " C " + MapStr(c);
  } else {
    Product::Ptr p = boost::dynamic_pointer_cast<Product>(r);
    o += " " + std::to_string(p->qual_id()) + " 0 Q " + Hex(p->quality());
  }
  return o;
}
}  // namespace

static void Dump(const char* tag, Context* ctx) {
  std::string T = std::string(tag) + " " + std::to_string(ctx->time()) + " ";
  SimInfo si = ctx->sim_info();
  Out("%sinfo %d %d %d %s %s %llu %s %s %d %d %llu %llu", T.c_str(), si.duration, si.y0, si.m0, Hex(si.handle).c_str(), Hex(si.decay).c_str(),
      (unsigned long long)si.dt, F(si.eps).c_str(), F(si.eps_rsrc).c_str(), (int)si.explicit_inventory, (int)si.explicit_inventory_compact,
      (unsigned long long)si.seed, (unsigned long long)si.stride);
  Out("%seps %s %s", T.c_str(), F(eps()).c_str(), F(eps_rsrc()).c_str());
  OutS(T + "next " + X::Next(ctx));
  std::map<std::string, Composition::Ptr> rs = X::Recipes(ctx);
  for (std::map<std::string, Composition::Ptr>::iterator it = rs.begin(); it != rs.end(); ++it) {
    CompMap c = it->second->mass();
    compmath::Normalize(&c);
    OutS(T + "recipe " + it->first + " " + std::to_string(it->second->id()) + " C " + MapStr(c));
  }
  std::map<std::string, Package::Ptr> ps = X::Pkgs(ctx);
  for (std::map<std::string, Package::Ptr>::iterator it = ps.begin(); it != ps.end(); ++it)
    OutS(T + "pkg " + it->first + " " + it->second->name() + " " + F(it->second->fill_min()) + " " + F(it->second->fill_max()) + " " + it->second->strategy());
  std::map<std::string, TransportUnit::Ptr> ts = X::TUs(ctx);
  for (std::map<std::string, TransportUnit::Ptr>::iterator it = ts.begin(); it != ts.end(); ++it)
    OutS(T + "tu " + it->first + " " + it->second->name() + " " + std::to_string(it->second->fill_min()) + " " + std::to_string(it->second->fill_max()) + " " + it->second->strategy());
  std::map<std::string, Agent*> pr = X::Protos(ctx);
  for (std::map<std::string, Agent*>::iterator it = pr.begin(); it != pr.end(); ++it) {
    Agent* a = it->second;
    HasState* h = dynamic_cast<HasState*>(a);
    OutS(T + "proto " + it->first + " " + std::to_string(a->id()) + " " + a->prototype() + " " + a->spec() + " " + std::to_string(a->lifetime()) + " " +
         std::to_string(a->enter_time()) + " | " + h->s.Str());
  }
  std::map<std::string, int> np = X::NP(ctx), ns = X::NS(ctx);
  for (std::map<std::string, int>::iterator it = np.begin(); it != np.end(); ++it)
    if (it->second) OutS(T + "nproto " + it->first + " " + std::to_string(it->second));
  for (std::map<std::string, int>::iterator it = ns.begin(); it != ns.end(); ++it)
    if (it->second) OutS(T + "nspec " + it->first + " " + std::to_string(it->second));
  std::vector<int> tk = X::Tick(ctx);
  std::string o;
  for (size_t i = 0; i < tk.size(); ++i) o += " " + std::to_string(tk[i]);
  OutS(T + "listeners x" + o);
  OutS(T + "traders x " + std::to_string(X::Traders(ctx)));
  std::map<int, Agent*> as;
  std::set<Agent*> all = X::Agents(ctx);
  for (std::set<Agent*>::iterator it = all.begin(); it != all.end(); ++it)
    if ((*it)->enter_time() != -1) as[(*it)->id()] = *it;
  for (std::map<int, Agent*>::iterator it = as.begin(); it != as.end(); ++it) {
    Agent* a = it->second;
    HasState* h = dynamic_cast<HasState*>(a);
    std::string kids;
    std::set<int> ki;
    for (std::set<Agent*>::const_iterator k = a->children().begin(); k != a->children().end(); ++k) ki.insert((*k)->id());
    for (std::set<int>::iterator k = ki.begin(); k != ki.end(); ++k) kids += " " + std::to_string(*k);
    OutS(T + "agent " + std::to_string(a->id()) + " " + a->prototype() + " " + a->spec() + " " + a->kind() + " " +
         std::to_string(a->parent() ? a->parent()->id() : -1) + " " + std::to_string(a->parent_id()) + " " + std::to_string(a->lifetime()) + " " +
         std::to_string(a->enter_time()) + " " + std::to_string(a->exit_time()) + " | " + h->s.Str() + " | kids" + kids);
    Inventories inv = a->SnapshotInv();
    for (Inventories::iterator j = inv.begin(); j != inv.end(); ++j)
      for (size_t k = 0; k < j->second.size(); ++k)
        OutS(T + "inv " + std::to_string(a->id()) + ":" + j->first + ":" + std::to_string(k) + " " + ResStr(j->second[k]));
  }
  std::map<int, std::vector<std::pair<std::string, Agent*> > > bq = X::BQ(ctx);
  for (std::map<int, std::vector<std::pair<std::string, Agent*> > >::iterator it = bq.begin(); it != bq.end(); ++it) {
    if (it->first < ctx->time()) continue;
    for (size_t i = 0; i < it->second.size(); ++i)
      OutS(T + "build " + std::to_string(it->first) + ":" + std::to_string(i) + " " + it->second[i].first + " " +
           std::to_string(it->second[i].second ? it->second[i].second->id() : -1));
  }
  std::map<int, std::vector<Agent*> > dq = X::DQ(ctx);
  for (std::map<int, std::vector<Agent*> >::iterator it = dq.begin(); it != dq.end(); ++it) {
    if (it->first < ctx->time()) continue;
    for (size_t i = 0; i < it->second.size(); ++i)
      OutS(T + "decom " + std::to_string(it->first) + ":" + std::to_string(i) + " " + std::to_string(it->second[i]->id()));
  }
  OutS(T + "end");
}

namespace {
FullBackend* Open(const std::string& kind, const std::string& p) {
  if (kind == "h5") return new Hdf5Back(p);
  return new SqliteBack(p);
}
std::string PathOf(const std::string& kind, const std::string& stem) { return stem + (kind == "h5" ? ".h5" : ".sqlite"); }

int Child(void (*f)(const Case&, int), const Case& c, int arg) {
  fflush(obs);
  pid_t pid = fork();
  if (pid < 0) throw Bad("fork");
  if (pid == 0) {
    int rc = 0;
    try { f(c, arg); }
    catch (const Bad& e) { Out("BAD %s", e.m.c_str()); rc = 99; }
    catch (const std::exception& e) { Out("FAILED %s %s", ErrName(e).c_str(), Hex(e.what()).c_str()); rc = 97; }
    fflush(obs);
    _exit(rc);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  if (WIFEXITED(st)) return WEXITSTATUS(st);
  return 200 + WTERMSIG(st);
}

const char* kRows[] = {"Transactions", "AgentEntry", "AgentExit", "Finish", "BuildSchedule", "DecomSchedule"};
PrintBack* Printer() {
  PrintBack* b = new PrintBack();
  for (int i = 0; i < 6; ++i) b->only.insert(kRows[i]);
  return b;
}

void RunOriginal(const Case& c, int) {
  std::string kind = "sqlite";
  KV info;
  for (size_t i = 0; i < c.size(); ++i) {
    if (c[i][0] == "back") kind = c[i][1];
    if (c[i][0] == "info") for (size_t j = 1; j < c[i].size(); ++j) {
      size_t e = c[i][j].find('=');
      info[c[i][j].substr(0, e)] = c[i][j].substr(e + 1);
    }
  }
  Recorder* rec = new Recorder((unsigned int)I(info["dump"]));
  FullBackend* back = Open(kind, PathOf(kind, "orig"));
  rec->RegisterBackend(back);
  // the set-up, as a loader of input files does it
  {
    Timer* ti = new Timer();
    Context* ctx = new Context(ti, rec);
    SimInfo si(I(info["dur"]), I(info["y0"]), I(info["m0"]), UnHex(info["handle"]), "never");
    si.dt = LL(info["dt"]);
    si.eps = D(info["eps"]); si.eps_rsrc = D(info["epsr"]);
    cy_eps = si.eps; cy_eps_rsrc = si.eps_rsrc;
    si.seed = LL(info["seed"]); si.stride = LL(info["stride"]);
    si.explicit_inventory = I(info["xinv"]) & 1; si.explicit_inventory_compact = I(info["xinv"]) & 2;
    ctx->InitSim(si);
    ctx->NewDatum("SolverInfo")->AddVal("Solver", std::string("greedy"))->AddVal("ExclusiveOrders", I(info["excl"]) != 0)->Record();
    ctx->NewDatum("GreedySolverInfo")->AddVal("Preconditioner", std::string("greedy"))->Record();
    ctx->RecordPackage(Package::unpackaged());
    ctx->RecordTransportUnit(TransportUnit::unrestricted());
    std::vector<Agent*> built;
    for (size_t i = 0; i < c.size(); ++i) {
      const Toks& t = c[i];
      if (t[0] == "prio") ctx->NewDatum("CommodPriority")->AddVal("Commodity", t[1])->AddVal("SolutionPriority", D(t[2]))->Record();
      else if (t[0] == "recipe") {
        CompMap m;
        for (int j = 0; j < I(t[2]); ++j) m[I(t[3 + 2 * j])] = D(t[4 + 2 * j]);
        Composition::Ptr p = Composition::CreateFromMass(m);
        p->Record(ctx);
        ctx->AddRecipe(t[1], p);
      } else if (t[0] == "pkg") ctx->AddPackage(t[1], D(t[2]), D(t[3]), t[4]);
      else if (t[0] == "tu") ctx->AddTransportUnit(t[1], I(t[2]), I(t[3]), t[4]);
      else if (t[0] == "proto") {
        Agent* a = t[2] == "F" ? MkF(ctx) : t[2] == "I" ? MkI(ctx) : MkR(ctx);
        a->spec(t[2] == "F" ? ":h:SF" : t[2] == "I" ? ":h:SI" : ":h:SR");
        a->prototype(t[1]);
        a->lifetime(I(t[3]));
        KV k;
        for (size_t j = 4; j < t.size(); ++j) { size_t e = t[j].find('='); k[t[j].substr(0, e)] = UnHex(t[j].substr(e + 1)); }
        dynamic_cast<HasState*>(a)->s.Parse(k);
        ctx->AddPrototype(t[1], a);
      } else if (t[0] == "init") {
        Agent* a = ctx->CreateAgent<Agent>(t[1]);
        a->Build(I(t[2]) < 0 ? NULL : built[I(t[2])]);
        built.push_back(a);
      } else if (t[0] == "sched") ctx->SchedBuild(I(t[1]) < 0 ? NULL : built[I(t[1])], t[2], I(t[3]));
    }
    SimInit::Snapshot(ctx);  // dumps through the root agent
    rec->Flush();
  }
  Out("UUID %s", boost::lexical_cast<std::string>(rec->sim_id()).c_str());
  SimInit* si = new SimInit();
  si->Init(rec, back);
  rec->RegisterBackend(Printer());
  OutS("INIT");
  Dump("D", si->context());
  OutS("RUN");
  si->timer()->RunSim();
  rec->Flush();
  rec->Close();
  delete back;
  OutS("DONE");
}

void RunRestart(const Case& c, int t) {
  std::string kind = "sqlite", id;
  for (size_t i = 0; i < c.size(); ++i) if (c[i][0] == "back") kind = c[i][1];
  FullBackend* back = Open(kind, PathOf(kind, "orig"));
  QueryResult q = back->Query("Info", NULL);
  boost::uuids::uuid u = q.GetVal<boost::uuids::uuid>("SimId");
  SimInit* si = new SimInit();
  si->Restart(back, u, t);
  // the restarted simulation has a fresh recorder without a backend: see all of it
  Out("PARENT %d %s %d", (int)(si->context()->sim_info().parent_sim == u), si->context()->sim_info().parent_type.c_str(), si->context()->sim_info().branch_time);
  Out("NEWID %d", (int)(si->context()->sim_id() != u));
  FullBackend* nb = Open(kind, PathOf(kind, "re" + std::to_string(t)));
  si->recorder()->RegisterBackend(Printer());
  si->recorder()->RegisterBackend(nb);
  OutS("INIT");
  Dump("D", si->context());
  OutS("RUN");
  si->timer()->RunSim();
  si->recorder()->Flush();
  OutS("DONE");
}

void Run(const Case& c) {
  X::Reg(":h:SF", MkF);
  X::Reg(":h:SI", MkI);
  X::Reg(":h:SR", MkR);
  OutS("ORIGINAL");
  int rc = Child(RunOriginal, c, 0);
  Out("\nRC %d", rc);
  for (size_t i = 0; rc == 0 && i < c.size(); ++i)
    if (c[i][0] == "restart")
      for (size_t j = 1; j < c[i].size(); ++j) {
        OutS("RESTART " + c[i][j]);
        { int r2 = Child(RunRestart, c, I(c[i][j])); Out("\nRC %d", r2); }
      }
  unlink("orig.sqlite");
  unlink("orig.h5");
  for (int t = 0; t < 40; ++t) {
    unlink(PathOf("sqlite", "re" + std::to_string(t)).c_str());
    unlink(PathOf("h5", "re" + std::to_string(t)).c_str());
  }
}
}  // namespace

int main() { return Serve(Run, 60); }

// scripted traders in a running simulation
#include "h_common.h"
#include "h_util.h"
#include "greedy_solver.h"
#include "prog_solver.h"
#include "institution.h"
#include "region.h"
using namespace cyclus;
using namespace h;

// dur N | solver greedy|prog excl
// region i | inst i region | tr i inst(-1 none) | late i time (trader i enters at time)
// rule agentkind(R|I|T) idx type commod op(mul|set) value bidder(-1 any)
// port id step type trader
// req id port commod qty pref excl u235 | mut port reqs.. | pcon port cap conv(0 qty,1 u235)
// bport id step type trader | bid id bport req qty pref|nan excl offerkey u235 | bcon bport cap conv
// short bid factor : the supplier delivers less than matched
namespace {

struct ReqS { int id, port; std::string com; double qty, pref; bool ex; double u; };
struct BidS { int id, port, req; double qty, pref; bool ex; int offer; double u; };
struct PortS { int id, step; char type; int trader; std::vector<ReqS> reqs; std::vector<std::vector<int> > mut; std::vector<std::pair<double, int> > con; };
struct BPortS { int id, step; char type; int trader; std::vector<BidS> bids; std::vector<std::pair<double, int> > con; };
struct Rule { char type; std::string com; bool set; double val; int bidder; };

std::vector<PortS> ports;
std::vector<BPortS> bports;
std::map<std::string, std::vector<Rule> > rules;  // "R0", "I1", "T2"
std::map<int, double> shorts;
std::map<void*, int> req_id, bid_id;
std::map<int, void*> req_ptr;
std::map<int, int> trader_no;  // agent id -> trader number
std::map<const void*, int> res_no;
int next_res = 0;

Composition::Ptr Comp(double u) {
  CompMap m;
  if (u > 0) m[922350000] = u;
  if (u < 1) m[922380000] = 1 - u;
  return Composition::CreateFromMass(m);
}

template <class T> struct Tr;
template <> struct Tr<Material> {
  static const char ty = 'M';
  static Material::Ptr Un(double q, double u) { return Material::CreateUntracked(q, Comp(u)); }
  static Material::Ptr Mk(Agent* a, double q, double u) { return Material::Create(a, q, Comp(u)); }
  static double U(Material::Ptr m) {
    CompMap c = m->comp()->mass();
    compmath::Normalize(&c, m->quantity());
    return c.count(922350000) ? c[922350000] : 0;
  }
};
template <> struct Tr<Product> {
  static const char ty = 'P';
  static Product::Ptr Un(double q, double u) { return Product::CreateUntracked(q, u > 0 ? "rich" : "poor"); }
  static Product::Ptr Mk(Agent* a, double q, double u) { return Product::Create(a, q, u > 0 ? "rich" : "poor"); }
  static double U(Product::Ptr m) { return m->quality() == "rich" ? 0.25 * m->quantity() : 0; }
};

template <class T> struct UConv : public Converter<T> {
  virtual double convert(boost::shared_ptr<T> offer, Arc const*, ExchangeTranslationContext<T> const*) const { return Tr<T>::U(offer); }
};

template <class T> CapacityConstraint<T> Con(std::pair<double, int> c) {
  if (c.second == 0) return CapacityConstraint<T>(c.first);
  return CapacityConstraint<T>(c.first, typename Converter<T>::Ptr(new UConv<T>()));
}

template <class T> void ApplyRules(const std::string& key, int time, typename PrefMap<T>::type& prefs) {
  std::string o = "ADJ " + key + " " + std::to_string(time) + " " + std::string(1, Tr<T>::ty);
  for (typename PrefMap<T>::type::iterator it = prefs.begin(); it != prefs.end(); ++it) {
    for (typename std::map<Bid<T>*, double>::iterator jt = it->second.begin(); jt != it->second.end(); ++jt) {
      o += " " + std::to_string(req_id.count(it->first) ? req_id[it->first] : -1) + " " +
           std::to_string(bid_id.count(jt->first) ? bid_id[jt->first] : -1) + " " + F(jt->second);
      std::vector<Rule>& rs = rules[key];
      for (size_t i = 0; i < rs.size(); ++i) {
        if (rs[i].type != Tr<T>::ty || rs[i].com != it->first->commodity()) continue;
        if (rs[i].bidder >= 0 && trader_no[jt->first->bidder()->manager()->id()] != rs[i].bidder) continue;
        if (rs[i].set) jt->second = rs[i].val;
        else jt->second *= rs[i].val;
      }
    }
  }
  OutS(o);
}

class HRegion : public Region {
 public:
  std::string key;
  HRegion(Context* c, std::string k) : Region(c), key(k) { prototype("reg"); spec("reg"); }
  virtual Agent* Clone() { return new HRegion(context(), key); }
  virtual void InitInv(Inventories&) {}
  virtual Inventories SnapshotInv() { return Inventories(); }
  virtual std::string version() { return "0"; }
  virtual void AdjustMatlPrefs(PrefMap<Material>::type& p) { ApplyRules<Material>(key, context()->time(), p); }
  virtual void AdjustProductPrefs(PrefMap<Product>::type& p) { ApplyRules<Product>(key, context()->time(), p); }
};
class HInst : public Institution {
 public:
  std::string key;
  HInst(Context* c, std::string k) : Institution(c), key(k) { prototype("inst"); spec("inst"); }
  virtual Agent* Clone() { return new HInst(context(), key); }
  virtual void InitInv(Inventories&) {}
  virtual Inventories SnapshotInv() { return Inventories(); }
  virtual std::string version() { return "0"; }
  virtual void AdjustMatlPrefs(PrefMap<Material>::type& p) { ApplyRules<Material>(key, context()->time(), p); }
  virtual void AdjustProductPrefs(PrefMap<Product>::type& p) { ApplyRules<Product>(key, context()->time(), p); }
};

class HTrader : public Facility {
 public:
  int no;
  std::string key;
  HTrader(Context* c, int n) : Facility(c), no(n), key("T" + std::to_string(n)) { prototype("tr"); spec("tr"); }
  virtual Agent* Clone() { return new HTrader(context(), no); }
  virtual void InitInv(Inventories&) {}
  virtual Inventories SnapshotInv() { return Inventories(); }
  virtual std::string version() { return "0"; }
  virtual void Tick() {}
  virtual void Tock() {}

  template <class T> std::set<typename RequestPortfolio<T>::Ptr> Reqs() {
    Out("ASKR %d %d %c", no, context()->time(), Tr<T>::ty);
    std::set<typename RequestPortfolio<T>::Ptr> out;
    for (size_t i = 0; i < ports.size(); ++i) {
      PortS& p = ports[i];
      if (p.step != context()->time() || p.trader != no || p.type != Tr<T>::ty) continue;
      typename RequestPortfolio<T>::Ptr rp(new RequestPortfolio<T>());
      std::map<int, Request<T>*> mine;
      for (size_t j = 0; j < p.reqs.size(); ++j) {
        ReqS& r = p.reqs[j];
        Request<T>* q = rp->AddRequest(Tr<T>::Un(r.qty, r.u), this, r.com, r.pref, r.ex);
        mine[r.id] = q;
        req_id[q] = r.id;
        req_ptr[r.id] = q;
      }
      for (size_t j = 0; j < p.mut.size(); ++j) {
        std::vector<Request<T>*> v;
        for (size_t k = 0; k < p.mut[j].size(); ++k) v.push_back(mine[p.mut[j][k]]);
        rp->AddMutualReqs(v);
      }
      for (size_t j = 0; j < p.con.size(); ++j) rp->AddConstraint(Con<T>(p.con[j]));
      out.insert(rp);
    }
    return out;
  }
  template <class T> std::set<typename BidPortfolio<T>::Ptr> Bids(typename CommodMap<T>::type& m) {
    std::string o = "ASKB " + std::to_string(no) + " " + std::to_string(context()->time()) + " " + std::string(1, Tr<T>::ty);
    std::set<Request<T>*> seen;
    for (typename CommodMap<T>::type::iterator it = m.begin(); it != m.end(); ++it)
      for (size_t k = 0; k < it->second.size(); ++k) {
        Request<T>* r = it->second[k];
        seen.insert(r);
        o += " " + Hex(it->first) + " " + std::to_string(req_id.count(r) ? req_id[r] : -1) + " " +
             F(r->target()->quantity()) + " " + F(r->preference());
      }
    OutS(o);
    std::set<typename BidPortfolio<T>::Ptr> out;
    for (size_t i = 0; i < bports.size(); ++i) {
      BPortS& p = bports[i];
      if (p.step != context()->time() || p.trader != no || p.type != Tr<T>::ty) continue;
      typename BidPortfolio<T>::Ptr bp(new BidPortfolio<T>());
      std::map<int, typename T::Ptr> offers;
      for (size_t j = 0; j < p.bids.size(); ++j) {
        BidS& b = p.bids[j];
        if (!req_ptr.count(b.req)) continue;
        Request<T>* r = (Request<T>*)req_ptr[b.req];
        if (!seen.count(r)) continue;
        if (!offers.count(b.offer)) offers[b.offer] = Tr<T>::Un(b.qty, b.u);
        Bid<T>* x = b.pref != b.pref ? bp->AddBid(r, offers[b.offer], this, b.ex)
                                     : bp->AddBid(r, offers[b.offer], this, b.ex, b.pref);
        bid_id[x] = b.id;
      }
      for (size_t j = 0; j < p.con.size(); ++j) bp->AddConstraint(Con<T>(p.con[j]));
      out.insert(bp);
    }
    return out;
  }
  template <class T> void Trades(const std::vector<Trade<T> >& ts, std::vector<std::pair<Trade<T>, typename T::Ptr> >& resp) {
    std::string o = "TRADES " + std::to_string(no) + " " + std::to_string(context()->time()) + " " + std::string(1, Tr<T>::ty);
    for (size_t i = 0; i < ts.size(); ++i) {
      int b = bid_id.count(ts[i].bid) ? bid_id[ts[i].bid] : -1;
      double f = shorts.count(b) ? shorts[b] : 1;
      typename T::Ptr whole = Tr<T>::Mk(this, ts[i].amt * 2, Tr<T>::U(ts[i].bid->offer()) / ts[i].bid->offer()->quantity());
      typename T::Ptr r = boost::dynamic_pointer_cast<T>(whole->ExtractRes(ts[i].amt * f));
      res_no[r.get()] = next_res++;
      o += " " + std::to_string(req_id.count(ts[i].request) ? req_id[ts[i].request] : -1) + " " + std::to_string(b) + " " +
           F(ts[i].amt) + " " + std::to_string(res_no[r.get()]) + " " + std::to_string(r->state_id());
      resp.push_back(std::make_pair(ts[i], r));
    }
    OutS(o);
  }
  template <class T> void Accept(const std::vector<std::pair<Trade<T>, typename T::Ptr> >& resp) {
    std::string o = "ACCEPT " + std::to_string(no) + " " + std::to_string(context()->time()) + " " + std::string(1, Tr<T>::ty);
    for (size_t i = 0; i < resp.size(); ++i) {
      const Trade<T>& t = resp[i].first;
      o += " " + std::to_string(req_id.count(t.request) ? req_id[t.request] : -1) + " " +
           std::to_string(bid_id.count(t.bid) ? bid_id[t.bid] : -1) + " " + F(t.amt) + " " +
           std::to_string(res_no.count(resp[i].second.get()) ? res_no[resp[i].second.get()] : -1) + " " +
           std::to_string(resp[i].second->state_id()) + " " + F(resp[i].second->quantity());
    }
    OutS(o);
  }
  virtual std::set<RequestPortfolio<Material>::Ptr> GetMatlRequests() { return Reqs<Material>(); }
  virtual std::set<RequestPortfolio<Product>::Ptr> GetProductRequests() { return Reqs<Product>(); }
  virtual std::set<BidPortfolio<Material>::Ptr> GetMatlBids(CommodMap<Material>::type& m) { return Bids<Material>(m); }
  virtual std::set<BidPortfolio<Product>::Ptr> GetProductBids(CommodMap<Product>::type& m) { return Bids<Product>(m); }
  virtual void AdjustMatlPrefs(PrefMap<Material>::type& p) { ApplyRules<Material>(key, context()->time(), p); }
  virtual void AdjustProductPrefs(PrefMap<Product>::type& p) { ApplyRules<Product>(key, context()->time(), p); }
  virtual void GetMatlTrades(const std::vector<Trade<Material> >& t, std::vector<std::pair<Trade<Material>, Material::Ptr> >& r) { Trades<Material>(t, r); }
  virtual void GetProductTrades(const std::vector<Trade<Product> >& t, std::vector<std::pair<Trade<Product>, Product::Ptr> >& r) { Trades<Product>(t, r); }
  virtual void AcceptMatlTrades(const std::vector<std::pair<Trade<Material>, Material::Ptr> >& r) { Accept<Material>(r); }
  virtual void AcceptProductTrades(const std::vector<std::pair<Trade<Product>, Product::Ptr> >& r) { Accept<Product>(r); }
};

void Run(const Case& c) {
  Timer& ti = *new Timer();
  Recorder& rec = *new Recorder();
  PrintBack& back = *new PrintBack();
  back.only.insert("Transactions");
  rec.RegisterBackend(&back);
  Context& ctx = *new Context(&ti, &rec);
  int dur = 1;
  std::vector<HRegion*> regs;
  std::vector<HInst*> insts;
  std::vector<HTrader*> trs;
  std::map<int, PortS*> pm;
  std::map<int, BPortS*> bm;
  ports.reserve(1000);
  bports.reserve(1000);
  for (size_t i = 0; i < c.size(); ++i)
    if (c[i][0] == "dur") dur = I(c[i][1]);
  SimInfo si(dur, 2000, 1, "h", "never");
  ctx.InitSim(si);
  std::vector<std::string> late;
  std::map<int, int> entry, leave;
  std::map<int, Agent*> par;
  for (size_t i = 0; i < c.size(); ++i) {
    const Toks& t = c[i];
    if (t[0] == "dur") continue;
    else if (t[0] == "solver") {
      ExchangeSolver* s = t[1] == "greedy" ? (ExchangeSolver*)new GreedySolver((bool)I(t[2]))
                                           : (ExchangeSolver*)new ProgSolver("cbc", 100.0, I(t[2]), false, false);
      s->sim_ctx(&ctx);
      ctx.solver(s);
    } else if (t[0] == "region") {
      HRegion* r = new HRegion(&ctx, "R" + t[1]);
      r->Build(NULL);
      regs.push_back(r);
    } else if (t[0] == "inst") {
      HInst* r = new HInst(&ctx, "I" + t[1]);
      r->Build(I(t[2]) < 0 ? NULL : regs[I(t[2])]);
      insts.push_back(r);
    } else if (t[0] == "tr") {
      HTrader* r = new HTrader(&ctx, I(t[1]));
      trs.push_back(r);
      Agent* p = I(t[2]) < 0 ? NULL : insts[I(t[2])];
      trader_no[r->id()] = r->no;
      Out("AGENT %d %d", r->no, r->id());
      r->Build(p);
      if (I(t[3]) >= 0) ctx.SchedDecom(r, I(t[3]));
    } else if (t[0] == "rule") {
      Rule r = {t[2][0], UnHex(t[3]), t[4] == "set", D(t[5]), I(t[6])};
      rules[t[1]].push_back(r);
    } else if (t[0] == "port") {
      PortS p = {I(t[1]), I(t[2]), t[3][0], I(t[4])};
      ports.push_back(p);
      pm[p.id] = &ports.back();
    } else if (t[0] == "req") {
      ReqS r = {I(t[1]), I(t[2]), UnHex(t[3]), D(t[4]), D(t[5]), (bool)I(t[6]), D(t[7])};
      pm[r.port]->reqs.push_back(r);
    } else if (t[0] == "mut") {
      std::vector<int> v;
      for (size_t j = 2; j < t.size(); ++j) v.push_back(I(t[j]));
      pm[I(t[1])]->mut.push_back(v);
    } else if (t[0] == "pcon") {
      pm[I(t[1])]->con.push_back(std::make_pair(D(t[2]), I(t[3])));
    } else if (t[0] == "bport") {
      BPortS p = {I(t[1]), I(t[2]), t[3][0], I(t[4])};
      bports.push_back(p);
      bm[p.id] = &bports.back();
    } else if (t[0] == "bid") {
      BidS b = {I(t[1]), I(t[2]), I(t[3]), D(t[4]), D(t[5]), (bool)I(t[6]), I(t[7]), D(t[8])};
      bm[b.port]->bids.push_back(b);
    } else if (t[0] == "bcon") {
      bm[I(t[1])]->con.push_back(std::make_pair(D(t[2]), I(t[3])));
    } else if (t[0] == "short") {
      shorts[I(t[1])] = D(t[2]);
    } else throw Bad("op " + t[0]);
  }
  rec.Flush();
  OutS("RUN");
  try {
    ti.RunSim();
    OutS("DONE");
  } catch (const std::exception& e) {
    Out("ERR %s %s", ErrName(e).c_str(), Hex(e.what()).c_str());
  }
  rec.Flush();
}
}  // namespace
int main() { return Serve(Run, 30); }

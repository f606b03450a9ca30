// buy and sell policies of agents in a running simulation, with scripted counterparts
#include "h_common.h"
#include "h_util.h"
#include "greedy_solver.h"
#include "random_number_generator.h"
#include "toolkit/matl_buy_policy.h"
#include "toolkit/matl_sell_policy.h"
#include "toolkit/total_inv_tracker.h"
using namespace cyclus;
using namespace cyclus::toolkit;
using namespace h;

// dur N seed | excl 0|1 | pkg n lo hi strat | tu n lo hi strat
// agent i | buf i b cap bulk | tracker i k cap bufs...
// op t i cmd ...   (t = -1: before the run) ; see Do
// req t com qty u excl | off t com qty u excl
namespace {
typedef ResBuf<Material> Buf;
Composition::Ptr Comp(double u) {
  CompMap m;
  if (u > 0) m[922350000] = u;
  if (u < 1) m[922380000] = 1 - u;
  return Composition::CreateFromMass(m);
}
std::string U(Composition::Ptr c) {
  CompMap m = c->mass();
  compmath::Normalize(&m, 1);
  if (m.size() == 1 && m.count(10010000)) return "h";
  double k = 0;
  for (CompMap::iterator it = m.begin(); it != m.end(); ++it)
    if (it->first != 922350000 && it->first != 922380000) k += it->second;
  if (k > 0) return "other";
  return F(m.count(922350000) ? m[922350000] : 0);
}

struct Req { int t; std::string com; double q, u; bool ex; };
std::vector<Req> mreqs, moffs;
std::map<int, std::vector<Toks> > ops;
Context* ctx = NULL;

IntDistribution::Ptr IDist(const std::string& s) {
  if (s == "-") return IntDistribution::Ptr();
  size_t i = s.find(':', 2);
  if (s[0] == 'f') return IntDistribution::Ptr(new FixedIntDist(I(s.substr(2))));
  return IntDistribution::Ptr(new UniformIntDist(I(s.substr(2, i - 2)), I(s.substr(i + 1))));
}
DoubleDistribution::Ptr DDist(const std::string& s) {
  if (s == "-") return DoubleDistribution::Ptr();
  size_t i = s.find(':', 2);
  if (s[0] == 'f') return DoubleDistribution::Ptr(new FixedDoubleDist(D(s.substr(2))));
  return DoubleDistribution::Ptr(new UniformDoubleDist(D(s.substr(2, i - 2)), D(s.substr(i + 1))));
}

struct Buy : public MatlBuyPolicy {
  std::string id;
  Buf* b;
  TotalInvTracker* k;
  std::vector<Material::Ptr> got;
  bool ready;
  virtual std::set<RequestPortfolio<Material>::Ptr> GetMatlRequests() {
    got.clear();
    Out("REQ %d %s %s %s %s %s", ctx->time(), id.c_str(), F(b->quantity()).c_str(), F(b->space()).c_str(),
        F(k ? k->quantity() : b->quantity()).c_str(), F(k ? k->space() : b->space()).c_str());
    std::set<RequestPortfolio<Material>::Ptr> s = MatlBuyPolicy::GetMatlRequests();
    for (std::set<RequestPortfolio<Material>::Ptr>::iterator it = s.begin(); it != s.end(); ++it) {
      std::string o = "RP " + F((*it)->qty());
      const std::vector<Request<Material>*>& r = (*it)->requests();
      for (size_t i = 0; i < r.size(); ++i)
        o += " " + Hex(r[i]->commodity()) + " " + F(r[i]->target()->quantity()) + " " + U(r[i]->target()->comp()) + " " + F(r[i]->preference()) +
             " " + (r[i]->exclusive() ? "1" : "0") + " " + (r[i]->requester() == this ? "1" : "0");
      OutS(o);
    }
    return s;
  }
  virtual void AcceptMatlTrades(const std::vector<std::pair<Trade<Material>, Material::Ptr> >& r) {
    OutS("BEG");
    std::string o = "ACC " + std::to_string(ctx->time()) + " " + id + " " + F(b->quantity());
    for (size_t i = 0; i < r.size(); ++i) {
      o += " " + Hex(r[i].first.request->commodity()) + " " + F(r[i].first.amt) + " " + F(r[i].second->quantity());
      got.push_back(r[i].second);
    }
    MatlBuyPolicy::AcceptMatlTrades(r);
    OutS(o + " = " + F(b->quantity()));
  }
};

struct Sell : public MatlSellPolicy {
  std::string id;
  Buf* b;
  std::map<const void*, int> bidno;
  bool ready;
  virtual std::set<BidPortfolio<Material>::Ptr> GetMatlBids(CommodMap<Material>::type& reqs) {
    Out("ASK %d %s %s %s", ctx->time(), id.c_str(), F(b->quantity()).c_str(), b->empty() ? "-" : U(b->Peek()->comp()).c_str());
    std::map<Request<Material>*, int> no;
    for (CommodMap<Material>::type::iterator it = reqs.begin(); it != reqs.end(); ++it)
      for (size_t i = 0; i < it->second.size(); ++i) {
        no[it->second[i]] = no.size();
        Out("SEEN %d %s %s %s", no[it->second[i]], Hex(it->first).c_str(), F(it->second[i]->target()->quantity()).c_str(),
            U(it->second[i]->target()->comp()).c_str());
      }
    std::set<BidPortfolio<Material>::Ptr> s = MatlSellPolicy::GetMatlBids(reqs);
    bidno.clear();
    for (std::set<BidPortfolio<Material>::Ptr>::iterator it = s.begin(); it != s.end(); ++it) {
      std::string o = "BP";
      const std::set<CapacityConstraint<Material> >& cs = (*it)->constraints();
      for (std::set<CapacityConstraint<Material> >::const_iterator jt = cs.begin(); jt != cs.end(); ++jt) o += " " + F(jt->capacity());
      OutS(o);
      const std::set<Bid<Material>*>& bs = (*it)->bids();
      for (std::set<Bid<Material>*>::const_iterator jt = bs.begin(); jt != bs.end(); ++jt) {
        bidno[*jt] = no.count((*jt)->request()) ? no[(*jt)->request()] : -1;
        Out("BID %d %s %s %d %d", bidno[*jt], F((*jt)->offer()->quantity()).c_str(), U((*jt)->offer()->comp()).c_str(), (*jt)->exclusive(),
            (*jt)->bidder() == this);
      }
    }
    return s;
  }
  virtual void GetMatlTrades(const std::vector<Trade<Material> >& tr, std::vector<std::pair<Trade<Material>, Material::Ptr> >& rs) {
    Out("SHIP %d %s %s %s", ctx->time(), id.c_str(), F(b->quantity()).c_str(), F(U235()).c_str());
    for (size_t i = 0; i < tr.size(); ++i)
      Out("TRADE %d %s %s", bidno.count(tr[i].bid) ? bidno[tr[i].bid] : -1, F(tr[i].amt).c_str(), U(tr[i].request->target()->comp()).c_str());
    size_t k = rs.size();
    MatlSellPolicy::GetMatlTrades(tr, rs);
    for (size_t i = k; i < rs.size(); ++i) {
      CompMap cm = rs[i].second->comp()->mass();
      compmath::Normalize(&cm, rs[i].second->quantity());
      Out("SENT %d %s %s %s %s %d %s", bidno.count(rs[i].first.bid) ? bidno[rs[i].first.bid] : -1, F(rs[i].first.amt).c_str(), F(rs[i].second->quantity()).c_str(),
          U(rs[i].second->comp()).c_str(), Hex(rs[i].second->package_name()).c_str(), rs[i].second->state_id(), F(cm.count(922350000) ? cm[922350000] : 0).c_str());
    }
    Out("LEFT %s %s", F(b->quantity()).c_str(), F(U235()).c_str());
  }
  double U235() {
    std::vector<Material::Ptr> v;
    double s = 0;
    if (b->empty()) return 0;
    v = b->PopN(b->count());
    for (size_t i = 0; i < v.size(); ++i) {
      CompMap m = v[i]->comp()->mass();
      compmath::Normalize(&m, v[i]->quantity());
      if (m.count(922350000)) s += m[922350000];
    }
    b->Push(v);
    return s;
  }
};

struct Ag : public HFac {
  int no;
  std::map<std::string, Buf*> bufs;
  std::map<std::string, TotalInvTracker*> trk;
  std::map<std::string, Buy*> buys;
  std::map<std::string, Sell*> sells;
  Ag(Context* c, int n) : HFac(c), no(n) {}
  virtual Agent* Clone() { return new Ag(context(), no); }
  void Do(const Toks& t) {
    // t: op time agent cmd args
    const std::string& k = t[3];
    std::string r = "ok";
    OutS("BEG");
    try {
      if (k == "buy") {
        Buy*& p = buys[t[4]];
        bool fresh = p == NULL;
        if (fresh) p = new Buy();
        else { p->Stop(); p->ResetBehavior(); }
        p->ready = false;
        p->id = t[4];
        Buf* b = p->b = bufs.at(t[5]);
        TotalInvTracker* q = p->k = t[6] == "-" ? NULL : trk.at(t[6]);
        const std::string& m = t[7];
        std::string nm = "pol" + t[4];
        if (m == "plain") p->Init(this, b, nm, q);
        else if (m == "thr") p->Init(this, b, nm, q, D(t[8]));
        else if (m == "dist") p->Init(this, b, nm, q, D(t[8]), IDist(t[9]), IDist(t[10]), DDist(t[11]));
        else if (m == "quant") p->Init(this, b, nm, q, D(t[8]), D(t[9]));
        else if (m == "inv") p->Init(this, b, nm, q, D(t[8]), t[9], D(t[10]), D(t[11]));
        else if (m == "inv0") p->Init(this, b, nm, q, t[8], D(t[9]), D(t[10]));
        else if (m == "cum") p->Init(this, b, nm, q, D(t[8]), D(t[9]), IDist(t[10]));
        else throw Bad("mode " + m);
        p->ready = true;
        p->Start();
      } else if (k == "bset") {
        Buy* p = buys.at(t[4]);
        if (t[6] == "-") p->Set(UnHex(t[5]));
        else if (t[7] == "-") p->Set(UnHex(t[5]), Comp(D(t[6])));
        else p->Set(UnHex(t[5]), Comp(D(t[6])), D(t[7]));
      } else if (k == "bunset") buys.at(t[4])->Unset(UnHex(t[5]));
      else if (k == "bstop") buys.at(t[4])->Stop();
      else if (k == "bstart") { if (buys.at(t[4])->ready) buys.at(t[4])->Start(); }
      else if (k == "sell") {
        Sell* p = sells[t[4]] = new Sell();
        p->ready = false;
        p->id = t[4];
        Buf* b = p->b = bufs.at(t[5]);
        const std::string& m = t[6];
        std::string nm = "pol" + t[4];
        if (m == "plain") p->Init(this, b, nm);
        else if (m == "thr") p->Init(this, b, nm, D(t[7]));
        else if (m == "ign") p->Init(this, b, nm, (bool)I(t[7]));
        else if (m == "thrign") p->Init(this, b, nm, D(t[7]), (bool)I(t[8]));
        else if (m == "quant") p->Init(this, b, nm, D(t[7]), (bool)I(t[8]), D(t[9]));
        else if (m == "full") p->Init(this, b, nm, D(t[7]), (bool)I(t[8]), D(t[9]), t[10], t[11]);
        else throw Bad("mode " + m);
        p->ready = true;
        p->Start();
      } else if (k == "sset") sells.at(t[4])->Set(UnHex(t[5]));
      else if (k == "sstop") sells.at(t[4])->Stop();
      else if (k == "sstart") { if (sells.at(t[4])->ready) sells.at(t[4])->Start(); }
      else if (k == "add") {
        Buf* b = bufs.at(t[4]);
        double q = std::min(D(t[5]), b->space());
        if (q > 1e-6) b->Push(Material::Create(this, q, Comp(D(t[6]))));
      } else if (k == "take") {
        Buf* b = bufs.at(t[4]);
        double q = std::min(D(t[5]), b->quantity());
        if (q > 1e-6) b->Pop(q, eps_rsrc());
      } else throw Bad("cmd " + k);
    } catch (const std::exception& e) { r = ErrName(e); }
    Out("OP %s %s", t[1].c_str(), r.c_str());
  }
  virtual void Tick() {
    if (no == 0) Out("STEP %d", context()->time());
    std::vector<Toks>& v = ops[context()->time()];
    for (size_t i = 0; i < v.size(); ++i)
      if (I(v[i][2]) == no) Do(v[i]);
  }
  virtual void Tock() {
    for (std::map<std::string, Buf*>::iterator it = bufs.begin(); it != bufs.end(); ++it)
      Out("BUF %d %d %s %s", context()->time(), no, it->first.c_str(), F(it->second->quantity()).c_str());
    for (std::map<std::string, Buy*>::iterator it = buys.begin(); it != buys.end(); ++it) {
      const std::map<Material::Ptr, std::string>& m = it->second->rsrc_commods();
      std::string o = "RC " + std::to_string(context()->time()) + " " + it->first;
      std::vector<Material::Ptr>& g = it->second->got;
      for (size_t i = 0; i < g.size(); ++i) o += " " + (m.count(g[i]) ? Hex(m.at(g[i])) : std::string("?"));
      OutS(o + " = " + std::to_string(m.size()));
    }
  }
};

struct Market : public HFac {
  Market(Context* c) : HFac(c) {}
  virtual Agent* Clone() { return new Market(context()); }
  virtual std::set<RequestPortfolio<Material>::Ptr> GetMatlRequests() {
    std::set<RequestPortfolio<Material>::Ptr> s;
    for (size_t i = 0; i < mreqs.size(); ++i) {
      if (mreqs[i].t != context()->time()) continue;
      RequestPortfolio<Material>::Ptr p(new RequestPortfolio<Material>());
      p->AddRequest(Material::CreateUntracked(mreqs[i].q, Comp(mreqs[i].u)), this, mreqs[i].com, 1.0, mreqs[i].ex);
      s.insert(p);
    }
    return s;
  }
  virtual std::set<BidPortfolio<Material>::Ptr> GetMatlBids(CommodMap<Material>::type& reqs) {
    std::set<BidPortfolio<Material>::Ptr> s;
    for (size_t i = 0; i < moffs.size(); ++i) {
      if (moffs[i].t != context()->time() || !reqs.count(moffs[i].com)) continue;
      BidPortfolio<Material>::Ptr p(new BidPortfolio<Material>());
      std::vector<Request<Material>*>& r = reqs[moffs[i].com];
      for (size_t j = 0; j < r.size(); ++j) {
        if (r[j]->requester() == this) continue;
        double q = std::min(moffs[i].q, r[j]->target()->quantity());
        p->AddBid(r[j], Material::CreateUntracked(q, Comp(moffs[i].u)), this, moffs[i].ex);
      }
      if (p->bids().empty()) continue;
      p->AddConstraint(CapacityConstraint<Material>(moffs[i].q));
      s.insert(p);
    }
    return s;
  }
  virtual void GetMatlTrades(const std::vector<Trade<Material> >& tr, std::vector<std::pair<Trade<Material>, Material::Ptr> >& rs) {
    for (size_t i = 0; i < tr.size(); ++i)
      rs.push_back(std::make_pair(tr[i], Material::Create(this, tr[i].amt, tr[i].bid->offer()->comp())));
  }
  virtual void AcceptMatlTrades(const std::vector<std::pair<Trade<Material>, Material::Ptr> >&) {}
};

void Run(const Case& c) {
  Timer& ti = *new Timer();
  Recorder& rec = *new Recorder();
  PrintBack& back = *new PrintBack();
  back.only.insert("BuyPolActiveDormant");
  rec.RegisterBackend(&back);
  rec.set_dump_count(1);
  ctx = new Context(&ti, &rec);
  SimInfo si(I(c[0][1]), 2000, 1, "h", "never");
  si.seed = I(c[0][2]);
  ctx->InitSim(si);
  std::map<int, Ag*> ags;
  for (size_t i = 1; i < c.size(); ++i) {
    const Toks& t = c[i];
    if (t[0] == "excl") {
      ExchangeSolver* s = new GreedySolver((bool)I(t[1]));
      s->sim_ctx(ctx);
      ctx->solver(s);
    } else if (t[0] == "pkg") ctx->AddPackage(t[1], D(t[2]), D(t[3]), t[4]);
    else if (t[0] == "tu") ctx->AddTransportUnit(t[1], I(t[2]), I(t[3]), t[4]);
    else if (t[0] == "agent") {
      Ag* a = ags[I(t[1])] = new Ag(ctx, I(t[1]));
      a->Build(NULL);
    } else if (t[0] == "buf") {
      Buf* b = new Buf((bool)I(t[4]));
      b->capacity(D(t[3]));
      ags[I(t[1])]->bufs[t[2]] = b;
    } else if (t[0] == "tracker") {
      std::vector<Buf*> v;
      for (size_t j = 4; j < t.size(); ++j) v.push_back(ags[I(t[1])]->bufs.at(t[j]));
      TotalInvTracker* k = new TotalInvTracker(v, D(t[3]));
      ags[I(t[1])]->trk[t[2]] = k;
    } else if (t[0] == "op") {
      if (I(t[1]) < 0) ags.at(I(t[2]))->Do(t);
      else ops[I(t[1])].push_back(t);
    } else if (t[0] == "req") mreqs.push_back(Req{I(t[1]), UnHex(t[2]), D(t[3]), D(t[4]), (bool)I(t[5])});
    else if (t[0] == "off") moffs.push_back(Req{I(t[1]), UnHex(t[2]), D(t[3]), D(t[4]), (bool)I(t[5])});
    else throw Bad("line " + t[0]);
  }
  Market* m = new Market(ctx);
  m->Build(NULL);
  rec.Flush();
  OutS("RUN");
  try {
    ti.RunSim();
    OutS("DONE");
  } catch (const std::exception& e) {
    Out("ERR %s %s", ErrName(e).c_str(), Hex(e.what()).c_str());
  }
  rec.Flush();
}
}  // namespace
int main() { return Serve(Run, 30); }

// Resource histories: materials, products, packages, buffers, trackers, keyed stores.
#include "h_util.h"
#include "toolkit/res_buf.h"
#include "toolkit/res_manip.h"
#include "toolkit/res_map.h"
#include "toolkit/total_inv_tracker.h"

using namespace cyclus;
using namespace h;
using cyclus::toolkit::ResBuf;
using cyclus::toolkit::ResMap;
using cyclus::toolkit::TotalInvTracker;

namespace {

struct Buf {
  char kind;
  ResBuf<Material>* m;
  ResBuf<Product>* p;
  ResBuf<Resource>* r;
};

// the operation refers to something an earlier operation did not produce
struct Skip {};

struct World {
  Timer ti;
  Recorder rec;
  PrintBack back;
  Context* ctx;
  SimInfo si;
  std::vector<Agent*> ags;
  std::map<int, Resource::Ptr> res;
  std::map<int, Composition::Ptr> comps;
  std::map<int, Buf> bufs;
  std::map<int, TotalInvTracker*> trks;
  std::map<int, ResMap<std::string, Material>*> maps;
  std::set<int> printed;
  bool rows;
  int nexth;
  World() : ctx(NULL), rows(false), nexth(0) {}
};

World* W;

Material::Ptr Mat(Resource::Ptr r) {
  Material::Ptr m = boost::dynamic_pointer_cast<Material>(r);
  if (!m) throw Bad("not a material");
  return m;
}
Product::Ptr Prod(Resource::Ptr r) {
  Product::Ptr m = boost::dynamic_pointer_cast<Product>(r);
  if (!m) throw Bad("not a product");
  return m;
}
Resource::Ptr R(const std::string& k) {
  std::map<int, Resource::Ptr>::iterator it = W->res.find(I(k));
  if (it == W->res.end()) throw Skip();
  return it->second;
}
Composition::Ptr C(const std::string& k) {
  std::map<int, Composition::Ptr>::iterator it = W->comps.find(I(k));
  if (it == W->comps.end()) throw Skip();
  return it->second;
}
Buf& BF(const std::string& k) {
  std::map<int, Buf>::iterator it = W->bufs.find(I(k));
  if (it == W->bufs.end()) throw Skip();
  return it->second;
}

// handle of a resource object (by identity), registering it when it is new
int HandleOf(Resource::Ptr r) {
  std::map<int, Resource::Ptr>::iterator it;
  for (it = W->res.begin(); it != W->res.end(); ++it)
    if (it->second == r) return it->first;
  int k = W->nexth++;
  W->res[k] = r;
  return k;
}

void Show(int k, Resource::Ptr r) {
  Material::Ptr m = boost::dynamic_pointer_cast<Material>(r);
  Product::Ptr p = boost::dynamic_pointer_cast<Product>(r);
  Out("RES %d %s %s %d %d %d %s %s %s %d", k, m ? "M" : "P", F(r->quantity()).c_str(), r->state_id(),
      r->obj_id(), m ? r->qual_id() : 0, Hex(r->package_name()).c_str(),
      p ? Hex(p->quality()).c_str() : "-", Hex(r->units()).c_str(), m ? m->prev_decay_time() : -1);
  if (m && !W->printed.count(m->comp()->id())) {
    W->printed.insert(m->comp()->id());
    Out("COMP %d %s", m->comp()->id(), MapStr(m->comp()->mass()).c_str());
  }
}

void ShowBufs() {
  std::map<int, Buf>::iterator it;
  for (it = W->bufs.begin(); it != W->bufs.end(); ++it) {
    Buf& b = it->second;
#define SB(x) \
  Out("BUF %d %d %s %s %s %d %d", it->first, x->count(), F(x->quantity()).c_str(), \
      F(x->capacity()).c_str(), F(x->space()).c_str(), (int)x->empty(), (int)x->keep_packaging())
    if (b.kind == 'M') SB(b.m);
    else if (b.kind == 'P') SB(b.p);
    else SB(b.r);
#undef SB
  }
  std::map<int, TotalInvTracker*>::iterator t;
  for (t = W->trks.begin(); t != W->trks.end(); ++t) {
    std::string o;
    for (it = W->bufs.begin(); it != W->bufs.end(); ++it)
      if (it->second.kind == 'M')
        o += " " + std::to_string(it->first) + " " +
             std::to_string((int)t->second->buf_in_tracker(it->second.m)) + " " +
             F(t->second->constrained_buf_space(it->second.m));
    Out("TRK %d %s %s %s %s %d %d%s", t->first, F(t->second->quantity()).c_str(),
        F(t->second->capacity()).c_str(), F(t->second->space()).c_str(),
        F(t->second->tracker_capacity()).c_str(), (int)t->second->empty(),
        t->second->num_bufs(), o.c_str());
  }
  std::map<int, ResMap<std::string, Material>*>::iterator mi;
  for (mi = W->maps.begin(); mi != W->maps.end(); ++mi) {
    std::string o;
    std::vector<Material::Ptr> v = mi->second->Values();
    for (size_t i = 0; i < v.size(); ++i) o += " " + std::to_string(HandleOf(v[i]));
    Out("MAP %d %d %s %d%s", mi->first, mi->second->size(), F(mi->second->quantity()).c_str(),
        (int)mi->second->empty(), o.c_str());
  }
}

template <class T>
void OutRes(const std::vector<boost::shared_ptr<T> >& v) {
  std::string o = "RET";
  for (size_t i = 0; i < v.size(); ++i) o += " " + std::to_string(HandleOf(v[i]));
  OutS(o);
}
template <class T>
void OutRes1(boost::shared_ptr<T> v) {
  std::vector<boost::shared_ptr<T> > x(1, v);
  OutRes(x);
}

template <class T>
void BufOp(ResBuf<T>* b, const Toks& t) {
  const std::string& op = t[0];
  if (op == "push") {
    b->Push(R(t[2]));
  } else if (op == "pushv") {
    std::vector<Resource::Ptr> v;
    for (size_t i = 2; i < t.size(); ++i) v.push_back(R(t[i]));
    b->Push(v);
  } else if (op == "pushvt") {
    std::vector<typename T::Ptr> v;
    for (size_t i = 2; i < t.size(); ++i) v.push_back(boost::dynamic_pointer_cast<T>(R(t[i])));
    b->Push(v);
  } else if (op == "pop") {
    OutRes1(b->Pop(D(t[2])));
  } else if (op == "popeps") {
    OutRes1(b->Pop(D(t[2]), D(t[3])));
  } else if (op == "popv") {
    OutRes(b->PopVector(D(t[2])));
  } else if (op == "popn") {
    OutRes(b->PopN(I(t[2])));
  } else if (op == "popnres") {
    OutRes(b->PopNRes(I(t[2])));
  } else if (op == "pop1") {
    OutRes1(b->Pop());
  } else if (op == "popback") {
    OutRes1(b->PopBack());
  } else if (op == "peek") {
    OutRes1(b->Peek());
  } else if (op == "cap") {
    b->capacity(D(t[2]));
  } else if (op == "keep") {
    b->keep_packaging(I(t[2]) != 0);
  } else {
    throw Bad("buf op " + op);
  }
}

void Exec(const Toks& t) {
  const std::string& op = t[0];
  if (op == "time") {
    W->si.branch_time = I(t[1]);
    W->ti.Initialize(W->ctx, W->si);
  } else if (op == "comp") {  // comp k mass|atom [nuc v]*
    CompMap m;
    for (size_t i = 3; i + 1 < t.size(); i += 2) m[I(t[i])] = D(t[i + 1]);
    Composition::Ptr c = t[2] == "mass" ? Composition::CreateFromMass(m)
                                        : Composition::CreateFromAtom(m);
    W->comps[I(t[1])] = c;
    Out("COMPID %d %d", I(t[1]), c->id());
  } else if (op == "pkg") {
    W->ctx->AddPackage(UnHex(t[1]), D(t[2]), D(t[3]), t[4]);
  } else if (op == "mat") {  // mat agent qty comp [pkg]
    Material::Ptr m = t.size() > 4
        ? Material::Create(W->ags[I(t[1])], D(t[2]), C(t[3]), UnHex(t[4]))
        : Material::Create(W->ags[I(t[1])], D(t[2]), C(t[3]));
    OutRes1(m);
  } else if (op == "umat") {
    OutRes1(Material::CreateUntracked(D(t[1]), C(t[2])));
  } else if (op == "prod") {
    Product::Ptr m = t.size() > 4
        ? Product::Create(W->ags[I(t[1])], D(t[2]), UnHex(t[3]), UnHex(t[4]))
        : Product::Create(W->ags[I(t[1])], D(t[2]), UnHex(t[3]));
    OutRes1(m);
  } else if (op == "uprod") {
    OutRes1(Product::CreateUntracked(D(t[1]), UnHex(t[2])));
  } else if (op == "xres") {
    OutRes1(R(t[1])->ExtractRes(D(t[2])));
  } else if (op == "xq") {
    if (R(t[1])->type() == Material::kType) OutRes1(Mat(R(t[1]))->ExtractQty(D(t[2])));
    else OutRes1(Prod(R(t[1]))->Extract(D(t[2])));
  } else if (op == "xc") {
    if (t.size() > 4) OutRes1(Mat(R(t[1]))->ExtractComp(D(t[2]), C(t[3]), D(t[4])));
    else OutRes1(Mat(R(t[1]))->ExtractComp(D(t[2]), C(t[3])));
  } else if (op == "abs") {
    if (R(t[1])->type() == Material::kType) Mat(R(t[1]))->Absorb(Mat(R(t[2])));
    else Prod(R(t[1]))->Absorb(Prod(R(t[2])));
  } else if (op == "trans") {
    Mat(R(t[1]))->Transmute(C(t[2]));
  } else if (op == "clone") {
    OutRes1(R(t[1])->Clone());
  } else if (op == "pkgx") {
    OutRes1(R(t[1])->PackageExtract(D(t[2]), UnHex(t[3])));
  } else if (op == "chpkg") {
    if (t.size() > 2) R(t[1])->ChangePackage(UnHex(t[2]));
    else R(t[1])->ChangePackage();
  } else if (op == "package") {
    Package::Ptr p = W->ctx->GetPackage(UnHex(t[2]));
    // keep the history small: no splitting into thousands of packages
    if (p->fill_max() > 0 && R(t[1])->quantity() / p->fill_max() > 300) throw Skip();
    if (R(t[1])->type() == Material::kType) OutRes(R(t[1])->Package<Material>(p));
    else OutRes(R(t[1])->Package<Product>(p));
  } else if (op == "squash") {
    std::vector<Resource::Ptr> v;
    for (size_t i = 2; i < t.size(); ++i) v.push_back(R(t[i]));
    if (t[1] == "r") OutRes1(toolkit::Squash(v));
    else if (t[1] == "m") OutRes1(toolkit::Squash(ResCast<Material>(v)));
    else OutRes1(toolkit::Squash(ResCast<Product>(v)));
  } else if (op == "buf") {  // buf k kind cap bulk keep
    Buf b;
    b.kind = t[2][0];
    b.m = NULL; b.p = NULL; b.r = NULL;
    bool bulk = I(t[4]), keep = I(t[5]);
    if (b.kind == 'M') b.m = new ResBuf<Material>(bulk, keep);
    else if (b.kind == 'P') b.p = new ResBuf<Product>(bulk, keep);
    else b.r = new ResBuf<Resource>(bulk, keep);
    double cap = D(t[3]);
    if (t[3] != "none") {
      if (b.m) b.m->capacity(cap);
      if (b.p) b.p->capacity(cap);
      if (b.r) b.r->capacity(cap);
    }
    W->bufs[I(t[1])] = b;
  } else if (op == "trk") {  // trk k cap|none buf...
    std::vector<ResBuf<Material>*> v;
    for (size_t i = 3; i < t.size(); ++i) v.push_back(BF(t[i]).m);
    TotalInvTracker* x = new TotalInvTracker();
    if (t[2] == "none") x->Init(v);
    else x->Init(v, D(t[2]));
    W->trks[I(t[1])] = x;
  } else if (op == "trkcap") {
    W->trks[I(t[1])]->set_capacity(D(t[2]));
  } else if (op == "map") {
    W->maps[I(t[1])] = new ResMap<std::string, Material>();
  } else if (op == "mput") {
    (*W->maps[I(t[1])])[UnHex(t[2])] = Mat(R(t[3]));
  } else if (op == "mpop") {
    OutRes1(W->maps[I(t[1])]->Pop(UnHex(t[2])));
  } else if (op == "merase") {
    Out("ERASED %d", (int)W->maps[I(t[1])]->erase(UnHex(t[2])));
  } else if (op == "mclear") {
    W->maps[I(t[1])]->clear();
  } else if (op == "mvals") {  // snapshot / restore by object ids
    ResMap<std::string, Material>* m = W->maps[I(t[1])];
    ResMap<std::string, Material>* m2 = new ResMap<std::string, Material>();
    m2->obj_ids(m->obj_ids());
    if (m2->quantity() != 0) Out("RESTORING %a", m2->quantity());
    std::vector<Resource::Ptr> v = m->ResValues();
    std::reverse(v.begin(), v.end());
    m2->ResValues(v);
    W->maps[I(t[1])] = m2;
  } else if (W->bufs.size() && t.size() > 1) {
    Buf& b = BF(t[1]);
    if (b.kind == 'M') BufOp(b.m, t);
    else if (b.kind == 'P') BufOp(b.p, t);
    else BufOp(b.r, t);
  } else {
    throw Bad("op " + op);
  }
}

void Run(const Case& c) {
  W = new World();
  W->rec.RegisterBackend(&W->back);
  W->ctx = new Context(&W->ti, &W->rec);
  W->si = SimInfo(1000, 2000, 1, "h", "never");
  W->back.on = false;
  W->ctx->InitSim(W->si);
  size_t i = 0;
  for (; i < c.size() && c[i][0] == "opt"; ++i) {
    if (c[i][1] == "rows") W->rows = true;
    if (c[i][1] == "agents")
      for (int k = 0; k < I(c[i][2]); ++k) {
        HFac* f = new HFac(W->ctx);
        f->Build(NULL);
        W->ags.push_back(f);
        Out("AGENT %d %d", k, f->id());
      }
    if (c[i][1] == "eps") {
      cy_eps = D(c[i][2]);
      cy_eps_rsrc = D(c[i][2]);
    }
  }
  W->rec.Flush();
  W->back.on = W->rows;
  for (; i < c.size(); ++i) {
    Out("OP %d", (int)i);
    W->nexth = (int)i * 1000;
    try {
      Exec(c[i]);
      OutS("OK");
    } catch (const Skip&) {
      OutS("SKIP");
    } catch (const std::exception& e) {
      Out("ERR %s", ErrName(e).c_str());
    }
    W->rec.Flush();
    std::map<int, Resource::Ptr>::iterator it;
    for (it = W->res.begin(); it != W->res.end(); ++it) Show(it->first, it->second);
    ShowBufs();
  }
  // compositions are immutable values: show every one again
  std::map<int, Composition::Ptr>::iterator ci;
  for (ci = W->comps.begin(); ci != W->comps.end(); ++ci)
    Out("CEND %d %d %s", ci->first, ci->second->id(), MapStr(ci->second->mass()).c_str());
  // drain the buffers to see their contents in order
  std::map<int, Buf>::iterator b;
  for (b = W->bufs.begin(); b != W->bufs.end(); ++b) {
    Out("DRAIN %d", b->first);
    if (b->second.m) OutRes(b->second.m->PopN(b->second.m->count()));
    else if (b->second.p) OutRes(b->second.p->PopN(b->second.p->count()));
    else OutRes(b->second.r->PopN(b->second.r->count()));
  }
  OutS("END");
}

}  // namespace

int main() { return Serve(Run); }

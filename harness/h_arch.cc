// generated archetypes: reads, copies, saves and restores their state variables
#include "h_common.h"
#include "h_util.h"
#include "v14.h"
#include <dlfcn.h>
#include "relax_ng_validator.h"
#include "xml_parser.h"
#include "infile_tree.h"
using namespace cyclus;
using namespace h;

namespace {
// keeps the last datum of each title; serves "Info" and "Agent" of one agent
class Mem : public RecBackend, public QueryableBackend {
 public:
  std::map<std::string, std::vector<std::pair<std::string, boost::spirit::hold_any> > > rows;
  std::map<std::string, std::vector<std::vector<int> > > shapes;
  std::string spec;
  int n;
  Mem() : n(0) {}
  virtual void Notify(DatumList data) {
    for (size_t i = 0; i < data.size(); ++i) {
      std::vector<std::pair<std::string, boost::spirit::hold_any> > r;
      for (size_t j = 0; j < data[i]->vals().size(); ++j)
        r.push_back(std::make_pair(std::string(data[i]->vals()[j].first), data[i]->vals()[j].second));
      rows[data[i]->title()] = r;
      shapes[data[i]->title()] = data[i]->shapes();
      ++n;
    }
  }
  virtual std::string Name() { return "mem"; }
  virtual void Flush() {}
  virtual void Close() {}
  virtual QueryResult Query(std::string t, std::vector<Cond>*) {
    std::string title = t == "Agent" ? "AgentStateAgent" : "AgentState" + spec + t;
    if (!rows.count(title)) throw KeyError("no table " + title);
    QueryResult q;
    QueryRow row;
    for (size_t i = 0; i < rows[title].size(); ++i) {
      q.fields.push_back(rows[title][i].first);
      q.types.push_back(INT);
      row.push_back(rows[title][i].second);
    }
    q.rows.push_back(row);
    return q;
  }
  virtual std::map<std::string, DbTypes> ColumnTypes(std::string) { return std::map<std::string, DbTypes>(); }
  virtual std::list<ColumnInfo> Schema(std::string) { return std::list<ColumnInfo>(); }
  virtual std::set<std::string> Tables() { return std::set<std::string>(); }
};

typedef Agent* (*Ctor)(Context*);
typedef v14::Shower* (*Shw)(Agent*);

void Fail(const std::string& w, const std::exception& e) {
  Out("%s FAILED %s %s", w.c_str(), ErrName(e).c_str(), Hex(e.what()).c_str());
}

Context* ctx;
Mem* mem;
Recorder* rec;
Shw shw;

void Show(const std::string& id, Agent* a) {
  Out("AGENT %s %s %d %s %s", id.c_str(), Hex(a->prototype()).c_str(), a->lifetime(), Hex(a->spec()).c_str(), a->kind().c_str());
  std::istringstream is(shw(a)->Show());
  std::string l;
  while (std::getline(is, l)) OutS(l);
}

void Datums(const std::string& title) {
  for (size_t i = 0; i < mem->rows[title].size(); ++i) {
    std::string s;
    if (i < mem->shapes[title].size())
      for (size_t k = 0; k < mem->shapes[title][i].size(); ++k) s += (k ? "," : "") + std::to_string(mem->shapes[title][i][k]);
    OutS("col " + mem->rows[title][i].first + " " + (s.empty() ? "-" : s));
  }
}

void Run(const Case& c) {
  rec = new Recorder();
  mem = new Mem();
  rec->RegisterBackend(mem);
  ctx = new Context(new Timer(), rec);
  std::map<std::string, Agent*> ag;
  std::map<std::string, Resource::Ptr> res;
  std::map<int, std::string> rid;
  Ctor ctor = NULL;
  std::string spec;
  for (size_t k = 0; k < c.size(); ++k) {
    const Toks& t = c[k];
    std::string id = t.size() > 1 ? t[1] : "";
    try {
      if (t[0] == "lib") {
        void* p = dlopen(t[1].c_str(), RTLD_NOW);
        if (!p) throw Bad(std::string("dlopen ") + dlerror());
        ctor = (Ctor)dlsym(p, "Construct14");
        shw = (Shw)dlsym(p, "Show14");
        if (!ctor || !shw) throw Bad("dlsym");
        spec = ":" + t[2] + ":" + t[2];
        mem->spec = "_" + t[2] + "_" + t[2];
      } else if (t[0] == "schema") {
        Agent* a = ctor(ctx);
        std::stringstream sch, doc(UnHex(t[2]));
        sch << "<grammar xmlns=\"http://relaxng.org/ns/structure/1.0\" datatypeLibrary=\"http://www.w3.org/2001/XMLSchema-datatypes\">"
            << "<start><element name=\"" << id << "\">" << a->schema() << "</element></start></grammar>";
        bool ok = true;
        XMLParser* p = new XMLParser();
        p->Init(doc);
        try {
          p->Validate(sch);
        } catch (std::exception& e) {
          ok = false;
        }
        Out("SCHEMA %d", (int)ok);
      } else if (t[0] == "infile") {
        Agent* a = ctor(ctx);
        a->spec(spec);
        std::stringstream doc(UnHex(t[2]));
        XMLParser* p = new XMLParser();
        p->Init(doc);
        InfileTree* tree = new InfileTree(*p);
        a->Agent::InfileToDb(tree, DbInit(a, true));
        a->InfileToDb(tree, DbInit(a));
        rec->Flush();
        Agent* b = ctor(ctx);
        b->spec(spec);
        b->Agent::InitFrom(static_cast<QueryableBackend*>(mem));
        b->InitFrom(static_cast<QueryableBackend*>(mem));
        ag[id] = b;
        Show(id, b);
        Datums("AgentState" + mem->spec + "Info");
      } else if (t[0] == "clone") {
        ag[id] = ag.at(t[2])->Clone();
        Show(id, ag[id]);
      } else if (t[0] == "snap") {
        Agent* a = ag.at(t[2]);
        mem->rows.clear();
        mem->shapes.clear();
        a->Agent::Snapshot(DbInit(a, true));
        a->Snapshot(DbInit(a));
        rec->Flush();
        Agent* b = ctor(ctx);
        b->spec(spec);
        b->Agent::InitFrom(static_cast<QueryableBackend*>(mem));
        b->InitFrom(static_cast<QueryableBackend*>(mem));
        ag[id] = b;
        Show(id, b);
        Datums("AgentState" + mem->spec + "Info");
      } else if (t[0] == "put") {
        std::string e;
        for (size_t i = 3; i < t.size(); ++i) e += " " + t[i];
        shw(ag.at(id))->Put(t[2], e);
      } else if (t[0] == "show") {
        Show(id, ag.at(id));
      } else if (t[0] == "push") {   // agent buf kind name qty
        if (t[3] == "Material") {
          CompMap m;
          m[922350000] = 1;
          Material::Ptr r = Material::CreateUntracked(D(t[5]), Composition::CreateFromAtom(m));
          shw(ag.at(id))->MatBuf(t[2])->Push(r);
          rid[r->obj_id()] = t[4];
        } else {
          Product::Ptr r = Product::CreateUntracked(D(t[5]), "stuff");
          shw(ag.at(id))->ProdBuf(t[2])->Push(r);
          rid[r->obj_id()] = t[4];
        }
      } else if (t[0] == "inv" || t[0] == "initinv") {
        Inventories inv = ag.at(t[0] == "inv" ? id : t[2])->SnapshotInv();
        if (t[0] == "initinv") {
          // the restored agent gets copies under the same names
          Inventories cp;
          for (Inventories::iterator it = inv.begin(); it != inv.end(); ++it)
            for (size_t i = 0; i < it->second.size(); ++i) {
              Resource::Ptr r = it->second[i]->Clone();
              rid[r->obj_id()] = rid[it->second[i]->obj_id()];
              cp[it->first].push_back(r);
            }
          ag.at(id)->InitInv(cp);
          inv = ag.at(id)->SnapshotInv();
        }
        for (Inventories::iterator it = inv.begin(); it != inv.end(); ++it) {
          std::string l = "INV " + id + " " + it->first;
          for (size_t i = 0; i < it->second.size(); ++i) {
            int oid = it->second[i]->obj_id();
            l += " " + (rid.count(oid) ? rid[oid] : std::string("?")) + ":" + F(it->second[i]->quantity());
          }
          OutS(l);
        }
      } else if (t[0] == "buf") {   // the contents of a buffer itself
        std::string l = "BUF " + id + " " + t[2];
        toolkit::ResBuf<Material>* mb = shw(ag.at(id))->MatBuf(t[2]);
        toolkit::ResBuf<Product>* pb = shw(ag.at(id))->ProdBuf(t[2]);
        if (mb) {
          std::vector<Material::Ptr> v = mb->PopN(mb->count());
          for (size_t i = 0; i < v.size(); ++i) l += " " + rid[v[i]->obj_id()] + ":" + F(v[i]->quantity());
          mb->Push(v);
        } else {
          std::vector<Product::Ptr> v = pb->PopN(pb->count());
          for (size_t i = 0; i < v.size(); ++i) l += " " + rid[v[i]->obj_id()] + ":" + F(v[i]->quantity());
          pb->Push(v);
        }
        OutS(l);
      } else if (t[0] == "ann") {
        Json::FastWriter w;
        std::string s = w.write(ctor(ctx)->annotations());
        OutS("ANN " + Hex(s));
      } else {
        throw Bad("op " + t[0]);
      }
    } catch (const Bad&) {
      throw;
    } catch (const std::exception& e) {
      Fail(t[0] + " " + id, e);
    }
  }
}
}  // namespace
int main() { return Serve(Run); }

// exchange graphs and solvers
#include "h_common.h"
#include "exchange_graph.h"
#include "greedy_solver.h"
#include "greedy_preconditioner.h"
#include "prog_solver.h"
#include "cyc_limits.h"
using namespace cyclus;
using namespace h;

// tokens: sgrp ncap caps.. | rgrp qty ncap caps.. | node S|R grp qty excl commod | excl grp n nodes..
// arc u v pref nu ucaps.. nv vcaps.. | solve greedy excl cond(0|1|2|3) nw (commod w).. times | solve prog excl times
namespace {
struct N { bool req; int grp; double qty; bool ex; std::string com; };

void Run(const Case& c) {
  ExchangeGraph& g = *new ExchangeGraph();
  std::vector<ExchangeNodeGroup::Ptr> sg;
  std::vector<RequestGroup::Ptr> rg;
  std::vector<ExchangeNode::Ptr> nodes;
  std::vector<ExchangeNode::Ptr> filler;  // perturbs addresses
  std::vector<int> order;
  std::map<std::pair<ExchangeNode*, ExchangeNode*>, int> arc_no;
  int narc = 0;
  for (size_t i = 0; i < c.size(); ++i) {
    const Toks& t = c[i];
    size_t k = 1;
    if (t[0] == "order") {
      // allocation order of the nodes: build nodes in this order, so that addresses differ
      for (; k < t.size(); ++k) order.push_back(I(t[k]));
      nodes.resize(order.size());
      for (size_t j = 0; j < order.size(); ++j) {
        nodes[order[j]] = ExchangeNode::Ptr(new ExchangeNode());
        filler.push_back(ExchangeNode::Ptr(new ExchangeNode()));
      }
    } else if (t[0] == "sgrp") {
      ExchangeNodeGroup::Ptr p(new ExchangeNodeGroup());
      int n = I(t[k++]);
      for (int j = 0; j < n; ++j) p->AddCapacity(D(t[k++]));
      sg.push_back(p);
    } else if (t[0] == "rgrp") {
      RequestGroup::Ptr p(new RequestGroup(D(t[k++])));
      int n = I(t[k++]);
      for (int j = 0; j < n; ++j) p->AddCapacity(D(t[k++]));
      rg.push_back(p);
    } else if (t[0] == "node") {
      int id = I(t[1]);
      ExchangeNode::Ptr p = nodes[id];
      p->qty = D(t[4]);
      p->exclusive = I(t[5]);
      p->commod = UnHex(t[6]);
      if (t[2] == "R") rg[I(t[3])]->AddExchangeNode(p);
      else sg[I(t[3])]->AddExchangeNode(p);
    } else if (t[0] == "excl") {
      std::vector<ExchangeNode::Ptr> v;
      for (size_t j = 2; j < t.size(); ++j) v.push_back(nodes[I(t[j])]);
      sg[I(t[1])]->AddExclGroup(v);
    } else if (t[0] == "arc") {
      ExchangeNode::Ptr u = nodes[I(t[k])], v = nodes[I(t[k + 1])];
      k += 2;
      Arc a(u, v);
      double pref = D(t[k++]);
      a.pref(pref);
      int n = I(t[k++]);
      for (int j = 0; j < n; ++j) u->unit_capacities[a].push_back(D(t[k++]));
      n = I(t[k++]);
      for (int j = 0; j < n; ++j) v->unit_capacities[a].push_back(D(t[k++]));
      u->prefs[a] = pref;
      g.AddArc(a);
      arc_no[std::make_pair(u.get(), v.get())] = narc++;
      Out("ARC %d %d %s", narc - 1, (int)a.exclusive(), F(a.excl_val()).c_str());
    } else if (t[0] == "add") {
      for (size_t j = 0; j < rg.size(); ++j) g.AddRequestGroup(rg[j]);
      for (size_t j = 0; j < sg.size(); ++j) g.AddSupplyGroup(sg[j]);
    } else if (t[0] == "solve") {
      ExchangeSolver* s;
      int times;
      if (t[1] == "greedy") {
        bool excl = I(t[2]);
        int cond = I(t[3]);
        times = I(t[4]);
        std::map<std::string, double> w;
        for (size_t j = 5; j + 1 < t.size(); j += 2) w[UnHex(t[j])] = D(t[j + 1]);
        if (cond == 0) s = new GreedySolver(excl);
        else if (cond == 1) s = new GreedySolver(excl, new GreedyPreconditioner(w));
        else if (cond == 2) s = new GreedySolver(excl, new GreedyPreconditioner(w, GreedyPreconditioner::REVERSE));
        else s = new GreedySolver(excl, NULL);
      } else {
        s = new ProgSolver(t[1] == "clp" ? "clp" : "cbc", 100.0, I(t[2]), false, false);
        times = I(t[3]);
      }
      for (int j = 0; j < times; ++j) {
        g.ClearMatches();
        try {
          double obj = s->Solve(&g);
          Out("SOLVE ok %s", F(obj).c_str());
        } catch (const std::exception& e) {
          Out("SOLVE %s", ErrName(e).c_str());
        }
        const std::vector<Match>& m = g.matches();
        for (size_t q = 0; q < m.size(); ++q) {
          ExchangeNode* a = m[q].first.unode().get();
          ExchangeNode* b = m[q].first.vnode().get();
          int no = arc_no.count(std::make_pair(a, b)) ? arc_no[std::make_pair(a, b)] : -1;
          Out("MATCH %d %s %s", no, F(m[q].second).c_str(), F(m[q].first.pref()).c_str());
        }
        Out("END");
      }
    } else throw Bad("op " + t[0]);
  }
}
}  // namespace
int main() { return Serve(Run, 60); }

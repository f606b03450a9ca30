// random numbers: the draws of a context and the distribution classes
#include "h_common.h"
#include "h_util.h"
#include "random_number_generator.h"
using namespace cyclus;
using namespace h;

namespace {
Context* ctx = NULL;
std::map<std::string, boost::shared_ptr<DoubleDistribution> > dd;
std::map<std::string, boost::shared_ptr<IntDistribution> > id;

}  // namespace

static void Run(const Case& c) {
  for (size_t i = 0; i < c.size(); ++i) {
    const Toks& t = c[i];
    try {
      if (t[0] == "seed") {
        if (ctx == NULL) ctx = new Context(new Timer(), new Recorder((unsigned int)100));
        SimInfo si(10, 2020, 1, "");
        si.seed = strtoull(t[1].c_str(), NULL, 10);
        ctx->InitSim(si);
        Out("SEED %llu", (unsigned long long)ctx->seed());
      } else if (t[0] == "raw") {
        Out("U %llu", (unsigned long long)(uint32_t)ctx->random());
      } else if (t[0] == "u01") {
        Out("D %s", F(ctx->random_01()).c_str());
      } else if (t[0] == "ui") {
        Out("I %d", ctx->random_uniform_int(I(t[1]), I(t[2])));
      } else if (t[0] == "ur") {
        Out("D %s", F(ctx->random_uniform_real(D(t[1]), D(t[2]))).c_str());
      } else if (t[0] == "nr") {
        int n = I(t[1]);
        std::string o = "DS";
        for (int k = 0; k < n; ++k)
          o += " " + F(t.size() > 4 ? ctx->random_normal_real(D(t[2]), D(t[3]), D(t[4]), D(t[5])) : ctx->random_normal_real(D(t[2]), D(t[3])));
        OutS(o);
      } else if (t[0] == "ni") {
        int n = I(t[1]);
        std::string o = "IS";
        for (int k = 0; k < n; ++k)
          o += " " + std::to_string(t.size() > 4 ? ctx->random_normal_int(D(t[2]), D(t[3]), I(t[4]), I(t[5])) : ctx->random_normal_int(D(t[2]), D(t[3])));
        OutS(o);
      } else if (t[0] == "new") {
        const std::string& n = t[1];
        const std::string& k = t[2];
        std::vector<double> p;
        for (size_t j = 3; j < t.size(); ++j) p.push_back(D(t[j]));
        if (k == "FixedD") dd[n].reset(new FixedDoubleDist(p[0]));
        else if (k == "UniformD") dd[n].reset(new UniformDoubleDist(p[0], p[1]));
        else if (k == "NormalD") dd[n].reset(p.size() > 2 ? new NormalDoubleDist(p[0], p[1], p[2], p[3]) : new NormalDoubleDist(p[0], p[1]));
        else if (k == "PoissonD") dd[n].reset(new PoissonDoubleDist(p[0]));
        else if (k == "ExponentialD") dd[n].reset(new ExponentialDoubleDist(p[0]));
        else if (k == "BinaryD") dd[n].reset(new BinaryDoubleDist(p[0], p[1], p[2]));
        else if (k == "FixedI") id[n].reset(new FixedIntDist((int)p[0]));
        else if (k == "UniformI") id[n].reset(new UniformIntDist((int)p[0], (int)p[1]));
        else if (k == "NormalI") id[n].reset(p.size() > 2 ? new NormalIntDist(p[0], p[1], (int)p[2], (int)p[3]) : new NormalIntDist(p[0], p[1]));
        else if (k == "BinomialI") id[n].reset(new BinomialIntDist((int)p[0], p[1]));
        else if (k == "NegBinomialI") id[n].reset(new NegativeBinomialIntDist((int)p[0], p[1]));
        else if (k == "PoissonI") id[n].reset(new PoissonIntDist(p[0]));
        else if (k == "ExponentialI") id[n].reset(new ExponentialIntDist(p[0]));
        else if (k == "BinaryI") id[n].reset(new BinaryIntDist(p[0], (int)p[1], (int)p[2]));
        else throw Bad("kind " + k);
        OutS("NEW ok");
      } else if (t[0] == "samp") {
        int n = I(t[2]);
        std::string o;
        if (dd.count(t[1]) && dd[t[1]]) {
          o = "DS";
          for (int k = 0; k < n; ++k) o += " " + F(dd[t[1]]->sample());
        } else if (id.count(t[1]) && id[t[1]]) {
          o = "IS";
          for (int k = 0; k < n; ++k) o += " " + std::to_string(id[t[1]]->sample());
        } else {
          o = "NODIST";
        }
        OutS(o);
      } else if (t[0] == "max") {
        if (dd.count(t[1])) Out("D %s", F(dd[t[1]]->max()).c_str());
        else OutS("NODIST");
      } else {
        throw Bad("command " + t[0]);
      }
    } catch (const Bad&) {
      throw;
    } catch (const std::exception& e) {
      OutS(std::string("ERR ") + ErrName(e) + " " + Hex(e.what()));
    }
  }
}

int main() { return Serve(Run, 10); }

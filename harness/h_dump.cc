// shows every table of a database file
#include "h_common.h"
#include "h_val.h"
#include "hdf5_back.h"
#include "sqlite_back.h"
using namespace cyclus;
using namespace h;

// dump hexpath sqlite|h5
namespace {
void Run(const Case& c) {
  for (size_t n = 0; n < c.size(); ++n) {
    const Toks& t = c[n];
    if (t[0] != "dump") throw Bad("op " + t[0]);
    FullBackend* b = t[2] == "h5" ? static_cast<FullBackend*>(new Hdf5Back(UnHex(t[1]))) : static_cast<FullBackend*>(new SqliteBack(UnHex(t[1])));
    OutS("DB");
    std::set<std::string> tabs = b->Tables();
    for (std::set<std::string>::iterator it = tabs.begin(); it != tabs.end(); ++it) {
      if (*it == "InputFiles") continue;
      QueryResult q = b->Query(*it, NULL);
      std::string o = "TABLE " + *it;
      for (size_t j = 0; j < q.fields.size(); ++j) o += " " + q.fields[j];
      OutS(o);
      for (size_t i = 0; i < q.rows.size(); ++i) {
        o = "V";
        for (size_t j = 0; j < q.rows[i].size(); ++j) o += " | " + AnyStr(q.rows[i][j]);
        OutS(o);
      }
    }
    delete b;
  }
}
}  // namespace
int main() { return Serve(Run, 60); }

// records rows to a database file and reads them back
#include <unistd.h>
#include "h_common.h"
#include "h_val.h"
#include "hdf5_back.h"
#include "recorder.h"
#include "sqlite_back.h"
using namespace cyclus;
using namespace h;

// open sqlite|hdf5 uuid|- dump ; datum title n (hexname type nshape shape.. value..)* ; bulk title n base ; flush ; close
// query table nconds|-1 (field op type value..)* ; schema table ; types table ; tables
namespace {
FullBackend* back = NULL;
Recorder* rec = NULL;

void Close() {
  if (rec != NULL) {
    rec->Close();
    delete rec;
  }
  if (back != NULL) {
    back->Close();
    delete back;
  }
  rec = NULL;
  back = NULL;
}

void Do(const Toks& t) {
  if (t[0] == "open") {
    if (t[1] == "sqlite") back = new SqliteBack("t.sqlite");
    else back = new Hdf5Back("t.h5");
    if (t[2] == "-") {
      rec = new Recorder(false);
    } else {
      Cur cu(t, 2);
      rec = new Recorder(Codec<U_>::De(cu));
    }
    rec->set_dump_count(I(t[3]));
    rec->RegisterBackend(back);
  } else if (t[0] == "close") {
    Close();
  } else if (t[0] == "flush") {
    rec->Flush();
  } else if (t[0] == "bulk") {
    int n = I(t[2]), b = I(t[3]);
    for (int j = 0; j < n; ++j)
      rec->NewDatum(t[1])->AddVal("n", b + j)->AddVal("d", (b + j) / 8.0)->AddVal("s", "s" + std::to_string((b + j) % 7))->Record();
  } else if (t[0] == "datum") {
    Datum* d = rec->NewDatum(t[1]);
    int n = I(t[2]);
    Cur cu(t, 3);
    for (int j = 0; j < n; ++j) {
      std::string name = UnHex(cu.next()), type = cu.next();
      int ns = I(cu.next());
      std::vector<int> shp;
      for (int m = 0; m < ns; ++m) shp.push_back(I(cu.next()));
      boost::spirit::hold_any v = MakeAny(type, cu);
      d->AddVal(name, v, ns >= 0 ? &shp : NULL);
    }
    d->Record();
  } else if (t[0] == "query") {
    std::vector<Cond> conds;
    int n = I(t[2]);
    Cur cu(t, 3);
    for (int j = 0; j < n; ++j) {
      std::string f = UnHex(cu.next()), op = cu.next(), type = cu.next();
      conds.push_back(Cond(f, op, MakeAny(type, cu)));
    }
    QueryResult q = back->Query(t[1], n < 0 ? NULL : &conds);
    std::string o = "FIELDS";
    for (size_t j = 0; j < q.fields.size(); ++j) o += " " + Hex(q.fields[j]) + " " + std::to_string(q.types[j]);
    OutS(o);
    for (size_t i = 0; i < q.rows.size(); ++i) {
      o = "V";
      for (size_t j = 0; j < q.rows[i].size(); ++j) o += " | " + AnyStr(q.rows[i][j]);
      OutS(o);
    }
  } else if (t[0] == "schema") {
    std::list<ColumnInfo> s = back->Schema(t[1]);
    for (std::list<ColumnInfo>::iterator it = s.begin(); it != s.end(); ++it) {
      std::string o = "COL " + Hex(it->table) + " " + Hex(it->col) + " " + std::to_string(it->index) + " " + std::to_string(it->dbtype);
      for (size_t j = 0; j < it->shape.size(); ++j) o += " " + std::to_string(it->shape[j]);
      OutS(o);
    }
  } else if (t[0] == "types") {
    std::map<std::string, DbTypes> m = back->ColumnTypes(t[1]);
    for (std::map<std::string, DbTypes>::iterator it = m.begin(); it != m.end(); ++it)
      Out("TYPE %s %d", Hex(it->first).c_str(), (int)it->second);
  } else if (t[0] == "tables") {
    std::set<std::string> s = back->Tables();
    for (std::set<std::string>::iterator it = s.begin(); it != s.end(); ++it) Out("TABLE %s", Hex(*it).c_str());
  } else throw Bad("op " + t[0]);
}

void Run(const Case& c) {
  unlink("t.sqlite");
  unlink("t.h5");
  for (size_t i = 0; i < c.size(); ++i) {
    Out("OP %d", (int)i);
    try {
      Do(c[i]);
    } catch (const std::exception& e) {
      Out("ERR %s %s", ErrName(e).c_str(), Hex(e.what()).c_str());
    }
  }
  Close();
  unlink("t.sqlite");
  unlink("t.h5");
}
}  // namespace
int main() { return Serve(Run, 30); }

// matrices and the matrix exponential
#include "h_common.h"
#include "h_util.h"
#include "l_matrix.h"
#include "uniform_taylor.h"
using namespace cyclus;
using namespace h;

namespace {
std::map<std::string, LMatrix> m;

std::string S(const LMatrix& a) {
  std::string o = "M " + std::to_string(a.NumRows()) + " " + std::to_string(a.NumCols());
  for (int i = 1; i <= a.NumRows(); ++i)
    for (int j = 1; j <= a.NumCols(); ++j) o += " " + F(static_cast<double>(a(i, j)));
  return o;
}

void One(const Toks& t) {
  const std::string& k = t[0];
  if (k == "mat") {
    int r = I(t[2]), c = I(t[3]);
    LMatrix a(r, c);
    for (int i = 0; i < r; ++i)
      for (int j = 0; j < c; ++j) {
        double v = D(t[4 + i * c + j]);
        if ((i + j) % 2) a.SetElement(i + 1, j + 1, v);
        else a(i + 1, j + 1) = v;
      }
    m[t[1]] = a;
  } else if (k == "one") { m[t[1]] = LMatrix();
  } else if (k == "id") { m[t[1]] = identity(I(t[2]));
  } else if (k == "row") {
    std::vector<long double> v;
    for (size_t j = 2; j < t.size(); ++j) v.push_back(D(t[j]));
    m[t[1]].AddRow(v);
  } else if (k == "bin") {
    const LMatrix a = m[t[3]], b = m[t[4]];
    LMatrix r = t[2] == "+" ? a + b : t[2] == "-" ? a - b : a * b;
    m[t[1]] = r;
  } else if (k == "upd") {      // operands may be the same object
    if (t[2] == "+") m[t[1]] += m[t[3]];
    else if (t[2] == "-") m[t[1]] -= m[t[3]];
    else if (t[2] == "*") m[t[1]] *= m[t[3]];
    else m[t[1]] = m[t[3]];
  } else if (k == "scal") {
    LMatrix r = t[4] == "l" ? static_cast<long double>(D(t[3])) * m[t[2]] : m[t[2]] * static_cast<long double>(D(t[3]));
    m[t[1]] = r;
  } else if (k == "pow") {
    LMatrix r = m[t[2]] ^ I(t[3]);
    m[t[1]] = r;
  } else if (k == "exp") {
    LMatrix r = UniformTaylor::MatrixExpSolver(m[t[2]], m[t[3]], D(t[4]));
    m[t[1]] = r;
  } else throw Bad("op " + k);
  OutS(S(m[t[1]]));
}

void Run(const Case& c) {
  for (size_t i = 0; i < c.size(); ++i) {
    try {
      One(c[i]);
    } catch (const Bad&) {
      throw;
    } catch (const std::exception& e) {
      OutS("ERR " + ErrName(e));
    }
  }
}
}  // namespace

int main() { return Serve(Run, 10); }

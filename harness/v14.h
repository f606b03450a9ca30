// What the generated archetypes of C14 show of themselves, independent of the generated code.
#ifndef V14_H_
#define V14_H_
#include <string>
#include "cyclus.h"
#include "h_val.h"

namespace v14 {

class Shower {
 public:
  virtual ~Shower() {}
  virtual std::string Show() = 0;
  virtual void Put(const std::string& var, const std::string& enc) = 0;
  virtual cyclus::toolkit::ResBuf<cyclus::Material>* MatBuf(const std::string& n) = 0;
  virtual cyclus::toolkit::ResBuf<cyclus::Product>* ProdBuf(const std::string& n) = 0;
};

template <class T> void E(const char* n, const T& v, std::string& o) {
  o += std::string("var ") + n;
  h::Codec<T>::E(v, o);
  o += "\n";
}
inline void C(const char* n, double v, std::string& o) {
  o += std::string("cap ") + n + " " + h::F(v) + "\n";
}
template <class T> void D(T& v, const std::string& enc) {
  h::Toks t = h::Split(enc);
  h::Cur c(t, 0);
  v = h::Codec<T>::De(c);
}

}  // namespace v14
#endif

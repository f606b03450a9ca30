// Text encoding of the values the recorder and the back ends handle.
#ifndef H_VAL_H_
#define H_VAL_H_
#include <list>
#include <map>
#include <set>
#include <utility>
#include <vector>
#include <boost/uuid/uuid.hpp>
#include "any.hpp"
#include "blob.h"
#include "h_common.h"

namespace h {

struct Cur {
  const Toks& t;
  size_t p;
  Cur(const Toks& t_, size_t p_) : t(t_), p(p_) {}
  const std::string& next() {
    if (p >= t.size()) throw Bad("value: out of tokens");
    return t[p++];
  }
};

template <class T> struct Codec;
template <> struct Codec<int> {
  static void E(const int& v, std::string& o) { o += " " + std::to_string(v); }
  static int De(Cur& c) { return I(c.next()); }
};
template <> struct Codec<bool> {
  static void E(const bool& v, std::string& o) { o += v ? " 1" : " 0"; }
  static bool De(Cur& c) { return I(c.next()) != 0; }
};
template <> struct Codec<double> {
  static void E(const double& v, std::string& o) { o += " " + F(v); }
  static double De(Cur& c) { return D(c.next()); }
};
template <> struct Codec<float> {
  static void E(const float& v, std::string& o) { o += " " + F((double)v); }
  static float De(Cur& c) { return (float)D(c.next()); }
};
template <> struct Codec<std::string> {
  static void E(const std::string& v, std::string& o) { o += " " + Hex(v); }
  static std::string De(Cur& c) { return UnHex(c.next()); }
};
template <> struct Codec<cyclus::Blob> {
  static void E(const cyclus::Blob& v, std::string& o) { o += " " + Hex(v.str()); }
  static cyclus::Blob De(Cur& c) { return cyclus::Blob(UnHex(c.next())); }
};
template <> struct Codec<boost::uuids::uuid> {
  static void E(const boost::uuids::uuid& v, std::string& o) {
    o += " " + Hex(std::string((const char*)v.data, 16));
  }
  static boost::uuids::uuid De(Cur& c) {
    std::string s = UnHex(c.next());
    boost::uuids::uuid u;
    memcpy(u.data, s.data(), 16);
    return u;
  }
};
template <class A, class B> struct Codec<std::pair<A, B> > {
  static void E(const std::pair<A, B>& v, std::string& o) {
    Codec<A>::E(v.first, o);
    Codec<B>::E(v.second, o);
  }
  static std::pair<A, B> De(Cur& c) {
    A a = Codec<A>::De(c);
    B b = Codec<B>::De(c);
    return std::make_pair(a, b);
  }
};
template <class Q, class T> struct SeqCodec {
  static void E(const Q& v, std::string& o) {
    o += " " + std::to_string(v.size());
    for (typename Q::const_iterator it = v.begin(); it != v.end(); ++it) Codec<T>::E(*it, o);
  }
  static Q De(Cur& c) {
    int n = I(c.next());
    Q q;
    for (int i = 0; i < n; ++i) q.insert(q.end(), Codec<T>::De(c));
    return q;
  }
};
template <class T> struct Codec<std::vector<T> > : SeqCodec<std::vector<T>, T> {};
template <class T> struct Codec<std::list<T> > : SeqCodec<std::list<T>, T> {};
template <class T> struct Codec<std::set<T> > : SeqCodec<std::set<T>, T> {};
template <class K, class V> struct Codec<std::map<K, V> > {
  typedef std::map<K, V> M;
  static void E(const M& v, std::string& o) {
    o += " " + std::to_string(v.size());
    for (typename M::const_iterator it = v.begin(); it != v.end(); ++it) {
      Codec<K>::E(it->first, o);
      Codec<V>::E(it->second, o);
    }
  }
  static M De(Cur& c) {
    int n = I(c.next());
    M m;
    for (int i = 0; i < n; ++i) {
      K k = Codec<K>::De(c);
      V v = Codec<V>::De(c);
      m[k] = v;
    }
    return m;
  }
};

typedef std::string S_;
typedef boost::uuids::uuid U_;
typedef cyclus::Blob B_;
// id, C++ type
#define H_TYPES(X) \
  X(bool, (bool)) X(int, (int)) X(float, (float)) X(double, (double)) X(str, (S_)) \
  X(blob, (B_)) X(uuid, (U_)) \
  X(vi, (std::vector<int>)) X(vf, (std::vector<float>)) X(vd, (std::vector<double>)) \
  X(vs, (std::vector<S_>)) X(vb, (std::vector<B_>)) X(vu, (std::vector<U_>)) \
  X(si, (std::set<int>)) X(sf, (std::set<float>)) X(sd, (std::set<double>)) \
  X(ss, (std::set<S_>)) X(sb, (std::set<B_>)) X(su, (std::set<U_>)) \
  X(lB, (std::list<bool>)) X(li, (std::list<int>)) X(lf, (std::list<float>)) \
  X(ld, (std::list<double>)) X(ls, (std::list<S_>)) X(lb, (std::list<B_>)) \
  X(lu, (std::list<U_>)) \
  X(piB, (std::pair<int, bool>)) X(pii, (std::pair<int, int>)) X(pif, (std::pair<int, float>)) \
  X(pid, (std::pair<int, double>)) X(pis, (std::pair<int, S_>)) X(pib, (std::pair<int, B_>)) \
  X(piu, (std::pair<int, U_>)) \
  X(psB, (std::pair<S_, bool>)) X(psi, (std::pair<S_, int>)) X(psf, (std::pair<S_, float>)) \
  X(psd, (std::pair<S_, double>)) X(pss, (std::pair<S_, S_>)) X(psb, (std::pair<S_, B_>)) \
  X(psu, (std::pair<S_, U_>)) X(pdd, (std::pair<double, double>)) \
  X(miB, (std::map<int, bool>)) X(mii, (std::map<int, int>)) X(mif, (std::map<int, float>)) \
  X(mid, (std::map<int, double>)) X(mis, (std::map<int, S_>)) X(mib, (std::map<int, B_>)) \
  X(miu, (std::map<int, U_>)) \
  X(msB, (std::map<S_, bool>)) X(msi, (std::map<S_, int>)) X(msf, (std::map<S_, float>)) \
  X(msd, (std::map<S_, double>)) X(mss, (std::map<S_, S_>)) X(msb, (std::map<S_, B_>)) \
  X(msu, (std::map<S_, U_>)) \
  X(mPisd, (std::map<std::pair<int, S_>, double>)) \
  X(msvd, (std::map<S_, std::vector<double> >)) \
  X(msmid, (std::map<S_, std::map<int, double> >)) \
  X(msPdmid, (std::map<S_, std::pair<double, std::map<int, double> > >)) \
  X(misX, (std::map<int, std::map<S_, double> >)) \
  X(msvPiPss, (std::map<S_, std::vector<std::pair<int, std::pair<S_, S_> > > >)) \
  X(lpii, (std::list<std::pair<int, int> >)) \
  X(mspsvd, (std::map<S_, std::pair<S_, std::vector<double> > >)) \
  X(msmsi, (std::map<S_, std::map<S_, int> >)) \
  X(vPPddmsd, (std::vector<std::pair<std::pair<double, double>, std::map<S_, double> > >)) \
  X(piPss, (std::pair<int, std::pair<S_, S_> >)) \
  X(PPddmsd, (std::pair<std::pair<double, double>, std::map<S_, double> >)) \
  X(pdmid, (std::pair<double, std::map<int, double> >)) \
  X(vpiPss, (std::vector<std::pair<int, std::pair<S_, S_> > >)) \
  X(psvd, (std::pair<S_, std::vector<double> >)) \
  X(mPssi, (std::map<std::pair<S_, S_>, int>)) \
  X(msmsd, (std::map<S_, std::map<S_, double> >))

template <class T> struct Strip;
template <class R, class A> struct Strip<R(A)> { typedef A type; };
#define H_T(ty) ::h::Strip<void ty>::type

// type id + encoded value, one line
inline std::string AnyStr(const boost::spirit::hold_any& v) {
  const std::type_info& ti = v.type();
#define X(id, ty) \
  if (ti == typeid(H_T(ty))) { \
    std::string o = #id; \
    Codec<H_T(ty)>::E(v.cast<H_T(ty)>(), o); \
    return o; \
  }
  H_TYPES(X)
#undef X
  if (ti == typeid(const char*)) return "cstr " + Hex(v.cast<const char*>());
  if (ti == typeid(char*)) return "cstr " + Hex(v.cast<char*>());
  return std::string("? ") + ti.name();
}

inline boost::spirit::hold_any MakeAny(const std::string& id, Cur& c) {
#define X(i, ty) \
  if (id == #i) { \
    H_T(ty) v = Codec<H_T(ty)>::De(c); \
    return boost::spirit::hold_any(v); \
  }
  H_TYPES(X)
#undef X
  throw Bad("no type " + id);
}

}  // namespace h
#endif

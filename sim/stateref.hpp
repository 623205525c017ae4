// Element types and helpers shared by the workloads about the state manager.
#ifndef STATEREF_HPP_
#define STATEREF_HPP_
#include "geomref.hpp"
#include <climits>
#include <cmath>
#include "MeshTile.hh"
#include "MeshSet.hh"
#include "JaliState.h"
#include "JaliStateVector.h"

namespace simm {
typedef std::array<double, 2> A2_;
typedef std::array<double, 3> A3_;
typedef std::array<double, 6> A6_;
struct Pt { double x = 0, y = 0; int tag = 0; };  // a user's own type
inline std::ostream& operator<<(std::ostream& o, const Pt& p) { return o << p.x << " " << p.y << " " << p.tag; }
typedef std::vector<double> VD;

template <class T> struct TT;
// mostly ordinary values, all different; some that a careless conversion, a test for "no value" or a sign mistake would not survive
inline int make_int(long s) {
  long q = s % 1000003;
  switch ((s / 3) % 11) { case 1: return (int)(-q - 1); case 3: return (int)(INT_MAX - q); case 5: return (int)(INT_MIN + q); case 7: return 0; case 9: return -1; default: return (int)q; }
}
inline double make_double(long s) {
  double q = 0.25 * (double)(s % 1000003) + 0.5;
  switch ((s / 3) % 13) { case 1: return -q; case 3: return q / 3.0; case 5: return q * 1e300; case 7: return q * 1e-310; case 9: return 0; case 11: return s % 2 ? HUGE_VAL : -1; default: return q; }
}
template <> struct TT<int> { static int make(long s) { return make_int(s); } static void flat(const int& t, VD& v) { v.push_back(t); } };
template <> struct TT<double> { static double make(long s) { return make_double(s); } static void flat(const double& t, VD& v) { v.push_back(t); } };
template <size_t N> struct TT<std::array<double, N> > {
  static std::array<double, N> make(long s) { std::array<double, N> a; for (size_t i = 0; i < N; ++i) a[i] = i ? (double)(s % 1000003) + 0.125 * (double)i : make_double(s); return a; }
  static void flat(const std::array<double, N>& t, VD& v) { for (double d : t) v.push_back(d); }
};
template <> struct TT<Pt> { static Pt make(long s) { Pt p; p.x = make_double(s); p.y = -p.x; p.tag = (int)(s % 7); return p; } static void flat(const Pt& t, VD& v) { v.push_back(t.x); v.push_back(t.y); v.push_back(t.tag); } };

template <class T> VD flat1(const T& t) { VD v; TT<T>::flat(t, v); return v; }
template <class T> std::vector<VD> flatv(const std::vector<T>& x) { std::vector<VD> o; for (auto& t : x) o.push_back(flat1(t)); return o; }

template <class T> struct Tag { typedef T type; };
template <class D> struct Dom { typedef D type; };
enum { NT = 6 };
static const char* const TNAME[NT] = {"int", "double", "array2", "array3", "array6", "struct"};
template <class F> void with_type(int t, F f) {
  switch (t % NT) {
    case 0: f(Tag<int>()); break;
    case 1: f(Tag<double>()); break;
    case 2: f(Tag<A2_>()); break;
    case 3: f(Tag<A3_>()); break;
    case 4: f(Tag<A6_>()); break;
    default: f(Tag<Pt>()); break;
  }
}
typedef Jali::StateVectorBase SVB;
typedef std::shared_ptr<SVB> SVP;
template <class T, class D> Jali::UniStateVector<T, D>* uni(const SVP& p) { return dynamic_cast<Jali::UniStateVector<T, D>*>(p.get()); }
template <class T, class D> Jali::MultiStateVector<T, D>* multi(const SVP& p) { return dynamic_cast<Jali::MultiStateVector<T, D>*>(p.get()); }

// silence the library's remarks on std::cerr (they are not part of any property)
}  // namespace simm
#endif

// Random expressions evaluated in any of the library's algebras.
#ifndef VERIF_ALG_HPP
#define VERIF_ALG_HPP
#include "mpi.hpp"
namespace mpi {
// xs: the variables; k(Q) makes a constant; guard(op,argument) may throw
template<class T,class K,class G> T build(Expr const& e,std::vector<T> const& xs,K const& k,G const& guard) { std::vector<T> w; w.reserve(e.v.size()); auto A=[&](int i)->T const&{return w[size_t(i)];}; for (auto const& n:e.v) { if (n.op==DIV) guard(DIV,A(n.b)); else if (n.a>=0&&!(n.op==POW&&n.n>=0)) guard(n.op,A(n.a)); switch (n.op) { case VAR: w.push_back(xs[size_t(n.n)]); break; case CNST: w.push_back(k(n.c)); break; case ADD: w.push_back(A(n.a)+A(n.b)); break; case SUB: w.push_back(A(n.a)-A(n.b)); break; case MUL: w.push_back(A(n.a)*A(n.b)); break; case DIV: w.push_back(A(n.a)/A(n.b)); break; case POW: w.push_back(pow(A(n.a),int(n.n))); break; default: w.push_back(apply1(n.op,A(n.a))); } } return w.back(); }
template<class T,class K> T build(Expr const& e,std::vector<T> const& xs,K const& k) { return build(e,xs,k,[](Op,T const&){}); }
}
#endif

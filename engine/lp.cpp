// Exact rational feasibility of a conjunction of linear constraints (general simplex,
// Bland's rule).  Used as the entailment oracle of the polyhedral part of the abstract
// domain.  int64 rationals with overflow detection, falling back to GMP rationals.
#include <gmpxx.h>
#include <cstdint>
#include <vector>
#include <stdexcept>
#include <cstdlib>
struct Ovf {};
typedef __int128 I;
struct Q {
  I n, d;
  Q(): n(0), d(1) {}
  Q(int64_t a): n(a), d(1) {}
  static Q mk(I a, I b) {
    Q q;
    if (a == 0) return q;
    if (b == 1) { q.n = a; return q; }
    if (b < 0) { a = -a; b = -b; }
    I x = a < 0 ? -a : a, y = b;
    while (y) {
      if (!(x >> 64) && !(y >> 64)) {
        uint64_t u = (uint64_t)x, v = (uint64_t)y;
        while (v) { uint64_t t = u % v; u = v; v = t; }
        x = u; break;
      }
      I t = x % y; x = y; y = t;
    }
    q.n = a / x; q.d = b / x; return q;
  }
};
static inline I mulx(I a, I b) { I r; if (__builtin_mul_overflow(a, b, &r)) throw Ovf(); return r; }
static inline I addx(I a, I b) { I r; if (__builtin_add_overflow(a, b, &r)) throw Ovf(); return r; }
static inline Q operator+(const Q&a,const Q&b){ if(a.d==1&&b.d==1) return Q::mk(addx(a.n,b.n),1); return Q::mk(addx(mulx(a.n,b.d),mulx(b.n,a.d)),mulx(a.d,b.d));}
static inline Q operator-(const Q&a,const Q&b){ if(a.d==1&&b.d==1) return Q::mk(addx(a.n,-b.n),1); return Q::mk(addx(mulx(a.n,b.d),-mulx(b.n,a.d)),mulx(a.d,b.d));}
static inline Q operator*(const Q&a,const Q&b){ if(a.n==0||b.n==0) return Q(0); return Q::mk(mulx(a.n,b.n),mulx(a.d,b.d));}
static inline Q operator/(const Q&a,const Q&b){ return Q::mk(mulx(a.n,b.d),mulx(a.d,b.n));}
static inline int sg(const Q&a){ return a.n<0?-1:a.n>0; }
static inline int cmpq(const Q&a,const Q&b){ if(a.d==1&&b.d==1) return a.n<b.n?-1:a.n>b.n; I x=mulx(a.n,b.d),y=mulx(b.n,a.d); return x<y?-1:x>y; }
static inline int sg(const mpq_class&a){ return sgn(a); }
static inline int cmpq(const mpq_class&a,const mpq_class&b){ return cmp(a,b); }
static mpq_class mkq(int64_t v, mpq_class*) { mpz_class z; mpz_set_si(z.get_mpz_t(), v); return mpq_class(z); }
static Q mkq(int64_t v, Q*) { return Q(v); }

// vars 0..nv-1, each with optional bounds; rows: sum coef*x >= -c
static inline void put(int64_t*o,const Q&q){o[0]=(int64_t)q.n;o[1]=(int64_t)(q.n>>64);o[2]=(int64_t)q.d;o[3]=(int64_t)(q.d>>64);}
static inline void put(int64_t*,const mpq_class&){}
static inline bool exact(Q*){return true;}
static inline bool exact(mpq_class*){return false;}
template<class T> static int solve(int nv, const int64_t *vb, int nr, const int64_t *rows, int64_t *sol) {
  int N = nv + nr;
  std::vector<std::vector<T>> A(nr, std::vector<T>(N, mkq(0,(T*)0)));
  std::vector<T> lo(N), hi(N), val(N, mkq(0,(T*)0));
  std::vector<char> hl(N,0), hh(N,0), basic(N,0);
  std::vector<int> rb(nr);
  for (int j=0;j<nv;j++) {
    hl[j]=vb[4*j]!=0; hh[j]=vb[4*j+2]!=0;
    if (hl[j]) lo[j]=mkq(vb[4*j+1],(T*)0);
    if (hh[j]) hi[j]=mkq(vb[4*j+3],(T*)0);
    if (hl[j]&&hh[j]&&cmpq(lo[j],hi[j])>0) return 1;
    if (hl[j] && sg(lo[j])>0) val[j]=lo[j];
    else if (hh[j] && sg(hi[j])<0) val[j]=hi[j];
  }
  const int64_t *p = rows;
  for (int i=0;i<nr;i++) {
    int k=(int)*p++; int64_t c=*p++;
    T v = mkq(0,(T*)0);
    for (int t=0;t<k;t++) { int j=(int)*p++; int64_t a=*p++; A[i][j]=A[i][j]+mkq(a,(T*)0); v = v + mkq(a,(T*)0)*val[j]; }
    int s=nv+i; basic[s]=1; rb[i]=s; val[s]=v; hl[s]=1; lo[s]=mkq(-c,(T*)0);
  }
  int iters=0;
  for (;;) {
    if (++iters > 4000) return -1;
    int row=-1, bv=1<<30; bool low=false;
    for (int i=0;i<nr;i++) {
      int b=rb[i];
      if (b>=bv) continue;
      if (hl[b]&&cmpq(val[b],lo[b])<0) { bv=b; row=i; low=true; }
      else if (hh[b]&&cmpq(val[b],hi[b])>0) { bv=b; row=i; low=false; }
    }
    if (row<0) { if (sol) { for (int j=0;j<nv;j++) put(sol+4*j,val[j]); sol[4*nv]=exact((T*)0); } return 0; }
    int ent=-1;
    for (int j=0;j<N;j++) {
      if (basic[j]) continue;
      int s=sg(A[row][j]);
      if (!s) continue;
      bool inc = low ? s>0 : s<0;   // need to increase x_j
      if (inc) { if (!hh[j] || cmpq(val[j],hi[j])<0) { ent=j; break; } }
      else     { if (!hl[j] || cmpq(val[j],lo[j])>0) { ent=j; break; } }
    }
    if (ent<0) return 1;
    T target = low ? lo[bv] : hi[bv];
    T theta = (target - val[bv]) / A[row][ent];
    val[bv]=target; val[ent]=val[ent]+theta;
    for (int i=0;i<nr;i++) if (i!=row && sg(A[i][ent])) val[rb[i]]=val[rb[i]]+A[i][ent]*theta;
    // pivot
    T a=A[row][ent]; T inv = mkq(1,(T*)0)/a; T minv = mkq(-1,(T*)0)/a;
    std::vector<T>&R=A[row];
    for (int j=0;j<N;j++) if (sg(R[j])) R[j]=R[j]*minv;
    R[ent]=mkq(0,(T*)0); R[bv]=inv;
    for (int i=0;i<nr;i++) if (i!=row) {
      T f=A[i][ent];
      if (!sg(f)) continue;
      A[i][ent]=mkq(0,(T*)0);
      for (int j=0;j<N;j++) if (sg(R[j])) A[i][j]=A[i][j]+f*R[j];
    }
    basic[bv]=0; basic[ent]=1; rb[row]=ent;
  }
}
extern "C" int lp_infeasible(int nv, const int64_t *vb, int nr, const int64_t *rows, int64_t *sol) {
  try { return solve<Q>(nv,vb,nr,rows,sol); }
  catch (Ovf&) { return solve<mpq_class>(nv,vb,nr,rows,sol); }
}

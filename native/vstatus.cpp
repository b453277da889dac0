// The real QGrpcStatus, reached through plain functions.
#include <new>
#include "qgrpcstatus.cpp"
using S = QtProtobuf::QGrpcStatus; using C = S::StatusCode;
extern "C" {
void v_st_make(void *p, C c, const QString &m) { new (p) S(c, m); }
void v_st_default(void *p) { new (p) S; }
void v_st_code1(void *p, C c) { new (p) S(c); }
void v_st_copy(void *p, const S &o) { new (p) S(o); }
void v_st_move(void *p, S &o) { new (p) S(std::move(o)); }
S *v_st_assign(S &a, const S &b) { return &(a = b); }
S *v_st_massign(S &a, S &b) { return &(a = std::move(b)); }
void v_st_del(S *p) { p->~S(); }
C v_st_code(const S &s) { return s.code(); }
QString v_st_msg(const S &s) { return s.message(); }
bool v_st_eqc(const S &s, C c) { return s == c; }
bool v_st_nec(const S &s, C c) { return s != c; }
bool v_st_ceq(const S &s, C c) { return c == s; }
bool v_st_cne(const S &s, C c) { return c != s; }
bool v_st_eq(const S &a, const S &b) { return a == b; }
}

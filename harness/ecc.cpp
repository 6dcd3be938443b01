// E01-E05: curve arithmetic on coordinates
#include "curves.h"

template <class T> static void e02()
{
    typename T::C c;
    Aff p = anypoint<T>("px", "py", symx_choose("pinf", 2));
    Aff q = anypoint<T>("qx", "qy", symx_choose("qinf", 2));
    typename T::P P = build<T>(p, &c), Q = build<T>(q, &c);
    typename T::P R = P + Q;
    issum<T>(R, p, q, &c, "P + Q is the sum");
    same<T>(P, p, &c, "left operand unchanged");
    same<T>(Q, q, &c, "right operand unchanged");
    CHECK(R.isValid(), "the sum is valid");
    typename T::P S = P;
    typename T::P &r = (S += Q);
    CHECK(&r == &S, "+= returns its object");
    issum<T>(S, p, q, &c, "P += Q is the sum");
    same<T>(Q, q, &c, "right operand of += unchanged");
    symx_reach("end");
}
template <class T> static void e02d()
{
    typename T::C c;
    Aff p = anypoint<T>("px", "py", symx_choose("pinf", 2));
    typename T::P P = build<T>(p, &c);
    typename T::P D = P.pointDouble();
    issum<T>(D, p, p, &c, "pointDouble is P + P");
    same<T>(P, p, &c, "doubled point unchanged");
    CHECK(D.isValid(), "the double is valid");
    typename T::P E = P + P;
    issum<T>(E, p, p, &c, "P + P is the double");
    CHECK(E == D, "P + P equals pointDouble");
    typename T::P F = P;
    F += F;
    issum<T>(F, p, p, &c, "P += P is the double");
    Aff m = neg<T>(p);
    typename T::P N = build<T>(m, &c);
    CHECK((P + N).isInf(), "P plus its inverse is the identity");
    CHECK((N + P).isInf(), "inverse plus P is the identity");
    F = P;
    F += N;
    CHECK(F.isInf(), "P += inverse is the identity");
    CHECK(F == typename T::P(), "the sum equals the identity");
    // the identity produced by an operation is as good as a fresh one
    issum<T>(F + P, Aff{0, 0, 1}, p, &c, "resulting identity is neutral (left)");
    issum<T>(P + F, p, Aff{0, 0, 1}, &c, "resulting identity is neutral (right)");
    CHECK(F.isValid(), "resulting identity is valid");
    CHECK(F.pointDouble().isInf(), "double of the identity is the identity");
    symx_reach("end");
}
template <class T> static void e03()
{
    typename T::C c;
    Aff p = anypoint<T>("px", "py", symx_choose("pinf", 2));
    Aff q = anypoint<T>("qx", "qy", symx_choose("qinf", 2));
    typename T::P P = build<T>(p, &c), Q = build<T>(q, &c);
    typename T::P R = P - Q;
    Aff m = neg<T>(q);
    issum<T>(R, p, m, &c, "P - Q is P plus the inverse of Q");
    same<T>(P, p, &c, "left operand unchanged");
    same<T>(Q, q, &c, "right operand unchanged");
    CHECK(R.isValid(), "the difference is valid");
    typename T::P S = P;
    typename T::P &r = (S -= Q);
    CHECK(&r == &S, "-= returns its object");
    issum<T>(S, p, m, &c, "P -= Q is the difference");
    symx_reach("end");
}
template <class T> static void e03b()
{
    typename T::C c;
    Aff p = anypoint<T>("px", "py", symx_choose("pinf", 2));
    Aff o = Aff{0, 0, 1};
    typename T::P P = build<T>(p, &c), O;
    CHECK((P - P).isInf(), "P - P is the identity");
    typename T::P S = P;
    S -= S;
    CHECK(S.isInf(), "P -= P is the identity");
    CHECK(S.isValid(), "P - P is valid");
    same<T>(P - O, p, &c, "P - O is P");
    Aff m = neg<T>(p);
    typename T::P N = O - P;
    same<T>(N, m, &c, "O - P is the inverse");
    CHECK(N.isValid(), "O - P is valid");
    CHECK((N + P).isInf(), "(O - P) + P is the identity");
    CHECK((P + N).isInf(), "P + (O - P) is the identity");
    same<T>(O - N, p, &c, "O - (O - P) is P");
    typename T::P D = N.pointDouble();
    issum<T>(D, m, m, &c, "O - P can be doubled");
    if (!p.inf) CHECK(!(N == P), "P and its inverse differ");
    symx_reach("end");
}
// earlier operations on related points have no influence
template <class T> static void warm(const typename T::P &U, const typename T::P &V)
{
    typename T::P R = U + V, D = U.pointDouble(), S = U - V, A = U;
    A += V;
    A = U;
    A -= V;
    R.isValid(); D.isValid(); S.isValid(); A.isValid();
}
template <class T> static void e02h()
{
    typename T::C c, c2;
    Aff p = anypoint<T>("px", "py", 0), q = anypoint<T>("qx", "qy", 0), u, v;
    int rel = symx_choose("earlier", 7);
    if (rel == 0) u = p, v = neg<T>(q);
    if (rel == 1) u = neg<T>(p), v = q;
    if (rel == 2) u = neg<T>(q), v = neg<T>(p);
    if (rel == 3) u = q, v = p;
    if (rel == 4) u = anypoint<T>("ux", "uy", 0), v = q;
    if (rel == 5) u = p, v = anypoint<T>("ux", "uy", 0);
    if (rel == 6) u = p, v = q;
    typename T::C *cu = rel == 6 ? &c2 : &c;
    warm<T>(build<T>(u, cu), build<T>(v, cu));
    typename T::P P = build<T>(p, &c), Q = build<T>(q, &c), R;
    int op = symx_choose("op", 5);
    if (op == 0) { R = P + Q; issum<T>(R, p, q, &c, "P + Q is the sum"); }
    if (op == 1) { R = P.pointDouble(); issum<T>(R, p, p, &c, "pointDouble is P + P"); }
    if (op == 2) { R = P; R += Q; issum<T>(R, p, q, &c, "P += Q is the sum"); }
    Aff m = neg<T>(q);
    if (op == 3) { R = P - Q; issum<T>(R, p, m, &c, "P - Q is P plus the inverse of Q"); }
    if (op == 4) { R = P; R -= Q; issum<T>(R, p, m, &c, "P -= Q is the difference"); }
    symx_reach("end");
}
template <class T> static void e01h()
{
    typename T::C c;
    K<T> k;
    int how = symx_choose("earlier", 3);
    mpz_class x = symx_int("x", "0", T::p1()), y = symx_int("y", "0", T::p1()), u, v;
    if (how == 0)       // the same x-coordinate
    {
        v = symx_int("v", "0", T::p1());
        symx_oncurve(x.get_mpz_t(), v.get_mpz_t(), T::id);
        u = x;
    }
    if (how == 1)       // the same y-coordinate
    {
        u = symx_int("u", "0", T::p1());
        symx_oncurve(u.get_mpz_t(), y.get_mpz_t(), T::id);
        v = y;
    }
    if (how == 2) u = y, v = x;
    typename T::P W(u, v, &c), P(typename T::Fp(x), typename T::Fp(y), &c);
    bool w = W.isValid();
    if (how < 2) CHECK(w, "a point satisfying the equation is valid");
    bool ok = P.isValid();
    int on = eqmod(y * y, x * x * x + k.a * x + k.b, k.p);
    if (ok) { CHECK(on, "a valid point satisfies the equation"); symx_reach("valid"); }
    else { CHECK(!on, "a point satisfying the equation is valid"); symx_reach("invalid"); }
    CHECK(W.isValid() == w, "validity does not change");
}
// ---------------------------------------------------------------- E01
template <class T> static void e01()
{
    typename T::C c;
    K<T> k;
    int how = symx_choose("how", 3);
    mpz_class x, y;
    typename T::P P;
    if (how == 0)       // any coordinates in range, from field elements
    {
        x = symx_int("x", "0", T::p1());
        y = symx_int("y", "0", T::p1());
        P = typename T::P(typename T::Fp(x), typename T::Fp(y), &c);
    }
    else                // any integers, reduced by the constructor
    {
        x = symx_int("x", "-10000000000000000000000000000000000000000000000000000000000000000000000000000", "10000000000000000000000000000000000000000000000000000000000000000000000000000");
        y = symx_int("y", "-10000000000000000000000000000000000000000000000000000000000000000000000000000", "10000000000000000000000000000000000000000000000000000000000000000000000000000");
        P = typename T::P(x, y, how == 1 ? &c : nullptr);
    }
    CHECK(!P.isInf(), "a point with coordinates is finite");
    bool v = P.isValid();
    if (how == 2)
    {
        CHECK(!v, "a finite point without a curve is not valid");
        symx_reach("nocurve");
        return;
    }
    int on = eqmod(y * y, x * x * x + k.a * x + k.b, k.p);
    if (v) { CHECK(on, "a valid point satisfies the equation"); symx_reach("valid"); }
    else { CHECK(!on, "a point satisfying the equation is valid"); symx_reach("invalid"); }
    CHECK(eqmod(P.getX().getRawValue(), x, k.p), "x coordinate kept");
    CHECK(eqmod(P.getY().getRawValue(), y, k.p), "y coordinate kept");
    typename T::P O;
    CHECK(O.isInf() && O.isValid(), "the identity is valid");
}
template <class T> static void e01p()
{
    typename T::C c;
    K<T> k;
    CHECK(c.getPrime() == k.p, "prime");
    CHECK(eqmod(c.getA(), k.a, k.p), "a");
    CHECK(eqmod(c.getB(), k.b, k.p), "b");
    CHECK(c.getAField().getRawValue() == k.a, "a as a field element");
    CHECK(c.getBField().getRawValue() == k.b, "b as a field element");
    CHECK(c.getAField().getField() == k.p, "field of a");
    CHECK(c.getOrder() == k.n, "order");
    CHECK(typename T::Fp(1).getField() == k.p, "coordinate field");
    CHECK(typename T::Fn(1).getField() == k.n, "scalar field");
    typename T::P G = c.getDefaultGen();
    CHECK(!G.isInf() && G.isValid(), "the generator is valid");
    CHECK(G.curve == &c, "curve of the generator");
    CHECK(G.getX().getRawValue() == hex(T::gx()) && G.getY().getRawValue() == hex(T::gy()), "generator");
    typename T::P H((std::string(T::gx())), std::string(T::gy()), &c, 16);
    CHECK(H == G, "point from hexadecimal strings");
    mpz_class gx = hex(T::gx()), gy = hex(T::gy());
    typename T::P D(gx.get_str(10).c_str(), gy.get_str(10).c_str(), &c);
    CHECK(D == G, "point from decimal strings");
    symx_reach("end");
}
// n*G = O: (n-1)*G by the code's own double-and-add is the inverse of G, and adding G gives the identity
template <class T> static void e01o()
{
    typename T::C c;
    K<T> k;
    typename T::P G = c.getDefaultGen();
    typename T::P R = G * mpz_class(k.n - 1);
    CHECK(!R.isInf() && R.getX() == G.getX() && !(R.getY() == G.getY()), "(n-1) G is the inverse of G");
    CHECK((R + G).isInf(), "n G is the identity");
    CHECK((G * k.n).isInf(), "G * n is the identity");
    symx_reach("end");
}
// ---------------------------------------------------------------- E05
template <class T> static void e05()
{
    typename T::C c;
    K<T> k;
    Aff p = anypoint<T>("px", "py", 0);
    typename T::P P = build<T>(p, &c);
    mpz_class e = P.getEncodedX();
    CHECK(!ltz(e, 0), "encoded x is not negative");
    typename T::P Q;
    Q.curve = &c;
    Q.setEncodedX(e);
    same<T>(Q, p, &c, "decoding gives the point back");
    CHECK(Q == P, "decoding gives an equal point");
    same<T>(P, p, &c, "encoded point unchanged");
    CHECK(eqz(e / 2, p.x), "the encoding carries x");
    symx_reach("end");
}
template <class T> static void e05e()
{
    typename T::C c;
    K<T> k;
    mpz_class x;
    int any = symx_choose("any", 2);
    Aff p;
    if (any) x = symx_int("px", "0", T::p1());
    else { p = anypoint<T>("px", "py", 0); x = p.x; }
    symx_cubic(x.get_mpz_t(), T::id);
    typename T::Fp X(x);
    typename T::P A = c.evaluateP(X), B = c.evaluatePneg(X);
    typename T::Fp y2 = c.evaluatePy2(X);
    CHECK(eqmod(y2.getRawValue(), x * x * x + k.a * x + k.b, k.p), "evaluatePy2 is the cubic");
    CHECK(symx_and(!ltz(y2.getRawValue(), 0), ltz(y2.getRawValue(), k.p)), "evaluatePy2 is canonical");
    CHECK(eqz(X.getRawValue(), x), "argument unchanged");
    CHECK(A.isValid() && B.isValid(), "evaluators return valid points");
    if (!any)
    {
        CHECK(!A.isInf(), "evaluateP finds a point when one exists");
        CHECK(!B.isInf(), "evaluatePneg finds a point when one exists");
    }
    if (A.isInf() || B.isInf())
    {
        CHECK(A.isInf() && B.isInf(), "the evaluators agree on existence");
        symx_reach("none");
        return;
    }
    wellformed<T>(A, &c, "evaluateP returns a point of the curve");
    wellformed<T>(B, &c, "evaluatePneg returns a point of the curve");
    CHECK(eqz(A.getX().getRawValue(), x), "evaluateP keeps x");
    CHECK(eqz(B.getX().getRawValue(), x), "evaluatePneg keeps x");
    CHECK(eqmod(A.getY().getRawValue() + B.getY().getRawValue(), 0, k.p), "the two evaluations are inverse to each other");
    CHECK((A + B).isInf(), "the two evaluations sum to the identity");
    if (!any)
        CHECK(symx_or(eqz(A.getY().getRawValue(), p.y), eqz(B.getY().getRawValue(), p.y)), "one of the evaluations is the given point");
    symx_reach("found");
}
// encodings and evaluations after others
template <class T> static void e05h()
{
    typename T::C c, c2;
    K<T> k;
    Aff p = anypoint<T>("px", "py", 0);
    Aff u = symx_choose("earlier", 2) ? anypoint<T>("ux", "uy", 0) : neg<T>(p);
    typename T::P P = build<T>(p, &c), U = build<T>(u, &c2), V, Q;
    mpz_class e = U.getEncodedX();
    V.curve = &c2;
    V.setEncodedX(e);
    mpz_class f = P.getEncodedX();
    Q.curve = &c;
    Q.setEncodedX(f);
    same<T>(Q, p, &c, "decoding gives the point back");
    same<T>(V, u, &c2, "decoding gives the point back");
    V = Q;
    V.curve = &c;
    V.setEncodedX(e);
    same<T>(V, u, &c, "decoding into a used point");
    same<T>(Q, p, &c, "decoding gives the point back");
    symx_reach("end");
}
template <class T> static void e05g()
{
    typename T::C c, c2;
    K<T> k;
    Aff p = anypoint<T>("px", "py", 0), u = anypoint<T>("ux", "uy", 0);
    int how = symx_choose("earlier", 2);
    typename T::Fp X(p.x), U(u.x);
    typename T::C *w = how ? &c2 : &c;
    typename T::P E = w->evaluateP(U), F = w->evaluatePneg(U);
    typename T::P A = c.evaluateP(X), B = c.evaluatePneg(X);
    CHECK(eqmod(c.evaluatePy2(X).getRawValue(), p.x * p.x * p.x + k.a * p.x + k.b, k.p), "evaluatePy2 is the cubic");
    CHECK(!A.isInf() && !B.isInf() && !E.isInf() && !F.isInf(), "the evaluators find a point when one exists");
    if (A.isInf() || B.isInf() || E.isInf() || F.isInf()) return;
    wellformed<T>(A, &c, "evaluateP returns a point of the curve");
    wellformed<T>(B, &c, "evaluatePneg returns a point of the curve");
    wellformed<T>(E, w, "evaluateP returns a point of the curve");
    CHECK(symx_and(eqz(A.getX().getRawValue(), p.x), eqz(B.getX().getRawValue(), p.x)), "evaluators keep x");
    CHECK(symx_and(eqz(E.getX().getRawValue(), u.x), eqz(F.getX().getRawValue(), u.x)), "evaluators keep x");
    CHECK(eqmod(A.getY().getRawValue() + B.getY().getRawValue(), 0, k.p), "the two evaluations are inverse to each other");
    symx_reach("end");
}
// ---------------------------------------------------------------- E06 (points and curves)
template <class T> static void e06()
{
    typename T::C c, c2;
    Aff p = anypoint<T>("px", "py", symx_choose("pinf", 2));
    Aff q = anypoint<T>("qx", "qy", symx_choose("qinf", 2));
    int oc = symx_choose("othercurveobject", 2);
    typename T::P P = build<T>(p, &c), Q = build<T>(q, oc ? &c2 : &c);
    bool e = P == Q, f = Q == P;
    int want = p.inf && q.inf;
    if (!p.inf && !q.inf) want = symx_and(eqz(p.x, q.x), eqz(p.y, q.y));
    if (e) { CHECK(want, "equal points have equal contents"); symx_reach("equal"); }
    else { CHECK(!want, "points with equal contents are equal"); symx_reach("different"); }
    CHECK(e == f, "equality is symmetric");
    CHECK(P == P, "equality is reflexive");
    typename T::P A(P), B;
    B = P;
    CHECK(A == P && B == P, "copies are equal");
    P = Q;
    same<T>(A, p, &c, "copy constructed point is independent");
    same<T>(B, p, &c, "assigned point is independent");
    if (!q.inf) same<T>(P, q, oc ? &c2 : &c, "assignment copies the contents");
    A = A;
    same<T>(A, p, &c, "self-assignment keeps the point");
    symx_reach("end");
}
// points with an identity flag from an operation still equal the identity; coordinates do not matter
template <class T> static void e06i()
{
    typename T::C c;
    Aff p = anypoint<T>("px", "py", 0);
    typename T::P P = build<T>(p, &c), O;
    Aff m = neg<T>(p);
    typename T::P Z = P + build<T>(m, &c), N = P * mpz_class(0);
    CHECK(Z == O && O == Z && N == O && O == N && Z == N, "identities are equal however produced");
    CHECK(!(Z == P) && !(P == Z), "no finite point equals the identity");
    symx_reach("end");
}
template <class T> struct VC : T::C
{
    void set(int which, const mpz_class &v)
    {
        switch (which)
        {
        case 0: this->prime = v; break;
        case 1: this->a = v; break;
        case 2: this->b = v; break;
        case 3: this->order = v; break;
        case 4: this->cofactor = v; break;
        case 5: this->G = typename T::P(v, v, this); break;
        }
    }
    mpz_class get(int which)
    {
        switch (which)
        {
        case 0: return this->prime;
        case 1: return this->a;
        case 2: return this->b;
        case 3: return this->order;
        default: return this->cofactor;
        }
    }
};
template <class T> static void e06c()
{
    VC<T> a, b;
    CHECK(a == b, "two curves of the same kind are equal");
    int w = symx_choose("field", 6);
    mpz_class v = symx_int("v", "-ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff", "ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff");
    mpz_class old = w < 5 ? a.get(w) : mpz_class(0);
    b.set(w, v);
    bool e = a == b;
    CHECK(e == (b == a), "curve equality is symmetric");
    if (w == 5) { CHECK(e, "the generator does not matter"); symx_reach("generator"); return; }
    if (e) { CHECK(eqz(v, old), "equal curves have equal parameters"); symx_reach("equal"); }
    else { CHECK(!eqz(v, old), "curves with equal parameters are equal"); symx_reach("different"); }
    // points of different curves differ
    typename T::P G = a.getDefaultGen();
    typename T::P H(G.getX(), G.getY(), &b);
    CHECK((G == H) == e, "points on different curves differ");
}
// ---------------------------------------------------------------- E07
template <class T> static void e07s()
{
    typename T::C c;
    K<T> k;
    typename T::Fn s = c.getRandomScalar();
    mpz_class v = s.getRawValue();
    CHECK(symx_and(!ltz(v, 0), ltz(v, k.n)), "a random scalar is below the order");
    CHECK(eqz(s.getField(), k.n), "a random scalar is an element of the scalar field");
    symx_reach("end");
}
extern "C" {
void e01_secp() { e01<Tsecp>(); }
void e01_bn() { e01<Tbn>(); }
void e01p_secp() { e01p<Tsecp>(); }
void e01p_bn() { e01p<Tbn>(); }
void e01o_secp() { e01o<Tsecp>(); }
void e01o_bn() { e01o<Tbn>(); }
void e05_secp() { e05<Tsecp>(); }
void e05_bn() { e05<Tbn>(); }
void e05e_secp() { e05e<Tsecp>(); }
void e05e_bn() { e05e<Tbn>(); }
void e06_secp() { e06<Tsecp>(); }
void e06_bn() { e06<Tbn>(); }
void e06i_secp() { e06i<Tsecp>(); }
void e06i_bn() { e06i<Tbn>(); }
void e06c_secp() { e06c<Tsecp>(); }
void e06c_bn() { e06c<Tbn>(); }
void e07s_secp() { e07s<Tsecp>(); }
void e07s_bn() { e07s<Tbn>(); }
}
extern "C" {
void e02_secp() { e02<Tsecp>(); }
void e02_bn() { e02<Tbn>(); }
void e02d_secp() { e02d<Tsecp>(); }
void e02d_bn() { e02d<Tbn>(); }
void e03_secp() { e03<Tsecp>(); }
void e03_bn() { e03<Tbn>(); }
void e03b_secp() { e03b<Tsecp>(); }
void e03b_bn() { e03b<Tbn>(); }
void e01h_secp() { e01h<Tsecp>(); }
void e01h_bn() { e01h<Tbn>(); }
void e02h_secp() { e02h<Tsecp>(); }
void e02h_bn() { e02h<Tbn>(); }
void e05h_secp() { e05h<Tsecp>(); }
void e05h_bn() { e05h<Tbn>(); }
void e05g_secp() { e05g<Tsecp>(); }
void e05g_bn() { e05g<Tbn>(); }
}

// S01, S02: Shamir secret sharing
#include "symx.h"
#include "shamirss.hpp"
#include <vector>
#define NORD "ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551"
#define NORD1 "ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632550"
static mpz_class order() { return mpz_class(NORD, 16); }
static mpz_class modn(const mpz_class &a)
{
    mpz_class r, n = order();
    mpz_mod(r.get_mpz_t(), a.get_mpz_t(), n.get_mpz_t());
    return r;
}
static mpz_class inverse(const mpz_class &a)
{
    mpz_class r, n = order();
    mpz_invert(r.get_mpz_t(), a.get_mpz_t(), n.get_mpz_t());
    return r;
}
static sss::share_v_t deal(size_t t, size_t n, const mpz_class &s)
{
    sss::ShamirSS x;
    return x.getShares(t, n, sss::FIELD(s));
}
static void indices(const sss::share_v_t &v, size_t n)
{
    CHECK(v.size() == n, "one share per party");
    int ok = 1;
    for (size_t i = 0; i < v.size(); i++)
    {
        ok = symx_and(ok, !eqz(v[i].idx.getRawValue(), 0));
        for (size_t j = 0; j < i; j++) ok = symx_and(ok, !eqz(v[i].idx.getRawValue(), v[j].idx.getRawValue()));
    }
    CHECK(ok, "shares carry distinct non-zero indices");
}
static mpz_class recon(const sss::share_v_t &v)
{
    sss::ShamirSS x;
    return x.reconSecret(v).getRawValue();
}

// every ordered selection of at least t shares
static void s01(size_t t, size_t n)
{
    mpz_class s = symx_int("secret", "0", NORD1);
    sss::share_v_t v = deal(t, n, s);
    indices(v, n);
    if (v.size() != n) return;
    sss::share_v_t w;
    bool used[16] = {};
    size_t k = t + symx_choose("extra", (int)(n - t + 1));
    static const char *nm[8] = {"p0", "p1", "p2", "p3", "p4", "p5", "p6", "p7"};
    for (size_t i = 0; i < k; i++)
    {
        int c = symx_choose(nm[i], (int)(n - i));
        for (size_t j = 0; j < n; j++)
            if (!used[j] && c-- == 0) { w.push_back(v[j]); used[j] = true; break; }
    }
    CHECK(eqz(recon(w), s), "any t shares in any order give the secret");
    symx_reach("end");
}
// dealings after others: each gives its own secret
static void s01h()
{
    static const int T[6] = {2, 3, 1, 4, 2, 3}, N[6] = {3, 4, 3, 4, 3, 4};
    static const char *ns[3] = {"secret", "secret2", "secret3"}, *nk[3] = {"first", "second", "third"};
    mpz_class s[3];
    sss::share_v_t v[3];
    size_t t[3], n[3];
    bool one = symx_choose("object", 2);
    sss::ShamirSS x;
    for (int i = 0; i < 3; i++)
    {
        s[i] = symx_int(ns[i], "0", NORD1);
        int k = symx_choose(nk[i], 4);
        t[i] = (size_t)T[k], n[i] = (size_t)N[k];
        v[i] = one ? x.getShares(t[i], n[i], sss::FIELD(s[i])) : deal(t[i], n[i], s[i]);
        indices(v[i], n[i]);
        if (v[i].size() != n[i]) return;
    }
    int from = symx_choose("from", 2);
    for (int i = 2; i >= 0; i--)
    {
        sss::share_v_t w;
        for (size_t j = 0; j < t[i]; j++) w.push_back(v[i][from ? n[i] - 1 - j : j]);
        CHECK(eqz(one ? x.reconSecret(w).getRawValue() : recon(w), s[i]), "any t shares in any order give the secret");
    }
    symx_reach("end");
}
// larger parameters: windows, strides and reversals
static void s01big(size_t t, size_t n)
{
    mpz_class s = symx_int("secret", "0", NORD1);
    sss::share_v_t v = deal(t, n, s);
    indices(v, n);
    if (v.size() != n) return;
    int how = symx_choose("selection", 5);
    sss::share_v_t w;
    for (size_t i = 0; i < t; i++)
    {
        size_t j = how == 0 ? i : how == 1 ? n - 1 - i : how == 2 ? n - t + i : how == 3 ? (i * 7 + 3) % n : i;
        w.push_back(v[j]);
    }
    if (how == 4) w = v;
    CHECK(eqz(recon(w), s), "any t shares in any order give the secret");
    symx_reach("end");
}
// any polynomial of degree below t at any t distinct non-zero places
static void s01sym(size_t t)
{
    static const char *nx[4] = {"x0", "x1", "x2", "x3"}, *nc[4] = {"c0", "c1", "c2", "c3"};
    mpz_class x[4], c[4];
    sss::share_v_t w;
    int ok = 1;
    for (size_t i = 0; i < t; i++)
    {
        x[i] = symx_int(nx[i], "1", NORD1);
        c[i] = symx_int(nc[i], "0", NORD1);
        for (size_t j = 0; j < i; j++) ok = symx_and(ok, !eqz(x[i], x[j]));
    }
    symx_assume(ok);
    for (size_t i = 0; i < t; i++)
    {
        mpz_class y;
        for (size_t j = t; j-- > 0;) y = modn(y * x[i] + c[j]);
        w.push_back(sss::share_t(sss::FIELD(x[i]), sss::FIELD(y)));
    }
    CHECK(eqz(recon(w), c[0]), "interpolation at zero gives the constant coefficient");
    symx_reach("end");
}
// S02: t - 1 shares of one secret are possible for every other secret
static void s02(size_t t, size_t n, int mode, bool earlier = false)
{
    if (earlier)
    {
        // earlier dealings, known entirely
        mpz_class s = symx_int("secret0", "0", NORD1);
        size_t a = symx_choose("t0", 3);
        sss::share_v_t v = deal(t + 1 - a, n + 1, s), w = deal(t, n, s);
        recon(v);
        recon(w);
    }
    mpz_class s = symx_int("secret", "0", NORD1), s2 = symx_int("secret2", "0", NORD1);
    // which t-1 shares
    std::vector<size_t> sel;
    if (mode == 0)
    {
        static const char *nm[8] = {"q0", "q1", "q2", "q3", "q4", "q5", "q6", "q7"};
        size_t from = 0;
        for (size_t i = 0; i + 1 < t; i++)
        {
            size_t room = n - from - (t - 2 - i);
            from += symx_choose(nm[i], (int)room);
            sel.push_back(from++);
        }
    }
    else
        for (size_t i = 0; i + 1 < t; i++) sel.push_back(mode == 1 ? i : n - 1 - 2 * i);
    size_t n0 = symx_drawn();
    sss::share_v_t v = deal(t, n, s);
    size_t n1 = symx_drawn(), k = n1 - n0;
    CHECK(v.size() == n, "one share per party");
    if (v.size() != n) return;
    std::vector<mpz_class> r(k), z(k);
    for (size_t i = 0; i < k; i++)
    {
        mpz_class b;
        symx_drawbound(b.get_mpz_t(), n0 + i);
        CHECK(b == order(), "coefficients are drawn from the whole field");
        std::string nm = "r" + std::to_string(i);
        r[i] = symx_int(nm.c_str(), "0", NORD1);
    }
    mpz_class none;
    mpz_srcptr zp = k ? z[0].get_mpz_t() : none.get_mpz_t();
    // effect of the secret and of every coefficient on the selected shares
    std::vector<std::vector<mpz_class> > M(t - 1, std::vector<mpz_class>(k + 1));
    for (size_t j = 0; j <= k; j++)
    {
        for (size_t i = 0; i < k; i++) z[i] = i == j ? 1 : 0;
        symx_script(zp, k, "coefficients");
        sss::share_v_t x = deal(t, n, j == k ? 1 : 0);
        symx_unscript();
        for (size_t i = 0; i + 1 < t; i++) M[i][j] = x[sel[i]].val.getRawValue();
    }
    // w with M w = (effect of the secret)
    std::vector<std::vector<mpz_class> > A = M;
    std::vector<int> piv(k, -1);
    size_t row = 0;
    for (size_t j = 0; j < k && row + 1 < t; j++)
    {
        size_t p = row;
        while (p + 1 < t && modn(A[p][j]) == 0) p++;
        if (p + 1 >= t) continue;
        std::swap(A[p], A[row]);
        mpz_class inv = inverse(A[row][j]);
        for (size_t c = 0; c <= k; c++) A[row][c] = modn(A[row][c] * inv);
        for (size_t i = 0; i + 1 < t; i++)
            if (i != row)
            {
                mpz_class f = A[i][j];
                for (size_t c = 0; c <= k; c++) A[i][c] = modn(A[i][c] - f * A[row][c]);
            }
        piv[j] = (int)row++;
    }
    bool solvable = true;
    for (size_t i = row; i + 1 < t; i++)
        if (A[i][k] != 0) solvable = false;
    CHECK(solvable, "t-1 shares do not determine the secret");
    if (!solvable) return;
    mpz_class d = s - s2;
    std::vector<mpz_class> r2(k);
    for (size_t j = 0; j < k; j++) r2[j] = modn(r[j] + (piv[j] >= 0 ? mpz_class(d * A[piv[j]][k]) : mpz_class(0)));
    symx_script(k ? r[0].get_mpz_t() : none.get_mpz_t(), k, "coefficients");
    sss::share_v_t a = deal(t, n, s);
    symx_unscript();
    symx_script(k ? r2[0].get_mpz_t() : none.get_mpz_t(), k, "the other secret's coefficients are possible");
    sss::share_v_t b = deal(t, n, s2);
    symx_unscript();
    int same = a.size() == n && b.size() == n;
    for (size_t i = 0; same && i + 1 < t; i++)
    {
        if (!eqz(a[sel[i]].val.getRawValue(), b[sel[i]].val.getRawValue())) same = 0;
        else if (!eqz(a[sel[i]].idx.getRawValue(), b[sel[i]].idx.getRawValue())) same = 0;
    }
    CHECK(same, "t-1 shares of one secret are possible shares of any other");
    symx_reach("end");
}
#define S01(t, n) void s01_##t##_##n() { s01(t, n); }
#define S01B(t, n) void s01b_##t##_##n() { s01big(t, n); }
#define S02(t, n) void s02_##t##_##n() { s02(t, n, 0); }
#define S02B(t, n) void s02b_##t##_##n() { s02(t, n, 1 + symx_choose("selection", 2)); }
extern "C" {
S01(1, 1) S01(1, 2) S01(1, 3) S01(1, 4) S01(2, 2) S01(2, 3) S01(2, 4) S01(3, 3) S01(3, 4) S01(4, 4)
S01(1, 5) S01(2, 5) S01(3, 5) S01(4, 5) S01(5, 5) 
S01(3, 6) S01(4, 6) S01(5, 6) S01(6, 6)
S01B(6, 10) S01B(8, 8) S01B(10, 20) S01B(16, 33) S01B(40, 64)
void s01_h() { s01h(); }
// one object dealing and reconstructing several secrets
void s01r()
{
    sss::ShamirSS x;
    mpz_class s = symx_int("secret", "0", NORD1), s2 = symx_int("secret2", "0", NORD1);
    sss::share_v_t v = x.getShares(3, 5, sss::FIELD(s)), w = x.getShares(2, 3, sss::FIELD(s2));
    indices(w, 3);
    sss::share_v_t a, b;
    for (int i = 4; i >= 2; i--) a.push_back(v[i]);
    b.push_back(w[2]);
    b.push_back(w[0]);
    CHECK(eqz(x.reconSecret(b).getRawValue(), s2), "any t shares in any order give the secret");
    CHECK(eqz(x.reconSecret(a).getRawValue(), s), "shares dealt earlier give their secret");
    CHECK(eqz(x.reconSecret(b).getRawValue(), s2), "reconstruction can be repeated");
    symx_reach("end");
}
void s01s_1() { s01sym(1); }
void s01s_2() { s01sym(2); }
void s01s_3() { s01sym(3); }
void s01s_4() { s01sym(4); }
S02(2, 2) S02(2, 3) S02(2, 5) S02(3, 3) S02(3, 5) S02(4, 4) S02(4, 6) S02(5, 5) S02(5, 7) S02(6, 8)
void s02h_2_3() { s02(2, 3, 0, true); }
void s02h_3_4() { s02(3, 4, 0, true); }
void s02h_5_6() { s02(5, 6, 1, true); }
S02B(8, 16) S02B(10, 20) S02B(16, 33)
}

// Native side of symx.h: replays a concrete assignment against the real code.
#include "symx.h"
#include <cstdio>
#include <dlfcn.h>
#include <cstdlib>
#include <cstring>
#include <map>
#include <vector>
#include <string>

static std::map<std::string, std::string> vals;
static std::vector<std::string> draws;
static size_t ndraw;
static int failed;

struct Init
{
    Init()
    {
        const char *f = getenv("SYMX_REPLAY");
        if (!f) return;
        FILE *h = fopen(f, "r");
        if (!h) { fprintf(stderr, "no replay file\n"); exit(99); }
        char *line = nullptr;
        size_t cap = 0;
        while (getline(&line, &cap, h) > 0)
        {
            char *v = strchr(line, ' ');
            if (!v || line[0] == '#') continue;
            *v++ = 0;
            v[strcspn(v, "\n")] = 0;
            if (!strcmp(line, "draw")) draws.push_back(v);
            else vals[line] = v;
        }
        fclose(h);
    }
};
static Init &init() { static Init i; return i; }
static const char *get(const char *n, const char *dflt)
{
    init();
    auto it = vals.find(n);
    return it == vals.end() ? dflt : it->second.c_str();
}

extern "C" {
void symx_mpz(mpz_ptr r, const char *name, const char *lo, const char *)
{
    if (mpz_set_str(r, get(name, lo), 16)) { fprintf(stderr, "bad value for %s\n", name); exit(99); }
}
uint64_t symx_word(const char *name, uint64_t lo, uint64_t)
{
    const char *v = get(name, nullptr);
    return v ? strtoull(v, 0, 16) : lo;
}
int symx_choose(const char *name, int)
{
    return (int)strtol(get(name, "0"), 0, 16);
}
void symx_bytes(void *p, size_t n, const char *name)
{
    for (size_t i = 0; i < n; i++)
    {
        std::string k = std::string(name) + "[" + std::to_string(i) + "]";
        ((uint8_t *)p)[i] = (uint8_t)strtoul(get(k.c_str(), "0"), 0, 16);
    }
}
void symx_bits(mpz_ptr r, const char *name, int)
{
    mpz_set_str(r, get(name, "0"), 16);
}
int symx_pick(const char *, uint64_t v, uint64_t lo, uint64_t) { (void)lo; return (int)v; }
void symx_assume(int c)
{
    if (!c) { printf("ASSUMPTION-FALSE\n"); fflush(stdout); _Exit(failed ? 1 : 77); }
}
void symx_check(int c, const char *label)
{
    if (!c) { printf("FAILED %s\n", label); fflush(stdout); failed = 1; }
}
void symx_fail(const char *label) { symx_check(0, label); }
void symx_reach(const char *label) { printf("REACHED %s\n", label); }
uint32_t symx_crc32c(uint32_t crc, const void *p, size_t n)
{
    for (size_t i = 0; i < n; i++)
    {
        crc ^= ((const uint8_t *)p)[i];
        for (int k = 0; k < 8; k++) crc = crc & 1 ? crc >> 1 ^ 0x82F63B78 : crc >> 1;
    }
    return crc;
}
int symx_symbolic(void) { return 0; }
void symx_uninit(void *, size_t) {}
int symx_and(int a, int b) { return a && b; }
int symx_or(int a, int b) { return a || b; }
int symx_mod_eq(mpz_srcptr a, mpz_srcptr b, mpz_srcptr m) { return mpz_congruent_p(a, b, m) != 0; }
int symx_mpz_eq(mpz_srcptr a, mpz_srcptr b) { return mpz_cmp(a, b) == 0; }
int symx_mpz_lt(mpz_srcptr a, mpz_srcptr b) { return mpz_cmp(a, b) < 0; }
int symx_ite(int c, int a, int b) { return c ? a : b; }

// ---- the two curves, written independently of the code under test
struct Cv { mpz_t p, a, b, n, gx, gy; };
static Cv *cv(int id)
{
    static Cv c[2];
    static bool done;
    if (!done)
    {
        static const char *s[2][6] = {
            {"ffffffff00000001000000000000000000000000ffffffffffffffffffffffff", "ffffffff00000001000000000000000000000000fffffffffffffffffffffffc",
             "5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b", "ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551",
             "6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296", "4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5"},
            {"2523648240000001BA344D80000000086121000000000013A700000000000013", "0", "2",
             "2523648240000001BA344D8000000007FF9F800000000010A10000000000000D",
             "2523648240000001BA344D80000000086121000000000013A700000000000012", "1"}};
        for (int i = 0; i < 2; i++)
        {
            mpz_t *m[6] = {&c[i].p, &c[i].a, &c[i].b, &c[i].n, &c[i].gx, &c[i].gy};
            for (int j = 0; j < 6; j++) mpz_init_set_str(*m[j], s[i][j], 16);
        }
        done = true;
    }
    return &c[id];
}
struct Pt { mpz_class x, y; bool inf; };
static mpz_class md(const mpz_class &v, Cv *c) { mpz_class r; mpz_mod(r.get_mpz_t(), v.get_mpz_t(), c->p); return r; }
static Pt padd(const Pt &P, const Pt &Q, Cv *c)
{
    if (P.inf) return Q;
    if (Q.inf) return P;
    mpz_class num, den, i;
    if (P.x == Q.x)
    {
        if (md(P.y + Q.y, c) == 0) return Pt{0, 0, true};
        num = 3 * P.x * P.x + mpz_class(c->a);
        den = 2 * P.y;
    }
    else { num = Q.y - P.y; den = Q.x - P.x; }
    den = md(den, c);
    mpz_invert(i.get_mpz_t(), den.get_mpz_t(), c->p);
    mpz_class l = md(num * i, c);
    Pt R;
    R.inf = false;
    R.x = md(l * l - P.x - Q.x, c);
    R.y = md(l * (P.x - R.x) - P.y, c);
    return R;
}
void symx_oncurve(mpz_srcptr x, mpz_srcptr y, int id)
{
    Cv *c = cv(id);
    mpz_class X(x), Y(y);
    symx_assume(md(Y * Y - (X * X * X + mpz_class(c->a) * X + mpz_class(c->b)), c) == 0);
}
void symx_cubic(mpz_srcptr, int) {}
void symx_probe(int, const void *, const void *, size_t, const void *, const void *, size_t) {}
int symx_mul(mpz_ptr x, mpz_ptr y, mpz_srcptr f, const char *name, int id)
{
    Cv *c = cv(id);
    mpz_class k;
    mpz_set_str(k.get_mpz_t(), get(name, "0"), 16);
    k *= mpz_class(f);
    mpz_mod(k.get_mpz_t(), k.get_mpz_t(), c->n);
    Pt R{0, 0, true}, B{mpz_class(c->gx), mpz_class(c->gy), false};
    for (size_t i = mpz_sizeinbase(k.get_mpz_t(), 2) + 1; i-- > 0;)
    {
        R = padd(R, R, c);
        if (mpz_tstbit(k.get_mpz_t(), i)) R = padd(R, B, c);
    }
    mpz_set(x, R.x.get_mpz_t());
    mpz_set(y, R.y.get_mpz_t());
    return R.inf;
}
int symx_point(mpz_ptr x, mpz_ptr y, const char *name, int id)
{
    return symx_mul(x, y, mpz_class(1).get_mpz_t(), name, id);
}

static std::vector<mpz_class> script, bounds;
static bool scripted;
static const char *scriptlabel;
static size_t scriptpos;
void symx_script(mpz_srcptr v, size_t n, const char *label)
{
    scripted = true;
    scriptpos = 0;
    scriptlabel = label;
    script.clear();
    for (size_t i = 0; i < n; i++) script.push_back(mpz_class(v + i));
}
void symx_unscript(void) { scripted = false; }
size_t symx_drawn(void) { return bounds.size(); }
void symx_drawbound(mpz_ptr r, size_t i) { mpz_set(r, bounds[i].get_mpz_t()); }
void symx_dlog(mpz_ptr r, const char *name, mpz_srcptr x, mpz_srcptr y, int id)
{
    mpz_class X, Y;
    mpz_set_str(r, get(name, "0"), 16);
    symx_mul(X.get_mpz_t(), Y.get_mpz_t(), mpz_class(1).get_mpz_t(), name, id);
    if (mpz_cmp(X.get_mpz_t(), x) || mpz_cmp(Y.get_mpz_t(), y)) { printf("unknown discrete logarithm\n"); fflush(stdout); _Exit(failed ? 1 : 99); }
}

// a generator in place of the values of the replay file
// how often a run with free random values is repeated
int symx_repeats(int n) { return getenv("SYMX_TRACE") ? 1 : n; }
static bool freerun;
static unsigned long long freex;
static unsigned long nrand;
static std::vector<mpz_class> drawn;
static bool repeating;
static size_t rbase, rfrom, rexcept;
void symx_again(size_t from, size_t except) { repeating = true; rbase = bounds.size(); rfrom = from; rexcept = except; nrand = 0; }
void symx_unagain(void) { repeating = false; }
void symx_drawval(mpz_ptr r, size_t i) { mpz_set(r, drawn.at(i).get_mpz_t()); }
void symx_free(unsigned long seed)
{
    freerun = true;
    nrand = 0;
    freex = 88172645463325252ULL * (2 * seed + 1);
}
// the random source follows the replay file, then continues with zeros
static void nextdraw(mpz_ptr r, const mpz_class &bound)
{
    init();
    bounds.push_back(bound);
    if (scripted)
    {
        mpz_set_ui(r, 0);
        if (scriptpos < script.size())
        {
            mpz_class &v = script[scriptpos++];
            symx_check(v >= 0 && v < bound, scriptlabel);
            mpz_set(r, v.get_mpz_t());
        }
        return;
    }
    if (freerun)
    {
        mpz_set_ui(r, 0);
        for (size_t i = 0; i < mpz_sizeinbase(bound.get_mpz_t(), 2) / 16 + 5; i++)
        {
            freex ^= freex << 13; freex ^= freex >> 7; freex ^= freex << 17;
            mpz_mul_2exp(r, r, 16);
            mpz_add_ui(r, r, (freex >> 24) & 0xffff);
        }
        mpz_mod(r, r, bound.get_mpz_t());
        size_t i = bounds.size() - 1;
        drawn.resize(i);
        size_t o = i - rbase + rfrom;
        if (repeating && o != rexcept && o < drawn.size() && bounds[o] == bound) mpz_set(r, drawn[o].get_mpz_t());
        drawn.push_back(mpz_class(r));
        return;
    }
    if (ndraw < draws.size()) mpz_set_str(r, draws[ndraw].c_str(), 16);
    else mpz_set_ui(r, 0);
    ndraw++;
}
void __gmpz_urandomm(mpz_ptr r, gmp_randstate_ptr, mpz_srcptr n)
{
    mpz_t t, m;
    mpz_init(t);
    mpz_init_set(m, n);
    nextdraw(t, mpz_class(n));
    mpz_mod(r, t, m);
    mpz_clear(t);
    mpz_clear(m);
}
void __gmpz_urandomb(mpz_ptr r, gmp_randstate_ptr, mp_bitcnt_t n)
{
    mpz_t t;
    mpz_init(t);
    nextdraw(t, mpz_class(1) << n);
    mpz_fdiv_r_2exp(r, t, n);
    mpz_clear(t);
}
static unsigned long drawui(const mpz_class &b)
{
    mpz_t t;
    mpz_init(t);
    nextdraw(t, b);
    unsigned long v = mpz_get_ui(t);
    mpz_clear(t);
    return v;
}
unsigned long __gmp_urandomm_ui(gmp_randstate_ptr, unsigned long n) { return drawui(n) % n; }
unsigned long __gmp_urandomb_ui(gmp_randstate_ptr, unsigned long n) { return drawui(mpz_class(1) << n) & ((n < 64 ? 1UL << n : 0) - 1); }
static int permuted() { return symx_choose((nrand++ / 2) % 2 ? "perm2" : "perm", 6); }
int rand(void) throw() { if (freerun) return permuted(); return (int)(drawui(mpz_class(1) << 31) & 0x7fffffff); }
long random(void) throw() { return (long)(drawui(mpz_class(1) << 31) & 0x7fffffff); }
}

int main(int argc, char **argv)
{
    init();
    void (*f)(void) = (void (*)(void))(argc > 1 ? dlsym(RTLD_DEFAULT, argv[1]) : nullptr);
    if (!f) { fprintf(stderr, "no entry\n"); return 99; }
    f();
    fflush(stdout);
    if (failed) return 1;
    printf("OK\n");
    return 0;
}

extern "C" void symx_pointobj(void *, const char *, int, void *) { abort(); }

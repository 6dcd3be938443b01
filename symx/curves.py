"""Parameters of the two curves and concrete affine arithmetic (oracle side)."""


class Curve:
    def __init__(self, id, p, a, b, n, gx, gy):
        self.id, self.p, self.a, self.b, self.n, self.gx, self.gy = id, p, a, b, n, gx, gy
        self.cache = {}
        self._root = None

    def add(self, P, Q):
        if P is None:
            return Q
        if Q is None:
            return P
        p = self.p
        if P[0] == Q[0]:
            if (P[1] + Q[1]) % p == 0:
                return None
            l = (3 * P[0] * P[0] + self.a) * pow(2 * P[1], -1, p) % p
        else:
            l = (Q[1] - P[1]) * pow(Q[0] - P[0], -1, p) % p
        x = (l * l - P[0] - Q[0]) % p
        return x, (l * (P[0] - x) - P[1]) % p

    def mul(self, k):
        """k*G (Jacobian-free, cached)"""
        k %= self.n
        r = self.cache.get(k, 0)
        if r != 0:
            return r
        R = None
        B = (self.gx, self.gy)
        pw = self.cache.setdefault('pow', [B])
        i = 0
        kk = k
        while kk:
            if i >= len(pw):
                pw.append(self.add(pw[-1], pw[-1]))
            if kk & 1:
                R = self.add(R, pw[i])
            kk >>= 1
            i += 1
        self.cache[k] = R
        return R

    def noroot(self):
        """x^3+ax+b has no root modulo p (no point with y = 0)"""
        if self._root is None:
            from . import ff
            p = self.p
            f = [self.b % p, self.a % p, 0, 1]
            xp = ff.upoly_powmod([0, 1], p, f, p)
            d = list(xp) + [0] * (2 - len(xp))
            d[1] = (d[1] - 1) % p
            g = ff.upoly_gcd(f, ff.upoly_trim(d), p)
            self._root = len(g) == 1
        return self._root


CURVES = [
    Curve(0, 0xffffffff00000001000000000000000000000000ffffffffffffffffffffffff,
          0xffffffff00000001000000000000000000000000fffffffffffffffffffffffc,
          0x5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b,
          0xffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551,
          0x6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296,
          0x4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5),
    Curve(1, 0x2523648240000001BA344D80000000086121000000000013A700000000000013, 0, 2,
          0x2523648240000001BA344D8000000007FF9F800000000010A10000000000000D,
          0x2523648240000001BA344D80000000086121000000000013A700000000000012, 1),
]

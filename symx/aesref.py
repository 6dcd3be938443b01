"""AES block encryption, for making counterexamples concrete."""


def _xt(a):
    a <<= 1
    return (a ^ 0x11b) & 0xff if a & 0x100 else a


def _sbox():
    p = q = 1
    s = [0] * 256
    while True:
        p = p ^ _xt(p)
        q ^= q << 1
        q ^= q << 2
        q ^= q << 4
        q &= 0xff
        if q & 0x80:
            q ^= 0x09
        x = q ^ (q << 1 | q >> 7) ^ (q << 2 | q >> 6) ^ (q << 3 | q >> 5) ^ (q << 4 | q >> 4)
        s[p] = (x ^ 0x63) & 0xff
        if p == 1:
            break
    s[0] = 0x63
    return s


S = _sbox()


def encrypt(key, block):
    """key, block: bytes"""
    nk = len(key) // 4
    nr = nk + 6
    w = [list(key[4 * i:4 * i + 4]) for i in range(nk)]
    rc = 1
    for i in range(nk, 4 * (nr + 1)):
        t = list(w[-1])
        if i % nk == 0:
            t = [S[x] for x in t[1:] + t[:1]]
            t[0] ^= rc
            rc = _xt(rc)
        elif nk > 6 and i % nk == 4:
            t = [S[x] for x in t]
        w.append([a ^ b for a, b in zip(w[i - nk], t)])
    rk = [sum(w[4 * r:4 * r + 4], []) for r in range(nr + 1)]
    s = [a ^ b for a, b in zip(block, rk[0])]
    for r in range(1, nr + 1):
        s = [S[x] for x in s]
        s = [s[(i + 4 * (i % 4)) % 16] for i in range(16)]
        if r < nr:
            o = []
            for c in range(4):
                a = s[4 * c:4 * c + 4]
                t = a[0] ^ a[1] ^ a[2] ^ a[3]
                o += [a[i] ^ t ^ _xt(a[i] ^ a[(i + 1) % 4]) for i in range(4)]
            s = o
        s = [a ^ b for a, b in zip(s, rk[r])]
    return bytes(s)


def block(klen, key, ctr):
    return int.from_bytes(encrypt(key.to_bytes(klen, 'big'), ctr.to_bytes(16, 'big')), 'big')


if __name__ == '__main__':
    k = bytes(range(16))
    assert encrypt(k, bytes.fromhex('00112233445566778899aabbccddeeff')).hex() == '69c4e0d86a7b0430d8cdb78070b4c55a'
    k = bytes(range(32))
    assert encrypt(k, bytes.fromhex('00112233445566778899aabbccddeeff')).hex() == '8ea2b7ca516745bfeafc49904b496089'
    print('ok')

"""A finite abstraction of characters: every ASCII character by itself, and for the rest one
representative of each combination of classes that the tests on characters can tell apart.

Whether a character is in a class is known exactly for ASCII.  Outside ASCII a character is only
compared with constants by facts that leave both answers open.

Numerals that Unicode also counts as letters (Roman numeral signs and the like) are left out of the
domain: the properties say nothing about them."""
import unicodedata

OTHER = [0xE9, 0xC9, 0x4E2D, 0x967, 0xB2, 0xA0, 0x85, 0x3000, 0x20AC, 0x80, 0xFEFF]
DOMAIN = list(range(128)) + OTHER
FULL = (1 << len(DOMAIN)) - 1
HIGH = FULL & ~((1 << 128) - 1)

_WS = set([9, 10, 11, 12, 13, 32, 0x85, 0xA0, 0x1680, 0x2028, 0x2029, 0x202F, 0x205F, 0x3000]) | set(range(0x2000, 0x200B))


def pred(p, c):
    """is character number c in class p"""
    if p == "ws":
        return c in _WS
    if p.startswith("a_"):
        if c >= 128:
            return False
        ch = chr(c)
        k = p[2:]
        if k == "ascii":
            return True
        if k == "digit":
            return ch.isdigit()
        if k == "alpha":
            return ch.isalpha()
        if k == "alnum":
            return ch.isalnum()
        if k == "lower":
            return ch.islower()
        if k == "upper":
            return ch.isupper()
        if k == "ws":
            return c in (9, 10, 12, 13, 32)
        if k == "hex":
            return ch in "0123456789abcdefABCDEF"
        if k == "punct":
            return 33 <= c < 127 and not ch.isalnum()
        if k == "graphic":
            return 33 <= c < 127
        if k == "ctrl":
            return c < 32 or c == 127
    ch = chr(c)
    cat = unicodedata.category(ch)
    if p == "alpha":
        return ch.isalpha() or cat == "Nl"
    if p == "num":
        return cat in ("Nd", "Nl", "No")
    if p == "ctrl":
        return cat == "Cc"
    if p == "upper":
        return ch.isupper()
    if p == "lower":
        return ch.islower()
    raise AssertionError(p)


_masks = {}


def cmask(p):
    m = _masks.get(p)
    if m is None:
        m = _masks[p] = sum(1 << i for i, c in enumerate(DOMAIN) if pred(p, c))
    return m


def test(a, lin):
    """(atom of the character, characters for which the test may hold, those for which it may fail), or None;
    lin: the linear form of the tested expression"""
    if a[0] == "cp":
        l = lin
        if l is None or l[0] != 0 or len(l[1]) != 1:
            return None
        (k, v), = l[1].items()
        if v != 1:
            return None
        m = cmask(a[1])
        return k, m, FULL & ~m
    if lin is None or len(lin[1]) != 1:
        return None
    c, d = lin
    (k, v), = d.items()
    if not (isinstance(k, tuple) and len(k) == 4 and k[0] == "el" and k[3] == "char"):
        return None
    if abs(v) != 1 or c.denominator != 1:
        return None
    key = (a[0], int(v), int(c))
    r = _masks.get(key)
    if r is None:
        t = 0
        for i in range(128):
            x = v * i + c
            if (x == 0 if a[0] == "eq0" else x < 0):
                t |= 1 << i
        f = ((1 << 128) - 1) & ~t
        if a[0] == "eq0":
            if 0 <= -c * v < 128:
                f |= HIGH
            else:
                t |= HIGH
                f |= HIGH
        else:
            # v*x + c < 0 for every x >= 128, or for none
            if v > 0:
                if 128 + c >= 0:
                    f |= HIGH
                else:
                    t |= HIGH
                    f |= HIGH
            else:
                if -128 + c < 0:
                    t |= HIGH
                else:
                    t |= HIGH
                    f |= HIGH
        r = _masks[key] = (t, f)
    return (k,) + r

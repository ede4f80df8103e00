"""Simulated parties with fixed keys, reached through the public loading interface."""
import json
import os

from Crypto.PublicKey import RSA

from . import seams

_PEMS = json.load(open(os.path.join(os.path.dirname(__file__), "keys.json")))
_RSA = {}
_STR = {}
PW = "simulated party"


def rsa(i):
    """The reference copy of key i (never handed to the code under test)."""
    i %= len(_PEMS)
    if i not in _RSA:
        with seams.RNG.aside():  # (the checks of an imported key draw random numbers)
            _RSA[i] = RSA.import_key(_PEMS[i])
    return _RSA[i]


def pub(i):
    return rsa(i).publickey().export_key()


def key_string(i, nickname):
    """Key i in the saved form the library documents."""
    i %= len(_PEMS)
    if i not in _STR:
        iv = [i + 1]

        def det(n):  # fixed salt: the text must be the same in every process
            iv[0] += 1
            return bytes((iv[0] * 31 + j) % 256 for j in range(n))

        with seams.RNG.aside():
            _STR[i] = rsa(i).export_key(passphrase=PW, randfunc=det).hex()
    return json.dumps({"nickname": nickname, "public_key": pub(i).decode(), "private_key": _STR[i]})


def party(P, i, cls="RsaKeyPair", nickname=None):
    return getattr(P, cls).from_key_string(key_string(i, "party%d" % i if nickname is None else nickname), PW)


def same_public(a, b):
    """Whether two serialized keys name the same public key."""
    try:
        with seams.RNG.aside():
            x, y = RSA.import_key(a), RSA.import_key(b)
    except (ValueError, IndexError, TypeError):
        return False
    return (x.n, x.e) == (y.n, y.e)


def near_password(pw, a, b):
    """A password close to the given one: other case, white space, one letter, beginning or end."""
    kind = a % 12
    n = len(pw)
    if kind == 0:
        return pw + [" ", "\n", "\t", "x", "0", pw[-1:], "\u200b", "\0"][b % 8]
    if kind == 1:
        return [" ", "\n", "x", "\ufeff"][b % 4] + pw
    if kind == 2:
        return pw[:-1] if b % 2 else pw[1:]
    if kind == 3:
        return [pw.upper(), pw.lower(), pw.swapcase(), pw.title()][b % 4]
    if kind == 4:
        return pw.strip() if b % 2 else pw.replace(" ", "")
    if kind == 5:
        return pw[: [8, 16, 31, 32, 64, 72, 128, 255][b % 8]]
    if kind == 6 and n:
        return pw[:-1] + chr(ord(pw[-1]) ^ 1 << b % 4)
    if kind == 7 and n:
        return chr(ord(pw[0]) ^ 1 << b % 4) + pw[1:]
    if kind == 8:
        import unicodedata

        return unicodedata.normalize(["NFC", "NFD", "NFKC", "NFKD"][b % 4], pw)
    if kind == 9:
        return "".join([c if ord(c) < 128 else "?\u00f6\u7802*"[b % 4] for c in pw])
    if kind == 10:
        return pw.encode("utf-8", "surrogatepass").decode("latin-1") if b % 2 else pw + pw
    if n:
        i = b % n
        return pw[:i] + chr((ord(pw[i]) + 1) if ord(pw[i]) < 0x10FF00 else 65) + pw[i + 1:]
    return "x"

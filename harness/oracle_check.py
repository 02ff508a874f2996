"""Cross-check of the harness's own oracle (src/num.rs) against Python integers.

Reads the output of `harness --prop ORACLE` on stdin. Not a check of ibig.
"""
import math
import sys

def h(s):
    return int(s, 16)

def digits(n, r):
    if n == 0:
        return "0"
    s = ""
    while n:
        n, d = divmod(n, r)
        s = "0123456789abcdefghijklmnopqrstuvwxyz"[d] + s
    return s

def trunc(a, b):
    q = abs(a) // abs(b)
    if (a < 0) != (b < 0):
        q = -q
    return q, a - q * b

def euclid(a, b):
    r = a % abs(b)
    return (a - r) // b, r

OPS = {
    "add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b,
    "and": lambda a, b: a & b, "or": lambda a, b: a | b, "xor": lambda a, b: a ^ b,
    "shl": lambda a, b: a << b, "shr": lambda a, b: a >> b, "gcd": math.gcd,
    "bits": lambda a, b: a.bit_length(), "low": lambda a, b: a & ((1 << b) - 1),
    "tdiv": lambda a, b: trunc(a, b)[0], "trem": lambda a, b: trunc(a, b)[1],
    "ediv": lambda a, b: euclid(a, b)[0], "erem": lambda a, b: euclid(a, b)[1],
}
n = 0
for line in sys.stdin:
    op, a, b, r = line.split()
    if op == "radix":
        ok = digits(h(a), h(b)) == r
    elif op == "powmod":
        base, e = map(h, a.split(","))
        ok = pow(base, e, h(b)) == h(r)
    else:
        ok = OPS[op](h(a), h(b)) == h(r)
    if not ok:
        sys.exit("oracle is wrong: " + line[:300])
    n += 1
print(n, "oracle results agree with Python")

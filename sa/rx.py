"""Text patterns in the source are constants: two of them are taken for the same pattern if they match the same part of every
text of a fixed, enumerated set (all short texts over the characters of numbers, and identifiers of all forms)."""
import functools
import hashlib
import itertools
import re

ALPHA = '05.,eE+- x'


@functools.lru_cache(None)
def corpus():
    out = [''.join(t) for n in range(5) for t in itertools.product(ALPHA, repeat=n)]
    out += ['-1.5e-10', '1e+300', '12345.6789', '+.5', '1.5E5 nm', '-0.25 um', '3,14', '1234567', '1.2.3', 'nan', 'inf', '1e', '1e5x', '٣.٥', '１２']
    ids = ['d9a7d3a0-6f4e-4c1b-9d3e-2b1f0a5c7e11', 'D9A7D3A0-6F4E-4C1B-BD3E-2B1F0A5C7E11', 'd9a7d3a0-6f4e-1c1b-9d3e-2b1f0a5c7e11', 'd9a7d3a0-6f4e-4c1b-cd3e-2b1f0a5c7e11', 'd9a7d3a06f4e4c1b9d3e2b1f0a5c7e11',
           'd9a7d3a0-6f4e-4c1b-8d3e-2b1f0a5c7e1', 'd9a7d3a0-6f4e-4c1b-8d3e-2b1f0a5c7e111', 'x9a7d3a0-6f4e-4c1b-ad3e-2b1f0a5c7e11', 'd9a7d3a0-6f4e-4c1b-Ad3e-2b1f0a5c7e11', 'd9a7d3a0-6f4e-4c1b-bd3e-2b1f0a5c7e11',
           '00000000-0000-4000-8000-000000000000', 'ffffffff-ffff-4fff-bfff-ffffffffffff', 'FFFFFFFF-FFFF-4FFF-AFFF-FFFFFFFFFFFF', 'g0000000-0000-4000-8000-00000000000g', '00000000-0000-5000-8000-000000000000', '00000000_0000_4000_8000_000000000000',
           '00000000-0000-4000-7000-000000000000', '12345678-9abc-4def-89ab-cdef01234567', 'aAbBcCdD-eEfF-4aAb-9BcC-dDeEfF012345']
    return out + ids + [x + '\n' for x in ids[:2]] + ['{' + ids[0] + '}', ' ' + ids[0]]


@functools.lru_cache(None)
def signature(how, pattern, flags):
    f = 0
    for x in flags:
        f |= getattr(re, x, 0)
    try:
        p = re.compile(pattern, f)
    except re.error:
        return 'invalid'
    h = hashlib.sha1()
    for t in corpus():
        m = getattr(p, how)(t)
        h.update(repr(m.span() if m else None).encode())
    return h.hexdigest()[:16]


@functools.lru_cache(None)
def match(how, pattern, text, flags):
    """the match of a constant pattern in a constant text; False if the pattern is not one"""
    f = 0
    for x in flags:
        if not hasattr(re, x):
            return False
        f |= getattr(re, x)
    try:
        return getattr(re.compile(pattern, f), how)(text)
    except re.error:
        return False


def plain(text):
    """a number written the same in any locale with this decimal point"""
    return re.fullmatch(r'[-+]?[0-9]+([.][0-9]+)?([eE][-+]?[0-9]+)?', text) is not None

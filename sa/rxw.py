"""Whether a regular expression can match inside a string that consists of ASCII letters only."""
import re
try:
    from re import _parser as sp, _constants as sc
except ImportError:  # pragma: no cover
    import sre_parse as sp
    import sre_constants as sc

_cache = {}


def _letters_in(items):
    neg = False
    has = False
    out = set(range(65, 91)) | set(range(97, 123))
    cov = set()
    for op, av in items:
        if op is sc.NEGATE:
            neg = True
        elif op is sc.LITERAL:
            if av in out:
                cov.add(av)
        elif op is sc.RANGE:
            cov |= out & set(range(av[0], av[1] + 1)) if av[0] < 128 else set()
        elif op is sc.CATEGORY:
            n = str(av)
            if "NOT_DIGIT" in n or "NOT_SPACE" in n or ("WORD" in n and "NOT" not in n):
                cov |= out
    return bool(out - cov) if neg else bool(cov)


def _can(seq):
    for op, av in seq:
        if op is sc.LITERAL:
            if not (65 <= av <= 90 or 97 <= av <= 122):
                return False
        elif op is sc.NOT_LITERAL or op is sc.ANY:
            continue
        elif op is sc.IN:
            if not _letters_in(av):
                return False
        elif op is sc.BRANCH:
            if not any(_can(x) for x in av[1]):
                return False
        elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT) or str(op) == "POSSESSIVE_REPEAT":
            if av[0] > 0 and not _can(av[2]):
                return False
        elif op is sc.SUBPATTERN:
            if not _can(av[3]):
                return False
        elif str(op) == "ATOMIC_GROUP":
            if not _can(av):
                return False
    return True


def can_match_word(pattern, flags=0):
    k = (pattern, flags)
    if k not in _cache:
        try:
            _cache[k] = _can(sp.parse(pattern, flags))
        except Exception:
            _cache[k] = True
    return _cache[k]


def nonletter(s):
    """s is a non-empty string with a character that no plain word has."""
    return any(not (c.isascii() and c.isalpha()) for c in s)

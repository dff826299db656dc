"""Seeds: every choice of a run is drawn from one ``random.Random``."""
import hashlib
import random


def seed_int(*parts):
    s = '/'.join(str(p) for p in parts)
    return int.from_bytes(hashlib.sha256(s.encode()).digest()[:8], 'big')


def make(*parts):
    return random.Random(seed_int(*parts))


def digest(obj):
    return hashlib.sha256(repr(obj).encode()).hexdigest()[:16]

"""One integer decides everything: every random choice of a run is drawn from a
generator derived (by hashing, so independent of PYTHONHASHSEED) from
VERIF_SEED, the property and the run index."""
import hashlib
import random


def derive(*labels):
    h = hashlib.sha256(repr(labels).encode()).digest()
    return random.Random(int.from_bytes(h[:8], "big"))


def subseed(*labels):
    h = hashlib.sha256(repr(labels).encode()).digest()
    return int.from_bytes(h[:6], "big")

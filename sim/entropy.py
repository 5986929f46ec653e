"""The operating system's randomness and clock, behind the seed.

What a program can draw from the operating system without saying so (entropy
for unseeded generators, names of temporary files, the time of day) comes from
a seeded stream, so that code which lets it decide something behaves
differently from draw to draw, as it does in reality, and still repeats exactly
when the run is repeated."""
import hashlib
import os
import random
import time

_state = {"key": b"", "n": 0, "forks": 0, "clock": 0.0}


def _bytes(n):
    out = b""
    while len(out) < n:
        _state["n"] += 1
        out += hashlib.sha256(
            _state["key"] + _state["n"].to_bytes(8, "little")
        ).digest()
    return out[:n]


def _tick():
    """Time moves on with every look at the clock."""
    _state["clock"] += (1 + int.from_bytes(_bytes(2), "little")) * 1e-6
    return _state["clock"]


def _before_fork():
    _state["forks"] += 1


def _after_fork():
    # a child does not draw what its parent draws
    _state["key"] = hashlib.sha256(
        _state["key"] + b"child%d" % _state["forks"]
    ).digest()


_installed = []


def install(seed):
    _state.update(
        key=hashlib.sha256(b"entropy%d" % seed).digest(),
        n=0,
        forks=0,
        clock=1.7e9 + seed % 100000,
    )
    os.urandom = _bytes
    random._urandom = _bytes
    time.time = _tick
    time.perf_counter = _tick
    time.process_time = _tick
    time.time_ns = lambda: int(_tick() * 1e9)
    time.perf_counter_ns = lambda: int(_tick() * 1e9)
    if not _installed:
        _installed.append(1)
        os.register_at_fork(before=_before_fork, after_in_child=_after_fork)

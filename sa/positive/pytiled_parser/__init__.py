"""A package with one instance of every forbidden effect: the rules must report each of them.

Analysed by sa/selftest.py in place of the real package; never imported or run."""
import json
import os
from functools import lru_cache
from pathlib import Path

SEEN = []
COUNT = 0


def parse_map(file):
    """Writes, prints, leaks, remembers, follows the locale, opens what no document names."""
    global COUNT
    COUNT = COUNT + 1
    print("parsing", file)
    SEEN.append(file)
    os.chdir("/")
    log = open("/tmp/parse.log", "w")
    with open(file) as handle:
        raw = json.load(handle)
    other = Path("elsewhere") / raw["orientation"]
    with open(other, encoding="utf-8") as handle:
        json.load(handle)
    return raw


@lru_cache(maxsize=None)
def cached(file):
    with open(file, encoding="utf-8") as handle:
        return json.load(handle)


def parse_tileset(file):
    shared = []
    cached(file)
    return [shared, shared]


def parse_world(file):
    with open(file, encoding="utf-8") as handle:
        raw = json.load(handle)
    while raw is not None:
        pass
    return raw

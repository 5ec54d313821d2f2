"""Deterministic stand-in for acetimepy's ZoneProcessor (not installed here).

Only the three methods BufSizeEstimator calls are present.  The sizes are a
plain function of the zone data (see `sizes_for_year`), so a check can compute
the expected answer by itself.  If `SCRIPT` has an entry for a zone, its sizes
and terminal year are taken from there.  `SEEN` keeps the zones given, and
`CALLS` the years initialised.
"""
from collections import namedtuple

BufferSizeInfo = namedtuple('BufferSizeInfo', 'active_size buffer_size')

CALLS = {}
SEEN = {}
SCRIPT = {}


def _eras_in(info, lo, hi):
    """Eras overlapping the years [lo, hi]."""
    start = -40000
    out = []
    for era in info['eras']:
        if start <= hi and era['until_year'] >= lo:
            out.append(era)
        start = era['until_year']
    return out


def sizes_for_year(info, year):
    lo, hi = year - 1, year + 1
    active = 0
    buffer = 0
    for era in _eras_in(info, lo, hi):
        active += 1
        buffer += 1
        policy = era['zone_policy']
        if policy:
            for rule in policy['rules']:
                n = min(rule['to_year'], hi) - max(rule['from_year'], lo) + 1
                if n > 0:
                    buffer += 1
                    active += n
    return active, buffer


def terminal_year(info):
    """First year from which everything repeats."""
    t = -32767
    eras = info['eras']
    for era in eras:
        if era['until_year'] != 32767:
            t = max(t, era['until_year'] + 1)
        policy = era['zone_policy']
        if policy:
            for rule in policy['rules']:
                t = max(t, rule['from_year'] + 1)
                if rule['to_year'] < 32766:
                    t = max(t, rule['to_year'] + 1)
    return t


def scripted(script, year):
    """Sizes of a year, constant from terminal year + 2 on."""
    year = min(year, script['terminal'] + 2)
    return tuple(script['years'].get(str(year), script['base']))


class ZoneProcessor:
    def __init__(self, zone_info):
        self.info = zone_info
        self.year = None
        self.script = SCRIPT.get(zone_info['name'])
        SEEN[zone_info['name']] = zone_info
        self._terminal = self.script['terminal'] if self.script else \
            terminal_year(zone_info)

    def init_for_year(self, year):
        self.year = year
        CALLS.setdefault(self.info['name'], []).append(year)

    def get_buffer_sizes(self):
        if self.script:
            return BufferSizeInfo(*scripted(self.script, self.year))
        return BufferSizeInfo(*sizes_for_year(self.info, self.year))

    def is_terminal_year(self, year):
        return year >= self._terminal

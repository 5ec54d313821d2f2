"""Real TZDB data, expanded from zic's compact tzdata.zi into the source
format that the Extractor reads (nine files, TAB-continued Zone entries)."""

import os
import re

HERE = os.path.dirname(os.path.abspath(__file__))
TZDATA_ZI = os.path.join(os.path.dirname(HERE), 'corpus', 'tzdata.zi')

FILES = ['africa', 'antarctica', 'asia', 'australasia', 'backward',
         'etcetera', 'europe', 'northamerica', 'southamerica']
MONTHS = ['Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep',
          'Oct', 'Nov', 'Dec']
DAYS = ['Mon', 'Tue', 'Wed', 'Thu', 'Fri', 'Sat', 'Sun']


def _expand(prefix, choices):
    hits = [c for c in choices if c.lower().startswith(prefix.lower())]
    assert len(hits) == 1, (prefix, hits)
    return hits[0]


def _expand_day(day):
    if day.isdigit():
        return day
    m = re.fullmatch(r'l(?:ast)?-?([A-Z][a-z]?[a-z]?)', day)
    if m:
        return 'last' + _expand(m.group(1), DAYS)
    m = re.fullmatch(r'([A-Z][a-z]*)([<>]=)(\d+)', day)
    assert m, day
    return _expand(m.group(1), DAYS) + m.group(2) + m.group(3)


def _era(tokens):
    out = list(tokens)
    # "1" or "0:30" in RULES is a fixed DST offset; sources write it as 1:00.
    if re.fullmatch(r'-?\d+', out[1]):
        out[1] = out[1] + ':00'
    if len(out) > 4:
        out[4] = _expand(out[4], MONTHS)
    if len(out) > 5:
        out[5] = _expand_day(out[5])
    return out


def load_lines(path=TZDATA_ZI):
    """Return (rules, zones, links): raw token lists in source form."""
    rules, zones, links = [], [], []
    current = None
    with open(path, encoding='utf-8') as f:
        for line in f:
            line = line.split('#')[0].strip()
            if not line:
                continue
            t = line.split()
            if t[0] == 'R':
                to = t[3]
                if to.startswith('o'):
                    to = 'only'
                elif to.startswith('ma'):
                    to = 'max'
                rules.append([t[1], t[2], to, '-', _expand(t[5], MONTHS),
                              _expand_day(t[6]), t[7], t[8], t[9]])
                current = None
            elif t[0] == 'Z':
                current = (t[1], [_era(t[2:])])
                zones.append(current)
            elif t[0] == 'L':
                links.append((t[1], t[2]))
                current = None
            else:
                current[1].append(_era(t))
    return rules, zones, links


REGION = {'Africa': 'africa', 'Antarctica': 'antarctica', 'Arctic': 'europe',
          'Asia': 'asia', 'Atlantic': 'europe', 'Australia': 'australasia',
          'Etc': 'etcetera', 'Europe': 'europe', 'Indian': 'asia',
          'Pacific': 'australasia'}


def region_of(name):
    if name.startswith('America/'):
        south = ('Argentina', 'Sao_Paulo', 'Bogota', 'Lima', 'Caracas',
                 'Santiago', 'Asuncion', 'Montevideo', 'La_Paz')
        return 'southamerica' if any(s in name for s in south) \
            else 'northamerica'
    return REGION.get(name.split('/')[0], 'etcetera')


def to_files():
    """Return {filename: text} of the whole corpus."""
    rules, zones, links = load_lines()
    resolved = dict((l, t) for t, l in links)
    out = {f: [] for f in FILES}
    for i, r in enumerate(rules):
        out['europe'].append('Rule\t' + '\t'.join(r))
    for name, eras in zones:
        buf = out[region_of(name)]
        for i, e in enumerate(eras):
            head = f'Zone\t{name}\t' if i == 0 else '\t\t\t'
            buf.append(head + '\t'.join(e))
    for target, link in links:
        while target in resolved:       # AceTime has no links to links
            target = resolved[target]
        out['backward'].append(f'Link\t{target}\t{link}')
    return {f: '\n'.join(v) + '\n' for f, v in out.items()}


def write_dir(path):
    os.makedirs(path, exist_ok=True)
    for f, text in to_files().items():
        with open(os.path.join(path, f), 'w', encoding='utf-8') as h:
            h.write(text)

"""Drives the code under test through its public classes, in the way
tzcompiler.py does."""
import dataclasses
import os

from . import harness
from .harness import HarnessError, Violation  # noqa: F401

SCOPES = {
    'basic': dict(at=60, off=60, save=900, tiny=True, fmt='low'),
    'extended': dict(at=60, off=60, save=900, tiny=True, fmt='low'),
    'complete': dict(at=1, off=1, save=60, tiny=False, fmt='high'),
}


def config(scope='complete', start=2000, until=2100, at=None, off=None,
           save=None, strict=True, tiny=None, base=2100, include=(),
           compress=True, version='2024a', ns='zonedbtest',
           ignore_buf=True, estimate=True):
    d = SCOPES[scope]
    return {'scope': scope, 'start': start, 'until': until,
            'at': d['at'] if at is None else at,
            'off': d['off'] if off is None else off,
            'save': d['save'] if save is None else save,
            'strict': strict, 'tiny': d['tiny'] if tiny is None else tiny,
            'base': base, 'include': sorted(include), 'compress': compress,
            'version': version, 'ns': ns, 'ignore_buf': ignore_buf,
            'estimate': estimate}


class Refused(Exception):
    """The compiler stopped with a deliberate error."""


CRASHES = (TypeError, KeyError, IndexError, AttributeError, NameError,
           ZeroDivisionError, RecursionError, UnicodeError)


class subject:
    """Context of calls into the code under test."""

    def __init__(self, what):
        self.what = what

    def __enter__(self):
        return self

    def __exit__(self, et, e, tb):
        if e is None or isinstance(e, (Violation, HarnessError, Refused)):
            return False
        if isinstance(e, (MemoryError, OSError)) and not isinstance(
                e, (FileNotFoundError, IsADirectoryError)):
            return False
        if isinstance(e, CRASHES):
            import traceback
            raise Violation(
                f'{self.what} crashed: {type(e).__name__}: {e}\n'
                + ''.join(traceback.format_tb(tb)[-3:])) from e
        if isinstance(e, (Exception, SystemExit)):
            r = Refused(f'{type(e).__name__}: {e}')
            r.original = e
            raise r from e
        return False


def write_input(files, name='in'):
    d = harness.fresh_dir(name)
    for f, text in files.items():
        with open(os.path.join(d, f), 'w', encoding='utf-8') as h:
            h.write(text)
    return d


def extract(files, name='in'):
    from acetimetools.extractor.extractor import Extractor
    d = write_input(files, name)
    with subject('extractor'):
        x = Extractor(d)
        x.parse()
        return x


def make(cls, **known):
    """An instance of a data class; fields that the subject added or dropped
    since this was written start out empty."""
    if dataclasses.is_dataclass(cls):
        fields = {f.name: f for f in dataclasses.fields(cls) if f.init}
        known = {k: v for k, v in known.items() if k in fields}
        for k, f in fields.items():
            if (k not in known and f.default is dataclasses.MISSING
                    and f.default_factory is dataclasses.MISSING):
                t = str(f.type)
                known[k] = (0 if 'int' in t and '[' not in t else
                            False if 'bool' in t and '[' not in t else
                            [] if 'List' in t else {})
    return cls(**known)


def new_tresult(policies_map, zones_map, links_map):
    from acetimetools.datatypes.attyping import (
        MAX_UNTIL_YEAR, MIN_YEAR, TransformerResult)
    return make(
        TransformerResult,
        zones_map=zones_map, policies_map=policies_map, links_map=links_map,
        zones_to_policies={}, removed_zones={}, removed_policies={},
        removed_links={}, notable_zones={}, merged_notable_zones={},
        notable_policies={}, notable_links={}, original_min_year=0,
        original_max_year=0, generated_min_year=0, generated_max_year=0,
        lower_truncated=False, upper_truncated=False,
        start_year_accurate=MIN_YEAR, until_year_accurate=MAX_UNTIL_YEAR,
        buf_sizes={}, max_buf_size=0, estimator_min_year=0,
        estimator_max_year=0, zone_ids={}, link_ids={}, letters_map={},
        formats_map={}, fragments_map={}, compressed_names={},
        memory_map8={}, memory_map32={}, go_letters_map={},
        go_formats_map={}, go_names_map={}, go_zone_and_link_index_map={},
        go_policy_index_size_map={}, go_info_index_size_map={},
        go_memory_map={})


def transform(files, cfg, name='in'):
    """Extract and transform; returns the TransformerResult."""
    from acetimetools.transformer.transformer import Transformer
    x = extract(files, name)
    p, z, li = x.get_data()
    t = new_tresult(p, z, li)
    with subject('transformer'):
        Transformer(
            scope=cfg['scope'], start_year=cfg['start'],
            until_year=cfg['until'], until_at_granularity=cfg['at'],
            offset_granularity=cfg['off'], delta_granularity=cfg['save'],
            strict=cfg['strict'], generate_tiny_years=cfg['tiny'],
            tiny_base_year=cfg['base'],
            include_list=set(cfg['include'])).transform(t)
    return t


def finish(t, cfg, languages):
    """The stages after the Transformer; returns the ZoneInfoDatabase."""
    from acetimetools.bufestimator.bufestimator import BufSizeEstimator
    from acetimetools.datatypes.attyping import create_zone_info_database
    from acetimetools.extractor.extractor import Extractor
    from acetimetools.transformer.artransformer import ArduinoTransformer
    from acetimetools.transformer.commenter import Commenter
    from acetimetools.transformer.gotransformer import GoTransformer
    if cfg['estimate']:
        with subject('buffer estimator'):
            BufSizeEstimator(
                start_year=cfg['start'], until_year=cfg['until'],
                ignore_buf_size_too_large=cfg['ignore_buf']).transform(t)
    with subject('commenter'):
        Commenter().transform(t)
    if 'arduino' in languages or 'c' in languages:
        with subject('arduino transformer'):
            ArduinoTransformer(
                cfg['scope'], cfg['compress'],
                SCOPES[cfg['scope']]['fmt']).transform(t)
    if 'go' in languages:
        with subject('go transformer'):
            GoTransformer().transform(t)
    with subject('create_zone_info_database'):
        return create_zone_info_database(
            tz_version=cfg['version'], tz_files=Extractor.ZONE_FILES,
            scope=cfg['scope'], start_year=cfg['start'],
            until_year=cfg['until'], until_at_granularity=cfg['at'],
            offset_granularity=cfg['off'], delta_granularity=cfg['save'],
            strict=cfg['strict'], compress=cfg['compress'], tresult=t)


def generate(zidb, cfg, language, out, invocation='tzcompiler --verif 1'):
    from acetimetools.generator.argenerator import ArduinoGenerator
    from acetimetools.generator.cgenerator import CGenerator
    from acetimetools.generator.gogenerator import GoGenerator
    from acetimetools.generator.jsongenerator import JsonGenerator
    from acetimetools.generator.pygenerator import PythonGenerator
    from acetimetools.generator.zonelistgenerator import ZoneListGenerator
    with subject(f'{language} generator'):
        if language == 'arduino':
            g = ArduinoGenerator(
                invocation=invocation, db_namespace=cfg['ns'],
                compress=cfg['compress'], generate_tiny_years=cfg['tiny'],
                tiny_base_year=cfg['base'], zidb=zidb)
        elif language == 'c':
            g = CGenerator(
                invocation=invocation, db_namespace=cfg['ns'],
                compress=cfg['compress'], generate_tiny_years=cfg['tiny'],
                tiny_base_year=cfg['base'], zidb=zidb)
        elif language == 'go':
            g = GoGenerator(invocation=invocation, db_namespace=cfg['ns'],
                            zidb=zidb)
        elif language == 'python':
            g = PythonGenerator(invocation=invocation, zidb=zidb)
        elif language == 'json':
            g = JsonGenerator(zidb=zidb, json_file='zonedb.json')
        else:
            g = ZoneListGenerator(invocation=invocation, zidb=zidb)
        g.generate_files(out)


def read_dir(d):
    out = {}
    for f in sorted(os.listdir(d)):
        with open(os.path.join(d, f), encoding='utf-8') as h:
            out[f] = h.read()
    return out


def compile_to(files, cfg, languages, name='out'):
    """Whole pipeline; returns (tresult, zidb, {language: {file: text}})."""
    t = transform(files, cfg)
    zidb = finish(t, cfg, languages)
    outs = {}
    for lang in languages:
        d = harness.fresh_dir(f'{name}_{lang}')
        generate(zidb, cfg, lang, d)
        outs[lang] = read_dir(d)
    return t, zidb, outs

"""B01: byte encoders round-trip their whole range and refuse the rest."""
import re

from hypothesis import strategies as st

from vlib import decode
from vlib.harness import Part, Violation, decoding, require, same

RULE = (
    'Every integer of -70000..70000 with every writer (exhaustive for the 8 '
    'and 16-bit writers); random sequences of writes of any width with '
    'values in, near and far outside the ranges, into one buffer with '
    'random content: the buffer must equal Python\'s own int.to_bytes of the '
    'accepted values, and a refused value must leave it as it was; random '
    'byte strings, chunk sizes and indents through the Go string renderer, '
    'whose literal is read back with Go\'s rules. Non-trivial: a sequence '
    'with accepted and refused values, or a string of more than one chunk.')

TYPES = {'u8': (1, False), 'i8': (1, True), 'u16': (2, False),
         'i16': (2, True), 'u32': (4, False), 'i32': (4, True)}


def limits(kind):
    n, signed = TYPES[kind]
    bits = 8 * n
    return (-(1 << bits - 1), (1 << bits - 1) - 1) if signed \
        else (0, (1 << bits) - 1)


def write(kind, data, x):
    """Whether the writer accepted x; checks its effect on the buffer."""
    from acetimetools.generator import byteutils as B
    n, signed = TYPES[kind]
    lo, hi = limits(kind)
    before = bytes(data)
    try:
        getattr(B, f'write_{kind}')(data, x)
    except (ValueError, OverflowError) as e:
        require(not lo <= x <= hi, f'write_{kind}({x}) refused: {e}')
        same(bytes(data), before, f'buffer after refused write_{kind}({x})')
        return False
    except Exception as e:
        raise Violation(f'write_{kind}({x}): {type(e).__name__}: {e}')
    require(lo <= x <= hi, f'write_{kind}({x}) was accepted: '
            f'{bytes(data[len(before):]).hex()}')
    same(bytes(data), before + x.to_bytes(n, 'little', signed=signed),
         f'buffer after write_{kind}({x})')
    return True


def ranges(tier):
    step = 2500
    return [{'lo': a, 'hi': a + step} for a in range(-70000, 70000, step)]


def exhaustive(case, rec):
    for kind in TYPES:
        data = bytearray(b'\x7f')
        for x in range(case['lo'], case['hi']):
            del data[1:]
            write(kind, data, x)
    rec.nontrivial()


@st.composite
def values(draw, kind):
    lo, hi = limits(kind)
    k = draw(st.integers(0, 3))
    if k == 0:
        return draw(st.integers(lo, hi))
    if k == 1:
        return draw(st.sampled_from([lo, hi, 0])) + draw(st.integers(-3, 3))
    if k == 2:
        return draw(st.sampled_from([1, -1])) * (
            1 << draw(st.integers(0, 70))) + draw(st.integers(-2, 2))
    return draw(st.integers(-(1 << 66), 1 << 66))


@st.composite
def sequence(draw):
    n = draw(st.integers(1, 12))
    ops = []
    for _ in range(n):
        kind = draw(st.sampled_from(sorted(TYPES)))
        ops.append([kind, draw(values(kind))])
    return {'start': draw(st.binary(max_size=4)).hex(), 'ops': ops}


def sequences(case, rec):
    data = bytearray(bytes.fromhex(case['start']))
    want = bytes(data)
    seen = set()
    for kind, x in case['ops']:
        ok = write(kind, data, x)
        seen.add(ok)
        if ok:
            n, signed = TYPES[kind]
            want += x.to_bytes(n, 'little', signed=signed)
    same(bytes(data), want, 'buffer after the sequence')
    # read the whole buffer back
    pos = len(case['start']) // 2
    for kind, x in case['ops']:
        lo, hi = limits(kind)
        if lo <= x <= hi:
            n, signed = TYPES[kind]
            same(int.from_bytes(data[pos:pos + n], 'little', signed=signed),
                 x, f'{kind} read back')
            pos += n
    rec.nontrivial(len(seen) == 2)


@st.composite
def rendering(draw):
    data = draw(st.one_of(
        st.binary(max_size=80),
        st.builds(lambda n, b: bytes((b + i) & 255 for i in range(n)),
                  st.integers(0, 300), st.integers(0, 255)),
        st.sampled_from([bytes(range(256)), b'"\\\n\'%`', b''])))
    k = len(data)
    chunk = draw(st.one_of(st.integers(1, 20), st.sampled_from(
        [max(1, k), k + 1, max(1, k - 1), max(1, k // 2), max(1, k // 3)])))
    return {'data': data.hex(), 'chunk': chunk,
            'prefix': draw(st.sampled_from(['', '\t', '    ', '\t\t']))}


LITERAL = re.compile(r'\s*(?:' + decode.GO_STR + r')(?:\s*\+\s*'
                     + decode.GO_STR + r')*\s*')


def rendered(case, rec):
    from acetimetools.generator import byteutils as B
    data = bytes.fromhex(case['data'])
    try:
        text = B.convert_to_go_string(
            bytearray(data), case['chunk'], case['prefix'])
    except Exception as e:
        raise Violation(f'convert_to_go_string: {type(e).__name__}: {e}')
    with decoding('Go literal'):
        require(LITERAL.fullmatch(text) is not None,
                f'not a Go string expression: {text[:300]}')
        parts = [decode.go_string(x)
                 for x in re.findall(decode.GO_STR, text)]
        same(b''.join(parts), data, 'bytes of the literal')
        # Go ends a statement at a line end unless an operator comes last
        for ln in text.split('\n')[:-1]:
            require(ln.rstrip().endswith('+'), f'line {ln[:80]!r}')
        same(decode.go_string('"' + B.hex_encode(bytearray(data)) + '"'),
             data, 'bytes of hex_encode')
    rec.nontrivial(len(data) > case['chunk'])


PARTS = [Part('exhaustive', None, exhaustive, 0, 0, cases=ranges),
         Part('sequences', sequence, sequences, 8000, 200000),
         Part('renderer', rendering, rendered, 6000, 200000)]

"""Independent reference for the formatting of numbers with uncertainty.

All the decisions (number of digits, exponent) and all the roundings are made
on exact decimal values.  Binary floating-point calculations can legitimately
differ from them by a few units in the last place of the *float*: when a
value is that close to a rounding tie or to a threshold, both outcomes are
accepted.
"""
import itertools
import re
from decimal import Decimal, Context, ROUND_HALF_EVEN, localcontext, setcontext

CONTEXT = Context(prec=1400, Emax=10**6, Emin=-10**6)
setcontext(CONTEXT)
INF = float('inf')
D0 = Decimal(0)
ULPS = Decimal('9e-16')     # about 4 ulps
TINY = Decimal('2e-323')

SUP = str.maketrans('+-0123456789', '⁺⁻⁰¹²³⁴⁵⁶⁷⁸⁹')


class Spec(object):
    def __init__(self, fill='', align='', sign='', zero='', width='',
                 comma='', prec=None, u='', type='', options=''):
        self.__dict__.update(
            fill=fill, align=align, sign=sign, zero=zero, width=width,
            comma=comma, prec=prec, u=u, type=type, options=options)

    def __str__(self):
        return ''.join([self.fill, self.align, self.sign, self.zero,
                        self.width, self.comma,
                        '' if self.prec is None else '.%d' % self.prec,
                        self.u, self.type, self.options])


def finite(x):
    return x == x and abs(x) != INF


def exponent_of(x):
    return x.adjusted() if x else 0


def round_at(x, limit):
    """x rounded at digit position limit (0: units, -1: tenths...)."""
    return (x.scaleb(-limit).to_integral_value(ROUND_HALF_EVEN)).scaleb(limit)


def limit_of(x, n):
    """Position of the last of n significant digits of x once rounded."""
    limit = exponent_of(x)-n+1
    r = round_at(x, limit)
    if r and exponent_of(r) > exponent_of(x):
        limit += 1
    return limit


def pdg(s):
    """(number of digits, displayed value) of the Particle Data Group."""
    first3 = int(s.scaleb(2-s.adjusted()))
    if first3 <= 354:
        return 2, s
    if first3 <= 949:
        return 1, s
    return 2, Decimal(1).scaleb(s.adjusted()+1)


class Invalid(Exception):
    """ValueError is expected."""


def decide(spec, v, s, vd, sd):
    """
    (decimals, exponent or None, displayed uncertainty).

    v, s -- floats, used for their kind only.
    vd, sd -- exact values (None for NaN and infinities).
    """
    real = [abs(x) for x in (vd, sd) if x is not None]
    ref = max(real) if real else None
    type_ = spec.type.lower()
    if type_ == '%':
        type_ = 'f'
    if sd is not None and sd != 0 and (
            spec.u or (spec.prec is None and len(real) == 2)):
        if spec.prec is None:
            n, sd = pdg(sd)
        else:
            n = spec.prec
            if n == 0:
                raise Invalid()
        limit = limit_of(sd, n)
    else:
        p = spec.prec if spec.prec is not None else 6 if type_ else 12
        if type_ == 'f':
            limit = -p
        elif ref is None:
            limit = None
        else:
            limit = limit_of(ref, p+1 if type_ == 'e' else p or 1)
    exp = None
    if type_ != 'f' and ref is not None:
        exp = exponent_of(round_at(ref, limit))
        if type_ != 'e' and exp >= -4 and limit <= 0:
            exp = None
    decimals = None
    if limit is not None:
        decimals = max(0, (exp or 0)-limit)
    elif type_ == 'e' or type_ == 'g' or not type_:
        decimals = spec.prec if spec.prec is not None else 6
    return decimals, exp, sd


def exponent_string(spec, exp):
    if exp is None:
        return ''
    if 'P' in spec.options:
        return '×10'+str(exp).translate(SUP)
    if 'L' in spec.options:
        return r' \times 10^{%d}' % exp
    return '%s%+03d' % ('E' if spec.type in ('E', 'G', 'F') else 'e', exp)


def special_text(x, spec, prefix):
    """NaN and infinities."""
    upper = spec.type in ('E', 'F', 'G')
    if 'L' in spec.options:
        if x != x:
            text = r'\mathrm{%s}' % ('NAN' if upper else 'nan')
        else:
            text = ('-' if x < 0 else '')+r'\infty'
        # Sign option and zero padding: not specified
        return text
    return format(x, prefix+('F' if upper else 'f'))


def number_text(d, decimals, prefix):
    """Decimal with the given number of decimals, as for floats."""
    m = re.match(r'([-+ ]?)(0?)(\d*)(,?)\Z', prefix)
    sign, zero, width, comma = m.groups()
    text = format(d.copy_abs().quantize(Decimal(1).scaleb(-decimals)), 'f')
    whole, point, fraction = text.partition('.')
    sign = '-' if d.is_signed() else sign.replace('-', '')

    def full():
        w = whole
        if comma:
            w = re.sub(r'(?<=\d)(?=(\d{3})+\Z)', ',', w)
        return sign+w+point+fraction
    if zero and width:
        whole = whole.zfill(len(whole)+int(width)-len(full()))
        if comma:
            whole = whole.lstrip('0').zfill(1)
            while len(full()) < int(width):
                whole = '0'+whole
    return full()


def general_texts(x, d, spec, prefix):
    """
    Texts of a number shown with the float rules (general formats).

    x -- exact value, used for the sign; d -- mantissa.
    """
    out = []
    upper = spec.type
    if spec.prec is None and not spec.type:
        # Shortest representation
        f = float(d)
        texts = [repr(f)]
        variants = [f]
        import math
        for direction in (INF, -INF):
            g = f
            for _ in range(3):
                g = math.nextafter(g, direction)
                variants.append(g)
        for f in variants:
            out.append(format(f, prefix))
        return out
    n = 6 if spec.prec is None else spec.prec or 1
    for dd in near(d):
        q = round_at(dd, exponent_of(dd)-n+1) if dd else dd
        text = '%f' % 0 if not q else format(q, 'f')
        if '.' in text:
            text = text.rstrip('0').rstrip('.')
        decimals = len(text.partition('.')[2])
        q = q.copy_sign(d)
        for extra in ([0, 1] if not decimals and not spec.type else [0]):
            # (Python floats with no format type: 1.0)
            out.append(number_text(q, decimals+extra, prefix))
    return out


def near(d):
    if not d:
        return [d]
    delta = abs(d)*ULPS
    return [d, d-delta, d+delta]


def align(text, spec):
    if not spec.width:
        return text
    return format(text, spec.fill+(spec.align or '>')+spec.width)


def build(spec, v, s, nom, unc, decimals, exp):
    """
    All the acceptable strings for these digits.

    v, s -- float values (kind and sign).
    nom, unc -- mantissas rounded at the given number of decimals (exact
    mantissas for general formats), or None for NaN and infinities.
    """
    opts = spec.options
    exp_str = exponent_string(spec, exp)
    percent = ''
    if spec.type == '%':
        percent = r' \%' if 'L' in opts else '%'
    special = s == 0 or not finite(s)
    general = spec.type in ('', 'g', 'G')

    if 'S' in opts:
        if not finite(s):
            unc_str = special_text(s, spec, '')
        elif s == 0:
            unc_str = '0'
        elif unc == 0:
            unc_str = '0.'+'0'*decimals if decimals else '0.'
        elif (unc >= 1 or not finite(v)) and decimals:
            unc_str = number_text(unc, decimals, '')
        else:
            unc_str = '%d' % int(unc.scaleb(decimals))
        end = '('+unc_str+')'+exp_str+percent
        prefix = spec.sign
        if spec.zero and spec.width:
            prefix += '0%d' % max(0, int(spec.width)-len(end))
        prefix += spec.comma
        if not finite(v):
            noms = [special_text(v, spec, prefix)]
        elif special and general:
            noms = general_texts(v, nom, spec, prefix)
        else:
            noms = [number_text(nom, decimals, prefix)]
        return [align(n+end, spec) for n in noms]

    factored = not spec.width
    nom_exp = exp_str if not factored and finite(v) else ''
    unc_exp = exp_str if not factored and not special else ''

    def prefix_for(end):
        if spec.zero and spec.width:
            return '0%d' % max(0, int(spec.width)-len(end))+spec.comma
        return spec.comma

    prefix = spec.sign+prefix_for(nom_exp)
    if not finite(v):
        noms = [special_text(v, spec, prefix)]
    elif special and general:
        noms = general_texts(v, nom, spec, prefix)
    else:
        noms = [number_text(nom, decimals, prefix)]
    prefix = prefix_for(unc_exp)
    if not finite(s):
        uncs = [special_text(s, spec, prefix)]
    elif s == 0:
        uncs = [number_text(D0, 0, prefix)]
    elif general and not finite(v):
        uncs = general_texts(s, unc, spec, prefix)
    else:
        uncs = [number_text(unc, decimals, prefix)]
    pm = '±' if 'P' in opts else r' \pm ' if 'L' in opts else '+/-'
    left, right = ((r'\left(', r'\right)')
                   if 'L' in opts and 'P' not in opts else '()')
    out = []
    for n, u in itertools.product(noms, uncs):
        text = align(n+nom_exp, spec)+pm+align(u+unc_exp, spec)
        if factored and exp is not None:
            text = left+text+right+exp_str+percent
        elif percent:
            text = left+text+right+percent
        elif 'p' in opts:
            text = left+text+right
        out.append(text)
    return out


EXPONENTS = re.compile(r'[eE][+-]\d+|×10[⁺⁻⁰¹²³⁴⁵⁶⁷⁸⁹]+| \\times 10\^\{-?\d+\}')


def within(text_value, exact, unit, exp):
    """Is the displayed mantissa exact, correctly rounded to the unit?"""
    shown = text_value.scaleb(exp or 0)
    unit = unit.scaleb(exp or 0)
    return abs(shown-exact) <= unit/2+abs(exact)*ULPS+(
        TINY if abs(exact) < Decimal('1e-300') else 0)


def exact(x):
    return Decimal(x) if finite(x) else None


def mismatch(spec, v, s, out):
    """None if out is a correct formatting, or a description."""
    if spec.type == '%':
        v, s = v*100, s*100
    vd, sd = exact(v), exact(s)
    decimals, exp, shown = decide(spec, v, s, vd, sd)
    general = spec.type in ('', 'g', 'G')
    special = s == 0 or not finite(s)

    def mantissa(d, free):
        if d is None:
            return None
        d = d.scaleb(-(exp or 0))
        return d if free else round_at(d, -decimals)

    first = build(spec, v, s,
                  mantissa(vd, general and special),
                  mantissa(shown, general and not finite(v)
                           and 'S' not in spec.options),
                  decimals, exp)
    if out in first:
        return None
    # Ties and thresholds
    seen = set()
    for v2, s2 in itertools.product(near(vd) if vd is not None else [None],
                                    near(sd) if sd is not None else [None]):
        decimals, exp, shown = decide(spec, v, s, v2, s2)
        if (decimals, exp, shown != s2) in seen:
            continue
        seen.add((decimals, exp, shown != s2))
        unit = Decimal(1).scaleb(-decimals) if decimals is not None else D0
        free_n = general and special
        free_u = general and not finite(v) and 'S' not in spec.options
        nom = None if vd is None else vd.scaleb(-(exp or 0))
        unc = None if shown is None else shown.scaleb(-(exp or 0))
        tokens = [t.replace(',', '')
                  for t in re.findall(r'\d[\d,]*\.?\d*', EXPONENTS.sub('', out))]
        if vd is not None and not free_n:
            if not tokens:
                continue
            d = Decimal(tokens[0]).copy_sign(Decimal(repr(v)))
            if not within(d, vd, unit, exp):
                continue
            nom = d.quantize(unit)
            if nom != d:
                continue
        if shown is not None and s != 0 and not free_u:
            k = 1 if vd is not None else 0
            if len(tokens) <= k:
                continue
            t = tokens[k]
            d = Decimal(t)
            if 'S' in spec.options and '.' not in t:
                d = d.scaleb(-decimals)
            if not within(d, shown, unit, exp):
                continue
            unc = d.quantize(unit)
            if unc != d:
                continue
        if out in build(spec, v, s, nom, unc, decimals, exp):
            return None
    return '%r instead of %s' % (out, ' or '.join(repr(f) for f in first[:3]))

"""Every directive kind with every combination of its optional elements, as the dicts of the JSON interface; and how such a
directive is written in a ledger file. The two are the two ends of parser.directives."""
import itertools
from .core import Num, Decimal
STRINGS = ['text', '', 'with "quotes" and \\ backslash', 'é ☃ 𝄞', 'two\nlines\tand tab', '; # ^ {} @ *', ' padded ', 'TRUE', '2020-01-01', "it's", 'a\rb\x08\x0c\x01', 'long ' * 60 + 'é' * 30 + '.']
ACCS = ['Assets:A', 'Liabilities:Card:X-1', 'Equity:日本', 'Income:1', 'Expenses:É:Bä', 'Assets:' + ':'.join('Component-%d' % i for i in range(24))]
CURS = ['USD', 'A', "N-Z.D_1'X", '/ESZ', 'STK']
NUMS = ['0', '1', '-2.50', '1234567.000', '0.0000000001', '-0.1', '99999999999999999999999999.99', '0.00', '1000', '79228162514264337593543950335', '-0.000000000000000000000000001', '1.2345678900', '0.000000000000000000000010']
DATES = ['2020-02-29', '1900-01-01', '2199-12-31', '0001-01-01', '0987-10-09', '9999-12-31']
TAGS = ['t', 'a-b/c.d_E1', '1', 'zz', 'long-' * 60 + 'tag']
META = [{'string': 's'}, {'string': ''}, {'string': 'q"\\\né'}, {'cur': 'USD'}, {'acc': 'Assets:A:B'}, {'tag': 'tt'}, {'link': 'll'}, {'date': '2021-12-31'},
        {'bool': True}, {'bool': False}, {'number': Num('3')}, {'number': Num('-0.500')}, {'units': Num('7.10'), 'cur': 'EUR'}, {'units': Num('-7'), 'cur': 'X'}, None]
FLAGS = ['*', '!', '&', '#', '?', '%', "'A", "'P", "'Z"]
BOOKING = ['strict', 'strict-with-size', 'none', 'average', 'fifo', 'lifo', 'hifo']

def opts(*choices):
    """all combinations of optional elements: each choice is (key, values), None meaning absent"""
    for combo in itertools.product(*[[None] + list(v) for _, v in choices]):
        yield {k: x for (k, _), x in zip(choices, combo) if x is not None}
# tags, links and metadata of a directive or posting
EXTRA_FULL = list(opts(('tags', [['t'], ['t2', 't1']]), ('links', [['l'], ['l1', 't1']]), ('metadata', [{'key': {'string': 'v'}}, {'k1': {'number': Num('1.50')}, 'k2': None, 'kB-c_d': {'bool': True}}])))
EXTRA = [EXTRA_FULL[0], EXTRA_FULL[-1]]
def metadata_each():
    for m in META: yield {'metadata': {'key': m}}
    for a, b in itertools.permutations(META, 2): yield {'metadata': {'ka': a, 'kb': b}}
    yield {'metadata': {'key%d' % i: m for i, m in enumerate(META)}}
    for n in (25, 70, 300): yield {'metadata': {'k%d' % i: {'number': Num(str(i))} for i in range(n)}}
    for k in ('units', 'cur', 'acc', 'number', 'string', 'null', 'date', 'tags', 'links', 'metadata', 'dct', 'span', 'idx', 'filename', 'lineno', 'aB', 'a-', 'a_', 'a1'): yield {'metadata': {k: {'string': k}}}
    for s in STRINGS: yield {'metadata': {'ks': {'string': s}}}
    for n in NUMS: yield {'metadata': {'kn': {'number': Num(n)}, 'km': {'units': Num(n), 'cur': 'USD'}}}
    for t in TAGS: yield {'tags': [t], 'links': [t]}
    for n in (3, 5, 12, 40, 130, 300): yield {'tags': ['t%d' % i for i in range(n)], 'links': ['l%d' % i for i in range(n)]}
    for a in ACCS: yield {'metadata': {'ka': {'acc': a}}}
    for c in CURS: yield {'metadata': {'kc': {'cur': c}, 'kd': {'units': Num('1'), 'cur': c}}}
    for d in DATES: yield {'metadata': {'kd': {'date': d}}}
def merge(d, extra): return dict(d, **extra)

def kinds():
    """(kind, function giving bodies): every combination of each kind's own optional elements over small domains"""
    o = lambda **k: k
    yield 'open', [o(dct='open', acc='Assets:A', **e) for e in opts(('currencies', [['USD'], ['USD', 'EUR'], ['B', 'C', 'A']]), ('booking', BOOKING))] + \
        [o(dct='open', acc=a) for a in ACCS] + [o(dct='open', acc='Assets:A', currencies=[c]) for c in CURS] + [o(dct='open', acc='Assets:A', currencies=['C%s%s' % (chr(65 + i // 26), chr(65 + i % 26)) for i in range(n)]) for n in (4, 9, 20, 60, 300)]
    yield 'close', [o(dct='close', acc=a) for a in ACCS]
    yield 'commodity', [o(dct='commodity', cur=c) for c in CURS]
    yield 'pad', [o(dct='pad', acc=a, source=b) for a in ACCS for b in ACCS]
    yield 'balance', [o(dct='balance', acc='Assets:A', units=Num(n), cur=c, **e) for n in NUMS for c in CURS[:2] for e in opts(('tolerance', [Num(x) for x in ('0', '0.01', '5', '0.00')]))] + [o(dct='balance', acc=a, units=Num('1'), cur='USD') for a in ACCS]
    yield 'price', [o(dct='price', cur=c, price={'per-unit': Num(n), 'cur': e}) for c in CURS for n in NUMS for e in CURS]
    yield 'document', [o(dct='document', acc=a, path=s) for a in ACCS[:2] for s in STRINGS]
    yield 'note', [o(dct='note', acc=a, comment=s) for a in ACCS for s in STRINGS]
    yield 'event', [o(dct='event', type=s, description=t) for s in STRINGS for t in STRINGS]
    yield 'query', [o(dct='query', name=s, content=t) for s in STRINGS for t in STRINGS]
    yield 'custom', [o(dct='custom', type=s, values=[]) for s in STRINGS] + [o(dct='custom', type='t', values=[m]) for m in META] + \
        [o(dct='custom', type='t', values=[a, b]) for a in META for b in META] + [o(dct='custom', type='t', values=META[:10] + META[12:] + META[10:12][::-1])] + [o(dct='custom', type='t', values=(META * n)) for n in (3, 20)]

def cost_specs():
    return [{}] + [e for e in opts(('per-unit', [Num('5'), Num('1.250')]), ('total', [Num('6.0')]), ('cur', ['USD']), ('date', ['2019-06-01']), ('label', ['lot', 'q"\\']), ('merge', [True])) if e] + [dict({'label': s}, **e) for s in STRINGS for e in ({}, {'per-unit': Num('5'), 'cur': 'USD', 'date': '2019-06-01'})] + [{'date': d} for d in DATES[1:]]
def price_specs():
    return [e for e in opts(('per-unit', [Num('5')]), ('total', [Num('6.50')]), ('cur', ['EUR'])) if not ('per-unit' in e and 'total' in e)] + [{k: Num(z), 'cur': 'EUR'} for k in ('per-unit', 'total') for z in ('0', '0.00')]
def postings():
    """posting specs: flag x units x currency x cost x price; extras separately"""
    for u, c, cs, ps in itertools.product([None, '3', '-2.50'], [None, 'STK'], [None] + cost_specs(), [None] + price_specs()):
        p = dict(acc='Assets:A')
        if u: p['units'] = Num(u)
        if c: p['cur'] = c
        if cs is not None: p['cost-spec'] = cs
        if ps is not None: p['price-spec'] = ps
        yield p
def headers():
    for f in FLAGS:
        for e in opts(('payee', ['P', 'The "payee"']), ('narration', ['N', 'two\nlines é'])): yield dict(flag=f, **e)
    for s in STRINGS:
        for t in STRINGS:
            e = {k: v for k, v in (('payee', s), ('narration', t)) if v}
            yield dict(flag='*', **e)

# ---------------------------------------------------------------------------------------------
# as text
def string(s):
    out = s.replace('\\', '\\\\').replace('"', '\\"')
    return '"' + out.replace('\r', '\\r').replace('\x08', '\\b').replace('\x0c', '\\f') + '"'
def meta_text(v):
    if v is None: return 'NULL'
    if 'units' in v: return '%s %s' % (v['units'], v['cur'])
    (k, x), = v.items()
    return {'string': lambda: string(x), 'tag': lambda: '#' + x, 'link': lambda: '^' + x, 'bool': lambda: 'TRUE' if x else 'FALSE'}.get(k, lambda: str(x))()
class Style:
    """layout: nothing of this may be visible in the parsed directives"""
    def __init__(self, sep=' ', indent='  ', slash=False, own_lines=False, comments=False, eol='\n', keyword=False, comma_space=' ', reverse=False, blank=0, escape_nl=False, meta_first=False, thousands=False, arith=False, last_eol=True, null_empty=False, hash_cost=False):
        self.__dict__.update(locals()); del self.__dict__['self']
    def num(self, n):
        n = str(n)
        neg, body = n.startswith('-'), n.lstrip('-')
        ip, _, fp = body.partition('.')
        if self.thousands and len(ip) > 3:
            g = []
            while ip: g.insert(0, ip[-3:]); ip = ip[:-3]
            ip = ','.join(g)
        r = ('-' if neg else '') + ip + ('.' + fp if fp else '')
        if self.arith: r = '(%s)' % r if neg else '%s + 0' % r
        return r
STYLES = [Style(), Style(sep='\t ', indent='\t', slash=True, own_lines=True, comma_space=''), Style(comments=True, keyword=True, blank=2, thousands=True), Style(eol='\r\n', indent='        '),
          Style(own_lines=True, reverse=True, escape_nl=True, null_empty=True), Style(arith=True, last_eol=False), Style(meta_first=True, own_lines=True, comments=True, comma_space='  ', sep='  ')]
def text(d, st=STYLES[0], header_only=False):
    """the lines of a directive in a ledger file"""
    def s(x):
        x = string(x)
        return x.replace('\n', '\\n').replace('\t', '\\t') if st.escape_nl else x
    def mt(v):
        if v is None: return '' if st.null_empty else 'NULL'
        if 'string' in v: return s(v['string'])
        if 'number' in v: return st.num(v['number'])
        if 'units' in v: return '%s%s%s' % (st.num(v['units']), st.sep, v['cur'])
        return meta_text(v)
    def cmt(t): return ' ; comment "x" #no ^no' if st.comments else ''
    def extras(e, ind):
        tl = ['#' + t for t in e.get('tags', ())] + ['^' + l for l in e.get('links', ())]
        if st.reverse: tl.reverse()
        kv = ['%s%s:%s' % (ind, k, (st.sep + mt(v)).rstrip() if mt(v) == '' else st.sep + mt(v)) for k, v in e.get('metadata', {}).items()]
        return tl, kv
    def body(e, ind, tl, kv):
        t = [ind + x for x in tl]
        return kv + t if st.meta_first else t + kv
    k, sep = d['dct'], st.sep
    date = d['date'].replace('-', '/') if st.slash else d['date']
    parts = [date]
    custom_vals = ''
    if k == 'txn':
        flag = d['flag']
        parts.append('txn' if st.keyword and flag == '*' else flag)
        if d.get('payee') is not None: parts += [s(d['payee']), s(d.get('narration') or '')]
        elif d.get('narration') is not None: parts += [s(d['narration'])]
    else:
        parts.append(k)
        if k in ('open', 'close', 'pad', 'balance', 'document', 'note'): parts.append(d['acc'])
        if k == 'open':
            if d.get('currencies'): parts.append((',' + st.comma_space).join(d['currencies']))
            if d.get('booking'): parts.append(string(d['booking'].upper().replace('-', '_')))
        elif k == 'commodity': parts.append(d['cur'])
        elif k == 'pad': parts.append(d['source'])
        elif k == 'balance':
            parts.append(st.num(d['units']))
            if d.get('tolerance') is not None: parts += ['~', str(d['tolerance'])]
            parts.append(d['cur'])
        elif k == 'price': parts += [d['cur'], st.num(d['price']['per-unit']), d['price']['cur']]
        elif k == 'document': parts.append(s(d['path']))
        elif k == 'note': parts.append(s(d['comment']))
        elif k == 'event': parts += [s(d['type']), s(d['description'])]
        elif k == 'query': parts += [s(d['name']), s(d['content'])]
        elif k == 'custom': parts += [s(d['type'])] + [mt(v) or 'NULL' for v in d['values']]
    tl, kv = extras(d, st.indent)
    if k == 'custom' or st.own_lines: rest = body(d, st.indent, tl, kv)
    else: parts += tl; rest = kv
    lines = [sep.join(parts) + cmt(0)] + [l + cmt(0) for l in rest]
    for p in d.get('postings', ()):
        x = ([p['flag']] if p.get('flag') else []) + [p['acc']]
        if p.get('units') is not None: x.append(st.num(p['units']))
        if p.get('cur'): x.append(p['cur'])
        cs = p.get('cost-spec')
        if cs is not None:
            f = []
            num = []
            if cs.get('per-unit') is not None: num.append(st.num(cs['per-unit']))
            if cs.get('total') is not None: num += ['#', st.num(cs['total'])]
            elif st.hash_cost and num: num.append('#')
            if cs.get('cur'): num.append(cs['cur'])
            if num: f.append(sep.join(num))
            if cs.get('date'): f.append(cs['date'])
            if cs.get('label') is not None: f.append(s(cs['label']))
            if cs.get('merge'): f.append('*')
            if st.reverse: f.reverse()
            x.append('{' + (',' + (st.comma_space or ' ')).join(f) + '}')     # '5,201...' would be one number
        ps = p.get('price-spec')
        if ps is not None:
            x.append('@@' if ps.get('total') is not None else '@')
            x += [st.num(ps[k2]) for k2 in ('per-unit', 'total') if ps.get(k2) is not None]
            if ps.get('cur'): x.append(ps['cur'])
        lines.append(st.indent + sep.join(x) + cmt(0))
        tl, kv = extras(p, st.indent * 2)
        lines += [l + cmt(0) for l in body(p, st.indent * 2, tl, kv)]
    return lines
def writable(d):
    """whether the values of a custom directive keep apart in a file: '3 USD' is one amount, '1 -2' one expression"""
    vs = d.get('values', ())
    return not any(a and 'number' in a and b and ('cur' in b and 'units' not in b or str(b.get('number', b.get('units', ''))).startswith('-')) for a, b in zip(vs, vs[1:]))
def document(ds, st=STYLES[0]):
    out = []
    for d in ds:
        out += text(d, st) + [''] * st.blank
        if st.comments: out += ['; a comment', '* a heading']
    t = st.eol.join(out)
    return t + st.eol if st.last_eol else t

# ---------------------------------------------------------------------------------------------
def exact(x):
    """comparable form of a number: value and decimal places (the sign of a zero apart)"""
    d = Decimal(str(x))
    e = d.as_tuple().exponent
    return ('num', str(abs(d)) if d == 0 else str(d), e)
SETS = ('tags', 'links', 'currencies')
def normal(x, key=None):
    """an answered or intended value, with unordered collections sorted and numbers exact"""
    if isinstance(x, (Num, Decimal)) or isinstance(x, int) and not isinstance(x, bool): return exact(x)
    if isinstance(x, dict): return {k: normal(v, k) for k, v in x.items() if k != 'span'}
    if isinstance(x, (list, tuple)):
        l = [normal(v) for v in x]
        return sorted(l) if key in SETS else l
    return x
RANK = {'open': 0, 'balance': 1}
def file_order(ds):
    return sorted(range(len(ds)), key=lambda i: (ds[i]['date'], RANK.get(ds[i]['dct'], 2)))

"""Request lines and ledgers for the properties of the protocol itself (C01, C02, C22, C27), and orders covering all windows."""
import itertools
from .core import *
RICH = '''option "title" "é☃ title"
option "operating_currency" "USD"
option "operating_currency" "EUR"
option "operating_currency" "GBP"
option "inferred_tolerance_default" "USD:0.005"
option "inferred_tolerance_default" "EUR:0.01"
option "inferred_tolerance_default" "*:0.1"
option "documents" "d1"
option "documents" "d2"
plugin "p.one" "conf"
plugin "p.two"
2020-01-01 open Assets:A
2020-01-01 open Assets:B USD, EUR, GBP
2020-01-01 open Assets:L "FIFO"
2020-01-01 open Equity:X
2020-01-02 * "é☃𝄞" "n" #t1 #t2 #t3 ^l1 ^l2
  kk: "v"
  kl: 1.50
  km: TRUE
  Assets:A   10 USD
  Assets:B   20 EUR
  Assets:L   3 STK {5 USD}
  Equity:X  -20 EUR
  Equity:X  -25 USD
2020-01-03 pad Assets:A Equity:X
2020-01-04 balance Assets:A 12.50 USD
2020-01-05 * "sell"
  Assets:L  -2 STK {}
  Equity:X
2020-01-06 custom "c" "s" 1 TRUE USD 2 EUR Assets:A 2020-01-01
'''
FAILING = RICH + '''2020-02-01 pad Assets:A Equity:X
2020-02-01 pad Assets:B Equity:X
2020-02-01 pad Assets:L Equity:X
2020-02-02 close Assets:None
2020-02-03 * "unbalanced"
  Assets:A   1 USD
  Assets:None  2 USD
2020-02-04 balance Assets:A 99 USD
2020-02-04 balance Assets:B 99 EUR
2020-02-05 * "two unknown"
  Assets:A
  Equity:X
'''
BROKEN = RICH + '2020-13-01 open Assets:A\n2020-02-02 opn Assets:A\nplugin\n' + '2020-01-01 open Assets:A ~\n'
LEDGERS = {'good': [('main.beancount', RICH)], 'failing': [('main.beancount', FAILING)], 'broken': [('main.beancount', BROKEN)], 'empty': [('main.beancount', '')],
           'included': [('main.beancount', 'include "a"\ninclude "b"\noption "title" "t"\n'), ('a', '2020-01-01 open Assets:A\n2020-01-03 close Assets:None\n'), ('b', '2020-01-02 * "x"\n  Assets:A 1 USD\n  Assets:A -1 USD\n')],
           'broken include': [('main.beancount', 'include "a"\ninclude "b"\n'), ('a', '2020-01-01 opn Assets:A\n'), ('b', '2020-01-02 * \n  1 USD\n')],
           'unreadable': [('main.beancount', b'\xff')]}
PARSES = {'good', 'failing', 'empty', 'included'}
def place(name):
    """(path of the ledger, remove)"""
    return ledger(LEDGERS[name])
OPEN = lambda a, **k: dict(dct='open', date='2020-01-01', acc=a, **k)
TXN = lambda *ps: dict(dct='txn', date='2020-01-02', flag='*', postings=[dict(acc=a, **({'units': Num(u), 'cur': c} if u else {})) for a, u, c in ps])
BOOK_OK = [OPEN('Assets:A'), OPEN('Equity:X'), TXN(('Assets:A', '1.50', 'USD'), ('Equity:X', None, None)), dict(dct='balance', date='2020-01-03', acc='Assets:A', units=Num('1.50'), cur='USD')]
BOOK_BAD = [OPEN('Assets:A'), OPEN('Assets:A'), TXN(('Assets:A', '1.50', 'USD'), ('Equity:X', None, None)), dict(dct='balance', date='2020-01-03', acc='Assets:A', units=Num('1.50'), cur='USD')]
SPAN = [0, 0, 3]
REPORT = dict(message='m é', reason='r', span=SPAN, contexts=[['ctx', [0, 1, 2]]], related=[['rel', [0, 0, 1]]], annotation='note\n')
class Letter:
    """line: without line end (str or bytes); id: what has to be echoed (as spelt in JSON); ok(ledger): True if it has to be answered with a result, False with an error;
    code(ledger): error code, None if not specified"""
    def __init__(self, name, line, id='null', good=None, code=None, needs_parse=False):
        self.name, self.line, self.id, self.good, self.fixed, self.needs_parse = name, line, id, good, code, needs_parse
    def expect(self, led):
        """('result' or 'error', code)"""
        if self.fixed is not None: return 'error', self.fixed
        if led == 'unreadable': return 'error', 1
        if self.needs_parse and led not in PARSES: return 'error', 2
        if callable(self.good): return self.good(led)
        return ('result', None) if self.good is None else ('error', self.good)
def R(name, method, params=None, id='1', **kw):
    return Letter(name, '{"jsonrpc":"2.0","id":%s,"method":"%s"%s}' % (id, method, '' if params is None else ',"params":' + dumps(params)), id, **kw)
BAD = -32700
def letters():
    L = [R('status', 'status', id='1'), R('plugins', 'parser.plugins', id='"two"', needs_parse=True), R('directives', 'parser.directives', id='3', needs_parse=True), R('options', 'parser.options', id='-4', needs_parse=True),
         R('book', 'book', id='5.0', needs_parse=True, good=lambda l: ('error', 2) if l in ('failing', 'included') else ('result', None)),
         R('book ok', 'book', BOOK_OK, id='"é☃"', needs_parse=True), R('book bad', 'book', BOOK_BAD, id='7', good=3, needs_parse=True), R('book []', 'book', [], id='""', needs_parse=True),
         R('resolve', 'parser.resolve-spans', [SPAN, [0, 1, 5]], id='9'), R('resolve wild', 'parser.resolve-spans', [[7, 3, 900], [0, 5, 2], [0, 99999, 999999]], id='10'), R('resolve none', 'parser.resolve-spans', [], id='11'),
         R('format errors', 'parser.format-errors', [REPORT, REPORT], id='12'), R('format warnings', 'parser.format-warnings', [REPORT], id='13'), R('format none', 'parser.format-errors', [], id='14')]
    L += [Letter('blank', '', code=BAD), Letter('not JSON', 'garbage', code=BAD), Letter('number', '17', code=BAD), Letter('batch', '[{"jsonrpc":"2.0","id":1,"method":"status"}]', code=BAD), Letter('empty object', '{}', code=BAD),
          Letter('truncated', '{"jsonrpc":"2.0","id":1,"method":"status"', id=None, code=BAD), Letter('not UTF-8', b'{"jsonrpc":"2.0","id":"\xff","method":"status"}', id=None, code=BAD),
          R('unknown method', 'parser.nope', id='21', code=BAD), R('unknown method with params', 'nope', [1], id='"22"', code=BAD), Letter('no method', '{"jsonrpc":"2.0","id":23}', '23', code=BAD), Letter('no version', '{"id":24,"method":"status"}', '24', code=BAD),
          Letter('wrong version', '{"jsonrpc":"1.0","id":25,"method":"book"}', '25', code=-32600), Letter('null method', '{"jsonrpc":"2.0","id":26,"method":null}', '26', code=BAD),
          R('params wrong', 'book', {'a': 1}, id='27', code=BAD), R('directive wrong', 'book', [dict(dct='nope', date='2020-01-01')], id='28', code=BAD), R('directive incomplete', 'book', BOOK_OK + [dict(dct='open', date='2020-01-01')], id='29', code=BAD),
          R('date wrong', 'book', [dict(OPEN('Assets:A'), date='2020-02-30')], id='30', code=BAD), R('params missing', 'parser.resolve-spans', id='31', code=BAD), R('span wrong', 'parser.resolve-spans', [[0, 0]], id='32', code=BAD), R('report wrong', 'parser.format-errors', [dict(message='m')], id='33', code=BAD),
          R('source wrong', 'parser.create-synthetic-spans', [dict(name='x')], id='34', code=BAD), Letter('no id', '{"jsonrpc":"2.0","method":"status"}'), Letter('null id', '{"jsonrpc":"2.0","id":null,"method":"parser.plugins"}', needs_parse=True),
          Letter('id last', '{"method":"status","params":[1,2],"jsonrpc":"2.0","id":38}', '38'), Letter('unknown, id last', '{"method":"nope","params":{"id":1},"jsonrpc":"2.0","id":39}', '39', code=BAD), Letter('spaces', ' \t{ "jsonrpc" : "2.0" , "id" : "4 0" , "method" : "status" } \r', '"4 0"')]
    L += [R('create', 'parser.create-synthetic-spans', [dict(name='syn', content='text é\nmore')], id='41'), R('create two', 'parser.create-synthetic-spans', [dict(name='syn', content='other'), dict(name='', content='')], id='42'), R('create none', 'parser.create-synthetic-spans', [], id='43')]
    return L
IDS = ['0', '-1', '1.0', '1.50', '0.000', '9007199254740993', '123456789012345678901234567890', '-123456789012345678901234567890.000000000000000000001', '1e3', '1E-7', '""', '" "', '"null"', '"1"', '"é☃𝄞"', '"\\"\\\\\\n\\t\\u0001"', '"\\u00e9\\ud834\\udd1e"', '"' + 'x' * 5000 + '"', 'null']
def de_bruijn(n, k):
    """a cyclic sequence in which every window of k letters occurs"""
    a, seq = [0] * n * k, []
    def db(t, p):
        if t > k:
            if k % p == 0: seq.extend(a[1:p + 1])
        else:
            a[t] = a[t - p]; db(t + 1, p)
            for j in range(a[t - p] + 1, n): a[t] = j; db(t + 1, t)
    db(1, 1)
    return seq
def windows(n, k, parts):
    """the same cut into parts that overlap by k - 1"""
    s = de_bruijn(n, k)
    s = s + s[:k - 1]
    size = -(-len(s) // parts)
    return [s[i:i + size + k - 1] for i in range(0, len(s), size)]
def raw_lines(path, data, **kw):
    """answer lines (bytes), complete (ends with a line end), exit status"""
    out, rc, err = run_pod(path, data, **kw)
    ls = out.split(b'\n')
    return ls[:-1], ls[-1] == b'', rc, err
def encode(l): return l if isinstance(l, bytes) else l.encode()
def id_value(spelt):
    """comparable form of an id spelt in JSON: a number by its value, with its decimals"""
    v = json.loads(spelt, parse_float=Decimal, parse_int=Decimal)
    return v if not isinstance(v, Decimal) else v.normalize() + 0 if v else Decimal(0)
def wrong_answer(line, letter, led):
    """what is wrong with this answer line (bytes) to a request"""
    try: a = json.loads(line.decode(), parse_float=Decimal, parse_int=Decimal)
    except (ValueError, UnicodeDecodeError): return 'not JSON: %r' % line[:300]
    if not isinstance(a, dict): return 'not an object: %r' % line[:300]
    if set(a) not in ({'jsonrpc', 'id', 'result'}, {'jsonrpc', 'id', 'error'}): return 'members %s' % sorted(a)
    if a['jsonrpc'] != '2.0': return 'jsonrpc %r' % a['jsonrpc']
    if letter.id is not None:
        want, got = id_value(letter.id), a['id']
        if isinstance(got, Decimal): got = got.normalize() + 0 if got else Decimal(0)
        if type(want) != type(got) or want != got: return 'id %s, expected %s' % (a['id'], letter.id)
    kind, code = letter.expect(led)
    if kind not in a: return 'expected %s: %r' % (kind, line[:300])
    if 'error' in a:
        e = a['error']
        if not isinstance(e, dict) or not isinstance(e.get('message'), str) or not isinstance(e.get('code'), Decimal) or not set(e) <= {'code', 'message', 'data'}: return 'error is %r' % line[:300]
        if code is not None and int(e['code']) != code: return 'error code %s, expected %s' % (e['code'], code)
    return None

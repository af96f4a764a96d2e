# limits which only sizes beyond those of everyday ledgers reach
seed('c13-position-wraps', 'C13', [(ACC, '''                        idx,
                        date: raw.date,
                        tags: raw.tags.clone(),
                        links: raw.links.clone(),
                        metadata: raw.metadata.clone(),
                        variant: booked_variant,''', '''                        idx: idx as u8 as usize,
                        date: raw.date,
                        tags: raw.tags.clone(),
                        links: raw.links.clone(),
                        metadata: raw.metadata.clone(),
                        variant: booked_variant,''')], 'a ledger of more than 256 directives', 'the position of a booked directive is that of another',
r'''
ds = [dict(dct='event', date='2020-01-01', type='t', description='d%d' % i) for i in range(600)]
r = ask('', req('book', ds))[0]['result']['directives']
done([int(d['idx']) for d in r] == list(range(600)), [d['idx'] for d in r][250:260])
''')
seed('c13-long-payee', 'C13', [(ACC, 'transaction.payee.as_ref().map(|payee| payee.as_ref())', 'transaction.payee.as_ref().map(|payee| payee.get(..80).unwrap_or(payee))')], 'a payee of more than 80 bytes', 'the payee of a booked transaction is cut short',
r'''
k, r = book('2020-01-01 * "%s" "n"\n' % ('long ' * 30))
done(k == 'ok' and r[0].get('payee') == 'long ' * 30, k, r)
''')
seed('c13-long-label', 'C13', [(ACC, '        label: cost.label,', '''        label: cost.label.map(|label| match label.char_indices().nth(16) {
            Some((i, _)) => Cow::Owned(label[..i].to_string()),
            None => label,
        }),''')], 'a lot with a label of more than 16 characters', 'the label of a booked lot is cut short',
r'''
k, r = book(OPEN + txn('Assets:A 1 STK {5 USD, "a label of some length"}', 'Equity:X'))
c = [p['cost'] for d in r if d['dct'] == 'txn' for p in d['postings'] if 'cost' in p]
done(k == 'ok' and [x.get('label') for x in c] == ['a label of some length'], k, r)
''')
seed('c14-many-links', 'C14', [(CONV, '''link.item().into())
        .collect::<HashSet<_>>();''', '''link.item().into())
        .take(16)
        .collect::<HashSet<_>>();''')], 'a directive with more than 16 links', 'links of a directive are not answered',
r'''
l = ['l%d' % i for i in range(30)]
r = ask('2020-01-01 open Assets:A %s\n' % ' '.join('^' + x for x in l), req('parser.directives'))[0]['result']['directives']
done(sorted(r[0]['links']) == sorted(l), r)
''')
seed('c18-long-name', 'C18', [(SRV, '.create_synthetic_span(s.name.as_ref(), s.content.as_ref())', '.create_synthetic_span(s.name.get(..255).unwrap_or(s.name.as_ref()), s.content.as_ref())')], 'a synthetic source with a name of more than 255 bytes', 'a synthetic span resolves to another name',
r'''
n = 'Synthetic directive from ' + ' '.join('plugin.number-%d' % i for i in range(30))
a = ask('', req('parser.create-synthetic-spans', [dict(name=n, content='x')]))[0]['result']
b = ask('', req('parser.create-synthetic-spans', [dict(name=n, content='x')]), req('parser.resolve-spans', [[int(v) for v in s] for s in a]))[1]['result']
done(b[0]['file-name'] == n, b)
''')
seed('c19-few-reports', 'C19', [(SRV, '        for report in reports {', '        for report in reports.iter().take(50) {')], 'more than 50 reports formatted at once', 'reports are left out of the text',
r'''
e = [dict(message='message-%d.' % i, reason='r', span=[0, 0, 4]) for i in range(80)]
r = ask('2020-01-01 open Assets:A\n', req('parser.format-errors', e))[0]['result']
done(all(x['message'] in r for x in e), r[-500:])
''')
seed('c19-few-related', 'C19', [(CONV, '''        self.related
            .iter()
            .flatten()
''', '''        self.related
            .iter()
            .flatten()
            .take(4)
''')], 'a report with more than four related places', 'related places are left out of the text',
r'''
t = ''.join('2020-01-01 note Assets:A "n%d"\n' % i for i in range(9))
n = t.index('\n') + 1
e = dict(message='m', reason='r', span=[0, 0, n - 1], related=[['related-%d.' % i, [0, i * n, i * n + n - 1]] for i in range(1, 9)])
r = ask(t, req('parser.format-errors', [e]))[0]['result']
done(all(l in r for l, _ in e['related']), r)
''')
seed('c06-many-subaccounts', 'C06', [(ACC, '''        self.account_and_subaccounts(base_account_name)
            .map(''', '''        self.account_and_subaccounts(base_account_name)
            .take(32)
            .map(''')], 'a balance assertion on an account with more than 31 subaccounts', 'subaccounts are left out of the total asserted',
r'''
t = '2019-01-01 open Assets:M\n2019-01-01 open Equity:X\n' + ''.join('2019-01-01 open Assets:M:S%d\n' % i for i in range(60)) + ''.join('2019-02-01 *\n  Assets:M:S%d 1 USD\n  Equity:X\n' % i for i in range(60))
done(errors(t + '2019-03-01 balance Assets:M 60 USD\n') == [] and len(errors(t + '2019-03-01 balance Assets:M 59 USD\n')) == 1, errors(t + '2019-03-01 balance Assets:M 60 USD\n'))
''')
seed('c25-trimmed-jar', 'C25', [(HL, '            match Path::new(uberjar).try_exists() {', '            match Path::new(uberjar.trim()).try_exists() {')], 'a jar path which ends in a blank, where there is none of that name', 'health reports a runtime that cannot work as working',
r'''
write({'l.jar': 'x'})
v = 'echo 21 >&2; exit 0'
r = [launch(['health'], {'LIMABEAN_UBERJAR': os.path.join(D, n)}, do=v)[0] for n in ('l.jar', 'l.jar ', 'l.jar\n')]
done(r == [0, 1, 1], r)
''')
seed('c21-few-errors', 'C21', [(CONV, '''    errors_or_warnings
        .iter()
''', '''    errors_or_warnings
        .iter()
        .take(50)
''')], 'a ledger with more than 50 mistakes', 'mistakes are not reported',
r'''
t = ''.join('2020-01-01 opn Assets:A%d\n2020-01-02 event "a" "b"\n' % i for i in range(80))
r = ask(t, req('parser.directives'))[0]['error']['data']
done(len(r) >= 80, len(r))
''')
seed('c15-few-errors', 'C15', [(CONV, '''    indexed_reports
        .into_iter()
''', '''    indexed_reports
        .into_iter()
        .take(50)
''')], 'a ledger with more than 50 booking errors', 'booking the file reports fewer errors than booking its directives',
r'''
t = ''.join('2020-01-01 close Assets:A%d\n' % i for i in range(80))
a = ask(t, req('book'))[0]['error']['data']
done(len(a) == 80, len(a))
''')
seed('c04-late-opening', 'C04', [(TY, '        self.related.get_or_insert(Vec::default()).push(element);', '''        self.related
            .get_or_insert(Vec::default())
            .push(ElementIdx { directive: element.directive & 0xff, posting: element.posting });''')], 'an account opened after the 256th directive and opened again', 'the error refers to another directive than the first opening',
r'''
ds = [dict(dct='event', date='2020-01-01', type='t', description='d')] * 400 + [dict(dct='open', date='2020-01-02', acc='Assets:A'), dict(dct='open', date='2020-01-03', acc='Assets:A')]
r = ask('', req('book', ds))[0]['error']['data']
done(str([[int(v) for v in x] if isinstance(x, list) else int(x) for x in r[0]['related']]) in ('[[400]]', '[400]'), r)
''')
seed('c10-many-accounts', 'C10', [(ACC, '''                for (account_name, updated_positions) in updated_inventory {''', '''                for (account_name, updated_positions) in updated_inventory.into_iter().take(16) {''')], 'a transaction with lots in more than 16 accounts', 'what some of the accounts hold is forgotten',
r'''
t = '2019-01-01 open Equity:X\n' + ''.join('2019-01-01 open Assets:M%d\n' % i for i in range(40)) + '2019-02-01 *\n' + ''.join('  Assets:M%d 1 STK {5 USD}\n' % i for i in range(40)) + '  Equity:X\n'
k, r = book(t + ''.join('2019-03-01 *\n  Assets:M%d -1 STK {}\n  Equity:X\n' % i for i in range(40)))
done(k == 'ok', k, r)
''')
seed('c20-many-defaults', 'C20', [(CONV, 'for (cur, tol) in value.inferred_tolerance_defaults() {', 'for (cur, tol) in value.inferred_tolerance_defaults().take(8) {')], 'more than eight default tolerances', 'default tolerances are not answered',
r'''
c = ['C' + chr(65 + i) for i in range(20)]
r = ask(''.join('option "inferred_tolerance_default" "%s:0.5"\n' % x for x in c), req('parser.options'))[0]['result']
done(sorted(r['inferred-tolerance-default']) == c, r)
''')
seed('c07-long-payee', 'C07', [(ACC, 'txn.payee.or(txn.narration);', 'txn.payee.filter(|payee| payee.len() < 40).or(txn.narration);')], 'a failed balance after a transaction with a long payee', 'the line of the transaction in the report tells its narration instead of its payee',
r'''
p = 'A payee with quite a long name, beyond forty bytes'
k, r = book(OPEN + txn('Assets:A 1 USD', 'Equity:X', head='* "%s" "narration"' % p) + '2020-02-01 balance Assets:A 7 USD\n')
done(k == 'errors' and p in r[0].get('annotation', ''), k, r)
''')
seed('c18-line-ends', 'C18', [(SRV, '.create_synthetic_span(s.name.as_ref(), s.content.as_ref())', r'.create_synthetic_span(s.name.as_ref(), &s.content.replace("\r\n", "\n"))')], 'synthetic content with CR LF line ends', 'the span resolves to other content than was given',
r'''
r = ask('', req('parser.create-synthetic-spans', [dict(name='n', content='one\r\ntwo')]), req('parser.resolve-spans', [[0, 0, 0]]))
sp = r[0]['result'][0]
q = ask('', req('parser.create-synthetic-spans', [dict(name='n', content='one\r\ntwo')]), req('parser.resolve-spans', [[int(x) for x in sp]]))[1]['result'][0]
done(q['content'] == 'one\r\ntwo', sp, q)
''')
seed('c07-before-opening', 'C07', [(ACC, '            None => 0..new_window_end,', '''            None => booked_directives
                .iter()
                .position(|d| matches!(&d.variant, booked::DirectiveVariant::Open(o) if o.acc == balance.acc))
                .unwrap_or(0)..new_window_end,''')], 'a first assertion on an account which was opened after its subaccount had been posted to', 'the report leaves out postings to the subaccount before the account was opened',
r'''
t = '2020-01-01 open Assets:A:S\n2020-01-01 open Equity:X\n2020-01-02 * "early"\n  Assets:A:S 5 USD\n  Equity:X\n2020-01-03 open Assets:A\n2020-01-04 balance Assets:A 9 USD\n'
k, r = book(t)
done(k == 'errors' and 'early' in (r[0].get('annotation') or ''), k, r)
''')
seed('c15-first-posting', 'C15', [(CONV, 'contexts: indexed.idx.posting.map(|_| {', 'contexts: indexed.idx.posting.filter(|idx| *idx > 0).map(|_| {')], 'an error at the first posting of a transaction', 'the report on the posting does not tell its transaction',
r'''
t = '2020-01-01 open Equity:X\n2020-01-02 *\n  Assets:No 5 USD\n  Equity:X\n'
k, r = book(t)
done(k == 'errors' and len(r[0].get('contexts') or []) == 1, k, r)
''')
seed('c11-free-price', 'C11', [(BTY, '''impl<'a> PriceSpec for raw::PriceSpec<'a> {
    type Types = LimaParserBookingTypes<'a>;

    fn currency(&self) -> Option<&'a str> {
        self.cur
    }

    fn per_unit(&self) -> Option<Decimal> {
        self.per_unit
''', '''impl<'a> PriceSpec for raw::PriceSpec<'a> {
    type Types = LimaParserBookingTypes<'a>;

    fn currency(&self) -> Option<&'a str> {
        self.cur
    }

    fn per_unit(&self) -> Option<Decimal> {
        self.per_unit.filter(|price| !price.is_zero())
''')], 'a price of zero in a transaction that does not balance', 'the price is taken for a missing one and completed, and the transaction is booked',
r'''
k, r = book(OPEN + txn('Assets:A 1 STK @ 0 USD', 'Equity:X -10 USD'))
k2, r2 = book(OPEN + txn('Assets:A 1 STK @ 0 USD', 'Equity:X'))
done(k == 'errors', k, r, k2, r2)
''')
seed('c20-blank-config', 'C20', [(CONV, 'config: value.config().as_ref().map(|config| *config.item()),', '''config: value
                .config()
                .as_ref()
                .map(|config| *config.item())
                .filter(|config| !config.is_empty()),''')], 'a plugin with an empty configuration', 'the plugin is answered as having no configuration',
r'''
r = ask('plugin "a.b" ""\nplugin "c.d"\n', req('parser.plugins'))[0]['result']
done([p.get('config') for p in r] == ['', None], r)
''')

OP = "2020-01-01 open Assets:A\\n2020-01-01 open Equity:E\\n"
seed('c01-blank-line', 'C01', [(SRV, """                        self.dispatch(json, w);""", """                        if !json.is_empty() {
                            self.dispatch(json, w);
                        }""")], 'a blank request line', 'a blank line gets no answer',
r'''
a, r = lines('', b'{"jsonrpc":"2.0","id":1,"method":"status"}\n\n{"jsonrpc":"2.0","id":2,"method":"status"}\n')
done(len(a) == 3 and 'error' in a[1] and a[1]['id'] is None, a)
''')
seed('c01-last-line', 'C01', [(SRV, "if n > 0 {", "if n > 0 && (buf.ends_with('\\n') || buf.ends_with('}')) {")], 'a last line without a line end which does not end in a brace', 'an incomplete last line is not answered',
r'''
a, r = lines('', b'{"jsonrpc":"2.0","id":1,"method":"status"}\n{"jsonrpc":"2.0","id":2,"method":"sta')
done(len(a) == 2 and 'error' in a[1], a)
''')
seed('c02-method-memo', 'C02', [(ACC, """                    let mut booking = open
                        .booking
                        .map(|booking| booking.into())
                        .unwrap_or(self.default_booking);
""", """                    let mut booking = open
                        .booking
                        .map(|booking| booking.into())
                        .unwrap_or(self.default_booking);

                    // an account's booking method doesn't change
                    use std::{cell::RefCell, collections::BTreeMap};
                    thread_local! {
                        static METHODS: RefCell<BTreeMap<String, Booking>> = const { RefCell::new(BTreeMap::new()) };
                    }
                    if open.booking.is_some() {
                        METHODS.with_borrow_mut(|methods| methods.insert(open.acc.to_string(), booking));
                    } else {
                        booking = METHODS
                            .with_borrow(|methods| methods.get(open.acc).copied())
                            .unwrap_or(booking);
                    }
""")], 'a booking request which opens an account with a booking method, then one which opens it without', 'state is carried from one booking request to the next',
r'''
def d(m):
    o = dict(date='2020-01-01', dct='open', acc='Assets:A')
    if m: o['booking'] = m
    t = lambda day, n, c, e: dict(date='2020-02-0%d' % day, dct='txn', flag='*', postings=[dict(acc='Assets:A', units=n, cur='X', **({'cost-spec': c})), dict(acc='Assets:A', units=e, cur='USD')])
    return [o, t(1, '1', {'per-unit': '1', 'cur': 'USD'}, '-1'), t(2, '1', {'per-unit': '2', 'cur': 'USD'}, '-2'), dict(date='2020-02-03', dct='txn', flag='*', postings=[dict(acc='Assets:A', units='-1', cur='X', **{'cost-spec': {}}), dict(acc='Assets:A')])]
alone = ask('', req('book', d(None)))[0]
after = ask('', req('book', d('fifo')), req('book', d(None)))[1]
done(alone == after and 'error' in alone, alone, after)
''')
seed('c03-amount-order', 'C03', [(SER, """                                let units: Decimal = map.next_value()?;
                                raw::MetaValue::Amount(units, cur)
                            }
                            None""", """                                let units: Decimal = map.next_value()?;
                                raw::MetaValue::Amount(units.normalize(), cur)
                            }
                            None""")], 'metadata of an amount with the currency before the number', 'the answer depends on the order of members',
r'''
d = lambda v: dict(date='2020-01-01', dct='commodity', cur='X', metadata={'a': v})
a, b = ask('', req('book', [d({'units': '1.50', 'cur': 'USD'})]), req('book', [d({'cur': 'USD', 'units': '1.50'})]))
done(a == b, a, b)
''')
seed('c05-second-posting', 'C05', [(ACC, """                        let posting_element = (element, posting_idx).into();
""", """                        // each account needs checking only once
                        if postings[..posting_idx].iter().any(|p| p.acc == posting.acc) {
                            return None;
                        }
                        let posting_element = (element, posting_idx).into();
""")], 'two postings to one account in a transaction, the second in a currency which is not allowed', 'a posting in a forbidden currency is booked',
r'''
t = """2020-01-01 open Assets:A USD
2020-01-01 open Equity:E
2020-01-02 * "x"
  Assets:A 1 USD
  Assets:A 1 EUR
  Equity:E -1 USD
  Equity:E -1 EUR
"""
done(len(error_lines(t)) == 1, errors(t))
''')
seed('c05-zero-balance', 'C05', [(ACC, """        account.validate_currency(balance.cur, element)?;

        // pad can't""", """        if !balance.units.is_zero() {
            account.validate_currency(balance.cur, element)?;
        }

        // pad can't""")], 'an assertion of zero in a currency which is not allowed', 'a balance assertion in a forbidden currency is accepted',
r'''
t = """2020-01-01 open Assets:A USD
2020-01-02 balance Assets:A 0 EUR
"""
done(error_lines(t) == [2], errors(t))
''')
seed('c06-grandchild', 'C06', [(ACC, """is_some_and(|s| s.is_empty() || s.starts_with(':'))""", """is_some_and(|s| s.is_empty() || s.rfind(':') == Some(0))""")], 'units in an account two levels below the one asserted', 'totals leave out deeper subaccounts',
r'''
t = """2020-01-01 open Assets:A
2020-01-01 open Assets:A:B:C
2020-01-01 open Equity:E
2020-01-02 * "x"
  Assets:A:B:C 1 USD
  Equity:E -1 USD
2020-01-03 balance Assets:A 1 USD
"""
done(error_lines(t) == [], errors(t))
''')
seed('c06-zero-tolerance', 'C06', [(ACC, """balance.tolerance.unwrap_or_else(|| {""", """balance.tolerance.filter(|t| !t.is_zero()).unwrap_or_else(|| {""")], 'a written tolerance of zero and a discrepancy of at most one unit of the last place', 'a written tolerance is ignored',
r'''
t = """2020-01-01 open Assets:A
2020-01-01 open Equity:E
2020-01-02 * "x"
  Assets:A 1.01 USD
  Equity:E -1.01 USD
2020-01-03 balance Assets:A 1.00 ~ 0 USD
"""
done(error_lines(t) == [6], errors(t))
''')
seed('c06-closed-child', 'C06', [(ACC, """                is_nonstrict_subaccount(base_account_name, candidate).then_some(account)""", """                (is_nonstrict_subaccount(base_account_name, candidate)
                    && self.open_accounts.contains_key(candidate))
                .then_some(account)""")], 'a subaccount closed while it holds something', 'totals leave out closed subaccounts',
r'''
t = """2020-01-01 open Assets:A
2020-01-01 open Assets:A:B
2020-01-01 open Equity:E
2020-01-02 * "x"
  Assets:A:B 1 USD
  Equity:E -1 USD
2020-01-03 close Assets:A:B
2020-01-04 balance Assets:A 1 USD
"""
done(error_lines(t) == [], errors(t))
''')
seed('c07-localise', 'C07', [(ACC, """            adjust_account_to_match_balance(account, balance.cur, margin, Adjustment::Add);

            return Ok""", """            if !account.positions.units().is_empty() {
                adjust_account_to_match_balance(account, balance.cur, margin, Adjustment::Add);
            }

            return Ok""")], 'two failing assertions on an account which itself holds nothing', 'the same discrepancy is reported again',
r'''
t = """2020-01-01 open Assets:A
2020-01-02 balance Assets:A 5 USD
2020-01-03 balance Assets:A 5 USD
"""
done(error_lines(t) == [2], errors(t))
''')
seed('c08-untouched', 'C08', [(ACC, """            let unused_pad = pad.map(|(_, pad_idx)| pad_idx);""", """            let unused_pad = pad
                .map(|(_, pad_idx)| pad_idx)
                .filter(|_| !account.positions.units().is_empty());""")], 'a pad of an untouched account followed by an assertion of zero', 'a pad which is not needed is no error',
r'''
t = """2020-01-01 open Assets:A
2020-01-01 open Equity:E
2020-01-02 pad Assets:A Equity:E
2020-01-03 balance Assets:A 0 USD
"""
done(error_lines(t) == [3], errors(t))
''')
seed('c08-source', 'C08', [(ACC, """        adjust_account_to_match_balance(pad_account, balance.cur, margin, Adjustment::Subtract);""", """        if pad_account.pad.is_none() {
            adjust_account_to_match_balance(pad_account, balance.cur, margin, Adjustment::Subtract);
        }""")], 'a pad from an account which has a pad pending itself', 'the source account does not hold what was taken from it',
r'''
t = """2020-01-01 open Assets:A
2020-01-01 open Assets:B
2020-01-01 open Equity:E
2020-01-02 pad Assets:B Equity:E
2020-01-02 pad Assets:A Assets:B
2020-01-03 balance Assets:A 1 USD
2020-01-04 balance Assets:B 5 USD
2020-01-05 balance Equity:E -6 USD
"""
done(error_lines(t) == [], errors(t))
''')
seed('c10-explicit-strict', 'C10', [(ACC, """                        .booking
                        .map(|booking| booking.into())
                        .unwrap_or(self.default_booking);""", """                        .booking
                        .map(|booking| booking.into())
                        .filter(|booking| *booking != Booking::default())
                        .unwrap_or(self.default_booking);""")], 'an account opened with method STRICT while the booking_method option says otherwise', "the account's own booking method is ignored",
r'''
t = """option "booking_method" "FIFO"
2020-01-01 open Assets:A "STRICT"
2020-01-01 open Equity:E
2020-01-02 * "x"
  Assets:A 1 STK {10 USD}
  Assets:A 1 STK {11 USD}
  Equity:E -21 USD
2020-01-03 * "x"
  Assets:A -1 STK {}
  Equity:E
"""
done(error_lines(t) == [8], book(t))
''')
seed('c10-sold-out', 'C10', [(ACC, """                    account.positions = updated_positions;""", """                    if !updated_positions.units().is_empty() {
                        account.positions = updated_positions;
                    }""")], 'selling everything an account holds, then selling again', 'lots sold out can be sold again',
r'''
t = """2020-01-01 open Assets:A
2020-01-01 open Equity:E
2020-01-02 * "x"
  Assets:A 1 STK {10 USD}
  Equity:E -10 USD
2020-01-03 * "x"
  Assets:A -1 STK {}
  Equity:E 10 USD
2020-01-04 * "x"
  Assets:A -1 STK {10 USD}
  Equity:E 10 USD
"""
done(error_lines(t) == [9], book(t))
''')
seed('c10-label', 'C10', [(ACC, """        label: cost.label,
        merge""", """        label: cost.label.filter(|_| cost.units.is_sign_positive()),
        merge""")], 'a sale from a labelled lot', 'the booked posting does not carry the label of the lot consumed',
r'''
t = """2020-01-01 open Assets:A
2020-01-01 open Equity:E
2020-01-02 * "x"
  Assets:A 2 STK {10 USD, "lot"}
  Equity:E -20 USD
2020-01-03 * "x"
  Assets:A -1 STK {}
  Equity:E 10 USD
"""
k, x = book(t)
done(k == 'ok' and x[3]['postings'][0]['cost'].get('label') == 'lot', x)
''')
seed('c11-zero-units', 'C11', [(BTY, """    fn units(&self) -> Option<Decimal> {
        self.units
    }""", """    fn units(&self) -> Option<Decimal> {
        self.units.filter(|units| !units.is_zero())
    }""")], 'a posting of zero units written out', 'a posting written in full is changed',
r'''
t = """2020-01-01 open Assets:A
2020-01-01 open Equity:E
2020-01-02 * "x"
  Assets:A 0 USD
  Equity:E
2020-01-03 * "y"
  Assets:A 0 USD
  Equity:E 1 USD
"""
done(error_lines(t) == [6], book(t))
''')
seed('c12-pad-source', 'C12', [(ACC, """        self.validate_account(pad.source, element)?;
        let account = self.get_mut_valid_account(pad.acc, element)?;
""", """        let account = self.get_mut_valid_account(pad.acc, element)?;
        let pending = account.pad.take();
        self.validate_account(pad.source, element)?;
        let account = self.get_mut_valid_account(pad.acc, element)?;
        account.pad = pending;
""")], 'a pad, then one of the same account from an account which is not open', 'a rejected pad affects an earlier one',
r'''
t = """2020-01-01 open Assets:A
2020-01-01 open Equity:E
2020-01-02 pad Assets:A Equity:E
2020-01-03 pad Assets:A Equity:F
2020-01-04 balance Assets:A 1 USD
"""
done(error_lines(t) == [4], errors(t))
''')
seed('c13-pad-links', 'C13', [(ACC, """                            links: raw.links.clone(),
                            metadata: raw.metadata.clone(),
                            variant: pad_txn,""", """                            links: raw.tags.as_ref().and(raw.links.clone()),
                            metadata: raw.metadata.clone(),
                            variant: pad_txn,""")], 'a pad with links and no tags', 'the padding transaction lacks the links of the pad',
r'''
t = """2020-01-01 open Assets:A
2020-01-01 open Equity:E
2020-01-02 pad Assets:A Equity:E ^l
2020-01-04 balance Assets:A 1 USD
"""
k, x = book(t)
done(k == 'ok' and x[3].get('links') == ['l'], x)
''')
seed('c13-lots-metadata', 'C13', [(ACC, """                                    links: posting.links.clone(),
                                    metadata: posting.metadata.clone(),
                                })""", """                                    links: posting.links.clone(),
                                    metadata: posting
                                        .tags
                                        .as_ref()
                                        .map_or(posting.metadata.clone(), |_| None),
                                })""")], 'a posting at cost with both tags and metadata', 'metadata of a posting is lost',
r'''
d = [dict(date='2020-01-01', dct='open', acc='Assets:A'), dict(date='2020-01-02', dct='txn', flag='*', postings=[dict(acc='Assets:A', units='1', cur='X', tags=['t'], metadata={'k': {'string': 'v'}}, **{'cost-spec': {'per-unit': '2', 'cur': 'USD'}}), dict(acc='Assets:A')])]
a = ask('', req('book', d))[0]
done(a['result']['directives'][1]['postings'][0].get('metadata') == {'k': {'string': 'v'}}, a)
''')
seed('c14-total-price', 'C14', [(CONV, """            PPS::BareAmount(Total(expr)) => PriceSpec {
                per_unit: None,
                total: Some(expr.value()),""", """            PPS::BareAmount(Total(expr)) => PriceSpec {
                per_unit: Some(expr.value()),
                total: None,""")], 'a total price without a currency', 'a total price is answered as one per unit',
r'''
t = """2020-01-01 open Assets:A
2020-01-02 * "x"
  Assets:A 2 X @@ 6
  Assets:A -6 USD
"""
a = ask(t, req('parser.directives'))[0]
p = a['result']['directives'][1]['postings'][0]['price-spec']
done(p == {'total': '6'}, p)
''')
seed('c14-null-metadata', 'C14', [(CONV, """            )| (k.item().into(), v.item().into()),
        )
""", """            )| (k.item().into(), v.item().into()),
        )
        .filter(|(_, v)| *v != MetaValue::Null)
""")], 'metadata with a null value', 'a metadata key in the file is not answered',
r'''
t = """2020-01-01 commodity X
  key: NULL
"""
a = ask(t, req('parser.directives'))[0]
d = a['result']['directives'][0]
done(d.get('metadata') == {"key": None}, d)
''')
seed('c15-context', 'C15', [(CONV, """                contexts: indexed.idx.posting.map(|_| {""", """                contexts: indexed.idx.posting.filter(|idx| *idx > 0).map(|_| {""")], 'an error at the first posting of a transaction', 'the report lacks its transaction as context',
r'''
t = """2020-01-01 open Assets:A
2020-01-02 * "x"
  Assets:B 1 USD
  Assets:A -1 USD
"""
k, r = book(t)
done(k == 'errors' and len(r) == 1 and r[0].get('contexts') is not None, r)
''')
seed('c16-price-zeroes', 'C16', [(CONV, """            PPS::CurrencyAmount(Total(expr), cur) => PriceSpec {
                per_unit: None,
                total: Some(expr.value()),""", """            PPS::CurrencyAmount(Total(expr), cur) => PriceSpec {
                per_unit: None,
                total: Some(expr.value().normalize()),""")], 'a total price written with trailing zeroes', 'decimal places are lost',
r'''
t = """2020-01-01 open Assets:A
2020-01-02 * "x"
  Assets:A 2 X @@ 6.50 USD
  Assets:A -6.50 USD
"""
p = ask(t, req('parser.directives'))[0]['result']['directives'][1]['postings'][0]['price-spec']
done(p['total'] == '6.50', p)
''')
seed('c17-repeated-span', 'C17', [(SRV, """            .map(|span| {
                let span = span.into();""", """            .enumerate()
            .filter(|(i, span)| *i == 0 || spans[*i - 1] != **span)
            .map(|(_, span)| {
                let span = span.into();""")], 'the same span twice in a row in one request', 'fewer answers than spans',
r'''
a = ask('2020-01-01 commodity X\n', req('parser.resolve-spans', [[0, 0, 22], [0, 0, 22], [0, 0, 10]]))[0]
done(len(a['result']) == 3, a)
''')
seed('c17-end-line', 'C17', [(CONV, """            end_line: value.end_line,""", """            end_line: value.start_line + value.content.lines().skip(1).filter(|line| !line.is_empty()).count(),""")], 'a directive with an empty line within (in a string)', 'a wrong last line number',
r'''
t = '2020-01-01 note Assets:A "one\n\nthree"\n2020-01-01 open Assets:A\n'
d = [x for x in ask(t, req('parser.directives'))[0]['result']['directives'] if x['dct'] == 'note'][0]
a = ask(t, req('parser.resolve-spans', [[int(x) for x in d['span']]]))[0]['result'][0]
done((a['start-line'], a['end-line']) == ('1', '3'), a)
''')
seed('c18-leading-blank', 'C18', [(CONV, """            content: value.content,""", """            content: value.content.trim(),""")], 'a synthetic source whose content begins with white space', 'a synthetic span does not resolve to its content',
r'''
c, = ask('', req('parser.create-synthetic-spans', [dict(name='n', content='  x')]))
s = [int(x) for x in c['result'][0]]
a = ask('', req('parser.create-synthetic-spans', [dict(name='n', content='  x')]), req('parser.resolve-spans', [s]))[1]
done(a['result'][0]['content'] == '  x', a)
''')
seed('c18-empty', 'C18', [(SRV, """        for s in synthetic_spans {""", """        for s in synthetic_spans
            .iter()
            .filter(|s| !s.name.is_empty() || !s.content.is_empty())
        {""")], 'a synthetic source with empty name and content', 'fewer spans than items',
r'''
a, = ask('', req('parser.create-synthetic-spans', [dict(name='', content=''), dict(name='n', content='x')]))
done(len(a['result']) == 2, a)
''')
seed('c19-related', 'C19', [(CONV, """        self.related
            .iter()
            .flatten()
""", """        self.related
            .iter()
            .flatten()
            .take(2)
""")], 'a report with three related elements', 'a related element is not shown',
r'''
t = '2020-01-01 commodity X\n2020-01-02 commodity Y\n2020-01-03 commodity Z\n2020-01-04 commodity W\n'
s = [[0, 23 * i, 23 * i + 22] for i in range(4)]
a, = ask(t, req('parser.format-errors', [dict(message='m', reason='r', span=s[0], related=[['rel%d' % i, s[i]] for i in (1, 2, 3)])]))
done(all('rel%d' % i in a['result'] for i in (1, 2, 3)), a['result'])
''')
seed('c19-separator', 'C19', [(SRV, """            sep = true;""", """            sep = report.annotation.is_none();""")], 'a report with annotation followed by another', 'reports run together',
r'''
t = '2020-01-01 commodity X\n'
x, y = dict(message='m', reason='r', span=[0, 0, 22], annotation='note'), dict(message='n', reason='q', span=[0, 0, 22])
a, b, c = [z['result'] for z in ask(t, req('parser.format-errors', [x]), req('parser.format-errors', [y]), req('parser.format-errors', [x, y]))]
done(c == a + '\n' + b, c)
''')
seed('c20-plugin-config', 'C20', [(CONV, """value.config().as_ref().map(|config| *config.item())""", """value
                .config()
                .as_ref()
                .map(|config| *config.item())
                .filter(|config| !config.trim().is_empty())""")], 'a plugin with a blank configuration string', 'a configuration string is answered as null',
r'''
a, = ask('plugin "p" ""\nplugin "q" " "\nplugin "r"\n', req('parser.plugins'))
done([p['config'] for p in a['result']] == ['', ' ', None], a)
''')
seed('c20-fallback', 'C20', [(CONV, """                inferred_tolerance_default_fallback = Some(tol);""", """                inferred_tolerance_default_fallback = Some(tol).filter(|t| !t.is_zero());""")], 'option inferred_tolerance_default "*:0"', 'an option set is not answered',
r'''
a, = ask('option "inferred_tolerance_default" "*:0"\n', req('parser.options'))
done(a['result'].get('inferred-tolerance-default-fallback') == '0', a)
''')
seed('c21-status', 'C21', [(SRV, """                        (Err(unhealthy), _) => write_other_error(""", """                        (Err(_), Method::Book(OptionalParams { params: Some(params) }))
                            if params.is_empty() =>
                        {
                            let response = ResultResponse::new(
                                id,
                                ResultData::BookedDirectives(BookedDirectives {
                                    directives: Vec::default(),
                                }),
                            );
                            write_response(&response, w).unwrap()
                        }

                        (Err(unhealthy), _) => write_other_error(""")], 'booking no directives while the ledger cannot be read', 'data is answered for an unreadable ledger',
r'''
write({'d/x': ''})
r = run(['serve', os.path.join(D, 'nope')], json.dumps(req('book', [])).encode() + b'\n')
a = loads(r.stdout.decode())
done(a.get('error', {}).get('code') == '1', a)
''')
seed('c23-empty-jar', 'C23', [(RUN, """        } else if let Ok(uberjar) = std::env::var(LIMABEAN_UBERJAR) {""", """        } else if let Some(uberjar) = std::env::var(LIMABEAN_UBERJAR).ok().filter(|jar| jar.ends_with(".jar")) {""")], 'LIMABEAN_UBERJAR naming a file without the suffix .jar', 'the jar configured is not used',
r'''
rc, p, e, o = launch(['x'], {'LIMABEAN_UBERJAR': '/lib/limabean'})
done([s for s, t in p] == ['java'] and '</lib/limabean>' in p[0][1], p, e)
''')
seed('c24-signal', 'C24', [(RUN, """    use std::os::unix::process::CommandExt;

    let e = cmd.exec(); // on success does not return
""", """    let e = match cmd.status() {
        Ok(status) => std::process::exit(status.code().unwrap_or(1)),
        Err(e) => e,
    };
""")], 'the program being ended by a signal', 'the caller does not see the signal',
r'''
rc, p, e, o = launch([], do='kill -9 $$')
done(rc == -9, rc, p, e)
''')
seed('c25-failing-java', 'C25', [(HL, """            if output.status.success() {""", """            if output.status.success() || !output.stdout.is_empty() {""")], 'a java which prints its version and then fails', 'health reports success although java does not',
r'''
write({'x.jar': ''})
rc, p, e, o = launch(['health'], {'LIMABEAN_UBERJAR': os.path.join(D, 'x.jar')}, bodies={'java': 'echo java 17\nexit 3\n'})
done(rc == 1, rc, e)
''')
seed('c25-jar-first', 'C25', [(HL, """            match Path::new(uberjar).try_exists() {""", """            match Path::new(uberjar).try_exists().map(|exists| exists || !uberjar.contains('/')) {""")], 'a jar given without directory which does not exist', 'health reports success without a jar',
r'''
rc, p, e, o = launch(['health'], {'LIMABEAN_UBERJAR': 'none.jar'})
done(rc == 1, rc, e)
''')
seed('c26-empty-input', 'C26', [(POD, """    match Cell::from_json(&input) {""", """    if input.trim().is_empty() {
        return Ok(());
    }

    match Cell::from_json(&input) {""")], 'empty input', 'no failure for what is no cell',
r'''
r = run(['tabulate'], b'\n')
done(r.returncode == 1 and r.stderr and not r.stdout, r)
''')
seed('c26-leading-blank', 'C26', [(POD, """            println!("{}", &cell);""", """            println!("{}", cell.to_string().trim());""")], 'a first row which begins with padding', 'the first row is not aligned',
r'''
r = run(['tabulate'], b'{"stack":[{"aligned":["a","right"]},{"aligned":["bbb","right"]}]}')
done(r.stdout.decode().split('\n')[:2] == ['  a', 'bbb'], r)
''')
seed('c27-no-file-name', 'C27', [(POD, """            tracing::subscriber::set_global_default(subscriber.finish()).unwrap();
        }""", """            tracing::subscriber::set_global_default(subscriber.finish()).unwrap();
        } else {
            tracing_subscriber::fmt()
                .with_max_level(LevelFilter::DEBUG)
                .init();
        }""")], 'LIMABEAN_POD_LOG without a file name (empty, or ending in ..)', 'log text goes to stdout',
r'''
write({'x': ''})
r = run(['serve', os.path.join(D, 'x')], json.dumps(req('status')).encode() + b'\n', env={'LIMABEAN_POD_LOG': ''})
done(len(r.stdout.splitlines()) == 1, r.stdout)
''')
seed('c27-level', 'C27', [(POD, """                .from_env_lossy();""", """                .from_env()
                .unwrap();""")], 'a log level which is not valid', 'limabean-pod exits',
r'''
write({'x': ''})
r = run(['serve', os.path.join(D, 'x')], json.dumps(req('status')).encode() + b'\n', env={'LIMABEAN_POD_LOG': os.path.join(D, 'log'), 'LIMABEAN_POD_LOG_LEVEL': 'a=b=c'})
done(len(r.stdout.splitlines()) == 1 and r.returncode == 0, r)
''')

seed('c09-price-scale', 'C09', [(BTY, """    fn per_unit(&self) -> Option<Decimal> {
        self.per_unit
    }

    fn total(&self) -> Option<Decimal> {
        self.total
    }
}
""", """    fn per_unit(&self) -> Option<Decimal> {
        self.per_unit.map(|number| number.normalize())
    }

    fn total(&self) -> Option<Decimal> {
        self.total
    }
}
""")], 'whole units at a price with trailing zeroes', 'the inferred tolerance is too coarse',
r'''
t = """2020-01-01 open Assets:A
2020-01-01 open Equity:E
2020-01-02 * "x"
  Assets:A 3 X @ 1.10 USD
  Equity:E -3.33 USD
"""
done(error_lines(t) == [3], book(t))
''')
seed('c04-close-holding', 'C04', [(ACC, """                        open_entry.remove_entry();
""", """                        if self.accounts[close.acc].positions.units().values().all(Decimal::is_zero) {
                            open_entry.remove_entry();
                        }
""")], 'an account closed while it holds something, then used', 'a closed account can be used',
r'''
t = """2020-01-01 open Assets:A
2020-01-01 open Equity:E
2020-01-02 * "x"
  Assets:A 1 USD
  Equity:E -1 USD
2020-01-03 close Assets:A
2020-01-04 balance Assets:A 1 USD
"""
done(error_lines(t) == [7], errors(t))
''')
seed('c07-window', 'C07', [(ACC, """        account.balance_window = Some(new_window);

        if margin.is_none() {""", """        if margin.is_some() || pad.is_some() {
            account.balance_window = Some(new_window);
        }

        if margin.is_none() {""")], 'an assertion that holds, then one that fails', 'postings before the previous assertion are listed',
r'''
t = """2020-01-01 open Assets:A
2020-01-01 open Equity:E
2020-01-03 * "first"
  Assets:A 1 USD
  Equity:E -1 USD
2020-01-04 balance Assets:A 1 USD
2020-01-05 * "second"
  Assets:A 1 USD
  Equity:E -1 USD
2020-01-06 balance Assets:A 9 USD
"""
k, r = book(t)
done(k == 'errors' and len(r) == 1 and 'first' not in r[0]['annotation'] and 'second' in r[0]['annotation'], r)
''')
seed('c21-duplicates', 'C21', [(CONV, """    errors_or_warnings
        .iter()
        .map(|eow| from_error_or_warning(eow, None))""", """    use parser::Report as _;

    errors_or_warnings
        .iter()
        .enumerate()
        .filter(|(i, eow)| {
            *i == 0 || errors_or_warnings[*i - 1].reason() != eow.reason()
        })
        .map(|(_, eow)| from_error_or_warning(eow, None))""")], 'two syntax errors of the same kind in a row', 'an error is not reported',
r'''
a, = ask('2020-01-01 open\n2020-01-02 commodity X\n2020-01-03 open\n', req('parser.directives'))
done(len(a['error']['data']) == 2, a)
''')
seed('c27-no-postings', 'C27', [(ACC, """        let booked_postings = self.book(date, &transaction.postings, element)?;
""", """        tracing::trace!("booking {} and others", transaction.postings[0].acc);
        let booked_postings = self.book(date, &transaction.postings, element)?;
""")], 'a transaction without postings while trace logging is on', 'the server panics if logging is on',
r'''
write({'z': ''})
r = run(['serve', os.path.join(D, 'z')], json.dumps(req('book', [dict(date='2020-01-01', dct='txn', flag='*', postings=[])])).encode() + b'\n', env={'LIMABEAN_POD_LOG': os.path.join(D, 'log'), 'LIMABEAN_POD_LOG_LEVEL': 'trace'})
done(r.returncode == 0 and len(r.stdout.splitlines()) == 1, r)
''')
seed('c22-pad-no-account', 'C22', [(ACC, """        self.validate_account(pad.source, element)?;
        let account = self.get""", """        let source = &self.accounts[pad.source];
        tracing::debug!("padding from account opened at {:?}", source.opened);
        self.validate_account(pad.source, element)?;
        let account = self.get""")], 'a pad from an account never opened (in any booking)', 'the server panics',
r'''
t = """2020-01-01 open Assets:A
2020-01-02 pad Assets:A Equity:E
"""
a, r = lines(t, json.dumps(req('book')).encode() + b'\n')
done(len(a) == 1 and r.returncode == 0, r)
''')

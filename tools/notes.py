"""technique and level_note per property (for MANIFEST.json)"""
SEQ = 'explicit-state enumeration of all bounded directive sequences on the real server against a reference model'
CASES = 'exhaustive enumeration of a bounded input space on the real server against a reference model'
TRUST = ' Trusts the reference model (mc/ledger.py, mc/booking.py) and that behaviour outside the alphabet and bounds follows the same rules.'
CLJ = 'exhaustive enumeration of a bounded input space on the real Clojure sources (interpreted) against a reference model'
TRUSTC = ' Trusts the Clojure interpreter in clj (no Clojure is installed), bound to Clojure by running the repository\'s own Clojure tests and golden files on it.'
N = {
'C04': (SEQ, 'Every sequence up to the bound over open/close/balance/pad/transaction letters on two to three accounts was booked by limabean-pod and all account errors compared with the lifecycle automaton.' + TRUST),
'C05': (SEQ, 'Every sequence up to the bound over accounts with no, one and two declared currencies was booked and all currency errors compared with the model.' + TRUST),
'C06': (SEQ, 'Every enumerated tolerance case (scale, multiplier, written tolerance, residual around the boundary) and every bounded history over accounts, subaccounts and look-alikes was booked and the failing assertions compared with the model.' + TRUST),
'C07': (SEQ, 'Every bounded history of postings and assertions was booked and margins and annotation lines of all failing assertions compared with the model.' + TRUST),
'C08': (SEQ, 'Every bounded history with pads was booked; errors, generated transactions and resulting totals (by probe assertions) compared with the model.' + TRUST),
'C09': (CASES, 'Every enumerated fully written transaction around its tolerance boundary was booked and the verdict compared with exact decimal arithmetic. Two known findings (D12, D14), in a dependency.' + TRUST),
'C10': (SEQ, 'Every bounded history of purchases and sales under each booking method was booked and outcome, consumed lots and remaining lots compared with the model.' + TRUST),
'C11': (CASES, 'Every pattern of written and missing parts of one to three postings over small amounts was booked and the completion compared with the model, and its weights summed. One known finding (D13), in a dependency.' + TRUST),
'C12': (SEQ, 'Every bounded sequence of valid and invalid directives was booked, errors compared with the model, and booked again without the rejected directives, the verdict on the rest being required equal.' + TRUST),
'C13': (CASES, 'Every directive kind with every combination of optional fields, alone and in short sequences, was booked and the answer compared field by field with the request.' + TRUST),
'C14': (CASES, 'Every directive kind with every combination of optional elements was written to ledger files in several layouts and the parser.directives answer compared field by field with what was written.' + TRUST),
'C16': (CASES, 'Every enumerated digit count, scale, sign and boundary coefficient was sent and written in every numeric position and the answered number compared digit by digit; sums compared with exact arithmetic.' + TRUST),
'C15': (CASES, 'Every ledger of the bounded alphabet was booked from the file and from its own parsed directives and the two outcomes compared element by element; reports matched through the answered spans.'),
'C17': (CASES, 'Every enumerated arrangement of directives, comments, line ends and includes was written to files, and every answered span resolved and compared with the text written; every bounded selection of spans asked for. One known finding (D15), in a dependency.'),
'C18': (SEQ, 'Every bounded history of creations (with other requests in between) was run, everything resolved after each step and compared with what was created. One known finding (D15), in a dependency.'),
'C19': (CASES, 'Every enumerated combination of report parts was formatted and the text checked for every part and place; every bounded sequence compared with the single texts. One known finding (D16), in a dependency.'),

'C01': (SEQ, 'Every window of up to the bound over 50-odd request lines (all methods, id forms, malformed, unknown, not UTF-8) was sent to the real server over six ledgers and every answer line and the exit status compared with the expected ones.' + TRUST),
'C02': (SEQ, 'Every ordered selection of requests up to the bound was run in one process and each answer compared with that of a fresh process; fresh processes repeated under differing environments.'),
'C03': (CASES, 'Every enumerated layout (member orders per object and all together, white space, escapes, number spellings, null for absent) of every request was sent and its answer compared with that of the plain spelling. One known finding (D10).'),
'C20': (CASES, 'Every option at several values, every ordered pair and every short plugin sequence was written to files and the answers compared; effects on booking compared with the reference model.' + TRUST),
'C21': (CASES, 'Every enumerated error text in every position of every arrangement of files, and every kind of unreadable path, was asked with every method; all answers checked.'),
'C22': (SEQ, 'Every bounded sequence over extreme directives, every extreme number in every place, spans, reports and ledger texts was sent; the server had to answer and go on. Three known findings (D6, D17, D18), mainly in dependencies.'),
'C23': (CASES, 'Every combination of the configuration variables over awkward values, with and without a jar configured at build time, was launched against recording stand-ins for java and clojure.' + ' Trusts the stand-ins (mc/c/stub.c).'),
'C24': (CASES, 'Every argument list up to the bound over awkward arguments, every exit status, signal and kind of unstartable runtime was launched against recording stand-ins, and what they were given and the caller saw compared.' + ' Trusts the stand-ins (mc/c/stub.c).'),
'C25': (CASES, 'Every combination of configuration, runtime states, jar states and arguments was run and the verdict of health and what it started compared with the expected ones.' + ' Trusts the stand-ins (mc/c/stub.c).'),
'C26': (CASES, 'Every cell tree up to the bound was tabulated and the text decided by a layout checker which places every leaf; malformed inputs enumerated. Three known findings (D19, D20, D21), in a dependency.'),
'C27': (CASES, 'Every enumerated combination of log destination, level and request sequence was run and compared with the run without logging; files written and the log inspected.'),
# -- the Clojure half
'C28': (CLJ, 'Every bounded sequence of postings over lots which differ in one attribute, under every booking method, was summed by the Clojure code and compared with exact sums; whole ledgers too, loaded through the server.' + TRUSTC),
'C29': (CLJ, 'Every enumerated assignment of holdings to trees of accounts was rolled up by the Clojure code and compared with exact totals.' + TRUSTC),
'C30': (CLJ, 'Every bounded sequence of postings was journalled by the Clojure code and order, attributes and balances compared with the exact ones.' + TRUSTC),
'C31': (CLJ, 'Every enumerated filter was asked about every enumerated item, and every query run with every list of filters, and all decisions compared with the documented ones.' + TRUSTC),
'C32': (CLJ, 'Every enumerated directive was printed by the Clojure code, read back by limabean-pod and compared field by field; booked ledgers were printed and booked again.' + TRUSTC),
'C33': (CLJ, 'Every pair and many triples of enumerated plugins were run by the Clojure code on ledgers with every shape of directive, and every stage compared in content, provenance, sources and errors with a simulation of the plugins; what raw plugins emit was booked by limabean-pod itself and compared.' + TRUSTC),
'C34': (CLJ, 'Every bounded sequence of erroneous and valid directives with every enumerated set of plugins was loaded by the Clojure code, and what is printed and left in the session compared with the reports of limabean-pod.' + TRUSTC),
'C35': (CLJ, 'Every value of an alphabet to a bounded nesting was turned into a cell and shown by the Clojure code, and compared with the table a model of the values says, laid out by limabean-pod tabulate.' + TRUSTC),
'C36': (CLJ, 'Every bounded sequence of loads, failing expressions, definitions and queries, every enumerated expression, command line and sequence of user files was run through the Clojure main function, and everything printed, the exit status and live processes compared with a model of the session. Command line parser and read-eval-print loop are stand-ins.' + TRUSTC),
'C37': (CLJ, 'Every request of a load was failed in every enumerated way (death before, within and after an answer, at enumerated bytes, answers in pieces) by a stand-in between the Clojure code and the real limabean-pod, and what is loaded, what is printed, the next load and left-over processes compared with the load without failure.' + TRUSTC),
'C38': (CLJ, 'Every single edit of an alphabet was made at every path of every kind of directive by a plugin run by the Clojure code, directly and through a load, and acceptance compared with a reading of the structure. clojure.spec is a stand-in.' + TRUSTC),
'C39': (CLJ, 'Golden tests were run by the Clojure code on every enumerated set of golden files, right or different in any single place, and generation on every set of files present before, and results and files compared with what they should be. matcho, zprint and clojure.test are stand-ins.' + TRUSTC),
'C40': (CASES, 'Every part of requests using every member was removed, replaced by each of an alphabet of values of all JSON types, and extended, alone and in pairs, and sent to the server; acceptance was compared with a reading of the documented structure. Two known findings (D24, D25), in dependencies.'),
}

WTC="The Rust tests exercise none of the Clojure half, its own tests cannot run here and sample a dozen ledgers; "
LB,INV,REG,ROL,JRN,XF,FIL,FMT,PRN=["clj/src/limabean"+x+".clj" for x in ("","/core/inventory","/core/registry","/core/rollup","/core/journal","/core/xf","/core/filters","/core/format","/adapter/print")]
GTE,GCR="clj-test/src/limabean/test.clj","clj-test/src/limabean/test/create_golden.clj"
PLG,LDR,CPOD,CERR,SPC,SYN,USR,DBG,CEL,SHW,TAB,MAI,APP,UCL,EXC=["clj/src/limabean/"+x+".clj" for x in ("adapter/plugins","adapter/loader","adapter/pod","adapter/error","spec","adapter/synthetic_spans","user","adapter/debug","core/cell","adapter/show","adapter/tabulate","main","app","adapter/user_clj","adapter/exception")]
AUT="clj/src/beancount/plugins/auto_accounts.clj"
WT="The repository has two Rust unit tests, both of one balance tolerance; "
p('C01','Every request line gets exactly one answer, carrying its own id',
"""limabean-pod serve answers every line it reads on stdin with exactly one line on stdout, in order: a JSON-RPC 2.0 object with
exactly one of result and error, and the id of the request it answers (null only when the line carries no readable id).
A malformed or unknown request gets an error answer and changes nothing for later requests. At end of input it exits with status 0.""",
['histories','inputs'],"every sequence of request lines (all methods, all id forms, good, malformed and unknown requests) against readable, unreadable and unparsable ledger files",
WT+"no test sends a single JSON-RPC line, and the claim is over all sequences of requests.",
[SRV,RPC],[('serve loop and dispatch',SRV),('request/response types',RPC)])
p('C02','Answers do not depend on earlier requests or on the process',
"""What limabean-pod answers to a request is determined by the ledger file and that request alone (up to the order of unordered collections, including currencies listed in the reason of a report): it is
the same after any history of other requests, successful or failed, and the same in a freshly started process.
The only exception is the span ids handed out for synthetic sources, which depend only on the synthetic sources created before.""",
['histories'],"every ordered pair and triple of requests over an alphabet of methods and parameters, including failing ones, in one process versus fresh processes",
WT+"state leaking between requests shows only in particular histories.",
[SRV],[('HealthyServer holds the parse result; booking builds a fresh accumulator for each request',SRV)])
p('C03','The meaning of a request does not depend on how its JSON is spelled',
"""Two request lines that encode the same JSON value get the same answer: order of object keys, insignificant whitespace, spelling of numbers (number or
decimal string, exponent) and escaping in strings do not matter. Absent optional fields and explicit null are equivalent, except for merge of a cost-spec; the spelling of numbers is free for decimals only, not for span members and ids.""",
['inputs'],"every key order and layout variant, per object and in combination, of a set of requests covering all directive kinds and metadata value kinds",
WT+"nothing exercises deserialisation; streaming deserialisers with flattened and tagged enums take different paths for different key orders.",
[RPC,RAW,SER],[('serde definitions and hand-written visitors',SER)])
p('C04','Only accounts open at that point can be used; open and close follow a lifecycle',
"""An account is usable from its open directive until its close directive. Every posting, balance assertion, pad (target and source) and close that names an account never
opened, or already closed, makes booking fail with an error located at that directive or posting, and at a posting its position is given;
opening an account that is or was open fails too, and errors on closed or reopened accounts relate to the directive that closed or opened it. Booking never fails on account grounds otherwise.""",
['histories'],"every sequence of open, close, transaction, balance, pad and neutral directives over a small set of accounts up to a bounded length",
WT+"neither test closes an account or uses an unopened one; the guarantee is over all directive histories.",
[ACC],[('open_accounts/closed_accounts maps, validate_account',ACC)])
p('C05','Currencies declared at open constrain everything posted to the account',
"""If an account was opened with a list of currencies, every posting (written out, interpolated or generated by a pad) and every balance assertion on it in another currency makes booking
fail, located at the posting or directive and relating to the open directive. An account opened without currencies accepts all, and restrictions of one account never affect another.""",
['histories','inputs'],"every sequence over accounts with no, one and two declared currencies, and postings, balances and pads in each currency",
WT+"neither test declares currencies.",
[ACC],[('AccountBuilder::validate_currency',ACC)])
p('C06','A balance assertion fails exactly when the total is out of tolerance',
"""A balance assertion holds iff the units in its currency of the account and all its subaccounts (account names extended by a colon-separated component, and no others) differ from the asserted
amount by at most the tolerance. The tolerance is the one written, else zero for an amount without decimals, else twice the tolerance multiplier option (0.5 by default) times one unit of the last decimal place written. Booking fails for every assertion that does not hold and for no other.""",
['histories','inputs'],"every history of postings to accounts whose names are prefixes, subaccounts or look-alikes of each other, with every asserted amount on and around the tolerance boundary, per scale, tolerance and multiplier",
WT+"they try two amounts at one scale with the default multiplier on one account.",
[ACC],[('total_rollup_units_for_currency, calculate_balance_margin, effective tolerance',ACC)])
p('C07','A failed balance is reported with its margin and postings, and localised',
"""The report of a failed balance assertion states the asserted minus the actual amount with the currency, and its annotation lists exactly the postings in that currency to the account
and its subaccounts in transactions since the previous balance assertion on the account, in order, each with its date, units, running total, payee or else narration, and, where several accounts are involved, the rest of the account name. The running total starts from the previous assertion's amount if that is in the same currency, else from zero. Afterwards the account counts as holding the asserted amount, so the same discrepancy is not reported again by later assertions.""",
['histories'],"every sequence of postings in two currencies and true or false assertions on an account and its subaccounts up to a bounded length",
WT+"they only look at success or failure of a single assertion.",
[ACC],[('balance_report, balance_window, adjust_account_to_match_balance',ACC)])
p('C08','A pad supplies exactly what the next balance assertion lacks, or is an error',
"""When the first balance assertion on an account after a pad directive would fail, booking instead follows the pad directive with one transaction, dated as the pad and flagged as padding ("'P"), of two postings so flagged: the missing amount to the padded account and its negation to the source account; both accounts then hold these amounts and the assertion holds.
A pad that no assertion follows, that is followed by another pad first, or whose assertion needs no adjustment, or whose source is the padded account itself or a subaccount of it, is an error located at the pad. Pads never affect other accounts or later assertions.""",
['histories'],"every sequence of transactions, pads and balance assertions over padded, source and bystander accounts, subaccounts and two currencies up to a bounded length",
WT+"no Rust test uses pad.",
[ACC],[('AccountBuilder.pad, balance, pad',ACC)])
p('C09','Booked transactions balance, and unbalanced ones are rejected',
"""In every successfully booked transaction the weights of the postings (units; at cost, units times cost; at price, units times price; or the total cost or price with the sign of the units; or for a compound cost the sum of its per-unit and total parts; rounded to the decimal places of the units, or if these have none, of the cost or price) sum to zero in each currency or to less than the inferred tolerance, that is the tolerance multiplier option (0.5 by default) times one unit of the coarsest last decimal place among the weights with decimals in that currency. If none has decimals the tolerance is the inferred_tolerance_default for the currency or for *, inclusive, else zero. A transaction written out in full whose weights do not sum to zero within it fails, at that transaction.""",
['inputs'],"every transaction of two to three postings over a set of amounts, scales, currencies, costs and prices straddling the tolerance boundary",
WT+"both tests book one balanced transaction.",
[ACC,BTY,BK],[('booking adapter traits',BTY),('tolerance from options',BK)])
p('C10','Reductions consume the lots the booking method prescribes, never more',
"""A posting at cost of opposite sign to matching lots is a reduction: it takes whole or part lots that match every cost attribute given (per-unit cost, currency, date, label), FIFO oldest, LIFO newest, HIFO dearest first, STRICT only when the match is unambiguous or takes all that matches, STRICT_WITH_SIZE also when one lot has exactly that size, and NONE matches nothing and just appends.
The booked postings carry the consumed lots' cost, date and label, their units sum to the units written, and the holding of a lot never changes sign; a reduction that is ambiguous or exceeds what is held, or a sale at cost from an account holding none, fails (except with NONE). The account's booking method, else the booking_method option, else STRICT applies; an unsupported method falls back to STRICT.""",
['histories'],"every sequence of purchases and sales over lots that differ in price, date and label, for each booking method given per account or by option, up to a bounded length",
WT+"no Rust test has a cost.",
[ACC,BK,BTY],[('book: splitting of composite costs, positions update, booking method lookup',ACC),('booking method adapters',BTY)])
p('C11','Missing amounts are completed uniquely, or the transaction is rejected',
"""Every booked posting has units and currency. Where a transaction leaves at most one unknown per currency group, that unknown (units, currency, price or cost number) is the value that balances the group, the postings written in full are unchanged, and a posting that leaves everything out absorbs the remainder.
Two unknowns in the same group, and a group that cannot be balanced, or only by a negative price or cost number, are errors located at the transaction.""",
['inputs'],"every transaction of two to three postings in which each of units, currency, cost and price is present or absent, over small amounts",
WT+"both tests write all amounts.",
[ACC,BTY],[('Interpolated to booked posting',ACC),('PostingSpec/CostSpec/PriceSpec adapters',BTY)])
p('C12','All erroneous directives are reported, and have no effect on the others',
"""Booking fails iff at least one directive is in error, and then reports every erroneous directive, each with an index (and posting index) that identifies it in the input. A rejected open, close, transaction or pad changes nothing: the verdict on every other directive is the same as if the rejected directive were not there. Directives other than open, close, transaction, balance and pad never fail and never affect anything.""",
['histories'],"every sequence over an alphabet of valid and invalid directives of every kind, compared with the same sequence with rejected directives removed",
WT+"they see at most one error and cannot relate two runs.",
[ACC],[('collect: error accumulation; book: updates only after validation',ACC)])
p('C13','Booking preserves order, position and content of directives',
"""On success the booked directives are the input directives in input order, each with its input position as idx and with its date, kind, flag, payee, narration, tags, links, metadata, booking, tolerance and other fields unchanged; the only addition is the padding transaction directly after a pad, with the idx, tags, links and metadata of the pad.
Booked postings are in input order, carry their input position, account, flag, tags, links, metadata, and written units and currency.""",
['inputs','histories'],"every directive kind with every combination of its optional fields, alone and in every position of short sequences, and postings with every combination of their fields",
WT+"neither looks at the booked output.",
[ACC,BKD,RAW],[('collect, book',ACC),('booked types',BKD)])
p('C14','parser.directives reports what the ledger file says',
"""Every directive in the ledger file appears exactly once in the parser.directives answer, with the date, kind, flag, strings, accounts, currencies, amounts, tolerance, cost, price, booking method, tags, links and metadata values written in the file (each metadata value under the key naming its type), and nothing that was not written. Answers are ordered by date; on the same date opens come first, then balances, then all others in file order.""",
['inputs'],"every directive kind with every combination of optional elements and every metadata value kind, written to a file, and compared field by field",
WT+"neither looks at the conversion from the parser's types.",
[CONV,RAW,SER],[('From impls from parser types',CONV),('MetaValue serialisation',SER)])
p('C15','Booking the file and booking its parsed directives agree',
"""book without params and book with the directives answered by parser.directives as params have the same outcome: the same booked directives, or the same errors, where the spanned report's span is that of the directive or posting the indexed report identifies, its message names the kind of that element, a posting's report gives its transaction as context, related elements correspond, and reason (up to the order of currencies listed in it) and annotation are equal.""",
['inputs','programs'],"every ledger of up to a bounded number of directives from an alphabet of valid and invalid directives of all kinds, written to files",
WT+"both book directly from the parser's output.",
[SRV,CONV],[('book with and without params',SRV),('create_reports_from_booking_errors',CONV)])
p('C16','Decimal numbers survive exactly',
"""Every decimal number of up to 28 significant digits in a ledger file or request is answered with exactly its value and its written number of decimal places, wherever it appears (units, tolerance, cost, price, metadata, options). Sums and totals derived from them are exact decimal arithmetic, without binary floating point rounding.""",
['inputs'],"every digit-count and scale combination up to 28 digits, sign, and boundary coefficients, in every numeric position of file and request",
WT+"two amounts with two decimals.",
[RAW,SER],[('Decimal with arbitrary precision serialisation',RAW)])
p('C17','Spans resolve to exactly the source text they denote',
"""The span of every directive and posting answered by parser.directives resolves (parser.resolve-spans) to the file it came from, that directive's text (from its first character to the end of its last line, comments directly after it and trailing whitespace apart), and its first and last line numbers; so does any other part of a file, even an empty one, between two characters; one answer for each span in request order, also across includes, non-ASCII text and repeated directives.""",
['inputs'],"every arrangement of a set of directives with blank lines, comments, multi-line transactions and non-ASCII text over one to three files, and every sequence of span requests",
WT+"neither uses spans.",
[SRV,CONV,SER],[('parser_resolve_spans',SRV),('Span conversions',CONV)])
p('C18','Synthetic spans are stable and resolve to their content',
"""parser.create-synthetic-spans answers one span per request item, in order; at any later time each resolves to exactly its name and content (trailing whitespace apart), whatever other sources were created before or after, including with equal names or contents, and all file spans still resolve as before.""",
['histories'],"every sequence of creations and resolutions up to a bounded length over names and contents that collide, are empty, multi-line or non-ASCII",
WT+"neither uses synthetic spans.",
[SRV],[('parser_create_synthetic_spans',SRV)])
p('C19','Formatted reports show every report with its source and annotation',
"""parser.format-errors and parser.format-warnings answer one text that contains, for each report in order, its message and reason, labelled Error or Warning, the file and line of its span, the label of every context ('in this ...') and related element, and the annotation unaltered after the report it belongs to. The text of several reports is that of the single ones joined by newlines.""",
['inputs'],"every combination of optional report parts, and every sequence of up to three reports over spans in files and synthetic sources",
WT+"neither formats a report.",
[SRV,CONV],[('parser_format_report',SRV),('impl parser::Report for Report',CONV)])
p('C20','Options and plugins are answered as written, and options govern booking',
"""parser.options answers each option set in the ledger file with its value under its own name (long_string_maxlines, which matters to the parser only, apart), defaults for the account type names, and nothing for options not set; parser.plugins answers the plugins in file order with their configuration string or null. The options booking_method, inferred_tolerance_default and inferred_tolerance_multiplier take effect in every booking, also of directives passed as parameters.""",
['configurations'],"every single option at several values, every pair of options, and every sequence of up to three plugins with and without configuration",
WT+"both run with default options.",
[CONV,BK,SRV],[('Options conversion',CONV),('book: default method and tolerance from options',BK)])
p('C21','A ledger that does not parse or cannot be read yields errors, never data',
"""If the ledger file, or a file it includes, has a syntax error, parser.plugins, parser.directives, parser.options and book each answer error code 2 with the same non-empty reports, every one with message, reason, a span within the lines of what is wrong in the offending file, and every context its message tells, and at least one for every erroneous fragment; if the ledger file cannot be read every method answers error code 1 naming the file. Partial data is never answered, and status, spans and formatting keep working on an unparsable ledger.""",
['inputs','fault_sequences'],"every position of a syntax error among valid directives and include files, unreadable, missing and non-file paths, with every method",
WT+"both parse valid text.",
[SRV],[('parsed: Err(errors) arms, Server(Err(..))',SRV)])
p('C22','No request makes the server crash or hang',
"""Whatever well-formed directives are sent for booking and whatever spans, reports or sources are sent, in whatever order, and whatever the ledger file contains (nested to less than a thousand levels), limabean-pod answers and keeps serving: it never aborts, panics, exits or blocks before end of input.""",
['inputs','histories'],"every sequence of extreme and degenerate directives (empty transactions, zero and very large numbers, self-referential pads, unopened sources, dates at the limits) and arbitrary spans up to a bounded length",
WT+"panics in lookups and decimal arithmetic need particular histories.",
[SRV,ACC,CONV],[('unwraps and arithmetic',ACC)])
p('C23','The launcher starts the runtime its configuration selects',
"""limabean starts exactly one program: clojure on the local source root if LIMABEAN_CLJ_LOCAL_ROOT is set, else java on the jar if LIMABEAN_UBERJAR is set, else java on the jar named by LIMABEAN_UBERJAR when the launcher was built, else clojure on the released version equal to its own version. Variables which are not UTF-8 count as not set (empty ones as set), and the local root is escaped as an EDN string. LIMABEAN_CLJ_DEPS is appended to the dependencies for clojure, and for java is ignored with a warning on stderr; native access is enabled for the JVM in each case.""",
['configurations'],"all combinations of the environment variables being unset, empty or set, with and without arguments",
WT+"nothing tests the launcher.",
[RUN,LM],[('Runtime::from_env and command',RUN)])
p('C24','The launcher passes arguments, streams and exit status through',
"""All command line arguments reach the started program verbatim, in order and after the launcher's own, including empty ones and ones with spaces, quotes or leading dashes; stdin, stdout, stderr, environment and working directory are the caller's, and the caller sees the program's exit status or signal. --version first prints the launcher's version, -v or --verbose prints the command on stderr, and a runtime that cannot be started gives exit status 1 and a message on stderr.""",
['inputs','fault_sequences'],"every argument list up to a bounded length over an alphabet of awkward arguments, every exit status and signals, and missing, unexecutable runtimes",
WT+"nothing tests the launcher.",
[RUN,LM],[('run, run_or_fail',RUN)])
p('C25','limabean health tells whether the selected runtime can work',
"""limabean health exits 0 iff the program the configuration selects can be started (java must also report success) and, for java, the jar exists, describing them on stderr; otherwise it exits 1 with the reason on stderr. It never starts limabean itself.""",
['configurations','fault_sequences'],"all combinations of selected runtime, program present, failing, absent or unexecutable, and jar present or absent",
WT+"nothing tests it.",
[HL,LM],[('check',HL)])
p('C26','tabulate renders every cell of the table, or fails cleanly',
"""limabean-pod tabulate prints, for every valid cell description on stdin, a text in which every leaf occurs once, in row and stack order, with rows' cells separated by their gutter, columns aligned (left, right, centre, or anchored numbers aligned on the decimal point; where the cells of a column agree on whether they are anchored), and exits 0; for anything else it prints nothing on stdout, an error on stderr, and exits 1. Blanks at line ends and empty lines apart, and for trees of limited nesting.""",
['inputs'],"every cell tree up to a bounded depth and width over leaf kinds and alignments, and malformed inputs",
WT+"nothing tests it.",
[POD],[('tabulate',POD)])
p('C27','Logging never changes what limabean-pod does',
"""With LIMABEAN_POD_LOG and LIMABEAN_POD_LOG_LEVEL set to any values, limabean-pod gives the same answers on stdout and the same exit status as without, for every sequence of requests, and log text goes only to the named file, which holds every request line at level debug and at the default level. Destinations are such as can be opened.""",
['configurations'],"all combinations of log destination (unset, file, file in a directory, empty) and level (unset, each level, nonsense) with request sequences and tabulate",
WT+"nothing runs the binary.",
[POD],[('main: subscriber set up',POD)])

p('C28','An inventory is the sum of the postings',
"""inventory lists, for every account, each currency and lot (the date, currency, number per unit, label and merge flag of a cost) with the exact sum of the units posted in the directives given (postings that the filters select); lots equal in value are one position, however their numbers are written, and what sums to zero is left out. Positions come in order of currency, those without cost first, then by date, currency, number, label. An account whose booking method (its own, else that of the option, else strict) is NONE keeps every posting at cost as a position of its own. Booking method AVERAGE apart.""",
['inputs','histories'],"every sequence of postings up to a bounded length over lots which differ in one attribute, with every booking method by account and by option, and whole ledgers loaded through the server",
WTC+"the sums must be right for every history of lots.",
[LB,INV,REG],[('build, accumulate',INV),('default and own booking method',REG)])
p('C29','A rollup adds subaccounts up exactly',
"""For a currency held by the largest number of accounts, rollup gives every account that holds it its own units, and every ancestor the exact total over the account and all its subaccounts (names extended by a colon), left out where it equals the account's own units; no other account appears, zero sums don't. Totals stand in the column of the account's depth and own units in one column right of them all.""",
['inputs'],"every assignment of holdings, negative, cancelling, in lots and in other currencies, to trees of accounts with look-alike names",
WTC+"look-alike names, cancelling holdings and gaps in the tree are particular combinations.",
[LB,ROL],[('build',ROL)])
p('C30','A journal lists every posting with the exact running balance',
"""journal lists the postings which the filters select, of all transactions in the order of directives and postings, each once, with its transaction's date, payee and narration, the posting's own attributes (without the cost), and the balance: the exact sum so far, per currency, of the postings listed, in order of currency and without zeroes. Other directives contribute nothing.""",
['inputs','histories'],"every sequence of postings up to a bounded length over accounts, currencies and amounts, combinations of attributes, other directives in between, and numbers of every size",
WTC+"running balances depend on the whole history.",
[LB,JRN,XF],[('build',JRN),('postings',XF)])
p('C31','A filter selects exactly what it says',
"""Every filter (date<, date<=, date>, date>=, date>=<, acc, sub-acc, cur, payee-match, narration-match, every-f, some-f, none-f) decides for every directive or posting what its documentation says; items that lack the attribute are never selected by it, dates may be given as text, date, year, year and month, or year, month and day, and ill-formed dates are refused. inventory, journal, balances and income-statement apply all filters given together, the latter two restricting to the account types named in the options.""",
['inputs'],"every filter with every enumerated argument on every enumerated item, combinators nested to a bounded depth, and every query with every list of filters under several account type names",
WTC+"a handful of dates and accounts is all that is ever tried.",
[LB,FIL],[('filters',FIL),('balances, income-statement',LB)])
p('C32','A printed directive reads back as the same directive',
"""The text printed for a directive (at the REPL, alone or with others, and in dumps) is Beancount which parses to an equal directive: same kind, date, accounts, currencies, numbers with their scale, strings with quotes and backslashes, tags, links and metadata. Booked directives printed and booked again give the same, totals and pads apart.""",
['inputs'],"every directive kind with every combination of optional elements, every number form in every place, and booked ledgers of all lot forms",
WTC+"a few golden prints are all there is.",
[FMT,PRN],[('directive->str',FMT),('print-method',PRN)])

p('C33','Plugins run in order, raw ones before booking, and their results are used',
"""The plugins of a ledger run in the order of the file, raw-xf on the directives as parsed and booked-xf on the booked ones, each on what its predecessor emits, with its own config and the options. Directives left alone keep content and source; new or changed ones are validated and carry in :provenance the plugins that made them (after :booked, once, if made after booking) and a synthetic source that reads as they do. What raw plugins emit is booked, in any locale. A plugin that cannot be resolved, throws, makes an ill-formed directive or marks one in error stops the loading there. auto_accounts opens each account of a transaction once, before its first one, unless opened before. LIMABEAN_DEBUG_DIR receives every stage that is reached.""",
['inputs','histories'],"every pair and many triples of plugins with enumerated effects before and after booking, on ledgers with every shape of directive",
WTC+"what one plugin does meets what others did only in particular combinations.",
[PLG,LDR,SYN,SPC,CPOD,AUT,DBG],[('run-plugins-of-kind',PLG),('run-plugins, book-raw-directives',LDR),('merge-with-provenance',SYN),('directive specs',SPC)])
p('C34','Loading a ledger tells every error at its place, or yields its directives',
"""limabean.user/load-beanfile prints on stderr how many directives were read, and then either how many there are after booking and plugins, or every error: parser and booking errors exactly as limabean-pod formats them, those marked by plugins with plugin, message and place (the synthetic source and the original one where it was changed), unresolvable plugins by name, exceptions with their message. With raw plugins booking errors are told at the same places, with the same annotations, related items and enclosing transaction, naming the plugins that changed them. *beans*, *directives*, *options* and *registry* are those of the ledger loaded last; after an error there are no directives, and the server of the ledger loaded before has stopped.""",
['inputs','histories'],"every sequence of erroneous and valid directives up to a bounded length with every enumerated set of plugins, loaded one after the other in one session",
WTC+"errors meet plugins' changes and earlier loads only in particular combinations.",
[LDR,CERR,USR,CPOD],[('resolve-report-idx',LDR),('print-errors',CERR),('load-beanfile',USR)])
p('C35','show prints any value as a table of its parts, each exact and in its place',
"""show turns any nesting of nothing, text, numbers, dates, keywords, characters, booleans, lists, vectors, sets and maps (whether or not their elements or keys can be put in order), and of positions, journal entries and rollups, into one table and answers :ok: every part appears exactly once, in order, maps and sets in order of keys and elements where they have one; numbers in full without exponent, placed by their decimal point; a value of another kind as "?". What inventory, balances, income-statement, rollup and journal answer is shown entirely: account, units, currency, cost, date, payee, narration, flag and balance, totals by depth of account.""",
['inputs'],"every value of an alphabet of leaves and containers to a bounded nesting and length, every combination of optional elements of positions, journal and rollup entries, and queries of enumerated ledgers",
WTC+"which combinations of values meet in one table is unbounded.",
[CEL,SHW,TAB,INV,JRN,ROL],[('cell',CEL),('show',SHW),('render',TAB),('cell :position',INV),('cell :journal/entry',JRN),('cell :rollup/entry',ROL)])
p('C36','A session answers from the ledger last loaded and survives every error',
"""limabean --beanfile (or LIMABEAN_BEANFILE) loads the ledger, then the user's files in LIMABEAN_USER_CLJ in order, each whether or not an earlier one failed, and then answers expressions. Whatever the sequence of loads (valid, erroneous, missing), definitions and failing expressions: queries and globals are those of the ledger last loaded, empty if that failed, definitions persist, an exception is told on stderr and kept in *exception* and the session goes on, and one pod process is alive. --eval evaluates one expression, prints nothing else on stdout, and exits 0, or 1 with the exception on stderr. Bad command lines are refused with status 1 before anything is loaded.""",
['inputs','histories'],"every sequence of session steps up to a bounded length with every query asked after each, every enumerated expression on every ledger, every sequence of options, every sequence of user files up to a bounded length",
WTC+"what a session answers depends on the whole history of steps.",
[MAI,APP,UCL,EXC,USR],[('load-beanfile',USR),('run, try-eval',APP),('validate-args',MAI),('load-user-cljs',UCL),('handle-exception',EXC)])
p('C37','If limabean-pod dies, a load is whole or an error, and the session goes on',
"""The Clojure half talks to a limabean-pod process which may die at any moment: before reading a request, before answering it, within the answer or after it. Wherever that is, loading a ledger either gives
exactly what it gives without the failure, or has an error (or throws one) and no directives; show prints the table or fails with an error; and the session goes on: the next load gives all of its ledger, and no
process is left behind. Answers which arrive in pieces, or with chatter on stderr, change nothing.""",
['crash_points','histories','inputs'],"every request of a load, every enumerated way and point (in bytes of the answer) of failing, on ledgers with and without errors and plugins",
WTC+"no test has a pod that fails.",
[CPOD,LDR,USR,SHW,TAB],[('pod/start, request, stop',CPOD),('load-beanfile and its stages',LDR),('load-beanfile',USR),('tabulate',TAB)])
p('C38','What plugins make is of the published structure, or the load is an error',
"""Whatever a plugin emits (a directive it changed, or one it inserted, at any moment, even while flushing) must be a directive of the published structure (limabean.spec): the required fields of its kind there, each field, at whatever
depth (postings, costs, prices, metadata, values), of its type, no ambiguous currency in an open; fields not in the specification are ignored. If it is not, the load has an error of that stage and no directives; if it is, it is accepted. What
plugins emit for other plugins is checked as well, after each of them. :dct must be one of the known kinds.""",
['inputs'],"every single edit (every value of an alphabet of values of every type, and removal) at every path of every kind of directive, raw and booked, changed or inserted, by the first, last or an inner plugin",
WTC+"the claim is over all that plugins could emit.",
[SPC,PLG,LDR],[('the specifications',SPC),('run-plugins-of-kind',PLG),('load-beanfile',LDR)])
p('C39','A golden test passes exactly if the output is what the golden files say',
"""Golden tests (limabean.test) are found by file: one for every *.beancount below the root which is not *.fyi.beancount and has beside it a directory of its name with .golden. For each golden file there the test
passes if and only if what the ledger gives now is what the file says: raw-xf-directives.edn, directives.edn and error.edn equal in every part, nothing missing, nothing added; inventory, rollup and journal byte for byte. Testing changes
no file. Generating golden output for a root rewrites the golden files which are there and adds those the ledger's plugins call for, with their .fyi.beancount; for a ledger in error only error.edn; it touches no other file, and tests of what it generated pass.""",
['inputs'],"every set of golden files of ledgers of every outcome, every single difference in each of them, every set of files present before generating, every pair of enumerated names and places of ledgers",
"The tests of the repository which use this are among those that need Clojure; that a golden test fails whenever something differs is what no golden test shows.",
[GTE,GCR,LDR],[('find-golden-tests, api-tests, app-tests',GTE),('update-all',GCR),('load-beanfile',LDR)])
p('C40','A request is carried out only if all of its parameters have their structure',
"""If any part of the params of book, parser.resolve-spans, parser.create-synthetic-spans, parser.format-errors or parser.format-warnings is not of the structure of its place (a required member missing, a value of another JSON type, an unknown method, kind
of directive or booking method, a date not exactly YYYY-MM-DD, a span not three non-negative integers, a metadata value with no, an unknown or a further member), wherever it is and however many, the request is refused with error code -32700
and its id, and nothing of it is carried out; a request all of which is well-formed is never refused as malformed. Members nobody knows are ignored, optional members may be null.""",
['inputs'],"every removal, replacement by every value of an alphabet of all JSON types, and addition at every place of requests which use every member, alone and in pairs",
WT+"nothing sends a request, let alone a misshapen one; the hand-written deserialisers and derived defaults decide this place by place.",
[SER,RAW,RPC],[('MetaValue and Span visitors, MetaKey',SER),('directive types',RAW),('deserialize_optional_date, parse_iso8601date','rust/src/api/types.rs'),('Params, OptionalParams',RPC)])

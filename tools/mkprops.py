#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
             why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    P.append(d)

p("C01", "In-place rewrites are crash-atomic",
  "When a command that rewrites ledger files in place (coin format -i, coin modify, coin test filling in empty results) is killed, or the machine loses power, at any instant (also after an operation has failed), every file it was given is afterwards present under its own name with either its complete previous content or the complete new content. Whatever else the crash leaves behind never changes what a later command reads, and running the same command again succeeds and completes the rewrite.",
  ["crash_points", "fault_sequences", "inputs"],
  "every crash point (kill between or inside any two file operations, torn writes; power loss keeping only synced data and any prefix of the directory changes) of every rewriting command over every ledger",
  "The tests run each rewriter once, to completion, with no crash; the window in which the file is missing or partial cannot be observed after a successful run.",
  ["cmd/coin/format.go", "cmd/coin/modify.go", "cmd/coin/test.go", "coin.go"],
  [("write a temporary file next to the original, then rename it over the original", "cmd/coin/format.go:execute, cmd/coin/modify.go:execute, cmd/coin/test.go:updateTestFile"),
   ("temporary files do not end in .coin so the *.coin and *.prices globs never load them", "coin.go:LoadAll, coin.go:LoadPrices")],
  [("file name -> content", "what survives the crash on the simulated disk", "VFS")],
  ["directory content after the crash", "output of later reports"])

p("C02", "A failed in-place rewrite is reported and never damages the ledger",
  "If any file operation of an in-place rewrite fails (disk full, I/O error, short write, too many open files, permission), every file it was given still has its complete previous content or its complete new content. The command exits with a non-zero status unless every file it was given has its complete new content.",
  ["fault_sequences", "inputs"],
  "every file operation of every rewriting command failing with every applicable error, alone or in combination, over every ledger",
  "No test injects a disk error; the error returns of the writing calls are exercised only on success.",
  ["cmd/coin/format.go", "cmd/coin/modify.go", "cmd/coin/test.go", "transaction.go", "posting.go", "check/check.go"],
  [("errors returned by Transaction.Write and the file operations are checked before the original is replaced", "cmd/coin/format.go, cmd/coin/modify.go, cmd/coin/test.go"),
   ("check.NoError reports on stderr and exits 1", "check/check.go")])

p("C03", "A rewrite is invisible to concurrently running commands",
  "While ledger files are being rewritten in place, a report or another rewrite running at the same time finds each file complete, with either its previous or its new content: no file is ever missing, empty or partial, also when the rewrite fails or is killed. A report therefore equals the report on some combination of old and new file contents, and when two rewrites of one file race, the file ends with the complete result of one of them or of both in sequence.",
  ["schedules", "inputs"],
  "every interleaving of the file operations of one or two rewriting commands with each other and with a reporting command",
  "The tests run one command at a time.",
  ["cmd/coin/format.go", "cmd/coin/modify.go", "cmd/coin/test.go", "coin.go"],
  [("replacement by one atomic rename of a uniquely named temporary file", "cmd/coin/format.go:execute, cmd/coin/modify.go:execute, cmd/coin/test.go:updateTestFile")])

p("C04", "Unreadable input is never reported as if it were complete",
  "If any part of the input of a command cannot be read (a file fails to open or fails in the middle, the ledger directory cannot be listed, an import file is cut off by an error), the command exits with a non-zero status, unless what it prints is exactly what it prints when everything can be read. How the operating system slices the reads never changes the result.",
  ["fault_sequences", "inputs"],
  "every open, read, stat and directory operation of every command failing, and every slicing of reads, over every ledger, OFX/QFX, CSV and GnuCash input",
  "The tests read from memory or from healthy local files.",
  ["coin.go", "parser.go", "include.go", "cmd/ofx2coin/main.go", "cmd/ofx2coin/bmo.go", "cmd/csv2coin/main.go", "gnucash/gnucash.go"],
  [("check.NoError on open and parse errors, Scanner.Err returned by the parser", "coin.go:Load, parser.go:Next"),
   ("directory listing selects the files to load", "coin.go:LoadAll, coin.go:LoadPrices, include.go:Files")])

p("C05", "Output that could not be written is reported",
  "A command exits with status 0 only if everything it was asked to produce has been written completely: if writing its standard output or one of its output files fails or is cut short (disk full, closed pipe, I/O error), it exits with a non-zero status. This holds for every command that prints or writes a ledger, a report, generated data or an HTML export.",
  ["fault_sequences", "inputs"],
  "every write, close and create of every command failing or stopping short at every byte position",
  "The tests write into in-memory buffers, which cannot fail.",
  ["cmd/coin/main.go", "cmd/coin/format.go", "cmd/ofx2coin/main.go", "cmd/csv2coin/main.go", "cmd/gc2coin/main.go", "cmd/gen2coin/main.go", "cmd/coin2html/main.go", "transaction.go"],
  [("writers propagate errors to the command, which exits through check", "transaction.go:Write, posting.go:Write, cmd/*/main.go")])

p("C06", "The same command on the same files always prints the same bytes",
  "Running a command twice on unchanged input files prints the same bytes on standard output and exits with the same status, whatever internal iteration order, read slicing and time of day the two executions happen to have. Which files exist besides the input, and in what order their entries were created in the directory, does not matter either.",
  ["schedules", "configurations", "inputs"],
  "every iteration order of every hash map in the program, every directory entry order, every slicing of reads and every time of day (same calendar date), for every command and ledger",
  "Go randomises map order per execution, so a test samples one order per run and passes or flakes.",
  ["coin.go", "commodity.go", "account.go", "tags.go", "cmd/coin/totals.go", "cmd/coin/register.go", "cmd/coin/balance.go", "cmd/coin/stats.go", "cmd/coin/tags.go", "rules.go"],
  [("names collected from maps are sorted before use", "coin.go:AccountsDo, coin.go:CommoditiesDo, tags.go:Keys, cmd/coin/tags.go"),
   ("stable ordering of transactions and postings", "coin.go:ResolveTransactions, account.go:sortPostings")])

p("C07", "Dates are resolved against today as documented",
  "A date without a year is the occurrence of that day closest to today, a two-digit year is the year with those digits closest to today, and an offset alone is counted from today; a date with a four-digit year means the same on any day. Today is one calendar date, the local date of the system clock, for all dates resolved by one run of a command, even if the clock passes midnight or is adjusted while it runs.",
  ["configurations", "schedules", "inputs"],
  "every clock setting (any date and time, any time zone), every clock jump while the command runs, every date expression in ledger files and command line options (offsets that overflow a month and exact ties left open)",
  "The tests fix today to one or two dates and never move the clock during a run.",
  ["date.go", "cmd/coin/totals.go", "transaction.go", "price.go"],
  [("today is sampled once per process", "date.go:init"),
   ("distance to today decides the year", "date.go:parseDate")])

p("C08", "Formatting settles a ledger so the clock no longer matters",
  "After coin format -i (or coin modify) has run on a file at some moment, every later command reads every transaction of that file with the date it denoted at that moment, however far or in whichever direction the clock moves afterwards. Reformatting the file at any later clock setting leaves it unchanged byte for byte.",
  ["histories", "configurations", "inputs"],
  "every sequence of edits with relative or abbreviated dates, rewrites and reports, separated by arbitrary forward and backward clock movements including year and century boundaries",
  "The tests never run two commands at different dates.",
  ["date.go", "transaction.go", "cmd/coin/format.go", "cmd/coin/modify.go"],
  [("transactions are written with a full year/month/day", "transaction.go:Write, date.go:DateFormat")])

p("C09", "No history of appends, rewrites and faults loses or alters a transaction",
  "Through any sequence of appending transactions, formatting, modifying and re-reporting, with crashes and I/O errors in between, the ledger files contain exactly the transactions entered: same date, code, description, notes, accounts, quantities and balance assertions, with elided quantities filled in, sorted by date with same-day order kept (except that a rewrite puts the transactions of a day that carry balance assertions after those that do not). The only differences are the account moves and tags requested through coin modify, which are applied to every matching posting or transaction and to nothing else, and coin modify reports how many transactions it changed. Formatting to standard output prints the same transactions and leaves the files alone (-ledger only puts commodities in quotes that ledger needs quoted).",
  ["histories", "fault_sequences", "inputs"],
  "every sequence of append, format -i, modify and report operations over several files, with crashes, retries and I/O errors, over generated ledgers",
  "The tests check single formatting or modification steps on a few hand-written transactions.",
  ["transaction.go", "posting.go", "coin.go", "cmd/coin/format.go", "cmd/coin/modify.go", "tags.go", "account.go"],
  [("parse then write is lossless", "transaction.go:parseTransaction, transaction.go:Write, posting.go:Write"),
   ("selection by payee, tag and account; posting moved or tagged", "cmd/coin/modify.go:modify, posting.go:MoveTo")])

p("C10", "Reports equal the arithmetic of the ledger at every point of its history",
  "At every point of a ledger's life the balance, register, stats, tags, accounts, commodities and price reports agree with the transactions in the files: each account's balance is the sum of its selected postings, cumulative balances include the descendants, a shortened account expression (words of consecutive path elements, :: for any number of elements) stands for the account it matches, amounts in another commodity count at its latest price (directly, or through other commodities where there is no direct price) and a report that needs a conversion no price allows fails, a register lists each selected posting exactly once in date order (those of an account on one day in ledger order) with the correct running total, aggregated periods and categories contain exactly the postings that belong to them, and counts are exact. Every command that loads the transactions reports each balance assertion that does not hold (as a warning), and no other; a ledger with a transaction in a single commodity that does not balance, several elided quantities, an elided quantity among several commodities, an unknown account or commodity, an account expression that matches several accounts other than one account and those below it, or an unreadable line is rejected with a non-zero status.",
  ["histories", "inputs", "schedules"],
  "every history of ledger files split, included, appended, reformatted and modified in any order, every iteration order, and every combination of the begin, end, aggregation and recursion options",
  "The fixtures compare a few dozen reports of fixed ledgers.",
  ["coin.go", "account.go", "transaction.go", "amount.go", "cmd/coin/balance.go", "cmd/coin/register.go", "cmd/coin/totals.go", "cmd/coin/stats.go", "cmd/coin/tags.go", "cmd/coin/postings.go"],
  [("postings attached to accounts and sorted, balances accumulated and checked", "coin.go:ResolveTransactions, account.go:CheckPostings"),
   ("period reduction and merging of totals", "cmd/coin/totals.go")])

p("C11", "Importing bank statements is exactly-once",
  "Whatever the overlap, order, repetition and interruption of OFX/QFX statement imports into a ledger whose accounts and rules stay the same, each bank transaction of a mapped account that the rules do not drop ends up in the ledger exactly once, with its amount, date and payee and on the account of the statement; a transaction already present in the ledger (same date, accounts and amounts, such as a transfer that also appears in the statement of the other account, or one entered by hand before, or one whose description or notes were edited since) is not emitted again, and its removal is reported; transactions of the user's own that differ in a day, an account or an amount hold nothing back. The closing balance of a bank account statement (not a credit card statement) becomes a balance assertion on the last transaction it lists, and it survives the removal of duplicates within one import.",
  ["histories", "fault_sequences", "inputs"],
  "every sequence of downloads (overlapping, repeated, split over several files and accounts, with any time-of-day and time-zone stamps), imports appended to the ledger, crashes and retries",
  "The tests check payee trimming and a duplicate test within one in-memory batch; no test imports a statement, let alone two.",
  ["cmd/ofx2coin/main.go", "transaction.go", "account.go", "rules.go"],
  [("duplicates are looked up by day among the existing transactions", "cmd/ofx2coin/main.go, transaction.go:Day, transaction.go:FindEqual, transaction.go:IsEqual"),
   ("balance assertions are merged into the retained transaction", "transaction.go:MergeDuplicate")])

p("C12", "An import converts every record or fails",
  "A CSV or OFX import that exits with status 0 has emitted one transaction for every record of its input that the options select, with that record's amount, date and accounts as directed by the rules (blank lines and lines between the groups of rules change nothing), in date order. The rules printed by -rules, used as the rules file, direct the import the same way, and -ids lists the accounts with bank ids. This does not depend on how the input stream is sliced, on a missing newline at its end, or on filters that repair bank files being enabled.",
  ["fault_sequences", "inputs"],
  "every input file and rule set, every slicing of the stream, every truncation and every failing read",
  "The tests cover rule parsing and a few rows held in memory.",
  ["cmd/csv2coin/main.go", "cmd/csv2coin/rules.go", "cmd/ofx2coin/main.go", "cmd/ofx2coin/bmo.go", "rules.go"],
  [("record loop until end of file", "cmd/csv2coin/main.go"), ("line filter between file and OFX parser", "cmd/ofx2coin/bmo.go:Read")])

p("C13", "Generated ledgers are valid whatever the random choices",
  "For every outcome of its random choices and every clock setting, gen2coin produces a ledger that coin loads without error and in which every transaction balances. Printing it to standard output writes no file. With output split into files, each generated transaction is in exactly one file, the one of its period, and all dates lie within the requested range. When both ends of the range are given, each sample rule gets, in every whole period of the range, the number of transactions it asks for, on different days among those it names, between its accounts, with an amount within its bounds (or the balance to repay, or the interest).",
  ["schedules", "configurations", "inputs"],
  "every sequence of random choices, every begin/end range and file split option, every clock setting",
  "The generator is seeded from the clock and its output is not tested.",
  ["cmd/gen2coin/main.go", "cmd/gen2coin/dates.go", "cmd/gen2coin/rule.go", "cmd/gen2coin/rules_personal.go"],
  [("each rule posts a balanced transaction", "cmd/gen2coin/rule.go"), ("files are cut at period boundaries", "cmd/gen2coin/main.go")])

p("C14", "Quote updates survive network faults and print exact prices",
  "When coin commodities -q fetches quotes, every commodity whose quote the service delivers gets exactly one price line with exactly the delivered price, rounded to the currency's precision, whatever happens to the other requests. A request that fails, times out or returns nothing is reported and affects no other commodity, and each printed line can be loaded back as a price.",
  ["fault_sequences", "inputs"],
  "every combination of delivered, failed, empty, malformed and delayed responses, every price value",
  "The tests never contact the quote service.",
  ["cmd/coin/commodities.go", "commodity.go", "amount.go", "price.go"],
  [("one request per quoted commodity, errors logged per request", "cmd/coin/commodities.go:execute"), ("conversion of the quoted price to an amount", "commodity.go:NewAmountFloat")])

p("C15", "Updating a test file fills the gaps and nothing else",
  "When coin test fills in empty results, every other line of the test file and of the files it includes is preserved, in order, every empty result becomes exactly what the command prints, and results that were present are left alone, right ones reported as OK and wrong ones as failed. Running coin test again afterwards reports success and changes nothing, on every iteration order.",
  ["histories", "schedules", "inputs"],
  "every test file with any mix of empty, correct and wrong results, several tests, included files, executions with any iteration order",
  "The fixtures only exercise tests whose results are already filled in.",
  ["cmd/coin/test.go", "test.go"],
  [("results are spliced in after the line of each test", "cmd/coin/test.go:updateTestFile"), ("a test's output is compared with the recorded one", "cmd/coin/test.go:execute")])

p("C16", "GnuCash conversion carries over every transaction or fails",
  "A gc2coin run that exits with status 0 has carried every account, commodity, price and transaction of the database over exactly once, into the file of its year when the output is split by year, whatever time zones the dates are recorded in, and in date order (with -l also in a form ledger reads, the same without the bank ids and with some commodities in quotes). The result loads in coin with the same balances as in the GnuCash database, and a truncated or corrupted database is rejected with a non-zero status, as is any other input or output error that would lose part of it.",
  ["fault_sequences", "inputs", "configurations"],
  "every database within the supported format with dates in mixed time zones around year ends, every storage corruption (truncation, flipped bytes) and I/O error",
  "The GnuCash importer has no tests.",
  ["cmd/gc2coin/main.go", "gnucash/gnucash.go", "gnucash/account.go", "gnucash/transaction.go", "gnucash/split.go", "gnucash/price.go", "gnucash/commodity.go"],
  [("decode every element, resolve references, write sorted", "gnucash/gnucash.go:Load, cmd/gc2coin/main.go")])

p("C17", "Loading includes always terminates with every file read once or an error",
  "Loading a ledger whose files include other files (by relative path, absolute path, pattern or environment variable) reads each inclusion exactly once per include line and in place, or ends with an error: an include cycle of any length is reported with a non-zero status and never hangs, and a failing or missing included file is never silently skipped.",
  ["inputs", "fault_sequences"],
  "every include graph (trees, shared files, cycles of any length), every limit on open files, every failing file operation",
  "The tests have two fixed include files; the code itself notes that nested loops are not caught.",
  ["include.go", "coin.go"],
  [("include resolution and recursive load", "include.go:Files, coin.go:Load")])

p("C18", "The exported page carries the whole ledger",
  "At every point of a ledger's life the page written by coin2html embeds every commodity, price, account and transaction of the ledger exactly once, prices and transactions in date order, with exact quantities, the running balance of the account after each posting (the asserted balance where there is one), notes and tags, and the file and line of each entry. The data is well-formed JSON that cannot end its script element early, whatever the texts in the ledger.",
  ["histories", "inputs", "schedules"],
  "every ledger and history of it, every text, every iteration order",
  "The exporter has no tests.",
  ["cmd/coin2html/main.go", "transaction.go", "posting.go", "account.go", "price.go", "commodity.go", "amount.go", "coin.go"],
  [("JSON encoding of every entity", "transaction.go:MarshalJSON, posting.go:MarshalJSON, account.go:MarshalJSON, price.go:MarshalJSON, commodity.go:MarshalJSON"),
   ("running balances filled in while the postings are checked", "account.go:CheckPostings")])

p("C19", "Commands write only what they are meant to write",
  "A report, a listing, an import, an export, formatting to standard output and a test run without gaps to fill change, create and remove no file. A command that rewrites files in place or writes output files touches only the files it was given, or files in its output directory, and a successful one leaves no temporary file behind. This holds as well when operations fail or the command is killed at any instant (an interrupted rewrite may leave a temporary file next to the file it was rewriting).",
  ["inputs", "faults", "crash points", "schedules"],
  "every command line, every ledger, every fault and every crash point",
  "Tests run commands in memory and do not look at the disk at all.",
  ["cmd/coin/main.go", "cmd/coin/format.go", "cmd/coin/modify.go", "cmd/coin/test.go", "cmd/gc2coin/main.go", "cmd/gen2coin/main.go", "cmd/ofx2coin/main.go", "cmd/csv2coin/main.go", "cmd/coin2html/main.go", "coin.go"],
  [("in-place rewrites", "cmd/coin/format.go:execute, cmd/coin/modify.go:execute, cmd/coin/test.go:execute"),
   ("output files", "cmd/gc2coin/main.go, cmd/gen2coin/main.go")])

p("C20", "A file is formatted the same way however it is asked for",
  "The text coin format prints for a file is exactly what coin format -i (and coin modify when there is nothing to modify) writes to it, whether the file is given alone or together with others and in which order, on the first attempt or when an interrupted attempt is repeated. Formatting the result again changes nothing.",
  ["inputs", "faults", "crash points", "histories"],
  "every ledger, every selection and order of files, every interruption of the first attempt",
  "Tests format in memory, without files, replacement or interruptions.",
  ["cmd/coin/format.go", "cmd/coin/modify.go", "transaction.go", "posting.go", "coin.go"],
  [("formatting loop over files with shared state", "cmd/coin/format.go:execute, coin.go:DropTransactions"),
   ("modify writes through the same formatter", "cmd/coin/modify.go:execute")])

# pure properties, listed but not claimed with this technique
p("C90", "Amount arithmetic is exact decimal arithmetic",
  "Adding, negating, parsing and printing amounts never loses or invents digits within the commodity's precision, for quantities of any size, and amounts of different commodities are never combined.",
  ["inputs"], "all amounts and precisions", "Unit tests sample a handful of values.",
  ["amount.go", "pow10.go"], [("big integers scaled by the commodity's decimals", "amount.go")])
p("C91", "Account expressions select as documented",
  "An account expression selects an account if and only if the documented rules (elided path parts, double colon, exact match first, unambiguous match) say so.",
  ["inputs"], "all account trees and expressions", "Unit tests sample a few expressions.",
  ["coin.go", "account.go"], [("pattern to regular expression", "coin.go:ToRegex, coin.go:MustFindAccount")])
p("C92", "The HTML viewer shows the exported ledger faithfully",
  "The interactive page shows, for every selection of account, period and aggregation, totals that equal those of the exported transactions.",
  ["inputs", "programs"], "all ledgers and user interactions", "The TypeScript tests cover small helpers only.",
  ["cmd/coin2html/js/src"], [("client-side aggregation", "cmd/coin2html/js/src")])
here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P))

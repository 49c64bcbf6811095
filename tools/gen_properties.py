#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit; run after changing)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

MERGE = ["src/merge/merger.rs", "src/merge/posting.rs", "src/merge/transaction.rs", "src/merge/cmd.rs", "src/merge/sources.rs"]
MOUT = ["stdout / -o file of `accountmerge merge`", "the -u file", "exit status"]

p("C01", "A merge accounts for every input posting exactly once",
  "When `merge` succeeds, every input posting (identified by its fingerprint tags) ends up in exactly one place: all of its fingerprints are on one single posting of the merged journal, or its transaction is in the unmerged output. No posting, fingerprint or transaction appears in the outputs that came from no input, and no fingerprint is on two merged postings.",
  ["inputs", "histories"], "All sequences of input journals (any number of files, transactions, postings, multi-fingerprint postings, soft and fingerprint matches, partially matching transactions, ambiguous ones) that merge accepts.",
  "The unit tests merge at most two hand-written journals with a handful of postings; conservation must hold for every combination of matches, additions and ambiguities over any number of files.",
  MERGE, [("every source posting gets a New / MergeIntoExisting / LeaveUnmerged action and each is applied once", "src/merge/merger.rs Merger::to_transaction_merge_action, apply_pending"), ("fingerprint index with one owner per fingerprint", "src/merge/posting.rs IndexedPostings::register_fingerprints"), ("rebuild of the journal from both arenas", "src/merge/merger.rs Merger::build")], MOUT,
  [("post_by_fingerprint", "owner posting of each fingerprint", "src/merge/posting.rs"), ("posts_by_date", "soft match candidates", "src/merge/posting.rs")])

p("C02", "Merge matches postings exactly as the documented lookup says",
  "Each source posting is matched first by fingerprint and otherwise by a soft match (same transaction date, same amount, equal balances when both have one, equal accounts unless either is tagged unknown-account) against the postings merged from earlier source sets only, never against its own set. A single match is merged into that posting, no match creates a posting in the transaction the sibling postings matched into, or in a new transaction copied from the source when none matched.",
  ["inputs", "histories"], "All sequences of journals accepted by merge, with generated collisions in dates, amounts, prices, balances, accounts, unknown-account tags and fingerprints.",
  "Tests fix about ten hand-made matchings; the lookup is a function of the whole history of merged postings and of every field combination, so it has to be compared with an independent model over generated histories.",
  MERGE, [("fingerprint lookup, then soft match by date index", "src/merge/posting.rs IndexedPostings::find_matching_postings, matches"), ("default destination transaction", "src/merge/merger.rs find_existing_dest_trn"), ("planning against the state before the set (make_pending before apply_pending)", "src/merge/merger.rs Merger::merge")], MOUT)

p("C03", "Merging into an existing posting only ever adds information",
  "When a source posting is merged into an existing posting, the existing amount, reality, date and transaction details stay; the account changes only from an unknown-account posting to the source's known account (dropping the unknown-account tag); a balance is only filled in when absent; status only moves from none to any or from pending to cleared. Flag tags become the union (unknown-account excepted, which is never gained), comment text lines are appended without exact duplicates, and value tags become the union with the source's value winning for a shared key.",
  ["inputs", "histories"], "All pairs and chains of postings that match each other, over every combination of status, reality, account knowledge, balance, price, tags, value tags and comment lines on either side.",
  "Six example pairs exist; the combination rule ranges over the product of all fields of both postings and over chains of several merges.",
  ["src/merge/posting.rs", "src/comment.rs", "src/merge/merger.rs"], [("field-wise posting merge", "src/merge/posting.rs merge"), ("tag/line/value merge", "src/comment.rs Comment::merge_from")], MOUT)

p("C04", "Ambiguous matches are never guessed",
  "If any posting of a source transaction soft-matches two or more existing postings, the whole transaction goes to the unmerged output with its date, description, postings and metadata intact, and each ambiguous posting carries exactly one candidate tag per matching posting, naming a fingerprint of that posting. The merged journal is exactly what it would have been had that transaction been absent from its input.",
  ["inputs", "histories"], "All histories in which some source posting matches several existing postings, with the ambiguous posting at any position, several ambiguous postings, multi-fingerprint candidates, and other transactions around it.",
  "One example covers it; the guarantee is about every position, number of candidates and surrounding merge activity.",
  MERGE, [("Many soft matches add candidate tags and give no action", "src/merge/merger.rs determine_posting_action"), ("one missing action leaves the whole transaction unmerged", "src/merge/merger.rs MergeActionsAccumulator")], MOUT)

p("C05", "Merging again what was already merged changes nothing",
  "If a merge leaves nothing unmerged and writes journal M, then merging M followed by all the same inputs in the same order gives M again, and merging M alone gives M byte for byte. Re-importing data that is already in the journal therefore never duplicates or alters it.",
  ["inputs", "histories"], "All sequences of journals whose merge succeeds with nothing unmerged.",
  "No test merges the result of a merge; idempotence is a statement about every reachable journal.",
  MERGE + ["src/comment.rs"], [("fingerprint match before soft match", "src/merge/posting.rs find_matching_postings"), ("idempotent posting and comment merge", "src/merge/posting.rs merge, src/comment.rs merge_from")], MOUT)

p("C06", "Merging files one after another equals merging them all at once",
  "If merging files F1..Fn in one command succeeds, then merging F1..Fk into a journal and then merging that journal with Fk+1..Fn produces the same merged journal and the same unmerged transactions, for every split point k.",
  ["inputs", "histories", "configurations"], "All sequences of two or more journals that merge together, and all ways to split the sequence into successive invocations.",
  "Tests keep one in-memory merger; the persisted journal is the only state carried between invocations, and no test writes it out and reads it back in the middle of a history.",
  MERGE + ["src/comment.rs", "src/filespec.rs"], [("postings are indexed under their parent transaction's date", "src/merge/merger.rs apply_post_actions_to_trn, src/merge/posting.rs add"), ("journal serialisation round trip", "src/internal.rs, src/comment.rs")], MOUT)

p("C07", "Merge refuses unidentified or contradictory input, and only that",
  "Merge fails, writing no output, exactly when some posting has no fingerprint, a posting still has a candidate tag, one source set has a fingerprint on two postings, a posting's fingerprints belong to several existing postings, two postings of a source set match the same existing posting, a source transaction's postings match postings of several existing transactions, or transactions are left unmerged and no unmerged file was given. Otherwise it exits with status 0 and writes the result.",
  ["inputs", "histories", "configurations"], "All sequences of journals, with each kind of contradiction injected at any position, and clean ones.",
  "Each refusal has at most one example and none checks that acceptable histories of any shape are accepted, or that the command wrote nothing.",
  MERGE, [("input validation", "src/merge/posting.rs Input::from_posting_internal"), ("duplicate fingerprints in a set", "src/merge/merger.rs to_transaction_merge_action"), ("conflicting destinations", "src/merge/merger.rs check_pending, find_existing_dest_trn"), ("unmerged without -u", "src/merge/cmd.rs Command::run")], MOUT)

p("C08", "Merged journals are in date order and otherwise stable",
  "Transactions of the merged journal are sorted by date; transactions of equal date keep the order in which they first entered the merge (order of source sets, then order in the set). Within a transaction the postings that were there first keep their order and added postings follow in the order they were added; unmerged transactions keep input order.",
  ["inputs", "histories"], "All sequences of journals accepted by merge, with unsorted dates, many equal dates and additions into transactions of other dates.",
  "One example with three transactions; hash-map iteration feeds the sort, so stability must hold for every number of dates and transactions and every hash seed.",
  ["src/merge/transaction.rs", "src/merge/merger.rs"], [("date buckets in insertion order, buckets sorted", "src/merge/transaction.rs IndexedTransactions::into_iter"), ("postings appended to their transaction", "src/merge/transaction.rs add_post_to_trn")], MOUT)

p("C09", "Source-file tags separate input sets and never leak into the result",
  "Transactions of one input file are merged as separate source sets per value of their source-file value tag (transactions without it belong to a set named after the file), in ascending order of the source name, keeping their order within a set. Unmerged transactions carry a source-file value tag that is the original one or names the input file, and no transaction of the merged journal has that tag.",
  ["inputs", "histories"], "All files mixing transactions with and without source-file tags, with any source names, including ones whose sets match or contradict each other.",
  "No test covers source grouping at all.",
  ["src/merge/sources.rs", "src/merge/cmd.rs", "src/tags.rs"], [("grouping and sorting by source", "src/merge/sources.rs read_ledger_file"), ("stripping", "src/merge/sources.rs strip_sources")], MOUT)

p("C10", "Every command is deterministic",
  "Running the same command (merge, apply-rules, fmt or any import) again on the same input files gives the same exit status and byte-identical output files and standard output, whatever the time, time zone, locale and other environment. Only generate-fingerprints may differ between runs, and only in the fingerprint values it invents.",
  ["inputs", "schedules"], "All inputs, over repeated processes with different hash seeds; inputs with several tags, value tags, dates, sources and candidates per posting.",
  "A single test run sees one hash seed, and most tests compare data structures rather than bytes.",
  ["src/comment.rs", "src/merge/merger.rs", "src/merge/posting.rs", "src/merge/sources.rs", "src/merge/transaction.rs"], [("sorted tags and value tags on output", "src/comment.rs into_opt_comment"), ("sorted dates and sources", "src/merge/transaction.rs, src/merge/sources.rs"), ("choice of the candidate fingerprint", "src/merge/posting.rs primary_fingerprint")], ["stdout", "output files", "exit status"])

p("C11", "fmt preserves what a journal means and is idempotent",
  "`fmt` rewrites each readable journal so that it still contains the same items in the same order: the same transactions (dates, effective dates, status, code, description), postings (status, account, reality, amount, commodity, lot price, price, balance), comment text, commodity prices, includes, comment lines and blank lines. Formatting an already formatted file leaves it byte-identical.",
  ["inputs"], "All journals in the supported grammar, in any of its layouts (inline comments, separators, date separators, spacing, tabs, CRLF, quoted commodities, missing final newline).",
  "fmt has no test at all.",
  ["src/fmt.rs", "src/filespec.rs"], [("parse and print the whole file", "src/fmt.rs Cmd::run"), ("journal reading and writing", "src/filespec.rs read_ledger_file, write_ledger_file")], ["the rewritten file"])

p("C12", "Posting and transaction metadata survives every rewrite",
  "When merge, apply-rules or generate-fingerprints carries a transaction or posting over, its flag tags, value tags (including empty values and values with colons) and comment text lines are the same afterwards, up to the documented changes of that command. Rewriting its own output changes no byte, and text that merely contains colons never turns into tags.",
  ["inputs"], "All comments made of text, flag tag groups of any length and number, value tags with any value, mixed lines and inline or following comment lines, on transactions and postings.",
  "About 25 one-line examples of parsing or printing; the round trip through the file over arbitrary mixes (long tags, several groups on a line, text with colons, Unicode) is not tested.",
  ["src/comment.rs", "src/internal.rs"], [("comment parsing", "src/comment.rs from_opt_comment"), ("comment printing", "src/comment.rs into_opt_comment"), ("carrying comments with postings", "src/internal.rs")], ["output journals"])

p("C13", "generate-fingerprints completes fingerprints and touches nothing else",
  "After generate-fingerprints every posting has at least one fingerprint tag; postings that had one are unchanged and the others gained exactly one new fingerprint, different from every other fingerprint generated or present. Nothing else about the journal changes, a second run leaves the file byte-identical, and the result is accepted by merge.",
  ["inputs"], "All journals, with any mix of postings with and without fingerprints, several files per invocation, and standard input.",
  "The command has no test.",
  ["src/fpgen.rs", "src/fingerprint.rs"], [("tagging of postings without fingerprint", "src/fpgen.rs update_transactions"), ("what counts as a fingerprint", "src/fingerprint.rs is_fingerprint")], ["the rewritten files"])

p("C14", "Journal items a command cannot carry over are refused, not dropped",
  "merge, apply-rules and generate-fingerprints fail without writing anything when an input journal holds an item they do not handle (a top-level comment line, a commodity price or an include directive), wherever it stands and in whichever input it is. Without such items they never fail for that reason, and fmt always keeps these items.",
  ["inputs"], "All journals with unsupported items inserted at any item boundary of any of the input files.",
  "No test has such items.",
  ["src/internal.rs", "src/merge/sources.rs", "src/rules/cmd.rs", "src/fpgen.rs"], [("refusal while converting the parsed journal", "src/internal.rs TransactionPostings::from_ledger")], ["exit status", "output files", "input files"])

p("C15", "A command that fails on its input leaves every existing file as it was",
  "When a command fails because of its input (unparsable or unreadable journal, contradictory merge, rule error, malformed statement, bad rule file), files that existed before are byte-identical afterwards and no output file is created; in particular output and unmerged files are not truncated. For the in-place commands this holds for the offending file and all files named after it.",
  ["inputs", "fault_sequences"], "All commands, all kinds of input failure at any position of the input, with output paths that exist, do not exist or equal an input.",
  "No test runs a command, so none sees what a failing command does to files.",
  ["src/merge/cmd.rs", "src/rules/cmd.rs", "src/importers/cmd.rs", "src/fmt.rs", "src/fpgen.rs", "src/filespec.rs"], [("everything is computed before any output is opened", "src/merge/cmd.rs, src/rules/cmd.rs, src/importers/cmd.rs run")], ["directory contents before and after", "exit status"])

p("C16", "A result that could not be written is reported as a failure",
  "If the result of a command cannot be written completely (device full, missing directory, target is a directory, closed pipe), the command exits with a non-zero status and an error message. It never reports success for a partially written or missing result, for the main output as well as for the unmerged file.",
  ["fault_sequences", "inputs"], "All commands with an output, all output destinations (stdout, -o, -u, in place), output sizes from one line to hundreds of kilobytes, and every write fault at hand.",
  "No test writes through the command-line output path.",
  ["src/filespec.rs", "src/merge/cmd.rs", "src/importers/cmd.rs"], [("write_all with error propagation", "src/filespec.rs write_file"), ("order and propagation of writes", "src/merge/cmd.rs Command::run")], ["exit status", "stderr"])

p("C17", "Rule tables are evaluated exactly as written",
  "apply-rules runs the start chain for every posting in order; each rule whose predicate matches the current (already modified) posting and transaction performs its action and then continues or returns from its chain, and a jump evaluates the other chain and resumes after it. Every predicate (All, Any, Not, True, account, description, flag tag, value tag with Contains, Eq, Matches, AsLower) and every action (tags, value tags, account, description replacement with captures, All, Noop, Error) has its literal meaning, and Error aborts the command with no output.",
  ["programs", "inputs"], "All rule tables built from the rule language (nested predicates and actions, several chains, jumps, returns) applied to all journals.",
  "A dozen tables with one or two rules each are tested; interactions of order, returns, jumps, nesting and earlier modifications are a program space.",
  ["src/rules/table/mod.rs", "src/rules/table/predicate.rs", "src/rules/cmd.rs"], [("chain, rule and action interpreter", "src/rules/table/mod.rs Chain::apply, Rule::apply, Action::apply"), ("predicates", "src/rules/table/predicate.rs")], ["output journal", "exit status"])

p("C18", "Rules never touch dates, amounts, balances, status or structure",
  "For every rule table and journal, the result of apply-rules has the same transactions in the same order with the same date, effective date, status and code, and the same postings in the same order with the same amount, prices, balance, status and reality. Only accounts, descriptions and comment metadata may differ, and only where some rule's action can change them.",
  ["programs", "inputs"], "All rule tables and journals, including amounts with many digits, prices, every status and reality, and postings without amounts.",
  "Tests use one simple amount; preservation has to hold for every posting shape under every rule program.",
  ["src/rules/table/mod.rs", "src/rules/cmd.rs", "src/internal.rs"], [("actions only reach account, description and comments", "src/rules/table/mod.rs Action::apply"), ("conversion to and from the internal form", "src/internal.rs")], ["output journal"])

p("C19", "Rule files are fully validated before any rule runs",
  "A rule set is rejected before anything is processed or written if it has no start chain, defines a chain name twice, jumps to an undefined chain anywhere (also inside All, in unreachable chains and in included files), or includes a file that is missing or malformed; chains that jump back into themselves end in an error, not a crash. Includes are resolved relative to the including file, each file is loaded once however often and by whatever path it is included, include cycles are harmless, and any other well-formed set is accepted.",
  ["programs", "configurations"], "All sets of rule files with arbitrary include graphs (nested directories, diamonds, cycles, symlinks and dot segments) and chain graphs.",
  "Tests use single in-memory tables; includes need real files and have no test, and validation of nested jumps is not tested.",
  ["src/rules/table/source.rs", "src/rules/table/mod.rs"], [("include loading", "src/rules/table/source.rs File::load_into"), ("validation", "src/rules/table/mod.rs Table::validate, Action::validate")], ["exit status", "output journal"])

NW = ["src/importers/nationwide_csv.rs", "src/importers/nationwide.rs", "src/importers/util.rs"]
p("C20", "Nationwide CSV statements are imported faithfully",
  "Each row of a 5- or 6-column Nationwide statement becomes one transaction, in row order, with the row's date and description (5-column: the transactions text, followed by ' @ ' and the location when there is one), a posting on assets:unknown with the exact amount (paid in positive, paid out negative; balance too for 6-column) and an exactly opposite posting on expenses:unknown (money out) or income:unknown (money in). The postings carry the documented tags: import-self/import-peer, unknown-account, account, bank, per-date sequence number, and transaction type or transactions/location.",
  ["inputs"], "All valid statements: any number of rows (those of a date together), runs of equal dates, amounts of any size and number of decimals incl. zero and negative, Windows-1252 text, quoting, empty locations, both formats.",
  "Two golden files with three rows each.",
  NW, [("row conversion", "src/importers/nationwide_csv.rs PostingFormer for RecordFive/RecordSix"), ("money parsing", "src/importers/nationwide_csv.rs GbpValueVisitor"), ("halves", "src/importers/util.rs self_and_peer_account_amount")], ["imported journal"])

p("C21", "PayPal CSV statements are imported faithfully",
  "Consecutive rows with the same instant form one transaction, dated with that instant's calendar date in the output timezone and described by the first non-empty name of the group; every row yields a posting on assets:unknown with the row's exact amount, currency and balance and an exactly opposite peer posting on expenses:unknown or income:unknown. Both are cleared if the row is Completed and pending if Pending, and carry the row's type, name and receipt id as value tags.",
  ["inputs", "configurations"], "All valid PayPal statements: any grouping, currencies, amounts with any number of digits, names and receipts present or not, column order, any timezone abbreviation table and output timezone, instants around midnight and DST changes.",
  "One golden file with two groups, one timezone (GMT) and one output timezone.",
  ["src/importers/paypal_csv.rs", "src/importers/util.rs", "src/tzabbr.rs"], [("grouping and conversion", "src/importers/paypal_csv.rs read_transactions, form_transaction, form_postings"), ("timezone handling", "src/importers/paypal_csv.rs Record::from_csv_record")], ["imported journal"])

p("C22", "PDF statements are imported faithfully from the OCR text",
  "Every payment or receipt line of the statement tables, across lines, tables and pages in page order, becomes one transaction with the date implied by the last year and day-month lines, the detail text with continuation lines appended, the effective date if stated, the exact signed amount, the balance printed on its lines, the opposite peer posting, and a per-date sequence number. Text outside the tables, carried-over balances and lines after the end of the table never become transactions.",
  ["inputs"], "All statements rendered into OCR TSV output with arbitrary word positions within columns, page/block/paragraph splits, year changes, multi-line details and blank gaps.",
  "The tests feed prepared lines to an internal function; layout, tables, multi-page documents and dates are not covered end to end.",
  ["src/importers/nationwide_pdf.rs", "src/importers/tesseract.rs"], [("table location and columns", "src/importers/nationwide_pdf.rs table::Columns"), ("line accumulation", "src/importers/nationwide_pdf.rs TransactionsAccumulator"), ("TSV reading", "src/importers/tesseract.rs Document::from_tsv_reader")], ["imported journal"])

p("C23", "A failing PDF or OCR tool never yields an import",
  "If the PDF converter or the OCR tool is missing, exits unsuccessfully, is killed, or leaves no or malformed OCR output, the import fails and writes no journal, whatever partial files the tool left. Temporary files are removed in every case.",
  ["fault_sequences", "inputs"], "All combinations of which external tool fails, how it fails, and what partial output it leaves behind.",
  "No test runs the external tools or a substitute.",
  ["src/importers/nationwide_pdf.rs", "src/importers/tesseract.rs"], [("tool invocation and exit status", "src/importers/nationwide_pdf.rs ocr_document"), ("strict TSV structure", "src/importers/tesseract.rs push_checked, get_checked_mut")], ["exit status", "output file", "temporary directory"])

p("C24", "Fingerprints are a fixed function of the imported record",
  "The fingerprint tags an import generates depend only on the algorithm version, the namespace and the record's own data (including its position among equal-dated or grouped records), and keep the published values of that algorithm version, so data imported by any earlier build is recognised by later ones. Fields that may change later (a PayPal status or receipt id) and file layout (row quoting, column order, other rows' contents on other dates) do not influence them.",
  ["inputs", "histories"], "All records of all importers (nwcsv5.1, nwcsv6.1, legacy, ppcsv.1, nwpdf), all namespaces.",
  "Golden files pin some ten fingerprints; every other value of every field could change silently.",
  ["src/fingerprint.rs", "src/importers/nationwide_csv.rs", "src/importers/paypal_csv.rs", "src/importers/nationwide_pdf.rs"], [("length-prefixed hashing", "src/fingerprint.rs Accumulator, Fingerprintable impls"), ("per-importer field lists", "fingerprint_v1, fingerprint_legacy, Record::from_csv_record, TransactionBuilder::build")], ["fp- tags of imported journals"])

p("C25", "Imported postings have fingerprints that never collide",
  "Every posting of an import has a fingerprint, and within one import no fingerprint is on two postings, even when rows are completely identical; imports under different namespaces share no fingerprint. Postings of records that differ in any identifying field get different fingerprints, also when the fields' texts concatenate to the same string.",
  ["inputs", "configurations"], "All statements with the rows of a date (PayPal: of an instant) together, especially with identical and near-identical rows (text moved between adjacent fields, paid in versus paid out, swapped values), and all pairs of namespaces.",
  "Golden files contain no repeated or near-identical rows.",
  ["src/fingerprint.rs", "src/importers/nationwide_csv.rs", "src/importers/paypal_csv.rs", "src/importers/nationwide_pdf.rs"], [("length prefixes", "src/fingerprint.rs"), ("per-date counter and in-group index", "nationwide_csv.rs process_rows, paypal_csv.rs form_transaction, nationwide_pdf.rs feed_line"), ("self/peer suffix", "src/importers/util.rs self_and_peer_fingerprints")], ["fp- tags of imported journals"])

p("C26", "Re-imported statements are recognised in an edited journal",
  "After a statement is imported, categorised with rules and merged into a journal, importing the same or an extended statement again and merging it adds exactly the new transactions and none of the known ones, and keeps the accounts, descriptions and tags given meanwhile. This holds for any number of overlapping downloads in chronological order that each begin and end with whole days.",
  ["histories", "inputs"], "All histories of overlapping statement downloads (Nationwide 5/6 column, PayPal with legacy fingerprints), rule edits and merges.",
  "No test composes commands; the guarantee is about the whole pipeline through files.",
  ["src/importers/nationwide_csv.rs", "src/importers/paypal_csv.rs", "src/merge/merger.rs", "src/rules/table/mod.rs", "src/fingerprint.rs"], [("stable fingerprints", "src/fingerprint.rs"), ("fingerprint match first", "src/merge/posting.rs find_matching_postings")], ["merged journal after each step"])

p("C27", "Imported journals read back as the transactions that were imported",
  "The journal an import writes is accepted by every other command and means exactly the imported transactions: passing it through fmt, an empty rule table or generate-fingerprints changes no date, status, description, account, amount, balance, tag or value tag. fmt leaves it byte-identical.",
  ["inputs"], "All statements of the three importers with descriptions, names and types that are ordinary text (no leading status or code marker, no comment marker after a double space), all statuses.",
  "Golden tests compare import output with stored text and never read it back.",
  ["src/importers/paypal_csv.rs", "src/importers/nationwide_csv.rs", "src/importers/nationwide_pdf.rs", "src/filespec.rs", "src/comment.rs"], [("journal writing and reading", "src/filespec.rs"), ("comment printing and parsing", "src/comment.rs")], ["journals before and after"])

p("C28", "A malformed statement is rejected as a whole",
  "If any row or header of a statement is malformed (bad or impossible date or time, bad money value, both or neither of paid in and paid out, wrong headers, missing columns, columns beyond those of the header (Nationwide: of the format), unknown status or timezone, a group without a name, a PDF line with payment and receipt, or with one of them but without details, a date without a year), the import fails and writes nothing, instead of skipping or guessing the row. A statement without such defects is imported.",
  ["inputs", "fault_sequences"], "All valid statements with one defect of any listed kind injected into any row.",
  "A few parser-level examples; no test injects a defect into an otherwise valid statement and looks at the command's result.",
  ["src/importers/nationwide_csv.rs", "src/importers/paypal_csv.rs", "src/importers/nationwide_pdf.rs", "src/tzabbr.rs"], [("strict deserialisation", "nationwide_csv.rs de, paypal_csv.rs de"), ("errors propagate out of the row loop", "process_rows, read_transactions, lines_to_transactions")], ["exit status", "output file"])

p("C29", "Timezone abbreviations mean exactly the offsets in the table",
  "A PayPal row's local time is converted with exactly the UTC offset (hours and optional minutes, either sign) the abbreviation table gives for its zone. Tables with malformed or out-of-range offsets or with an abbreviation defined twice are rejected, and so is any statement using an abbreviation not in the table.",
  ["inputs", "configurations"], "All tables and all offsets from -23:59 to +23:59, with rows whose local time lies exactly at, one second before or after the instant that becomes midnight in the output timezone.",
  "A handful of offsets is parsed in tests, none is followed through to a transaction date.",
  ["src/tzabbr.rs", "src/importers/paypal_csv.rs"], [("offset parsing", "src/tzabbr.rs parse_utc_offset"), ("duplicate detection", "src/tzabbr.rs from_reader"), ("conversion", "src/importers/paypal_csv.rs Record::from_csv_record")], ["dates of imported transactions", "exit status"])

p("C30", "Namespace and output-path options do exactly what they say",
  "The fingerprint namespace of an import is the account name, the fixed text, the 8-character hash of bank and account name, or the looked-up value, as selected, and appears in every fingerprint and sequence tag; a missing lookup entry or a namespace with characters outside [a-zA-Z0-9_+/] is an error. With path substitution every %FP_NS% in the output path is replaced by that namespace, parent directories are created only when asked, and combining either option with standard output is an error.",
  ["configurations", "inputs"], "All combinations of importer, namespace mode, namespace text, output path templates and output options.",
  "Only the generated namespace is exercised by tests; the output options are not.",
  ["src/importers/nationwide.rs", "src/importers/cmd.rs", "src/fingerprint.rs"], [("namespace modes", "src/importers/nationwide.rs FpNamespace"), ("validation", "src/fingerprint.rs FingerprintBuilder::new"), ("path substitution and directory creation", "src/importers/cmd.rs Command::run")], ["fp- tags", "file tree", "exit status"])

p("C31", "Standard input and output behave like files",
  "Reading from '-' gives the same result as reading the same bytes from a file, and writing to '-' (also the default) prints exactly the bytes that would have been written to a file, for every command that takes them. Output files are replaced completely, whatever longer or shorter content they had before.",
  ["configurations", "inputs"], "All commands, all their file arguments, every combination of '-' and paths, pre-existing output of any length.",
  "No test runs the file layer.",
  ["src/filespec.rs", "src/merge/cmd.rs", "src/rules/cmd.rs", "src/importers/cmd.rs", "src/fmt.rs", "src/fpgen.rs"], [("FileSpec reader and writer", "src/filespec.rs")], ["stdout", "output files"])

p("C32", "No input makes a command crash",
  "Whatever bytes the journals, rule files, statements, timezone tables, lookup tables or OCR output consist of, every command ends by itself with exit status 0 or with an ordinary error (non-zero status and a message on standard error): it never panics, aborts, overflows the stack or is killed by a signal. On failure nothing is written to standard output.",
  ["inputs"], "All byte strings as any input file, explored by structure-aware mutation of valid inputs and by random bytes.",
  "Tests use well-formed input apart from a few error examples.",
  ["src/filespec.rs", "src/comment.rs", "src/importers/nationwide_csv.rs", "src/importers/paypal_csv.rs", "src/importers/tesseract.rs", "src/importers/nationwide_pdf.rs", "src/rules/table/source.rs", "src/rules/table/mod.rs"], [("error propagation to main", "src/main.rs"), ("input normalisation before the journal parser", "src/filespec.rs read_ledger_file")], ["exit status or signal", "stderr", "stdout"])

p("C33", "Ambiguities can be resolved as the README describes",
  "If the user edits the unmerged output by turning one candidate tag of each ambiguous posting into the fingerprint it names and deleting the other candidate tags, and merges the edited file into the journal, each such posting is merged into exactly the chosen existing posting and nothing stays ambiguous. Leaving candidate tags in place makes the merge fail, and no other posting of the journal changes.",
  ["histories", "inputs"], "All ambiguous histories and all choices among the candidates (those that keep a transaction's postings in one existing transaction).",
  "The workflow spans two invocations and a manual edit; no test performs it.",
  ["src/merge/merger.rs", "src/merge/posting.rs", "src/merge/sources.rs"], [("candidate tags name a fingerprint of the candidate", "src/merge/merger.rs determine_posting_action"), ("fingerprint match", "src/merge/posting.rs find_posting_by_fingerprints"), ("refusal of leftover candidate tags", "src/merge/posting.rs Input::from_posting_internal")], MOUT)

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")

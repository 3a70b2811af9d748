#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays readable)."""
import json, os

P = []


def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, hook=None):
    P.append({
        "id": id, "title": title, "statement": " ".join(statement.split()),
        "quantifier": {"over": over, "text": " ".join(qtext.split())},
        "why_tests_cant": " ".join(why.split()),
        "anchors": {
            "files": files,
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            **({"state": [{"name": n, "meaning": m, "where": w} for n, m, w in state]} if state else {}),
            "observe_at": observe or ["files written by the command", "exit status"],
            "hook_needed": hook,
        },
    })


SERVE = "serve mode of the binary (cfg accountmerge_verif) to run many command lines per process; nothing else"
MERGE = ["src/merge/merger.rs", "src/merge/posting.rs", "src/merge/transaction.rs", "src/merge/cmd.rs", "src/merge/sources.rs"]

p("C01", "A merge neither loses, duplicates nor alters postings and their amounts",
  """For every list of journals that a merge accepts, each input transaction either is in the unmerged output with all of
  its postings, or each of its postings is represented by exactly one posting of the merged output, which carries that input
  posting's fingerprint tags. Every posting of the merged output comes from at least one input posting, no fingerprint tag is
  on two of its postings, and its amount (quantity, commodity, lot price, price) and real/virtual kind are those of the
  earliest input posting merged into it.""",
  ["inputs", "histories"],
  "All sequences of merges of journals built from a small alphabet of fingerprinted transactions, up to a depth, plus size-scaled families.",
  "The unit tests sample about 20 hand-written merges of one to three transactions; loss or duplication needs particular combinations of matching, multi-fingerprint and unmerged postings over several files.",
  MERGE, [("pending actions applied once per posting", "src/merge/merger.rs apply_pending/apply_post_actions_to_trn"), ("fingerprint index", "src/merge/posting.rs register_fingerprints"), ("consuming output builder", "src/merge/merger.rs build")],
  state=[("merged journal", "transactions and postings accumulated so far, indexed by fingerprint and date", "src/merge/posting.rs IndexedPostings, src/merge/transaction.rs IndexedTransactions")], hook=SERVE)

p("C02", "Merging a merged journal again changes nothing",
  """If a merge leaves nothing unmerged, then merging its output by itself, and merging its output followed by all of the same
  input journals in the same order, also succeeds, leaves nothing unmerged, and writes byte-for-byte the same merged journal.""",
  ["inputs", "histories"],
  "All journals reachable by merging sequences of small journals up to a depth, re-merged with all of their inputs.",
  "Only run_examples.sh does a re-merge, for one example, and nothing compares its result.",
  MERGE + ["src/comment.rs"], [("fingerprint matching", "src/merge/posting.rs find_posting_by_fingerprints"), ("idempotent field merge", "src/merge/posting.rs merge"), ("canonical comment formatting", "src/comment.rs into_opt_comment")], hook=SERVE)

p("C03", "Incoming postings are matched as the README's matching algorithm says",
  """When journals are merged, each incoming posting is matched to the existing posting that shares a fingerprint tag with it;
  failing that, to the only existing posting with the same transaction date, an equal amount, an equal balance if both have one,
  and an equal account name unless either is tagged unknown-account; and if nothing matches it is added to the existing
  transaction that its sibling postings matched, or else to a new transaction along with its siblings.
  If a posting without a fingerprint match has several such candidates, its whole transaction goes unmodified to the unmerged
  output, with one candidate-FINGERPRINT tag per candidate on that posting. Transactions of the same source are never soft matched with each other.""",
  ["inputs"],
  "All pairs of journals of up to two transactions and two postings each over an alphabet that makes every criterion agree or differ, plus candidate counts up to 6 and sequences of merges.",
  "Tests sample one instance of each criterion; the interaction of criteria (15 combinations per pair, several postings per transaction, several sources) is quantified over inputs.",
  MERGE + ["README.md"], [("lookup order", "src/merge/posting.rs find_matching_postings"), ("criteria", "src/merge/posting.rs matches"), ("ambiguity handling", "src/merge/merger.rs determine_posting_action, MergeActionsAccumulator")], hook=SERVE)

p("C04", "Merging a posting into another updates exactly the documented fields",
  """When an incoming posting is merged into an existing one, the existing status only changes from none to the incoming one or from
  pending to cleared; a balance is only filled in where there was none; the account is replaced only if the existing posting is tagged
  unknown-account and the incoming one is not, which also removes the tag. Flag tags (other than unknown-account, which is never added) are united, value tags of the
  incoming posting overwrite those with the same key, and comment lines not yet present are appended.
  Nothing else about the existing posting changes, nor do the date, effective date, status, code, description and comment of its transaction.""",
  ["inputs"],
  "All combinations of status, balance, account, unknown-account, flag tags, value tags and comment lines of an existing and an incoming posting over small domains.",
  "Tests sample 6 posting pairs and none with statuses, transaction headers or chains of merges.",
  ["src/merge/posting.rs", "src/comment.rs", "src/merge/merger.rs"], [("posting merge", "src/merge/posting.rs merge"), ("comment merge", "src/comment.rs merge_from")], hook=SERVE)

p("C05", "Conflicting merge input is refused as a whole, and only conflicting input",
  """A merge fails, without creating or modifying any output file, if an input posting has no fingerprint tag or has a candidate- tag, if a fingerprint occurs
  on two postings of one source, if the fingerprints of an input posting match several existing postings, if several input postings of a source match the same existing posting, if the postings of
  an input transaction match postings of several existing transactions, or if transactions go unmerged and no unmerged output is given.
  Well-formed journals with none of these conflicts are always merged successfully.""",
  ["inputs"],
  "All small journal pairs and triples over fingerprint assignments including missing, shared and multiple fingerprints, with the conflicting part at every position.",
  "Tests have one instance for some of the conflicts and none checks that output files are left alone or that the rest is accepted.",
  MERGE, [("input validation", "src/merge/posting.rs from_posting_internal"), ("checks before applying", "src/merge/merger.rs check_pending, find_existing_dest_trn"), ("outputs written last", "src/merge/cmd.rs run")], hook=SERVE)

p("C06", "Merged output is in date order and otherwise keeps the order of introduction",
  """The transactions of a merged journal are in ascending date order, and those with the same date are in the order in which they were first
  introduced: by input file as given on the command line, then by source within a file in order of its name, then by position.
  Postings within a transaction are in the order in which they were added to it, and unmerged transactions are written in the order of their introduction.""",
  ["inputs"],
  "All assignments of dates, files and sources to up to 5 transactions, plus files of up to 70 transactions in all rotations.",
  "One unit test covers three transactions of one file.",
  MERGE, [("per-date buckets in insertion order", "src/merge/transaction.rs into_iter"), ("source order", "src/merge/sources.rs read_ledger_file")], hook=SERVE)

p("C07", "Unmerged output can be resolved by hand and merged again",
  """Every transaction in the unmerged output has a source-file value tag naming where it came from (kept from the input, or else its input file), and no transaction of merged output has that tag.
  Merging a file with several sources gives the same result as merging one file per source in order of the source names.
  If the user replaces the candidate tags on each ambiguous posting by the fingerprint of one of the candidates and merges again with the edited file, the posting is merged
  into exactly the chosen posting and the transaction is no longer unmerged.""",
  ["inputs", "histories"],
  "All ambiguous merges with 2 to 4 candidates in all layouts, all choices of candidates, and all partitions of up to 4 transactions into sources.",
  "There is no test of the sources module, of the unmerged output file or of the documented resolution workflow.",
  MERGE, [("source tags", "src/merge/sources.rs"), ("candidate tags", "src/merge/merger.rs determine_posting_action"), ("unmerged output", "src/merge/cmd.rs")], hook=SERVE)

p("C08", "Commands are deterministic",
  """Given the same input files and arguments, every run of merge, fmt, apply-rules and import writes byte-for-byte the same output files and has the same exit status,
  whatever the per-process random seeds of hash tables are.""",
  ["schedules", "inputs"],
  "All command scenarios of a corpus that puts several elements into every hash table, under a set of hash seeds that provably realises every iteration order of sets of up to 4 elements.",
  "A test run has one random seed; comparing outputs of tests goes through sets, which hides order.",
  MERGE + ["src/comment.rs", "src/rules/table/mod.rs"], [("sorting before output", "src/comment.rs into_opt_comment, src/merge/sources.rs, src/merge/transaction.rs"), ("primary fingerprint choice", "src/merge/posting.rs primary_fingerprint")],
  hook=SERVE + "; hash seeds are controlled from outside by an LD_PRELOAD getrandom")

p("C09", "Rules are evaluated in order with the documented effect",
  """Applying rules runs the start chain once for each posting, in order: each rule whose predicate holds for the posting and its transaction as changed by the rules before it has its actions applied in order,
  and its result then either continues with the next rule or returns from the chain, where returning from a jumped-to chain continues after the jump.
  The output is exactly the input journal with those changes, and an Error action that is reached, or chain jumps that never end, make the command fail without writing output.""",
  ["inputs", "programs"],
  "All rule tables of up to 2-3 rules over alphabets covering every predicate, string matcher, action and result, with chains that jump, applied to journals that distinguish them.",
  "Tests sample each predicate and action once, mostly in isolation; chains, results and cross-rule effects are quantified over programs.",
  ["src/rules/table/mod.rs", "src/rules/table/predicate.rs", "src/rules/cmd.rs"], [("interpreter", "src/rules/table/mod.rs Chain::apply, Rule::apply, Action::apply"), ("predicates", "src/rules/table/predicate.rs")], hook=SERVE)

p("C10", "Rules never change money, dates or the structure of a journal",
  """Whatever the rules are, applying them successfully leaves the number and order of transactions and of postings in each transaction, their dates, effective dates, codes, statuses, real/virtual kinds,
  amounts, prices and balances as they were, and leaves accounts, descriptions, tags and comment text alone unless a rule that matched sets them.""",
  ["inputs", "programs"],
  "All rule tables of the rule alphabet applied to journals with every combination of optional parts.",
  "The existing tests apply rules to a posting with an amount only.",
  ["src/rules/table/mod.rs", "src/rules/cmd.rs", "src/internal.rs"], [("actions only touch account, tags and description", "src/rules/table/mod.rs Action::apply")], hook=SERVE)

p("C11", "Rule files are fully validated when loaded",
  """A rules file together with the files it includes, which are found relative to the including file and each loaded once even if included repeatedly or cyclically, is rejected before anything is written
  if it lacks a start chain, defines a chain name twice, jumps (at any nesting depth, whether or not a posting would reach it) to a chain that is not defined in any of the files, includes a missing file, or does not parse.
  Every other rules file is accepted, and the order of definition and inclusion does not matter.""",
  ["inputs", "programs", "configurations"],
  "All inclusion graphs over up to 3 files in up to 3 directories, all placements of chain definitions, and all nestings of a jump up to depth 3.",
  "Tests load rules from strings, so none covers includes; validation of nested jumps is not tested.",
  ["src/rules/table/source.rs", "src/rules/table/mod.rs"], [("loader", "src/rules/table/source.rs load_into"), ("validation", "src/rules/table/mod.rs validate")], hook=SERVE)

p("C12", "Nationwide CSV statements are imported row for row, or rejected",
  """Importing a Nationwide CSV statement (either layout) gives, for each row in order, one transaction with the row's date and description, whose first posting to assets:unknown has the amount paid in, or minus the amount paid out, and the
  row's balance if the layout has one, and whose second posting to income:unknown or expenses:unknown (by sign) has the negated amount.
  Both carry the documented tags (unknown-account, import-self/import-peer, account, bank, type/transaction/location, seq with the row's position within its date).
  A file with a wrong header, or a row with a malformed date or amount, a wrong number of columns, or not exactly one of paid in and paid out, is rejected without output.""",
  ["inputs"],
  "All rows over alphabets of dates, texts, amount strings and balances, all sequences of up to 4 rows, and all single-field corruptions.",
  "Two golden files with three rows each; no malformed input is tested.",
  ["src/importers/nationwide_csv.rs", "src/importers/util.rs"], [("row conversion", "src/importers/nationwide_csv.rs form_postings"), ("amount parser", "src/importers/nationwide_csv.rs GbpValueVisitor")], hook=SERVE)

p("C13", "PayPal CSV exports are grouped, dated and converted correctly",
  """Importing a PayPal CSV gives one transaction per run of consecutive rows with the same instant in time, dated by that instant in the output timezone and described by the first name in the group (a group without a name is an error).
  Each row gives, in order, a posting of its amount and balance and a balancing peer posting, with status cleared for completed and pending for pending rows, and with its name, type, receipt id and import tags.
  Unknown timezone abbreviations and malformed rows are rejected without output.""",
  ["inputs"],
  "All sequences of up to 4 rows over alphabets of instants (written in different timezones), names, statuses, currencies and amounts, across output timezones and daylight saving changes; all single-field corruptions.",
  "One golden file in one timezone (GMT to UTC).",
  ["src/importers/paypal_csv.rs", "src/importers/util.rs"], [("grouping", "src/importers/paypal_csv.rs read_transactions"), ("dates", "src/importers/paypal_csv.rs form_transaction, from_csv_record")], hook=SERVE)

p("C14", "PDF statement lines become exactly the printed transactions",
  """Importing the OCR result of a Nationwide statement gives one transaction per table line that has details and a payment or receipt, in order, with the date printed on it or last printed above it in the table (completed by the last printed year), its details extended by those of
  the continuation lines below it (other than effective dates, which set the effective date), and its printed balance; the postings carry minus the payment or plus the receipt and the balancing amount.
  Text outside the table columns or tables is ignored. A line with both payment and receipt, a transaction without a date, malformed amounts or dates, and failure of the conversion or OCR program make the import fail without output.""",
  ["inputs", "fault_sequences"],
  "All tables of up to 4-5 lines over an alphabet of line kinds, split over up to 2 pages, and failures of each external program.",
  "Unit tests cover the accumulator with lines prepared by hand and single column lookups, not the path from OCR output to journal.",
  ["src/importers/nationwide_pdf.rs", "src/importers/tesseract.rs"], [("table reader", "src/importers/nationwide_pdf.rs mod table"), ("accumulator", "src/importers/nationwide_pdf.rs TransactionsAccumulator"), ("OCR hierarchy", "src/importers/tesseract.rs")], hook=SERVE)

p("C15", "Import fingerprints are stable, and distinct for distinct postings",
  """Importing a statement tags every posting with the fingerprint that its documented structure prescribes: algorithm name and version, namespace, and unpadded base64 SHA-1 of the record's fields,
  its position within its date or group, and which half it is. The value depends on nothing else, so it is the same on every import of a statement with those rows, and journals merged from earlier versions stay recognised;
  no two postings of a date-grouped statement share a fingerprint, even if rows are identical. The legacy fingerprint is added if and only if it is asked for.""",
  ["inputs", "histories"],
  "All statements over row alphabets with identical rows, compared with an independent implementation of the fingerprint encoding.",
  "Golden files pin the fingerprints of 14 rows; distinctness and independence from other rows are universally quantified.",
  ["src/fingerprint.rs", "src/importers/nationwide_csv.rs", "src/importers/paypal_csv.rs", "src/importers/nationwide_pdf.rs"], [("length-prefixed accumulator", "src/fingerprint.rs"), ("per-date counter", "src/importers/nationwide_csv.rs process_rows")], hook=SERVE)

p("C16", "Tags and comment text survive being read and written",
  """Reading a comment and writing it again keeps its set of flag tags, its value tags with their values, and its text lines in order, for comments whose text lines do not themselves read as tags;
  and the written form is a fixed point: processing it again changes nothing. Flag tags are recognised at any place in a line of text and value tags on any line.""",
  ["inputs"],
  "All comments of up to 3 lines over an alphabet of flags (short and long), value tags, text and mixtures, on transactions and postings.",
  "Tests parse or format about 15 comments; none composes the two.",
  ["src/comment.rs", "src/internal.rs"], [("parser", "src/comment.rs from_opt_comment"), ("formatter", "src/comment.rs into_opt_comment")], hook=SERVE)

p("C17", "Formatting a journal keeps its content and is idempotent",
  """Formatting a journal file in place keeps every item in order: transactions with date, effective date, status, code, description, comments and postings (status, real/virtual account, amount, lot price, price, balance, comments),
  as well as line comments, blank lines, price entries and includes. Formatting it again changes nothing, and a file that does not parse is left untouched with a failing exit status, with files before it formatted and later ones untouched.""",
  ["inputs"],
  "All journals from a grammar over every optional part and layout variation (separators, quantity notations, line endings), up to 3 items per file and 3 files.",
  "The fmt command has no tests at all.",
  ["src/fmt.rs", "src/filespec.rs"], [("read, parse, write", "src/fmt.rs run"), ("journal reading", "src/filespec.rs read_ledger_file")], hook=SERVE)

p("C18", "generate-fingerprints adds one unique fingerprint where there is none",
  """Generating fingerprints for a journal gives every posting without a fingerprint tag exactly one new one, different from all others in the file, and leaves postings that have one, and everything else in the journal, unchanged.
  Running it again changes nothing, and its output is accepted by a merge. Runs on different files never generate the same fingerprint.""",
  ["inputs"],
  "All journals of up to 3 transactions and 3 postings over which postings have no, one or several fingerprints or look-alike tags, and sizes up to 400 postings.",
  "The generate-fingerprints command has no tests at all.",
  ["src/fpgen.rs", "src/internal.rs"], [("update_transactions", "src/fpgen.rs")], hook=SERVE)

p("C19", "I/O failures are never reported as success and spare existing outputs",
  """If opening, reading, writing or creating any file or directory that a command needs fails at any point, the command exits with a failure status; when it exits successfully every output file has its complete content.
  A command other than fmt and generate-fingerprints that fails before it begins to write leaves existing output files as they were.
  fmt and generate-fingerprints do not touch a file before it has been read and processed completely. Files that a command has not begun to write are never changed, so that running merge, apply-rules or import again after a failure or a crash gives the complete output.""",
  ["fault_sequences", "crash_points"],
  "Every command, with every file-related system call failing with each error or transferring fewer bytes than asked, one and two faults at a time.",
  "No test injects a fault.",
  ["src/filespec.rs", "src/merge/cmd.rs", "src/rules/cmd.rs", "src/importers/cmd.rs", "src/fmt.rs", "src/fpgen.rs"], [("error propagation", "src/filespec.rs read_file, write_file"), ("work before write", "src/merge/cmd.rs, src/rules/cmd.rs, src/importers/cmd.rs")],
  hook="none: the unmodified binary runs under an LD_PRELOAD fault injector")

p("C20", "No input makes a command crash or hang",
  """For every content of its input files, each command ends, either successfully or with an error message and a failing exit status: it never panics, is never ended by a signal and never runs endlessly.
  Output that it does write can be read back by the journal commands.""",
  ["inputs"],
  "All short strings over the significant characters of each input format inserted in, deleted from or replacing parts of valid files, and all extreme numbers and dates from a list in each field.",
  "Tests only use well-formed inputs.",
  ["src/importers/nationwide_csv.rs", "src/importers/tesseract.rs", "src/importers/nationwide_pdf.rs", "src/importers/paypal_csv.rs", "src/tzabbr.rs", "src/comment.rs", "src/rules/table/mod.rs"], [("errors instead of panics", "anyhow results throughout")], hook=SERVE)

p("C21", "Journal items that a command cannot carry over are refused, not dropped",
  """merge, apply-rules and generate-fingerprints fail, without writing or modifying any file, if an input journal contains anything other than transactions and blank lines (such as top-level comments, includes or price entries), wherever it is in
  the file and in whichever of the input files (generate-fingerprints, which takes one file after the other, leaves the file in question and those after it as they were); otherwise every transaction of the journal is processed, including the first, the last and those separated by any number of blank lines.""",
  ["inputs"],
  "All files of up to 4 items over all item kinds, in each input position of each command.",
  "No test has a journal with other items.",
  ["src/internal.rs", "src/fpgen.rs", "src/rules/cmd.rs", "src/merge/sources.rs"], [("item filter", "src/internal.rs from_ledger")], hook=SERVE)

p("C22", "Imported journals are written where the options say",
  """import writes the journal to the given output path, with every %FP_NS% in it replaced by the fingerprint namespace in use if (and only if) path substitution is asked for, creates missing parent directories if and only if asked for, overwrites an existing file completely,
  and writes nothing anywhere else. Without an output path, or with -, it writes the same journal to standard output; combining that with path substitution or parent creation is an error.""",
  ["inputs", "configurations"],
  "All combinations of output options, placeholders per path component, existing and missing parents, prior file contents, importers and namespaces.",
  "The import command itself has no tests; importers are called directly.",
  ["src/importers/cmd.rs", "src/filespec.rs"], [("output handling", "src/importers/cmd.rs run")], hook=SERVE)

p("C23", "Timezone abbreviation tables are read exactly or rejected",
  """A timezone abbreviation table maps each abbreviation to exactly the offset written as UTC+HH, UTC-HH, UTC+HH:MM or UTC-HH:MM; every other offset notation, minutes over 59, offsets of 24 hours or more,
  and an abbreviation that is defined twice make the import fail.""",
  ["inputs"],
  "All 20,200 strings UTC[+-]dd and UTC[+-]dd:dd, all one-character corruptions of valid strings, and tables of up to 3 rows.",
  "Tests sample about ten strings.",
  ["src/tzabbr.rs", "src/importers/paypal_csv.rs"], [("offset parser", "src/tzabbr.rs parse_utc_offset"), ("duplicate check", "src/tzabbr.rs from_reader")], hook=SERVE)

p("C24", "The fingerprint namespace is the one the user chose, and is always valid",
  """The namespace used in fingerprints, seq tags and the output path is the account name of the statement, the fixed text, the first 8 characters of the unpadded base64 SHA-1 of bank and account name, or the entry of the lookup file for exactly that account name, as chosen.
  An account missing from the lookup file, an unreadable lookup file, an unknown choice, and, for a statement with transactions, a namespace with characters other than letters, digits, _, + and / make the import fail without output.""",
  ["inputs", "configurations"],
  "All choices of namespace source and importer over account names, and all single-character namespaces over the byte range.",
  "Only the generated namespace of two account names is covered, by golden files.",
  ["src/importers/nationwide.rs", "src/fingerprint.rs"], [("namespace choice", "src/importers/nationwide.rs make_namespace"), ("validation", "src/fingerprint.rs FingerprintBuilder::new")], hook=SERVE)

p("C25", "Overlapping statements import to each transaction exactly once",
  """If a bank account's history is exported in any series of statements that cover whole days (by the dates the transactions get), overlap in any way and together cover the history, then importing all of them and merging the results,
  in one step or one after another in any order, gives a journal with each transaction of the history exactly once, nothing unmerged, and the imported amounts and balances.
  Adding tags or changing accounts by rules before merging, or by hand in the merged journal, does not change that.""",
  ["histories", "inputs"],
  "All histories of 3 days over an alphabet of days with identical rows; all sequences of up to three statements merged at once, and all states of the journal reachable by any number of merges of any statements, rule applications, edits and formattings.",
  "No test runs import and merge together.",
  ["src/importers/nationwide_csv.rs", "src/importers/paypal_csv.rs", "src/merge/merger.rs", "src/merge/posting.rs", "src/rules/table/mod.rs"], [("per-date sequence numbers in fingerprints", "src/importers/nationwide_csv.rs process_rows"), ("fingerprint match", "src/merge/posting.rs")], hook=SERVE)

p("C26", "Merging step by step equals merging at once",
  """If merging journals one after another, each time into the result of the previous step, leaves nothing unmerged, then merging all of them with one command, in the same order, also leaves nothing unmerged and writes byte-for-byte the same journal; and if a
  step fails, so does the single command.""",
  ["inputs", "histories"],
  "All sequences of up to 3-4 journals from a small alphabet.",
  "Tests call the merger with journals in one process only; the state that is not written to the journal is never compared with the journal.",
  MERGE, [("date index", "src/merge/posting.rs posts_by_date"), ("order of introduction", "src/merge/transaction.rs into_iter")], hook=SERVE)

p("C27", "Results depend on what files contain, not on how they are named",
  """Every command reads its inputs completely before it writes, so that an output may replace any file the command reads: the same path, another path to it, or a symbolic or hard link gives what a separate output file would have got, and an output that is not written leaves the file as it was. What a symbolic link points to is what is written.
  Inputs may be named in any way, may have any name and may be given twice; apart from the names of sources in the unmerged output, which stays usable, the result is the same as with plainly named copies, and no other file is changed or created.""",
  ["inputs", "configurations"],
  "All commands, successful and failing; every pair of output and input under every way to name it, for two outputs all combinations; 80 odd names for every file of every command; all sequences of up to 3-4 inputs given repeatedly.",
  "Tests call the parts in memory; the only file a test writes is a scratch file of its own. That all inputs are read before the first output is opened is a matter of the order of statements over several modules.",
  ["src/filespec.rs", "src/merge/cmd.rs", "src/merge/sources.rs", "src/rules/cmd.rs", "src/importers/cmd.rs", "src/fmt.rs", "src/fpgen.rs"], [("reading whole files", "src/filespec.rs read_file"), ("output opened last", "src/merge/cmd.rs run, src/rules/cmd.rs run, src/importers/cmd.rs run"), ("names as sources", "src/merge/sources.rs read_ledger_file")], hook=SERVE)

p("C28", "The layout of a journal does not matter to any command",
  """Journals that say the same in different layout (line ends, indentation, white space between and behind the parts of lines, blank lines, date separators, notation of amounts, comments in the line or in lines of their own, tags in other order, grouping or repetition, a missing last line end)
  give byte-for-byte the same outputs and the same acceptance in merges, under rules and when fingerprints are generated; so does a journal that was formatted first.""",
  ["inputs"],
  "All layouts that differ from the plain one in up to two of twelve respects, on journals with every feature of transactions and postings, for both files of a merge, under rules, and for generated fingerprints.",
  "Tests hold journals in one layout; neutrality is a relation between runs.",
  ["src/filespec.rs", "src/comment.rs", "src/internal.rs", "src/merge/sources.rs", "src/merge/posting.rs", "src/rules/table/mod.rs"], [("parsing", "src/filespec.rs parse_ledger"), ("comments", "src/comment.rs from_opt_comment"), ("soft match on parsed values", "src/merge/posting.rs matches")], hook=SERVE)

p("C29", "Standard streams behave like files",
  """Wherever a command takes a journal, statement, lookup or timezone file, "-" means standard input, and "-" as the output, or no output option, means standard output; the bytes written, and success or failure, are the same as with files, nothing else is written to standard output, and no file named "-" is read or written.
  fmt and generate-fingerprints of "-" write the result to standard output.""",
  ["inputs", "configurations"],
  "All commands, successful and failing, with each input and each output in turn, and every pair of them, as a stream under each of its names, next to a file called \"-\" or not.",
  "No test runs a command line.",
  ["src/filespec.rs", "src/merge/cmd.rs", "src/rules/cmd.rs", "src/importers/cmd.rs", "src/importers/nationwide.rs", "src/importers/paypal_csv.rs"], [("file specification", "src/filespec.rs FileSpec"), ("default outputs", "src/merge/cmd.rs, src/rules/cmd.rs, src/importers/cmd.rs")],
  observe=["files written by the command", "standard output", "exit status"], hook=None)

p("C30", "Commands running at the same time do not disturb each other",
  """Two commands that run at the same time, with outputs of their own, each end, print and write exactly what they do when they run alone, whichever way their file operations interleave; this also
  holds if they share the working directory, their input files and the directory for temporary files, and if one of them fails. Neither leaves temporary files behind.""",
  ["schedules", "configurations"],
  "All pairs of 22 command scenarios over all commands, in directories of their own with one TMPDIR, with every single switch at a file operation, and every two switches for pairs of seven of them; each scenario with a copy of itself in one directory with up to two switches; pairs of which one fails; pairs that draw the same random numbers.",
  "Needs a second process and a schedule.",
  ["src/filespec.rs", "src/importers/nationwide_pdf.rs", "src/merge/cmd.rs", "src/rules/cmd.rs", "src/fmt.rs", "src/fpgen.rs"], [("temporary directory", "src/importers/nationwide_pdf.rs ocr_document"), ("outputs", "src/filespec.rs write_file")],
  observe=["exit status and standard output of both", "files written by both", "temporary directory"], hook=None)

p("C31", "Unrelated transactions do not influence each other",
  """What apply-rules, fmt, generate-fingerprints and import make of several transactions is what they make of each alone, one after the other (for imports: of the rows of different days or, for PayPal, moments). What merge makes of transactions that share no fingerprint, and no date or no account and amount,
  is what it makes of each such group alone, put together in order. A command succeeds on all of them if and only if it succeeds on each. How many other transactions there are, and where, does not matter.""",
  ["inputs", "histories"],
  "All pairs and triples of transactions over the rules' alphabet under 160 rule tables; all pairs of transactions with every feature through fmt and generate-fingerprints; all pairs of small merges (collisions, ambiguities, conflicts) of other dates, and of other accounts and commodities on the same dates, and dates at 17 distances; all triples of twelve kinds of days in each statement format; one among up to 130 others.",
  "The tests have fixed inputs and do not relate runs to each other.",
  ["src/rules/table/mod.rs", "src/merge/merger.rs", "src/merge/transaction.rs", "src/importers/nationwide.rs", "src/importers/nationwide_csv.rs", "src/importers/nationwide_pdf.rs", "src/importers/paypal_csv.rs", "src/fmt.rs", "src/fpgen.rs"],
  [("rules per transaction", "src/rules/table/mod.rs Table::update_transactions"), ("candidates by date and fingerprint", "src/merge/posting.rs"), ("counters per day", "src/importers/nationwide_csv.rs")],
  observe=["exit status", "transactions of each output"], hook=None)

p("C32", "Command lines mean what the usage says, or are refused without effect",
  """An option means the same under each of its names, with its value attached or separate, and wherever it is among the options and arguments of its command; leaving it out is the same as giving its default (standard output,
  a generated namespace for Nationwide and "paypal" for PayPal, the programs gm and tesseract). A command line with an unknown or abbreviated command or option, an option of another command, a missing, surplus or unexpected value or argument, or an option given twice
  fails without printing results and without creating or changing any file.""",
  ["inputs"],
  "All ways to write ten command lines that use every command and option; all lines within one edit (thorough: two for three of them) over an alphabet of 80 parts; all orders of the parts of lines of up to 7 parts; all lines of up to 3 (thorough: 4) of 18 parts; help at every level.",
  "The tests call the code behind the command line, never the command line.",
  ["src/main.rs", "src/merge/cmd.rs", "src/rules/cmd.rs", "src/rules/table/mod.rs", "src/fmt.rs", "src/fpgen.rs", "src/importers/cmd.rs", "src/importers/nationwide.rs", "src/importers/nationwide_csv.rs", "src/importers/nationwide_pdf.rs", "src/importers/paypal_csv.rs", "src/filespec.rs"],
  [("options and arguments", "the Args structs of each command"), ("standard streams", "src/filespec.rs FileSpec::from_str")],
  observe=["exit status", "standard output", "all files"], hook=None)

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")

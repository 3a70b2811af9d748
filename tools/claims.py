NA = {}
c("C01", "model_checking", MC, """All pairs, fields, orders and conflict families and all sequences of up to 3 (thorough: 4) merges of a 24-journal alphabet; conservation is decided by
  fingerprints directly on input and output, not through the model. Bounded: alphabets and depth as listed in DESIGN.md.""")
c("C02", "model_checking", MC, """Every mergeable history within the bounds is re-merged with itself and with all its inputs, and compared byte for byte.""")
c("C03", "model_checking", MC, """The reference model implements the README's matching; every explored history is run on the real binary and its grouping of postings compared.""")
c("C04", "model_checking", MC, """All combinations of the field alphabets of existing and incoming posting; the resulting fields are compared with the model's.""")
c("C05", "model_checking", MC, """Acceptance is compared with the model in both directions on all histories, with output files present or absent beforehand and compared afterwards.""")
c("C06", "model_checking", MC, """All placements of up to 4 transactions over dates, files and sources; order read off the output files.""")
c("C07", "model_checking", MC, """All partitions into sources and all hand resolutions of ambiguous merges within the bounds.""")
c("C26", "model_checking", MC, """All sequences of up to 3 (thorough: 4) merges, stepwise against at once, byte for byte.""")
c("C09", "model_checking", MC, """All predicates, actions and pairs of them, all two- and three-rule tables of the alphabets and all jump graphs over up to three chains; each applied by the real binary and compared with a
  reference interpreter of the README's rule language.""")
c("C10", "exploration", EX, """All combinations of journal contents, field by field, under rules that do or do not match; unmatched postings and everything rules cannot address must be unchanged.""")
c("C11", "exploration", EX, """All broken references, patterns and nestings up to the depth bound; loading must accept exactly the well-formed tables.""")
c("C12", "exploration", EX, """All days of 11 years, all cell values of the alphabets in every column and pairs of columns, all sequences of rows up to 4 (thorough: 6), all structural damages; compared with an independent reader of the format.""")
c("C13", "exploration", EX, """All clock-change days and hours in every pair of time zones of the alphabet, all cell values in every column, all groupings of up to 4 (thorough: 5) rows; compared with an independent implementation, including time zone rules.""")
c("C14", "exploration", EX, """All tables of up to 4 (thorough: 5) lines over 14 kinds of line, layouts and page splits, and all failures of the external programs; a stand-in for the OCR programs supplies the recognised text.""")
c("C15", "exploration", EX, """All row sequences, field alphabets and namespaces; fingerprints compared with an independent SHA-1 and encoding, and for distinctness. Two known findings are listed.""")
c("C22", "exploration", EX, """All combinations of path shapes, options, previous contents, importers and namespaces; the whole directory tree is compared before and after.""")
c("C23", "exploration", EX, """All offsets of the syntax, all notations within one (thorough: two) edits of a valid one, and all tables of up to 3 (thorough: 4) entries; the offsets are observed through the imported dates.""")
c("C24", "exploration", EX, """All single characters of the byte range and beyond in every namespace source, all account names of the alphabet, all choices and importers.""")
c("C25", "model_checking", MC, """Every history of three days over the alphabet of days, in five statement formats; all sequences of up to three statements merged at once, and the full graph of journal states reachable by any number of merges, rule applications,
  edits and formattings, explored to its fixpoint on the real commands. One known finding is listed.""")
c("C16", "exploration", EX, """All comments of up to 3 lines over an alphabet of flags, value tags, text and mixtures of them, at transactions and postings, with all separators; read and written by the real commands and compared with an independent reader of the format.""")
c("C17", "exploration", EX, """All journals of a grammar over every optional part, layout and line ending, and all sequences of items and files up to the bounds; what is read back is compared item by item, and formatting again must change nothing.""")
c("C18", "exploration", EX, """All journals of up to 3 transactions and 3 postings with no, one or several fingerprints or look-alikes; only fingerprints may be added, all fingerprints generated during the whole check are compared with each other, and the outputs merged.""")
c("C21", "exploration", EX, """All files of up to 4 (thorough: 5) items over nine kinds, at every input position of each command, and one other item at every place of a long journal.""")
c("C08", "model_checking", "exhaustive exploration of hash table iteration orders (by controlled seeds), clocks and environments of the real binary", """Every scenario that puts several elements into each hash table is run under seeds that realise every iteration order of tables of up to 3 (thorough: 4) elements, with the clock moved along; the resulting files are compared byte for byte.""")
c("C19", "fault_enumeration", "exhaustive enumeration of faults and crash points over all file operations of the real binary, one and two at a time", """Every file operation of 22 scenarios over all commands fails with every applicable error, transfers too little, or is where the process dies; and all pairs after a harmless first fault. Exit status, all files, standard output and a repetition without faults are judged. Not faulted: close, and the operations of the external OCR programs.""")
c("C20", "exploration", EX, """All single edits over a format's significant pieces at every place, lines left out, doubled, moved and joined, all files of up to 3 (thorough: 4) tokens, extreme values in every field and in pairs of near fields, long runs and deep nesting, for each input file of each command; exit status and readability of the output are judged.""")
c("C27", "exploration", EX, """Every command with every output in place of every file it reads, under nine ways to name it, all pairs of them for two outputs, 80 odd names for every file, and all sequences of repeated inputs; compared byte for byte with plainly named, separate files.""")
c("C28", "exploration", EX, """All layouts within two deviations from the plain one on journals with every feature, through merges, rules and generated fingerprints; results compared byte for byte with those of the plain layout. Not covered: layouts within an amount's digits beyond grouping and leading zeros.""")
c("C29", "exploration", EX, """Every input and output of every command, and every pair, as a standard stream under each of its names; compared byte for byte with files.""")
c("C30", "model_checking", "stateless exploration of the interleavings of the file operations of two real processes under a controlled scheduler, with a bound on switches", """Two processes run under a scheduler that stops them at chosen file operations: every pair of 22 scenarios with every single switch, two switches (thorough: three for copies of one command) for a choice of pairs; what both leave is compared with what each leaves alone. What the external OCR programs do is one step.""")
c("C31", "model_checking", "exhaustive exploration of bounded compositions of inputs on the real binary, compared with its own runs on the parts", """All pairs and triples over the alphabets of each command; the oracle is the same command on each part alone, so no model of the result is needed. Parts are unrelated if they share no fingerprint and differ in date or commodity, or day.""")
c("C32", "exploration", EX, """Command lines are judged by a grammar of the usage: those it accepts must do what the plainest line of the same meaning does, all others must fail without effect. Not covered: empty values, and the text of help.""")

#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the list stays readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
  assert len(title) <= 80, (id, len(title))
  P.append(dict(
      id=id, title=title, statement=statement,
      quantifier=dict(over=over, text=qtext), why_tests_cant=why,
      anchors=dict(files=files,
                   state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                   mechanism=[dict(name=a, where=b) for a, b in mech],
                   observe_at=list(observe), hook_needed=hook)))

TP='nisaba/port/thread_pool.h'; DEC='nisaba/translit/fst/pairlm_decoder.cc'; DECH='nisaba/translit/fst/pairlm_decoder.h'
RUN='nisaba/translit/fst/pairlm_decoder_runner.cc'; FU='nisaba/port/file_util.cc'; FI='nisaba/port/file.cc'
PFS='nisaba/port/proto_file_stream.cc'; WP='nisaba/translit/fst/wordpiece-segmenter.cc'
CER='nisaba/translit/tools/calculate_error_rate.cc'; KB='nisaba/translit/tools/kbest-full-string-util.cc'
AGM='nisaba/interim/grm2/thrax/abstract-grm-manager.h'; SYM='nisaba/interim/grm2/thrax/walker/util/function/symbols.cc'

p('P01','Thread pool runs every scheduled task exactly once before it is destroyed',
  'Every task handed, before its destruction begins, to a thread pool whose workers have been started runs exactly once and has finished when the destructor returns, whether it was scheduled before or after the workers started, by one thread or by several, or from inside another task. No task is lost, run twice or still running after the pool is gone, and everything a task wrote is visible to the code after the destructor.',
  ['schedules','histories'],'every interleaving of scheduling threads, workers and the destroying thread, for every number of workers and tasks, tasks scheduled before and after the start, nested scheduling',
  'thread_pool_test runs two fixed workloads under the one schedule the machine picks; a lost wake-up, a shutdown that overtakes queued work or an unlocked queue access needs a particular interleaving.',
  [TP],[('FIFO queue under a mutex; one shutdown marker per worker is queued behind the work; join in the destructor',TP)],
  [('task queue','functions not yet taken by a worker',TP)],['task bodies (run counts)','return of the destructor'])
p('P02','Thread pool: bounded concurrency, real parallelism, FIFO start, no deadlock',
  'At most as many tasks run at the same time as the pool has workers, workers take tasks up in the order in which they were scheduled (with one worker: they run in that order), and no worker sits idle for ever while a task is waiting: tasks that wait for each other make progress as long as no more of them than workers must be running together. Scheduling never waits for a task to finish, and destruction of a pool whose tasks terminate always terminates, including a pool that never got a task.',
  ['schedules'],'every interleaving of workers and producers, including slow and stalled workers, for every pool size',
  'The two pool tests neither measure overlap nor make tasks depend on each other; a lost wake-up or a lock held while a task runs shows only for some schedules and never fails a test that uses independent short tasks.',
  [TP],[('conditional wait for work; tasks run outside the lock',TP)],
  [('task queue','functions not yet taken by a worker',TP)],['task start and end events','termination of the destructor within bounded steps'])
p('P03','Parallel file decoding gives exactly the sequential result',
  'Decoding a file of input lines with any number of worker threads produces the same output as decoding the lines one at a time in one thread: one block per non-empty, non-comment line, in file order, each with the same candidates, scores and positions. This holds for every schedule of the workers and the run always terminates.',
  ['schedules','inputs','configurations'],'every worker schedule, number of workers, input file (empty, comment-only, repeated words, multi-word lines) and decoder configuration with and without cache',
  'The runner test is not part of the reproducible suite, uses one file and one schedule; dropped, duplicated or swapped lines and results that depend on which worker filled a cache first need specific interleavings.',
  [RUN,DEC,TP],[('one output slot per line written by its task; pool joined before output',RUN)],
  [('per-line results','decoded text of each line',RUN)],['output file content','completion of the run'])
p('P04','Splitting one line over several threads does not change its decoding',
  'Transliterating a line of words with a limit on parallel tokens greater than one returns the same candidates per position with the same scores as transliterating it with no parallelism, for every schedule of the worker threads; when candidates are sampled, the sample for a given random seed is likewise the same for every schedule. The call always returns and leaves no work running.',
  ['schedules','inputs','configurations'],'every worker schedule, line length, repeated tokens within a line, and limit on parallel tokens',
  'The decoder tests are not compiled in the reproducible suite and check single lines; per-token tasks share the symbol tables and caches, so ordering effects need many words and many schedules.',
  [DEC,DECH,TP],[('one lattice per token, joined before concatenation in token order',DEC)],
  [('per-token results','candidate machine of each token',DEC)],['returned candidates with positions and costs'])
p('P05','One decoder can be shared by many threads',
  'Any number of threads may transliterate lines with one decoder object at the same time: no call crashes, deadlocks, reads memory that another call is changing, or returns candidates or scores that differ from what the same line gives when decoded alone. Updating of internal caches and symbol tables never loses or corrupts entries another thread added.',
  ['schedules','inputs','configurations'],'every interleaving of concurrent calls on overlapping and distinct vocabularies, with caching, precomputed candidates and word-piece segmentation on and off',
  'No test uses a decoder from two threads; the tables are read and extended inside every call, so a missing lock or a check made before the lock only matters for particular interleavings.',
  [DEC,DECH],[('reader/writer mutex around symbol tables and caches',DECH)],
  [('input and candidate symbol tables','word to label maps extended at run time',DECH),('transliteration caches','memoised candidates per input label',DECH)],['results of concurrent calls','race detector over every memory access'])
p('P06','Decoder answers do not depend on earlier requests or on caching',
  'The candidates and scores a decoder returns for a line are a function of its configuration, its models and the line: they are the same whatever lines were decoded before, however often, in whatever order, and with the result cache switched on or off. Precomputed and mixed-in candidates are applied once per request, never accumulated over requests.',
  ['histories','configurations','inputs'],'every sequence of earlier requests (repeats, words that are pieces of other words, unknown words), every combination of cache, precomputed-candidate and mixing options',
  'Decoder tests decode a few lines on a fresh decoder each time; stale or twice-mixed cache entries only appear in longer request histories.',
  [DEC,DECH],[('cache lookup keyed by input label; per-entry mixed marker',DEC)],
  [('transliteration caches','memoised candidates per input label',DECH)],['returned candidates, compared with a fresh decoder and with a reference computation'])
p('P07','A decoding run that reports success has read everything and written everything',
  'When a decoding run over files reports success, every line of the input and every resource it was configured with was read completely and the output file on disk holds the complete result; if a file could not be opened, read to its end or written in full (device error, full disk), the run reports an error or stops loudly. Short or interrupted transfers that the system allows are retried and change nothing.',
  ['fault_sequences','inputs','configurations'],'every placement of open failures, read errors, short and interrupted transfers, write errors, disk-full and close errors over all files the run touches',
  'No test injects an I/O failure; the tests read and write healthy temporary files, so truncation reported as success is invisible to them.',
  [RUN,DEC,FU,'nisaba/translit/fst/pairlm_decoder_main.cc'],[('status returns from readers, check of the output stream at the end',RUN)],
  [('output stream','buffered result lines',RUN)],['returned status against bytes in the simulated disk'])
p('P08','Text write helpers return success only when every byte is stored',
  'When writing a text file or a temporary text file reports success, a reader that opens the path right after the call finds exactly the bytes that were to be written; when the file cannot be opened or the device fails or is full at any point, the call reports an error. Existing content is replaced, never mixed with the new content.',
  ['fault_sequences','inputs'],'every content (empty, binary, large) and every placement of open, write, short-write, interrupted, disk-full and close faults',
  'The file tests write small strings to a healthy disk where nothing can fail, and delayed write errors only show when the buffer is flushed.',
  [FU],[('stream opened, written and checked before success is returned',FU)],
  [],['returned status against bytes in the simulated disk'])
p('P09','Text read helpers return success only with the exact file content',
  'When reading a text file or its lines reports success, the result is exactly the content that is stored (for lines: every non-empty line in order, without its line feed, as long as no line exceeds the maximum line length given); if the file cannot be opened or any read fails, the call reports an error instead of a shortened result or an escaping exception. Short and interrupted reads that the system allows do not change the result.',
  ['fault_sequences','inputs'],'every content (no final newline, empty lines, NUL bytes, long lines) and every placement of read errors, short reads, interruptions and open failures',
  'The tests read healthy little files; a read error in the middle of a stream looks like the end of the file unless it is checked for.',
  [FU],[('stream state checked after reading',FU)],
  [],['returned status and data against the stored bytes'])
p('P10','Low-level file objects and proto streams move bytes in order, exactly once',
  'Bytes written through a file object or through the protocol-buffer output stream on top of it appear in the file in order, once each, and reads return the stored bytes in order; counts returned by reads and writes, and the results of flush, close and size, tell the truth when transfers are short, interrupted or fail. After an error was reported, no later call claims that the lost data was stored, and a file object that was closed, successfully or not, no longer counts as open.',
  ['fault_sequences','histories','inputs'],'every sequence of open, read, read-line, read-all, write, flush, close, size and proto-stream operations under every placement of I/O faults',
  'The existing tests do a single write and read on a healthy disk; error returns are never exercised.',
  [FI,'nisaba/port/file.h',PFS,'nisaba/port/proto_file_stream.h'],[('buffered C streams; copying stream adaptor that retries until all bytes are taken',PFS)],
  [('file handle','open C stream or none',FI)],['return values and bytes in the simulated disk, compared with a reference model'])
p('P11','Loading a protocol buffer from a file never succeeds with partial data',
  'When a protocol message is loaded from a text or binary file and success is reported, the message equals the one that the complete stored file describes; an unreadable, short or damaged file is reported as a failure. This holds for the generic loaders, for the script-configuration and letter-table readers and under every I/O fault.',
  ['fault_sequences','inputs'],'every message (text and binary form), every prefix a failed read could leave, every placement of open and read faults',
  'Tests parse healthy files; many prefixes of a text or binary message are themselves valid messages, so a swallowed read error yields a wrong but well-formed message.',
  [FI,'nisaba/port/file.h','nisaba/scripts/utils/proto.py',FU],[('whole file read before parsing; status checked',FI)],
  [],['returned status and message against the stored one'])
p('P12','Elapsed-time measurement never goes backwards',
  'The elapsed time reported by a timer is never negative, never decreases between two readings and is not changed by adjustments of the system clock, only by time that really passes.',
  ['schedules','fault_sequences'],'every sequence of clock readings, delays, and forward or backward steps of the wall clock, with concurrent readers',
  'The timer test sleeps once on a machine whose clock is not adjusted.',
  ['nisaba/port/timer.h'],[('difference of two clock readings',"nisaba/port/timer.h")],
  [],['reported elapsed milliseconds against simulated time'])
p('P13','Evaluation and k-best tools never report success on truncated input or output',
  'When the error-rate calculation, the k-best extraction, the ensembling or the rejoining tool finishes successfully, every line of its input files was processed and its complete result is in the output file; when any file cannot be opened, read to its end or fully written, the tool fails visibly. Short and interrupted transfers do not change results.',
  ['fault_sequences','inputs','configurations'],'every placement of I/O faults over all input and output files of each tool, for generated inputs and tool options',
  'Tool tests compare values computed from small healthy files and never inject a fault, so a score computed from half of the references or an output cut short would go unnoticed.',
  [CER,'nisaba/translit/tools/calculate_error_rate.h',KB,'nisaba/translit/tools/kbest-full-string-util.h',FU,'nisaba/translit/tools/calculate_error_rate_main.cc','nisaba/translit/tools/ensemble-full-string_main.cc','nisaba/translit/tools/extract-kbest-full-string_main.cc','nisaba/translit/tools/rejoin-kbest-full-string_main.cc'],[('status of line readers; check of the output stream',KB)],
  [],['tool status against output bytes and a fault-free run'])
p('P14','Word-piece vocabulary loading is complete or fails',
  'When a word-piece model loads its vocabulary from a file and reports success, it behaves exactly as one given all the stored pieces; a file that cannot be opened or read to its end is reported as a failure. Segmentation by one loaded model gives the same result from many threads and after any history.',
  ['fault_sequences','schedules','inputs'],'every vocabulary file and placement of open, read, short-read and interruption faults; every interleaving of concurrent segmentations',
  'The segmenter test loads one healthy file; a vocabulary cut short still loads and segments, with different pieces.',
  [WP,'nisaba/translit/fst/wordpiece-segmenter.h'],[('line loop over the vocabulary stream',WP)],
  [('piece table','maps pieces to indices','nisaba/translit/fst/wordpiece-segmenter.h')],['load result and segmentations against a model given the pieces directly'])
p('P15','Grammar archive loading in C++ is all or nothing',
  'Loading a grammar archive either succeeds with exactly the grammars in the stored archive available and rewriting as stored, or reports failure; an archive that is missing, unreadable, empty, cut short or has an entry that cannot be parsed is never reported as loaded, does not crash the process and never yields a grammar set that is silently incomplete. A failed load leaves the complete former grammar set or none in use, never a part of one, and a later load of a healthy archive works. Failure is reported by the result or status, or as a fatal error where OpenFst is configured to make its errors fatal or a tool checks the result.',
  ['fault_sequences','crash_points','inputs','histories'],'every truncation point (a crash while the archive was being written), entries whose start was lost, read, open, seek and short-read faults, and every history of failed and successful loads',
  'Grammar tests load intact archives only.',
  [AGM,'nisaba/interim/grm2/thrax/grm-manager.h','nisaba/scripts/brahmic/grammar.cc','nisaba/scripts/utils/far_base.h'],[('archive iterator with an error flag; map from rule name to grammar',AGM)],
  [('loaded grammars','rule name to transducer',AGM)],['load result, rule set and rewrites against the intact archive'])
p('P16','A loaded grammar can be shared by concurrent callers',
  'Once loaded, a grammar, normalizer, grammar manager or rewrite tester gives every one of many concurrent callers the result it gives to a single caller for the same text, without data races, crashes or blocking, and regardless of earlier calls. Rewriting never modifies the loaded grammar.',
  ['schedules','histories','inputs'],'every interleaving of concurrent rewrite, accept and lookup calls on shared objects and every history of earlier calls, with succeeding and failing inputs',
  'No test calls a grammar from two threads; const-looking calls in this library update lazily computed properties and shared copies.',
  [AGM,'nisaba/scripts/brahmic/grammar.cc','nisaba/scripts/brahmic/grammar.h','nisaba/interim/grm2/rewrite/rewrite_manager.h','nisaba/interim/grm2/rewrite/base_rule_cascade.h','nisaba/interim/grm2/rewrite/rule_cascade.h','nisaba/interim/grm2/thrax/rewrite-tester.cc'],[('read-only use of shared transducers; arc matchers and sorted copies prepared at load time',AGM)],
  [('loaded grammars','rule name to transducer',AGM)],['results of concurrent calls','race detector over every memory access'])
p('P17','Lazily loaded script grammars in Python are safe to use first from many threads',
  'When several threads ask for script normalization, romanization or acceptance at the same time, including the very first uses that trigger loading, each call gives the same result as it gives in a single thread and none fails or hangs. The result of a call does not depend on which scripts, grammars or texts were used before.',
  ['schedules','histories'],'every interleaving (at the granularity of Python instructions) of first and later uses of all grammar entry points and every order of earlier uses',
  'The tests use the entry points from one thread in one fixed order.',
  ['nisaba/scripts/brahmic/__init__.py','nisaba/scripts/abjad_alphabet/__init__.py','nisaba/scripts/utils/far.py'],[('cached properties and memoised archive and rule lookups','nisaba/scripts/utils/far.py')],
  [('archive cache','loaded archives and rules per path','nisaba/scripts/utils/far.py')],['results of concurrent calls against single-threaded ones'])
p('P18','A failed grammar load in Python is reported and does not stick',
  'If an archive cannot be opened or read when a script grammar is first used, that call raises an error and returns no result; once the archive is readable again the next use works and gives the right result. No sequence of failed and successful loads makes any entry point return a wrong or empty result.',
  ['fault_sequences','histories','crash_points'],'every sequence of open failures, read errors, short and truncated archives and recoveries interleaved with uses of the entry points',
  'The tests only load intact archives; memoised failures and partially read archives need a fault followed by a retry in the same process.',
  ['nisaba/scripts/utils/far.py','nisaba/scripts/utils/file.py','nisaba/scripts/brahmic/__init__.py','nisaba/scripts/abjad_alphabet/__init__.py'],[('memoisation stores only successful loads','nisaba/scripts/utils/far.py')],
  [('archive cache','loaded archives and rules per path','nisaba/scripts/utils/far.py')],['results and exceptions per call against the fault-free results'])
p('P19','Optional data falls back to its default only when it is really absent',
  'Where a missing resource means "use the default" (optional script data, script configuration or a grammar missing from an archive), the default is used only if the resource truly does not exist. If it exists but cannot be looked up, opened or read, or is damaged, an error is raised instead of building or applying a grammar without it.',
  ['fault_sequences','configurations'],'every combination of present and absent resources with lookup errors (permission, I/O error, interrupted path), open and read failures and truncated files',
  'Tests only see resources that are present and healthy or plainly absent.',
  ['nisaba/scripts/utils/file.py','nisaba/scripts/brahmic/util.py'],[('existence test distinguishes absence from other errors','nisaba/scripts/utils/file.py')],
  [],['returned grammar or configuration, or raised error, against the true state of the simulated disk'])
p('P20','Conversion of script data to grammar input is complete or fails',
  'When the conversion of a script data file to a tab-separated grammar source reports success, the output file contains exactly one correct line per item of the complete input in input order; any failure to read the input, to convert an item or to write, flush or close the output makes the conversion fail. Short and interrupted transfers do not change the output.',
  ['fault_sequences','inputs'],'every generated data file and every placement of open, read, write, disk-full and close faults',
  'The tests convert single items in memory and the build converts healthy files; a grammar built from a truncated table compiles without complaint.',
  ['nisaba/scripts/utils/unicode_strings_to_tsv.py','nisaba/scripts/utils/unicode_strings_util.py'],[('exceptions from reading, conversion and the output file propagate','nisaba/scripts/utils/unicode_strings_to_tsv.py')],
  [],['exit status against output bytes and an independent conversion'])
p('P21','Python data readers raise on failed reads instead of returning part of the data',
  'Reading letter tables, character sets, rewrite rules, string maps and evaluation files in Python either returns exactly what the complete stored files describe, as text, or raises an error. This holds when files cannot be opened, reads fail midway or transfers are short or interrupted.',
  ['fault_sequences','inputs'],'every generated data file and every placement of open and read faults over the files involved',
  'The tests read healthy bundled data; the readers build sets and transducers for which partial data looks plausible.',
  ['nisaba/scripts/utils/proto.py','nisaba/scripts/utils/char.py','nisaba/scripts/utils/rule.py','nisaba/scripts/utils/file.py','nisaba/scripts/utils/letter_languages.py','nisaba/scripts/utils/unicode_strings_util.py','nisaba/translit/tools/calculate_emd_cer.py'],[('exceptions from the file layer propagate','nisaba/scripts/utils/proto.py')],
  [],['returned value or exception against the stored data'])
p('P22','Derived data does not depend on hash order or on repetition',
  'Converting script data, deriving character inventories, partitioning rewrite rules and compiling rules give the same result (byte for byte for text, the same mapping for grammars) in every process, whatever the hash randomisation and the locale of that process, and however often they are run.',
  ['configurations','histories','inputs'],'every hash seed of the process, every number of repetitions and every generated input',
  'Each test runs under the one hash seed its process got and never compares two runs.',
  ['nisaba/scripts/utils/unicode_strings_util.py','nisaba/scripts/utils/rule.py','nisaba/scripts/utils/char.py','nisaba/scripts/utils/unicode_strings_to_tsv.py'],[('sets are only used where order cannot matter; rule order from substring relation','nisaba/scripts/utils/rule.py')],
  [],['results of the same input under different hash seeds'])
p('P23','Shared symbol tables for grammar parsing are created once and stay valid',
  'When several threads ask for the byte or UTF-8 symbol table for the first time or later, all of them get one complete table, a table once handed out stays valid and complete for the rest of the process, and symbols added by one thread are not lost by the actions of another. A symbol keeps the number it was added with.',
  ['schedules','histories'],'every interleaving of first and later requests for the tables and additions to them from several threads',
  'The code is not compiled by the reproducible suite and no test uses the registry from two threads; creation on first use is a check-then-act on a global.',
  [SYM,'nisaba/interim/grm2/thrax/walker/util/function/symbols.h'],[('process-wide builder guarded by a mutex',SYM)],
  [('symbol tables','byte, UTF-8 and generated labels',SYM)],['returned tables, their content and their validity over time'])
B='nisaba/scripts/brahmic/'; A='nisaba/scripts/abjad_alphabet/'; N='nisaba/scripts/natural_translit/'
p('P24','Natural-transliteration building blocks are not changed by use',
  'Features, feature sets and profiles, symbols, inventories, expressions, alignments, lattices, phons and grammar fragments (FSTs) shared between inventories and languages are not changed by operations that compare, look up, describe, copy, combine or compile them. Any sequence of such operations, from one thread or several, gives the results each gives alone in a fresh process whatever its hash randomisation; changing a copy, or one of two objects made independently, leaves the other as it was.',
  ['histories','schedules','configurations'],'every sequence and interleaving of uses of shared objects, in every process whatever its hash seed',
  'Each test builds its own objects, runs one order of operations once in one process and never looks at an operand again after it was used; language grammars are built from the same module-level objects in one process.',
  [N+'utils/feature.py',N+'utils/symbol.py',N+'utils/expression.py',N+'utils/alignment.py',N+'utils/inventory.py',N+'utils/lattice.py',N+'utils/operation.py',N+'utils/fst_list.py',N+'phonology/phon.py',N+'phonology/modify_phon.py',N+'phonology/phoneme_inventory.py',N+'script/char.py'],[('copies own their containers; defaults are made per instance',N+'utils/lattice.py')],
  [('shared inventories','module-level symbols, phons and FSTs',N+'phonology/phon.py')],['result of each operation against the same operation alone in a fresh process'])
NA = []
def na(id, title, statement, over, qtext, why, files, mech, reason):
  p(id, title, statement, over, qtext, why, files, mech)
  NA.append(dict(property=id, reason=reason))
PURE = 'No concurrency, time, I/O or multi-party behaviour for the property to depend on: it is a fact about a pure function, compiled grammar or in-memory algebra, and which inputs are tried is the only freedom. Random inputs without schedules or faults would be plain property testing, not simulation. '
na('F01','Unicode normalization grammars are idempotent and preserve equivalence',
   'Applying the canonical composition grammar of a script to any text gives a canonically equivalent text, agrees with Unicode composition where Unicode defines it, and applying it again changes nothing.',
   ['inputs'],'all texts of every supported script','Tests rewrite a few dozen strings per script; the claim is about all strings.',
   [B+'nfc.py',A+'nfc.py'],[('obligatory rewrite over the whole alphabet',B+'nfc.py')],PURE+'The loading and sharing of this grammar is under P15 to P18.')
na('F02','Visual normalization is idempotent and keeps what the text looks like',
   'Visual normalization maps visually identical spellings to one spelling, never maps visually different texts together beyond its tables, and a normalized text is left unchanged.',
   ['inputs'],'all texts of every supported script','Tests cover sample strings.',
   [B+'visual_norm.py',A+'visual_norm.py'],[('ordered rewrite rule sets',B+'visual_norm.py')],PURE+'The loading and sharing of this grammar is under P15 to P18.')
na('F03','Native script to ISO romanization round trip',
   'Romanizing any well-formed text of a Brahmic script to ISO 15919 and converting it back gives the normalized original.',
   ['inputs'],'all well-formed texts of every supported script','Tests check listed pairs and random samples.',
   [B+'iso.py'],[('one transducer used in both directions',B+'iso.py')],PURE)
na('F04','Well-formedness acceptance',
   'The acceptor of a script accepts exactly the texts that are sequences of its orthographic syllables as its tables define them.',
   ['inputs'],'all texts','Tests list accepted and rejected samples.',[B+'wellformed.py'],[('closure of the syllable grammar',B+'wellformed.py')],PURE)
na('F05','Reading normalization is total and deterministic',
   'Reading normalization gives exactly one result for every text of its script and language and is idempotent.',
   ['inputs'],'all texts','Tests list samples.',[B+'reading_norm.py',A+'reading_norm.py'],[('rewrite cascade',B+'reading_norm.py')],PURE)
na('F06','Reversible romanization of Arabic-script text is lossless',
   'Every text over the supported Arabic-script characters has a romanization from which exactly the original text is recovered.',
   ['inputs'],'all texts','Tests cover coverage lists.',[A+'reversible_roman.py'],[('bijective mapping compiled to a transducer',A+'reversible_roman.py')],PURE)
na('F07','Fixed-rule schemes agree with their tables',
   'Fixed-rule romanization maps every text according to the scheme tables with longest match.',
   ['inputs'],'all texts','Tests list samples.',[B+'fixed.py'],[('ordered rewrites',B+'fixed.py')],PURE)
na('F08','Natural transliteration: pronunciation and romanization rules',
   'Grapheme-to-phoneme, romanization and deromanization give a total, deterministic result that follows the language parameters for every text of the script.',
   ['inputs'],'all texts of the supported languages','Tests list sample words.',
   [N+'brahmic/g2p.py',N+'brahmic/romanizer.py',N+'brahmic/deromanizer.py',N+'brahmic/derom_inventory.py'],[('composition of rewrite operations',N+'utils/rewrite_functions.py')],PURE)
na('F09','Phonological feature, inventory and expression algebra',
   'Feature distances are symmetric, bounded and zero on equal values, set operations obey set laws, and expression operations (concatenation, alternatives, repetition, alignment) agree with their definition for all operands.',
   ['inputs','programs'],'all feature profiles and all expression trees','Tests evaluate fixed examples.',
   [N+'utils/feature.py',N+'utils/inventory.py',N+'utils/expression.py',N+'utils/symbol.py',N+'utils/type_op.py',N+'utils/alignment.py'],[('value classes with normalising constructors',N+'utils/feature.py')],PURE)
na('F10','UTF-8 text utilities',
   'Splitting text into code points, decoding and encoding, trimming and joining by delimiters are inverse to each other on valid text and reject or mark invalid text without reading past the end.',
   ['inputs'],'all byte strings','Tests use short samples.',['nisaba/port/utf8_util.cc','nisaba/port/utf8_delimiters.cc','nisaba/port/unicode_properties.cc'],[('checked decoding loop','nisaba/port/utf8_util.cc')],PURE)
na('F11','Edit distance and error rates are exact',
   'Character and word error rates equal the minimum edit cost over the references divided by the reference length and are zero exactly on equal strings.',
   ['inputs'],'all hypothesis and reference pairs','Tests use a few pairs.',[CER,'nisaba/translit/tools/calculate_emd_cer.py'],[('dynamic programming',CER)],PURE+'That the tools see all of their input and write all output is P13.')
na('F12','Word-piece segmentation is a longest-match cover of the word',
   'The pieces produced for a word concatenate to the word and are the greedy longest matches of the vocabulary, or the unknown marker.',
   ['inputs'],'all words and vocabularies','Tests use one vocabulary.',[WP],[('greedy longest prefix search',WP)],PURE+'Loading and sharing of the model is P14.')
na('F13','Character names resolve uniquely',
   'A character name with its prefixes resolves to the one matching character or is rejected, and raw text and names given together must agree.',
   ['inputs'],'all names and prefixes','Tests use samples.',['nisaba/scripts/utils/unicode_strings_util.py'],[('lookup under every prefix','nisaba/scripts/utils/unicode_strings_util.py')],PURE+'Conversion of whole files under faults is P20, independence of hash order P22.')
na('F14','Best-path extraction and rewriting operations are exact',
   'One-best, n-best and optimal-set rewriting return exactly the lowest-cost outputs of the composed machine, and tie detection reports ambiguity exactly when there is one.',
   ['inputs','programs'],'all grammars and inputs','Tests use small grammars.',['nisaba/interim/grm2/rewrite/rewrite.h','nisaba/interim/grm2/paths/paths.h','nisaba/interim/grm2/string/stringprint.h'],[('determinise and shortest path over the output projection','nisaba/interim/grm2/rewrite/rewrite.h')],PURE+'Concurrent use is P16.')
na('F15','Script and language data are consistent',
   'The bundled letter tables contain only assigned characters of their script, no contradictory entries, and every language table refers to letters that exist.',
   ['inputs'],'the committed data files','Integrity tests already enumerate the data; it is one fixed input.',['nisaba/scripts/utils/letter_languages.py','nisaba/scripts/brahmic/util.py'],[('integrity tests','nisaba/scripts/utils/letter_languages_integrity_test.py')],PURE)
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if __name__ == '__main__':
  with open(os.path.join(here,'properties.jsonl'),'w') as f:
    for r in P: f.write(json.dumps(r, ensure_ascii=False)+'\n')
  print(len(P), len(NA))

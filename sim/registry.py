"""What every check runs: scenarios, budgets, real and stubbed components."""

# Build groups of the C++ simulator: repository sources (globs; tests and mains
# excluded unless listed), harness files, libraries.
CXX_GROUPS = {
    'pool': dict(patterns=[], harness=['h_pool.cc'], protos=False),
    'port': dict(patterns=['nisaba/port/file*.cc', 'nisaba/port/proto*.cc'], harness=['h_port.cc']),
    'decoder': dict(patterns=['nisaba/port/file*.cc', 'nisaba/port/u*.cc', 'nisaba/translit/fst/*.cc'],
                    harness=['h_decoder.cc'], libs=['-lfst'], mains=['nisaba/translit/fst/pairlm_decoder_main.cc']),
    'tools': dict(patterns=['nisaba/port/file*.cc', 'nisaba/port/u*.cc', 'nisaba/translit/tools/*.cc'],
                  harness=['h_tools.cc'], libs=['-lfst'],
                  mains=['nisaba/translit/tools/%s_main.cc' % m for m in (
                      'calculate_error_rate', 'ensemble-full-string', 'extract-kbest-full-string', 'rejoin-kbest-full-string')]),
    'grm': dict(patterns=['nisaba/port/file*.cc', 'nisaba/interim/grm2/thrax/*.cc',
                          'nisaba/interim/grm2/thrax/walker/util/function/*.cc', 'nisaba/scripts/brahmic/*.cc',
                          'nisaba/scripts/utils/*.cc'], harness=['h_grm.cc'], libs=['-lfst', '-lfstfar']),
}

SIM = ('simulated: thread scheduler, mutexes/condition variables, clock, memory allocator, file system')
CHECKS = {
    'P01': dict(
        scenarios=[('pool', 'pool_exactly_once', 150000)],
        rule='One run = one pool life: pool size, producers, pre/post/nested tasks and task length drawn from the seed; '
             'every mutex, thread and (by sampled interval) memory access is a scheduling point. Non-trivial: at least '
             'two tasks were handed over.',
        real=['nisaba/port/thread_pool.h', 'libstdc++ std::thread/std::function/std::queue'],
        stub=[SIM]),
    'P02': dict(
        scenarios=[('pool', 'pool_fifo', 50000), ('pool', 'pool_parallel', 50000), ('pool', 'pool_schedule_nonblocking', 30000)],
        rule='One run = one pool life with ordered, mutually dependent or gated tasks drawn from the seed. Non-trivial: at '
             'least two tasks (fifo), more than one worker in a rendezvous (parallel), more tasks than workers (gate).',
        real=['nisaba/port/thread_pool.h', 'libstdc++ std::thread/std::function/std::queue'],
        stub=[SIM]),
}

CHECKS.update({
    'P08': dict(
        scenarios=[('port', 'port_write_text', 60000)],
        rule='One run = 1 to 4 calls of the write helpers on two paths; sizes from 0 to 150 kB; open, write, close faults, '
             'short and interrupted writes from the seed. Non-trivial: a text of more than 100 bytes.',
        real=['nisaba/port/file_util.cc', 'libstdc++ file streams'], stub=[SIM, 'bazel runfiles lookup']),
    'P09': dict(
        scenarios=[('port', 'port_read_text', 40000), ('port', 'port_read_lines', 40000)],
        rule='One run = up to 3 reads of stored or missing files; open, read, seek faults, short and interrupted reads from '
             'the seed. Non-trivial: more than 100 bytes or more than two lines stored.',
        real=['nisaba/port/file_util.cc', 'libstdc++ file streams'], stub=[SIM, 'bazel runfiles lookup']),
    'P10': dict(
        scenarios=[('port', 'port_file_write', 40000), ('port', 'port_file_read', 30000), ('port', 'port_file_open', 3000),
                   ('port', 'port_proto_stream', 40000)],
        rule='One run = one file object or stream with a random sequence of operations under write/read/open/close faults. '
             'Non-trivial: more than 200 bytes (stream: 20) were moved, or the file was opened.',
        real=['nisaba/port/file.cc', 'nisaba/port/proto_file_stream.cc', 'libprotobuf stream adaptor', 'glibc stdio'],
        stub=[SIM]),
    'P11': dict(
        scenarios=[('port', 'port_proto_load', 50000)],
        rule='One run = one load of a stored text or binary message, intact, cut or with one changed byte, under open, '
             'read and seek faults. All runs are non-trivial.',
        real=['nisaba/port/file.cc', 'nisaba/port/file_util.cc', 'libprotobuf'], stub=[SIM]),
    'P12': dict(
        scenarios=[('port', 'port_timer', 60000)],
        rule='One run = one timer read many times, from one or two threads, while simulated time passes and the wall clock '
             'jumps by seeded amounts. All runs are non-trivial.',
        real=['nisaba/port/timer.h', 'Abseil time'], stub=[SIM]),
})

_GRMREAL = ['nisaba/interim/grm2/thrax/{abstract-grm-manager,grm-manager}.h', 'nisaba/interim/grm2/thrax/rewrite-tester.cc',
            'nisaba/interim/grm2/rewrite/*.h', 'nisaba/scripts/brahmic/{grammar,far}.cc', 'nisaba/scripts/utils/far_base.cc',
            'OpenFst archive reader and operations (templates instrumented, library not)']
_GRMSTUB = [SIM, 'bazel runfiles lookup', 'grammars: small generated ones in place of the built archives']
_DECREAL = ['nisaba/translit/fst/{pairlm_decoder,pairlm_decoder_runner,pairlm_decoder_main,wordpiece-segmenter}.cc', 'nisaba/port/thread_pool.h',
            'nisaba/port/file_util.cc', 'OpenFst (templates instrumented, library not)', 'Abseil hash tables']
_DECSTUB = [SIM, 'bazel runfiles lookup', 'OpenGrm NGramCounter (unigram counts of a lattice)', 'flag registry of the main program (Abseil flag parsers are real)',
            'models: small generated ones in place of trained ones']
CHECKS.update({
    'P03': dict(
        scenarios=[('decoder', 'dec_file', 10000)],
        rule='One run = one input file decoded by 1 to 4 workers with a generated configuration; every line is compared '
             'with a fresh single-line decoder. Non-trivial: more than one line and more than one worker.',
        real=_DECREAL, stub=_DECSTUB),
    'P04': dict(
        scenarios=[('decoder', 'dec_split', 12000), ('decoder', 'dec_sample', 4000)],
        rule='One run = one or two calls with a line of 1 to 6 words on 2 to 4 threads, compared with a fresh decoder that '
             'splits nothing; or one sampled line. Non-trivial: more than one word.',
        real=_DECREAL, stub=_DECSTUB),
    'P05': dict(
        scenarios=[('decoder', 'dec_shared', 14000)],
        rule='One run = 2 or 3 threads with 1 or 2 lines each on one decoder, then all lines again. All runs are non-trivial.',
        real=_DECREAL, stub=_DECSTUB),
    'P06': dict(
        scenarios=[('decoder', 'dec_history', 10000)],
        rule='One run = 2 to 7 requests to one decoder, each compared with a fresh decoder with the cache on or off. '
             'Non-trivial: more than two requests.',
        real=_DECREAL, stub=_DECSTUB),
    'P07': dict(
        scenarios=[('decoder', 'dec_faults', 12000)],
        rule='One run = one decoding run over files under open/read/write/close faults, short and interrupted transfers, '
             'or with a missing file. Non-trivial: at least one input line.',
        real=_DECREAL, stub=_DECSTUB),
    'P14': dict(
        scenarios=[('decoder', 'wp_load', 60000)],
        rule='One run = one or two loads of a generated vocabulary under open and read faults, then questions from one to '
             'three threads. Non-trivial: more than two pieces.',
        real=['nisaba/translit/fst/wordpiece-segmenter.cc', 'libstdc++ file streams', 'Abseil hash tables'],
        stub=[SIM]),
    'P15': dict(
        scenarios=[('grm', 'grm_load', 22000), ('grm', 'grm_brahmic', 22000), ('grm', 'grm_tester', 8000)],
        rule='One run = one to four loads of generated archives that are healthy, missing, cut, emptied or have lost the '
             'start of an entry, under open, read and seek faults; rewrites after each load. Non-trivial: an unhealthy '
             'archive, a hard fault or an earlier load.',
        real=_GRMREAL, stub=_GRMSTUB),
    'P16': dict(
        scenarios=[('grm', 'grm_share', 15000)],
        rule='One run = two or three threads making one to three calls each on shared managers, cascades, normalizers or a '
             'tester, first use or not. All runs are non-trivial.',
        real=_GRMREAL, stub=_GRMSTUB),
    'P23': dict(
        scenarios=[('grm', 'grm_symbols', 15000)],
        rule='One run = two to four threads asking for one table and adding to it or reading it. All runs are non-trivial.',
        real=['nisaba/interim/grm2/thrax/walker/util/function/symbols.cc', 'OpenFst symbol tables'], stub=[SIM]),
    'P13': dict(
        scenarios=[('tools', 'tools_error_rate', 20000), ('tools', 'tools_extract', 40000),
                   ('tools', 'tools_rejoin', 40000), ('tools', 'tools_ensemble', 25000)],
        rule='One run = one tool job (sometimes two in one process) on generated input files under I/O faults drawn from '
             'the seed; its output is compared with a small reference model. Non-trivial: more than one item.',
        real=['nisaba/translit/tools/{calculate_error_rate,kbest-full-string-util}.{cc,h}', 'nisaba/translit/tools/*_main.cc', 'nisaba/port/file_util.cc',
              'nisaba/port/utf8_util.{cc,h}', 'OpenFst', 'libstdc++ file streams'],
        stub=[SIM, 'ngram::NGramCounter (OpenGrm is not installed): unigram counts from a small stand-in', 'flag registry of the main programs (Abseil flag parsers are real)']),
})

PY_GROUPS = {'py': {}}

PYSIM = ('simulated: thread scheduler at byte-code granularity, locks, file system, hash randomisation')
_PYREAL = ['CPython 3.12', 'pynini/OpenFst', 'protobuf (upb)']
_PYSTUB = [PYSIM, 'bazel runfiles lookup', 'grammar archives: small generated ones in place of the built ones']
CHECKS['P11']['scenarios'].append(('py', 'py_proto_load', 4000))
CHECKS['P11']['real'] += ['nisaba/scripts/utils/proto.py and its callers', 'protobuf (upb)']
CHECKS.update({
    'P17': dict(
        scenarios=[('py', 'py_far_concurrent', 6000)],
        rule='One run = 2 to 4 threads making first and later calls of the script entry points on fresh modules; a switch '
             'may happen at any byte code. Non-trivial: at least two threads made a call.',
        real=['nisaba/scripts/utils/far.py', 'nisaba/scripts/{brahmic,abjad_alphabet,natural_translit} entry points'] + _PYREAL, stub=_PYSTUB),
    'P18': dict(
        scenarios=[('py', 'py_far_heal', 7000)],
        rule='One run = a sequence of calls of the script entry points while archives are missing, damaged, unreadable and '
             'repaired. Non-trivial: at least one load failed or an archive was replaced.',
        real=['nisaba/scripts/utils/far.py', 'nisaba/scripts/{brahmic,abjad_alphabet,natural_translit} entry points'] + _PYREAL, stub=_PYSTUB),
    'P19': dict(
        scenarios=[('py', 'py_optional', 8000)],
        rule='One run = up to 3 look-ups of optional data (config, archive, rewrite tables, acceptors) that is absent, '
             'present or damaged, under stat/open/read faults.',
        real=['nisaba/scripts/utils/file.py', 'nisaba/scripts/brahmic/{util,wellformed,reading_norm}.py'] + _PYREAL, stub=_PYSTUB),
    'P20': dict(
        scenarios=[('py', 'py_tsv', 8000)],
        rule='One run = up to 3 conversions of generated item lists (up to 450 items), some with an item in error, over '
             'older output, under open/read/write/close faults. Non-trivial: at least one item.',
        real=['nisaba/scripts/utils/{unicode_strings_to_tsv,unicode_strings_util,proto}.py'] + _PYREAL, stub=_PYSTUB),
    'P21': dict(
        scenarios=[('py', 'py_readers', 8000), ('py', 'py_grammar', 3000), ('py', 'py_build', 4000)],
        rule='One run = up to 3 reads of generated tables, messages, rules, string maps and evaluation files, or one or two '
             'grammars or whole grammar programs on generated tables, with a file missing or under open/read/stat faults.',
        real=['nisaba/scripts/utils/{char,file,rule,proto,letter_languages,unicode_strings_util,rewrite}.py',
              'nisaba/scripts/brahmic/{nfc,fixed,sigma,reading_norm,wellformed,iso,visual_norm,char_util}.py',
              'nisaba/scripts/abjad_alphabet/{nfc,reading_norm,visual_norm,visual_norm_common,reversible_roman,util}.py',
              'nisaba/translit/tools/{calculate_emd_cer,emd_cer}.py'] + _PYREAL, stub=_PYSTUB),
    'P22': dict(
        scenarios=[('py', 'py_hash', 1500)],
        rule='One run = one or two conversions or derivations, each done here, again, and in a process with another hash seed.',
        real=['nisaba/scripts/utils/{unicode_strings_to_tsv,char,rule,rewrite,letter_languages,unicode_strings_util}.py',
              'nisaba/scripts/brahmic/{char_util,nfc,fixed,sigma,reading_norm,wellformed,iso,visual_norm}.py',
              'nisaba/scripts/abjad_alphabet/{nfc,reading_norm,visual_norm,reversible_roman}.py'] + _PYREAL, stub=_PYSTUB),
})

CHECKS.update({
    'P24': dict(
        scenarios=[('py', 'py_nat', 2000)],
        rule='One run = a history of up to 8 operations, or 2 to 3 threads of up to 3 operations each, over the shared and over '
             'generated building blocks, then the same operations again in reverse order. Non-trivial: at least two operations.',
        real=['nisaba/scripts/natural_translit/utils/{feature,symbol,expression,operation,inventory,type_op,fst_list,alignment,rewrite_functions,concat,lattice}.py',
              'nisaba/scripts/natural_translit/phonology/{phonological_symbol,phon,modify_phon,phoneme_inventory,feature}.py and inventories',
              'nisaba/scripts/natural_translit/script/{grapheme,char}.py and inventories', 'nisaba/scripts/natural_translit/latin'] + _PYREAL,
        stub=[PYSIM]),
})

ASSUMPTIONS = [
    'Executions are sequentially consistent; weak-memory effects are covered only as data races (happens-before).',
    'Libraries outside the repository (OpenFst, Abseil, protobuf, libstdc++) run as real code, but uncontrolled '
    'inside: no preemption between their instructions unless they are header code compiled with the simulator.',
]

"""What each check builds and runs: harness sources, build variants and the share of the cases each variant runs."""

import os
import re

SAN = ['-O1', '-fno-omit-frame-pointer']
COV = ['-fsanitize-coverage=inline-8bit-counters,pc-table']
AU = ['-fsanitize=address,undefined', '-fno-sanitize=pointer-overflow', '-fno-sanitize-recover=all']
VARIANTS = {
    'R': {'cc': 'gcc', 'cflags': ['-O2'], 'what': 'gcc -O2, asserts on (as shipped)'},
    'A': {'cc': 'clang', 'cflags': SAN + AU, 'libcflags': COV, 'what': 'clang AddressSanitizer + UndefinedBehaviorSanitizer, asserts on'},
    'N': {'cc': 'clang', 'cflags': SAN + AU, 'libcflags': ['-DNDEBUG'], 'what': 'clang AddressSanitizer + UndefinedBehaviorSanitizer, NDEBUG'},
    'M': {'cc': 'clang', 'cflags': SAN + ['-fsanitize=memory', '-fsanitize-memory-track-origins=1'], 'what': 'clang MemorySanitizer'},
    'P': {'cc': 'clang', 'cflags': ['-O1'], 'libcflags': ['-fsanitize-coverage=trace-pc'], 'what': 'clang -O1 with a hook on every branch of the library'},
    'Q': {'cc': 'gcc', 'cflags': ['-O2', '-DVH_BEST'], 'libcflags': ['-DENABLE_SINC_BEST_CONVERTER'], 'best': True,
          'what': 'gcc -O2, asserts on, best sinc converter enabled on a stand-in filter table'},
    'B': {'cc': 'clang', 'cflags': SAN + AU + ['-DVH_BEST'], 'libcflags': COV + ['-DENABLE_SINC_BEST_CONVERTER'], 'best': True,
          'what': 'clang AddressSanitizer + UndefinedBehaviorSanitizer, asserts on, best sinc converter enabled on a stand-in filter table'},
    'T': {'cc': 'clang', 'cflags': SAN + ['-fsanitize=thread'], 'what': 'clang ThreadSanitizer'},
}

LEVEL = 'exploration'

WRAPPED = ['src_process', 'src_simple', 'src_callback_read']
PUBLIC = ['src_' + n for n in ('new clone callback_new delete process callback_read simple get_name get_description get_version set_ratio get_channels reset is_valid_ratio '
                               'error strerror short_to_float_array float_to_short_array int_to_float_array float_to_int_array').split()]
V3 = ['-O3', '-march=x86-64-v3']
# the builds compared by C19; the first one is the reference.  exact: bit-identical results are required
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'harness', 'c20.h')) as _f:
    EFFECTS = re.findall(r'X \((\w+)\)', _f.read())

BUILDS = [
    {'name': 'plain (gcc -O2)', 'flags': ['-O2']},
    {'name': 'gcc -O0', 'flags': ['-O0']},
    {'name': 'gcc -O3, asserts off', 'flags': ['-O3', '-DNDEBUG']},
    {'name': 'clang -O3', 'cc': 'clang', 'flags': ['-O3']},
    {'name': 'no SSE2 intrinsics', 'flags': ['-O2', '-include', 'prelude.h']},
    {'name': 'SSE2 rounding as on i386', 'flags': ['-O2', '-DAS_I386', '-include', 'prelude.h']},
    {'name': 'AVX2, no contraction', 'flags': V3 + ['-ffp-contract=off'], 'cpu': 'v3', 'optional': True},
    {'name': 'AVX2 with fused multiply-add', 'flags': V3 + ['-ffp-contract=fast'], 'cpu': 'v3', 'optional': True, 'attr': {'exact': 0}},
    {'name': 'x87 arithmetic', 'flags': ['-O2', '-mfpmath=387', '-include', 'prelude.h'], 'attr': {'exact': 0}},
    {'name': 'medium sinc converter only', 'flags': ['-O2', '-DWITHOUT_FAST'], 'attr': {'fast': 0}},
    {'name': 'fastest sinc converter only', 'flags': ['-O2', '-DWITHOUT_MEDIUM'], 'attr': {'medium': 0}},
    {'name': 'no sinc converter', 'flags': ['-O2', '-DWITHOUT_MEDIUM', '-DWITHOUT_FAST'], 'attr': {'medium': 0, 'fast': 0}},
    {'name': 'CONFIG_CHAN_NR=300', 'flags': ['-O2', '-DCONFIG_CHAN_NR=300'], 'attr': {'maxch': 300}},
    {'name': 'CONFIG_CHAN_NR=5', 'flags': ['-O2', '-DCONFIG_CHAN_NR=5'], 'attr': {'maxch': 5}},
    {'name': 'best sinc converter enabled', 'flags': ['-O2', '-DENABLE_SINC_BEST_CONVERTER'], 'optional': True, 'attr': {'best': 1}},
    {'name': '32-bit long, as on Windows', 'flags': ['-O2', '-DLONG32', '-include', 'prelude.h'], 'wrap': 'long32', 'optional': True},
    {'name': 'gcc -Os, nothing detected', 'flags': ['-Os', '-DBARE']},
    {'name': 'clang -O0', 'cc': 'clang', 'flags': ['-O0']},
    {'name': 'clang AVX2 with fused multiply-add', 'cc': 'clang', 'flags': V3 + ['-ffp-contract=fast'], 'cpu': 'v3', 'optional': True, 'attr': {'exact': 0}},
    {'name': 'shared library with version script', 'flags': ['-O2', '-fPIC'], 'shared': True},
]

CHECKS = {
    'C01': {
        'src': ['c01.c'], 'level': LEVEL,
        'quick': {'A': 0.7, 'N': 0.3, 'B': 0.05}, 'thorough': {'A': 0.7, 'N': 0.3, 'B': 0.1, 'Q': 0.1},
        'rule': 'A case is a random history of 4..60 operations (create, process, callback read, set_ratio, reset, clone, delete) on up to 4 converters with '
                'hostile block sizes, ratios and sample values, run under ASan+UBSan on exact-size buffers. Two cases are distinct if their sequences of '
                '(operation, converter, channel class, ratio class, input- or output-limited) differ; non-trivial if some call was made on a converter.',
    },
    'C02': {
        'src': ['c02.c'], 'level': LEVEL, 'quick': {'R': 1, 'A': 0.2, 'Q': 0.05}, 'thorough': {'R': 1, 'A': 0.2, 'Q': 0.1, 'B': 0.03},
        'rule': 'A case is one stream (converter, channels, ratio, length, signal) pushed through a random division into src_process calls or through src_simple; '
                'every call is checked for its frame accounting and untouched memory, the concatenation against the one-call result and the reference model. '
                'Distinct: different (converter, channels, ratio class, input block style, output block style, end-of-input style).',
    },
    'C03': {
        'src': ['c03.c'], 'level': LEVEL, 'quick': {'R': 1, 'A': 0.15, 'Q': 0.05}, 'thorough': {'R': 1, 'A': 0.15, 'Q': 0.1, 'B': 0.03},
        'rule': 'A case is one finished stream through one of the APIs with one way of ending the input; total, last frames (against the reference model) and '
                'emptiness after the end are checked. Distinct: different (converter, channels, ratio class, API, length class).',
    },
    'C04': {
        'src': ['c04.c'], 'level': LEVEL, 'quick': {'R': 1, 'A': 0.1, 'Q': 0.05}, 'thorough': {'R': 1, 'A': 0.1, 'Q': 0.1, 'B': 0.03},
        'rule': 'A case is one stream run once in one call, in two random divisions into calls, with src_simple and with src_callback_read; all outputs are compared '
                'sample by sample. Distinct: different (converter, channel class, ratio class, block styles, end-of-input style).',
    },
    'C05': {
        'src': ['c05.c'], 'level': LEVEL, 'quick': {'R': 1, 'A': 0.1, 'Q': 0.05}, 'thorough': {'R': 1, 'A': 0.1, 'Q': 0.1, 'B': 0.03},
        'rule': 'A case is one multichannel stream (every channel count in turn; constant or varying ratio; possibly NaN, infinity or huge values in one channel) whose '
                'channels are compared with mono conversions. Distinct: different (converter, channels, ratio class, kind).',
    },
    'C06': {
        'src': ['c06.c', 'script.c'], 'level': LEVEL, 'quick': {'R': 1, 'A': 0.4, 'Q': 0.05}, 'thorough': {'R': 1, 'A': 0.4, 'Q': 0.1, 'B': 0.03},
        'rule': 'A case is a random history, a clone, and continuations of original, clone and an independent twin in one of six patterns; the complete logs (results, '
                'counts, samples) are compared bit by bit. Distinct: different (converter, channels, mode, operation sequences); non-trivial if frames were compared.',
    },
    'C07': {
        'src': ['c07.c', 'script.c'], 'level': LEVEL, 'quick': {'R': 1, 'A': 0.4, 'Q': 0.05}, 'thorough': {'R': 1, 'A': 0.4, 'Q': 0.1, 'B': 0.03},
        'rule': 'A case is 1-3 rounds of a random history, src_reset and a random continuation compared bit by bit with a new converter. Distinct: different (converter, '
                'channels, mode, operation sequence).',
    },
    'C08': {
        'src': ['c08.c', 'script.c'], 'level': LEVEL, 'quick': {'R': 1, 'A': 0.4, 'Q': 0.05}, 'thorough': {'R': 1, 'A': 0.4, 'Q': 0.1, 'B': 0.03},
        'rule': 'A case is one ratio (boundary values, NaN, infinities, random bit patterns) through every entry point, one creation with converter and channel numbers, one '
                'geometry of input and output regions, or a stream with failing calls inserted compared with the same stream without them. Distinct: different ratio bits, '
                '(converter, channels), geometry or operation sequence.',
    },
    'C09': {
        'src': ['c09.c', 'script.c'], 'level': 'fault_enumeration', 'quick': {'R': 1, 'A': 1, 'Q': 0.25}, 'thorough': {'R': 1, 'A': 1, 'Q': 1, 'B': 0.3},
        'evaluations': 'evaluations',
        'ldflags': {'*': ['-Wl,' + ','.join('--wrap=' + f for f in ('malloc', 'calloc', 'realloc', 'free', 'aligned_alloc', 'posix_memalign', 'strdup'))]},
        'rule': 'Every allocation made by src_new, src_callback_new, src_clone (new, mid-stream, ended, callback) and src_simple, for every converter and 20 channel counts, '
                'is made to fail once alone and once together with all later ones; plus random histories run four times with byte-exact accounting of live blocks. '
                'Distinct: different (entry, converter, channels, failing allocation) or operation sequence.',
    },
    'C10': {
        'src': ['c10.c'], 'level': LEVEL, 'quick': {'R': 1, 'A': 1}, 'thorough': {'R': 1, 'A': 1}, 'evaluations': 'values_converted', 'exhaustive': True,
        'rule': 'Every float bit pattern (NaN excepted) through both float-to-integer functions, every int and every short through the integer-to-float functions, against '
                'integer-arithmetic references; plus random arrays (length, alignment, ties, infinities) with guards, and arrays of up to INT_MAX elements. Distinct: chunk of 2^24 values, or (function, length, alignment).',
    },
    'C11': {
        'src': ['c11.c'], 'level': LEVEL, 'quick': {'R': 1, 'A': 0.1, 'Q': 0.05}, 'thorough': {'R': 1, 'A': 0.1, 'Q': 0.1, 'B': 0.03},
        'rule': 'A case is a history of calls with changing ratios (ramps, steps, drops, set_ratio, resets, callback reads after set_ratio) whose output frames are compared '
                'with the reference interpolation at the documented accumulated position. Distinct: different (converter, channels, ratio class, style, number of calls); '
                'non-trivial if at least one frame was checked.',
    },
    'C12': {
        'src': ['c12.c'], 'level': LEVEL, 'quick': {'R': 1, 'A': 0.1, 'Q': 0.05}, 'thorough': {'R': 1, 'A': 0.1, 'Q': 0.1, 'B': 0.03},
        'rule': 'A case is a constant ratio stream whose frames are compared with the reference interpolation at k/ratio, a tone compared with its exact values, or the response to one impulse compared with the filter design. Distinct: '
                'different (converter, channels, ratio class, signal, API) or (converter, ratio class, band, frequency bin).',
    },
    'C13': {
        'src': ['c13.c', 'script.c'], 'level': LEVEL, 'quick': {'T': 1, 'R': 1}, 'thorough': {'T': 1, 'R': 1}, 'chunks': 100, 'workers': 3,
        'rule': 'A case runs 2-8 threads on as many converters (create, scripts, clone, reset, delete, the stateless functions, failing creations; in 40% of the cases the '
                'handles wander between threads), then compares every result bit by bit with a single-threaded run; variant T runs under ThreadSanitizer. Each process starts '
                'cold. Distinct: different (converters, channels, modes, operation sequences).',
    },
    'C14': {
        'src': ['c14.c'], 'level': LEVEL, 'quick': {'R': 1, 'A': 0.5, 'Q': 0.05}, 'thorough': {'R': 1, 'A': 0.5, 'Q': 0.1, 'B': 0.03},
        'rule': 'A case is one stream through src_callback_read with a monitoring callback (pointer, order, need, buffers taken away at the first allowed moment), with invalid '
                'reads inserted, resets, chains of two callback converters, clones over pending data, or ZOH token streams at wandering ratios. Distinct: different (converter, '
                'channels, ratio class, kind, callback block style, read style, buffer style, invalid reads).',
    },
    'C15': {
        'src': ['c15.c', 'script.c'], 'level': LEVEL, 'quick': {'R': 1, 'M': 0.7, 'Q': 0.05}, 'thorough': {'R': 1, 'M': 0.7, 'Q': 0.1, 'B': 0.03},
        'rule': 'A case is a random history run twice, the second time with recycled and perturbed heap, filled stack, junk around and after the presented data, moved '
                'handles and foreign converters in between; the logs are compared bit by bit; variant M runs under MemorySanitizer. Distinct: different (converter, channels, '
                'mode, operation sequence); non-trivial if frames were compared.',
    },
    'C16': {
        'src': ['c16.c'], 'level': LEVEL, 'quick': {'R': 1, 'P': 0.8, 'A': 0.1, 'Q': 0.05}, 'thorough': {'R': 1, 'P': 1, 'A': 0.1, 'Q': 0.1, 'B': 0.03},
        'rule': 'A case is a history of src_process calls (constant and wandering ratios), callback reads or lopsided calls; every call is checked for progress, for the frames '
                'it holds back against the filter length and, in variant P, for the number of library branches it executes against a bound; draining is counted. Distinct: '
                'different (converter, channels, ratio class, kind, ratio style, input and output block style).',
    },
    'C17': {
        'src': ['c17.c'], 'level': LEVEL, 'quick': {'R': 1, 'A': 0.5, 'Q': 0.1}, 'thorough': {'R': 1, 'A': 0.5, 'Q': 0.3}, 'chunks': 120, 'cpu': {'quick': 100, 'thorough': 1200},
        'rule': 'A case is one call with more than 2^31 samples consumed, one with more than 2^31 produced, a few calls with that many presented, a stream with millions of channels (so that single steps pass 2^31 samples), a stream in 10^6 calls of 1..4 frames, or one of 10^7..4*10^9 '
                'frames in many calls; frames carry their position (ramps, tones). Distinct: different (kind, converter, channels, ratio class, API or block size).',
    },
    'C18': {
        'src': ['c18.c'], 'level': LEVEL, 'quick': {'R': 1, 'A': 0.1, 'Q': 0.05}, 'thorough': {'R': 1, 'A': 0.1, 'Q': 0.1, 'B': 0.03},
        'rule': 'A case is one call history (constant or varying ratio, process or callback) run on two or three related inputs (sums, multiples, disturbed frames with NaN, '
                'infinity or huge values) or on bounded or silent input; frame counts must be equal and the samples related as stated. Distinct: different (relation, converter, '
                'channels, ratio class, style, number of calls).',
    },
    'C19': {
        'src': ['c19.c', 'script.c'], 'level': LEVEL, 'quick': {'R': 1}, 'thorough': {'R': 1}, 'builds': BUILDS, 'users': ['gcc -std=gnu90', 'clang -std=c11', 'g++ -std=c++98', 'clang++ -std=c++20'], 'cflags': ['-include', 'api.h'],
        'coverage': {'builds': [b['name'] for b in BUILDS]},
        'rule': 'A case runs one history, stream, array of values or catalogue of creations and queries in the plain build of the library and in one of the other builds, all in one '
                'process, and compares everything returned (bit by bit, or within rounding for builds with other floating point arithmetic). Distinct: different (build, converter, '
                'channels, mode, operation sequence), (build, converter, channels, ratio class, block styles) or (build, array length).',
    },
    'C20': {
        'src': ['c20.c', 'script.c'], 'level': LEVEL, 'quick': {'R': 1, 'Q': 0.05}, 'thorough': {'R': 1, 'Q': 0.1},
        'ldflags': {'*': ['-Wl,' + ','.join('--wrap=' + f for f in ['malloc', 'calloc', 'realloc', 'free', 'aligned_alloc', 'posix_memalign', 'strdup'] + PUBLIC + EFFECTS)]},
        'rule': 'A case runs a random history, stream, array conversion or set of invalid calls; while any public function runs, system calls trap, allocations and libc functions with '
                'effects are caught, the stack is painted and the floating point state is watched. Distinct: different (converter, channels, mode, operation sequence), (converter, '
                'channels, ratio class, block styles, signal) or array length.',
    },
}

ASS = ['gcc 13 on x86-64 is the compiler under test: -O1, AddressSanitizer, automatic variables filled with a pattern',
       'the harness uses only the public API and legal calls; callbacks supplied by the harness are well behaved']
PROPS = {}
def prop(id, **k):
    k.setdefault('variants', {'std': {}})
    k.setdefault('subject', [])
    k['assumptions'] = ASS + k.get('assumptions', [])
    PROPS[id] = k

CB = ['gel/collections/circular_buffer.c']
prop('C01', harness=['c01_cbuf.c'], subject=CB,
     variants={'u8': {}, 'u32': {'flags': ['-DGEL_CBUF_TYPE=uint32_t']}, 'u16': {'flags': ['-DGEL_CBUF_TYPE=uint16_t']}, 'u64': {'flags': ['-DGEL_CBUF_TYPE=uint64_t']},
               'u128': {'flags': ['-DGEL_CBUF_TYPE=__uint128_t']}})

TSUBJ = ['-g', '-fPIC', '-w', '-fsanitize=thread', '-fno-builtin', '-D_GNU_SOURCE']
TH = ['-O1', '-g', '-fPIC', '-w', '-D_GNU_SOURCE', '-fno-stack-protector']
prop('C02', harness=['c02_spsc.c'], subject=CB, link_san=[], harn=TH,
     variants={'O1': {'subj': ['-O1'] + TSUBJ}, 'O0': {'subj': ['-O0'] + TSUBJ}, 'O2': {'subj': ['-O2'] + TSUBJ}},
     post=[['objcopy', '--redefine-sym', 'memcpy=vf_memcpy', '--redefine-sym', 'memmove=vf_memmove', '--redefine-sym', 'memset=vf_memset', '@D@/s_circular_buffer.o']],
     post_extra=[['objcopy', '--redefine-sym', 'memcpy=vf_memcpy', '--redefine-sym', 'memmove=vf_memmove', '--redefine-sym', 'memset=vf_memset', '@O@']],
     assumptions=['sequentially consistent memory, aligned word accesses are atomic: neither weak memory ordering nor compiler reordering beyond that of the three builds explored (-O0, -O1, -O2) is modelled'])
prop('C03', harness=['c03_queue.c'], subject=['harness/c03_subject.c'])
prop('C04', harness=['c04_stack.c'], subject=['harness/c04_subject.c'])
prop('C05', harness=['c05_list.c'], subject=['harness/c05_subject.c'],
     variants={'first': {'flags': ['-DLAYOUT=0']}, 'odd': {'flags': ['-DLAYOUT=1']}, 'second': {'flags': ['-DLAYOUT=2']}, 'far': {'flags': ['-DLAYOUT=3']}, 'many': {'flags': ['-DLAYOUT=0', '-DMANY']}})
EL = ['gel/circular_event_log/circular_event_log.c']
prop('C06', harness=['c06_log.c'], subject=EL)
prop('C07', harness=['c06_log.c'], subject=EL, hflags=['-DFAULTS'])
WL = ['gel/wearleveling/wearleveling.c']
for i in (8, 9, 10):
    prop('C%02d' % i, harness=['c08_wear.c'], subject=WL, hflags=['-DMODE=%d' % i], variants={'std': {}, 'ndebug': {'flags': ['-DNDEBUG']}})
PA = ['gel/parameter/parameter.c']
PV = {'size8': {}, 'size4': {'flags': ['-DGEL_PARAMETER_MAX_SIZE=4']}, 'size2': {'flags': ['-DGEL_PARAMETER_MAX_SIZE=2']}, 'size1': {'flags': ['-DGEL_PARAMETER_MAX_SIZE=1']}}
PK = {'packed': {'flags': ['-DGEL_PARAMETER_HANDLE_ATTRIBUTES=__attribute__((packed))']}}
prop('C11', harness=['c11_param.c'], subject=PA, variants=PV)
prop('C12', harness=['c12_param.c'], subject=PA, variants=dict(PV, many={'hflags': ['-DMANY']}, **PK))
prop('C13', harness=['c13_param.c'], subject=PA, variants={'std': {}, 'ndebug': {'flags': ['-DNDEBUG']}, 'many': {'hflags': ['-DMANY']}, 'longdata': {'flags': ['-DGEL_PARAMETER_USER_DATA=long']}})
prop('C14', harness=['c14_param.c'], subject=PA, variants=dict(PV, **PK))
TT = {'u8': 'uint8_t', 'u16': 'uint16_t', 'u32': 'uint32_t', 'ulonglong': 'unsigned long long'}
TV = {k: {'flags': ['-DGEL_CUSTOM_TIMESTAMP_TYPE=' + t]} for k, t in TT.items()}
prop('C22', harness=['c22_time.c'], subject=['harness/c22_subject.c'],
     variants=dict(TV, ulong={}, nocheck={'flags': ['-DGEL_IGNORE_TIME_TYPECHECK', '-DGEL_CUSTOM_TIMESTAMP_TYPE=uint16_t']}))
MALLOC = ['-Dmalloc=mc_malloc', '-Dcalloc=mc_calloc', '-Drealloc=mc_realloc', '-Dfree=mc_free']
prop('C15', harness=['c15_watch.c'], subject=['gel/data_structures/watcher.c'],
     variants={'static': {}, 'many': {'hflags': ['-DMANY']}, 'malloc': {'flags': ['-DGEL_MALLOC_AVAILABLE=1'], 'sflags': MALLOC},
               'long': {'flags': ['-DGEL_STATIC_BLOCK_SIZE=70001']}, 'longmalloc': {'flags': ['-DGEL_STATIC_BLOCK_SIZE=66000', '-DGEL_MALLOC_AVAILABLE=1'], 'sflags': MALLOC},
               'ndebug': {'flags': ['-DNDEBUG']}, 'smallram': {'flags': ['-DGEL_WATCHER_REDUCE_RAM_FOOTPRINT']},
               'smallmalloc': {'flags': ['-DGEL_WATCHER_REDUCE_RAM_FOOTPRINT', '-DGEL_MALLOC_AVAILABLE=1'], 'sflags': MALLOC},
               'clock16': {'flags': ['-DGEL_CUSTOM_TIMESTAMP_TYPE=uint16_t', '-DCLOCK=uint16_t']},
               'clock8': {'flags': ['-DGEL_CUSTOM_TIMESTAMP_TYPE=uint8_t', '-DCLOCK=uint8_t']}})
prop('C16', harness=['c16_debounce.c'], subject=['gel/debounce/debounce.c'])
prop('C17', harness=['c17_pulse.c'], subject=['gel/debounce/pulsecounter.c'])
KV = {k: {'flags': ['-DGEL_CUSTOM_TIMESTAMP_TYPE=' + t, '-DCLOCK=' + t]} for k, t in TT.items()}
for i in (18, 19):
    prop('C%02d' % i, harness=['c18_keypad.c'], subject=['gel/keypad/keypad.c'], hflags=['-DMODE=%d' % i],
         variants=dict({k: v for k, v in KV.items() if i == 18 or k == 'u8'}, ulong={}))
prop('C20', harness=['c20_stopwatch.c'], subject=['gel/timer/stopwatch.c'], variants=dict(KV, ulong={}))
prop('C21', harness=['c21_timer.c'], subject=['gel/timer/timer.c', 'gel/timer/stopwatch.c', 'harness/c21_subject.c'], must_compile=True, variants=dict(KV, ulong={}))
def PID(c, o, h, d):
    return {'flags': ['-DVF_PID_CTRL_T=' + c, '-DVF_PID_OUT_T=' + o, '-DGEL_PID_INTEGRAL_HISTORY_SIZE=%d' % h, '-DGEL_PID_DERIVATIVE_DELTA=%d' % d]}
prop('C23', harness=['c23_pid.c'], subject=['gel/pid/pid.c'],
     variants={'int': PID('int', 'int', 3, 2), 'short': PID('short', 'int', 1, 1), 'float': PID('float', 'float', 2, 3),
               'double': PID('double', 'double', 4, 1), 'mixed': PID('short', 'float', 2, 2), 'longhist': PID('int', 'int', 5, 4), 'many': dict(PID('int', 'int', 300, 300), hflags=['-DMANY'])})
SV = {'seven': {}, 'one': {'flags': ['-DGEL_SCHEDULER_MAX_ENTRIES=1']}, 'sixteen': {'flags': ['-DGEL_SCHEDULER_MAX_ENTRIES=16']},
      'dynamic': {'flags': ['-DGEL_SCHEDULER_DYNAMIC_ENTRIES'], 'sflags': MALLOC}}
SL = {'large': {'flags': ['-DGEL_SCHEDULER_MAX_ENTRIES=300']}}
prop('C24', harness=['c24_sched.c'], subject=['gel/scheduler/scheduler.c'], must_compile=True, variants=dict(SV, **SL, ndebug={'flags': ['-DNDEBUG', '-DGEL_SCHEDULER_DYNAMIC_ENTRIES'], 'sflags': MALLOC}))
prop('C25', harness=['c25_sched.c'], subject=['gel/scheduler/scheduler.c'], must_compile=True, variants=dict(SV, **SL, ndebug={'flags': ['-DNDEBUG']}))
prop('C26', harness=['c26_serial.c'], subject=['harness/c26_subject.c'], must_compile=True, variants={'std': {}, 'O2': {'hflags': ['-DEVERY32', '-O2'], 'subj': ['-O2', '-g', '-fPIC', '-w', '-fsanitize=address', '-ftrivial-auto-var-init=pattern']}})
prop('C27', harness=['c27_crc.c'], subject=['gel/crc/crc16-ccitt.c', 'gel/crc/crc32.c'])
PM = ['-DGEL_PAGEMANAGER_CONFIGURATION_HEADER="gel_conf.h"']
PW = ['-DVF_PMAN_T=long', '-DPMAN_VIEW_NULL=0x800000001', '-DPMAN_DATA_NULL=0x900000000']
PL = ['-DPMAN_NAVIGATION_DEPTH=300']
prop('C28', harness=['c28_pman.c'], subject=['gel/pagemanager/page_manager.c'], must_compile=True,
     variants={'std': {'flags': PM}, 'simple': {'flags': ['-DGEL_SIMPLE_CONFIG_INCLUSION']}, 'many': {'flags': PM + PL}, 'one': {'flags': PM + ['-DPMAN_NAVIGATION_DEPTH=1']}, 'two': {'flags': PM + ['-DPMAN_NAVIGATION_DEPTH=2']}, 'eight': {'flags': PM + ['-DPMAN_NAVIGATION_DEPTH=8']}, 'ndebug': {'flags': PM + ['-DNDEBUG']}, 'update': {'flags': PM + ['-DGEL_PAGEMANAGER_UPDATE_CALLBACK']},
               'wide': {'flags': PM + PW}, 'update-wide': {'flags': PM + PW + ['-DGEL_PAGEMANAGER_UPDATE_CALLBACK']},
               'update-ndebug': {'flags': PM + ['-DGEL_PAGEMANAGER_UPDATE_CALLBACK', '-DNDEBUG']}})
prop('C29', harness=['c29_sm.c'], subject=['harness/c29_subject.c'], must_compile=True)
prop('C30', harness=['c30_maybe.c'], subject=['harness/c30_subject.c'], must_compile=True)
prop('C31', harness=['c31_update.c'], subject=['gel/data_structures/struct_update.c', 'harness/c31_subject.c'], must_compile=True, sflags=MALLOC)

# The registry of checks: property id -> harness sources, build flavour, level, bounds.
A = 'asan'
CHECKS = {}


def seq(cid, src, **kw):
    d = dict(src=src if isinstance(src, list) else [src], flavour=A, level='model_checking',
             rule='every sequence of choices of each scenario within its depth bound is executed on the real code, from scratch, and compared after every step with an independent reference model; states are distinct model states (hash), traces_validated_against_impl counts the executions')
    d.update(kw)
    CHECKS[cid] = d


seq('S01', 's01_string_value.cpp')
seq('S02', 's02_string_search.cpp')
seq('S03', 's03_string_transform.cpp')
seq('S04', 's04_string_format.cpp')
seq('S05', 's05_stringbuilder.cpp')
seq('S06', 's06_stringbuffer.cpp')
seq('N01', 'n01_integer_text.cpp')
seq('N02', 'n02_bits.cpp')
seq('N03', 'n03_boxed.cpp')
seq('N04', 'n04_real_bits.cpp')
seq('N05', 'n05_math.cpp')
seq('N06', 'n06_character.cpp')
seq('C01', 'c01_arraylist.cpp')
seq('C02', 'c02_linkedlist.cpp')
seq('C03', 'c03_vector.cpp')
seq('C04', 'c04_hashmap.cpp')
seq('C05', 'c05_set.cpp')
seq('C06', 'c06_priorityqueue.cpp')
seq('C07', 'c07_bitset.cpp')
seq('C08', 'c08_arrays.cpp')
seq('C10', 'c10_array.cpp')
seq('C09', ['c09_concurrenthashmap.cpp', 'c09_large.cpp'])
seq('E01', 'e01_base64.cpp')
seq('E02', 'e02_urlencoding.cpp')
seq('E03', 'e03_messagedigest.cpp')
seq('E04', 'e04_uuid.cpp', link=['-Wl,' + ','.join('--wrap=' + x for x in ('gettimeofday', 'time', 'open', 'read', 'close', 'rand', 'fflush', 'ftruncate', 'flock'))])
seq('E05', 'e05_mediatype.cpp')
seq('U01', 'u01_random.cpp')
seq('U02', 'u02_date.cpp')
seq('U03', 'u03_simpledateformat.cpp')
seq('U04', 'u04_exceptions.cpp')
seq('U05', 'u05_application.cpp')


# Calls of the C library whose accesses to memory the scheduler sees (src/mcsched_lib.cpp).
LIBC = ['-Wl,' + ','.join('--wrap=' + x for x in '''getenv setenv unsetenv putenv localtime gmtime localtime_r gmtime_r ctime ctime_r asctime asctime_r mktime timegm tzset strftime
    strtok strncpy strncat vsnprintf vsprintf snprintf sprintf sscanf __isoc23_sscanf strncmp strcasecmp strchr strrchr strstr memchr
    strtol strtoul strtoll strtoull __isoc23_strtol __isoc23_strtoul __isoc23_strtoll __isoc23_strtoull strtod strtof'''.split())]


def conc(cid, src, link=[], **kw):
    d = dict(src=[src, 'mcsched.cpp', 'mcsched_lib.cpp'], link=LIBC + link, flavour='sched', level='model_checking',
             rule='every schedule of each scenario with at most the stated number of preemptions (timeouts and spurious wakeups included) is executed on the real code with real threads under a controlled scheduler; data races are detected with vector clocks in each of them; results of concurrent calls are compared with every sequential order of a reference model; traces_validated_against_impl counts the executions')
    d.update(kw)
    CHECKS[cid] = d


conc('S07', 's07_stringbuffer_threads.cpp')
conc('T01', 't01_semaphore.cpp')
conc('T02', 't02_thread.cpp')
conc('T03', 't03_concurrenthashmap.cpp')
conc('T04', 't04_concurrentlinkedqueue.cpp')
conc('T05', 't05_random.cpp')
conc('T06', 't06_uuid.cpp', link=['-Wl,' + ','.join('--wrap=' + x for x in ('open', 'flock', 'fdopen', 'fflush'))])
conc('T07', 't07_separate_objects.cpp')
conc('T08', 't08_shared_reading.cpp')

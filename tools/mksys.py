#!/usr/bin/env python3
"""Writes specs/syscall.spec: the contracts of the system-call layer (L13)."""
import os
out = ['# generated by tools/mksys.py', '']
K = 'k_n k_nr k_1 k_2 k_3 k_4 k_res errno'
names = ['one', 'two', 'three', 'four']
for n in range(5):
    suf = str(n) if n else ''
    ps = ['sys_call'] + names[:n]
    out += ['extern __sys_call%s' % suf, '  params ' + ' '.join(ps), '  uses sys.Sys', '  ret long',
            '  note the inline assembly issues system call sys_call with these arguments and returns what the kernel returned; the kernel\'s errors are -1..-4095',
            '  writes ' + K.replace(' errno', ''), '  ensures k_n = old k_n + 1 /\\ k_nr = sys_call /\\ result = k_res /\\ -4095 <= k_res <= 9223372036854775807']
    out += ['  ensures k_%d = %s' % (i + 1, names[i]) for i in range(n)]
    out += ['']
    out += ['fn _sys_call%s' % suf, '  file lib/linux/x86_64-mes-gcc/syscall.c', '  params ' + ' '.join(ps), '  uses sys.Sys', '  writes ' + K,
            '  ensures[one-call] k_n = old k_n + 1', '  ensures[number] k_nr = sys_call', '  ensures[kernel] -4095 <= k_res']
    out += ['  ensures[argument-%d] k_%d = %s' % (i + 1, i + 1, names[i]) for i in range(n)]
    out += ['  ensures[result] result = sysret k_res', '  ensures[errno] errno = (if k_res < 0 then 0 - k_res else 0)', '']
# name file nr args ; arg types as given, value passed
W = '''
access linux/access.c 21 file_name how
chdir linux/chdir.c 80 file_name
chmod linux/chmod.c 90 file_name mask
clock_gettime linux/clock_gettime.c 228 clk_id tp
dup linux/dup.c 32 old
dup2 linux/dup2.c 33 old new
execve linux/execve.c 59 file_name argv env
fork linux/fork.c 57
fstat linux/fstat.c 5 filedes statbuf
fsync linux/fsync.c 74 filedes
getdents linux/getdents.c 78 filedes buffer nbytes
getegid linux/getegid.c 108
geteuid linux/geteuid.c 107
getgid linux/getgid.c 104
getpid linux/getpid.c 39
getppid linux/getppid.c 110
getrusage linux/getrusage.c 98 processes rusage
gettimeofday linux/gettimeofday.c 96 tv tz
getuid linux/getuid.c 102
ioctl3 linux/ioctl3.c 16 filedes command data
kill linux/kill.c 62 pid signum
link linux/link.c 86 old_name new_name
_lseek linux/lseek.c 8 filedes offset whence
lstat linux/lstat.c 6 file_name statbuf
mkdir linux/mkdir.c 83 file_name mode
mknod linux/mknod.c 133 file_name mode dev
nanosleep linux/nanosleep.c 35 requested_time remaining
pipe linux/pipe.c 22 filedes
readlink linux/readlink.c 89 file_name buffer size
_read linux/_read.c 0 filedes buffer size
rename linux/rename.c 82 old_name new_name
rmdir linux/rmdir.c 84 file_name
setgid linux/setgid.c 106 newgid
setitimer linux/settimer.c 38 which new old
setuid linux/setuid.c 105 newuid
sigprocmask linux/sigprogmask.c 14 how set oldset
stat linux/stat.c 4 file_name statbuf
symlink linux/symlink.c 88 old_name new_name
unlink linux/unlink.c 87 file_name
waitpid linux/waitpid.c 61 pid status_ptr options
'''
unsigned_ret = {'getegid', 'geteuid', 'getgid', 'getuid'}
long_ret = {'_lseek', '_read', 'readlink'}
skip = {'_read'}    # in buffered.spec, with its memory effect
fns = []
PTR = set('file_name tp argv env statbuf buffer rusage tv tz old_name new_name requested_time remaining status_ptr set oldset'.split())
isptr = lambda n, a: a in PTR or (n, a) in {('pipe', 'filedes'), ('setitimer', 'new'), ('setitimer', 'old')}
KW = {'new', 'old', 'set', 'mode'}
for l in W.strip().split('\n'):
    n, f, nr, *args = l.split()
    if n in skip: continue
    fns.append(n)
    ps = ['a_%s' % a for a in args]
    out += ['fn ' + n, '  file lib/' + f, '  params ' + ' '.join(ps) if ps else '  params', '  uses sys.Sys', '  writes ' + K,
            '  ensures[one-call] k_n = old k_n + 1', '  ensures[number] k_nr = ' + nr]
    out += ['  ensures[argument-%d] k_%d = %s' % (i + 1, i + 1, 'cast_s32 a_clk_id' if a == 'clk_id' else 'a_' + a if isptr(n, a) else 'cast_s64 a_' + a) for i, a in enumerate(args)]
    if n == 'waitpid': out += ['  ensures[argument-4] k_4 = 0']
    if n in long_ret: out += ['  ensures[result] result = sysret k_res']
    elif n in unsigned_ret: out += ['  ensures[result] 0 <= k_res <= 4294967295 -> result = k_res', '  ensures[error] k_res < 0 -> result = 4294967295']
    else: out += ['  ensures[result] k_res <= 2147483647 -> result = sysret k_res']
    out += ['  ensures[errno] errno = (if k_res < 0 then 0 - k_res else 0)', '']
out += ['fn _getcwd', '  file lib/linux/_getcwd.c', '  params buffer size', '  uses sys.Sys', '  writes ' + K,
        '  ensures[one-call] k_n = old k_n + 1 /\\ k_nr = 79 /\\ k_1 = buffer /\\ k_2 = cast_s64 size',
        '  ensures[result] k_res <= 2147483647 -> result = (if k_res < 0 then 0 else buffer)',
        '  ensures[errno] errno = (if k_res < 0 then 0 - k_res else 0)', '']
here = os.path.dirname(os.path.abspath(__file__))
open(os.path.join(here, '..', 'specs', 'syscall.spec'), 'w').write('\n'.join(out) + '\n')
print(' '.join(['_sys_call%s' % (i or '') for i in range(5)] + fns + ['_getcwd']))

# generated by tools/mksys.py

extern __sys_call
  params sys_call
  uses sys.Sys
  ret long
  note the inline assembly issues system call sys_call with these arguments and returns what the kernel returned; the kernel's errors are -1..-4095
  writes k_n k_nr k_1 k_2 k_3 k_4 k_res
  ensures k_n = old k_n + 1 /\ k_nr = sys_call /\ result = k_res /\ -4095 <= k_res <= 9223372036854775807

fn _sys_call
  file lib/linux/x86_64-mes-gcc/syscall.c
  params sys_call
  uses sys.Sys
  writes k_n k_nr k_1 k_2 k_3 k_4 k_res errno
  ensures[one-call] k_n = old k_n + 1
  ensures[number] k_nr = sys_call
  ensures[kernel] -4095 <= k_res
  ensures[result] result = sysret k_res
  ensures[errno] errno = (if k_res < 0 then 0 - k_res else 0)

extern __sys_call1
  params sys_call one
  uses sys.Sys
  ret long
  note the inline assembly issues system call sys_call with these arguments and returns what the kernel returned; the kernel's errors are -1..-4095
  writes k_n k_nr k_1 k_2 k_3 k_4 k_res
  ensures k_n = old k_n + 1 /\ k_nr = sys_call /\ result = k_res /\ -4095 <= k_res <= 9223372036854775807
  ensures k_1 = one

fn _sys_call1
  file lib/linux/x86_64-mes-gcc/syscall.c
  params sys_call one
  uses sys.Sys
  writes k_n k_nr k_1 k_2 k_3 k_4 k_res errno
  ensures[one-call] k_n = old k_n + 1
  ensures[number] k_nr = sys_call
  ensures[kernel] -4095 <= k_res
  ensures[argument-1] k_1 = one
  ensures[result] result = sysret k_res
  ensures[errno] errno = (if k_res < 0 then 0 - k_res else 0)

extern __sys_call2
  params sys_call one two
  uses sys.Sys
  ret long
  note the inline assembly issues system call sys_call with these arguments and returns what the kernel returned; the kernel's errors are -1..-4095
  writes k_n k_nr k_1 k_2 k_3 k_4 k_res
  ensures k_n = old k_n + 1 /\ k_nr = sys_call /\ result = k_res /\ -4095 <= k_res <= 9223372036854775807
  ensures k_1 = one
  ensures k_2 = two

fn _sys_call2
  file lib/linux/x86_64-mes-gcc/syscall.c
  params sys_call one two
  uses sys.Sys
  writes k_n k_nr k_1 k_2 k_3 k_4 k_res errno
  ensures[one-call] k_n = old k_n + 1
  ensures[number] k_nr = sys_call
  ensures[kernel] -4095 <= k_res
  ensures[argument-1] k_1 = one
  ensures[argument-2] k_2 = two
  ensures[result] result = sysret k_res
  ensures[errno] errno = (if k_res < 0 then 0 - k_res else 0)

extern __sys_call3
  params sys_call one two three
  uses sys.Sys
  ret long
  note the inline assembly issues system call sys_call with these arguments and returns what the kernel returned; the kernel's errors are -1..-4095
  writes k_n k_nr k_1 k_2 k_3 k_4 k_res
  ensures k_n = old k_n + 1 /\ k_nr = sys_call /\ result = k_res /\ -4095 <= k_res <= 9223372036854775807
  ensures k_1 = one
  ensures k_2 = two
  ensures k_3 = three

fn _sys_call3
  file lib/linux/x86_64-mes-gcc/syscall.c
  params sys_call one two three
  uses sys.Sys
  writes k_n k_nr k_1 k_2 k_3 k_4 k_res errno
  ensures[one-call] k_n = old k_n + 1
  ensures[number] k_nr = sys_call
  ensures[kernel] -4095 <= k_res
  ensures[argument-1] k_1 = one
  ensures[argument-2] k_2 = two
  ensures[argument-3] k_3 = three
  ensures[result] result = sysret k_res
  ensures[errno] errno = (if k_res < 0 then 0 - k_res else 0)

extern __sys_call4
  params sys_call one two three four
  uses sys.Sys
  ret long
  note the inline assembly issues system call sys_call with these arguments and returns what the kernel returned; the kernel's errors are -1..-4095
  writes k_n k_nr k_1 k_2 k_3 k_4 k_res
  ensures k_n = old k_n + 1 /\ k_nr = sys_call /\ result = k_res /\ -4095 <= k_res <= 9223372036854775807
  ensures k_1 = one
  ensures k_2 = two
  ensures k_3 = three
  ensures k_4 = four

fn _sys_call4
  file lib/linux/x86_64-mes-gcc/syscall.c
  params sys_call one two three four
  uses sys.Sys
  writes k_n k_nr k_1 k_2 k_3 k_4 k_res errno
  ensures[one-call] k_n = old k_n + 1
  ensures[number] k_nr = sys_call
  ensures[kernel] -4095 <= k_res
  ensures[argument-1] k_1 = one
  ensures[argument-2] k_2 = two
  ensures[argument-3] k_3 = three
  ensures[argument-4] k_4 = four
  ensures[result] result = sysret k_res
  ensures[errno] errno = (if k_res < 0 then 0 - k_res else 0)

fn access
  file lib/linux/access.c
  params a_file_name a_how
  uses sys.Sys
  writes k_n k_nr k_1 k_2 k_3 k_4 k_res errno
  ensures[one-call] k_n = old k_n + 1
  ensures[number] k_nr = 21
  ensures[argument-1] k_1 = a_file_name
  ensures[argument-2] k_2 = cast_s64 a_how
  ensures[result] k_res <= 2147483647 -> result = sysret k_res
  ensures[errno] errno = (if k_res < 0 then 0 - k_res else 0)

fn chdir
  file lib/linux/chdir.c
  params a_file_name
  uses sys.Sys
  writes k_n k_nr k_1 k_2 k_3 k_4 k_res errno
  ensures[one-call] k_n = old k_n + 1
  ensures[number] k_nr = 80
  ensures[argument-1] k_1 = a_file_name
  ensures[result] k_res <= 2147483647 -> result = sysret k_res
  ensures[errno] errno = (if k_res < 0 then 0 - k_res else 0)

fn chmod
  file lib/linux/chmod.c
  params a_file_name a_mask
  uses sys.Sys
  writes k_n k_nr k_1 k_2 k_3 k_4 k_res errno
  ensures[one-call] k_n = old k_n + 1
  ensures[number] k_nr = 90
  ensures[argument-1] k_1 = a_file_name
  ensures[argument-2] k_2 = cast_s64 a_mask
  ensures[result] k_res <= 2147483647 -> result = sysret k_res
  ensures[errno] errno = (if k_res < 0 then 0 - k_res else 0)

fn clock_gettime
  file lib/linux/clock_gettime.c
  params a_clk_id a_tp
  uses sys.Sys
  writes k_n k_nr k_1 k_2 k_3 k_4 k_res errno
  ensures[one-call] k_n = old k_n + 1
  ensures[number] k_nr = 228
  ensures[argument-1] k_1 = cast_s32 a_clk_id
  ensures[argument-2] k_2 = a_tp
  ensures[result] k_res <= 2147483647 -> result = sysret k_res
  ensures[errno] errno = (if k_res < 0 then 0 - k_res else 0)

fn dup
  file lib/linux/dup.c
  params a_old
  uses sys.Sys
  writes k_n k_nr k_1 k_2 k_3 k_4 k_res errno
  ensures[one-call] k_n = old k_n + 1
  ensures[number] k_nr = 32
  ensures[argument-1] k_1 = cast_s64 a_old
  ensures[result] k_res <= 2147483647 -> result = sysret k_res
  ensures[errno] errno = (if k_res < 0 then 0 - k_res else 0)

fn dup2
  file lib/linux/dup2.c
  params a_old a_new
  uses sys.Sys
  writes k_n k_nr k_1 k_2 k_3 k_4 k_res errno
  ensures[one-call] k_n = old k_n + 1
  ensures[number] k_nr = 33
  ensures[argument-1] k_1 = cast_s64 a_old
  ensures[argument-2] k_2 = cast_s64 a_new
  ensures[result] k_res <= 2147483647 -> result = sysret k_res
  ensures[errno] errno = (if k_res < 0 then 0 - k_res else 0)

fn execve
  file lib/linux/execve.c
  params a_file_name a_argv a_env
  uses sys.Sys
  writes k_n k_nr k_1 k_2 k_3 k_4 k_res errno
  ensures[one-call] k_n = old k_n + 1
  ensures[number] k_nr = 59
  ensures[argument-1] k_1 = a_file_name
  ensures[argument-2] k_2 = a_argv
  ensures[argument-3] k_3 = a_env
  ensures[result] k_res <= 2147483647 -> result = sysret k_res
  ensures[errno] errno = (if k_res < 0 then 0 - k_res else 0)

fn fork
  file lib/linux/fork.c
  params
  uses sys.Sys
  writes k_n k_nr k_1 k_2 k_3 k_4 k_res errno
  ensures[one-call] k_n = old k_n + 1
  ensures[number] k_nr = 57
  ensures[result] k_res <= 2147483647 -> result = sysret k_res
  ensures[errno] errno = (if k_res < 0 then 0 - k_res else 0)

fn fstat
  file lib/linux/fstat.c
  params a_filedes a_statbuf
  uses sys.Sys
  writes k_n k_nr k_1 k_2 k_3 k_4 k_res errno
  ensures[one-call] k_n = old k_n + 1
  ensures[number] k_nr = 5
  ensures[argument-1] k_1 = cast_s64 a_filedes
  ensures[argument-2] k_2 = a_statbuf
  ensures[result] k_res <= 2147483647 -> result = sysret k_res
  ensures[errno] errno = (if k_res < 0 then 0 - k_res else 0)

fn fsync
  file lib/linux/fsync.c
  params a_filedes
  uses sys.Sys
  writes k_n k_nr k_1 k_2 k_3 k_4 k_res errno
  ensures[one-call] k_n = old k_n + 1
  ensures[number] k_nr = 74
  ensures[argument-1] k_1 = cast_s64 a_filedes
  ensures[result] k_res <= 2147483647 -> result = sysret k_res
  ensures[errno] errno = (if k_res < 0 then 0 - k_res else 0)

fn getdents
  file lib/linux/getdents.c
  params a_filedes a_buffer a_nbytes
  uses sys.Sys
  writes k_n k_nr k_1 k_2 k_3 k_4 k_res errno
  ensures[one-call] k_n = old k_n + 1
  ensures[number] k_nr = 78
  ensures[argument-1] k_1 = cast_s64 a_filedes
  ensures[argument-2] k_2 = a_buffer
  ensures[argument-3] k_3 = cast_s64 a_nbytes
  ensures[result] k_res <= 2147483647 -> result = sysret k_res
  ensures[errno] errno = (if k_res < 0 then 0 - k_res else 0)

fn getegid
  file lib/linux/getegid.c
  params
  uses sys.Sys
  writes k_n k_nr k_1 k_2 k_3 k_4 k_res errno
  ensures[one-call] k_n = old k_n + 1
  ensures[number] k_nr = 108
  ensures[result] 0 <= k_res <= 4294967295 -> result = k_res
  ensures[error] k_res < 0 -> result = 4294967295
  ensures[errno] errno = (if k_res < 0 then 0 - k_res else 0)

fn geteuid
  file lib/linux/geteuid.c
  params
  uses sys.Sys
  writes k_n k_nr k_1 k_2 k_3 k_4 k_res errno
  ensures[one-call] k_n = old k_n + 1
  ensures[number] k_nr = 107
  ensures[result] 0 <= k_res <= 4294967295 -> result = k_res
  ensures[error] k_res < 0 -> result = 4294967295
  ensures[errno] errno = (if k_res < 0 then 0 - k_res else 0)

fn getgid
  file lib/linux/getgid.c
  params
  uses sys.Sys
  writes k_n k_nr k_1 k_2 k_3 k_4 k_res errno
  ensures[one-call] k_n = old k_n + 1
  ensures[number] k_nr = 104
  ensures[result] 0 <= k_res <= 4294967295 -> result = k_res
  ensures[error] k_res < 0 -> result = 4294967295
  ensures[errno] errno = (if k_res < 0 then 0 - k_res else 0)

fn getpid
  file lib/linux/getpid.c
  params
  uses sys.Sys
  writes k_n k_nr k_1 k_2 k_3 k_4 k_res errno
  ensures[one-call] k_n = old k_n + 1
  ensures[number] k_nr = 39
  ensures[result] k_res <= 2147483647 -> result = sysret k_res
  ensures[errno] errno = (if k_res < 0 then 0 - k_res else 0)

fn getppid
  file lib/linux/getppid.c
  params
  uses sys.Sys
  writes k_n k_nr k_1 k_2 k_3 k_4 k_res errno
  ensures[one-call] k_n = old k_n + 1
  ensures[number] k_nr = 110
  ensures[result] k_res <= 2147483647 -> result = sysret k_res
  ensures[errno] errno = (if k_res < 0 then 0 - k_res else 0)

fn getrusage
  file lib/linux/getrusage.c
  params a_processes a_rusage
  uses sys.Sys
  writes k_n k_nr k_1 k_2 k_3 k_4 k_res errno
  ensures[one-call] k_n = old k_n + 1
  ensures[number] k_nr = 98
  ensures[argument-1] k_1 = cast_s64 a_processes
  ensures[argument-2] k_2 = a_rusage
  ensures[result] k_res <= 2147483647 -> result = sysret k_res
  ensures[errno] errno = (if k_res < 0 then 0 - k_res else 0)

fn gettimeofday
  file lib/linux/gettimeofday.c
  params a_tv a_tz
  uses sys.Sys
  writes k_n k_nr k_1 k_2 k_3 k_4 k_res errno
  ensures[one-call] k_n = old k_n + 1
  ensures[number] k_nr = 96
  ensures[argument-1] k_1 = a_tv
  ensures[argument-2] k_2 = a_tz
  ensures[result] k_res <= 2147483647 -> result = sysret k_res
  ensures[errno] errno = (if k_res < 0 then 0 - k_res else 0)

fn getuid
  file lib/linux/getuid.c
  params
  uses sys.Sys
  writes k_n k_nr k_1 k_2 k_3 k_4 k_res errno
  ensures[one-call] k_n = old k_n + 1
  ensures[number] k_nr = 102
  ensures[result] 0 <= k_res <= 4294967295 -> result = k_res
  ensures[error] k_res < 0 -> result = 4294967295
  ensures[errno] errno = (if k_res < 0 then 0 - k_res else 0)

fn ioctl3
  file lib/linux/ioctl3.c
  params a_filedes a_command a_data
  uses sys.Sys
  writes k_n k_nr k_1 k_2 k_3 k_4 k_res errno
  ensures[one-call] k_n = old k_n + 1
  ensures[number] k_nr = 16
  ensures[argument-1] k_1 = cast_s64 a_filedes
  ensures[argument-2] k_2 = cast_s64 a_command
  ensures[argument-3] k_3 = cast_s64 a_data
  ensures[result] k_res <= 2147483647 -> result = sysret k_res
  ensures[errno] errno = (if k_res < 0 then 0 - k_res else 0)

fn kill
  file lib/linux/kill.c
  params a_pid a_signum
  uses sys.Sys
  writes k_n k_nr k_1 k_2 k_3 k_4 k_res errno
  ensures[one-call] k_n = old k_n + 1
  ensures[number] k_nr = 62
  ensures[argument-1] k_1 = cast_s64 a_pid
  ensures[argument-2] k_2 = cast_s64 a_signum
  ensures[result] k_res <= 2147483647 -> result = sysret k_res
  ensures[errno] errno = (if k_res < 0 then 0 - k_res else 0)

fn link
  file lib/linux/link.c
  params a_old_name a_new_name
  uses sys.Sys
  writes k_n k_nr k_1 k_2 k_3 k_4 k_res errno
  ensures[one-call] k_n = old k_n + 1
  ensures[number] k_nr = 86
  ensures[argument-1] k_1 = a_old_name
  ensures[argument-2] k_2 = a_new_name
  ensures[result] k_res <= 2147483647 -> result = sysret k_res
  ensures[errno] errno = (if k_res < 0 then 0 - k_res else 0)

fn _lseek
  file lib/linux/lseek.c
  params a_filedes a_offset a_whence
  uses sys.Sys
  writes k_n k_nr k_1 k_2 k_3 k_4 k_res errno
  ensures[one-call] k_n = old k_n + 1
  ensures[number] k_nr = 8
  ensures[argument-1] k_1 = cast_s64 a_filedes
  ensures[argument-2] k_2 = cast_s64 a_offset
  ensures[argument-3] k_3 = cast_s64 a_whence
  ensures[result] result = sysret k_res
  ensures[errno] errno = (if k_res < 0 then 0 - k_res else 0)

fn lstat
  file lib/linux/lstat.c
  params a_file_name a_statbuf
  uses sys.Sys
  writes k_n k_nr k_1 k_2 k_3 k_4 k_res errno
  ensures[one-call] k_n = old k_n + 1
  ensures[number] k_nr = 6
  ensures[argument-1] k_1 = a_file_name
  ensures[argument-2] k_2 = a_statbuf
  ensures[result] k_res <= 2147483647 -> result = sysret k_res
  ensures[errno] errno = (if k_res < 0 then 0 - k_res else 0)

fn mkdir
  file lib/linux/mkdir.c
  params a_file_name a_mode
  uses sys.Sys
  writes k_n k_nr k_1 k_2 k_3 k_4 k_res errno
  ensures[one-call] k_n = old k_n + 1
  ensures[number] k_nr = 83
  ensures[argument-1] k_1 = a_file_name
  ensures[argument-2] k_2 = cast_s64 a_mode
  ensures[result] k_res <= 2147483647 -> result = sysret k_res
  ensures[errno] errno = (if k_res < 0 then 0 - k_res else 0)

fn mknod
  file lib/linux/mknod.c
  params a_file_name a_mode a_dev
  uses sys.Sys
  writes k_n k_nr k_1 k_2 k_3 k_4 k_res errno
  ensures[one-call] k_n = old k_n + 1
  ensures[number] k_nr = 133
  ensures[argument-1] k_1 = a_file_name
  ensures[argument-2] k_2 = cast_s64 a_mode
  ensures[argument-3] k_3 = cast_s64 a_dev
  ensures[result] k_res <= 2147483647 -> result = sysret k_res
  ensures[errno] errno = (if k_res < 0 then 0 - k_res else 0)

fn nanosleep
  file lib/linux/nanosleep.c
  params a_requested_time a_remaining
  uses sys.Sys
  writes k_n k_nr k_1 k_2 k_3 k_4 k_res errno
  ensures[one-call] k_n = old k_n + 1
  ensures[number] k_nr = 35
  ensures[argument-1] k_1 = a_requested_time
  ensures[argument-2] k_2 = a_remaining
  ensures[result] k_res <= 2147483647 -> result = sysret k_res
  ensures[errno] errno = (if k_res < 0 then 0 - k_res else 0)

fn pipe
  file lib/linux/pipe.c
  params a_filedes
  uses sys.Sys
  writes k_n k_nr k_1 k_2 k_3 k_4 k_res errno
  ensures[one-call] k_n = old k_n + 1
  ensures[number] k_nr = 22
  ensures[argument-1] k_1 = a_filedes
  ensures[result] k_res <= 2147483647 -> result = sysret k_res
  ensures[errno] errno = (if k_res < 0 then 0 - k_res else 0)

fn readlink
  file lib/linux/readlink.c
  params a_file_name a_buffer a_size
  uses sys.Sys
  writes k_n k_nr k_1 k_2 k_3 k_4 k_res errno
  ensures[one-call] k_n = old k_n + 1
  ensures[number] k_nr = 89
  ensures[argument-1] k_1 = a_file_name
  ensures[argument-2] k_2 = a_buffer
  ensures[argument-3] k_3 = cast_s64 a_size
  ensures[result] result = sysret k_res
  ensures[errno] errno = (if k_res < 0 then 0 - k_res else 0)

fn rename
  file lib/linux/rename.c
  params a_old_name a_new_name
  uses sys.Sys
  writes k_n k_nr k_1 k_2 k_3 k_4 k_res errno
  ensures[one-call] k_n = old k_n + 1
  ensures[number] k_nr = 82
  ensures[argument-1] k_1 = a_old_name
  ensures[argument-2] k_2 = a_new_name
  ensures[result] k_res <= 2147483647 -> result = sysret k_res
  ensures[errno] errno = (if k_res < 0 then 0 - k_res else 0)

fn rmdir
  file lib/linux/rmdir.c
  params a_file_name
  uses sys.Sys
  writes k_n k_nr k_1 k_2 k_3 k_4 k_res errno
  ensures[one-call] k_n = old k_n + 1
  ensures[number] k_nr = 84
  ensures[argument-1] k_1 = a_file_name
  ensures[result] k_res <= 2147483647 -> result = sysret k_res
  ensures[errno] errno = (if k_res < 0 then 0 - k_res else 0)

fn setgid
  file lib/linux/setgid.c
  params a_newgid
  uses sys.Sys
  writes k_n k_nr k_1 k_2 k_3 k_4 k_res errno
  ensures[one-call] k_n = old k_n + 1
  ensures[number] k_nr = 106
  ensures[argument-1] k_1 = cast_s64 a_newgid
  ensures[result] k_res <= 2147483647 -> result = sysret k_res
  ensures[errno] errno = (if k_res < 0 then 0 - k_res else 0)

fn setitimer
  file lib/linux/settimer.c
  params a_which a_new a_old
  uses sys.Sys
  writes k_n k_nr k_1 k_2 k_3 k_4 k_res errno
  ensures[one-call] k_n = old k_n + 1
  ensures[number] k_nr = 38
  ensures[argument-1] k_1 = cast_s64 a_which
  ensures[argument-2] k_2 = a_new
  ensures[argument-3] k_3 = a_old
  ensures[result] k_res <= 2147483647 -> result = sysret k_res
  ensures[errno] errno = (if k_res < 0 then 0 - k_res else 0)

fn setuid
  file lib/linux/setuid.c
  params a_newuid
  uses sys.Sys
  writes k_n k_nr k_1 k_2 k_3 k_4 k_res errno
  ensures[one-call] k_n = old k_n + 1
  ensures[number] k_nr = 105
  ensures[argument-1] k_1 = cast_s64 a_newuid
  ensures[result] k_res <= 2147483647 -> result = sysret k_res
  ensures[errno] errno = (if k_res < 0 then 0 - k_res else 0)

fn sigprocmask
  file lib/linux/sigprogmask.c
  params a_how a_set a_oldset
  uses sys.Sys
  writes k_n k_nr k_1 k_2 k_3 k_4 k_res errno
  ensures[one-call] k_n = old k_n + 1
  ensures[number] k_nr = 14
  ensures[argument-1] k_1 = cast_s64 a_how
  ensures[argument-2] k_2 = a_set
  ensures[argument-3] k_3 = a_oldset
  ensures[result] k_res <= 2147483647 -> result = sysret k_res
  ensures[errno] errno = (if k_res < 0 then 0 - k_res else 0)

fn stat
  file lib/linux/stat.c
  params a_file_name a_statbuf
  uses sys.Sys
  writes k_n k_nr k_1 k_2 k_3 k_4 k_res errno
  ensures[one-call] k_n = old k_n + 1
  ensures[number] k_nr = 4
  ensures[argument-1] k_1 = a_file_name
  ensures[argument-2] k_2 = a_statbuf
  ensures[result] k_res <= 2147483647 -> result = sysret k_res
  ensures[errno] errno = (if k_res < 0 then 0 - k_res else 0)

fn symlink
  file lib/linux/symlink.c
  params a_old_name a_new_name
  uses sys.Sys
  writes k_n k_nr k_1 k_2 k_3 k_4 k_res errno
  ensures[one-call] k_n = old k_n + 1
  ensures[number] k_nr = 88
  ensures[argument-1] k_1 = a_old_name
  ensures[argument-2] k_2 = a_new_name
  ensures[result] k_res <= 2147483647 -> result = sysret k_res
  ensures[errno] errno = (if k_res < 0 then 0 - k_res else 0)

fn unlink
  file lib/linux/unlink.c
  params a_file_name
  uses sys.Sys
  writes k_n k_nr k_1 k_2 k_3 k_4 k_res errno
  ensures[one-call] k_n = old k_n + 1
  ensures[number] k_nr = 87
  ensures[argument-1] k_1 = a_file_name
  ensures[result] k_res <= 2147483647 -> result = sysret k_res
  ensures[errno] errno = (if k_res < 0 then 0 - k_res else 0)

fn waitpid
  file lib/linux/waitpid.c
  params a_pid a_status_ptr a_options
  uses sys.Sys
  writes k_n k_nr k_1 k_2 k_3 k_4 k_res errno
  ensures[one-call] k_n = old k_n + 1
  ensures[number] k_nr = 61
  ensures[argument-1] k_1 = cast_s64 a_pid
  ensures[argument-2] k_2 = a_status_ptr
  ensures[argument-3] k_3 = cast_s64 a_options
  ensures[argument-4] k_4 = 0
  ensures[result] k_res <= 2147483647 -> result = sysret k_res
  ensures[errno] errno = (if k_res < 0 then 0 - k_res else 0)

fn _getcwd
  file lib/linux/_getcwd.c
  params buffer size
  uses sys.Sys
  writes k_n k_nr k_1 k_2 k_3 k_4 k_res errno
  ensures[one-call] k_n = old k_n + 1 /\ k_nr = 79 /\ k_1 = buffer /\ k_2 = cast_s64 size
  ensures[result] k_res <= 2147483647 -> result = (if k_res < 0 then 0 else buffer)
  ensures[errno] errno = (if k_res < 0 then 0 - k_res else 0)


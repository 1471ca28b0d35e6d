S (access, 21, "li", 'i')
S (chdir, 80, "l", 'i')
S (chmod, 90, "li", 'i')
S (clock_gettime, 228, "il", 'i')
S (dup, 32, "i", 'i')
S (dup2, 33, "ii", 'i')
S (execve, 59, "lll", 'i')
S (fork, 57, "", 'i')
S (fstat, 5, "il", 'i')
S (fsync, 74, "i", 'i')
S (getdents, 78, "ill", 'i')
S (getegid, 108, "", 'u')
S (geteuid, 107, "", 'u')
S (getgid, 104, "", 'u')
S (getpid, 39, "", 'i')
S (getppid, 110, "", 'i')
S (getrusage, 98, "il", 'i')
S (gettimeofday, 96, "ll", 'i')
S (getuid, 102, "", 'u')
S (ioctl3, 16, "ill", 'i')
S (kill, 62, "ii", 'i')
S (link, 86, "ll", 'i')
S (_lseek, 8, "ili", 'l')
S (lstat, 6, "ll", 'i')
S (mkdir, 83, "li", 'i')
S (mknod, 133, "lil", 'i')
S (nanosleep, 35, "ll", 'i')
S (pipe, 22, "l", 'i')
S (readlink, 89, "lll", 'l')
S (_read, 0, "ill", 'l')
S (rename, 82, "ll", 'i')
S (rmdir, 84, "l", 'i')
S (setgid, 106, "i", 'i')
S (setitimer, 38, "ill", 'i')
S (setuid, 105, "i", 'i')
S (sigprocmask, 14, "ill", 'i')
S (stat, 4, "ll", 'i')
S (symlink, 88, "ll", 'i')
S (unlink, 87, "l", 'i')
S (waitpid, 61, "ili0", 'i')

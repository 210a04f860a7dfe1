/* Reports FAKE_CPUS processors to whoever asks how many there are (std::thread::available_parallelism). */
#define _GNU_SOURCE
#include <sched.h>
#include <stdlib.h>
#include <string.h>
int sched_getaffinity(pid_t pid, size_t size, cpu_set_t *set) {
    const char *s = getenv("FAKE_CPUS");
    int n = s ? atoi(s) : 1;
    (void)pid;
    memset(set, 0, size);
    for (int i = 0; i < n && (size_t)i < size * 8; i++) CPU_SET_S(i, size, set);
    return 0;
}

/* rtlaunch CPU_SECONDS FSIZE_BYTES(negative: limit that ends the run) CLOSE_STDOUT(0|1) ENVN [K=V]... prog args...
 * sets resource limits, extra environment (so that LD_PRELOAD reaches only the tool), then execs the tool. */
#include <stdio.h>
#include <stdlib.h>
#include <signal.h>
#include <string.h>
#include <sys/resource.h>
#include <unistd.h>
int main(int argc, char **argv)
{
    if (argc < 6) return 120;
    struct rlimit r;
    long cpu = atol(argv[1]), fsize = atol(argv[2]);
    int close_out = atoi(argv[3]), n = atoi(argv[4]);
    r.rlim_cur = cpu; r.rlim_max = cpu + 5;
    setrlimit(RLIMIT_CPU, &r);
    r.rlim_cur = r.rlim_max = 0;
    setrlimit(RLIMIT_CORE, &r);
    r.rlim_cur = r.rlim_max = 4L << 30;
    setrlimit(RLIMIT_AS, &r);
    if (fsize < 0) {           /* only a guard against endless output: ends the run by SIGXFSZ */
        r.rlim_cur = r.rlim_max = -fsize;
        setrlimit(RLIMIT_FSIZE, &r);
    } else {
        r.rlim_cur = r.rlim_max = fsize;
        signal(SIGXFSZ, SIG_IGN);
        setrlimit(RLIMIT_FSIZE, &r);
    }
    if (close_out) close(1);
    for (int i = 0; i < n; i++) putenv(argv[5 + i]);
    execv(argv[5 + n], argv + 5 + n);
    perror("rtlaunch");
    return 121;
}

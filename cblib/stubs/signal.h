/* stand-in used when the probes are compiled for a target whose libc headers are not installed */
void (*signal(int, void (*)(int)))(int);

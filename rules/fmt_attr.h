int RKLog(const char *, ...) __attribute__((format(printf, 1, 2)));

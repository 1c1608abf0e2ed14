// What is written to standard output (the file descriptor) during a call.
#pragma once
#include <sys/mman.h>
#include <unistd.h>
#include <cstdio>
#include <iostream>
#include <string>
struct StdoutCapture {
    int fd, saved;
    StdoutCapture() {
        fflush(stdout); std::cout.flush();
        fd = memfd_create("cap", 0); saved = dup(1); dup2(fd, 1);
    }
    std::string stop() {
        fflush(stdout); std::cout.flush();
        dup2(saved, 1); close(saved);
        off_t n = lseek(fd, 0, SEEK_END);
        std::string s; char b[4096]; lseek(fd, 0, SEEK_SET);
        while (s.size() < 3000) { ssize_t k = read(fd, b, sizeof b); if (k <= 0) break; s.append(b, k); }
        close(fd); total = (long)n;
        return s;
    }
    long total = 0;
};

// Reads behaviours (one JSON object per line), executes each in a forked child and writes the recorded events.
#pragma once
#include "mjson.hpp"
#include <fstream>
#include <functional>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include <csignal>
inline int forkLoop(int argc, char** argv, std::function<std::string(const JV&)> doStep, std::function<void()> cleanup) {
  if (argc < 3) return 2; std::ifstream in(argv[1]); FILE* out = fopen(argv[2], "w"); if (!out) return 2;
  int dn = open("/dev/null", O_WRONLY); if (!getenv("QPD_KEEP")) { dup2(dn, 1); dup2(dn, 2); }
  size_t cap = 16 << 20; char* mem = (char*)mmap(0, cap + 64, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  std::string line; int hangs = 0;
  while (std::getline(in, line)) {
    if (line.empty() || hangs >= 3) continue; JV b = jparse(line); size_t* len = (size_t*)mem; *len = 0; OutBuf ob{mem + 64, cap, len};
    size_t* cnt = (size_t*)(mem + 16); *cnt = 0;
    pid_t pid = fork();
    if (pid == 0) { alarm(20); try {
        for (size_t k = 0; k < b["steps"].size(); ++k) { const JV& s = b["steps"][k]; std::string r = doStep(s); ob.put(std::string(k ? "," : "") + "{\"c\":" + s.raw + ",\"o\":{" + r + "}}"); ++*cnt; }
        cleanup(); } catch (std::exception& e) { *len = 0; ob.put(e.what()); _exit(77); }
      _exit(0); }
    int st; waitpid(pid, &st, 0); std::string end = "ok", body(mem + 64, *len);
    if (WIFSIGNALED(st)) end = WTERMSIG(st) == SIGALRM ? (++hangs, "hang") : "crash"; else if (WEXITSTATUS(st) == 77) end = "driver"; else if (WEXITSTATUS(st) != 0) end = "crash";
    if (end == "driver") { fprintf(out, "{\"id\":%ld,\"end\":\"driver\",\"next\":{\"op\":\"none\"},\"msg\":\"%s\",\"ev\":[]}\n", b["id"].i, body.c_str()); continue; }
    std::string next = "{\"op\":\"none\"}"; if (end != "ok" && *cnt < b["steps"].size()) next = b["steps"][*cnt].raw;
    fprintf(out, "{\"id\":%ld,\"end\":\"%s\",\"next\":%s,\"ev\":[%s]}\n", b["id"].i, end.c_str(), next.c_str(), body.c_str());
  }
  fclose(out); return 0; }

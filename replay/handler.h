// Driving a handler with a real connection over a scripted device.
#pragma once
#include "conn.h"
#include "HttpHandler.h"
#include <sys/stat.h>
#include <sys/resource.h>
#include <unistd.h>
#include <fcntl.h>
#include <cerrno>
struct SDev : Dev { qint64 peak; SDev() : peak(0) {} qint64 writeData(const char* d, qint64 n) { qint64 r = Dev::writeData(d, n); peak = std::max(peak, pendingWrite); return r; } void drain(qint64 n) { n = std::min(n, pendingWrite); pendingWrite -= n; emit bytesWritten(n); } };
static std::string scratch() { const char* s = getenv("REPLAY_SCRATCH"); return s && *s ? s : "."; }
static void put(const std::string& path, const std::string& data) { FILE* f = fopen(path.c_str(), "wb"); if (!f) { printf("cannot write %s\n", path.c_str()); exit(3); } fwrite(data.data(), 1, data.size(), f); fclose(f); }
static std::string encodeAll(const std::string& s) { std::string r; for (unsigned char c : s) { bool plain = isalnum(c) || c == '/' || c == '.' || c == '-' || c == '_'; if (!plain || rnd(6) == 0) { char b[5]; snprintf(b, 5, rnd(2) ? "%%%02X" : "%%%02x", c); r += b; } else r += char(c); } return r; }

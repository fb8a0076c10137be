// Shared helpers of the replay harnesses: each harness states its property as an executable oracle and runs the real code.
#pragma once
#include <QtCore/QtCore>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <functional>
#include <random>
#include <ctime>
static std::string g_case;                       // description of the input being tried, printed by the sanitizer hook too
static double g_deadline = 0;
static double nowSec() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
#include <sys/time.h>
static void watch() { itimerval t = { {0, 0}, {40, 0} }; setitimer(ITIMER_PROF, &t, 0); }   // 40 s of processor time without a step of the oracle: the code under test loops
static bool timeLeft() { watch(); return nowSec() < g_deadline; }
static std::mt19937_64 g_rng;
static unsigned rnd(unsigned n) { return n ? unsigned(g_rng() % n) : 0; }
static std::string esc(const QByteArray& b) { std::string r = "\""; for (int i = 0; i < b.size(); ++i) { unsigned char c = b[i]; char t[8]; if (c == '\\' || c == '"') { r += '\\'; r += char(c); } else if (c < 32 || c > 126) { snprintf(t, 8, "\\x%02x", c); r += t; } else r += char(c); if (i > 600) { r += "..."; break; } } return r + "\""; }
static std::string esc(const QString& s) { return esc(s.toUtf8()); }
extern "C" void __asan_set_death_callback(void (*)(void)) __attribute__((weak));
extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
static void onDeath() { printf("REPLAY-FAIL sanitizer report or crash on input: %s\n", g_case.c_str()); fflush(stdout); }
static void quiet(QtMsgType, const QMessageLogContext&, const QString&) {}
#include <csignal>
static void onSignal(int s) { onDeath(); signal(s, SIG_DFL); _exit(77); }
static void onHang(int) { printf("REPLAY-FAIL input: %s\n  does not come to an end: 40 s of processor time spent\n", g_case.c_str()); fflush(stdout); _exit(1); }
static void init()
{
	setvbuf(stdout, 0, _IOLBF, 0);
	const char* s = getenv("REPLAY_SECONDS"); g_deadline = nowSec() + (s ? atof(s) : 60);
	const char* d = getenv("REPLAY_SEED"); g_rng.seed(d ? strtoull(d, 0, 10) : 1);
	qInstallMessageHandler(quiet);
	if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(onDeath);
	signal(SIGABRT, onSignal); signal(SIGPROF, onHang); watch();
}
#define FAIL(...) do { printf("REPLAY-FAIL input: %s\n  ", g_case.c_str()); printf(__VA_ARGS__); printf("\n"); fflush(stdout); _exit(1); } while (0)
#define CHECK(c, ...) do { if (!(c)) FAIL(__VA_ARGS__); } while (0)

// A stand-in for emscripten's header: EM_ASM snippets run in a node process (host.js).
#pragma once
#include "web_host.hpp"
#define EMSCRIPTEN_KEEPALIVE __attribute__((used))
#define WEB_HOST_ID [] { static int const id = ::web_host::next_snippet(); return id; }()
#define EM_ASM(code, ...) ((void) ::web_host::run('0', WEB_HOST_ID, #code __VA_OPT__(,) __VA_ARGS__))
#define EM_ASM_(code, ...) (static_cast<int>(::web_host::run('i', WEB_HOST_ID, #code __VA_OPT__(,) __VA_ARGS__)))
#define EM_ASM_ARGS(code, ...) (static_cast<int>(::web_host::run('i', WEB_HOST_ID, #code __VA_OPT__(,) __VA_ARGS__)))
#define EM_ASM_INT(code, ...) (static_cast<int>(::web_host::run('i', WEB_HOST_ID, #code __VA_OPT__(,) __VA_ARGS__)))
#define EM_ASM_DOUBLE(code, ...) (::web_host::run('d', WEB_HOST_ID, #code __VA_OPT__(,) __VA_ARGS__))
#define EM_ASM_INT_V(code) EM_ASM_INT(code)
#define EM_ASM_DOUBLE_V(code) EM_ASM_DOUBLE(code)
// JavaScript's Math.random(), as a harness lets it come out
#include <functional>
inline std::function<float()>& emscripten_random_source() { static thread_local std::function<float()> f; return f; }
inline float emscripten_random() { return emscripten_random_source() ? emscripten_random_source()() : 0; }

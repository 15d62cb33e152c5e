#pragma once
// Called by the engine around every case; implemented by the simulated OS.
void hooks_case_begin();
void hooks_case_end();
[[noreturn]] void hooks_real_exit(int rc);

#pragma once
#include <stdint.h>
void lps_sched_choice(int c);
void lps_sched_config(int preempt, int timeouts, int idle, int races, int spurious);
void lps_sched_progress();
bool lps_sched_leftover();
uint64_t lps_live_blocks();

#pragma once
void rtosStart();            // starts the timer service task
void rtosStop();
int rtosLiveTimers();        // native timers which were not deleted
int rtosTimerTid();
